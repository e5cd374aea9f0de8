package core

import (
	"context"
	"fmt"
	"net/url"
	"strconv"
	"strings"

	"github.com/yields/ant"
	"golang.org/x/net/html"
	"pgregory.net/rapid"
)

// Generated documents, selectors and an evaluator of selectors that walks the
// tree, used by C11 to C14.

type nodeP struct {
	Tag   string      `json:"t"` // "": text, "!": comment
	Text  string      `json:"x,omitempty"`
	Attrs [][2]string `json:"a,omitempty"`
	Kids  []nodeP     `json:"k,omitempty"`
}

type docP struct {
	Nodes []nodeP `json:"nodes"`
	Muts  []mutP  `json:"muts"`           // edits of the serialised bytes
	Rep   int     `json:"rep,omitempty"`  // the nodes are repeated
	Nest  int     `json:"nest,omitempty"` // inside of so many elements
	Long  int     `json:"long,omitempty"` // bytes added to every text
	PadKB int     `json:"pad,omitempty"`  // kilobytes of comments between the nodes
}

type mutP struct {
	Pos int    `json:"p"`
	Del int    `json:"d"`
	Ins string `json:"i"`
}

var docTags = []string{"div", "span", "p", "a", "a", "a", "a", "a", "a", "ul", "li", "b", "i", "em", "h1", "section", "x-y", "table", "tr", "td", "br", "img", "title", "form", "svg"}
var docClasses = []string{"c", "d", "next", "item", "c d", "item next", "cc", " c\td ", "", "C", "Next", "C d"}

// uni draws uniformly: rapid's integers are mostly small.
func uni(t *rapid.T, lo, hi int, label string) int {
	r := make([]int, 0, hi-lo+1)
	for i := lo; i <= hi; i++ {
		r = append(r, i)
	}
	return rapid.SampledFrom(r).Draw(t, label)
}

// oneIn is true once in n draws.
// pick chooses one of the values, all equally likely.
func pick[T any](t *rapid.T, label string, vals ...T) T {
	return vals[uni(t, 0, len(vals)-1, label)]
}

func oneIn(t *rapid.T, n int, label string) bool { return uni(t, 0, n-1, label) == n-1 }

func genText(t *rapid.T) string {
	return rapid.SampledFrom([]string{"a", "foo", " bar ", "7", "42", "-3", "1.5", "x&y", "<", "é", "\n ", "0", "1e3", " 5", "\"q\"", "18446744073709551615", "abc def"}).Draw(t, "text")
}

func genNode(t *rapid.T, depth int, href func(*rapid.T) string) nodeP {
	switch k := rapid.SampledFrom([]int{1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 2}).Draw(t, "nk"); {
	case k == 0:
		return nodeP{Text: genText(t)}
	case k == 2:
		return nodeP{Tag: "!", Text: genText(t)}
	}
	n := nodeP{Tag: rapid.SampledFrom(docTags).Draw(t, "tag")}
	if rapid.Bool().Draw(t, "hasclass") {
		n.Attrs = append(n.Attrs, [2]string{"class", rapid.SampledFrom(docClasses).Draw(t, "class")})
	}
	if oneIn(t, 6, "hasid") {
		n.Attrs = append(n.Attrs, [2]string{"id", rapid.SampledFrom([]string{"k", "m", "n", "K"}).Draw(t, "id")})
	}
	if n.Tag == "a" || oneIn(t, 8, "hashref") {
		if !oneIn(t, 7, "nohref") {
			n.Attrs = append(n.Attrs, [2]string{rapid.SampledFrom([]string{"href", "href", "href", "HREF"}).Draw(t, "hrefkey"), href(t)})
		}
	}
	if oneIn(t, 5, "hasdata") {
		n.Attrs = append(n.Attrs, [2]string{rapid.SampledFrom([]string{"data-v", "lang", "title"}).Draw(t, "dk"), rapid.SampledFrom([]string{"1", "12", "en", "en-US", "foo bar", "x", "", " ", "4.25", "-9", "X", "EN", "foo  bar"}).Draw(t, "dv")})
	}
	if oneIn(t, 16, "dup") && len(n.Attrs) > 0 {
		d := n.Attrs[len(n.Attrs)-1]
		n.Attrs = append(n.Attrs, [2]string{d[0], "dup"})
	}
	if depth > 0 {
		m := uni(t, 0, 4, "kids")
		for i := 0; i < m; i++ {
			n.Kids = append(n.Kids, genNode(t, depth-1, href))
		}
	}
	return n
}

func genDoc(t *rapid.T, href func(*rapid.T) string) docP {
	var d docP
	n := uni(t, 1, 9, "nodes")
	for i := 0; i < n; i++ {
		d.Nodes = append(d.Nodes, genNode(t, uni(t, 1, 4, "depth"), href))
	}
	if oneIn(t, 5, "mutate") {
		m := uni(t, 1, 4, "nmut")
		for i := 0; i < m; i++ {
			d.Muts = append(d.Muts, mutP{
				Pos: uni(t, 0, 400, "mpos"), Del: uni(t, 0, 3, "mdel"),
				Ins: rapid.SampledFrom([]string{"", "<", ">", "</", "\"", "<a href=", "&", "<!--", "<p>", "</p>", "<table>", "<script>", "<template>", "</a>", "\x00", "<body>", "<base href=/z/>"}).Draw(t, "mins"),
			})
		}
	}
	return d
}

// enlarge makes a document large: long, with many elements, or deep.
func enlarge(t *rapid.T, d *docP, rep int) {
	switch uni(t, 0, 4, "large") {
	case 4:
		d.Long = pick(t, "longtext", 300, 1100, 4200, 9000, 40000, 70000)
	case 0:
		d.Rep = uni(t, 5, rep, "rep")
	case 1:
		d.PadKB = pick(t, "padkb", 5, 33, 70, 140, 600, 1100)
	case 2:
		d.Nest = uni(t, 20, 150, "nest")
	case 3:
		d.Rep = uni(t, 5, rep, "rep2")
		d.PadKB = pick(t, "padkb2", 5, 70, 300)
		d.Nest = uni(t, 0, 30, "nest2")
	}
}

func genHref(t *rapid.T) string {
	return rapid.SampledFrom([]string{"/x", "y", "?q=1", "http://h.test/z", "#f", "mailto:a@b.c", "http:///x", "//other.test/p", "../u"}).Draw(t, "href")
}

func genPlainDoc(t *rapid.T) docP { return genDoc(t, genHref) }

func (d docP) bytes() []byte {
	var b strings.Builder
	var walk func(n nodeP)
	walk = func(n nodeP) {
		switch n.Tag {
		case "":
			b.WriteString(html.EscapeString(n.Text))
			b.WriteString(strings.Repeat("0123456 89", d.Long/10))
			return
		case "!":
			b.WriteString("<!--" + n.Text + "-->")
			return
		}
		b.WriteString("<" + n.Tag)
		for _, a := range n.Attrs {
			b.WriteString(" " + a[0] + `="` + html.EscapeString(a[1]) + `"`)
		}
		b.WriteString(">")
		for _, k := range n.Kids {
			walk(k)
		}
		if n.Tag != "br" && n.Tag != "img" {
			b.WriteString("</" + n.Tag + ">")
		}
	}
	for i := 0; i < d.Nest; i++ {
		b.WriteString([]string{"<div>", "<section>", "<ul>"}[i%3])
	}
	for r := 0; r <= d.Rep; r++ {
		for i, n := range d.Nodes {
			walk(n)
			if r == 0 && i == 0 && d.PadKB > 0 {
				b.WriteString("<!--" + strings.Repeat("filler, not a tag. ", d.PadKB*1024/19) + "-->")
			}
		}
	}
	s := b.String()
	for _, m := range d.Muts {
		if len(s) == 0 {
			break
		}
		p := m.Pos % (len(s) + 1)
		e := min(p+m.Del, len(s))
		s = s[:p] + m.Ins + s[e:]
	}
	return []byte(s)
}

// refDoc parses the document a second time and numbers its nodes.
type refDoc struct {
	root  *html.Node
	nodes []*html.Node // in document order
	num   map[*html.Node]int
}

func numberDoc(root *html.Node) *refDoc {
	r := &refDoc{root: root, num: map[*html.Node]int{}}
	var walk func(n *html.Node)
	walk = func(n *html.Node) {
		r.num[n] = len(r.nodes)
		r.nodes = append(r.nodes, n)
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c)
		}
	}
	walk(root)
	return r
}

func parseRef(b []byte) (*refDoc, error) {
	root, err := html.Parse(strings.NewReader(string(b)))
	if err != nil {
		return nil, err
	}
	return numberDoc(root), nil
}

// fetchPage fetches a page whose response has the given body and final URL.
func fetchPage(base string, b []byte) (*ant.Page, error) {
	u, err := url.Parse(base)
	if err != nil {
		return nil, err
	}
	w := newWeb(func(reqT) reply { return reply{status: 200, body: b} })
	return (&ant.Fetcher{Client: w}).Fetch(context.Background(), u)
}

// ---- selectors ---------------------------------------------------------------

type simpleP struct {
	Kind string      `json:"k"` // class id attr attr= ~= |= ^= $= *= not has first last only nth nthlast nthtype root
	A    string      `json:"a,omitempty"`
	B    string      `json:"b,omitempty"`
	N    int         `json:"n,omitempty"` // an+b
	M    int         `json:"m,omitempty"`
	Sub  []compoundP `json:"s,omitempty"`
}

type compoundP struct {
	Comb   string    `json:"c,omitempty"` // combinator to the previous one
	Tag    string    `json:"t,omitempty"`
	Simple []simpleP `json:"s,omitempty"`
}

// selP is a selector: a list of alternatives. Raw overrides (invalid selectors).
type selP struct {
	Raw string        `json:"raw,omitempty"`
	Alt [][]compoundP `json:"alt,omitempty"`
}

var badSelectors = []string{"[", "--", "", "a >", "li:nth-child(", "..", "a[href", ":nosuch", "@", "1a", ">", ":not("}

func genCompound(t *rapid.T, depth int) compoundP {
	var c compoundP
	if !oneIn(t, 3, "hastag") {
		c.Tag = rapid.SampledFrom([]string{"a", "li", "div", "span", "p", "ul", "b", "*", "h1", "x-y", "td", "title", "body", "html", "LI"}).Draw(t, "seltag")
	}
	n := rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "nsimple")
	if c.Tag == "" && n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]string{"class", "class", "class", "id", "attr", "attr", "=", "~=", "|=", "^=", "$=", "*=", "not", "has", "first", "last", "only", "nth", "nthlast", "nthtype", "root"}).Draw(t, "skind")
		s := simpleP{Kind: k}
		switch k {
		case "class":
			s.A = rapid.SampledFrom([]string{"c", "d", "next", "item", "cc", "zz", "C", "Next"}).Draw(t, "scls")
		case "id":
			s.A = rapid.SampledFrom([]string{"k", "m", "z", "K"}).Draw(t, "sid")
		case "attr", "=", "~=", "|=", "^=", "$=", "*=":
			s.A = rapid.SampledFrom([]string{"href", "class", "data-v", "lang", "id"}).Draw(t, "sak")
			s.B = rapid.SampledFrom([]string{"c", "1", "en", "foo", "x", "/x", "bar", "e", "C", "X", "EN", "foo bar", "foo  bar"}).Draw(t, "sav")
		case "nth", "nthlast", "nthtype":
			s.N = uni(t, -2, 3, "na")
			s.M = uni(t, -1, 4, "nb")
		case "not", "has":
			if depth == 0 {
				s = simpleP{Kind: "attr", A: "class"}
				break
			}
			s.Sub = append(s.Sub, genCompound(t, depth-1))
			if oneIn(t, 4, "sub2") {
				s.Sub = append(s.Sub, genCompound(t, depth-1))
			}
		}
		c.Simple = append(c.Simple, s)
	}
	return c
}

func genSel(t *rapid.T) selP {
	if oneIn(t, 15, "badsel") {
		return selP{Raw: rapid.SampledFrom(badSelectors).Draw(t, "bad")}
	}
	var s selP
	n := rapid.SampledFrom([]int{1, 1, 1, 1, 2}).Draw(t, "alts")
	for i := 0; i < n; i++ {
		var cs []compoundP
		m := rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3}).Draw(t, "compounds")
		for j := 0; j < m; j++ {
			c := genCompound(t, 1)
			if j > 0 {
				c.Comb = rapid.SampledFrom([]string{" ", " ", ">", ">", "+", "~"}).Draw(t, "comb")
			}
			cs = append(cs, c)
		}
		s.Alt = append(s.Alt, cs)
	}
	return s
}

// sel is a selector of tags only.
func selTag(tag string) selP { return selP{Alt: [][]compoundP{{{Tag: tag}}}} }

func (s selP) invalid() bool { return s.Alt == nil }

func (s selP) String() string {
	if s.invalid() {
		return s.Raw
	}
	var alts []string
	for _, cs := range s.Alt {
		var b strings.Builder
		for _, c := range cs {
			switch c.Comb {
			case "":
			case " ":
				b.WriteString(" ")
			default:
				b.WriteString(" " + c.Comb + " ")
			}
			b.WriteString(c.String())
		}
		alts = append(alts, b.String())
	}
	return strings.Join(alts, ", ")
}

func (c compoundP) String() string {
	var b strings.Builder
	b.WriteString(c.Tag)
	for _, s := range c.Simple {
		switch s.Kind {
		case "class":
			b.WriteString("." + s.A)
		case "id":
			b.WriteString("#" + s.A)
		case "attr":
			b.WriteString("[" + s.A + "]")
		case "=", "~=", "|=", "^=", "$=", "*=":
			b.WriteString("[" + s.A + s.Kind + strconv.Quote(s.B) + "]")
		case "not", "has":
			var sub []string
			for _, x := range s.Sub {
				sub = append(sub, x.String())
			}
			b.WriteString(":" + s.Kind + "(" + strings.Join(sub, ",") + ")")
		case "first", "last", "only":
			b.WriteString(":" + s.Kind + "-child")
		case "root":
			b.WriteString(":root")
		default:
			name := map[string]string{"nth": "nth-child", "nthlast": "nth-last-child", "nthtype": "nth-of-type"}[s.Kind]
			fmt.Fprintf(&b, ":%s(%dn%+d)", name, s.N, s.M)
		}
	}
	return b.String()
}

func attrOf(n *html.Node, k string) (string, bool) {
	for _, a := range n.Attr {
		if a.Key == k {
			return a.Val, true
		}
	}
	return "", false
}

func elemSiblings(n *html.Node, ofType bool) (sibs []*html.Node, idx int) {
	idx = -1
	for c := n.Parent.FirstChild; c != nil; c = c.NextSibling {
		if c.Type == html.ElementNode && (!ofType || c.Data == n.Data) {
			if c == n {
				idx = len(sibs)
			}
			sibs = append(sibs, c)
		}
	}
	return
}

func isNth(a, b, pos int) bool { // pos from 1
	for k := 0; k < 2000; k++ {
		if a*k+b == pos {
			return true
		}
	}
	return false
}

// matchAttr judges a simple selector of attributes.
func (s simpleP) matchAttr(k, v string) bool {
	word := func(w string) (ok bool) {
		for _, f := range strings.FieldsFunc(v, func(r rune) bool { return strings.ContainsRune(" \t\r\n\f", r) }) {
			ok = ok || f == w
		}
		return
	}
	switch s.Kind {
	case "class":
		return k == "class" && word(s.A)
	case "id":
		return k == "id" && v == s.A
	}
	if k != s.A {
		return false
	}
	switch s.Kind {
	case "attr":
		return true
	case "=":
		return v == s.B
	case "~=":
		return word(s.B)
	case "|=":
		return v == s.B || strings.HasPrefix(v, s.B+"-")
	case "^=":
		return strings.HasPrefix(v, s.B)
	case "$=":
		return strings.HasSuffix(v, s.B)
	case "*=":
		return strings.Contains(v, s.B)
	}
	return false
}

func (c compoundP) match(n *html.Node) bool {
	if n.Type != html.ElementNode {
		return false
	}
	if c.Tag != "" && c.Tag != "*" && strings.ToLower(c.Tag) != n.Data {
		return false
	}
	for _, s := range c.Simple {
		// The parser keeps repeated attributes, one that matches is enough.
		ok := false
		for _, a := range n.Attr {
			ok = ok || s.matchAttr(a.Key, a.Val)
		}
		switch s.Kind {
		case "class", "id", "attr", "=", "~=", "|=", "^=", "$=", "*=":
		case "not":
			ok = true
			for _, x := range s.Sub {
				ok = ok && !x.match(n)
			}
		case "has":
			var walk func(m *html.Node)
			walk = func(m *html.Node) {
				for d := m.FirstChild; d != nil; d = d.NextSibling {
					for _, x := range s.Sub {
						ok = ok || x.match(d)
					}
					walk(d)
				}
			}
			walk(n)
		case "root":
			ok = n.Parent != nil && n.Parent.Type == html.DocumentNode
		default:
			if n.Parent == nil {
				return false
			}
			sibs, i := elemSiblings(n, s.Kind == "nthtype")
			switch s.Kind {
			case "first":
				ok = i == 0
			case "last":
				ok = i == len(sibs)-1
			case "only":
				ok = len(sibs) == 1
			case "nth", "nthtype":
				ok = isNth(s.N, s.M, i+1)
			case "nthlast":
				ok = isNth(s.N, s.M, len(sibs)-i)
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func matchComplex(cs []compoundP, n *html.Node) bool {
	last := cs[len(cs)-1]
	if !last.match(n) {
		return false
	}
	rest := cs[:len(cs)-1]
	if len(rest) == 0 {
		return true
	}
	prevElem := func(m *html.Node) *html.Node {
		for m = m.PrevSibling; m != nil && m.Type != html.ElementNode; m = m.PrevSibling {
		}
		return m
	}
	switch last.Comb {
	case " ":
		for p := n.Parent; p != nil; p = p.Parent {
			if matchComplex(rest, p) {
				return true
			}
		}
	case ">":
		return n.Parent != nil && matchComplex(rest, n.Parent)
	case "+":
		p := prevElem(n)
		return p != nil && matchComplex(rest, p)
	case "~":
		for p := prevElem(n); p != nil; p = prevElem(p) {
			if matchComplex(rest, p) {
				return true
			}
		}
	}
	return false
}

func (s selP) match(n *html.Node) bool {
	if s.invalid() {
		return false
	}
	for _, cs := range s.Alt {
		if matchComplex(cs, n) {
			return true
		}
	}
	return false
}

// all returns the nodes at or below n that match, in document order.
func (s selP) all(n *html.Node) (ret []*html.Node) {
	if s.match(n) {
		ret = append(ret, n)
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		ret = append(ret, s.all(c)...)
	}
	return ret
}

// textOf is the text at or below n, comments left out.
func textOf(n *html.Node) string {
	if n == nil {
		return ""
	}
	if n.Type == html.TextNode {
		return n.Data
	}
	s := ""
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if c.Type == html.TextNode || c.Type == html.ElementNode {
			s += textOf(c)
		}
	}
	return s
}
