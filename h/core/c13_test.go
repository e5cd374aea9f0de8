package core

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/url"
	"sync"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/zsched"
	"golang.org/x/net/html"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID: "C13",
		Rule: "ops: random sequences of queries, list operations, renderings, scans and link lookups on one page, lists kept and used again, compared with a tree-walking evaluator of the generated selectors; " +
			"concurrent: the same from several goroutines on one fresh page; broken: pages whose body fails; " +
			"non-trivial: at least 4 operations of which 2 have non-empty results and one works on a list that a query returned",
		Assumptions: []string{"the document is the one that golang.org/x/net/html builds", "List.Query keeps one result per matching root (duplicates of nested roots are kept)"},
		Subs: []vf.Sub{
			vf.S("ops", 30000, 1000000, genC13, runC13),
			vf.S("concurrent", 12000, 400000, genC13c, runC13c),
			vf.S("broken", 4000, 100000, genC13b, runC13b),
		},
	})
}

type c13Op struct {
	Op   string `json:"op"` // query text doc html urls next scan | lquery is at ltext attr lscan
	Sel  selP   `json:"s"`
	List int    `json:"l"`
	I    int    `json:"i"`
	Key  string `json:"k"`
	Type int    `json:"t"`
}

type c13P struct {
	Doc   docP         `json:"doc"`
	Types []typeP      `json:"types"`
	Ops   []c13Op      `json:"ops"`
	Gors  int          `json:"gors"`
	Chunk int          `json:"chunk"` // read size of the body
	Sched zsched.Sched `json:"sched"`
}

func genC13(t *rapid.T) *c13P {
	p := &c13P{Doc: genPlainDoc(t)}
	if oneIn(t, 200, "islarge") {
		enlarge(t, &p.Doc, 30)
	}
	p.Types = []typeP{genStruct(t, 2, true), genStruct(t, 1, false)}
	n := uni(t, 2, 12, "ops")
	for i := 0; i < n; i++ {
		o := c13Op{Op: rapid.SampledFrom([]string{"query", "query", "lquery", "lquery", "at", "ltext", "is", "attr", "text", "doc", "html", "urls", "next", "scan", "lscan"}).Draw(t, "op")}
		switch o.Op {
		case "query", "text", "next", "lquery", "is":
			if oneIn(t, 3, "rich") {
				o.Sel = genSel(t)
			} else {
				o.Sel = genScanSel(t)
			}
		case "scan", "lscan":
			o.Type = uni(t, 0, 1, "type")
		case "attr":
			o.Key = rapid.SampledFrom([]string{"class", "href", "id", "data-v", "nosuch", ""}).Draw(t, "key")
		case "at":
			o.I = rapid.SampledFrom([]int{0, 1, -1, 2, -2, 3, -3, 5, -5, 100, -100}).Draw(t, "i")
		}
		o.List = uni(t, 0, 9, "list")
		p.Ops = append(p.Ops, o)
	}
	p.Chunk = rapid.SampledFrom([]int{0, 1, 7}).Draw(t, "chunk")
	return p
}

func genC13c(t *rapid.T) *c13P {
	p := genC13(t)
	p.Gors = uni(t, 2, 4, "gors")
	p.Sched = vf.GenSched(t)
	return p
}

// c13List is a list and what it should hold.
type c13List struct {
	real ant.List
	want []*html.Node // nodes of the reference
}

// c13World compares a page with its reference.
type c13World struct {
	p     *c13P
	page  *ant.Page
	ref   *refDoc
	html  string
	lists []c13List

	nonEmpty, onList int
}

// real numbers the nodes of the page's document on demand.
func (w *c13World) sameNodes(what string, got ant.List, want []*html.Node, num map[*html.Node]int) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s has %d nodes, expected %d", what, len(got), len(want))
	}
	for i, n := range got {
		j, ok := num[n]
		if !ok {
			return fmt.Errorf("%s: node %d is not in the page's document", what, i)
		}
		if j != w.ref.num[want[i]] {
			return fmt.Errorf("%s: node %d is %s (number %d), expected %s (number %d)", what, i, n.Data, j, want[i].Data, w.ref.num[want[i]])
		}
	}
	if len(want) > 0 {
		w.nonEmpty++
	}
	return nil
}

func (w *c13World) op(o c13Op) error {
	root, err := w.page.Document()
	if err != nil || root == nil {
		return fmt.Errorf("Document: %v %v", root, err)
	}
	doc := numberDoc(root)
	if len(doc.nodes) != len(w.ref.nodes) {
		return fmt.Errorf("the document has %d nodes, expected %d", len(doc.nodes), len(w.ref.nodes))
	}
	num := doc.num
	var l c13List
	if len(w.lists) > 0 {
		l = w.lists[o.List%len(w.lists)]
	}
	w.lists = append(w.lists, c13List{ant.List{root}, []*html.Node{w.ref.root}})
	keep := func(real ant.List, want []*html.Node) { w.lists = append(w.lists, c13List{real, want}) }
	sel := o.Sel.String()
	switch o.Op {
	case "query":
		got, want := w.page.Query(sel), o.Sel.all(w.ref.root)
		if err := w.sameNodes(fmt.Sprintf("Query(%q)", sel), got, want, num); err != nil {
			return err
		}
		keep(got, want)
	case "text":
		got, want := w.page.Text(sel), ""
		for _, n := range o.Sel.all(w.ref.root) {
			want += textOf(n)
		}
		if got != want {
			return fmt.Errorf("Text(%q) is %q, expected %q", sel, got, want)
		}
	case "doc":
		r2, err := w.page.Document()
		if err != nil || r2 != root {
			return fmt.Errorf("Document gave another document: %v", err)
		}
	case "html":
		got, err := w.page.HTML()
		if err != nil {
			return fmt.Errorf("HTML: %v", err)
		}
		if got != w.html {
			return fmt.Errorf("HTML is %q, expected %q", got, w.html)
		}
	case "urls", "next":
		want := selP{Alt: [][]compoundP{{{Tag: "a", Simple: []simpleP{{Kind: "attr", A: "href"}}}}}}
		got := ant.URLs(nil)
		if o.Op == "urls" {
			got = w.page.URLs()
		} else {
			want = o.Sel
			var err error
			if got, err = w.page.Next(sel); err != nil {
				return fmt.Errorf("Next(%q): %v", sel, err)
			}
		}
		// Mutated documents hold odd references: judge like C11's fuzzing.
		c11 := &c11P{Base: "http://base.test/d/e", Fuzz: true}
		if err := align(o.Op+" "+sel, c11.want(want.all(w.ref.root)), got); err != nil {
			return err
		}
	case "scan":
		c12 := &c12P{Types: w.p.Types}
		_, err := c12.scan(scanP{Type: o.Type}, c12Doc{w.page, w.ref}, nil)
		return err
	case "lquery":
		got := l.real.Query(sel)
		var want []*html.Node
		for _, n := range l.want {
			want = append(want, o.Sel.all(n)...)
		}
		if err := w.sameNodes(fmt.Sprintf("list of %d .Query(%q)", len(l.want), sel), got, want, num); err != nil {
			return err
		}
		keep(got, want)
	case "is":
		want := false
		for _, n := range l.want {
			want = want || o.Sel.match(n)
		}
		if got := l.real.Is(sel); got != want {
			return fmt.Errorf("list of %d .Is(%q) is %v, expected %v", len(l.want), sel, got, want)
		}
	case "at":
		i := o.I
		if i < 0 {
			i += len(l.want)
		}
		want := []*html.Node(nil)
		if i >= 0 && i < len(l.want) {
			want = l.want[i : i+1]
		}
		got := l.real.At(o.I)
		if err := w.sameNodes(fmt.Sprintf("list of %d .At(%d)", len(l.want), o.I), got, want, num); err != nil {
			return err
		}
		keep(got, want)
	case "ltext":
		want := ""
		for _, n := range l.want {
			want += textOf(n)
		}
		if got := l.real.Text(); got != want {
			return fmt.Errorf("list of %d .Text() is %q, expected %q", len(l.want), got, want)
		}
	case "attr":
		want, wok := "", false
		if len(l.want) > 0 {
			want, wok = attrOf(l.want[0], o.Key)
		}
		if got, ok := l.real.Attr(o.Key); got != want || ok != wok {
			return fmt.Errorf("list of %d .Attr(%q) is %q %v, expected %q %v", len(l.want), o.Key, got, ok, want, wok)
		}
	case "lscan":
		return w.lscan(o, l)
	}
	if (o.Op == "lquery" || o.Op == "is" || o.Op == "at" || o.Op == "ltext" || o.Op == "attr") && len(l.want) > 0 && l.want[0] != w.ref.root {
		w.onList++
	}
	// Lists that were returned before stay what they were.
	for i, l := range w.lists {
		if len(l.real) != len(l.want) {
			return fmt.Errorf("after %s %q list %d has %d nodes, it had %d", o.Op, sel, i, len(l.real), len(l.want))
		}
		for j, n := range l.real {
			if num[n] != w.ref.num[l.want[j]] {
				return fmt.Errorf("after %s %q node %d of list %d is another", o.Op, sel, j, i)
			}
		}
	}
	return nil
}

func (w *c13World) lscan(o c13Op, l c13List) error {
	t := w.p.Types[o.Type]
	dst := newDst(t)
	err := l.real.Scan(dst.Interface())
	if len(l.want) == 0 {
		if err != nil {
			return fmt.Errorf("Scan of an empty list: %v", err)
		}
		return nil
	}
	if t.bad(false) {
		if err == nil {
			return fmt.Errorf("List.Scan(%s) gave no error", dst.Type())
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("List.Scan(%s): %v", dst.Type(), err)
	}
	leaves := 0
	before := newDst(t)
	return refScan(t, nil, "", l.want[0], &leaves).compare("dst", dst.Elem(), before.Elem())
}

func newC13(p *c13P) (*c13World, error) {
	b := p.Doc.bytes()
	ref, err := parseRef(b)
	if err != nil {
		return nil, nil
	}
	w := &c13World{p: p, ref: ref}
	var buf bytes.Buffer
	if err := html.Render(&buf, ref.root); err != nil {
		return nil, nil // such as text in a void element
	}
	w.html = buf.String()
	u, _ := url.Parse("http://base.test/d/e")
	web := newWeb(func(reqT) reply {
		r := io.Reader(bytes.NewReader(b))
		switch p.Chunk {
		case 1:
			r = &oneReader{r, 1}
		case 7:
			r = &oneReader{r, 7}
		}
		return reply{status: 200, reader: r}
	})
	w.page, err = (&ant.Fetcher{Client: web}).Fetch(context.Background(), u)
	if err != nil {
		return nil, err
	}
	return w, nil
}

// oneReader reads at most n bytes at a time.
type oneReader struct {
	r io.Reader
	n int
}

func (o *oneReader) Read(p []byte) (int, error) {
	zsched.P()
	if len(p) > o.n {
		p = p[:o.n]
	}
	return o.r.Read(p)
}

func runC13(c *vf.Case, p *c13P) error {
	w, err := newC13(p)
	if err != nil || w == nil {
		return err
	}
	for i, o := range p.Ops {
		if err := w.op(o); err != nil {
			return fmt.Errorf("operation %d: %w", i, err)
		}
	}
	c.NT(len(p.Ops) >= 4 && w.nonEmpty >= 2 && w.onList >= 1)
	c.LabelIf(w.onList > 0, "operations on returned lists")
	c.LabelIf(w.nonEmpty > 3, "more than 3 non-empty results")
	c.Note("%d operations on %d nodes, %d non-empty results", len(p.Ops), len(w.ref.nodes), w.nonEmpty)
	return nil
}

func runC13c(c *vf.Case, p *c13P) error {
	return vf.Bubble(c, p.Sched, func() error {
		w, err := newC13(p)
		if err != nil || w == nil {
			return err
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		var first error
		for g := 0; g < p.Gors; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				mine := *w
				for i := range p.Ops {
					o := p.Ops[(i+g)%len(p.Ops)]
					zsched.P()
					if err := mine.op(o); err != nil {
						mu.Lock()
						if first == nil {
							first = fmt.Errorf("goroutine %d, operation %d: %w", g, i, err)
						}
						mu.Unlock()
						return
					}
				}
				mu.Lock()
				c.NT(len(p.Ops) >= 4 && mine.nonEmpty >= 2 && mine.onList >= 1)
				mu.Unlock()
			}()
		}
		wg.Wait()
		return first
	})
}

// ---- pages whose body fails ----------------------------------------------------

type c13bP struct {
	Doc  docP     `json:"doc"`
	Left int      `json:"left"`
	Ops  []string `json:"ops"`
}

func genC13b(t *rapid.T) *c13bP {
	p := &c13bP{Doc: genPlainDoc(t), Left: uni(t, 0, 30, "left")}
	n := uni(t, 1, 6, "ops")
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, rapid.SampledFrom([]string{"doc", "html", "scan", "query", "text", "urls", "next"}).Draw(t, "op"))
	}
	return p
}

func runC13b(c *vf.Case, p *c13bP) error {
	b := p.Doc.bytes()
	u, _ := url.Parse("http://base.test/d/e")
	web := newWeb(func(reqT) reply {
		return reply{status: 200, reader: &flakyReader{bytes.NewReader(b), p.Left % (len(b) + 1)}}
	})
	page, err := (&ant.Fetcher{Client: web}).Fetch(context.Background(), u)
	if err != nil {
		return err
	}
	c.NT(len(p.Ops) >= 2)
	for i, o := range p.Ops {
		var err error
		n := 0
		noErr := false
		switch o {
		case "doc":
			_, err = page.Document()
		case "html":
			_, err = page.HTML()
		case "scan":
			var d struct {
				A string `css:"a"`
			}
			err = page.Scan(&d)
		case "query":
			n, noErr = len(page.Query("*")), true
		case "text":
			n, noErr = len(page.Text("*")), true
		case "urls":
			n, noErr = len(page.URLs()), true
		case "next":
			var us ant.URLs
			us, err = page.Next("*")
			n, noErr = len(us), true
		}
		if n > 0 {
			return fmt.Errorf("operation %d, %s: %d results of a page that cannot be read", i, o, n)
		}
		if !noErr && !errors.Is(err, errBody) {
			return fmt.Errorf("operation %d, %s of a page that cannot be read gave %v", i, o, err)
		}
	}
	return nil
}
