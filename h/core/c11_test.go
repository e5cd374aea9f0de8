package core

import (
	"context"
	"fmt"
	"net/url"
	"regexp"
	"strings"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/vf"
	"golang.org/x/net/html"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID: "C11",
		Rule: "links: documents and base URLs with references drawn from an RFC 3986 grammar (absolute, scheme-relative, path, dot segments, query, fragment, empty, other schemes, host-less, invalid), " +
			"compared in order with an independent resolver, for URLs and for Next with a random selector; large: the same with thousands of links, megabytes of text, deep trees and long references; fuzz: byte-mutated documents and references, compared with net/url; " +
			"non-trivial: at least 2 links expected and at least one href that must be skipped",
		Assumptions: []string{
			"references with surrounding white space or control characters, with both .. and empty segments, with an empty authority after //, and <base href> are left open",
			"an absolute reference may keep its dot segments (the engine removes them)",
		},
		Subs: []vf.Sub{
			vf.S("links", 40000, 1500000, genC11, runC11),
			vf.S("fuzz", 30000, 1000000, genC11f, runC11),
			vf.S("large", 600, 20000, genC11l, runC11),
		},
	})
}

type c11P struct {
	Base string `json:"base"`
	Doc  docP   `json:"doc"`
	Sel  selP   `json:"sel"`
	Fuzz bool   `json:"fuzz"`
}

// ---- RFC 3986, section 5.2 -----------------------------------------------------

var (
	rfcRE    = regexp.MustCompile(`^(?:([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?[^#]*)?(#.*)?$`)
	schemeRE = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9+.-]*$`)
	authRE   = regexp.MustCompile(`^(?:[A-Za-z0-9._~!$&'()*+,;=%:-]*@)?(\[[0-9A-Fa-f:.]+\]|[A-Za-z0-9._~-]*)(?::([0-9]*))?$`)
	badPctRE = regexp.MustCompile(`%(?:[^0-9A-Fa-f]|.[^0-9A-Fa-f]|.?$)`)
)

func rfcRemoveDots(in string) string {
	out := ""
	for in != "" {
		switch {
		case strings.HasPrefix(in, "../"):
			in = in[3:]
		case strings.HasPrefix(in, "./"):
			in = in[2:]
		case strings.HasPrefix(in, "/./"):
			in = in[2:]
		case in == "/.":
			in = "/"
		case strings.HasPrefix(in, "/../"), in == "/..":
			if in == "/.." {
				in = "/"
			} else {
				in = in[3:]
			}
			if i := strings.LastIndexByte(out, '/'); i >= 0 {
				out = out[:i]
			} else {
				out = ""
			}
		case in == "." || in == "..":
			in = ""
		default:
			i := strings.IndexByte(in[1:], '/')
			if i < 0 {
				out, in = out+in, ""
			} else {
				out, in = out+in[:i+1], in[i+1:]
			}
		}
	}
	return out
}

// rfcResolve returns the targets that are accepted for a reference, none if it
// has to be skipped.
func rfcResolve(base, ref string) []string {
	b, r := rfcRE.FindStringSubmatch(base), rfcRE.FindStringSubmatch(ref)
	if b == nil || r == nil {
		return nil
	}
	scheme, auth, hasAuth, path, query, frag := r[1], r[3], r[2] != "", r[4], r[5], r[6]
	if scheme != "" && !schemeRE.MatchString(scheme) {
		return nil
	}
	if first, _, _ := strings.Cut(path, "/"); scheme == "" && !hasAuth && strings.Contains(first, ":") {
		return nil
	}
	if badPctRE.MatchString(path) || badPctRE.MatchString(auth) || badPctRE.MatchString(frag) {
		return nil
	}
	var paths []string
	switch {
	case scheme != "":
		paths = []string{path, rfcRemoveDots(path)}
	case hasAuth:
		scheme = b[1]
		paths = []string{rfcRemoveDots(path)}
	case path == "":
		if query == "" {
			query = b[5]
		}
		scheme, auth, paths = b[1], b[3], []string{b[4]}
	case strings.HasPrefix(path, "/"):
		scheme, auth, paths = b[1], b[3], []string{rfcRemoveDots(path)}
	default:
		merged := "/" + path
		if b[4] != "" {
			merged = b[4][:strings.LastIndexByte(b[4], '/')+1] + path
		}
		scheme, auth, paths = b[1], b[3], []string{rfcRemoveDots(merged)}
	}
	scheme = strings.ToLower(scheme)
	if scheme != "http" && scheme != "https" {
		return nil
	}
	if m := authRE.FindStringSubmatch(auth); m == nil || m[1] == "" {
		return nil
	}
	var ret []string
	for _, p := range paths {
		var e strings.Builder
		for i := 0; i < len(p); i++ {
			if p[i] <= ' ' || p[i] >= 0x7f {
				fmt.Fprintf(&e, "%%%02X", p[i])
			} else {
				e.WriteByte(p[i])
			}
		}
		// An empty fragment or query may be dropped.
		ret = append(ret, scheme+"://"+auth+e.String()+query+frag)
	}
	return ret
}

// ---- generators ------------------------------------------------------------------

func genC11Path(t *rapid.T) string {
	segs := []string{"a", "b", "c.html", ".", "...", "a..b"}
	// net/url drops an empty segment that follows a ".." at the root.
	segs = append(segs, rapid.SampledFrom([]string{"..", ""}).Draw(t, "dots"))
	if rapid.Bool().Draw(t, "exotic") {
		segs = append(segs, "x y", "é", "~u")
	} else {
		segs = append(segs, "a%2Fb", "%41", "k=v;p", "a+b", "a,b", "a@b", "!$&'()*", "a:b")
	}
	n := uni(t, 1, 4, "nseg")
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, rapid.SampledFrom(segs).Draw(t, "seg"))
	}
	p := strings.Join(ps, "/")
	if oneIn(t, 5, "slash") {
		p += "/"
	}
	return p
}

func genC11Tail(t *rapid.T) string {
	s := rapid.SampledFrom([]string{"", "", "", "?a=1&b=2", "?x", "?q=a/b?c", "?b=%2F"}).Draw(t, "query")
	return s + rapid.SampledFrom([]string{"", "", "", "#f", "#a/b?c"}).Draw(t, "frag")
}

func genC11Auth(t *rapid.T) string {
	return rapid.SampledFrom([]string{"h.test", "www.h.test", "H.TEST", "h.test:8080", "u:p@h.test", "u@h.test:1", "[::1]", "[::1]:80", "127.0.0.1", "h.test:"}).Draw(t, "auth")
}

func genC11Href(t *rapid.T) string {
	switch rapid.SampledFrom([]int{0, 1, 2, 3, 3, 4, 4, 4, 5, 6, 7, 8, 9}).Draw(t, "hkind") {
	case 0: // absolute
		p := genC11Path(t)
		return rapid.SampledFrom([]string{"http", "https", "HTTP", "hTTps"}).Draw(t, "scheme") + "://" + genC11Auth(t) + "/" + strings.TrimLeft(p, "/") + genC11Tail(t)
	case 1: // absolute without a path
		return rapid.SampledFrom([]string{"http", "https"}).Draw(t, "scheme") + "://" + genC11Auth(t) + genC11Tail(t)
	case 2: // scheme-relative
		return "//" + genC11Auth(t) + "/" + strings.TrimLeft(genC11Path(t), "/") + genC11Tail(t)
	case 3: // path-absolute
		return "/" + strings.TrimLeft(genC11Path(t), "/") + genC11Tail(t)
	case 4: // path-relative
		p := strings.TrimLeft(genC11Path(t), "/")
		if i := strings.IndexAny(p, "/"); strings.Contains(p[:max(i, 0)], ":") || i < 0 && strings.Contains(p, ":") {
			p = "./" + p
		}
		return p + genC11Tail(t)
	case 5: // query or fragment only, or empty
		return genC11Tail(t)
	case 6: // other schemes
		return rapid.SampledFrom([]string{"mailto:a@b.test", "javascript:void(0)", "data:text/html,x", "ftp://h.test/a", "tel:123", "file:///etc/x", "ws://h.test/", "httpx://h.test/", "about:blank", "urn:a:b", "xhttp://h.test/"}).Draw(t, "other")
	case 7: // host-less
		return rapid.SampledFrom([]string{"http:foo", "http:/foo", "http:///foo", "http://", "https:", "https://:80/", "http://u@/x", "http:?q", "https:#f", "HTTP:x", "http://?q", "http://#f", "https://u:p@:1/"}).Draw(t, "hostless")
	case 8: // invalid
		return rapid.SampledFrom([]string{"/%zz", "/a%", "http://h.test:port/", "1:2", "http://[::1/", "http://h.test/%4", ":x", "http://h%zz.test/", "a/%g1"}).Draw(t, "invalid")
	}
	return genC11Path(t) + genC11Tail(t)
}

func genC11Base(t *rapid.T) string {
	b := rapid.SampledFrom([]string{"http", "https"}).Draw(t, "bs") + "://" + rapid.SampledFrom([]string{"base.test", "base.test:8080", "u:p@base.test", "[::2]"}).Draw(t, "ba")
	b += rapid.SampledFrom([]string{"", "/", "/a", "/a/", "/a/b", "/a/b/c/d.html", "/a//b/", "/a%2Fb/c"}).Draw(t, "bp")
	return b + rapid.SampledFrom([]string{"", "", "?q=1", "?x/y"}).Draw(t, "bq")
}

func genC11(t *rapid.T) *c11P {
	p := &c11P{Base: genC11Base(t)}
	p.Doc = genDoc(t, func(t *rapid.T) string {
		for {
			h := genC11Href(t)
			// Left open: an empty authority in a relative reference.
			if strings.HasPrefix(h, "///") || h == "//" || strings.HasPrefix(h, "//") && authRE.FindStringSubmatch(rfcRE.FindStringSubmatch(h)[3]) == nil ||
				strings.HasPrefix(h, "//") && authRE.FindStringSubmatch(rfcRE.FindStringSubmatch(h)[3])[1] == "" ||
				h != strings.TrimSpace(h) {
				h = "/open"
			}
			return h
		}
	})
	p.Doc.Muts = nil
	p.Sel = genC11Sel(t)
	return p
}

func genC11f(t *rapid.T) *c11P {
	p := &c11P{Base: genC11Base(t), Fuzz: true}
	p.Doc = genDoc(t, func(t *rapid.T) string {
		h := genC11Href(t)
		n := uni(t, 0, 3, "nedit")
		for i := 0; i < n; i++ {
			at := rapid.IntRange(0, len(h)).Draw(t, "at")
			ins := rapid.SampledFrom([]string{"", "/", ":", "//", "?", "#", "%", "@", "[", "]", " ", "\t", "\\", "..", "http:", "\x7f", "\"", "é", "^", "|", "<", "%00", ";"}).Draw(t, "ins")
			h = h[:at] + ins + h[min(at+uni(t, 0, 2, "del"), len(h)):]
		}
		return h
	})
	p.Sel = genC11Sel(t)
	return p
}

// genC11l makes large documents: up to some thousand links, megabytes of
// comments, deep trees and hrefs of kilobytes.
func genC11l(t *rapid.T) *c11P {
	p := genC11(t)
	enlarge(t, &p.Doc, 80)
	for i := range p.Doc.Nodes {
		for j := range p.Doc.Nodes[i].Attrs {
			if a := &p.Doc.Nodes[i].Attrs[j]; strings.EqualFold(a[0], "href") && oneIn(t, 2, "longhref") {
				pad := strings.Repeat("k=v;", pick(t, "hrefkb", 50, 64, 128, 256, 300, 500, 512, 1024, 2100, 5000))
				a[1] = pick(t, "longform", "/"+pad, "/x?"+pad, "http://h.test/"+pad+"/z?a=b#f", "#"+pad, "x/"+pad, "mailto:"+pad)
			}
		}
	}
	return p
}

// genC11Sel often selects some of the links.
func genC11Sel(t *rapid.T) selP {
	s := genSel(t)
	if !s.invalid() && oneIn(t, 2, "linksel") {
		last := &s.Alt[0][len(s.Alt[0])-1]
		last.Tag = "a"
		if oneIn(t, 2, "simple") {
			last.Simple = nil
		}
	}
	return s
}

// ---- check -----------------------------------------------------------------------

// c11Want is what is accepted for one href.
type c11Want struct {
	href string
	any  []string
	open bool
}

func (p *c11P) want(nodes []*html.Node) (ret []c11Want) {
	for _, n := range nodes {
		h, ok := attrOf(n, "href")
		if !ok {
			continue
		}
		w := c11Want{href: h}
		if !p.Fuzz {
			w.any = rfcResolve(p.Base, h)
		} else {
			w.open = h != strings.TrimFunc(h, func(r rune) bool { return r <= ' ' }) || strings.HasPrefix(h, "///") || strings.ContainsAny(h, "\\")
			base, _ := url.Parse(p.Base)
			if r, err := url.Parse(h); err == nil {
				u := base.ResolveReference(r)
				if (u.Scheme == "http" || u.Scheme == "https") && u.Hostname() != "" {
					w.any = []string{u.String(), r.String()}
				}
			}
		}
		ret = append(ret, w)
	}
	return ret
}

// trimEmpty drops an empty query and fragment.
func trimEmpty(s string) string {
	s = strings.TrimSuffix(s, "#")
	return strings.TrimSuffix(s, "?")
}

// align checks that got is the list of links, in order.
func align(what string, want []c11Want, got ant.URLs) error {
	var walk func(w, g int) int
	deepest := 0
	memo := map[[2]int]bool{}
	walk = func(w, g int) int {
		if memo[[2]int{w, g}] {
			return -1
		}
		memo[[2]int{w, g}] = true
		deepest = max(deepest, w)
		if w == len(want) {
			if g == len(got) {
				return 1
			}
			return -1
		}
		x := want[w]
		if g < len(got) {
			s := trimEmpty(got[g].String())
			for _, a := range x.any {
				if trimEmpty(a) == s {
					if walk(w+1, g+1) == 1 {
						return 1
					}
					break
				}
			}
			if x.open && walk(w+1, g+1) == 1 {
				return 1
			}
		}
		if x.open || len(x.any) == 0 {
			return walk(w+1, g)
		}
		return -1
	}
	if walk(0, 0) == 1 {
		return nil
	}
	var gs []string
	for _, u := range got {
		gs = append(gs, u.String())
	}
	var ws []string
	for _, w := range want {
		ws = append(ws, fmt.Sprintf("%q => %q", w.href, w.any))
	}
	return fmt.Errorf("%s are %q, expected %s (differs from item %d)", what, gs, strings.Join(ws, ", "), deepest)
}

func runC11(c *vf.Case, p *c11P) error {
	b := p.Doc.bytes()
	page, err := fetchPage(p.Base, b)
	if err != nil || page == nil {
		return fmt.Errorf("fetch: %v %v", page, err)
	}
	ref, err := parseRef(b)
	if err != nil {
		return nil
	}
	anchors := selP{Alt: [][]compoundP{{{Tag: "a", Simple: []simpleP{{Kind: "attr", A: "href"}}}}}}.all(ref.root)
	want := p.want(anchors)
	links, skipped := 0, 0
	for _, w := range want {
		if len(w.any) > 0 {
			links++
		} else {
			skipped++
		}
	}
	c.NT(links >= 2 && skipped >= 1)
	c.LabelIf(links == 0, "no links")
	c.LabelIf(p.Sel.invalid(), "invalid selector")
	c.Note("%d links, %d skipped, selector %s", links, skipped, p.Sel)

	got := page.URLs()
	if err := align("links", want, got); err != nil {
		return err
	}
	next, err := page.Next(p.Sel.String())
	if err != nil {
		return fmt.Errorf("Next(%q): %v", p.Sel, err)
	}
	nw := p.want(p.Sel.all(ref.root))
	c.LabelIf(len(nw) > 0, "selector matches links")
	if err := align(fmt.Sprintf("Next(%q)", p.Sel), nw, next); err != nil {
		return err
	}
	if err := align("links, asked again,", want, page.URLs()); err != nil {
		return err
	}
	if s := page.URL.String(); s != p.Base {
		return fmt.Errorf("the page's URL became %q, it was %q", s, p.Base)
	}
	var raw []string
	for _, u := range append(append(ant.URLs{}, got...), next...) {
		if u == nil {
			return fmt.Errorf("a nil URL was returned")
		}
		if u.Scheme != "http" && u.Scheme != "https" || u.Hostname() == "" {
			return fmt.Errorf("%q is not an absolute http URL with a host", u)
		}
		raw = append(raw, u.String())
	}
	eng, err := ant.NewEngine(ant.EngineConfig{Scraper: scraperFunc(func(context.Context, *ant.Page) (ant.URLs, error) { return nil, nil })})
	if err != nil {
		return err
	}
	if err := eng.Enqueue(context.Background(), raw...); err != nil {
		return fmt.Errorf("links %q cannot be enqueued: %v", raw, err)
	}
	return nil
}
