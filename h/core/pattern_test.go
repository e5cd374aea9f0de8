package core

import (
	"fmt"
	"net/url"
	"strings"

	"github.com/yields/ant/zverif/vf"
	"pgregory.net/rapid"
)

// ---- globs -------------------------------------------------------------------

// globMatch is the reference: '*' any run of characters, '?' one character,
// backslash takes the next character literally.
func globMatch(p, s []rune) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	switch p[0] {
	case '*':
		for i := 0; i <= len(s); i++ {
			if globMatch(p[1:], s[i:]) {
				return true
			}
		}
		return false
	case '?':
		return len(s) > 0 && globMatch(p[1:], s[1:])
	case '\\':
		return len(p) > 1 && len(s) > 0 && p[1] == s[0] && globMatch(p[2:], s[1:])
	}
	return len(s) > 0 && s[0] == p[0] && globMatch(p[1:], s[1:])
}

// genGlob makes a pattern out of the string it should often match.
func genGlob(t *rapid.T, s string) string {
	var b strings.Builder
	stars := 0
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		r := rs[i]
		switch k := rapid.IntRange(0, 19).Draw(t, "g"); {
		case k == 0 && stars < 4:
			stars++
			b.WriteByte('*')
			i += rapid.IntRange(0, len(rs)).Draw(t, "skip")
		case k == 1:
			b.WriteByte('?')
		case k == 2 && stars < 4:
			stars++
			b.WriteByte('*')
			i--
			if i+1 < len(rs) {
				b.WriteRune(rs[i+1])
				i++
			}
		case k == 3 && rapid.IntRange(0, 3).Draw(t, "mut") == 0:
			b.WriteByte("ab/.x"[rapid.IntRange(0, 4).Draw(t, "mutc")])
		case k == 4 && rapid.IntRange(0, 3).Draw(t, "drop") == 0:
		case r == '*' || r == '?' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		default:
			b.WriteRune(r)
		}
	}
	if stars < 4 && rapid.IntRange(0, 5).Draw(t, "tail") == 0 {
		b.WriteByte('*')
	}
	return b.String()
}

// ---- regular expressions -------------------------------------------------------

// reNode is a regular expression with its own evaluator.
type reNode struct {
	K   string   `json:"k"`
	C   string   `json:"c,omitempty"`
	Sub []reNode `json:"s,omitempty"`
}

func (n reNode) String() string {
	switch n.K {
	case "lit":
		var b strings.Builder
		for _, r := range n.C {
			if strings.ContainsRune(`\.+*?()|[]{}^$`, r) {
				b.WriteByte('\\')
			}
			b.WriteRune(r)
		}
		return b.String()
	case "any":
		return "."
	case "class":
		return "[" + n.C + "]"
	case "nclass":
		return "[^" + n.C + "]"
	case "bol":
		return "^"
	case "eol":
		return "$"
	case "cat":
		var b strings.Builder
		for _, s := range n.Sub {
			b.WriteString(s.String())
		}
		return b.String()
	case "alt":
		var parts []string
		for _, s := range n.Sub {
			parts = append(parts, s.String())
		}
		return "(?:" + strings.Join(parts, "|") + ")"
	case "star", "plus", "opt":
		return "(?:" + n.Sub[0].String() + ")" + map[string]string{"star": "*", "plus": "+", "opt": "?"}[n.K]
	}
	vf.Bug("re kind %q", n.K)
	return ""
}

// ends returns the positions at which a match starting at i can end.
func (n reNode) ends(s []rune, i int) map[int]bool {
	ret := map[int]bool{}
	switch n.K {
	case "lit":
		if lit := []rune(n.C); strings.HasPrefix(string(s[i:]), n.C) {
			ret[i+len(lit)] = true
		}
	case "any":
		if i < len(s) && s[i] != '\n' {
			ret[i+1] = true
		}
	case "class":
		if i < len(s) && strings.IndexRune(n.C, s[i]) >= 0 {
			ret[i+1] = true
		}
	case "nclass":
		if i < len(s) && strings.IndexRune(n.C, s[i]) < 0 {
			ret[i+1] = true
		}
	case "bol":
		if i == 0 {
			ret[i] = true
		}
	case "eol":
		if i == len(s) {
			ret[i] = true
		}
	case "cat":
		ret[i] = true
		for _, c := range n.Sub {
			next := map[int]bool{}
			for j := range ret {
				for k := range c.ends(s, j) {
					next[k] = true
				}
			}
			ret = next
		}
	case "alt":
		for _, c := range n.Sub {
			for k := range c.ends(s, i) {
				ret[k] = true
			}
		}
	case "opt":
		ret = n.Sub[0].ends(s, i)
		ret[i] = true
	case "star", "plus":
		todo := []int{i}
		seen := map[int]bool{}
		for len(todo) > 0 {
			j := todo[0]
			todo = todo[1:]
			for k := range n.Sub[0].ends(s, j) {
				if !seen[k] {
					seen[k] = true
					todo = append(todo, k)
				}
			}
		}
		ret = seen
		if n.K == "star" {
			ret[i] = true
		}
	}
	return ret
}

// find reports whether s contains a match.
func (n reNode) find(str string) bool {
	s := []rune(str)
	for i := 0; i <= len(s); i++ {
		if len(n.ends(s, i)) > 0 {
			return true
		}
	}
	return false
}

func genRe(t *rapid.T, str string, depth int) reNode {
	s := []rune(str)
	piece := func() string {
		if len(s) == 0 || rapid.IntRange(0, 7).Draw(t, "foreign") == 0 {
			return rapid.SampledFrom([]string{"a", "b", ".test", "/", "//", "x", "t"}).Draw(t, "lit")
		}
		i := rapid.IntRange(0, len(s)-1).Draw(t, "from")
		return string(s[i:min(len(s), i+rapid.IntRange(1, 6).Draw(t, "len"))])
	}
	if depth <= 0 {
		switch rapid.IntRange(0, 5).Draw(t, "leaf") {
		case 0:
			return reNode{K: "any"}
		case 1:
			return reNode{K: "class", C: rapid.SampledFrom([]string{"ab", "0123", "/.", "xyt"}).Draw(t, "class")}
		case 2:
			return reNode{K: "nclass", C: rapid.SampledFrom([]string{"ab", "0123", "/.", "xyt"}).Draw(t, "class")}
		}
		return reNode{K: "lit", C: piece()}
	}
	switch rapid.IntRange(0, 6).Draw(t, "node") {
	case 0:
		return reNode{K: "alt", Sub: []reNode{genRe(t, str, depth-1), genRe(t, str, depth-1)}}
	case 1:
		return reNode{K: rapid.SampledFrom([]string{"star", "plus", "opt"}).Draw(t, "rep"), Sub: []reNode{genRe(t, str, depth-1)}}
	case 2, 3:
		n := reNode{K: "cat"}
		if rapid.IntRange(0, 2).Draw(t, "bol") == 0 {
			n.Sub = append(n.Sub, reNode{K: "bol"})
		}
		for i := rapid.IntRange(1, 3).Draw(t, "cat"); i > 0; i-- {
			n.Sub = append(n.Sub, genRe(t, str, depth-1))
		}
		if rapid.IntRange(0, 2).Draw(t, "eol") == 0 {
			n.Sub = append(n.Sub, reNode{K: "eol"})
		}
		return n
	}
	return genRe(t, str, 0)
}

// ---- URLs -----------------------------------------------------------------------

// mURL is an URL in parts. A path may lack its leading slash.
type mURL struct {
	Scheme, User, Host, Path, Query, Frag string
}

// hostPath is what patterns are matched against.
func (m mURL) hostPath() string {
	if m.Path != "" && m.Path[0] != '/' {
		return m.Host + "/" + m.Path
	}
	return m.Host + m.Path
}

func (m mURL) url() *url.URL {
	u := &url.URL{Scheme: m.Scheme, Host: m.Host, Path: m.Path, RawQuery: m.Query, Fragment: m.Frag}
	if m.User != "" {
		u.User = url.User(m.User)
	}
	return u
}

func genMURL(t *rapid.T) mURL {
	m := mURL{Scheme: rapid.SampledFrom([]string{"http", "https"}).Draw(t, "scheme")}
	m.User = rapid.SampledFrom([]string{"", "", "", "u", "a.test"}).Draw(t, "user")
	m.Host = rapid.SampledFrom([]string{"a.test", "b.test", "www.a.test", "a.test:8080", "a.testx", "aatest"}).Draw(t, "host")
	segs := rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "x", "xyz", "a.test", "", "p*q", "?", "a b", "index.html", "%", "é", "日本"}), 0, 4).Draw(t, "segs")
	if len(segs) > 0 || rapid.Bool().Draw(t, "slash") {
		m.Path = "/" + strings.Join(segs, "/")
	}
	if len(m.Path) > 1 && m.Path[1] != '/' && rapid.IntRange(0, 30).Draw(t, "rootless") == 0 {
		m.Path = m.Path[1:]
	}
	m.Query = rapid.SampledFrom([]string{"", "", "q=1", "a.test/x", "x=/a/b"}).Draw(t, "query")
	m.Frag = rapid.SampledFrom([]string{"", "", "f", "/a/x"}).Draw(t, "frag")
	return m
}

// mRule selects URLs.
type mRule struct {
	Kind string `json:"kind"` // host, pattern, regexp
	Arg  string `json:"arg"`
	Re   reNode `json:"re"`
}

func genMRule(t *rapid.T, pool []mURL) mRule {
	m := pool[rapid.IntRange(0, len(pool)-1).Draw(t, "base")]
	switch rapid.SampledFrom([]string{"host", "pattern", "pattern", "regexp", "regexp"}).Draw(t, "kind") {
	case "host":
		h := m.Host
		if rapid.IntRange(0, 5).Draw(t, "cut") == 0 {
			h = h[:len(h)-1]
		}
		return mRule{Kind: "host", Arg: h}
	case "pattern":
		return mRule{Kind: "pattern", Arg: genGlob(t, m.hostPath())}
	}
	re := genRe(t, m.hostPath(), rapid.IntRange(0, 3).Draw(t, "depth"))
	return mRule{Kind: "regexp", Arg: re.String(), Re: re}
}

func (r mRule) matches(m mURL) bool {
	switch r.Kind {
	case "host":
		return m.Host == r.Arg
	case "pattern":
		return globMatch([]rune(r.Arg), []rune(m.hostPath()))
	}
	return r.Re.find(m.hostPath())
}

func (r mRule) String() string { return fmt.Sprintf("%s %q", r.Kind, r.Arg) }
