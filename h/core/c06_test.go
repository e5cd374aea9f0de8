package core

import (
	"context"
	"fmt"
	"net/http"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"sync"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/vf"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID: "C06",
		Rule: "sets of spellings made by documented equivalences and of mutants made by other changes, crawled together and compared with an independent normaliser; and byte-mutated URLs; " +
			"non-trivial: at least two spellings of one URL and at least two different URLs",
		Assumptions: []string{"URLs are ASCII, percent escapes are well formed, user names are letters and digits, ports have no leading zeros"},
		Subs: []vf.Sub{
			vf.S("spellings", 60000, 1500000, genC06, runC06),
			vf.S("bytes", 60000, 1500000, genC06b, runC06b),
		},
	})
}

// ---- reference -----------------------------------------------------------------

var refURL = regexp.MustCompile(`^([A-Za-z]+)://(?:([^@/?#]*)@)?(\[[^\]]*\]|[^:/?#]*)(?::([0-9]*))?(/[^?#]*)?(\?[^#]*)?(#.*)?$`)

func refTriplets(s string) string {
	return regexp.MustCompile(`%[0-9A-Fa-f]{2}`).ReplaceAllStringFunc(s, func(e string) string {
		var c byte
		fmt.Sscanf(e[1:], "%x", &c)
		if regexp.MustCompile(`^[A-Za-z0-9._~-]$`).MatchString(string(rune(c))) && c < 0x80 {
			return string(rune(c))
		}
		return strings.ToUpper(e)
	})
}

// refDots is RFC 3986, 5.2.4, by the letter.
func refDots(in string) string {
	out := ""
	for in != "" {
		switch {
		case strings.HasPrefix(in, "../"):
			in = in[3:]
		case strings.HasPrefix(in, "./"):
			in = in[2:]
		case strings.HasPrefix(in, "/./"):
			in = in[2:]
		case in == "/.":
			in = "/"
		case strings.HasPrefix(in, "/../"), in == "/..":
			if in == "/.." {
				in = "/"
			} else {
				in = in[3:]
			}
			if i := strings.LastIndexByte(out, '/'); i >= 0 {
				out = out[:i]
			} else {
				out = ""
			}
		case in == ".", in == "..":
			in = ""
		default:
			i := strings.IndexByte(in[1:], '/')
			if i < 0 {
				i = len(in)
			} else {
				i++
			}
			out, in = out+in[:i], in[i:]
		}
	}
	return out
}

// refNorm is the identity of an URL.
func refNorm(raw string) (string, error) {
	m := refURL.FindStringSubmatch(raw)
	if m == nil {
		return "", fmt.Errorf("%q is not in the grammar", raw)
	}
	scheme, user, host, port, path, query := strings.ToLower(m[1]), m[2], strings.ToLower(m[3]), m[4], m[5], strings.TrimPrefix(m[6], "?")
	if scheme == "http" && port == "80" || scheme == "https" && port == "443" {
		port = ""
	}
	path = refDots(refTriplets(path))
	if path == "" {
		path = "/"
	}
	parts := strings.Split(refTriplets(query), "&")
	sort.Strings(parts)
	return fmt.Sprintf("%s|%s|%s|%s|%s|%s", scheme, user, host, port, path, strings.Join(parts, "&")), nil
}

// ---- generator ------------------------------------------------------------------

type urlParts struct {
	scheme, user, host, port, path string
	query, frag                    string // with the delimiter, or empty
}

func (u urlParts) String() string {
	s := u.scheme + "://"
	if u.user != "" {
		s += u.user + "@"
	}
	return s + u.host + u.port + u.path + u.query + u.frag
}

func genSegment(t *rapid.T) string {
	return rapid.SampledFrom([]string{"a", "b", "Foo", "x-y_z.~", "..", ".", "", "%2F", "%2f", "%7E", "%41", "%61b", "a%20b", "%3a", ":", "@", "a=b;c", "%25", "%2e", "%2E%2e", "!$'()*+,", "...", "%252F", "%C3%A9", "%c3%a9", "index.html", "%5B", "%00", "%21", "%24%26", "%27", "%28x%29", "%2a", "%2B", "%2C", "%3B", "%3D", "%40", "%3F", "%23", "%5D", "%2D", "%5F", "%22", "%5c", "%7C", "%60"}).Draw(t, "seg")
}

func genUParts(t *rapid.T) urlParts {
	u := urlParts{}
	u.scheme = rapid.SampledFrom([]string{"http", "https", "http", "HTTP", "Https"}).Draw(t, "scheme")
	u.user = rapid.SampledFrom([]string{"", "", "", "", "u", "U", "user1:pw", "user1:PW"}).Draw(t, "user")
	u.host = rapid.SampledFrom([]string{"a.test", "A.Test", "b.test", "127.0.0.1", "[::1]", "[FE80::1]", "www.a.test", "a-b.test", "h.test34", "a.test80", "10.0.0.43", "x443"}).Draw(t, "host")
	u.port = rapid.SampledFrom([]string{"", "", "", ":", ":80", ":443", ":8080", ":1"}).Draw(t, "port")
	for i := rapid.IntRange(0, 5).Draw(t, "segs"); i > 0; i-- {
		u.path += "/" + genSegment(t)
	}
	if rapid.Bool().Draw(t, "hasquery") {
		var parts []string
		for i := rapid.IntRange(0, 4).Draw(t, "params"); i > 0; i-- {
			parts = append(parts, rapid.SampledFrom([]string{"a=1", "a=2", "b=1", "b", "b=", "", "%61=1", "q=%2f", "q=%2F", "q=/", "q=%7e", "x=a+b", "x=a%20b", "z=%26", "A=1", "x=?", "y=a;b", "%3D=1", "10=1", "9=1", "x=%21", "x=!", "x=a%2Bb", "%24=%27", "p=%28%29%2A", "q=%2C%3b%40", "f=%23", "w=%3F", "w=?", "t=%5E", "d=%2D"}).Draw(t, "param"))
		}
		u.query = "?" + strings.Join(parts, "&")
	}
	if oneIn(t, 40, "long") {
		// long, with many parameters, or deep.
		switch uni(t, 0, 3, "longkind") {
		case 0:
			u.query = "?" + pick(t, "lq", "a=", "z&b=", "") + strings.Repeat("v", uni(t, 60, 2500, "lqn")) + pick(t, "lqt", "", "&c=1&b=2", "x")
		case 1:
			u.query = "?"
			for i, n := 0, uni(t, 8, 60, "manyp"); i < n; i++ {
				u.query += fmt.Sprintf("%s%d=%d&", pick(t, "pk", "k", "K", "%41", "z"), (i*7)%10, i%3)
			}
			u.query += "end"
		case 2:
			u.path += "/" + strings.Repeat("p", uni(t, 60, 2500, "lpn"))
		case 3:
			for i := uni(t, 8, 60, "deep"); i > 0; i-- {
				u.path += pick(t, "dseg", "/d", "/e", "/..", "/%7e", "/%2f")
			}
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "hasfrag") == 0 {
		u.frag = "#" + rapid.SampledFrom([]string{"", "f", "x/y", "?a=1", "%41"}).Draw(t, "frag")
	}
	return u
}

var hexRe = regexp.MustCompile(`%[0-9A-Fa-f]{2}`)

// respell applies one documented equivalence.
func respell(t *rapid.T, u urlParts) urlParts {
	recode := func(s string) string {
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			c := s[i]
			if c == '%' && i+2 < len(s) {
				e := s[i : i+3]
				switch rapid.IntRange(0, 3).Draw(t, "hex") {
				case 0:
					e = strings.ToLower(e)
				case 1:
					e = strings.ToUpper(e)
				}
				b.WriteString(e)
				i += 2
				continue
			}
			if i < 100 && regexp.MustCompile(`[A-Za-z0-9._~-]`).MatchString(string(rune(c))) && rapid.IntRange(0, 3).Draw(t, "enc") == 0 {
				fmt.Fprintf(&b, rapid.SampledFrom([]string{"%%%02x", "%%%02X"}).Draw(t, "case"), c)
				continue
			}
			b.WriteByte(c)
		}
		return b.String()
	}
	mixed := func(s string) string {
		b := []byte(s)
		for i := range b {
			if rapid.Bool().Draw(t, "up") {
				b[i] = strings.ToUpper(s)[i]
			} else {
				b[i] = strings.ToLower(s)[i]
			}
		}
		return string(b)
	}
	switch rapid.IntRange(0, 9).Draw(t, "respell") {
	case 0:
		u.scheme = mixed(u.scheme)
	case 1:
		u.host = mixed(u.host)
	case 2:
		u.path = recode(u.path)
	case 3:
		if u.query != "" {
			u.query = "?" + recode(u.query[1:])
		}
	case 4, 5:
		// dot segments at a segment boundary.
		var at []int
		for i := range u.path {
			if u.path[i] == '/' {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			i := at[rapid.IntRange(0, len(at)-1).Draw(t, "at")]
			u.path = u.path[:i] + rapid.SampledFrom([]string{"/.", "/zz/..", "/%2e", "/q/w/../..", "/%2E/y/%2e."}).Draw(t, "dots") + u.path[i:]
		} else {
			u.path = "/"
		}
	case 6:
		if u.path == "/" {
			u.path = ""
		} else if u.path == "" {
			u.path = "/"
		}
	case 7:
		def := map[string]string{"http": ":80", "https": ":443"}[strings.ToLower(u.scheme)]
		if u.port == "" || u.port == ":" || u.port == def {
			u.port = rapid.SampledFrom([]string{"", ":", def}).Draw(t, "defport")
		}
	case 8:
		if u.query == "" || u.query == "?" {
			u.query = rapid.SampledFrom([]string{"", "?"}).Draw(t, "q")
		} else {
			parts := strings.Split(u.query[1:], "&")
			u.query = "?" + strings.Join(rapid.Permutation(parts).Draw(t, "perm"), "&")
		}
	case 9:
		u.frag = rapid.SampledFrom([]string{"", "#", "#other", "#a?b=c"}).Draw(t, "f")
	}
	return u
}

// mutate makes a change that is usually not an equivalence.
func mutate(t *rapid.T, u urlParts) urlParts {
	switch rapid.IntRange(0, 12).Draw(t, "mutate") {
	case 0:
		u.path += "/"
	case 1:
		u.path = strings.Replace(u.path, "/", "//", 1)
	case 2:
		u.path = strings.TrimSuffix(u.path, "/")
	case 3:
		u.user = rapid.SampledFrom([]string{"", "u", "U", "user1:pw"}).Draw(t, "user")
	case 4:
		u.port = rapid.SampledFrom([]string{"", ":80", ":443", ":8080", ":81", ":8443"}).Draw(t, "port")
	case 5:
		u.host = rapid.SampledFrom([]string{"a.test", "b.test", "aatest", "[::1]", "[::2]", "h.test3", "h.test", "a.test8", "10.0.0.4", "x4", "x"}).Draw(t, "host")
	case 6:
		if i := strings.LastIndexByte(u.path, '/'); i > 0 {
			u.path = u.path[:i] + "%2F" + u.path[i+1:]
		}
	case 7:
		if len(u.query) > 1 {
			parts := strings.Split(u.query[1:], "&")
			u.query += "&" + parts[rapid.IntRange(0, len(parts)-1).Draw(t, "dup")]
		} else {
			u.query = "?a=1"
		}
	case 8:
		if i := strings.LastIndexByte(u.query, '&'); i > 0 {
			u.query = u.query[:i]
		}
	case 9:
		if strings.EqualFold(u.scheme, "http") {
			u.scheme = "https"
		} else {
			u.scheme = "http"
		}
	case 10:
		// the case of a path or query letter, not of an escape.
		flip := func(s string) string {
			return regexp.MustCompile(`%..|[a-z]`).ReplaceAllStringFunc(s, func(e string) string {
				if e[0] == '%' || rapid.IntRange(0, 3).Draw(t, "flip") > 0 {
					return e
				}
				return strings.ToUpper(e)
			})
		}
		u.path, u.query = flip(u.path), flip(u.query)
	case 11:
		u.path += "/" + genSegment(t)
	case 12:
		// the last byte only.
		if u.query != "" {
			u.query += "1"
		} else if u.path != "" {
			u.path += "1"
		}
	}
	return u
}

type c06P struct {
	URLs    []string `json:"urls"`
	Objects bool     `json:"objects"` // returned by a scraper instead of given to Run
}

func genC06(t *rapid.T) *c06P {
	p := &c06P{Objects: rapid.Bool().Draw(t, "objects")}
	pool := []urlParts{genUParts(t)}
	for i := rapid.IntRange(1, 10).Draw(t, "n"); i > 0; i-- {
		u := pool[rapid.IntRange(0, len(pool)-1).Draw(t, "from")]
		k := rapid.IntRange(0, 9).Draw(t, "how")
		if k < 6 {
			for j := rapid.IntRange(1, 4).Draw(t, "steps"); j > 0; j-- {
				u = respell(t, u)
			}
		} else if k < 9 {
			u = mutate(t, u)
		} else {
			u = genUParts(t)
		}
		pool = append(pool, u)
	}
	for _, u := range pool {
		p.URLs = append(p.URLs, u.String())
	}
	return p
}

// requested crawls urls and returns what was requested.
func requested(urls []string, objects bool) ([]string, error) {
	var mu sync.Mutex
	var got []string
	const start = "http://start.invalid/start"
	w := newWeb(func(req *http.Request) reply {
		s := req.URL.String()
		if objects && s == start {
			return reply{status: 200}
		}
		mu.Lock()
		defer mu.Unlock()
		got = append(got, s)
		return reply{status: 404}
	})
	sc := scraperFunc(func(ctx context.Context, p *ant.Page) (ant.URLs, error) {
		var ret ant.URLs
		for _, s := range urls {
			u, err := url.Parse(s)
			if err != nil {
				vf.Bug("%q: %v", s, err)
			}
			ret = append(ret, u)
		}
		return ret, nil
	})
	eng, err := ant.NewEngine(ant.EngineConfig{Scraper: sc, Fetcher: &ant.Fetcher{Client: w}, Impolite: true})
	if err != nil {
		return nil, err
	}
	if objects {
		err = eng.Run(context.Background(), start)
	} else {
		err = eng.Run(context.Background(), urls...)
	}
	sort.Strings(got)
	return got, err
}

func runC06(c *vf.Case, p *c06P) error {
	want := map[string][]string{}
	for _, u := range p.URLs {
		n, err := refNorm(u)
		if err != nil {
			vf.Bug("%v", err)
		}
		want[n] = append(want[n], u)
	}
	got, err := requested(p.URLs, p.Objects)
	if err != nil {
		return fmt.Errorf("crawl of %q: %v", p.URLs, err)
	}
	seen := map[string]string{}
	for _, g := range got {
		n, err := refNorm(g)
		if err != nil {
			return fmt.Errorf("crawl of %q requested %q, which is no URL of the grammar", p.URLs, g)
		}
		if want[n] == nil {
			return fmt.Errorf("crawl of %q requested %q, which is equivalent to none of them", p.URLs, g)
		}
		if prev, ok := seen[n]; ok {
			return fmt.Errorf("%q are one page but it was requested as %q and as %q", want[n], prev, g)
		}
		seen[n] = g
		if strings.Contains(g, "#") {
			return fmt.Errorf("requested %q with a fragment", g)
		}
	}
	same := false
	for n, us := range want {
		if seen[n] == "" {
			return fmt.Errorf("%q was not requested; it is different from what was: %q", us, got)
		}
		if len(us) > 1 {
			for _, u := range us {
				same = same || u != us[0]
			}
		}
	}
	again, err := requested(got, p.Objects)
	if err != nil {
		return fmt.Errorf("crawl of the normalised %q: %v", got, err)
	}
	if strings.Join(again, " ") != strings.Join(got, " ") {
		return fmt.Errorf("normalising again changes %q to %q", got, again)
	}
	c.NT(same && len(want) > 1)
	c.LabelIf(same, "several spellings of a page")
	c.LabelIf(p.Objects, "returned by a scraper")
	c.Note("%d spellings of %d pages", len(p.URLs), len(want))
	return nil
}

type c06bP struct {
	URL string `json:"url"`
}

func genC06b(t *rapid.T) *c06bP {
	b := []byte(genUParts(t).String())
	for i := rapid.IntRange(1, 6).Draw(t, "edits"); i > 0; i-- {
		if len(b) == 0 {
			break
		}
		j := rapid.IntRange(0, len(b)-1).Draw(t, "pos")
		ch := rapid.SampledFrom([]byte("/.%?#&=:@[]+ ;|\\^{}\"<>`'aZ0\t\x80\xff~*")).Draw(t, "ch")
		switch rapid.IntRange(0, 2).Draw(t, "edit") {
		case 0:
			b[j] = ch
		case 1:
			b = append(b[:j:j], append([]byte{ch}, b[j:]...)...)
		case 2:
			b = append(b[:j:j], b[j+1:]...)
		}
	}
	return &c06bP{string(b)}
}

var badEscape = regexp.MustCompile(`%($|.$|[^0-9A-Fa-f]|.[^0-9A-Fa-f])`)

func runC06b(c *vf.Case, p *c06bP) error {
	u, perr := url.Parse(p.URL)
	got, err := requested([]string{p.URL}, false)
	if perr != nil || u.Scheme != "http" && u.Scheme != "https" {
		if len(got) > 0 {
			return fmt.Errorf("%q is no http URL, and %q was requested", p.URL, got)
		}
		if err == nil {
			return fmt.Errorf("%q is no http URL, and the crawl returned no error", p.URL)
		}
		c.Label("refused")
		return nil
	}
	if badEscape.MatchString(p.URL) || strings.Contains(u.Hostname(), ":") && !strings.Contains(u.Host, "[") {
		c.Label("malformed escape or host")
		return nil
	}
	if err != nil || len(got) == 0 {
		// http.NewRequest may refuse what url.Parse accepts.
		c.Label("not requested")
		return nil
	}
	c.NT(true)
	if len(got) != 1 {
		return fmt.Errorf("%q: requested %q", p.URL, got)
	}
	v, err := url.Parse(got[0])
	if err != nil {
		return fmt.Errorf("%q was requested as %q: %v", p.URL, got[0], err)
	}
	if !strings.EqualFold(v.Hostname(), u.Hostname()) || v.Fragment != "" {
		return fmt.Errorf("%q was requested as %q", p.URL, got[0])
	}
	again, err := requested(got, false)
	if err != nil || len(again) != 1 || again[0] != got[0] {
		return fmt.Errorf("%q normalises to %q, and that to %q (%v)", p.URL, got[0], again, err)
	}
	return nil
}
