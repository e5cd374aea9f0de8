package core

import (
	"context"
	"fmt"
	"net/http"
	"net/url"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/zsched"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID: "C04",
		Rule: "random robots files (groups, agents, prefix and wildcard rules, crawl delays, layout) and statuses on several hosts, pages whose paths and queries are derived from the rules, workers, concurrency, latencies and schedule; long: crawls of several hours, page by page, in which the robots files change, against an exact list of requests; " +
			"non-trivial: at least one page is disallowed, and another page of a host with rules is allowed or a second host is used; long: a file was asked for again",
		Assumptions: []string{
			"robots files are well formed, rules are written in the normal form of URLs, the same file for both schemes of a host",
			"verdicts that the robots convention leaves open (equally long or wildcard rules that contradict each other) are accepted either way",
			"pages answer 200 or 404: retries of a failing page are not spaced by the crawl delay",
		},
		Subs: []vf.Sub{
			vf.S("crawl", 40000, 600000, genC04, runC04),
			vf.S("hosts", 400, 8000, genC04Many, runC04),
			vf.S("crowd", 24, 400, genC04Crowd, runC04),
			vf.S("long", 4000, 80000, genC04Long, runC04Long),
		},
	})
}

type robRule struct {
	Allow bool   `json:"a"`
	Path  string `json:"p"`
}

type robGroup struct {
	Agents []string  `json:"agents"`
	Rules  []robRule `json:"rules"`
	Delay  int       `json:"delay"` // ms
}

type robHost struct {
	Host   string     `json:"host"`
	Status int        `json:"st"` // 302: redirected
	Groups []robGroup `json:"groups"`
	LatMS  int        `json:"lat"`
	Style  int        `json:"style"`
	PadKB  int        `json:"pad"` // comments before the groups
}

type robPage struct {
	Host  int    `json:"h"`
	Path  string `json:"p"` // path and query, in normal form
	Stage int    `json:"s"`
	LatMS int    `json:"lat"`
	St    int    `json:"st"`
	TLS   bool   `json:"tls,omitempty"`
}

// robManyHosts is a number of hosts near which the files of some are not kept.
const robManyHosts = 900

func (p *c04P) url(pg robPage) string {
	scheme := "http"
	if pg.TLS {
		scheme = "https"
	}
	return scheme + "://" + p.Hosts[pg.Host].Host + pg.Path
}

type c04P struct {
	Hosts    []robHost    `json:"hosts"`
	Pages    []robPage    `json:"pages"`
	Stages   int          `json:"stages"`
	StageMS  int          `json:"stageMS"` // latency of the pages of the root host
	Workers  int          `json:"workers"`
	Conc     int          `json:"conc"`
	Impolite bool         `json:"impolite"`
	Agent    string       `json:"agent"` // ant.UserAgent
	Sched    zsched.Sched `json:"sched"`
}

var robPaths = []string{"/", "/a", "/a/", "/a/b", "/ab", "/b", "/b/c?x=1", "/b/c", "/b/c?x=2", "/c.php", "/c.php?q=1", "/x%20y", "/x%20y/z", "/q?a=1&b=2", "/q?a=1", "/q", "/a/b/c/d", "/private/x.html", "/a%2Fb", "/search", "/x/a/b", "/b/c?x", "/b/c?x=1&y", "/b/c?x=%2F1", "/q?a=1;b=2", "/q?k=a+b", "/q?k=a%20b"}

func genC04(t *rapid.T) *c04P {
	p := &c04P{Sched: vf.GenSched(t)}
	hostNames := rapid.Permutation([]string{"h0.test", "h1.test", "h0.test:8080", "www.h0.test"}).Draw(t, "hosts")
	nh := rapid.SampledFrom([]int{2, 1, 2, 3}).Draw(t, "nh")
	return genC04n(t, p, nh, hostNames)
}

// genC04Many generates crawls of many hosts, each visited in several stages.
func genC04Many(t *rapid.T) *c04P {
	p := &c04P{Sched: vf.GenSched(t)}
	nh := rapid.SampledFrom([]int{20, 12, 40, 70, 110, 150, 220}).Draw(t, "nh")
	hostNames := make([]string, nh)
	for i := range hostNames {
		hostNames[i] = fmt.Sprintf("h%d.test", i)
	}
	genC04n(t, p, 6, hostNames[:6])
	kinds := p.Hosts
	p.Hosts, p.Pages = nil, nil
	for i, n := range hostNames {
		h := kinds[i%6]
		h.Host, h.PadKB = n, 0
		p.Hosts = append(p.Hosts, h)
	}
	p.Stages = 3
	path := rapid.SampledFrom(robPaths).Draw(t, "one")
	other := rapid.SampledFrom(robPaths).Draw(t, "other")
	for i := range hostNames {
		p.Pages = append(p.Pages, robPage{Host: i, Path: path, Stage: 0, St: 200}, robPage{Host: i, Path: other, Stage: 2, St: 200})
	}
	return p
}

// genC04Crowd generates crawls of more hosts than the crawler keeps files of,
// with crawl delays.
func genC04Crowd(t *rapid.T) *c04P {
	p := &c04P{Workers: pick(t, "workers", 1, 2), Agent: "antbot", Stages: pick(t, "stages", 1, 2, 3), StageMS: pick(t, "stageMS", 90, 1000, 4000)}
	nh := uni(t, 1001, 1400, "nh")
	delays := rapid.SliceOfN(rapid.SampledFrom([]int{1000, 3000, 500, 10000}), 1, 4).Draw(t, "delays")
	twice := uni(t, 1, 40, "twice")
	for i := 0; i < nh; i++ {
		p.Hosts = append(p.Hosts, robHost{Host: fmt.Sprintf("h%d.test", i), Status: 200, Groups: []robGroup{{Agents: []string{"*"}, Rules: []robRule{{Path: "/no"}}, Delay: delays[i%len(delays)]}}})
		p.Pages = append(p.Pages, robPage{Host: i, Path: "/a", St: 200})
	}
	for i := 0; i < nh; i++ {
		if i%twice == 0 {
			p.Pages = append(p.Pages, robPage{Host: i, Path: "/b", St: 200, Stage: i % p.Stages}, robPage{Host: i, Path: "/no", St: 200})
		}
	}
	return p
}

func genC04n(t *rapid.T, p *c04P, nh int, hostNames []string) *c04P {
	for i := 0; i < nh; i++ {
		h := robHost{Host: hostNames[i], LatMS: genLat(t), Style: rapid.IntRange(0, 7).Draw(t, "style")}
		h.Status = rapid.SampledFrom([]int{200, 200, 200, 200, 200, 200, 302, 404, 403, 500, 503, 410}).Draw(t, "status")
		for j := rapid.SampledFrom([]int{1, 0, 1, 2, 3}).Draw(t, "groups"); j > 0; j-- {
			var g robGroup
			g.Agents = rapid.SliceOfN(rapid.SampledFrom([]string{"*", "*", "*", "antbot", "antbot", "AntBot", "ant", "googlebot", "bot", "antbotx", "an", "other", "gadget", "gad"}), 1, 2).Draw(t, "agents")
			for k := rapid.SampledFrom([]int{1, 0, 2, 3, 4}).Draw(t, "rules"); k > 0; k-- {
				r := robRule{Allow: rapid.IntRange(0, 2).Draw(t, "allow") == 0}
				r.Path = rapid.SampledFrom(robPaths).Draw(t, "path")
				switch rapid.IntRange(0, 9).Draw(t, "form") {
				case 0:
					r.Path += "*"
				case 1:
					r.Path += "$"
				case 2:
					if i := strings.LastIndexByte(r.Path, '/'); i > 0 {
						r.Path = r.Path[:i] + "/*" + r.Path[i+1:]
					}
				case 3:
					r.Path = rapid.SampledFrom([]string{"/*?", "/*.php", "/*.php$", "/*x=1", "/*/b", "/a*c", "*b"}).Draw(t, "wild")
				case 4:
					r.Path = ""
				case 5:
					r.Path = r.Path[:rapid.IntRange(1, len(r.Path)).Draw(t, "cut")]
				}
				if strings.HasSuffix(r.Path, "%") || strings.HasSuffix(r.Path, "%2") {
					r.Path = r.Path[:strings.LastIndexByte(r.Path, '%')]
				}
				g.Rules = append(g.Rules, r)
			}
			if rapid.IntRange(0, 3).Draw(t, "delayed") == 0 {
				g.Delay = rapid.SampledFrom([]int{100, 500, 1000, 3000, 1500, 75000}).Draw(t, "delay")
			}
			h.Groups = append(h.Groups, g)
		}
		if uni(t, 0, 39, "padded") == 7 {
			h.PadKB = rapid.SampledFrom([]int{1, 5, 20, 70, 140, 300, 800}).Draw(t, "pad")
		}
		p.Hosts = append(p.Hosts, h)
	}
	p.StageMS = rapid.SampledFrom([]int{90, 90, 90, 90, 5000, 40000, 180000}).Draw(t, "stageMS")
	p.Agent = rapid.SampledFrom([]string{"antbot", "antbot", "antbot", "antbot", "antbot", "gadget", "Gadget"}).Draw(t, "agent")
	p.Stages = rapid.IntRange(1, 4).Draw(t, "stages")
	for i, n := 0, rapid.SampledFrom([]int{3, 1, 2, 5, 8, 14}).Draw(t, "pages"); i < n; i++ {
		// half of the pages are near the rules of their host.
		hi := rapid.IntRange(0, nh-1).Draw(t, "host")
		paths := robPaths
		if rapid.Bool().Draw(t, "near") {
			var near []string
			rules, _ := p.Hosts[hi].group(p.Agent)
			for _, rp := range robPaths {
				for _, r := range rules {
					if r.Path != "" && r.Path != "/" && strings.HasPrefix(rp, r.Path) {
						near = append(near, rp)
						break
					}
				}
			}
			if len(near) > 0 {
				paths = near
			}
		}
		p.Pages = append(p.Pages, robPage{
			Host: hi, Path: rapid.SampledFrom(paths).Draw(t, "page"),
			Stage: rapid.IntRange(0, p.Stages-1).Draw(t, "stage"), LatMS: genLat(t), St: rapid.SampledFrom([]int{200, 200, 404}).Draw(t, "st"),
		})
	}
	if oneIn(t, 3, "tls") {
		for i := range p.Pages {
			p.Pages[i].TLS = rapid.Bool().Draw(t, "https")
		}
	}
	p.Workers = rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "workers")
	p.Conc = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "conc")
	p.Impolite = rapid.IntRange(0, 7).Draw(t, "impolite") == 0
	return p
}

// text renders the file.
func (h robHost) text() string {
	var b strings.Builder
	nl := "\n"
	if h.Style&1 != 0 {
		nl = "\r\n"
	}
	ua, dis, allow, delay := "User-agent: ", "Disallow: ", "Allow: ", "Crawl-delay: "
	if h.Style&2 != 0 {
		ua, dis, allow, delay = "USER-AGENT:", "disallow:", "ALLOW:   ", "crawl-delay:"
	}
	if h.Style&4 != 0 {
		b.WriteString("# robots of " + h.Host + nl + "Sitemap: http://" + h.Host + "/sitemap.xml" + nl + nl)
	}
	for b.Len() < h.PadKB<<10 {
		b.WriteString("# nothing to see here" + nl)
	}
	for _, g := range h.Groups {
		for _, a := range g.Agents {
			b.WriteString(ua + a + nl)
		}
		for _, r := range g.Rules {
			k := dis
			if r.Allow {
				k = allow
			}
			b.WriteString(k + r.Path + nl)
		}
		if g.Delay > 0 {
			fmt.Fprintf(&b, "%s%g%s", delay, float64(g.Delay)/1000, nl)
		}
		if len(g.Rules) == 0 && g.Delay == 0 {
			// a group needs a rule to be complete.
			b.WriteString(dis + nl)
		}
		if h.Style&4 != 0 {
			b.WriteString("# end of group" + nl)
		}
		b.WriteString(nl)
	}
	return b.String()
}

// group returns the rules and the delay for the agent.
func (h robHost) group(agent string) (rules []robRule, delay time.Duration) {
	if h.Status != 200 && h.Status != 302 {
		return nil, 0
	}
	best, agent := "", strings.ToLower(agent)
	for _, g := range h.Groups {
		for _, a := range g.Agents {
			a = strings.ToLower(a)
			if a == "*" {
				if best == "" {
					best = "*"
				}
			} else if strings.HasPrefix(agent, a) && (best == "*" || len(a) > len(best)) {
				best = a
			}
		}
	}
	for _, g := range h.Groups {
		for _, a := range g.Agents {
			if best != "" && strings.ToLower(a) == best {
				rules = append(rules, g.Rules...)
				if g.Delay > 0 {
					delay = ms(g.Delay)
				}
				break
			}
		}
	}
	return
}

// verdict judges a path: allowed, disallowed or open.
func robVerdict(rules []robRule, path string, anchored bool) string {
	type hit struct {
		wild  bool
		n     int
		allow bool
	}
	var hits []hit
	for _, r := range rules {
		rp := r.Path
		if rp == "" {
			continue
		}
		rp = strings.TrimRight(rp, "*")
		if rp == "" {
			// "*" matches everything, with the least weight.
			hits = append(hits, hit{true, 0, r.Allow})
			continue
		}
		if strings.ContainsAny(rp, "*$") {
			expr := regexp.QuoteMeta(rp)
			expr = strings.ReplaceAll(strings.ReplaceAll(expr, `\*`, `.*`), `\$`, `$`)
			if anchored {
				expr = "^" + expr
			}
			if regexp.MustCompile(expr).MatchString(path) {
				hits = append(hits, hit{true, len(rp), r.Allow})
			}
			continue
		}
		if strings.HasPrefix(path, rp) {
			hits = append(hits, hit{false, len(rp), r.Allow})
		}
	}
	if len(hits) == 0 {
		return "allowed"
	}
	name := map[bool]string{true: "allowed", false: "disallowed"}
	agree, wild := true, false
	for _, h := range hits {
		agree = agree && h.allow == hits[0].allow
		wild = wild || h.wild
	}
	if agree {
		return name[hits[0].allow]
	}
	if wild {
		return "open"
	}
	best := hits[0]
	tie := false
	for _, h := range hits[1:] {
		if h.n > best.n {
			best, tie = h, false
		} else if h.n == best.n && h.allow != best.allow {
			tie = true
		}
	}
	if tie {
		return "open"
	}
	return name[best.allow]
}

func runC04(c *vf.Case, p *c04P) error {
	return vf.Bubble(c, p.Sched, func() error {
		var mu sync.Mutex
		var bad error
		fail := func(format string, args ...any) {
			if bad == nil {
				bad = fmt.Errorf(format, args...)
			}
		}
		t0 := time.Now()
		known := map[string]time.Duration{} // host, scheme://host -> when robots.txt was obtained
		robReq := map[string]int{}
		pageReq := map[string][]time.Duration{}
		hits := map[string]int{}
		slack := time.Duration(0)
		if p.Sched.Prob > 0 || p.Sched.Long > 0 {
			slack = 60 * time.Millisecond
		}
		byHost := map[string]robHost{}
		delays := map[string]time.Duration{}
		for _, h := range p.Hosts {
			byHost[h.Host] = h
			_, delays[h.Host] = h.group(p.Agent)
		}
		pages := map[string]robPage{}
		for _, pg := range p.Pages {
			u := p.url(pg)
			if _, ok := pages[u]; !ok {
				pages[u] = pg
			}
		}
		const root = "root.invalid"
		w := newWeb(func(req *http.Request) reply {
			mu.Lock()
			defer mu.Unlock()
			host := req.URL.Host
			now := time.Since(t0)
			if req.URL.Path == "/robots.txt" {
				robReq[host]++
				if p.Impolite {
					fail("an impolite crawler requested %s", req.URL)
				}
				if at, ok := known[req.URL.Scheme+"://"+host]; ok && now > at+slack && len(p.Hosts) < robManyHosts {
					fail("robots.txt of %s was requested at %s although it had been obtained at %s", host, now, at)
				}
				h, ok := byHost[host]
				if !ok {
					known[host], known[req.URL.Scheme+"://"+host] = now, now
					return reply{status: 404}
				}
				if h.Status == 302 {
					return reply{status: 302, header: http.Header{"Location": {"/moved-robots.txt"}}, latency: ms(h.LatMS)}
				}
				return c04robots(h, req.URL, &mu, known, t0)
			}
			if req.URL.Path == "/moved-robots.txt" {
				return c04robots(byHost[host], req.URL, &mu, known, t0)
			}
			if host == root {
				var s int
				fmt.Sscanf(req.URL.Path, "/%d", &s)
				var b strings.Builder
				if s+1 < p.Stages {
					fmt.Fprintf(&b, `<a href="/%d">next</a>`, s+1)
				}
				for _, pg := range p.Pages {
					if pg.Stage == s {
						fmt.Fprintf(&b, `<a href="%s">p</a>`, strings.ReplaceAll(p.url(pg), "&", "&amp;"))
					}
				}
				return reply{status: 200, body: []byte(b.String()), latency: ms(p.StageMS)}
			}
			pg, ok := pages[req.URL.String()]
			if !ok {
				fail("requested %s, which nothing links to", req.URL)
				return reply{status: 404}
			}
			hits[req.URL.String()]++
			if _, ok := known[host]; !ok && !p.Impolite {
				fail("%s was requested before robots.txt of its host", req.URL)
			}
			pageReq[host] = append(pageReq[host], now)
			return reply{status: pg.St, latency: ms(pg.LatMS)}
		})
		useWeb(w)
		defer func(ua ant.StaticAgent) { ant.UserAgent = ua }(ant.UserAgent)
		ant.UserAgent = ant.StaticAgent(p.Agent)
		eng, err := ant.NewEngine(ant.EngineConfig{
			Scraper: scraperFunc(func(_ context.Context, p *ant.Page) (ant.URLs, error) { return p.URLs(), nil }),
			Fetcher: &ant.Fetcher{Client: w}, Workers: p.Workers, Concurrency: p.Conc, Impolite: p.Impolite,
		})
		if err != nil {
			return fmt.Errorf("NewEngine: %v", err)
		}
		if err := eng.Run(context.Background(), "http://"+root+"/0"); err != nil {
			return fmt.Errorf("the crawl returned %v", err)
		}
		mu.Lock()
		defer mu.Unlock()
		if bad != nil {
			return bad
		}
		var finding error
		denied, okRules, hostsUsed := 0, 0, map[int]bool{}
		for u, pg := range pages {
			hostsUsed[pg.Host] = true
			h := p.Hosts[pg.Host]
			rules, _ := h.group(p.Agent)
			pu, err := url.Parse(u)
			if err != nil || pu.String() != u {
				vf.Bug("page %q: %v", u, err)
			}
			want := robVerdict(rules, pg.Path, true)
			if p.Impolite {
				want = "allowed"
			}
			got := hits[u]
			switch {
			case got > 1:
				return fmt.Errorf("%s was requested %d times", u, got)
			case want == "allowed" && got == 0:
				if v := robVerdict(rules, pg.Path, false); v != "allowed" {
					finding = vf.Known("robots-wildcard-not-anchored", "%s is allowed by the robots file of its host and was not requested: a wildcard rule was matched in the middle of the path\n%s", u, h.text())
					continue
				}
				return fmt.Errorf("%s is allowed by the robots file of its host and was not requested\n%s", u, h.text())
			case want == "disallowed" && got == 1:
				if v := robVerdict(rules, pg.Path, false); v != "disallowed" {
					finding = vf.Known("robots-wildcard-not-anchored", "%s is disallowed by the robots file of its host and was requested: a wildcard rule was matched in the middle of the path\n%s", u, h.text())
					continue
				}
				return fmt.Errorf("%s is disallowed by the robots file of its host and was requested\n%s", u, h.text())
			}
			if want == "disallowed" {
				denied++
			}
			if want == "allowed" && len(rules) > 0 {
				okRules++
			}
		}
		spaced := false
		for host, times := range pageReq {
			d := delays[host]
			if d == 0 || p.Impolite {
				continue
			}
			for i, at := range times {
				if at+slack < d {
					return fmt.Errorf("%s has a crawl delay of %s, and a page was requested at %s", host, d, at)
				}
				if i > 0 {
					spaced = true
					if gap := at - times[i-1]; gap+slack < d {
						return fmt.Errorf("%s has a crawl delay of %s, and pages were requested at %s and %s", host, d, times[i-1], at)
					}
				}
			}
		}
		if !p.Impolite {
			for _, n := range robReq {
				c.LabelIf(n > 1, "several requests for one robots file")
			}
		}
		c.NT(denied > 0 && (okRules > 0 || len(hostsUsed) > 1))
		c.LabelIf(denied > 0, "pages disallowed")
		c.LabelIf(spaced, "crawl delay between requests")
		c.LabelIf(p.Impolite, "impolite")
		c.Note("%d disallowed, %d allowed by rules, %d robots requests", denied, okRules, len(robReq))
		return finding
	})
}

// c04robots answers a request for the file itself; it counts as obtained once
// it was read to its end.
func c04robots(h robHost, u *url.URL, mu *sync.Mutex, known map[string]time.Duration, t0 time.Time) reply {
	r := reply{status: h.Status, header: http.Header{"Content-Type": {"text/plain"}}, latency: ms(h.LatMS)}
	if r.status == 302 {
		r.status = 200
	}
	body := h.text()
	if r.status != 200 {
		body = "User-agent: *\nDisallow: /\n"
	}
	done := func() {
		mu.Lock()
		defer mu.Unlock()
		for _, k := range []string{u.Host, u.Scheme + "://" + u.Host} {
			if _, ok := known[k]; !ok {
				known[k] = time.Since(t0)
			}
		}
	}
	if r.status != 200 {
		r.onServe = done
		r.body = []byte(body)
	} else {
		r.reader = &eofReader{r: strings.NewReader(body), done: done}
	}
	return r
}

type eofReader struct {
	r    *strings.Reader
	done func()
}

func (e *eofReader) Read(b []byte) (int, error) {
	n, err := e.r.Read(b)
	if err != nil {
		e.done()
	}
	return n, err
}
