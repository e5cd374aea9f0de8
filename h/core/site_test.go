package core

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"html"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/zsched"
	"pgregory.net/rapid"
)

// reply is what the fake web answers.
type reply struct {
	status  int
	header  http.Header
	body    []byte
	err     error
	both    bool // err comes with a response
	latency time.Duration
	reader  io.Reader // overrides body
	final   *url.URL  // the response's request has this URL
	onServe func()    // called when the response is handed out
}

// web is a fake web: an ant.Client and an http.RoundTripper.
type web struct {
	mu     sync.Mutex
	handle func(req *http.Request) reply
	bodies []*body
	start  time.Time
}

// body accounts for reads and closes.
type body struct {
	req     string
	r       io.Reader
	mu      sync.Mutex
	eof     bool
	closed  int
	failErr error
	late    bool
}

func (b *body) Read(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.closed > 0 {
		b.late = true
		return 0, errors.New("read on closed body")
	}
	n, err := b.r.Read(p)
	if err == io.EOF {
		b.eof = true
	} else if err != nil {
		b.failErr = err
	}
	return n, err
}

func (b *body) Close() error {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.closed++
	return nil
}

func newWeb(h func(req *http.Request) reply) *web {
	return &web{handle: h, start: time.Now()}
}

// Do implements ant.Client.
func (w *web) Do(req *http.Request) (*http.Response, error) {
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	r := w.handle(req)
	if r.latency > 0 {
		t := time.NewTimer(r.latency)
		select {
		case <-t.C:
		case <-req.Context().Done():
			t.Stop()
			return nil, req.Context().Err()
		}
	}
	if r.err != nil && !r.both {
		return nil, r.err
	}
	if r.onServe != nil {
		r.onServe()
	}
	rd := io.Reader(bytes.NewReader(r.body))
	if r.reader != nil {
		rd = r.reader
	}
	b := &body{req: req.URL.String(), r: rd}
	w.mu.Lock()
	w.bodies = append(w.bodies, b)
	w.mu.Unlock()
	if r.final != nil {
		req = req.Clone(req.Context())
		req.URL = r.final
	}
	hdr := r.header
	if hdr == nil {
		hdr = http.Header{"Content-Type": {"text/html"}}
	}
	return &http.Response{
		Status: fmt.Sprintf("%d %s", r.status, http.StatusText(r.status)), StatusCode: r.status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: hdr, Body: b, ContentLength: -1, Request: req,
	}, r.err
}

// RoundTrip implements http.RoundTripper.
func (w *web) RoundTrip(req *http.Request) (*http.Response, error) { return w.Do(req) }

// useWeb makes w the transport of ant.DefaultClient, which the engine uses for
// robots.txt.
func useWeb(w *web) { ant.DefaultClient.Transport = w }

// ---- crawls -----------------------------------------------------------------

type reqT = *http.Request

type linkP struct {
	To  int `json:"to"`
	Var int `json:"var"`
}

type pageP struct {
	Host   int     `json:"h"`
	Status int     `json:"st"`
	Links  []linkP `json:"l"`
	LatMS  int     `json:"lat"`
	ScrMS  int     `json:"scr"`
	Query  bool    `json:"q"`
	Denied bool    `json:"deny"`         // disallowed by robots.txt
	Unmat  bool    `json:"unmat"`        // rejected by the matcher
	Direct bool    `json:"direct"`       // the scraper adds the links with Enqueue
	Moved  bool    `json:"moved"`        // the client follows a redirect to another URL
	Pad    int     `json:"pad"`          // length of a further query parameter
	As     int     `json:"as,omitempty"` // 1+ the page whose path this one has on another host, or with another query
}

// extP is a call of Enqueue while the crawl runs.
type extP struct {
	MS    int     `json:"ms"`
	NS    int     `json:"ns,omitempty"`
	Links []linkP `json:"l"`
}

type crawlP struct {
	Ext     []extP       `json:"ext"`
	Keep    bool         `json:"keep"` // the crawl lasts until the last of them
	Pages   []pageP      `json:"pages"`
	Seeds   []linkP      `json:"seeds"`
	Hosts   int          `json:"hosts"`
	DelayS  int          `json:"delayS"` // crawl delay of all hosts
	Workers int          `json:"workers"`
	Conc    int          `json:"conc"`
	BF      bool         `json:"bf"`
	Polite  bool         `json:"polite"`
	Matcher bool         `json:"matcher"`
	Objects bool         `json:"objects"` // scraper returns shared *URL values
	Sched   zsched.Sched `json:"sched"`
}

const nvars = 10

// pageURL returns a spelling of page i's URL.
func (p *crawlP) pageURL(i, v int) string {
	pg := p.Pages[i]
	scheme, host, path, q := "http", fmt.Sprintf("h%d.test", pg.Host), "", ""
	i = p.pathOf(i)
	path = fmt.Sprintf("/p%d/x", i)
	if pg.Host%2 == 1 {
		scheme = "https"
	}
	if pg.Query {
		q = "?a=1&b=2"
	}
	if pg.Query && pg.Pad > 0 {
		q += "&c=" + strings.Repeat("z", pg.Pad)
	}
	switch v % nvars {
	case 1:
		host = strings.ToUpper(host)
	case 2:
		if scheme == "http" {
			host += ":80"
		} else {
			host += ":443"
		}
	case 3:
		q += "#frag"
	case 4:
		path = fmt.Sprintf("/y/./../p%d/x", i)
	case 5:
		path = fmt.Sprintf("/%%70%d/x", i)
	case 6:
		if pg.Query {
			q = "?b=2" + strings.TrimPrefix(q, "?a=1&b=2") + "&a=1"
		} else {
			q = "?"
		}
	case 7:
		scheme = strings.ToUpper(scheme)
	case 8:
		path = fmt.Sprintf("/p%d/./%%78", i)
	case 9:
		path = fmt.Sprintf("/../p%d/z/../x", i)
	}
	return scheme + "://" + host + path + q
}

// href returns the reference of link l on page i.
func (p *crawlP) href(i int, l linkP) string {
	a, b := p.Pages[i], p.Pages[l.To]
	ref := p.pageURL(l.To, l.Var)
	if l.Var < nvars || a.Host != b.Host {
		return ref
	}
	u, err := url.Parse(ref)
	if err != nil {
		vf.Bug("href: %v", err)
	}
	switch l.Var {
	case nvars:
		return u.RequestURI()
	case nvars + 1:
		return ".." + u.RequestURI()
	default:
		return "//" + u.Host + u.RequestURI()
	}
}

// finalOf identifies the page behind the final URL of a response.
func (p *crawlP) finalOf(u *url.URL) int {
	if rest, ok := strings.CutPrefix(u.Path, "/moved-"); ok {
		v := *u
		v.Path = "/" + rest
		if i := p.pageOf(&v); i >= 0 && p.Pages[i].Moved {
			return i
		}
		return -1
	}
	if i := p.pageOf(u); i >= 0 && !p.Pages[i].Moved {
		return i
	}
	return -1
}

// pathOf is the number in page i's path.
func (p *crawlP) pathOf(i int) int {
	if as := p.Pages[i].As; as > 0 {
		return as - 1
	}
	return i
}

// twin makes page i share the path of page j if the rest of its URL differs
// from those of all others with that path.
func (p *crawlP) twin(i, j int) {
	if p.Pages[j].As > 0 || p.Pages[i].As > 0 || i == j {
		return
	}
	a := &p.Pages[i]
	for k := range p.Pages {
		b := p.Pages[k]
		if b.As == i+1 || (k == j || b.As == j+1) && a.Host == b.Host && a.Query == b.Query {
			return
		}
	}
	a.As = j + 1
	for k := range p.Pages {
		if b := p.Pages[k]; (k == j || b.As == j+1) && a.Host == b.Host {
			// robots.txt names the path.
			a.Denied = b.Denied
		}
	}
}

// untwin gives every page its own path.
func (p *crawlP) untwin() {
	for i := range p.Pages {
		p.Pages[i].As = 0
	}
}

// pageOf identifies the page behind an URL, -1 when there is none.
func (p *crawlP) pageOf(u *url.URL) int {
	var i int
	if n, err := fmt.Sscanf(u.Path, "/p%d/x", &i); n != 1 || err != nil || u.Path != fmt.Sprintf("/p%d/x", i) {
		return -1
	}
	if i < 0 || i >= len(p.Pages) {
		return -1
	}
	if at := p.identify(i, u); at >= 0 {
		return at
	}
	for j := range p.Pages {
		if p.Pages[j].As == i+1 {
			if at := p.identify(j, u); at >= 0 {
				return at
			}
		}
	}
	return -1
}

func (p *crawlP) identify(i int, u *url.URL) int {
	if p.Pages[i].As > 0 && u.Path != fmt.Sprintf("/p%d/x", p.pathOf(i)) {
		return -1
	}
	pg := p.Pages[i]
	if u.Hostname() != fmt.Sprintf("h%d.test", pg.Host) {
		return -1
	}
	if pg.Query != (u.RawQuery != "") {
		return -1
	}
	return i
}

type event struct {
	Kind string // robots, fetch, fetched, scrape, scraped
	Page int
	Host string
	At   time.Duration
}

// crawl records a crawl.
type crawl struct {
	p        *crawlP
	mu       sync.Mutex
	t0       time.Time
	events   []event
	fetches  map[int]int
	scrapes  map[int]int
	robots   map[string]int
	strange  []string
	inflight int
	peak     int
	web      *web
	eng      *ant.Engine
	hook     func(kind string, page int, ctx context.Context) error // fault injection
	links    func(page int) []linkP
	fetcher  *ant.Fetcher
}

func (c *crawl) log(kind string, page int, host string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.events = append(c.events, event{kind, page, host, time.Since(c.t0)})
	switch kind {
	case "fetch":
		c.fetches[page]++
	case "scrape":
		c.scrapes[page]++
	case "robots":
		c.robots[host]++
	}
}

func (c *crawl) odd(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.strange = append(c.strange, fmt.Sprintf(format, args...))
}

func newCrawl(p *crawlP) *crawl {
	c := &crawl{p: p, fetches: map[int]int{}, scrapes: map[int]int{}, robots: map[string]int{}, t0: time.Now()}
	c.links = func(i int) []linkP { return p.Pages[i].Links }
	c.web = newWeb(c.serve)
	useWeb(c.web)
	return c
}

func (c *crawl) robotsTxt(host string) string {
	var b strings.Builder
	b.WriteString("User-agent: *\n")
	if c.p.DelayS > 0 {
		fmt.Fprintf(&b, "Crawl-delay: %d\n", c.p.DelayS)
	}
	for i, pg := range c.p.Pages {
		if pg.Denied && fmt.Sprintf("h%d.test", pg.Host) == host {
			fmt.Fprintf(&b, "Disallow: /p%d/\n", c.p.pathOf(i))
		}
	}
	return b.String()
}

func (c *crawl) serve(req *http.Request) reply {
	u := req.URL
	if u.Path == "/robots.txt" {
		c.log("robots", -1, u.Host)
		if c.hook != nil {
			if err := c.hook("robots", -1, req.Context()); err != nil {
				return reply{err: err}
			}
		}
		return reply{status: 200, header: http.Header{"Content-Type": {"text/plain"}}, body: []byte(c.robotsTxt(u.Hostname())), latency: 2 * time.Millisecond}
	}
	i := c.p.pageOf(u)
	if i < 0 {
		c.odd("requested %s, which is no page of the site", u)
		return reply{status: 404}
	}
	c.log("fetch", i, u.Host)
	if c.hook != nil {
		if err := c.hook("fetch", i, req.Context()); err != nil {
			var se statusErr
			if errors.As(err, &se) {
				return reply{status: int(se), body: []byte("failure")}
			}
			return reply{err: err}
		}
	}
	pg := c.p.Pages[i]
	ret := reply{status: pg.Status, body: c.html(i), latency: time.Duration(pg.LatMS) * time.Millisecond}
	if pg.Moved {
		v := *u
		v.Path = "/moved-" + strings.TrimPrefix(v.Path, "/")
		ret.final = &v
	}
	return ret
}

type statusErr int

func (s statusErr) Error() string { return fmt.Sprintf("status %d", int(s)) }

func (c *crawl) html(i int) []byte {
	var b strings.Builder
	fmt.Fprintf(&b, "<html><body><h1>page %d</h1>", i)
	if !c.p.Objects && !c.p.Pages[i].Direct {
		for _, l := range c.links(i) {
			fmt.Fprintf(&b, `<a href="%s">x</a>`, html.EscapeString(c.p.href(i, l)))
		}
	}
	b.WriteString("</body></html>")
	return []byte(b.String())
}

// Scrape implements ant.Scraper.
func (c *crawl) Scrape(ctx context.Context, p *ant.Page) (ant.URLs, error) {
	i := c.p.finalOf(p.URL)
	if i < 0 {
		c.odd("scraped a page with URL %s", p.URL)
		return nil, nil
	}
	c.log("scrape", i, p.URL.Host)
	defer c.log("scraped", i, p.URL.Host)
	if got := p.Text("h1"); got != fmt.Sprintf("page %d", i) {
		c.odd("scraper was given page %d with the content %q", i, got)
	}
	if d := c.p.Pages[i].ScrMS; d > 0 {
		time.Sleep(time.Duration(d) * time.Millisecond)
	}
	if c.hook != nil {
		if err := c.hook("scrape", i, ctx); err != nil {
			return nil, err
		}
	}
	if c.p.Pages[i].Direct {
		for _, l := range c.links(i) {
			if err := c.eng.Enqueue(ctx, c.p.pageURL(l.To, l.Var)); err != nil {
				return nil, err
			}
		}
		return nil, nil
	}
	if c.p.Objects {
		var ret ant.URLs
		for _, l := range c.links(i) {
			u, err := url.Parse(c.p.pageURL(l.To, l.Var))
			if err != nil {
				vf.Bug("parse: %v", err)
			}
			ret = append(ret, u)
		}
		return ret, nil
	}
	return p.URLs(), nil
}

func (c *crawl) config() ant.EngineConfig {
	cfg := ant.EngineConfig{
		Scraper: c, Fetcher: &ant.Fetcher{Client: c.web}, Workers: c.p.Workers, Concurrency: c.p.Conc, Impolite: !c.p.Polite,
	}
	if c.p.BF {
		cfg.Deduper = ant.DedupeBF(1<<20, 5)
	}
	if c.p.Matcher {
		cfg.Matcher = ant.MatcherFunc(func(u *url.URL) bool {
			i := c.p.pageOf(u)
			return i < 0 || !c.p.Pages[i].Unmat
		})
	}
	return cfg
}

func (c *crawl) seeds() []string {
	var ret []string
	for _, s := range c.p.Seeds {
		ret = append(ret, c.p.pageURL(s.To, s.Var))
	}
	return ret
}

// expected returns the pages that a complete crawl requests and scrapes.
func (c *crawl) expected() (req, scr map[int]bool) {
	req, scr = map[int]bool{}, map[int]bool{}
	seen := map[int]bool{}
	var todo []int
	add := func(ls []linkP) {
		for _, l := range ls {
			pg := c.p.Pages[l.To]
			if c.p.Matcher && pg.Unmat || seen[l.To] {
				continue
			}
			seen[l.To] = true
			todo = append(todo, l.To)
		}
	}
	add(c.p.Seeds)
	for _, e := range c.p.Ext {
		add(e.Links)
	}
	for len(todo) > 0 {
		i := todo[0]
		todo = todo[1:]
		if c.p.Polite && c.p.Pages[i].Denied {
			continue
		}
		req[i] = true
		if c.p.Pages[i].Status < 400 {
			scr[i] = true
			add(c.links(i))
		}
	}
	return
}

// complete compares what happened with the reference crawl.
func (c *crawl) complete() error {
	req, scr := c.expected()
	return c.between(req, scr, req, scr)
}

// between compares what happened with the pages that had to be requested and
// scraped and those that may have been.
func (c *crawl) between(req, scr, maybe, maybeScr map[int]bool) error {
	judge := func(i, got int, must, may bool, what string) error {
		if got > 1 || got == 1 && !may || got == 0 && must {
			want := 0
			if must || may {
				want = 1
			}
			return fmt.Errorf("page %d (%s) was %s %d times, want %d", i, c.p.pageURL(i, 0), what, got, want)
		}
		return nil
	}
	for i := range c.p.Pages {
		if err := judge(i, c.fetches[i], req[i], maybe[i], "requested"); err != nil {
			return err
		}
		if err := judge(i, c.scrapes[i], scr[i], maybeScr[i], "scraped"); err != nil {
			return err
		}
	}
	return nil
}

func (c *crawl) oddities() error {
	if len(c.strange) > 0 {
		return errors.New(c.strange[0])
	}
	return nil
}

// run runs the crawl and waits at most limit (virtual).
func (c *crawl) run(ctx context.Context, limit time.Duration, seeds ...string) (err error, returned bool) {
	done := make(chan error, 1)
	go func() { done <- c.eng.Run(ctx, seeds...) }()
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case err = <-done:
		return err, true
	case <-t.C:
		return nil, false
	}
}

// ---- generators -------------------------------------------------------------

func genLinks(t *rapid.T, n, max int, label string) []linkP {
	k := rapid.IntRange(0, max).Draw(t, label+"n")
	ret := make([]linkP, 0, k)
	for j := 0; j < k; j++ {
		ret = append(ret, linkP{rapid.IntRange(0, n-1).Draw(t, label), genVar(t)})
	}
	return ret
}

func genVar(t *rapid.T) int {
	if rapid.Bool().Draw(t, "plain") {
		return 0
	}
	return rapid.IntRange(0, nvars+2).Draw(t, "var")
}

func genLat(t *rapid.T) int {
	return rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 7, 20, 100}).Draw(t, "lat")
}

func genCrawl(t *rapid.T) *crawlP {
	n := rapid.IntRange(1, 14).Draw(t, "pages")
	shape := rapid.SampledFrom([]string{"random", "random", "chain", "star", "tree", "dense"}).Draw(t, "shape")
	if shape == "star" || shape == "tree" {
		n = rapid.IntRange(1, 40).Draw(t, "pages2")
	}
	return genCrawlN(t, shape, n)
}

func genCrawlN(t *rapid.T, shape string, n int) *crawlP {
	p := &crawlP{}
	p.Hosts = rapid.IntRange(1, 3).Draw(t, "hosts")
	for i := 0; i < n; i++ {
		pg := pageP{Status: 200, Host: rapid.IntRange(0, p.Hosts-1).Draw(t, "host"), LatMS: genLat(t)}
		if rapid.IntRange(0, 3).Draw(t, "slow") == 0 {
			pg.ScrMS = genLat(t)
		}
		pg.Status = rapid.SampledFrom([]int{200, 200, 200, 200, 200, 404, 201, 304}).Draw(t, "status")
		pg.Query = rapid.IntRange(0, 3).Draw(t, "query") == 0
		pg.Denied = rapid.IntRange(0, 5).Draw(t, "deny") == 0
		pg.Unmat = rapid.IntRange(0, 5).Draw(t, "unmat") == 0
		pg.Direct = rapid.IntRange(0, 7).Draw(t, "direct") == 0
		p.Pages = append(p.Pages, pg)
	}
	for i := 0; i < n; i++ {
		var ls []linkP
		switch shape {
		case "random":
			ls = genLinks(t, n, 5, "to")
		case "dense":
			ls = genLinks(t, n, 16, "to")
		case "chain":
			if i+1 < n {
				ls = append(ls, linkP{i + 1, genVar(t)})
			}
			ls = append(ls, genLinks(t, n, 1, "to")...)
		case "star":
			if i == 0 {
				for j := 1; j < n; j++ {
					ls = append(ls, linkP{j, genVar(t)})
				}
			} else {
				ls = genLinks(t, n, 2, "to")
			}
		case "tree":
			for j := 2*i + 1; j <= 2*i+2 && j < n; j++ {
				ls = append(ls, linkP{j, genVar(t)})
			}
		}
		p.Pages[i].Links = ls
	}
	if n > 1 && rapid.IntRange(0, 2).Draw(t, "twins") == 2 {
		for k := rapid.IntRange(1, 4).Draw(t, "ntwins"); k > 0; k-- {
			p.twin(rapid.IntRange(1, n-1).Draw(t, "twin"), rapid.IntRange(0, n-1).Draw(t, "of"))
		}
	}
	p.Seeds = append([]linkP{{0, genVar(t)}}, genLinks(t, n, 2, "seed")...)
	p.Workers = rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5, 8}).Draw(t, "workers")
	p.Conc = rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 5}).Draw(t, "conc")
	p.BF = rapid.Bool().Draw(t, "bf")
	p.Polite = rapid.Bool().Draw(t, "polite")
	p.Matcher = rapid.Bool().Draw(t, "matcher")
	p.Objects = rapid.IntRange(0, 2).Draw(t, "objects") == 0
	p.Sched = vf.GenSched(t)
	return p
}

func sortedKeys(m map[string]int) []string {
	var ret []string
	for k := range m {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return ret
}
