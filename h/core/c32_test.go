package core

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"os"
	"sync"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/antcache"
	"github.com/yields/ant/zverif/vf"
	"pgregory.net/rapid"
)

// C32: whole crawls through the HTTP cache. The site changes between the
// crawls; every crawl must be the crawl of what the cache may serve, and ask
// the origin for nothing that is fresh in the cache.

func init() {
	vf.Register(vf.Check{
		ID: "C32",
		Rule: "the site graphs of C01 with redirects, lifetimes, validators, pages that fail at first and pages that change, crawled up to 4 times, sometimes two crawls at once, by new engines through one cache (in memory, on disk, compressed; standard and aggressive) with pauses of a minute or hours, the scraper parsing, reading or ignoring the page; " +
			"non-trivial: a later crawl that scraped at least two pages from the cache and another one that was requested",
		Assumptions: []string{
			"lifetimes and pauses are such that the duration of a crawl does not matter",
			"pages that are requested under another spelling than before may be requested again",
		},
		Subs: []vf.Sub{vf.S("crawls", 12000, 250000, genC32, runC32)},
	})
}

type c32Page struct {
	Life  int  `json:"life"`            // hours
	Flaky bool `json:"flaky,omitempty"` // the first answer of each crawl is 503
	Read  int  `json:"read,omitempty"`  // 0 parsed, 1 ignored, 2 read
	Big   int  `json:"big,omitempty"`  // bytes that are added to the content
	Links []linkP
}

type c32P struct {
	Crawl   *crawlP   `json:"crawl"`
	Pages   []c32Page `json:"more"`
	Storage int       `json:"storage"` // 0 memory, 1 disk, 2 disk compressed
	Agg     int       `json:"agg"`     // hours, 0 for the standard strategy
	Rounds  []roundP  `json:"rounds"`
}

type roundP struct {
	Pause  int   `json:"pause"` // minutes before it
	Change []int `json:"change,omitempty"`
	Two    bool  `json:"two,omitempty"`
	Reopen bool  `json:"reopen,omitempty"`
}

func genC32(t *rapid.T) *c32P {
	p := &c32P{Crawl: genCrawl(t)}
	cr := p.Crawl
	cr.Objects = false
	for i := range cr.Pages {
		pg := &cr.Pages[i]
		pg.Direct = false
		pg.Moved = uni(t, 0, 4, "moved") == 3
		if pg.Status == 304 || pg.Status == 404 && uni(t, 0, 1, "alive") == 1 {
			pg.Status = 200
		}
		m := c32Page{Life: pick(t, "life", 10, 10, 1, 0), Flaky: uni(t, 0, 9, "flaky") == 5}
		if uni(t, 0, 3, "changes") == 2 {
			m.Links = genLinks(t, len(cr.Pages), 4, "later")
		} else {
			m.Links = pg.Links
		}
		if uni(t, 0, 4, "reads") == 2 {
			m.Read = pick(t, "read", 1, 2)
		}
		if uni(t, 0, 19, "big") == 7 {
			m.Big = pick(t, "nbig", 3000, 40_000, 70_000, 140_000, 300_000)
		}
		p.Pages = append(p.Pages, m)
	}
	p.Storage = pick(t, "storage", 0, 0, 1, 2)
	p.Agg = pick(t, "agg", 0, 0, 0, 1, 10, 24)
	for n := uni(t, 2, 4, "rounds"); n > 0; n-- {
		r := roundP{Pause: pick(t, "pause", 1, 1, 150, 900), Two: uni(t, 0, 6, "two") == 3, Reopen: uni(t, 0, 2, "reopen") == 1}
		if len(p.Rounds) > 0 && uni(t, 0, 1, "change") == 1 {
			for k := uni(t, 1, 3, "nchange"); k > 0; k-- {
				r.Change = append(r.Change, uni(t, 0, len(cr.Pages)-1, "which"))
			}
		}
		p.Rounds = append(p.Rounds, r)
	}
	return p
}

// c32Asked is a request to the origin.
type c32Asked struct {
	url  string
	page int
	code int
	ver  int
}

// c32Crawler is one crawl: its scraper and the client in front of the cache.
type c32Crawler struct {
	w     *c32World
	mu    sync.Mutex
	reqs  map[int]int
	urls  map[int]map[string]bool
	scrap map[int]int
	vers  map[int]int // version scraped
	odd   error
}

type c32World struct {
	p     *c32P
	cr    *crawl
	cache *antcache.Cache
	vers  []int
	mu    sync.Mutex
	asked []c32Asked
	tried map[int]bool
}

func (w *c32World) body(i, ver int) []byte {
	pg := w.p.Crawl.Pages[i]
	defer func(f func(int) []linkP) { w.cr.links = f }(w.cr.links)
	b := fmt.Sprintf("<!-- version %d -->", ver)
	w.cr.links = func(i int) []linkP { return w.links(i, ver) }
	if n := pg.Pad + w.p.Pages[i].Big; n > 0 {
		b += fmt.Sprintf("<!-- %*d -->", n, 0)
	}
	return append(w.cr.html(i), b...)
}

func (w *c32World) links(i, ver int) []linkP {
	switch {
	case w.p.Pages[i].Read > 0:
		return nil
	case ver%2 == 1:
		return w.p.Pages[i].Links
	}
	return w.p.Crawl.Pages[i].Links
}

// serve is the origin.
func (w *c32World) serve(req *http.Request) reply {
	i := w.p.Crawl.pageOf(req.URL)
	if i < 0 {
		return w.cr.serve(req)
	}
	pg := w.p.Crawl.Pages[i]
	w.mu.Lock()
	defer w.mu.Unlock()
	ver := w.vers[i]
	etag := fmt.Sprintf(`"%d.%d"`, i, ver)
	ret := reply{status: pg.Status, body: w.body(i, ver), latency: time.Duration(pg.LatMS) * time.Millisecond, header: http.Header{
		"Content-Type": {"text/html"}, "Date": {time.Now().UTC().Format(http.TimeFormat)}, "Etag": {etag},
		"Cache-Control": {fmt.Sprintf("max-age=%d", w.p.Pages[i].Life*3600)}, "X-Page": {fmt.Sprint(i)}}}
	if pg.Moved {
		v := *req.URL
		v.Path = "/moved-" + v.Path[1:]
		ret.final = &v
	}
	if ret.status == 200 && req.Header.Get("If-None-Match") == etag {
		ret.status, ret.body = 304, nil
	}
	if w.p.Pages[i].Flaky && !w.tried[i] {
		w.tried[i] = true
		ret.status, ret.body, ret.header = 503, []byte("later"), http.Header{"Content-Type": {"text/plain"}}
	}
	w.asked = append(w.asked, c32Asked{req.URL.String(), i, ret.status, ver})
	return ret
}

// Do implements ant.Client.
func (c *c32Crawler) Do(req *http.Request) (*http.Response, error) {
	if i := c.w.p.Crawl.pageOf(req.URL); i >= 0 {
		c.mu.Lock()
		c.reqs[i]++
		if c.urls[i] == nil {
			c.urls[i] = map[string]bool{}
		}
		c.urls[i][req.URL.String()] = true
		c.mu.Unlock()
	}
	return c.w.cache.Do(req)
}

func (c *c32Crawler) strange(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.odd == nil {
		c.odd = fmt.Errorf(format, args...)
	}
}

// Scrape implements ant.Scraper.
func (c *c32Crawler) Scrape(ctx context.Context, p *ant.Page) (ant.URLs, error) {
	i := c.w.p.Crawl.finalOf(p.URL)
	if i < 0 {
		c.strange("scraped a page with URL %s (X-Page %s, from cache %q)", p.URL, p.Header.Get("X-Page"), p.Header.Get("X-From-Cache"))
		return nil, nil
	}
	if got := p.Header.Get("X-Page"); got != fmt.Sprint(i) {
		c.strange("page %d came with the headers of page %s", i, got)
	}
	if d := c.w.p.Crawl.Pages[i].ScrMS; d > 0 {
		time.Sleep(time.Duration(d) * time.Millisecond)
	}
	var tag int
	if _, err := fmt.Sscanf(p.Header.Get("Etag"), fmt.Sprintf(`"%d.%%d"`, i), &tag); err != nil {
		c.strange("page %d came with the validator %q", i, p.Header.Get("Etag"))
	}
	var urls ant.URLs
	switch c.w.p.Pages[i].Read {
	case 0:
		if got := p.Text("h1"); got != fmt.Sprintf("page %d", i) {
			c.strange("page %d has the content %q", i, got)
		}
		urls = p.URLs()
	case 2:
		b, err := io.ReadAll(p.Body())
		c.w.mu.Lock()
		want := c.w.body(i, tag)
		c.w.mu.Unlock()
		if err != nil || string(b) != string(want) {
			c.strange("page %d version %d has the content %q (%v), expected %q", i, tag, b, err, want)
		}
	}
	c.mu.Lock()
	c.scrap[i]++
	c.vers[i] = tag
	c.mu.Unlock()
	return urls, nil
}

func runC32(c *vf.Case, p *c32P) error {
	return vf.Bubble(c, p.Crawl.Sched, func() error { return p.run(c) })
}

type c32Entry struct {
	ver  int
	at   time.Time
	code int
}

func (p *c32P) run(c *vf.Case) error {
	w := &c32World{p: p, cr: newCrawl(p.Crawl), vers: make([]int, len(p.Crawl.Pages))}
	w.cr.web.handle = w.serve
	var opts []antcache.Option
	if p.Agg > 0 {
		opts = append(opts, antcache.Aggressive(time.Duration(p.Agg)*time.Hour))
	}
	var disk *antcache.Diskstore
	var dir string
	open := func() (err error) {
		o := opts
		if p.Storage > 0 {
			do := []antcache.DiskOption{antcache.SweepEvery(0)}
			if p.Storage == 2 {
				do = append(do, antcache.Compress())
			}
			if disk, err = antcache.Open(dir, do...); err != nil {
				return err
			}
			if err := disk.Wait(context.Background()); err != nil {
				return err
			}
			o = append(o[:len(o):len(o)], antcache.WithStorage(disk))
		}
		w.cache, err = antcache.New(w.cr.web, o...)
		return err
	}
	if p.Storage > 0 {
		var err error
		if dir, err = os.MkdirTemp(vf.Scratch(), "c32"); err != nil {
			vf.Bug("%v", err)
		}
		defer os.RemoveAll(dir)
	}
	if err := open(); err != nil {
		return err
	}
	defer func() {
		if disk != nil {
			disk.Close()
		}
	}()
	entries := map[string]c32Entry{}
	fresh := func(url string, page int) bool {
		e, ok := entries[url]
		life := p.Pages[page].Life
		if p.Agg > 0 {
			life = p.Agg
		}
		return ok && time.Since(e.at) < time.Duration(life)*time.Hour
	}
	fromCache, asked := 0, 0
	for r, round := range p.Rounds {
		time.Sleep(time.Duration(round.Pause) * time.Minute)
		for _, i := range round.Change {
			w.vers[i]++
		}
		if round.Reopen && disk != nil {
			if err := disk.Close(); err != nil {
				return fmt.Errorf("close: %w", err)
			}
			if err := open(); err != nil {
				return fmt.Errorf("reopen: %w", err)
			}
		}
		w.asked, w.tried = nil, map[int]bool{}
		n := 1
		if round.Two {
			n = 2
		}
		// what is fresh as the crawls begin, by URL and page.
		isFresh := map[string]bool{}
		for i := range p.Crawl.Pages {
			for u := range entries {
				if fresh(u, i) {
					isFresh[fmt.Sprint(i, " ", u)] = true
				}
			}
		}
		crawlers := make([]*c32Crawler, n)
		errs := make([]error, n)
		var wg sync.WaitGroup
		for k := range crawlers {
			cw := &c32Crawler{w: w, reqs: map[int]int{}, urls: map[int]map[string]bool{}, scrap: map[int]int{}, vers: map[int]int{}}
			crawlers[k] = cw
			cfg := w.cr.config()
			cfg.Scraper, cfg.Fetcher = cw, &ant.Fetcher{Client: cw}
			eng, err := ant.NewEngine(cfg)
			if err != nil {
				return fmt.Errorf("NewEngine: %v", err)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[k] = eng.Run(context.Background(), w.cr.seeds()...)
			}()
		}
		wg.Wait()
		if err := w.cr.oddities(); err != nil {
			return err
		}
		for k, cw := range crawlers {
			pre := fmt.Sprintf("crawl %d.%d", r, k)
			if errs[k] != nil {
				return fmt.Errorf("%s: %w", pre, errs[k])
			}
			if cw.odd != nil {
				return fmt.Errorf("%s: %w", pre, cw.odd)
			}
			// The crawl of the versions that it saw.
			w.cr.links = func(i int) []linkP { return w.links(i, cw.vers[i]) }
			req, scr := w.cr.expected()
			for i := range p.Crawl.Pages {
				want := 0
				if scr[i] {
					want = 1
				}
				if cw.scrap[i] != want {
					return fmt.Errorf("%s: page %d (%s) was scraped %d times, want %d", pre, i, p.Crawl.pageURL(i, 0), cw.scrap[i], want)
				}
				if (cw.reqs[i] > 0) != req[i] {
					return fmt.Errorf("%s: page %d (%s) was requested %d times, expected %v", pre, i, p.Crawl.pageURL(i, 0), cw.reqs[i], req[i])
				}
				// Where each came from.
				for u := range cw.urls[i] {
					var got []int
					for _, a := range w.asked {
						if a.url == u {
							got = append(got, a.code)
						}
					}
					e := entries[u]
					switch {
					case isFresh[fmt.Sprint(i, " ", u)]:
						if len(got) > 0 {
							return fmt.Errorf("%s: the origin was asked for %s %d times, though it is fresh in the cache (%v old)", pre, u, len(got), time.Since(e.at))
						}
						if scr[i] && cw.vers[i] != e.ver {
							return fmt.Errorf("%s: page %d: scraped version %d, cached %d", pre, i, cw.vers[i], e.ver)
						}
						fromCache++
					case n == 1:
						want := 1
						if p.Pages[i].Flaky {
							want = 2
						}
						if len(got) != want {
							return fmt.Errorf("%s: the origin was asked for %s %d times %v, want %d", pre, u, len(got), got, want)
						}
						if scr[i] && cw.vers[i] != w.vers[i] {
							return fmt.Errorf("%s: page %d: scraped version %d, the origin has %d", pre, i, cw.vers[i], w.vers[i])
						}
						asked++
					default:
						if len(got) == 0 {
							return fmt.Errorf("%s: the origin was not asked for %s, which is not fresh in the cache", pre, u)
						}
						if scr[i] && cw.vers[i] != w.vers[i] {
							return fmt.Errorf("%s: page %d: scraped version %d, the origin has %d", pre, i, cw.vers[i], w.vers[i])
						}
					}
				}
			}
		}
		for _, a := range w.asked {
			switch a.code {
			case 200, 404:
				entries[a.url] = c32Entry{a.ver, time.Now(), a.code}
			case 304:
				c.Label("validated")
				entries[a.url] = c32Entry{a.ver, time.Now(), 200}
			}
		}
	}
	if err := c32Closed(w.cr.web); err != nil {
		return err
	}
	c.Label("storage=%d aggressive=%v", p.Storage, p.Agg > 0)
	c.NT(fromCache >= 2 && asked >= 1)
	return nil
}

func c32Closed(w *web) error {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, b := range w.bodies {
		if b.closed == 0 {
			return fmt.Errorf("the response of %s was left open", b.req)
		}
	}
	return nil
}
