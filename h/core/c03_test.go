package core

import (
	"context"
	"fmt"
	"net/http"
	"net/url"
	"sync"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/zsched"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID: "C03",
		Rule: "random site graphs with a concurrency limit, statuses, latencies of robots, limiter, request and scrape, and an optional failing page; plus star-shaped sites of slow pages, with limits up to 110; " +
			"non-trivial: the limit was reached at least once and at least twice the limit's number of pages were processed",
		Assumptions: []string{"a page counts as in flight from the first observable step of its processing (limiter, request) to the last (end of the scrape, or of the request when it is not scraped); a robots.txt request in flight counts as one page"},
		Subs: []vf.Sub{
			vf.S("cap", 16000, 300000, genC03, runC03),
			vf.S("saturation", 4000, 60000, genC03s, runC03s),
			vf.S("wide", 300, 8000, genC03w, runC03s),
		},
	})
}

type c03P struct {
	Crawl   *crawlP `json:"crawl"`
	LimitMS []int   `json:"limit"` // limiter delay by page
	FailAt  int     `json:"fail"`  // n-th request fails, 0: none
	Temp    int     `json:"temp"`  // n-th request answers 503 once
}

func genC03(t *rapid.T) *c03P {
	p := &c03P{Crawl: genCrawl(t)}
	p.Crawl.Conc = rapid.IntRange(1, 5).Draw(t, "conc2")
	p.Crawl.Workers = rapid.SampledFrom([]int{1, 2, 3, 6, 10}).Draw(t, "workers2")
	p.LimitMS = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 5, 30}), 1, 5).Draw(t, "limit")
	if rapid.IntRange(0, 3).Draw(t, "fails") == 0 {
		p.FailAt = rapid.IntRange(1, 10).Draw(t, "failat")
	}
	if rapid.IntRange(0, 3).Draw(t, "temps") == 0 {
		p.Temp = rapid.IntRange(1, 10).Draw(t, "tempat")
	}
	return p
}

// gauge counts what is in flight.
type gauge struct {
	mu     sync.Mutex
	active map[int]int
	robots int
	peak   int
	done   int
}

func (g *gauge) note() {
	n := g.robots
	for _, v := range g.active {
		if v > 0 {
			n++
		}
	}
	if n > g.peak {
		g.peak = n
	}
}

func (g *gauge) begin(page int) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.active[page] = 1
	g.note()
}

func (g *gauge) end(page int) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.active[page] > 0 {
		g.done++
	}
	g.active[page] = 0
}

func runC03(c *vf.Case, p *c03P) error {
	return vf.Bubble(c, p.Crawl.Sched, func() error {
		cr := newCrawl(p.Crawl)
		g := &gauge{active: map[int]int{}}
		nfetch := 0
		var mu sync.Mutex
		inner := cr.web.handle
		failed, temped := false, false
		temp := map[int]bool{}
		cr.web.handle = func(req *http.Request) reply {
			if req.URL.Path == "/robots.txt" {
				g.mu.Lock()
				g.robots++
				g.note()
				g.mu.Unlock()
				r := inner(req)
				time.Sleep(r.latency)
				r.latency = 0
				g.mu.Lock()
				g.robots--
				g.mu.Unlock()
				return r
			}
			i := cr.p.pageOf(req.URL)
			g.begin(i)
			mu.Lock()
			nfetch++
			fail := nfetch == p.FailAt
			tmp := nfetch == p.Temp && p.FailAt == 0
			mu.Unlock()
			r := inner(req)
			time.Sleep(r.latency)
			r.latency = 0
			if fail {
				failed = true
				r.err = errInjected
			} else if tmp {
				temped = true
				temp[i] = true
				r.status = 503
				return r // the fetcher waits and repeats the request.
			}
			if r.err != nil || r.status >= 400 {
				g.end(i)
			}
			return r
		}
		cfg := cr.config()
		cfg.Limiter = ant.LimiterFunc(func(ctx context.Context, u *url.URL) error {
			i := cr.p.pageOf(u)
			g.begin(i)
			if d := p.LimitMS[max(i, 0)%len(p.LimitMS)]; d > 0 {
				time.Sleep(time.Duration(d) * time.Millisecond)
			}
			return nil
		})
		cfg.Scraper = scraperFunc(func(ctx context.Context, pg *ant.Page) (ant.URLs, error) {
			i := cr.p.pageOf(pg.URL)
			g.begin(i)
			defer g.end(i)
			return cr.Scrape(ctx, pg)
		})
		eng, err := ant.NewEngine(cfg)
		if err != nil {
			return fmt.Errorf("NewEngine: %v", err)
		}
		cr.eng = eng
		err, ok := cr.run(context.Background(), 10*time.Hour, cr.seeds()...)
		if !ok {
			return fmt.Errorf("the crawl did not end with concurrency limit %d", p.Crawl.Conc)
		}
		c.NT(g.peak == p.Crawl.Conc && g.done >= 2*p.Crawl.Conc)
		c.LabelIf(g.peak == p.Crawl.Conc, "limit reached")
		c.LabelIf(failed, "a page failed")
		c.LabelIf(temped, "a page was retried")
		c.Note("peak %d of %d, %d pages", g.peak, p.Crawl.Conc, g.done)
		if g.peak > p.Crawl.Conc {
			return fmt.Errorf("%d pages were in flight at once, the limit is %d", g.peak, p.Crawl.Conc)
		}
		if failed {
			if err == nil {
				return fmt.Errorf("a failed request was not reported")
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("a crawl without faults returned %v", err)
		}
		for i := range temp {
			cr.fetches[i]--
		}
		return cr.complete()
	})
}

type c03sP struct {
	Pages   int          `json:"pages"`
	Conc    int          `json:"conc"`
	Workers int          `json:"workers"`
	Waves   int          `json:"waves"` // every page of a wave links to the next wave
	In      string       `json:"in"`    // where pages are slow
	Errors  bool         `json:"errors"`
	Sched   zsched.Sched `json:"sched"`
}

func genC03s(t *rapid.T) *c03sP {
	return &c03sP{
		Pages: rapid.IntRange(1, 24).Draw(t, "pages"), Conc: rapid.IntRange(1, 8).Draw(t, "conc"),
		Workers: rapid.IntRange(1, 5).Draw(t, "workers"), Waves: rapid.IntRange(1, 4).Draw(t, "waves"),
		In:     rapid.SampledFrom([]string{"fetch", "scrape", "limit"}).Draw(t, "in"),
		Errors: rapid.Bool().Draw(t, "errors"),
		Sched:  vf.GenSched(t),
	}
}

// genC03w is genC03s with limits up to 100 and more.
func genC03w(t *rapid.T) *c03sP {
	p := genC03s(t)
	p.Conc = uni(t, 9, 110, "wconc")
	p.Pages = max(1, p.Conc+uni(t, -8, 50, "wextra"))
	p.Waves = uni(t, 1, 2, "wwaves")
	p.Workers = pick(t, "wworkers", 1, 2, 5, 10, 40)
	return p
}

// runC03s crawls waves of equally slow pages: in every wave min(limit, pages)
// of them must be in flight together.
func runC03s(c *vf.Case, p *c03sP) error {
	return vf.Bubble(c, p.Sched, func() error {
		const slow = 30 * time.Second
		var mu sync.Mutex
		in := map[int]int{}
		peak := map[int]int{}
		total, cap := 0, 0
		enter := func(wave int) {
			mu.Lock()
			in[wave]++
			total++
			peak[wave] = max(peak[wave], in[wave])
			cap = max(cap, total)
			mu.Unlock()
			time.Sleep(slow)
			mu.Lock()
			in[wave]--
			total--
			mu.Unlock()
		}
		parse := func(u *url.URL) (wave, i int) {
			fmt.Sscanf(u.Path, "/w%d/p%d", &wave, &i)
			return
		}
		w := newWeb(func(req *http.Request) reply {
			wave, i := parse(req.URL)
			if p.In == "fetch" && wave > 0 {
				enter(wave)
			}
			st := 200
			if p.Errors && i%2 == 1 && wave > 0 {
				st = 404
			}
			return reply{status: st, body: []byte("<p>x")}
		})
		useWeb(w)
		var eng *ant.Engine
		scr := scraperFunc(func(ctx context.Context, pg *ant.Page) (ant.URLs, error) {
			wave, i := parse(pg.URL)
			if p.In == "scrape" && wave > 0 {
				enter(wave)
			}
			if i != 0 || wave >= p.Waves {
				return nil, nil
			}
			var ret ant.URLs
			for k := 0; k < p.Pages; k++ {
				ret = append(ret, &url.URL{Scheme: "http", Host: "h.test", Path: fmt.Sprintf("/w%d/p%d", wave+1, k)})
			}
			return ret, nil
		})
		lim := ant.LimiterFunc(func(ctx context.Context, u *url.URL) error {
			if wave, _ := parse(u); p.In == "limit" && wave > 0 {
				enter(wave)
			}
			return nil
		})
		eng, err := ant.NewEngine(ant.EngineConfig{Scraper: scr, Fetcher: &ant.Fetcher{Client: w}, Limiter: lim, Workers: p.Workers, Concurrency: p.Conc, Impolite: true})
		if err != nil {
			return err
		}
		done := make(chan error, 1)
		go func() { done <- eng.Run(context.Background(), "http://h.test/w0/p0") }()
		select {
		case err := <-done:
			if err != nil {
				return fmt.Errorf("a crawl without faults returned %v", err)
			}
		case <-time.After(20 * time.Hour):
			return fmt.Errorf("the crawl did not end with concurrency limit %d", p.Conc)
		}
		c.NT(p.Pages > p.Conc && p.Waves > 1 || p.Pages == p.Conc)
		c.LabelIf(p.Pages >= p.Conc, "enough pages to fill the limit")
		if cap > p.Conc {
			return fmt.Errorf("%d pages were in flight at once, the limit is %d", cap, p.Conc)
		}
		// With 404s in a slow scrape, fewer pages are slow.
		n := p.Pages
		if p.In == "scrape" && p.Errors {
			n = (p.Pages + 1) / 2
		}
		want := min(n, p.Conc)
		// The first wave starts when nothing else is in flight.
		if peak[1] != want {
			return fmt.Errorf("only %d of %d waiting pages were processed together, the limit is %d", peak[1], n, p.Conc)
		}
		return nil
	})
}
