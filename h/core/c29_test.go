package core

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"sync"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/vf"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID: "C29",
		Rule: "whole crawls with temporary errors of several kinds at generated requests (robots.txt included), scrapes (before or after the page was used) and de-duplications, fewer than the allowed attempts, compared with the fault-free reference crawl; " +
			"with one permanent error, an error that never goes away, or a cancellation while an operation is retried; non-trivial: an error struck in a crawl of at least 2 pages",
		Assumptions: []string{
			"robots.txt is requested through ant.DefaultClient, where only errors that http.Client reports as temporary count",
			"a page may be requested again in order to scrape it again",
			"a failed de-duplication has marked nothing as seen",
		},
		Subs: []vf.Sub{
			vf.S("recover", 20000, 400000, genC29r, runC29r),
			vf.S("end", 20000, 400000, genC29e, runC29e),
		},
	})
}

// tempKinds are temporary errors; the first statuses are only for requests.
var tempKinds = []string{"503", "504", "429", "temp", "net", "wtemp", "fetch503"}

func tempOf(kind string) error {
	switch kind {
	case "503", "504", "429":
		var n int
		fmt.Sscan(kind, &n)
		return statusErr(n)
	case "wtemp":
		return fmt.Errorf("wrapped: %w", errTemp)
	case "net":
		return errNet
	case "fetch503":
		return &ant.FetchError{URL: &url.URL{Scheme: "http", Host: "other.test"}, Status: 503}
	}
	return errTemp
}

type c29Page struct {
	Fetch  []string `json:"f"`
	Scrape []string `json:"s"`
	Late   bool     `json:"late"` // the scraper fails after it has used the page
}

type c29P struct {
	Crawl  *crawlP   `json:"crawl"`
	Pages  []c29Page `json:"pages"`
	Robots []string  `json:"robots"` // the first robots.txt requests of every host
	Dedupe []int     `json:"dedupe"` // the calls that fail
	Max    int       `json:"max"`
	// for the sub-check "end"
	Kind   string `json:"kind"`
	At     int    `json:"at"`
	Late   bool   `json:"late"`
	Err    string `json:"err"`
	Cancel int    `json:"cancel"`
	Min    int    `json:"min"` // MinBackoff, ms
}

// genTemps generates fewer than max errors.
func genTemps(t *rapid.T, max int, kinds []string, label string) []string {
	if uni(t, 0, 2, label+"?") != 2 {
		return nil
	}
	var ret []string
	for n := uni(t, 1, min(max-1, 5), label+"n"); n > 0; n-- {
		ret = append(ret, rapid.SampledFrom(kinds).Draw(t, label))
	}
	return ret
}

func genC29(t *rapid.T) *c29P {
	p := &c29P{Crawl: genCrawl(t)}
	if rapid.Bool().Draw(t, "max?") {
		p.Max = uni(t, 2, 7, "max")
	}
	return p
}

func (p *c29P) max() int {
	if p.Max > 0 {
		return p.Max
	}
	return 5
}

func genC29r(t *rapid.T) *c29P {
	p := genC29(t)
	for range p.Crawl.Pages {
		p.Pages = append(p.Pages, c29Page{
			Fetch:  genTemps(t, p.max(), tempKinds, "fetch"),
			Scrape: genTemps(t, p.max(), tempKinds[3:], "scrape"),
			Late:   rapid.Bool().Draw(t, "late"),
		})
	}
	p.Robots = genTemps(t, p.max(), []string{"temp", "net"}, "robots")
	for range genTemps(t, p.max(), []string{"temp"}, "dedupe") {
		p.Dedupe = append(p.Dedupe, uni(t, 1, 12, "call"))
	}
	return p
}

// c29Run is a crawl with errors.
type c29Run struct {
	cr    *crawl
	mu    sync.Mutex
	ok    map[int]int // completed scrapes
	robot map[string]int
	calls int // of the de-duplicator

	onRobots func(host string, n int) error
	onScrape func(page, n int, late bool) error // n: earlier scrapes that were started
	onDedupe func(call int) error
}

func newC29(p *c29P) *c29Run {
	r := &c29Run{cr: newCrawl(p.Crawl), ok: map[int]int{}, robot: map[string]int{}}
	serve := r.cr.web.handle
	r.cr.web.handle = func(req *http.Request) reply {
		if req.URL.Path == "/robots.txt" && r.onRobots != nil {
			r.mu.Lock()
			n := r.robot[req.URL.Host]
			r.robot[req.URL.Host]++
			r.mu.Unlock()
			if err := r.onRobots(req.URL.Hostname(), n); err != nil {
				return reply{err: err, latency: time.Millisecond}
			}
		}
		return serve(req)
	}
	return r
}

// start makes the engine.
func (r *c29Run) start(p *c29P, change func(*ant.EngineConfig)) error {
	cfg := r.cr.config()
	cfg.Fetcher.MaxAttempts = p.Max
	if change != nil {
		change(&cfg)
	}
	inner := cfg.Scraper
	tries := map[int]int{}
	cfg.Scraper = scraperFunc(func(ctx context.Context, pg *ant.Page) (ant.URLs, error) {
		i := p.Crawl.pageOf(pg.URL)
		r.mu.Lock()
		n := tries[i]
		tries[i]++
		r.mu.Unlock()
		if r.onScrape != nil && i >= 0 {
			if err := r.onScrape(i, n, false); err != nil {
				return nil, err
			}
		}
		urls, err := inner.Scrape(ctx, pg)
		if err != nil {
			return urls, err
		}
		if r.onScrape != nil && i >= 0 {
			if err := r.onScrape(i, n, true); err != nil {
				return nil, err
			}
		}
		r.mu.Lock()
		r.ok[i]++
		r.mu.Unlock()
		return urls, nil
	})
	if r.onDedupe != nil {
		d := cfg.Deduper
		if d == nil {
			d = ant.DedupeMap()
		}
		cfg.Deduper = &faultDeduper{d, func() error {
			r.mu.Lock()
			r.calls++
			n := r.calls
			r.mu.Unlock()
			return r.onDedupe(n)
		}}
	}
	eng, err := ant.NewEngine(cfg)
	if err != nil {
		return fmt.Errorf("NewEngine: %v", err)
	}
	r.cr.eng = eng
	return nil
}

func runC29r(c *vf.Case, p *c29P) error {
	return vf.Bubble(c, p.Crawl.Sched, func() error {
		r := newC29(p)
		cr := r.cr
		var struck = map[string]int{}
		strike := func(kind, what string) error {
			r.mu.Lock()
			defer r.mu.Unlock()
			struck[kind]++
			return tempOf(what)
		}
		cr.hook = func(kind string, i int, ctx context.Context) error {
			if kind != "fetch" {
				return nil
			}
			cr.mu.Lock()
			n := cr.fetches[i] - 1
			cr.mu.Unlock()
			if n < len(p.Pages[i].Fetch) {
				return strike("fetch", p.Pages[i].Fetch[n])
			}
			return nil
		}
		r.onRobots = func(host string, n int) error {
			if n < len(p.Robots) {
				return strike("robots", p.Robots[n])
			}
			return nil
		}
		r.onScrape = func(i, n int, late bool) error {
			if pg := p.Pages[i]; n < len(pg.Scrape) && late == pg.Late {
				return strike("scrape", pg.Scrape[n])
			}
			return nil
		}
		r.onDedupe = func(call int) error {
			for _, k := range p.Dedupe {
				if k == call {
					return strike("dedupe", "temp")
				}
			}
			return nil
		}
		if err := r.start(p, nil); err != nil {
			return err
		}
		err, returned := cr.run(context.Background(), 2*time.Hour, cr.seeds()...)
		if !returned {
			return fmt.Errorf("the crawl did not end within 2 virtual hours")
		}
		req, scr := cr.expected()
		c.NT(len(struck) > 0 && len(req) >= 2)
		for k := range struck {
			c.Label("%s failed", k)
		}
		c.LabelIf(len(struck) >= 3, "three kinds failed")
		c.Note("struck %v in a crawl of %d pages, Run returned %v", struck, len(req), err)
		if err != nil {
			return fmt.Errorf("temporary errors %v (fewer than the %d attempts each) ended the crawl: %w", struck, p.max(), err)
		}
		if err := cr.oddities(); err != nil {
			return err
		}
		for i, pg := range p.Pages {
			want := 0
			if scr[i] {
				want = 1
			}
			if got := r.ok[i]; got != want {
				return fmt.Errorf("page %d was scraped successfully %d times, want %d (errors %v)", i, got, want, pg)
			}
			lo, hi := 0, 0
			if req[i] {
				lo = 1 + len(pg.Fetch)
				hi = lo
				if scr[i] {
					hi += len(pg.Scrape)
				}
			}
			if got := cr.fetches[i]; got < lo || got > hi {
				return fmt.Errorf("page %d was requested %d times, want %d to %d (errors %v)", i, got, lo, hi, pg)
			}
		}
		return cr.web.leak(true)
	})
}

// ---- errors that end the crawl ------------------------------------------------------

func genC29e(t *rapid.T) *c29P {
	p := genC29(t)
	op := rapid.SampledFrom([]string{"scrape", "fetch", "dedupe", "robots"}).Draw(t, "op")
	how := rapid.SampledFrom([]string{"perm", "forever", "cancel"}).Draw(t, "how")
	p.Kind = op + " " + how
	switch op {
	case "robots":
		p.Crawl.Polite = true
		p.At = uni(t, 0, p.Crawl.Hosts-1, "host")
	case "dedupe":
		p.At = uni(t, 1, 12, "call")
	default:
		p.At = uni(t, 0, len(p.Crawl.Pages)-1, "page")
	}
	p.Late = rapid.Bool().Draw(t, "late")
	switch {
	case how == "perm" && op == "fetch":
		p.Err = rapid.SampledFrom([]string{"500", "403", "410", "502", "400", "408", "425", "430", "451", "499", "501", "505", "507", "599", "plain", "wplain", "nottemp"}).Draw(t, "err")
	case how == "perm" && op == "scrape":
		p.Err = rapid.SampledFrom([]string{"plain", "wplain", "nottemp", "fetch500"}).Draw(t, "err")
	case how == "perm":
		p.Err = rapid.SampledFrom([]string{"plain", "wplain", "nottemp"}).Draw(t, "err")
	case op == "fetch":
		p.Err = rapid.SampledFrom(tempKinds).Draw(t, "err")
	case op == "robots":
		p.Err = rapid.SampledFrom([]string{"temp", "net"}).Draw(t, "err")
	default:
		p.Err = rapid.SampledFrom(tempKinds[3:]).Draw(t, "err")
	}
	if how == "cancel" {
		p.Cancel = []int{1, 7, 49, 51, 249, 260, 700, 5000, 60000}[uni(t, 0, 8, "cancel")]
		p.Min = []int{50, 50, 2000, 15000}[uni(t, 0, 3, "min")]
	}
	return p
}

func permOf(kind string) error {
	switch kind {
	case "plain":
		return errPlain
	case "wplain":
		return fmt.Errorf("wrapped: %w", errPlain)
	case "nottemp":
		return errNotTemp
	case "fetch500":
		return &ant.FetchError{URL: &url.URL{Scheme: "http", Host: "other.test"}, Status: 500}
	case "500", "403", "410", "502", "400", "408", "425", "430", "451", "499", "501", "505", "507", "599":
		var n int
		fmt.Sscan(kind, &n)
		return statusErr(n)
	}
	return tempOf(kind)
}

// causedBy reports whether err tells that want happened.
func causedBy(err, want error) bool {
	var se statusErr
	var fe, fe2 *ant.FetchError
	switch {
	case errors.As(want, &se):
		return errors.As(err, &fe) && fe.Status == int(se)
	case errors.As(want, &fe2):
		return errors.As(err, &fe) && fe.Status == fe2.Status
	case errors.Is(want, errPlain):
		return errors.Is(err, errPlain)
	case errors.Is(want, errTemp):
		return errors.Is(err, errTemp)
	}
	return errors.Is(err, want)
}

func runC29e(c *vf.Case, p *c29P) error {
	return vf.Bubble(c, p.Crawl.Sched, func() error {
		r := newC29(p)
		cr := r.cr
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var op, how string
		fmt.Sscan(p.Kind, &op, &how)
		struck, cancelAt := 0, time.Duration(-1)
		strike := func() error {
			r.mu.Lock()
			defer r.mu.Unlock()
			if how == "perm" && struck > 0 {
				return nil
			}
			struck++
			if how == "cancel" && struck == 1 {
				cancelAt = time.Since(cr.t0) + time.Duration(p.Cancel)*time.Millisecond
				time.AfterFunc(time.Duration(p.Cancel)*time.Millisecond, cancel)
			}
			return permOf(p.Err)
		}
		cr.hook = func(kind string, i int, ctx context.Context) error {
			if kind == "fetch" && op == "fetch" && i == p.At {
				return strike()
			}
			return nil
		}
		if op == "robots" {
			r.onRobots = func(host string, n int) error {
				if host == fmt.Sprintf("h%d.test", p.At) {
					return strike()
				}
				return nil
			}
		}
		if op == "scrape" {
			r.onScrape = func(i, n int, late bool) error {
				if i == p.At && late == p.Late {
					return strike()
				}
				return nil
			}
		}
		if op == "dedupe" {
			r.onDedupe = func(call int) error {
				if call >= p.At {
					return strike()
				}
				return nil
			}
		}
		err := r.start(p, func(cfg *ant.EngineConfig) {
			if how == "cancel" {
				cfg.Fetcher.MaxAttempts = 1 << 30
				cfg.Fetcher.MinBackoff = time.Duration(p.Min) * time.Millisecond
				cfg.Fetcher.MaxBackoff = 60 * time.Second
			}
		})
		if err != nil {
			return err
		}
		err, returned := cr.run(ctx, 2*time.Hour, cr.seeds()...)
		end := time.Since(cr.t0)
		if !returned {
			return fmt.Errorf("%s (%s): the crawl did not end within 2 virtual hours", p.Kind, p.Err)
		}
		req, _ := cr.expected()
		c.NT(struck > 0 && len(req) >= 2)
		c.LabelIf(struck > 0, p.Kind)
		c.Note("%s (%s) struck %d times in a crawl of %d pages, Run returned %v", p.Kind, p.Err, struck, len(req), err)
		what := fmt.Sprintf("%s (%s, %d times)", p.Kind, p.Err, struck)
		if struck == 0 {
			if err != nil {
				return fmt.Errorf("nothing failed but Run returned %w", err)
			}
			return nil
		}
		if how == "cancel" {
			if !errors.Is(err, context.Canceled) {
				return fmt.Errorf("%s: the crawl was cancelled while an operation was retried, but Run returned %v", what, err)
			}
			if d := end - cancelAt; d > time.Second {
				return fmt.Errorf("%s: Run returned %s after the cancellation", what, d)
			}
			return cr.web.leak(true)
		}
		if err == nil {
			return fmt.Errorf("%s did not end the crawl", what)
		}
		if !causedBy(err, permOf(p.Err)) {
			return fmt.Errorf("%s ended the crawl with an error that does not tell so: %w", what, err)
		}
		if how == "perm" && op == "fetch" && cr.fetches[p.At] != 1 {
			return fmt.Errorf("%s: the page was requested %d times", what, cr.fetches[p.At])
		}
		if how == "perm" && op == "scrape" && r.ok[p.At] != 0 {
			return fmt.Errorf("%s: the page was scraped again", what)
		}
		if how == "forever" && struck < 2 {
			return fmt.Errorf("%s ended the crawl on its first occurrence", what)
		}
		if how == "forever" && op == "fetch" && struck != p.max() {
			return fmt.Errorf("%s: want %d attempts", what, p.max())
		}
		return cr.web.leak(true)
	})
}
