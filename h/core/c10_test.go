package core

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/antcache"
	"github.com/yields/ant/zverif/cachew"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/zsched"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID: "C10",
		Rule: "single fetches and whole crawls with random statuses, retries, redirects, robots answers, failing body reads, scrapers that read all, part or nothing of a page or fail, and cancellations; histories of cached requests with validation outcomes; " +
			"every body handed out is monitored; non-trivial: at least 3 bodies of which at least one belongs to a discarded, failed or validation response",
		Assumptions: []string{"a body whose read fails counts as read to its end", "only the fetcher's client returns responses together with errors, as ant.Client allows"},
		Subs: []vf.Sub{
			vf.S("fetch", 40000, 600000, genC10f, runC10f),
			vf.S("crawl", 20000, 300000, genC10c, runC10c),
			vf.S("cache", 30000, 500000, genC10k, runC10k),
		},
	})
}

// flakyReader fails after n bytes.
type flakyReader struct {
	r    io.Reader
	left int
}

var errBody = errors.New("the body broke")

func (f *flakyReader) Read(p []byte) (int, error) {
	if f.left <= 0 {
		return 0, errBody
	}
	if len(p) > f.left {
		p = p[:f.left]
	}
	n, err := f.r.Read(p)
	f.left -= n
	return n, err
}

// chunkReader hands out small pieces.
type chunkReader struct{ r io.Reader }

func (c chunkReader) Read(p []byte) (int, error) {
	if len(p) > 3 {
		p = p[:3]
	}
	return c.r.Read(p)
}

// leak reports the first body that is not closed, or not read to its end.
func (w *web) leak(drained bool, except ...*body) error {
	w.mu.Lock()
	defer w.mu.Unlock()
next:
	for _, b := range w.bodies {
		for _, e := range except {
			if b == e {
				continue next
			}
		}
		b.mu.Lock()
		closed, ended := b.closed, b.eof || b.failErr != nil
		b.mu.Unlock()
		if closed == 0 {
			return fmt.Errorf("the body of the response to %s was never closed", b.req)
		}
		if drained && !ended && !strings.HasSuffix(b.req, "/robots.txt") {
			return fmt.Errorf("the body of the response to %s was closed before it was read to its end", b.req)
		}
	}
	return nil
}

type bodyP struct {
	Size int  `json:"n"`
	Fail int  `json:"fail"` // bytes after which a read fails, -1: never
	Slow bool `json:"slow"`
}

func genBody(t *rapid.T) bodyP {
	b := bodyP{Size: rapid.SampledFrom([]int{0, 1, 30, 600, 5000, 70000}).Draw(t, "size"), Fail: -1, Slow: rapid.IntRange(0, 4).Draw(t, "slow") == 0}
	if oneIn(t, 150, "huge") {
		b.Size = pick(t, "hugesize", 140_000, 300_000, 600_000, 1_200_000)
	}
	if rapid.IntRange(0, 9).Draw(t, "fails") == 0 {
		b.Fail = rapid.IntRange(0, b.Size).Draw(t, "failat")
	}
	return b
}

func (b bodyP) reader(text string) io.Reader {
	if len(text) < b.Size {
		text += strings.Repeat("<p>filler</p>", (b.Size-len(text))/13+1)
	}
	var r io.Reader = strings.NewReader(text)
	if b.Slow && len(text) < 2000 {
		r = chunkReader{r}
	}
	if b.Fail >= 0 {
		r = &flakyReader{r, b.Fail}
	}
	return r
}

// ---- fetch ----------------------------------------------------------------------

type c10fP struct {
	Out    []outcomeP `json:"out"`
	Bodies []bodyP    `json:"bodies"`
	HTTP   bool       `json:"http"`
	Cancel int        `json:"cancel"`
	Use    string     `json:"use"`  // what is done with the page
	Both   bool       `json:"both"` // errors come with a response
}

func genC10f(t *rapid.T) *c10fP {
	q := genC09(t)
	p := &c10fP{Out: q.Out, HTTP: q.HTTP, Cancel: q.Cancel}
	p.Bodies = rapid.SliceOfN(rapid.Custom(genBody), 1, 4).Draw(t, "bodies")
	p.Both = !p.HTTP && oneIn(t, 3, "both")
	p.Use = rapid.SampledFrom([]string{"text", "urls", "document", "html", "scan", "query", "twice"}).Draw(t, "use")
	return p
}

func usePage(page *ant.Page, use string) {
	switch use {
	case "text":
		page.Text("h1")
	case "urls":
		page.URLs()
	case "document":
		page.Document()
	case "html":
		page.HTML()
	case "scan":
		var v struct {
			H string `css:"h1"`
		}
		page.Scan(&v)
	case "query":
		page.Query("p")
	case "twice":
		page.Document()
		page.Text("h1")
	case "part":
		io.ReadFull(page.Body(), make([]byte, 10))
	case "body":
		io.ReadAll(page.Body())
	}
}

func runC10f(c *vf.Case, p *c10fP) error {
	return vf.Bubble(c, zsched.Sched{}, func() error {
		n := 0
		w := newWeb(func(req *http.Request) reply {
			bp := p.Bodies[n%len(p.Bodies)]
			o := p.Out[min(n, len(p.Out)-1)]
			n++
			r := reply{status: o.Status, latency: ms(o.LatMS), reader: bp.reader("<h1>x</h1><a href=/y>y</a>")}
			if req.URL.Path == "/final" {
				r.status = 200
				return r
			}
			r.err, _ = o.err()
			r.both = p.Both
			if r.err != nil && r.status == 0 {
				r.status = 200
			}
			if o.Kind == "redirect" {
				r.status, r.header = 302, http.Header{"Location": {"/final"}}
			}
			return r
		})
		f := &ant.Fetcher{Client: w}
		if p.HTTP {
			f.Client = &http.Client{Transport: w}
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if p.Cancel >= 0 {
			time.AfterFunc(time.Duration(p.Cancel)*time.Microsecond, cancel)
		}
		u, _ := url.Parse("http://a.test/x")
		page, err := f.Fetch(ctx, u)
		var last *body
		if page != nil {
			last = w.bodies[len(w.bodies)-1]
		}
		// net/http reads only the beginning of a redirect's body.
		if lerr := w.leak(!p.HTTP, last); lerr != nil {
			return fmt.Errorf("after Fetch (page %v, error %v): %v", page != nil, err, lerr)
		}
		if page != nil {
			usePage(page, p.Use)
			if err := w.leak(!p.HTTP); err != nil {
				return fmt.Errorf("after using the page (%s): %v", p.Use, err)
			}
		}
		c.NT(len(w.bodies) >= 3)
		c.LabelIf(page == nil, "no page")
		c.Note("%d bodies, error %v", len(w.bodies), err)
		return nil
	})
}

// ---- crawl ----------------------------------------------------------------------

type c10cP struct {
	Crawl  *crawlP `json:"crawl"`
	Bodies []bodyP `json:"bodies"`
	Retry  []int   `json:"retry"` // pages that first answer 503
	Use    string  `json:"use"`   // what the scraper does with the page
	Fault  string  `json:"fault"` // none, status, scrape, cancel, robots
	At     int     `json:"at"`
	MS     int     `json:"ms"`
	Robots int     `json:"robots"` // status of robots.txt
}

func genC10c(t *rapid.T) *c10cP {
	p := &c10cP{Crawl: genCrawl(t)}
	p.Bodies = rapid.SliceOfN(rapid.Custom(genBody), 1, 5).Draw(t, "bodies")
	p.Retry = rapid.SliceOfN(rapid.IntRange(0, len(p.Crawl.Pages)-1), 0, 3).Draw(t, "retry")
	p.Use = rapid.SampledFrom([]string{"urls", "urls", "text", "none", "part", "body"}).Draw(t, "use")
	p.Fault = rapid.SampledFrom([]string{"none", "none", "status", "scrape", "cancel", "cancel"}).Draw(t, "fault")
	p.At = rapid.IntRange(1, 8).Draw(t, "at")
	p.MS = rapid.SampledFrom([]int{0, 1, 2, 3, 5, 9, 21, 50, 100}).Draw(t, "ms")
	p.Robots = rapid.SampledFrom([]int{200, 200, 404, 500, 403}).Draw(t, "robots")
	for i := range p.Crawl.Pages {
		p.Crawl.Pages[i].Direct = false
	}
	p.Crawl.Objects = false
	return p
}

func runC10c(c *vf.Case, p *c10cP) error {
	return vf.Bubble(c, p.Crawl.Sched, func() error {
		cp := p.Crawl
		cr := newCrawl(cp)
		retry := map[int]bool{}
		for _, i := range p.Retry {
			retry[i] = true
		}
		nfetch, special := 0, 0
		serve := cr.web.handle
		var broken = map[string]bool{}
		cr.web.handle = func(req reqT) reply {
			r := serve(req)
			cr.mu.Lock()
			defer cr.mu.Unlock()
			if req.URL.Path == "/robots.txt" {
				if r.status == 200 {
					r.status = p.Robots
				}
				return r
			}
			nfetch++
			bp := p.Bodies[nfetch%len(p.Bodies)]
			if i := cp.pageOf(req.URL); retry[i] {
				retry[i] = false
				special++
				r.status = 503
			} else if p.Fault == "status" && nfetch == p.At {
				special++
				r.status = 500
			}
			if r.status >= 400 {
				special++
			}
			if bp.Fail >= 0 {
				special++
				broken[req.URL.String()] = true
			}
			r.reader = bp.reader(string(r.body))
			return r
		}
		nscrape := 0
		cfg := cr.config()
		cfg.Scraper = scraperFunc(func(ctx context.Context, page *ant.Page) (ant.URLs, error) {
			i := cp.pageOf(page.URL)
			cr.mu.Lock()
			nscrape++
			n := nscrape
			cr.mu.Unlock()
			usePage(page, p.Use)
			if i >= 0 && cp.Pages[i].ScrMS > 0 {
				time.Sleep(ms(cp.Pages[i].ScrMS))
			}
			if p.Fault == "scrape" && n == p.At {
				return nil, errInjected
			}
			if p.Use == "urls" {
				return page.URLs(), nil
			}
			var ret ant.URLs
			if i >= 0 {
				for _, l := range cp.Pages[i].Links {
					u, err := url.Parse(cp.pageURL(l.To, l.Var))
					if err != nil {
						vf.Bug("%v", err)
					}
					ret = append(ret, u)
				}
			}
			return ret, nil
		})
		eng, err := ant.NewEngine(cfg)
		if err != nil {
			return fmt.Errorf("NewEngine: %v", err)
		}
		cr.eng = eng
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if p.Fault == "cancel" {
			time.AfterFunc(ms(p.MS), cancel)
		}
		rerr, ok := cr.run(ctx, 10*time.Hour, cr.seeds()...)
		if !ok {
			return fmt.Errorf("the crawl did not end")
		}
		if err := cr.web.leak(true); err != nil {
			return fmt.Errorf("after the crawl (which returned %v): %v", rerr, err)
		}
		c.NT(len(cr.web.bodies) >= 3 && special > 0)
		c.Label("%s", p.Fault)
		c.LabelIf(rerr != nil, "crawl failed")
		c.Note("%d bodies, %v", len(cr.web.bodies), rerr)
		return nil
	})
}

// ---- cache ----------------------------------------------------------------------

type c10kP struct {
	Plan  *cachew.Plan `json:"plan"`
	Use   []string     `json:"use"`   // what the caller does with the bodies
	Load  []int        `json:"load"`  // loads of the storage that fail
	Store []int        `json:"store"` // stores that fail
}

func genC10k(t *rapid.T) *c10kP {
	p := &c10kP{Plan: cachew.Gen(t, cachew.Focus{Uncacheable: 10, Unstorable: 15, Vary: 10, URLs: 2, Directives: 15, Validation: 45, Faults: 20, Bodies: 10, Own: 15})}
	n := uni(t, 1, 4, "uses")
	for i := 0; i < n; i++ {
		p.Use = append(p.Use, rapid.SampledFrom([]string{"all", "all", "none", "part", "twice"}).Draw(t, "use"))
	}
	if oneIn(t, 4, "faultload") {
		p.Load = append(p.Load, uni(t, 0, 5, "load"))
	}
	if oneIn(t, 3, "faultstore") {
		p.Store = append(p.Store, uni(t, 0, 5, "store"))
	}
	return p
}

// faultyStorage fails some operations.
type faultyStorage struct {
	own         cachew.Own
	p           *c10kP
	load, store int
}

func (f *faultyStorage) Store(ctx context.Context, k uint64, v []byte) error {
	n := f.store
	f.store++
	for _, i := range f.p.Store {
		if i == n {
			return errInjected
		}
	}
	return f.own.Store(ctx, k, v)
}

func (f *faultyStorage) Load(ctx context.Context, k uint64) ([]byte, error) {
	n := f.load
	f.load++
	for _, i := range f.p.Load {
		if i == n {
			return nil, errInjected
		}
	}
	return f.own.Load(ctx, k)
}

func runC10k(c *vf.Case, p *c10kP) error {
	return vf.Bubble(c, zsched.Sched{}, func() error {
		w := cachew.NewWorld()
		opts := []antcache.Option{antcache.WithStorage(&faultyStorage{p: p})}
		if p.Plan.Agg {
			opts = append(opts, antcache.Aggressive(time.Duration(p.Plan.AggAge)*time.Second))
		}
		ch, err := antcache.New(w, opts...)
		if err != nil {
			return err
		}
		discarded := 0
		for i, q := range p.Plan.Steps {
			time.Sleep(time.Duration(q.Adv) * time.Second)
			req, err := w.Begin(i, q)
			if err != nil {
				return err
			}
			n := len(w.Bodies)
			resp, err := ch.Do(req)
			open := w.Open()
			handed := 0
			if resp != nil {
				handed = 1
			}
			if d := len(w.Bodies) - n - min(len(open), handed); d > 0 {
				discarded += d
			}
			if len(open) > handed {
				return fmt.Errorf("step %d: %d bodies are open after Do returned (response %v, error %v), the first is of %s (status %d)",
					i, len(open), resp != nil, err, open[0].Req, open[0].Status)
			}
			// Those that the caller does not get are read first.
			if b := w.Undrained(n, nil); b != nil {
				return fmt.Errorf("step %d: the body of the response to %s (status %d), which the caller does not get, was closed before it was read to its end", i, b.Req, b.Status)
			}
			if resp == nil {
				continue
			}
			use := p.Use[i%len(p.Use)]
			switch use {
			case "all", "twice":
				io.ReadAll(resp.Body)
			case "part":
				io.ReadFull(resp.Body, make([]byte, 10))
			}
			resp.Body.Close()
			if use == "twice" {
				resp.Body.Close()
			}
			if open := w.Open(); len(open) > 0 {
				return fmt.Errorf("step %d: the caller closed its body (%s) and that of %s (status %d) is still open", i, use, open[0].Req, open[0].Status)
			}
		}
		c.NT(len(w.Bodies) >= 3 && discarded > 0)
		c.LabelIf(discarded > 0, "bodies the caller did not get")
		c.LabelIf(len(p.Load)+len(p.Store) > 0, "failing storage")
		c.Note("%d bodies, %d not given to the caller", len(w.Bodies), discarded)
		return nil
	})
}
