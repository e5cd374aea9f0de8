package race

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/antcache"
	"github.com/yields/ant/antcdp"
	"github.com/yields/ant/zverif/vf"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID: "C27", Level: "exploration",
		Rule: "a case is non-trivial when at least two goroutines used the same object and every goroutine had an operation to run",
		Assumptions: []string{
			"the race detector of the Go toolchain reports exactly the unordered conflicting accesses of the executed code",
			"the fakes (client, scraper, matcher, de-duplicator, storage callbacks) share nothing mutable between goroutines, so they add no ordering that hides a race",
		},
		Subs: []vf.Sub{
			vf.S("queue", 900, 20000, genOps(12, 6), run(raceQueue)),
			vf.S("dedupe", 500, 12000, genOps(12, 6), run(raceDedupe)),
			vf.S("limits", 500, 12000, genOps(12, 6), run(raceLimits)),
			vf.S("pages", 900, 20000, genOps(10, 6), run(racePages)),
			vf.S("json", 700, 16000, genOps(8, 6), run(raceJSON)),
			vf.S("cache", 1000, 24000, genOps(12, 6), run(raceCache)),
			vf.S("disk", 400, 9000, genOps(12, 6), run(raceDisk)),
			vf.S("crawl", 1200, 26000, genOps(6, 4), run(raceCrawl)),
			vf.S("browser", 240, 5000, genOps(4, 6), run(raceBrowser)),
		},
	})
	ant.DefaultClient.Transport = client{}
}

// planP is a parallel workload.
type planP struct {
	Seed uint64 `json:"seed"`
	Opt  []int  `json:"opt"`
	G    [][]op `json:"g"`
}

func (p *planP) opt(i int) int { return p.Opt[i%len(p.Opt)] }

func (p *planP) rng(i int) rng {
	r := rng(p.Seed + uint64(i)*0x9e3779b97f4a7c15)
	r.n(2)
	return r
}

func genOps(maxOps, maxG int) func(t *rapid.T) *planP {
	return func(t *rapid.T) *planP {
		p := &planP{Seed: rapid.Uint64().Draw(t, "seed")}
		p.Opt = rapid.SliceOfN(rapid.IntRange(0, 7), 8, 8).Draw(t, "opt")
		g := rapid.IntRange(2, maxG).Draw(t, "goroutines")
		for i := 0; i < g; i++ {
			n := rapid.IntRange(1, maxOps).Draw(t, "ops")
			var ops []op
			for j := 0; j < n; j++ {
				ops = append(ops, op{rapid.IntRange(0, 11).Draw(t, "k"), rapid.IntRange(0, 7).Draw(t, "a"), rapid.IntRange(0, 7).Draw(t, "b")})
			}
			p.G = append(p.G, ops)
		}
		return p
	}
}

var caseN atomic.Int64

// run runs a workload a few times, each time on fresh objects.
func run(f func(c *vf.Case, p *planP, id int64) error) func(c *vf.Case, p *planP) error {
	return func(c *vf.Case, p *planP) error {
		c.NT(true)
		c.Label("%d goroutines", len(p.G))
		for i := 0; i < 2; i++ {
			if err := f(c, p, caseN.Add(1)); err != nil {
				if verr := verdict(); verr != nil {
					return verr
				}
				return err
			}
			if err := verdict(); err != nil {
				return err
			}
		}
		return nil
	}
}

// ---- values shared by the goroutines ------------------------------------------

func parse(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		vf.Bug("parse %q: %v", s, err)
	}
	return u
}

var spellings = []string{
	"http://Host%d.test/p%d", "http://host%d.test:80/p%d#frag", "HTTP://host%d.test/a/../p%d", "http://us:pw@host%d.test/p%d?b=2&a=1",
	"http://host%d.test/%%70%d", "http://host%d.test/./p%d?", "http://host%d.TEST/p%d?q=%%7e", "http://u@host%d.test//p%d",
}

// sharedURLs returns URL values that several goroutines use.
func sharedURLs(p *planP) ant.URLs {
	// Room at the end: an append to the caller's slice would write there.
	ret := make(ant.URLs, 0, 64)
	for i := 0; i < 8; i++ {
		ret = append(ret, parse(fmt.Sprintf(spellings[i], i%3, i/2)))
	}
	return ret
}

func sub(us ant.URLs, a, b int) ant.URLs {
	i, j := a%len(us), a%len(us)+1+b%4
	if j > len(us) {
		j = len(us)
	}
	return us[i:j]
}

// client is a web that keeps no state.
type client struct{ lat bool }

func (c client) RoundTrip(req *http.Request) (*http.Response, error) { return c.Do(req) }

func (c client) Do(req *http.Request) (*http.Response, error) {
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	r := rng(len(req.URL.Path)*31 + int(req.URL.Path[len(req.URL.Path)-1]))
	if c.lat {
		time.Sleep(time.Duration(r.n(300)) * time.Microsecond)
	}
	// A transport may read the request until its body is closed.
	read := make(chan int, 1)
	go func() {
		n := len(req.URL.String()) + len(req.Header.Get("User-Agent")) + len(req.Host)
		for k, v := range req.Header {
			n += len(k) + len(v)
		}
		read <- n
	}()
	h := http.Header{"Content-Type": {"text/html"}, "Date": {time.Now().UTC().Format(http.TimeFormat)}}
	resp := &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, ContentLength: -1, Request: req}
	body := ""
	switch path := req.URL.Path; {
	case path == "/robots.txt":
		h.Set("Content-Type", "text/plain")
		body = "User-agent: *\nDisallow: /deny\nCrawl-delay: 0.0004\n"
		if strings.HasPrefix(req.URL.Host, "host1") {
			body = "User-agent: *\nAllow: /\n"
		}
	case strings.HasPrefix(path, "/missing"):
		resp.StatusCode, resp.Status = 404, "404 Not Found"
	case strings.HasPrefix(path, "/c"): // cacheable
		h.Set("Cache-Control", []string{"max-age=10", "max-age=100", "max-age=10", "no-cache", "max-age=100", "no-store"}[int(path[len(path)-1])%6])
		h.Set("Date", time.Now().Add(-50*time.Second).UTC().Format(http.TimeFormat))
		h.Set("Etag", `"`+path+`"`)
		h.Set("Last-Modified", "Sat, 01 Jan 2000 00:00:00 GMT")
		if path[len(path)-1]%2 == 0 {
			h.Set("Vary", "X-V")
		}
		body = strings.Repeat(path+req.Header.Get("X-V"), 20)
		if req.Header.Get("If-None-Match") == h.Get("Etag") {
			resp.StatusCode, resp.Status, body = 304, "304 Not Modified", ""
		}
	default:
		n, _ := strconv.Atoi(strings.TrimLeft(path, "/p"))
		body = page(n)
	}
	resp.Body = &rbody{Reader: strings.NewReader(body), read: read}
	return resp, nil
}

type rbody struct {
	io.Reader
	read chan int
}

func (b *rbody) Close() error {
	if b.read != nil {
		<-b.read
		b.read = nil
	}
	return nil
}

func page(n int) string {
	var b strings.Builder
	fmt.Fprintf(&b, `<html><head><title>t%d</title></head><body><h1>page %d</h1><ul>`, n, n)
	for i := 0; i < 4; i++ {
		fmt.Fprintf(&b, `<li class="i%d" data-n="%d"><a class="next" href="/p%d">%d</a></li>`, i, i*n, (n*3+i)%12, i)
	}
	b.WriteString(`</ul></body></html>`)
	return b.String()
}

// ---- queue --------------------------------------------------------------------

func raceQueue(c *vf.Case, p *planP, id int64) error {
	q := ant.MemoryQueue(p.opt(0))
	us := sharedURLs(p)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	err := together(len(p.G)+1, func(g int) error {
		r := p.rng(g)
		if g == len(p.G) {
			time.Sleep(time.Duration(50+r.n(400)) * time.Microsecond)
			if p.opt(1) == 0 {
				cancel()
			}
			q.Close(context.Background())
			q.Wait()
			return nil
		}
		for _, o := range p.G[g] {
			r.pause()
			switch o.K {
			case 0, 1, 2, 3, 4:
				batch := sub(us, o.A, o.B)
				q.Enqueue(ctx, batch)
				_ = batch[0].String()
			case 5, 6, 7, 8, 9:
				if u, err := q.Dequeue(ctx); err == nil {
					_ = u.String()
					q.Done(ctx, u)
				}
			case 10:
				q.Wait()
			case 11:
				if o.A == 0 {
					q.Close(ctx)
				}
			}
		}
		return nil
	})
	return err
}

// ---- de-duplicators -------------------------------------------------------------

func raceDedupe(c *vf.Case, p *planP, id int64) error {
	var ds []ant.Deduper
	if p.opt(0)%2 == 0 {
		ds = append(ds, ant.DedupeMap())
	} else {
		ds = append(ds, ant.DedupeBF(1<<14, 3))
	}
	if p.opt(1) == 0 {
		ds = append(ds, ant.DedupeMap())
	}
	us := sharedURLs(p)
	return together(len(p.G), func(g int) error {
		r := p.rng(g)
		for _, o := range p.G[g] {
			r.pause()
			batch := sub(us, o.A, o.B)
			ret, err := ds[o.K%len(ds)].Dedupe(context.Background(), batch)
			if err != nil {
				return fmt.Errorf("dedupe: %w", err)
			}
			_ = batch[0].String()
			// The result is a new slice of the caller's.
			for i := range ret {
				_ = ret[i].String()
				ret[i] = nil
			}
			_ = append(ret, nil)
		}
		return nil
	})
}

// ---- limiters and matchers --------------------------------------------------------

func raceLimits(c *vf.Case, p *planP, id int64) error {
	us := sharedURLs(p)
	n := []int{1_000_000, 20_000}[p.opt(0)%2]
	ls := []ant.Limiter{
		ant.Limit(n), ant.LimitHostname(n, "host0.test"), ant.LimitPattern(n, "host*/p*"), ant.LimitRegexp(n, `^host\d\.test/p[0-4]`),
	}
	ms := []ant.Matcher{
		ant.MatchHostname("host0.test"), ant.MatchPattern("host*/p*"), ant.MatchRegexp(`^host\d\.test/p[0-4]`),
	}
	return together(len(p.G), func(g int) error {
		r := p.rng(g)
		for _, o := range p.G[g] {
			r.pause()
			u := us[o.A]
			if o.K < 7 {
				ctx, cancel := context.WithCancel(context.Background())
				if o.K == 6 {
					cancel()
				}
				ls[o.B%4].Limit(ctx, u)
				cancel()
			} else {
				ms[o.B%3].Match(u)
			}
			_ = u.String()
		}
		return nil
	})
}

// ---- fetcher, pages, selectors, scanning --------------------------------------------

// newType returns a type that was never scanned before.
func newType(id int64, v int) reflect.Type {
	str, in := reflect.TypeOf(""), reflect.TypeOf(0)
	item := reflect.StructOf([]reflect.StructField{
		{Name: fmt.Sprintf("N%d", id), Type: in, Tag: `css:"li@data-n"`},
		{Name: "T", Type: str, Tag: `css:"a"`},
	})
	fs := []reflect.StructField{
		{Name: fmt.Sprintf("T%d_%d", id, v), Type: str, Tag: `css:"title"`},
		{Name: "L", Type: reflect.SliceOf(str), Tag: `css:"a@href"`},
		{Name: "I", Type: reflect.SliceOf(item), Tag: `css:"li"`},
		{Name: "P", Type: item, Tag: `css:"ul"`},
	}
	return reflect.StructOf(fs[:1+v%4])
}

func racePages(c *vf.Case, p *planP, id int64) error {
	us := sharedURLs(p)
	f := &ant.Fetcher{Client: client{lat: p.opt(0) == 0}}
	switch p.opt(1) {
	case 0:
		f = ant.DefaultFetcher
	case 1:
		f = &ant.Fetcher{}
	case 2:
		f.UserAgent = ant.StaticAgent("x")
	}
	types := []reflect.Type{newType(id, p.opt(2)), newType(id, p.opt(3)), newType(id, 5)}
	return together(len(p.G), func(g int) error {
		r := p.rng(g)
		ctx := context.Background()
		u := us[p.G[g][0].A]
		pg, err := f.Fetch(ctx, u)
		if err != nil {
			return fmt.Errorf("fetch %s: %w", u, err)
		}
		_ = u.String()
		pg.Header.Set("X", "y")
		for _, o := range p.G[g] {
			r.pause()
			sel := fmt.Sprintf("li.i%d, .c%d-%d", o.A, id, o.B%3)
			switch o.K {
			case 0, 1, 2, 3:
				dst := reflect.New(types[o.A%3])
				if err := pg.Scan(dst.Interface()); err != nil {
					return fmt.Errorf("scan: %w", err)
				}
			case 4:
				pg.Query(sel).Text()
			case 5:
				pg.Text(sel)
			case 6:
				for _, v := range pg.URLs() {
					v.Path += "x"
				}
			case 7:
				vs, _ := pg.Next("a.next, " + sel)
				for _, v := range vs {
					v.Host = ""
				}
			case 8:
				l := pg.Query("li")
				l.Is(sel)
				l.Query(sel)
				l.Scan(reflect.New(types[o.A%3]).Interface())
			case 9:
				pg.Query("a") // closes the body
				pg.URL.Path += "/z"
				pg.Header["A"] = nil
			case 10:
				pg.HTML()
			case 11:
				if pg, err = f.Fetch(ctx, us[o.A]); err != nil {
					return fmt.Errorf("fetch: %w", err)
				}
			}
		}
		// The body must be read and closed.
		pg.Query("a")
		return nil
	})
}

// ---- JSON scraper -------------------------------------------------------------------

func raceJSON(c *vf.Case, p *planP, id int64) error {
	var buf bytes.Buffer
	var sels []string
	for i := 0; i < p.opt(0)%3; i++ {
		sels = append(sels, fmt.Sprintf("a.next, .s%d-%d", id, i))
	}
	t := newType(id, p.opt(1))
	v := reflect.New(t)
	if p.opt(2)%2 == 0 {
		v = v.Elem()
	}
	s := ant.JSON(&buf, v.Interface(), sels...)
	us := sharedURLs(p)
	f := &ant.Fetcher{Client: client{}}
	return together(len(p.G), func(g int) error {
		r := p.rng(g)
		for _, o := range p.G[g] {
			pg, err := f.Fetch(context.Background(), us[o.A])
			if err != nil {
				return fmt.Errorf("fetch: %w", err)
			}
			r.pause()
			urls, err := s.Scrape(context.Background(), pg)
			if err != nil {
				return fmt.Errorf("scrape: %w", err)
			}
			for _, u := range urls {
				u.Path = ""
			}
			pg.Header.Set("A", "b")
		}
		return nil
	})
}

// ---- HTTP cache -----------------------------------------------------------------------

func raceCache(c *vf.Case, p *planP, id int64) error {
	var opts []antcache.Option
	if p.opt(0)%4 == 3 {
		dir, err := os.MkdirTemp(vf.Scratch(), "race")
		if err != nil {
			vf.Bug("%v", err)
		}
		defer os.RemoveAll(dir)
		d, err := antcache.Open(dir, antcache.SweepEvery(time.Millisecond))
		if err != nil {
			return fmt.Errorf("open: %w", err)
		}
		defer d.Close()
		opts = append(opts, antcache.WithStorage(d))
		c.Label("disk")
	}
	if p.opt(1)%3 == 2 {
		opts = append(opts, antcache.Aggressive(time.Minute))
		c.Label("aggressive")
	}
	cache, err := antcache.New(client{lat: p.opt(2) == 0}, opts...)
	if err != nil {
		return fmt.Errorf("new: %w", err)
	}
	hdr := http.Header{"Accept": {"text/html"}, "X-V": {"w"}}
	us := make([]*url.URL, 8)
	for i := range us {
		us[i] = parse(fmt.Sprintf("http://host.test/c%d", i))
	}
	return together(len(p.G), func(g int) error {
		r := p.rng(g)
		for _, o := range p.G[g] {
			r.pause()
			req := &http.Request{Method: "GET", URL: us[o.A%(1+p.opt(3))], Header: http.Header{}}
			if o.K == 9 {
				req.Method = "HEAD"
			}
			kind := o.B
			if p.opt(4)%4 == 1 {
				kind = 7
			}
			switch kind {
			case 0:
				req.Header.Set("Cache-Control", "no-cache")
			case 1:
				req.Header.Set("Cache-Control", "max-age=0, stale-if-error")
			case 2:
				req.Header.Set("Cache-Control", "no-store")
			case 3, 4:
				req.Header.Set("X-V", "v")
			case 5:
				req.Header.Set("If-None-Match", `"/c0"`)
			case 6, 7:
				// A header that several requests use.
				req.Header = hdr
			}
			resp, err := cache.Do(req)
			if err != nil {
				return fmt.Errorf("do: %w", err)
			}
			// The response is the caller's, changed before its body is read or after.
			if o.K%3 == 0 {
				resp.Header.Set("X-Seen", "1")
				resp.Header["Etag"] = nil
			}
			b, err := io.ReadAll(resp.Body)
			if err != nil {
				return fmt.Errorf("read: %w", err)
			}
			for i := range b {
				b[i] = 'x'
			}
			if o.K == 10 {
				continue // not closed
			}
			r.pause()
			if err := resp.Body.Close(); err != nil {
				return fmt.Errorf("close: %w", err)
			}
			for k := range resp.Header {
				for i := range resp.Header[k] {
					resp.Header[k][i] = "x"
				}
				delete(resp.Header, k)
			}
			if kind < 6 {
				for k := range req.Header {
					req.Header[k][0] = "z"
				}
			}
		}
		return nil
	})
}

// ---- disk storage ---------------------------------------------------------------------

func raceDisk(c *vf.Case, p *planP, id int64) error {
	dir, err := os.MkdirTemp(vf.Scratch(), "race")
	if err != nil {
		vf.Bug("%v", err)
	}
	defer os.RemoveAll(dir)
	opts := []antcache.DiskOption{antcache.SweepEvery(time.Duration(1+p.opt(0)) * 100 * time.Microsecond)}
	if p.opt(1)%2 == 0 {
		opts = append(opts, antcache.Maxsize(60))
	}
	if p.opt(2)%3 == 0 {
		opts = append(opts, antcache.Maxage(2*time.Millisecond))
	}
	if p.opt(3)%2 == 0 {
		opts = append(opts, antcache.Compress())
	}
	if p.opt(4)%2 == 0 {
		opts = append(opts, antcache.Debug(func(f string, a ...any) { _ = fmt.Sprintf(f, a...) }))
	}
	for session := 0; session < 2; session++ {
		d, err := antcache.Open(dir, opts...)
		if err != nil {
			return fmt.Errorf("open: %w", err)
		}
		err = together(len(p.G), func(g int) error {
			r := p.rng(g + session*16)
			ctx := context.Background()
			for _, o := range p.G[g] {
				r.pause()
				switch o.K {
				case 0, 1, 2, 3:
					v := bytes.Repeat([]byte{byte('a' + g)}, 1+o.B*8)
					if err := d.Store(ctx, uint64(o.A), v); err != nil {
						return fmt.Errorf("store: %w", err)
					}
					for i := range v {
						v[i] = 0
					}
				case 4:
					if err := d.Wait(ctx); err != nil {
						return fmt.Errorf("wait: %w", err)
					}
				default:
					v, err := d.Load(ctx, uint64(o.A))
					if err != nil {
						return fmt.Errorf("load: %w", err)
					}
					for i := range v {
						v[i] = 0
					}
				}
			}
			return nil
		})
		if cerr := d.Close(); err == nil && cerr != nil {
			err = fmt.Errorf("close: %w", cerr)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

// ---- crawls ---------------------------------------------------------------------------

// site is a scraper that returns the same URL values for several pages.
type site struct {
	p      *planP
	shared ant.URLs
	json   ant.Scraper
}

func (s *site) Scrape(ctx context.Context, pg *ant.Page) (ant.URLs, error) {
	n := len(pg.URL.Path) + int(pg.URL.Path[len(pg.URL.Path)-1])
	r := rng(s.p.Seed + uint64(n))
	if s.json != nil {
		if _, err := s.json.Scrape(ctx, pg); err != nil {
			return nil, err
		}
	}
	var ret ant.URLs
	for i := r.n(5); i >= 0; i-- {
		u := s.shared[r.n(len(s.shared))]
		_ = u.String()
		ret = append(ret, u)
	}
	if r.n(2) == 0 {
		ret = append(ret, pg.URLs()...)
	}
	pg.Text("h1") // closes the body
	pg.Header.Set("X", "y")
	pg.URL.Fragment = "z"
	r.pause()
	return ret, nil
}

// reader is a matcher and de-duplicator that only reads.
type reader struct{ inner ant.Deduper }

func (d reader) Dedupe(ctx context.Context, us ant.URLs) (ant.URLs, error) {
	ret, err := d.inner.Dedupe(ctx, us)
	for _, u := range us {
		_ = u.String()
	}
	return ret, err
}

func raceCrawl(c *vf.Case, p *planP, id int64) error {
	s := &site{p: p, shared: sharedURLs(p)}
	s.shared = append(s.shared, parse("http://host0.test/deny/1"), parse("http://host2.test/missing"), parse("https://Host1.test:443/p9"))
	var buf bytes.Buffer
	if p.opt(0)%2 == 0 {
		s.json = ant.JSON(&buf, reflect.New(newType(id, p.opt(1))).Interface())
	}
	var cl ant.Client = client{lat: p.opt(2)%2 == 0}
	if p.opt(3)%2 == 0 {
		cc, err := antcache.New(cl)
		if err != nil {
			return err
		}
		cl = cc
	}
	var dd ant.Deduper = ant.DedupeMap()
	if p.opt(4)%2 == 0 {
		dd = ant.DedupeBF(1<<14, 3)
	}
	cfg := ant.EngineConfig{
		Scraper: s, Fetcher: &ant.Fetcher{Client: cl}, Deduper: reader{dd},
		Workers: 1 + p.opt(5)%4, Concurrency: p.opt(6) % 5, Impolite: p.opt(7)%2 == 0,
	}
	if p.opt(5)%2 == 0 {
		cfg.Limiter = ant.LimitPattern(100_000, "host*")
		cfg.Matcher = ant.MatchRegexp(`^[hH]ost`)
	}
	c.LabelIf(!cfg.Impolite, "robots.txt")
	engines := 1 + p.opt(1)%2
	c.Label("%d engines", engines)
	var engs []*ant.Engine
	for i := 0; i < engines; i++ {
		e, err := ant.NewEngine(cfg)
		if err != nil {
			return fmt.Errorf("engine: %w", err)
		}
		engs = append(engs, e)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	stop := p.opt(3) == 1
	c.LabelIf(stop, "cancelled")
	return together(engines+len(p.G), func(g int) error {
		r := p.rng(g)
		if g < engines {
			err := engs[g].Run(ctx, "http://host0.test/p1", "http://host1.test/p2")
			// An URL added from outside as the crawl ends may find its queue closed.
			if err != nil && ctx.Err() == nil && !errors.Is(err, io.EOF) {
				return fmt.Errorf("run: %w", err)
			}
			return nil
		}
		// Others add URLs while the crawl runs, and read their own.
		for _, o := range p.G[g-engines] {
			time.Sleep(time.Duration(r.n(150)) * time.Microsecond)
			u := s.shared[o.A]
			if o.K < 8 {
				engs[o.B%engines].Enqueue(ctx, u.String(), fmt.Sprintf("http://host%d.test/p%d", o.K%3, o.B))
			} else {
				_ = *u
			}
		}
		if stop && g == engines {
			cancel()
		}
		return nil
	})
}

// ---- the browser client -----------------------------------------------------------------

func raceBrowser(c *vf.Case, p *planP, id int64) error {
	b := newBrowser()
	defer b.shut()
	b.navOf = func(u *url.URL) (int, *navP) {
		i := int(u.Path[len(u.Path)-1] - '0')
		return i, &navP{Status: 200, Proto: "http/1.1", Headers: [][2]string{{"X-A", u.Path}}, HTML: "<html>" + u.Path + "</html>", Redirects: i % 2, Res: i % 3, Ready: 2}
	}
	cl := &antcdp.Client{Addr: b.srv.URL}
	us := make([]*url.URL, 8)
	for i := range us {
		us[i] = parse(fmt.Sprintf("http://site.test/n%d#f", i))
	}
	hdr := http.Header{"X-V": {"w"}, "Cookie": {"a=b"}}
	return together(len(p.G), func(g int) error {
		r := p.rng(g)
		for _, o := range p.G[g] {
			if g%2 == 1 {
				r.pause()
			}
			req := &http.Request{Method: "GET", URL: us[o.A], Header: hdr}
			if o.K < 6 {
				req.Header = http.Header{"X-V": {fmt.Sprint(o.B)}}
			}
			ctx, cancel := context.WithCancel(context.Background())
			if o.K == 11 {
				time.AfterFunc(time.Duration(r.n(1500))*time.Microsecond, cancel)
			}
			resp, err := cl.Do(req.WithContext(ctx))
			cancelled := ctx.Err() != nil
			cancel()
			if err != nil {
				if cancelled {
					continue
				}
				return fmt.Errorf("do: %w", err)
			}
			if _, err := io.ReadAll(resp.Body); err != nil {
				return fmt.Errorf("read: %w", err)
			}
			resp.Body.Close()
			for k := range resp.Header {
				resp.Header[k][0] = "x"
			}
			if resp.Request != nil && resp.Request.URL != us[o.A] {
				resp.Request.URL.Path = ""
			}
			if o.K < 6 {
				req.Header.Set("X-V", "")
			}
		}
		return nil
	})
}
