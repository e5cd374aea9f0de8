package core

import (
	"context"
	"errors"
	"fmt"
	"net/url"
	"sort"
	"sync"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/zsched"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID: "C05",
		Rule: "random arrivals (bursts, gaps, cancellations, deadlines) of matching and other URLs from many goroutines at every kind of limiter; URLs and patterns against own evaluators; crawls with limiters that log, refuse or limit; " +
			"non-trivial: a request had to wait and another URL did not match; in crawls at least 4 pages requested or a refusal",
		Assumptions: []string{"time is virtual; bounds are exact up to 1 ms"},
		Subs: []vf.Sub{
			vf.S("rate", 40000, 600000, genC05, runC05),
			vf.S("fast", 600, 20000, genC05f, runC05),
			vf.S("verdict", 60000, 1000000, genC05v, runC05v),
			vf.S("engine", 12000, 150000, genC05e, runC05e),
		},
	})
}

func limiterOf(r mRule, n int) ant.Limiter {
	switch r.Kind {
	case "host":
		return ant.LimitHostname(n, r.Arg)
	case "pattern":
		return ant.LimitPattern(n, r.Arg)
	case "regexp":
		return ant.LimitRegexp(n, r.Arg)
	}
	return ant.Limit(n)
}

// limits reports whether the limiter of r limits m.
func limits(r mRule, m mURL) bool { return r.Kind == "all" || r.matches(m) }

type callP struct {
	At     int `json:"at"`  // ms
	URL    int `json:"url"` // index
	Cancel int `json:"c"`   // ms after At, -1: never
	Dead   int `json:"d"`   // deadline, ms after At, -1: none
}

type c05P struct {
	N     int     `json:"n"`
	URLs  []mURL  `json:"urls"`
	Rule  mRule   `json:"rule"`
	Calls []callP `json:"calls"`
}

func rooted(t *rapid.T) mURL {
	m := genMURL(t)
	if m.Path != "" && m.Path[0] != '/' {
		m.Path = "/" + m.Path
	}
	return m
}

func genC05(t *rapid.T) *c05P {
	p := &c05P{N: rapid.SampledFrom([]int{1, 1, 2, 3, 5, 10, 100}).Draw(t, "n")}
	p.URLs = rapid.SliceOfN(rapid.Custom(rooted), 1, 4).Draw(t, "urls")
	if rapid.IntRange(0, 4).Draw(t, "all") == 0 {
		p.Rule = mRule{Kind: "all"}
	} else {
		p.Rule = genMRule(t, p.URLs)
	}
	k := rapid.IntRange(1, 40).Draw(t, "k")
	at := 0
	for i := 0; i < k; i++ {
		at += rapid.SampledFrom([]int{0, 0, 0, 1, 10, 100, 333, 1000, 2500}).Draw(t, "gap")
		cp := callP{At: at, URL: rapid.IntRange(0, len(p.URLs)-1).Draw(t, "url"), Cancel: -1, Dead: -1}
		switch rapid.IntRange(0, 9).Draw(t, "ctx") {
		case 0:
			cp.Cancel = rapid.SampledFrom([]int{0, 1, 50, 700, 5000}).Draw(t, "cancel")
		case 1:
			cp.Dead = rapid.SampledFrom([]int{0, 1, 50, 700, 5000}).Draw(t, "dead")
		}
		p.Calls = append(p.Calls, cp)
	}
	return p
}

// genC05f has rates of hundreds per second and bursts that exceed them.
func genC05f(t *rapid.T) *c05P {
	p := genC05(t)
	p.N = uni(t, 6, 400, "fastn")
	p.Calls = p.Calls[:min(len(p.Calls), 5)]
	at := 0
	for i := uni(t, 1, 3, "bursts"); i > 0; i-- {
		u := rapid.IntRange(0, len(p.URLs)-1).Draw(t, "burl")
		for k := p.N * uni(t, 1, 5, "size") / 2; k > 0; k-- {
			p.Calls = append(p.Calls, callP{At: at, URL: u, Cancel: -1, Dead: -1})
		}
		at += pick(t, "bgap", 1, 300, 1000, 2500)
	}
	sort.SliceStable(p.Calls, func(i, j int) bool { return p.Calls[i].At < p.Calls[j].At })
	return p
}

const slack = time.Millisecond

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// windowBound checks that every window of T seconds has at most n+n*T times.
func windowBound(n int, times []time.Duration) error {
	sort.Slice(times, func(i, j int) bool { return times[i] < times[j] })
	for i := range times {
		for j := i; j < len(times); j++ {
			T := times[j] - times[i] + slack
			if cnt := j - i + 1; float64(cnt) > float64(n)+float64(n)*T.Seconds()+1e-6 {
				return fmt.Errorf("%d matching requests between %s and %s, more than %d + %d*%s allows", cnt, times[i], times[j], n, n, (times[j] - times[i]))
			}
		}
	}
	return nil
}

func runC05(c *vf.Case, p *c05P) error {
	return vf.Bubble(c, zsched.Sched{}, func() error {
		l := limiterOf(p.Rule, p.N)
		type outcome struct {
			end time.Duration
			err error
			ok  bool
		}
		res := make([]outcome, len(p.Calls))
		t0 := time.Now()
		var mu sync.Mutex
		for i, cp := range p.Calls {
			go func() {
				time.Sleep(ms(cp.At))
				ctx, cancel := context.WithCancel(context.Background())
				if cp.Cancel == 0 {
					cancel()
				} else if cp.Cancel > 0 {
					time.AfterFunc(ms(cp.Cancel), cancel)
				}
				if cp.Dead >= 0 {
					var c2 func()
					ctx, c2 = context.WithTimeout(ctx, ms(cp.Dead))
					defer c2()
				}
				defer cancel()
				err := l.Limit(ctx, p.URLs[cp.URL].url())
				mu.Lock()
				res[i] = outcome{time.Since(t0), err, true}
				mu.Unlock()
			}()
		}
		time.Sleep(5 * time.Minute)
		mu.Lock()
		defer mu.Unlock()
		var times []time.Duration
		bound := time.Duration(-1) // GCRA without a burst: the latest release that "at that rate" allows.
		var bounds []time.Duration
		waited, other, cancelled := false, false, false
		for i, cp := range p.Calls {
			r, at := res[i], ms(cp.At)
			u := p.URLs[cp.URL].url()
			if !r.ok {
				return fmt.Errorf("the request for %s made at %s still waits after 5 minutes", u, at)
			}
			if !limits(p.Rule, p.URLs[cp.URL]) {
				other = true
				if r.err != nil && cp.Cancel != 0 && cp.Dead != 0 {
					return fmt.Errorf("%s does not match %s, and got the error %v", u, p.Rule, r.err)
				}
				if r.end-at > slack {
					return fmt.Errorf("%s does not match %s, and waited %s", u, p.Rule, r.end-at)
				}
				continue
			}
			if b := bound + time.Second/time.Duration(p.N); bound >= 0 && b > at {
				bound = b
			} else {
				bound = at
			}
			bounds = append(bounds, bound)
			end := time.Duration(1 << 62)
			if cp.Cancel >= 0 {
				end = at + ms(cp.Cancel)
			}
			if cp.Dead >= 0 {
				end = at + ms(cp.Dead)
			}
			if r.end > end+slack {
				return fmt.Errorf("the request for %s made at %s with a context that ended at %s returned only at %s", u, at, end, r.end)
			}
			if r.err != nil {
				cancelled = true
				if cp.Cancel < 0 && cp.Dead < 0 {
					return fmt.Errorf("the request for %s got the error %v", u, r.err)
				}
				if cp.Cancel >= 0 && r.end+slack < end {
					return fmt.Errorf("the request for %s got the error %v at %s, before its context was cancelled at %s", u, r.err, r.end, end)
				}
				if cp.Cancel >= 0 && !errors.Is(r.err, context.Canceled) {
					return fmt.Errorf("the request for %s, cancelled, got the error %v", u, r.err)
				}
				continue
			}
			if cp.Cancel == 0 {
				return fmt.Errorf("the request for %s with a cancelled context got no error", u)
			}
			if r.end > at {
				waited = true
			}
			times = append(times, r.end)
		}
		c.NT(waited && (other || p.Rule.Kind == "all"))
		c.LabelIf(waited, "waited")
		c.LabelIf(cancelled, "cancelled while waiting")
		c.LabelIf(other, "URLs that do not match")
		c.Note("%d released", len(times))
		if err := windowBound(p.N, times); err != nil {
			return err
		}
		// The order among the waiting is not judged; a cancelled request may have used its turn.
		sort.Slice(bounds, func(i, j int) bool { return bounds[i] < bounds[j] })
		for k, r := range times {
			if due := bounds[k+len(bounds)-len(times)]; r > due+slack {
				return fmt.Errorf("release %d of %d was at %s; at %d per second it is due by %s", k, len(times), r, p.N, due)
			}
		}
		return nil
	})
}

type c05vP struct {
	URLs []mURL `json:"urls"`
	Rule mRule  `json:"rule"`
}

func genC05v(t *rapid.T) *c05vP {
	p := &c05vP{URLs: rapid.SliceOfN(rapid.Custom(rooted), 1, 4).Draw(t, "urls")}
	p.Rule = genMRule(t, p.URLs)
	return p
}

// runC05v finds out which URLs are limited from the delay of a second request.
func runC05v(c *vf.Case, p *c05vP) error {
	return vf.Bubble(c, zsched.Sched{}, func() error {
		yes, no := 0, 0
		for _, m := range p.URLs {
			for _, v := range []mURL{m, {Scheme: "https", User: "a.test", Host: m.Host, Path: m.Path, Query: "x=a.test/a", Frag: "/b"}} {
				l := limiterOf(p.Rule, 1)
				t0 := time.Now()
				for k := 0; k < 2; k++ {
					if err := l.Limit(context.Background(), v.url()); err != nil {
						return fmt.Errorf("limiter %s: %s: %v", p.Rule, v.url(), err)
					}
				}
				got := time.Since(t0) > 500*time.Millisecond
				want := p.Rule.matches(m)
				if got != want {
					return fmt.Errorf("limiter %s, URL %s: limited %v, want %v", p.Rule, v.url(), got, want)
				}
				if mm := matcherOf(p.Rule).Match(v.url()); mm != got {
					return fmt.Errorf("limiter %s, URL %s: limited %v but the matcher says %v", p.Rule, v.url(), got, mm)
				}
				if want {
					yes++
				} else {
					no++
				}
			}
		}
		c.NT(yes > 0 && no > 0)
		c.LabelIf(yes > 0, p.Rule.Kind+" matches")
		return nil
	})
}

type c05eP struct {
	Crawl  *crawlP      `json:"crawl"`
	Mode   string       `json:"mode"` // log, refuse, rate
	Refuse int          `json:"refuse"`
	N      int          `json:"n"`
	Host   int          `json:"host"` // limit this host only, -1: all
	WaitMS int          `json:"wait"`
	Sched  zsched.Sched `json:"-"`
}

func genC05e(t *rapid.T) *c05eP {
	p := &c05eP{Crawl: genCrawl(t)}
	p.Mode = rapid.SampledFrom([]string{"log", "refuse", "rate", "rate"}).Draw(t, "mode")
	p.Refuse = rapid.IntRange(0, len(p.Crawl.Pages)-1).Draw(t, "refuse")
	p.N = rapid.SampledFrom([]int{1, 2, 3, 5}).Draw(t, "n")
	p.Host = rapid.IntRange(-1, p.Crawl.Hosts-1).Draw(t, "host")
	p.WaitMS = rapid.SampledFrom([]int{0, 0, 1, 30}).Draw(t, "wait")
	if p.Mode == "rate" {
		// releases are judged by the time of the request: no preemption in between.
		p.Crawl.Sched = zsched.Sched{}
	}
	return p
}

var errRefused = errors.New("refused by the limiter")

func runC05e(c *vf.Case, p *c05eP) error {
	return vf.Bubble(c, p.Crawl.Sched, func() error {
		cp := p.Crawl
		cr := newCrawl(cp)
		cfg := cr.config()
		var mu sync.Mutex
		var bad error
		passed := map[string]int{}
		refused := false
		switch p.Mode {
		case "rate":
			if p.Host < 0 {
				cfg.Limiter = ant.Limit(p.N)
			} else {
				cfg.Limiter = ant.LimitHostname(p.N, fmt.Sprintf("h%d.test", p.Host))
			}
		default:
			cfg.Limiter = ant.LimiterFunc(func(ctx context.Context, u *url.URL) error {
				if p.WaitMS > 0 {
					time.Sleep(ms(p.WaitMS))
				}
				mu.Lock()
				defer mu.Unlock()
				if p.Mode == "refuse" && cp.pageOf(u) == p.Refuse {
					refused = true
					return errRefused
				}
				passed[u.String()]++
				return nil
			})
		}
		serve := cr.web.handle
		times := []time.Duration{}
		nreq := 0
		cr.web.handle = func(req reqT) reply {
			if req.URL.Path != "/robots.txt" {
				mu.Lock()
				nreq++
				if p.Mode != "rate" {
					if passed[req.URL.String()] == 0 && bad == nil {
						bad = fmt.Errorf("requested %s without asking the limiter or although it refused", req.URL)
					}
					passed[req.URL.String()]--
				}
				if p.Host < 0 || req.URL.Host == fmt.Sprintf("h%d.test", p.Host) {
					times = append(times, time.Since(cr.t0))
				}
				mu.Unlock()
			}
			return serve(req)
		}
		eng, err := ant.NewEngine(cfg)
		if err != nil {
			return fmt.Errorf("NewEngine: %v", err)
		}
		cr.eng = eng
		err, ok := cr.run(context.Background(), 10*time.Hour, cr.seeds()...)
		mu.Lock()
		defer mu.Unlock()
		if bad != nil {
			return bad
		}
		if !ok {
			return fmt.Errorf("the crawl did not end")
		}
		c.Label("%s", p.Mode)
		c.NT(nreq >= 4 || refused)
		c.Note("%d requests, refused %v", nreq, refused)
		if refused {
			if !errors.Is(err, errRefused) {
				return fmt.Errorf("the limiter refused a page and the crawl returned %v", err)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("a crawl without faults returned %v", err)
		}
		if p.Mode == "rate" {
			if err := windowBound(p.N, times); err != nil {
				return err
			}
		}
		return cr.complete()
	})
}
