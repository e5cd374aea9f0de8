package core

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"sync"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/vf"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID: "C02",
		Rule: "a finite generated site or an endless one (every page links to new pages), one generated fault (kind and position) or cancellation (before, at a virtual time, " +
			"or at an event), workers, concurrency limit and schedule; non-trivial: the fault happened while the crawl was running and at least 2 pages had been requested",
		Assumptions: []string{
			"clients, limiters, de-duplicators and queues honour their contexts; scrapers may ignore them but return within a bounded time",
			"bounded time is judged on the virtual clock: 10 seconds after the fault, where single operations take at most 0.4 s, and at most 400 requests started after it",
		},
		Subs: []vf.Sub{
			vf.S("fault", 20000, 400000, genFault, runFault),
		},
	})
}

type faultP struct {
	Crawl    *crawlP `json:"crawl"`
	Kind     string  `json:"kind"`
	At       int     `json:"at"`           // n-th occurrence
	MS       int     `json:"ms"`           // virtual time for cancellations
	Sticky   bool    `json:"sticky"`       // every later occurrence fails too
	Endless  int     `json:"endless"`      // branching of the endless site, 0: finite
	Stubborn int     `json:"stubborn"`     // ms for which the scraper ignores cancellation
	As       string  `json:"as,omitempty"` // what the failure is in the sense of errors.Is
}

var faultKinds = []string{
	"none", "fetch", "status", "robots", "scrape", "limit", "dedupe", "enqueue", "dequeue", "done", "close", "badlink",
	"cancel-before", "cancel-at", "cancel-in-scrape", "cancel-in-fetch", "deadline",
}

func genFault(t *rapid.T) *faultP {
	p := &faultP{Crawl: genCrawl(t)}
	p.Kind = rapid.SampledFrom(faultKinds).Draw(t, "kind")
	p.At = rapid.IntRange(1, 12).Draw(t, "at")
	p.MS = rapid.SampledFrom([]int{0, 1, 2, 3, 5, 9, 21, 50, 100, 130, 250}).Draw(t, "ms")
	p.Sticky = rapid.Bool().Draw(t, "sticky")
	p.Stubborn = pick(t, "stubborn", 0, 0, 0, 50, 300)
	if (p.Kind == "cancel-at" || p.Kind == "deadline") && uni(t, 0, 2, "delay") == 1 {
		p.Crawl.DelayS, p.Crawl.Polite = 100, true
	}
	if p.Kind != "none" && rapid.Bool().Draw(t, "endless?") {
		p.Endless = rapid.IntRange(1, 2).Draw(t, "endless")
	}
	p.As = pick(t, "as", "", "", "canceled", "deadline", "eof", "unexpected", "closed")
	if p.As == "eof" && p.Kind == "dequeue" {
		p.As = "" // it says that the queue was closed
	}
	if p.Kind == "close" {
		p.At, p.Sticky = 1, true
	}
	p.Crawl.Matcher = false
	if p.Endless > 0 {
		p.Crawl.untwin()
		for i := range p.Crawl.Pages {
			pg := &p.Crawl.Pages[i]
			pg.Direct, pg.Query, pg.Denied = false, false, false
			pg.Status = 200
			pg.LatMS = max(pg.LatMS, 1)
		}
	}
	return p
}

var errInjected = errors.New("injected failure")

// injected is an injected failure.
type injected struct {
	n  int
	at time.Duration
	as error
}

// Is makes it look like another error, as those of clients that wrap
// an expired deadline of their own or a truncated answer do.
func (e *injected) Is(target error) bool { return e.as != nil && target == e.as }

var injectedAs = map[string]error{
	"": nil, "canceled": context.Canceled, "deadline": context.DeadlineExceeded, "eof": io.EOF, "unexpected": io.ErrUnexpectedEOF, "closed": os.ErrClosed,
}

func (e *injected) Error() string { return fmt.Sprintf("injected failure %d", e.n) }

// faultQueue injects failures into a queue.
type faultQueue struct {
	ant.Queue
	fail func(kind string) error
}

func (q *faultQueue) Done(ctx context.Context, u *ant.URL) error {
	if err := q.Queue.Done(ctx, u); err != nil {
		return err
	}
	return q.fail("done")
}

func (q *faultQueue) Close(ctx context.Context) error {
	if err := q.Queue.Close(ctx); err != nil {
		return err
	}
	return q.fail("close")
}

func (q *faultQueue) Enqueue(ctx context.Context, urls ant.URLs) error {
	if err := q.fail("enqueue"); err != nil {
		return err
	}
	return q.Queue.Enqueue(ctx, urls)
}

func (q *faultQueue) Dequeue(ctx context.Context) (*ant.URL, error) {
	u, err := q.Queue.Dequeue(ctx)
	if err == nil {
		if ferr := q.fail("dequeue"); ferr != nil {
			// the URL was not handed out: the queue keeps its promise to Wait.
			q.Queue.Done(ctx, u)
			return nil, ferr
		}
	}
	return u, err
}

type faultDeduper struct {
	ant.Deduper
	fail func() error
}

func (d *faultDeduper) Dedupe(ctx context.Context, urls ant.URLs) (ant.URLs, error) {
	if err := d.fail(); err != nil {
		return nil, err
	}
	return d.Deduper.Dedupe(ctx, urls)
}

func runFault(c *vf.Case, p *faultP) error {
	return vf.Bubble(c, p.Crawl.Sched, func() error {
		const unbounded = 600
		cp := *p.Crawl
		cp.Pages = append([]pageP(nil), p.Crawl.Pages...)
		n0 := len(cp.Pages)
		if p.Endless > 0 {
			// The endless site repeats the generated pages; pages beyond the
			// bound have no links, so that even a crawl that never stops ends.
			for len(cp.Pages) < unbounded {
				pg := cp.Pages[len(cp.Pages)%n0]
				pg.Links = nil
				cp.Pages = append(cp.Pages, pg)
			}
			for i := range cp.Pages {
				cp.Pages[i].Links = nil
				for b := 1; b <= p.Endless; b++ {
					if k := p.Endless*i + b; k < unbounded {
						cp.Pages[i].Links = append(cp.Pages[i].Links, linkP{To: k})
					}
				}
			}
			cp.Seeds = []linkP{{To: 0}}
		}
		cr := newCrawl(&cp)
		var (
			mu       sync.Mutex
			counts   = map[string]int{}
			failedAt = time.Duration(-1)
			firstKnd string
			reqsThen int
		)
		base, cancel := context.WithCancel(context.Background())
		defer cancel()
		ctx := base
		var causes []error
		mark := func(kind string, cause error) {
			// called with mu held
			if failedAt < 0 {
				failedAt = time.Since(cr.t0)
				firstKnd = kind
				cr.mu.Lock()
				for _, n := range cr.fetches {
					reqsThen += n
				}
				cr.mu.Unlock()
			}
			causes = append(causes, cause)
		}
		// hit reports whether the fault of the given kind strikes now.
		hit := func(kind string) bool {
			mu.Lock()
			defer mu.Unlock()
			if p.Kind != kind {
				return false
			}
			counts[kind]++
			n := counts[kind]
			return n == p.At || p.Sticky && n > p.At
		}
		fail := func(kind string) error {
			if !hit(kind) {
				return nil
			}
			mu.Lock()
			defer mu.Unlock()
			err := &injected{len(causes), time.Since(cr.t0), injectedAs[p.As]}
			mark(kind, err)
			return err
		}
		doCancel := func(kind string) {
			mu.Lock()
			mark(kind, context.Canceled)
			mu.Unlock()
			cancel()
		}
		cr.hook = func(kind string, page int, ctx context.Context) error {
			switch kind {
			case "robots":
				return fail("robots")
			case "fetch":
				if hit("cancel-in-fetch") {
					doCancel("cancel-in-fetch")
				}
				if fail("status") != nil {
					return statusErr(500)
				}
				return fail("fetch")
			case "scrape":
				if hit("cancel-in-scrape") {
					doCancel("cancel-in-scrape")
				}
				if p.Stubborn > 0 {
					time.Sleep(time.Duration(p.Stubborn) * time.Millisecond)
				}
				return fail("scrape")
			}
			return nil
		}
		cfg := cr.config()
		if p.Kind == "limit" {
			cfg.Limiter = ant.LimiterFunc(func(ctx context.Context, u *ant.URL) error { return fail("limit") })
		}
		if p.Kind == "dedupe" {
			cfg.Deduper = &faultDeduper{ant.DedupeMap(), func() error { return fail("dedupe") }}
		}
		switch p.Kind {
		case "enqueue", "dequeue", "done", "close":
			cfg.Queue = &faultQueue{ant.MemoryQueue(1), func(kind string) error { return fail(kind) }}
		}
		if p.Kind == "badlink" {
			// A scraper that returns a failure of the client: an unresolvable host.
			inner := cfg.Scraper
			cfg.Scraper = scraperFunc(func(ctx context.Context, pg *ant.Page) (ant.URLs, error) {
				urls, err := inner.Scrape(ctx, pg)
				if err == nil {
					if e := fail("badlink"); e != nil {
						return nil, fmt.Errorf("while following: %w", e)
					}
				}
				return urls, err
			})
		}
		eng, err := ant.NewEngine(cfg)
		if err != nil {
			return fmt.Errorf("NewEngine: %v", err)
		}
		cr.eng = eng
		switch p.Kind {
		case "cancel-before":
			mark(p.Kind, context.Canceled)
			cancel()
		case "cancel-at":
			go func() {
				select {
				case <-time.After(time.Duration(p.MS)*time.Millisecond + time.Duration(p.At)*13*time.Microsecond):
					doCancel("cancel-at")
				case <-base.Done():
				}
			}()
		case "deadline":
			var c2 context.CancelFunc
			ctx, c2 = context.WithTimeout(base, time.Duration(p.MS)*time.Millisecond+time.Duration(p.At)*13*time.Microsecond)
			defer c2()
		}
		runErr, returned := cr.run(ctx, 10*time.Minute, cr.seeds()...)
		end := time.Since(cr.t0)
		if p.Kind == "deadline" && ctx.Err() != nil {
			mu.Lock()
			if failedAt < 0 {
				failedAt = time.Duration(p.MS) * time.Millisecond
				firstKnd = p.Kind
				causes = append(causes, context.DeadlineExceeded)
				reqsThen = -1
			}
			mu.Unlock()
		}
		if !returned {
			// Let it be diagnosed: the bubble reports what is stuck.
			return fmt.Errorf("Run did not return within 10 virtual minutes (fault %s, struck at %s)", p.Kind, failedAt)
		}
		mu.Lock()
		failed, failAt, kind, then, cs := failedAt >= 0, failedAt, firstKnd, reqsThen, causes
		mu.Unlock()
		// Nothing runs or starts after the return.
		cr.mu.Lock()
		nEvents := len(cr.events)
		fetched := 0
		for _, n := range cr.fetches {
			fetched += n
		}
		open := map[int]int{}
		for _, e := range cr.events {
			switch e.Kind {
			case "scrape":
				open[e.Page]++
			case "scraped":
				open[e.Page]--
			}
		}
		cr.mu.Unlock()
		for i, n := range open {
			if n > 0 {
				return fmt.Errorf("Run returned while page %d was still being scraped (fault %s)", i, kind)
			}
		}
		time.Sleep(10 * time.Minute)
		cr.mu.Lock()
		late := append([]event(nil), cr.events[nEvents:]...)
		cr.mu.Unlock()
		if len(late) > 0 {
			return fmt.Errorf("after Run returned (at %s, fault %s): %s of page %d at %s", end, kind, late[0].Kind, late[0].Page, late[0].At)
		}
		if err := cr.oddities(); err != nil {
			return err
		}
		c.NT(failed && failAt > 0 && then != 0 && fetched >= 2)
		c.Label("fault %s", p.Kind)
		c.LabelIf(failed, "fault struck")
		c.LabelIf(failed && p.As != "", "fault that looks like another error")
		c.LabelIf(failed && p.Endless > 0, "endless site stopped")
		c.LabelIf(failed && cp.Conc > 0 && (p.Kind == "cancel-at" || p.Kind == "deadline"), "cancelled under a concurrency limit")
		c.Note("fault %q at %s after %d requests, Run returned %v at %s", kind, failAt, then, runErr, end)

		if failed {
			if d := end - failAt; d > 10*time.Second {
				return fmt.Errorf("Run returned %s after the fault (%s)", d, kind)
			}
			if p.Endless > 0 && then >= 0 && fetched-then > 400 {
				return fmt.Errorf("%d requests were started after the fault (%s)", fetched-then, kind)
			}
		}
		if runErr == nil {
			if !failed {
				return cr.complete()
			}
			switch kind {
			case "cancel-before", "cancel-at", "cancel-in-scrape", "cancel-in-fetch", "deadline":
				// The cancellation may have come too late to matter.
				if err := cr.complete(); err != nil || p.Endless > 0 {
					return fmt.Errorf("Run returned no error although it was cancelled (%s at %s) before it was complete: %v", kind, failAt, err)
				}
				return nil
			}
			return fmt.Errorf("Run returned no error although a failure was injected: %s", kind)
		}
		if !failed {
			return fmt.Errorf("Run returned %v although nothing failed", runErr)
		}
		// Failures at nearly the same time may take each other's place.
		slack := 20 * time.Millisecond
		if cp.Sched.Long > 0 {
			slack = 300 * time.Millisecond
		}
		for _, cause := range cs {
			var in *injected
			var fe *ant.FetchError
			ok := errors.Is(runErr, cause)
			if kind == "status" {
				ok = errors.As(runErr, &fe) && fe.Status == 500
			}
			if !ok {
				continue
			}
			if errors.As(cause, &in) && kind != "status" && in.at > failAt+slack {
				return fmt.Errorf("Run returned %q, a failure at %s, and not the first one, at %s", runErr, in.at, failAt)
			}
			return nil
		}
		return fmt.Errorf("Run returned %q, from which the failure (%s: %v) cannot be recovered", runErr, kind, cs[0])
	})
}

type scraperFunc func(ctx context.Context, p *ant.Page) (ant.URLs, error)

func (f scraperFunc) Scrape(ctx context.Context, p *ant.Page) (ant.URLs, error) { return f(ctx, p) }
