package cdp

import (
	"context"
	"fmt"
	"net/http"
	"sync"
	"time"

	"github.com/yields/ant/antcdp"
	"github.com/yields/ant/zverif/vf"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID: "C26",
		Rule: "several goroutines with generated sequences of requests through one antcdp.Client against the fake browser of C25, with failing, dropped and stalled steps and cancellations; " +
			"non-trivial: at least two requests overlapped and a tab was used by more than one request",
		Assumptions: []string{
			"schedules are those of real goroutines and sockets with generated delays",
			"whether two requests overlap on a tab is judged by the commands the browser receives, for requests that succeed",
		},
		Subs: []vf.Sub{
			vf.S("many", 2500, 60000, genC26, runC26),
		},
	})
}

type c26Req struct {
	reqP
	Wait int    `json:"wait"` // µs before it starts
	How  string `json:"how"`  // "", before, after (µs), command
	At   int    `json:"at"`
}

type c26P struct {
	Navs   []navP          `json:"navs"`
	Lanes  [][]c26Req      `json:"lanes"`
	Faults map[int]*faultP `json:"faults"` // by the n-th connection
	New    map[int]*faultP `json:"new"`    // by the n-th new tab
}

func genC26(t *rapid.T) *c26P {
	p := &c26P{Faults: map[int]*faultP{}, New: map[int]*faultP{}}
	for n := uni(t, 1, 3, "navs"); n > 0; n-- {
		p.Navs = append(p.Navs, genNav(t))
	}
	lanes := uni(t, 1, 6, "lanes")
	if oneIn(t, 8, "crowd") {
		lanes = uni(t, 7, 14, "lanes")
	}
	trouble := uni(t, 0, 3, "trouble")
	for ; lanes > 0; lanes-- {
		var lane []c26Req
		for n := uni(t, 1, 4, "reqs"); n > 0; n-- {
			r := c26Req{Wait: pick(t, "wait", 0, 0, 100, 1000, 3000)}
			r.Nav = uni(t, 0, len(p.Navs)-1, "nav")
			r.Frag = pick(t, "frag", "", "", "", "top")
			if oneIn(t, 4, "cookie") {
				r.Cookies = append(r.Cookies, [2]string{"c", "1"})
			}
			if trouble == 3 {
				r.How, r.At = pick(t, "how", "deadline", "after"), 40000
			} else if trouble > 0 && oneIn(t, 5, "cancelled") {
				r.How = pick(t, "how", "before", "after", "after", "deadline")
				r.At = pick(t, "at", 0, 100, 500, 1000, 2000, 5000)
			}
			lane = append(lane, r)
		}
		p.Lanes = append(p.Lanes, lane)
	}
	if trouble > 1 {
		for n := uni(t, 1, 3, "faults"); n > 0; n-- {
			f := genFault(t)
			if trouble == 3 {
				f.How = "stall"
				if oneIn(t, 3, "late") {
					f.Step, f.How = "dial", "late"
				}
			} else if f.How == "stall" {
				f.How = "close"
				if f.Step == "dial" {
					f.How = "error"
				}
			}
			if f.Step == "new" {
				p.New[uni(t, 0, 3, "new")] = f
			} else {
				p.Faults[uni(t, 0, 8, "conn")] = f
			}
		}
	}
	return p
}

func runC26(c *vf.Case, p *c26P) error {
	b := newBrowser()
	defer b.shut()
	b.navOf = navigator(p.Navs)
	b.faultAt = func(kind string, n int) *faultP {
		if kind == "new" {
			return p.New[n]
		}
		return p.Faults[n]
	}
	client := &antcdp.Client{Addr: b.srv.URL}
	type outcome struct {
		id         string
		r          *c26Req
		req        *http.Request
		resp       *http.Response
		err, cerr  error
		hung       bool
		start, end time.Time
		late       time.Duration
	}
	var mu sync.Mutex
	var outs []*outcome
	var wg sync.WaitGroup
	for i, lane := range p.Lanes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range lane {
				r := &lane[j]
				if r.Wait > 0 {
					time.Sleep(time.Duration(r.Wait) * time.Microsecond)
				}
				o := &outcome{id: fmt.Sprintf("%d.%d", i, j), r: r}
				rq := r.reqP
				rq.Query = "r=" + o.id
				rq.Headers = append(rq.Headers[:len(rq.Headers):len(rq.Headers)], [2]string{"X-Req", o.id})
				ctx, cancel := context.WithCancel(context.Background())
				d := time.Duration(r.At) * time.Microsecond
				var cancelled time.Time
				switch r.How {
				case "before":
					cancel()
				case "after":
					time.AfterFunc(d, cancel)
				case "deadline":
					ctx, cancel = context.WithTimeout(ctx, d)
				}
				if r.How != "" {
					context.AfterFunc(ctx, func() {
						mu.Lock()
						cancelled = time.Now()
						mu.Unlock()
					})
				}
				o.req = rq.request(ctx)
				o.start = time.Now()
				o.resp, o.err, o.hung = do(b, client, o.req)
				o.end = time.Now()
				o.cerr = ctx.Err()
				mu.Lock()
				if !cancelled.IsZero() && o.err != nil {
					o.late = o.end.Sub(cancelled)
				}
				outs = append(outs, o)
				mu.Unlock()
				cancel()
				if o.hung {
					return
				}
			}
		}()
	}
	wg.Wait()
	for end := time.Now().Add(hangAfter); b.late.Load() > 0 && time.Now().Before(end); {
		time.Sleep(time.Millisecond)
	}
	b.mu.Lock()
	sessions := append([]*session(nil), b.sessions...)
	struck := append([]strikeRec(nil), b.struck...)
	tabs := len(b.tabs)
	b.mu.Unlock()
	for _, o := range outs {
		if o.hung {
			return fmt.Errorf("request %s hangs: the browser has had nothing to do for %s", o.id, hangAfter)
		}
	}
	for _, s := range sessions {
		if err := closedSoon(s); err != nil {
			return fmt.Errorf("all requests are over: %w", err)
		}
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	byReq := map[string][]*session{}
	for _, s := range sessions {
		if s.req != "" {
			byReq[s.req] = append(byReq[s.req], s)
		}
	}
	// Faults whose request is not known.
	loose := 0
	hit := map[string]bool{}
	for _, k := range struck {
		if k.what == "stale response" {
			continue
		}
		known := false
		for _, s := range sessions {
			if k.session >= 0 && s.n == k.session && s.req != "" {
				hit[s.req] = true
				known = true
			}
		}
		if !known {
			loose++
		}
	}
	overlap, reused := false, false
	for i, o := range outs {
		for _, q := range outs[:i] {
			overlap = overlap || o.start.Before(q.end) && q.start.Before(o.end)
		}
	}
	seen := map[*tab]bool{}
	for _, s := range sessions {
		reused = reused || seen[s.tab]
		seen[s.tab] = true
	}
	c.NT(overlap && reused)
	c.LabelIf(overlap, "overlapping requests")
	c.LabelIf(reused, "tab reused")
	c.LabelIf(tabs > 10, "more tabs than are pooled")
	for _, k := range struck {
		c.Label("%s", k.what)
	}
	c.Note("%d requests, %d connections, %d tabs, struck %v", len(outs), len(sessions), tabs, struck)
	ok := map[string]*outcome{}
	for _, o := range outs {
		if o.err == nil {
			ok[o.id] = o
			continue
		}
		c.LabelIf(o.cerr != nil, "cancelled")
		switch {
		case o.cerr != nil && ctxErr(o.err, o.cerr):
		case o.r.How == "deadline" && ctxErr(o.err, context.DeadlineExceeded):
		case hit[o.id]:
		case loose > 0 && len(byReq[o.id]) == 0:
			loose--
		case o.cerr != nil:
			return fmt.Errorf("request %s was cancelled (%v) but returned %v", o.id, o.cerr, o.err)
		default:
			return fmt.Errorf("request %s failed: %v", o.id, o.err)
		}
		if o.late > hangAfter {
			return fmt.Errorf("request %s returned %s after it was cancelled", o.id, o.late)
		}
	}
	for i, o := range outs {
		if o.err != nil {
			continue
		}
		ss := byReq[o.id]
		if len(ss) != 1 {
			return fmt.Errorf("request %s succeeded, %d connections were made for it", o.id, len(ss))
		}
		b.mu.Unlock()
		err := check(o.resp, o.req, &p.Navs[o.r.Nav], ss[0])
		if err == nil {
			err = told(b, ss[0], o.req)
		}
		b.mu.Lock()
		if err != nil {
			return fmt.Errorf("request %s: %w", o.id, err)
		}
		for _, q := range outs[:i] {
			if q.err != nil || len(byReq[q.id]) != 1 {
				continue
			}
			s, r := ss[0], byReq[q.id][0]
			if s.tab == r.tab && !s.last.Before(r.at) && !r.last.Before(s.at) {
				return fmt.Errorf("requests %s and %s used the tab %s at the same time", q.id, o.id, s.tab.id)
			}
		}
	}
	if len(b.bad) > 0 {
		return fmt.Errorf("the browser was asked for something wrong: %s", b.bad[0])
	}
	return nil
}
