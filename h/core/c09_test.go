package core

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"sync"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/zsched"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID: "C09",
		Rule: "random sequences of statuses and errors (plain, temporary, wrapped, network), attempts and backoff settings, latencies and cancellation times, against a reference retry model with exact virtual times, through a bare client and through net/http's; " +
			"non-trivial: at least one retry, or a cancellation in the middle",
		Assumptions: []string{"errors whose chain contains several contradicting Temporary methods are not generated", "a backoff after the last attempt is accepted (no request follows)"},
		Subs: []vf.Sub{
			vf.S("retry", 80000, 2000000, genC09, runC09),
		},
	})
}

type outcomeP struct {
	Kind   string `json:"k"` // status, temp, wtemp, perm, wperm, nottemp, net, redirect
	Status int    `json:"st"`
	LatMS  int    `json:"lat"`
}

type c09P struct {
	Out      []outcomeP `json:"out"` // the last one repeats
	Attempts int        `json:"attempts"`
	MinMS    int        `json:"min"`
	MinNS    int        `json:"minns,omitempty"` // added to it
	MaxMS    int        `json:"max"`
	HTTP     bool       `json:"http"` // through http.Client
	Agent    string     `json:"agent"`
	Cancel   int        `json:"cancel"` // µs; -1: never
	Deadline bool       `json:"deadline"`
	URL      string     `json:"url"`
}

func genC09(t *rapid.T) *c09P {
	p := &c09P{HTTP: rapid.IntRange(0, 2).Draw(t, "http") == 0, Cancel: -1}
	gen := rapid.Custom(func(t *rapid.T) outcomeP {
		o := outcomeP{LatMS: genLat(t)}
		kinds := []string{"status", "status", "status", "temp", "wtemp", "perm", "wperm", "nottemp", "net", "eof", "trunc", "canceled", "expired"}
		if p.HTTP {
			kinds = []string{"status", "status", "status", "temp", "perm", "nottemp", "net", "redirect", "eof", "trunc", "canceled", "expired"}
		}
		o.Kind = rapid.SampledFrom(kinds).Draw(t, "kind")
		if o.Kind == "status" {
			o.Status = rapid.SampledFrom([]int{200, 503, 503, 504, 429, 500, 404, 502, 403, 400, 201, 204, 304, 399, 408, 501, 410, 599, 505, 430, 428, 401, 600, 999, 700}).Draw(t, "status")
			if oneIn(t, 3, "anystatus") {
				o.Status = uni(t, 200, 599, "astatus")
			}
		}
		return o
	})
	if rapid.Bool().Draw(t, "persist") {
		// temporary failures first.
		for i := rapid.IntRange(0, 6).Draw(t, "temps"); i > 0; i-- {
			o := outcomeP{Kind: "status", Status: rapid.SampledFrom([]int{503, 504, 429}).Draw(t, "tst"), LatMS: genLat(t)}
			if rapid.IntRange(0, 3).Draw(t, "e") == 0 {
				o.Kind = rapid.SampledFrom([]string{"temp", "net"}).Draw(t, "tk")
			}
			p.Out = append(p.Out, o)
		}
	}
	p.Out = append(p.Out, rapid.SliceOfN(gen, 1, 4).Draw(t, "out")...)
	p.Attempts = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 5, 8, -1}).Draw(t, "attempts")
	if oneIn(t, 12, "many") {
		// many attempts, and few of them succeed.
		p.Attempts = uni(t, 9, 40, "mattempts")
		first := p.Out
		p.Out = nil
		for i := uni(t, 6, 45, "mtemps"); i > 0; i-- {
			p.Out = append(p.Out, outcomeP{Kind: "status", Status: pick(t, "mst", 503, 504, 429), LatMS: genLat(t)})
		}
		p.Out = append(p.Out, first...)
	}
	p.MinMS = rapid.SampledFrom([]int{0, 0, 1, 7, 100, 2000}).Draw(t, "min")
	if oneIn(t, 6, "fine") {
		p.MinNS = pick(t, "minns", 130_001, 250_003, 499_001, 999_999)
	}
	p.MaxMS = rapid.SampledFrom([]int{0, 0, 5, 300, 10000}).Draw(t, "max")
	p.Agent = rapid.SampledFrom([]string{"", "", "bot/1.0 (x)", "Mozilla"}).Draw(t, "agent")
	if rapid.IntRange(0, 3).Draw(t, "cancels") == 0 {
		p.Cancel = rapid.SampledFrom([]int{0, 1, 500, 3500, 20500, 60300, 130700, 260900, 1500100}).Draw(t, "cancel")
		p.Deadline = rapid.Bool().Draw(t, "deadline")
	}
	p.URL = rapid.SampledFrom([]string{"http://a.test/", "https://a.test/x?b=1&a=2", "http://u@a.test:81/%2F?q", "https://u:pw@a.test/p", "http://a.test/a%20b"}).Draw(t, "url")
	return p
}

type tempErr struct{ temp bool }

func (e *tempErr) Error() string   { return fmt.Sprintf("an error with Temporary %v", e.temp) }
func (e *tempErr) Temporary() bool { return e.temp }

// expiredErr is an expired deadline that is not the request's.
type expiredErr struct{}

func (expiredErr) Error() string        { return "a deadline of the client expired" }
func (expiredErr) Is(target error) bool { return target == context.DeadlineExceeded }

var (
	errExpired error = expiredErr{}
	errPlain         = errors.New("a plain error")
	errTemp          = &tempErr{true}
	errNotTemp       = &tempErr{false}
	errNet           = &net.DNSError{Err: "try again", IsTemporary: true, Name: "a.test"}
)

func (o outcomeP) err() (err error, temp bool) {
	switch o.Kind {
	case "temp":
		return errTemp, true
	case "wtemp":
		return fmt.Errorf("client: %w", errTemp), true
	case "perm":
		return errPlain, false
	case "wperm":
		return fmt.Errorf("client: %w", errPlain), false
	case "nottemp":
		return errNotTemp, false
	case "net":
		return errNet, true
	case "eof":
		return io.EOF, false
	case "trunc":
		return fmt.Errorf("client: %w", io.ErrUnexpectedEOF), false
	case "canceled":
		return fmt.Errorf("client: %w", context.Canceled), false
	case "expired":
		return errExpired, false
	}
	return nil, o.Status == 503 || o.Status == 504 || o.Status == 429
}

func (o outcomeP) base() error {
	switch o.Kind {
	case "temp", "wtemp":
		return errTemp
	case "nottemp":
		return errNotTemp
	case "net":
		return errNet
	case "eof":
		return io.EOF
	case "trunc":
		return io.ErrUnexpectedEOF
	case "canceled":
		return context.Canceled
	case "expired":
		return errExpired
	}
	return errPlain
}

func runC09(c *vf.Case, p *c09P) error {
	return vf.Bubble(c, zsched.Sched{}, func() error {
		type reqRec struct {
			at  time.Duration
			req *http.Request
		}
		var mu sync.Mutex
		var got []reqRec
		t0 := time.Now()
		var w *web
		n := 0
		w = newWeb(func(req *http.Request) reply {
			mu.Lock()
			defer mu.Unlock()
			if req.URL.Path == "/final" {
				return reply{status: 200, body: []byte("<h1>after the redirect</h1>"), header: http.Header{"X-N": {"final"}}}
			}
			got = append(got, reqRec{time.Since(t0), req})
			i := min(n, len(p.Out)-1)
			o := p.Out[i]
			n++
			r := reply{status: o.Status, latency: ms(o.LatMS), header: http.Header{"X-N": {fmt.Sprint(n)}}, body: []byte(fmt.Sprintf("<h1>answer %d</h1>", n))}
			r.err, _ = o.err()
			if o.Kind == "redirect" {
				r.status, r.header = 302, http.Header{"Location": {"/final"}}
			} else if !p.HTTP && o.Status < 400 {
				r.final = &url.URL{Scheme: "http", Host: "final.test", Path: "/f"}
			}
			return r
		})
		f := &ant.Fetcher{Client: w, MaxAttempts: p.Attempts, MinBackoff: ms(p.MinMS) + time.Duration(p.MinNS), MaxBackoff: ms(p.MaxMS)}
		if p.HTTP {
			f.Client = &http.Client{Transport: w}
		}
		if p.Agent != "" {
			f.UserAgent = ant.StaticAgent(p.Agent)
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		cancelAt := time.Duration(1 << 60)
		if p.Cancel >= 0 {
			cancelAt = time.Duration(p.Cancel) * time.Microsecond
			if p.Deadline {
				ctx, cancel = context.WithTimeout(context.Background(), cancelAt)
				defer cancel()
			} else if p.Cancel == 0 {
				cancel()
			} else {
				time.AfterFunc(cancelAt, cancel)
			}
		}
		u, err := url.Parse(p.URL)
		if err != nil {
			vf.Bug("%v", err)
		}
		page, ferr := f.Fetch(ctx, u)
		took := time.Since(t0)
		if u.String() != p.URL {
			return fmt.Errorf("Fetch changed its URL from %s to %s", p.URL, u)
		}

		// ---- model
		attempts, minB, maxB := p.Attempts, ms(p.MinMS)+time.Duration(p.MinNS), ms(p.MaxMS)
		if attempts <= 0 {
			attempts = 5
		}
		if minB <= 0 {
			minB = 50 * time.Millisecond
		}
		if maxB <= 0 {
			maxB = time.Second
		}
		var times []time.Duration
		now := time.Duration(0)
		res := "" // page, nil, status, error, config, cancelled
		var last outcomeP
		idx, extra := 0, time.Duration(0)
		for a := 1; ; a++ {
			if now >= cancelAt {
				res = "cancelled"
				break
			}
			times = append(times, now)
			last = p.Out[min(a, len(p.Out))-1]
			idx = a
			now += ms(last.LatMS)
			if now >= cancelAt && last.LatMS > 0 {
				res = "cancelled"
				break
			}
			e, temp := last.err()
			if e == nil && (last.Kind == "redirect" || last.Status < 400) {
				res = "page"
				break
			}
			if !temp {
				res = "status"
				if e != nil {
					res = "error"
				} else if last.Status == 404 {
					res = "nil"
				}
				break
			}
			b := min(time.Duration(a*a)*minB, maxB)
			if a == attempts {
				extra = b
			}
			if minB >= maxB {
				res = "config"
				break
			}
			if a == attempts {
				res = "status"
				if e != nil {
					res = "error"
				}
				break
			}
			if now+b >= cancelAt {
				res = "cancelled"
				break
			}
			now += b
		}

		mu.Lock()
		defer mu.Unlock()
		if len(got) != len(times) {
			return fmt.Errorf("%d requests were made, want %d (%s): %v at %v", len(got), len(times), res, p.Out, times)
		}
		for i, g := range got {
			if g.at < times[i] || g.at > times[i]+10*time.Microsecond {
				return fmt.Errorf("request %d was made at %s, want %s", i+1, g.at, times[i])
			}
			ua := "antbot"
			if p.Agent != "" {
				ua = p.Agent
			}
			if g.req.Method != "GET" || g.req.URL.String() != p.URL || g.req.Header.Get("User-Agent") != ua {
				return fmt.Errorf("request %d is %s %s with User-Agent %q, want GET %s with %q", i+1, g.req.Method, g.req.URL, g.req.Header.Get("User-Agent"), p.URL, ua)
			}
			if a := g.req.Header.Get("Accept"); len(a) < 9 || a[:9] != "text/html" {
				return fmt.Errorf("request %d accepts %q, not HTML", i+1, a)
			}
		}
		if p.Cancel >= 0 && took > cancelAt+100*time.Microsecond && took > now+100*time.Microsecond {
			return fmt.Errorf("Fetch returned at %s, its context ended at %s", took, cancelAt)
		}
		if p.Cancel < 0 && took > now+extra+100*time.Microsecond {
			return fmt.Errorf("Fetch returned at %s, the last response was there at %s", took, now)
		}
		retried := len(times) > 1
		c.NT(retried || res == "cancelled" && p.Cancel > 0)
		c.LabelIf(retried, "retried")
		c.Label("%s", res)
		c.LabelIf(res == "status" && len(times) == attempts && attempts > 1, "attempts exhausted")
		c.Note("%d requests, %s", len(times), res)
		ctxErr := p.Cancel >= 0 && took >= cancelAt && ferr != nil && (errors.Is(ferr, context.Canceled) || errors.Is(ferr, context.DeadlineExceeded))
		switch res {
		case "page":
			if ferr != nil || page == nil {
				return fmt.Errorf("status %d of attempt %d gave page %v and error %v", last.Status, idx, page != nil, ferr)
			}
			wantURL, wantN, wantBody := p.URL, fmt.Sprint(idx), fmt.Sprintf("<h1>answer %d</h1>", idx)
			if last.Kind == "redirect" {
				wantN, wantBody = "final", "<h1>after the redirect</h1>"
				v := *u
				v.Path, v.RawPath, v.RawQuery, v.ForceQuery, v.User = "/final", "", "", false, nil
				wantURL = v.String()
			} else if !p.HTTP {
				wantURL = "http://final.test/f"
			}
			b, err := io.ReadAll(page.Body())
			if page.URL.User != nil {
				// net/http keeps the user info of the first request in the final URL or not, depending on its version.
				v := *page.URL
				v.User = nil
				if w, err := url.Parse(wantURL); err == nil && last.Kind == "redirect" {
					wantURL = w.String()
					page.URL = &v
				}
			}
			if page.URL.String() != wantURL || page.Header.Get("X-N") != wantN || string(b) != wantBody || err != nil {
				return fmt.Errorf("the page has URL %s, header %v and body %q (%v), want %s, X-N %s and %q", page.URL, page.Header, b, err, wantURL, wantN, wantBody)
			}
		case "nil":
			if page != nil || ferr != nil {
				return fmt.Errorf("a 404 gave page %v and error %v", page != nil, ferr)
			}
		case "status":
			if page != nil || ferr == nil {
				return fmt.Errorf("status %d gave page %v and error %v", last.Status, page != nil, ferr)
			}
			var fe *ant.FetchError
			if !errors.As(ferr, &fe) && !ctxErr {
				return fmt.Errorf("status %d gave the error %v, which is not a FetchError", last.Status, ferr)
			}
			if fe != nil && fe.Status != last.Status {
				return fmt.Errorf("the last status is %d and the error says %v", last.Status, ferr)
			}
		case "error":
			if page != nil || ferr == nil {
				return fmt.Errorf("%v gave page %v and error %v", last, page != nil, ferr)
			}
			if !errors.Is(ferr, last.base()) && !ctxErr {
				return fmt.Errorf("the client's error %v cannot be recovered from %v", last.base(), ferr)
			}
		case "config":
			if page != nil || ferr == nil {
				return fmt.Errorf("a minimum backoff above the maximum gave page %v and error %v", page != nil, ferr)
			}
		case "cancelled":
			if page != nil || ferr == nil || minB < maxB && !errors.Is(ferr, context.Canceled) && !errors.Is(ferr, context.DeadlineExceeded) {
				return fmt.Errorf("a fetch cancelled at %s gave page %v and error %v", cancelAt, page != nil, ferr)
			}
		}
		return nil
	})
}
