package atest

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/anttest"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/zsched"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID: "C28", Level: "exploration",
		Rule: "a suite case is non-trivial when the queue is not a plain in-memory queue or has a fault; a fetch case is non-trivial when the first answer is no plain 200",
		Assumptions: []string{
			"the suite is judged by its verdict on a family of correct queues and of queues with one fault each, as run by the testing package",
			"page fetches run against a fake transport in virtual time",
		},
		Subs: []vf.Sub{
			vf.S("suite", 6000, 60000, genSuite, runSuite),
			vf.S("fetch", 40000, 400000, genFetch, runFetch),
		},
	})
}

// ---- the queue suite ------------------------------------------------------------

func genSuite(t *rapid.T) *variant {
	v := &variant{Impl: rapid.SampledFrom([]string{"slice", "linked", "ring", "map", "memory"}).Draw(t, "impl")}
	us := []int{0, 0, 0, 1, 50, 1000}
	if rapid.Bool().Draw(t, "faulty") {
		v.Fault = rapid.SampledFrom(faults).Draw(t, "fault")
	} else {
		us = []int{0, 0, 0, 1, 20, 300}
		v.LateUS = rapid.SampledFrom([]int{0, 0, 0, 1, 200, 5000}).Draw(t, "late")
	}
	v.N = rapid.IntRange(0, 999).Draw(t, "n")
	v.Copies = rapid.Bool().Draw(t, "copies")
	v.CtxTop = rapid.Bool().Draw(t, "ctxtop")
	if v.Fault == "" || !strings.Contains(v.Fault, "-nth") && v.Fault != "capacity" {
		v.PreUS = rapid.SampledFrom(us).Draw(t, "pre")
		v.PostUS = rapid.SampledFrom(us).Draw(t, "post")
	}
	return v
}

// LateUS must keep the order: the timers of two batches may fire in any order,
// but each moves as many URLs as its batch has, from the front.

var stdout sync.Mutex

// verdict runs the suite and reports whether it passed.
func verdict(name string, f func(t *testing.T)) (bool, string) {
	stdout.Lock()
	defer stdout.Unlock()
	old := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		vf.Bug("pipe: %v", err)
	}
	os.Stdout = w
	var out bytes.Buffer
	done := make(chan struct{})
	go func() {
		io.Copy(&out, io.LimitReader(r, 1<<20))
		io.Copy(io.Discard, r)
		close(done)
	}()
	ok := testing.RunTests(regexp.MatchString, []testing.InternalTest{{Name: name, F: f}})
	os.Stdout = old
	w.Close()
	<-done
	r.Close()
	return ok, out.String()
}

func runSuite(c *vf.Case, v *variant) error {
	c.NT(v.Fault != "" || v.Impl != "memory" || v.PreUS+v.PostUS+v.LateUS > 0)
	made := 0
	ok, out := verdict("TestVF", func(t *testing.T) {
		anttest.TestQueue(t, func(testing.TB) ant.Queue {
			made++
			return newQueue(*v)
		})
	})
	c.Note("verdict %v", ok)
	if v.Fault == "" {
		c.Label("correct queue")
		if !ok {
			return fmt.Errorf("the suite failed a queue that keeps the contract (%+v):\n%s", *v, out)
		}
		if made == 0 {
			return fmt.Errorf("the suite tested no queue")
		}
		return nil
	}
	c.Label("fault %s", v.Fault)
	if ok {
		return fmt.Errorf("the suite passed a queue with the fault %q (%+v)", v.Fault, *v)
	}
	return nil
}

// ---- the fetch helper -----------------------------------------------------------

type replyP struct {
	Status int    `json:"st"`
	Err    string `json:"err"` // "", temp, perm, timeout
	To     int    `json:"to"`  // redirect target
}

type fetchP struct {
	URL     string     `json:"url"`
	Bad     bool       `json:"bad"` // the URL cannot be requested
	Replies [][]replyP `json:"replies"`
	Body    string     `json:"body"`
	Sched   zsched.Sched
}

var statuses = []int{200, 200, 404, 503, 201, 204, 206, 300, 301, 302, 304, 307, 308, 400, 401, 403, 405, 410, 418, 429, 451, 500, 501, 502, 504, 505, 599}

func genFetch(t *rapid.T) *fetchP {
	p := &fetchP{}
	p.URL = rapid.SampledFrom([]string{"http://h.test/p0", "https://h.test/p0", "http://h.test:8080/p0?q=1"}).Draw(t, "url")
	if rapid.IntRange(0, 9).Draw(t, "bad") == 9 {
		p.Bad = true
		p.URL = rapid.SampledFrom([]string{"http://[::1/", "http://h.test/%zz", ":", "http://h\x00.test/", "ftp://h.test/p0", "/p0", "", "h.test", "http://"}).Draw(t, "badurl")
	}
	pages := rapid.IntRange(1, 3).Draw(t, "pages")
	for i := 0; i < pages; i++ {
		var rs []replyP
		for j := rapid.IntRange(1, 6).Draw(t, "replies"); j > 0; j-- {
			r := replyP{Status: rapid.SampledFrom(statuses).Draw(t, "status"), To: rapid.IntRange(-1, pages-1).Draw(t, "to")}
			if rapid.IntRange(0, 5).Draw(t, "err") == 5 {
				r.Err = rapid.SampledFrom([]string{"temp", "perm", "both"}).Draw(t, "errkind")
			}
			rs = append(rs, r)
		}
		p.Replies = append(p.Replies, rs)
	}
	p.Body = rapid.SampledFrom([]string{"<title>x</title>", "", "<html><body><a href='/q'>l</a><title>x</title>", "plain"}).Draw(t, "body")
	return p
}

type tempError struct{ temp bool }

func (e tempError) Error() string   { return "injected" }
func (e tempError) Temporary() bool { return e.temp }
func (e tempError) Timeout() bool   { return false }

// server answers requests from the plan.
type server struct {
	p       *fetchP
	n       []int
	visited []int // replies in order: page*1000+index
	last    replyP
	hops    int
	open    int
}

func (s *server) RoundTrip(req *http.Request) (*http.Response, error) {
	// As a real transport does.
	if req.URL.Scheme != "http" && req.URL.Scheme != "https" {
		return nil, errors.New("unsupported protocol scheme")
	}
	if req.URL.Host == "" {
		return nil, errors.New("no host in request URL")
	}
	i := 0
	fmt.Sscanf(req.URL.Path, "/p%d", &i)
	rs := s.p.Replies[i%len(s.p.Replies)]
	r := rs[min(s.n[i], len(rs)-1)]
	s.n[i]++
	s.last = r
	switch r.Err {
	case "temp":
		return nil, tempError{true}
	case "perm":
		return nil, tempError{false}
	case "both":
		return nil, errors.New("plain")
	}
	h := http.Header{"Content-Type": {"text/html"}, "X-Page": {fmt.Sprint(i)}}
	if r.Status >= 300 && r.Status < 400 && r.To >= 0 {
		h.Set("Location", fmt.Sprintf("http://h.test/p%d", r.To))
	}
	return &http.Response{
		Status: fmt.Sprintf("%d x", r.Status), StatusCode: r.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: io.NopCloser(strings.NewReader(s.p.Body)), ContentLength: -1, Request: req,
	}, nil
}

// tb is the test that calls the helper.
type tb struct {
	testing.TB
	fatal  int
	failed int
	text   string
}

func (t *tb) Helper()                   {}
func (t *tb) Fatal(a ...any)            { t.die(fmt.Sprint(a...)) }
func (t *tb) Fatalf(f string, a ...any) { t.die(fmt.Sprintf(f, a...)) }
func (t *tb) FailNow()                  { t.die("") }
func (t *tb) Error(a ...any)            { t.failed++ }
func (t *tb) Errorf(f string, a ...any) { t.failed++ }
func (t *tb) Fail()                     { t.failed++ }
func (t *tb) Log(a ...any)              {}
func (t *tb) Logf(f string, a ...any)   {}
func (t *tb) Skip(a ...any)             { t.text = "skip"; runtime.Goexit() }
func (t *tb) Skipf(f string, a ...any)  { t.text = "skip"; runtime.Goexit() }
func (t *tb) SkipNow()                  { t.text = "skip"; runtime.Goexit() }
func (t *tb) Failed() bool              { return t.fatal+t.failed > 0 }
func (t *tb) Name() string              { return "TestX" }
func (t *tb) Cleanup(f func())          {}
func (t *tb) die(s string)              { t.fatal++; t.text = s; runtime.Goexit() }

// model returns whether the page can be fetched, and which page it is.
func (p *fetchP) model() (page int, ok bool) {
	n := make([]int, len(p.Replies))
	for attempt := 0; attempt < 5; attempt++ {
		at := 0
		retry := false
		for hop := 0; ; hop++ {
			if hop > 9 {
				return 0, false // too many redirects
			}
			rs := p.Replies[at]
			r := rs[min(n[at], len(rs)-1)]
			n[at]++
			if r.Err == "temp" {
				retry = true
				break
			}
			if r.Err != "" {
				return 0, false
			}
			switch r.Status {
			case 301, 302, 303, 307, 308:
				if r.To >= 0 {
					at = r.To
					continue
				}
				// A redirect that leads nowhere is an answer.
			}
			if r.Status == 503 || r.Status == 504 || r.Status == 429 {
				retry = true
				break
			}
			return at, r.Status < 400
		}
		if !retry {
			break
		}
	}
	return 0, false
}

func runFetch(c *vf.Case, p *fetchP) error {
	first := p.Replies[0][0]
	c.NT(p.Bad || first.Status != 200 || first.Err != "")
	return vf.Bubble(c, zsched.Sched{}, func() error {
		s := &server{p: p, n: make([]int, len(p.Replies))}
		ant.DefaultClient.Transport = s
		t := &tb{TB: c.T}
		var page *ant.Page
		var panicked any
		returned := false
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() { panicked = recover() }()
			page = anttest.Fetch(t, p.URL)
			returned = true
		}()
		select {
		case <-done:
		case <-time.After(10 * time.Minute):
			return fmt.Errorf("the helper did not end")
		}
		if panicked != nil {
			return fmt.Errorf("the helper panicked: %v", panicked)
		}
		at, ok := p.model()
		if p.Bad {
			ok = false
		}
		c.LabelIf(ok, "page")
		c.LabelIf(!ok, "fatal")
		c.LabelIf(s.last.Status == 404 && s.last.Err == "" && !p.Bad, "404")
		c.Note("returned=%v fatal=%d %q", returned, t.fatal, t.text)
		if !ok {
			if returned || t.fatal != 1 {
				return fmt.Errorf("%s could not be fetched (last answer %+v), but the test went on (returned page %v, fatal %d)", p.URL, s.last, page != nil, t.fatal)
			}
			if t.text == "" {
				return fmt.Errorf("the test failed without a message")
			}
			return nil
		}
		if !returned || t.fatal+t.failed > 0 {
			return fmt.Errorf("%s could be fetched, but the helper failed the test with %q", p.URL, t.text)
		}
		if page == nil {
			return fmt.Errorf("%s could be fetched, but the helper returned no page", p.URL)
		}
		if page.URL == nil || page.URL.Path != fmt.Sprintf("/p%d", at) || page.Header.Get("X-Page") != fmt.Sprint(at) {
			return fmt.Errorf("the page of %s has URL %v and header %v, want page %d", p.URL, page.URL, page.Header, at)
		}
		want := ""
		if strings.Contains(p.Body, "<title>") {
			want = "x"
		}
		if got := page.Text("title"); got != want {
			return fmt.Errorf("the page of %s has the title %q, want %q", p.URL, got, want)
		}
		return nil
	})
}
