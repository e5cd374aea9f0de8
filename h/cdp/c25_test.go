package cdp

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"strings"
	"time"

	"github.com/yields/ant/antcdp"
	"github.com/yields/ant/zverif/vf"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID: "C25",
		Rule: "sequences of requests through one antcdp.Client against a fake browser that speaks the DevTools protocol over loopback sockets: generated documents (status, protocol, headers, redirects, sub-resources and child frames, all events in generated positions), " +
			"cookies, and per request a failing, dropped or stalled step or a cancellation; non-trivial: a request whose document has a sub-resource, child frame or redirect, follows on an earlier one, or in which a fault struck",
		Assumptions: []string{
			"the browser sends a document's request before its response, and its response and DOM event once",
			"pages that navigate by themselves do so after they are ready, and the next request stops them before they are ready again",
			"requests, their headers and cookies are smaller than 4 kB, header values are single",
		},
		Subs: []vf.Sub{
			vf.S("seq", 5000, 120000, genC25, runC25),
		},
	})
}

type reqP struct {
	Nav      int         `json:"nav"`
	Query    string      `json:"query"`
	Frag     string      `json:"frag"`
	Headers  [][2]string `json:"headers"`
	Cookies  [][2]string `json:"cookies"`
	Fault    *faultP     `json:"fault"`
	CancelAt int         `json:"cancel"` // the number of commands after which it is cancelled, 0: never
	Deadline bool        `json:"deadline"`
}

type c25P struct {
	Navs    []navP    `json:"navs"`
	Reqs    []reqP    `json:"reqs"`
	Cookies []cookieP `json:"cookies"`
}

func uni(t *rapid.T, lo, hi int, label string) int {
	r := make([]int, 0, hi-lo+1)
	for i := lo; i <= hi; i++ {
		r = append(r, i)
	}
	return rapid.SampledFrom(r).Draw(t, label)
}

func oneIn(t *rapid.T, n int, label string) bool { return uni(t, 0, n-1, label) == n-1 }

func pick[T any](t *rapid.T, label string, v ...T) T { return rapid.SampledFrom(v).Draw(t, label) }

func genHeaders(t *rapid.T, names []string) [][2]string {
	var ret [][2]string
	for _, n := range names {
		if rapid.Bool().Draw(t, "hdr") {
			ret = append(ret, [2]string{n, pick(t, "value", "x", "text/html; charset=utf-8", "a, b", "", "1", "é")})
		}
	}
	return ret
}

func genNav(t *rapid.T) navP {
	n := navP{
		Status:  pick(t, "status", 200, 200, 201, 404, 503, 304, 418),
		Proto:   pick(t, "proto", "http/1.1", "http/1.0", "h2", "h3", ""),
		Headers: genHeaders(t, []string{"content-type", "Content-Length", "X-A", "x-b-c", "ETag"}),
		HTML:    pick(t, "html", "", "<html></html>", "\n<!doctype html>\r\n<html> </html>\n\n", " \t", "<html>\x00\u2028&lt;\"\\</html><!-- c -->", "<html><head></head><body>é ü</body></html>", "<html>"+strings.Repeat("<p>text</p>", 500)+"</html>"),
		Res:     uni(t, 0, 9, "res"),
		Ready:   uni(t, 0, 12, "ready"),
		Reply:   uni(t, -2, 12, "reply"),
		NoFrame: oneIn(t, 8, "noframe"),
		Stale:   oneIn(t, 4, "stale"),
		StaleAt: pick(t, "staleat", "enable", "navigate"),
	}
	if oneIn(t, 3, "redirected") {
		n.Redirects = uni(t, 1, 3, "redirects")
		n.Away = uni(t, 0, 2, "away")
	}
	if rapid.Bool().Draw(t, "real") {
		n.Ready = max(n.Ready, n.Res) // as real browsers do
	}
	for k := uni(t, 0, 4, "subs"); k > 0; k-- {
		s := subP{Type: pick(t, "type", "Stylesheet", "Script", "Image", "XHR", "Document", "Other"), Req: uni(t, 0, 12, "sreq"), Res: -1}
		if rapid.Bool().Draw(t, "answered") {
			s.Res = uni(t, 0, 14, "sres")
		}
		s.Frame = s.Type == "Document" || oneIn(t, 4, "child")
		n.Subs = append(n.Subs, s)
	}
	if oneIn(t, 60, "large") {
		n.PadKB = pick(t, "padkb", 5, 40, 70, 300, 1100, 4200)
	}
	if oneIn(t, 60, "busy") {
		for k := uni(t, 10, 60, "manysubs"); k > 0; k-- {
			n.Subs = append(n.Subs, subP{Type: pick(t, "type", "Stylesheet", "Script", "Image", "XHR", "Other"), Req: uni(t, 0, 12, "sreq"), Res: uni(t, 0, 14, "sres"), Frame: oneIn(t, 4, "child")})
		}
	}
	if oneIn(t, 40, "manyheaders") {
		for k := uni(t, 10, 80, "nheaders"); k > 0; k-- {
			n.Headers = append(n.Headers, [2]string{fmt.Sprintf("X-H-%d", k), strings.Repeat("v", pick(t, "hlen", 1, 30, 300, 5000))})
		}
	}
	for k := uni(t, 0, 5, "delays"); k > 0; k-- {
		n.Delay = append(n.Delay, pick(t, "delay", 0, 0, 0, 50, 300, 1500))
	}
	return n
}

var steps = []string{
	"new", "dial", "Page.enable", "Network.enable", "Network.setExtraHTTPHeaders", "Storage.setCookies", "Page.navigate", "DOM.getDocument", "DOM.getOuterHTML",
	"Storage.getCookies", "event", "event", "event",
}

func genFault(t *rapid.T) *faultP {
	f := &faultP{Step: rapid.SampledFrom(steps).Draw(t, "step")}
	switch f.Step {
	case "new":
		f.How = pick(t, "how", "error", "close", "stall", "garbage")
	case "dial":
		f.How = pick(t, "how", "error", "stall")
	case "event":
		f.N = uni(t, 0, 8, "n")
		f.How = pick(t, "how", "close", "stall", "stall")
		f.Rest = rapid.Bool().Draw(t, "rest")
	case "Page.navigate":
		f.How = pick(t, "how", "error", "close", "stall", "text", "text")
	default:
		f.How = pick(t, "how", "error", "close", "stall")
	}
	return f
}

func genC25(t *rapid.T) *c25P {
	p := &c25P{}
	for n := uni(t, 1, 3, "navs"); n > 0; n-- {
		p.Navs = append(p.Navs, genNav(t))
	}
	for n := uni(t, 0, 2, "cookies"); n > 0; n-- {
		p.Cookies = append(p.Cookies, cookieP{
			Name: fmt.Sprintf("base%d", n), Value: pick(t, "value", "v", "", "a=b", "x/y"), Domain: pick(t, "domain", "site.test", "other.test"), Path: pick(t, "path", "/", "/p", ""),
			HTTPOnly: rapid.Bool().Draw(t, "httponly"),
		})
	}
	if oneIn(t, 40, "manycookies") {
		for n := uni(t, 3, 60, "ncookies"); n > 0; n-- {
			p.Cookies = append(p.Cookies, cookieP{Name: fmt.Sprintf("more%d", n), Value: strings.Repeat("c", pick(t, "clen", 1, 100, 4000)), Domain: "site.test", Path: "/"})
		}
	}
	nreqs := uni(t, 1, 4, "reqs")
	if oneIn(t, 25, "manyreqs") {
		nreqs = uni(t, 5, 25, "nreqs")
	}
	for n := nreqs; n > 0; n-- {
		r := reqP{Nav: uni(t, 0, len(p.Navs)-1, "nav")}
		r.Query = pick(t, "query", "", "", "a=1", "b=%20x&c")
		r.Frag = pick(t, "frag", "", "", "", "top", "x")
		r.Headers = genHeaders(t, []string{"User-Agent", "Accept", "X-Custom"})
		for k := uni(t, 0, 2, "setcookies"); k > 0; k-- {
			r.Cookies = append(r.Cookies, [2]string{fmt.Sprintf("c%d", k), pick(t, "cvalue", "1", "two", "x-y")})
		}
		switch uni(t, 0, 5, "trouble") {
		case 3, 4:
			r.Fault = genFault(t)
			r.Deadline = rapid.Bool().Draw(t, "deadline")
		case 5:
			r.CancelAt = uni(t, 1, 11, "cancel")
			r.Deadline = oneIn(t, 8, "deadline")
		}
		p.Reqs = append(p.Reqs, r)
	}
	return p
}

// navigator returns the documents of the site.
func navigator(navs []navP) func(u *url.URL) (int, *navP) {
	return func(u *url.URL) (int, *navP) {
		var i int
		if n, err := fmt.Sscanf(u.Path, "/n%d", &i); n != 1 || err != nil || i < 0 || i >= len(navs) {
			return -1, nil
		}
		return i, &navs[i]
	}
}

func (r *reqP) request(ctx context.Context) *http.Request {
	u := &url.URL{Scheme: "http", Host: "site.test", Path: fmt.Sprintf("/n%d", r.Nav), RawQuery: r.Query, Fragment: r.Frag}
	req, err := http.NewRequestWithContext(ctx, "GET", u.String(), nil)
	if err != nil {
		vf.Bug("%v", err)
	}
	for _, kv := range r.Headers {
		req.Header.Set(kv[0], kv[1])
	}
	for _, kv := range r.Cookies {
		req.AddCookie(&http.Cookie{Name: kv[0], Value: kv[1]})
	}
	return req
}

// do performs the request, and notices when it hangs.
func do(b *browser, c *antcdp.Client, req *http.Request) (resp *http.Response, err error, hung bool) {
	type result struct {
		resp *http.Response
		err  error
	}
	done := make(chan result, 1)
	go func() {
		resp, err := c.Do(req)
		done <- result{resp, err}
	}()
	tick := time.NewTicker(50 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case r := <-done:
			return r.resp, r.err, false
		case <-tick.C:
			if b.idleFor() > hangAfter {
				return nil, nil, true
			}
		}
	}
}

// hangAfter is how long the browser has had nothing to do before a request
// that did not return is said to hang.
const hangAfter = 5 * time.Second

// check compares a response with its document.
func check(resp *http.Response, req *http.Request, n *navP, s *session) error {
	if resp == nil {
		return errors.New("neither a response nor an error was returned")
	}
	if resp.StatusCode != n.Status {
		return fmt.Errorf("the status is %d, the document's is %d", resp.StatusCode, n.Status)
	}
	if want := strings.TrimSpace(fmt.Sprintf("%d %s", n.Status, http.StatusText(n.Status))); strings.TrimSpace(resp.Status) != want {
		return fmt.Errorf("the status line is %q, want %q", resp.Status, want)
	}
	if resp.Proto != n.Proto {
		return fmt.Errorf("the protocol is %q, the document's is %q", resp.Proto, n.Proto)
	}
	major, minor := 0, 0
	switch n.Proto {
	case "http/1.1":
		major, minor = 1, 1
	case "http/1.0":
		major = 1
	default:
		major, minor = resp.ProtoMajor, resp.ProtoMinor
	}
	if resp.ProtoMajor != major || resp.ProtoMinor != minor {
		return fmt.Errorf("protocol %q is said to be version %d.%d", n.Proto, resp.ProtoMajor, resp.ProtoMinor)
	}
	html := htmlOf(req.URL.String(), n)
	body, err := io.ReadAll(resp.Body)
	if err != nil {
		return fmt.Errorf("reading the body: %v", err)
	}
	resp.Body.Close()
	if string(body) != html {
		return fmt.Errorf("the body is %.80q, the rendered document is %.80q", body, html)
	}
	want := http.Header{}
	for _, kv := range n.Headers {
		want.Set(kv[0], kv[1])
	}
	want.Set("X-Document", req.URL.String())
	want.Set("Content-Length", fmt.Sprint(len(html)))
	for k := range resp.Header {
		if k != "Set-Cookie" && want.Get(k) != resp.Header.Get(k) || len(want[k]) != len(resp.Header[k]) && k != "Set-Cookie" {
			return fmt.Errorf("the response has the header %s: %q, the document has %q", k, resp.Header[k], want[k])
		}
	}
	for k := range want {
		if len(resp.Header[k]) == 0 {
			return fmt.Errorf("the document's header %s: %q is missing", k, want[k])
		}
	}
	if resp.ContentLength != int64(len(html)) {
		return fmt.Errorf("the content length is %d, the body has %d bytes", resp.ContentLength, len(html))
	}
	got := resp.Cookies()
	for _, c := range s.sent {
		found := false
		for _, g := range got {
			found = found || g.Name == c.Name && g.Value == c.Value && g.Domain == c.Domain && g.Path == c.Path && g.HttpOnly == c.HTTPOnly
		}
		if !found {
			return fmt.Errorf("the browser's cookie %+v is missing from the response's %v", c, resp.Header["Set-Cookie"])
		}
	}
	if len(got) != len(s.sent) {
		return fmt.Errorf("the response has %d cookies (%v), the browser %d", len(got), resp.Header["Set-Cookie"], len(s.sent))
	}
	if resp.Request == nil || resp.Request.URL == nil {
		return errors.New("the response has no request")
	}
	if got, want := sansFragment(resp.Request.URL.String()), sansFragment(finalURL(req.URL.String(), n)); got != want {
		return fmt.Errorf("the response says it is the one of %s, the document is the one of %s", got, want)
	}
	return nil
}

// ctxErr reports whether err is the context's error.
func ctxErr(err, cerr error) bool {
	// A dialer's own timer for the context's deadline may be earlier.
	return errors.Is(err, cerr) || cerr == context.DeadlineExceeded && errors.Is(err, os.ErrDeadlineExceeded)
}

// told checks what the browser was told.
func told(b *browser, s *session, req *http.Request) error {
	b.mu.Lock()
	defer b.mu.Unlock()
	at := map[string]int{}
	for i, c := range b.commands {
		if c.session == s.n {
			if _, ok := at[c.method]; !ok {
				at[c.method] = i + 1
			}
		}
	}
	if s.nav != req.URL.String() {
		return fmt.Errorf("the browser navigated to %q instead of %q", s.nav, req.URL)
	}
	if len(req.Header) > 0 && (at["Network.setExtraHTTPHeaders"] == 0 || at["Network.setExtraHTTPHeaders"] > at["Page.navigate"]) {
		return errors.New("the request's headers were not set before navigation")
	}
	for k := range req.Header {
		if got, ok := s.header[k]; !ok || got != req.Header.Get(k) {
			return fmt.Errorf("the header %s was set to %q, the request has %q", k, got, req.Header.Get(k))
		}
	}
	for k := range s.header {
		if _, ok := req.Header[k]; !ok {
			return fmt.Errorf("the header %s was set, the request does not have it", k)
		}
	}
	if len(req.Cookies()) > 0 && (at["Storage.setCookies"] == 0 || at["Storage.setCookies"] > at["Page.navigate"]) {
		return errors.New("the request's cookies were not set before navigation")
	}
	if len(s.cookies) != len(req.Cookies()) {
		return fmt.Errorf("%d cookies were set, the request has %d", len(s.cookies), len(req.Cookies()))
	}
	for i, c := range req.Cookies() {
		m := s.cookies[i]
		if m["name"] != c.Name || m["value"] != c.Value {
			return fmt.Errorf("the cookie %v was set as %v", c, m)
		}
		if u, ok := m["url"]; ok && u != req.URL.String() {
			return fmt.Errorf("the cookie %v was set for the URL %v", c, u)
		}
	}
	return nil
}

// closedSoon waits for the end of the connection.
func closedSoon(s *session) error {
	select {
	case <-s.closed:
		return nil
	case <-time.After(hangAfter):
		return errors.New("the connection to the tab was not closed")
	}
}

func runC25(c *vf.Case, p *c25P) error {
	b := newBrowser()
	defer b.shut()
	b.navOf = navigator(p.Navs)
	for _, ck := range p.Cookies {
		b.cookies = append(b.cookies, ck)
	}
	var cur *reqP
	var cancel context.CancelFunc
	b.faultAt = func(kind string, n int) *faultP {
		if cur.Fault != nil && (kind == "new") == (cur.Fault.Step == "new") {
			return cur.Fault
		}
		return nil
	}
	client := &antcdp.Client{Addr: b.srv.URL}
	for i := range p.Reqs {
		r := &p.Reqs[i]
		n := &p.Navs[r.Nav]
		b.mu.Lock()
		cur = r
		b.struck = nil
		before, ordinal := len(b.sessions), b.attached
		b.activity = time.Now()
		b.mu.Unlock()
		stalls := r.Fault != nil && r.Fault.How == "stall"
		var ctx context.Context
		if r.Deadline && (stalls || r.CancelAt > 0) {
			ctx, cancel = context.WithTimeout(context.Background(), 40*time.Millisecond)
		} else {
			ctx, cancel = context.WithCancel(context.Background())
		}
		b.mu.Lock()
		b.onStall = func(int) {
			if !r.Deadline {
				time.AfterFunc(3*time.Millisecond, cancel)
			}
		}
		b.onCommand = nil
		if r.CancelAt > 0 && !r.Deadline {
			left := r.CancelAt
			b.onCommand = func() {
				if left--; left == 0 {
					cancel()
				}
			}
		}
		b.mu.Unlock()
		req := r.request(ctx)
		resp, err, hung := do(b, client, req)
		cerr := ctx.Err()
		cancel()
		b.mu.Lock()
		var struck []string
		for _, s := range b.struck {
			if s.session < 0 || s.session >= ordinal {
				struck = append(struck, s.what)
			}
		}
		mine := append([]*session(nil), b.sessions[before:]...)
		fault := false
		for _, s := range struck {
			fault = fault || s != "stale response"
		}
		b.mu.Unlock()
		what := fmt.Sprintf("request %d to %s (struck %v, cancelled %v)", i, req.URL, struck, cerr)
		c.NT(len(n.Subs) > 0 || n.Redirects > 0 || i > 0 || fault)
		for _, s := range struck {
			c.Label("%s", s)
		}
		c.LabelIf(n.Redirects > 0, "redirect")
		c.LabelIf(r.Frag != "", "fragment")
		c.LabelIf(cerr != nil && !fault, "cancelled")
		c.Note("%s: %v", what, err)
		if hung {
			return fmt.Errorf("%s hangs: the browser has had nothing to do for %s", what, hangAfter)
		}
		for _, s := range mine {
			if err := closedSoon(s); err != nil {
				return fmt.Errorf("%s is over: %w", what, err)
			}
		}
		if len(mine) > 1 {
			return fmt.Errorf("%s made %d connections", what, len(mine))
		}
		if fault {
			// The connection may break or stall when everything was said.
			late := r.Fault.Step == "event"
			if err == nil && !late {
				return fmt.Errorf("%s returned no error", what)
			}
			if err != nil && stalls && !ctxErr(err, cerr) {
				return fmt.Errorf("%s returned %v", what, err)
			}
			if err != nil && r.Fault.How == "text" && !strings.Contains(err.Error(), "net::ERR_INJECTED") {
				return fmt.Errorf("%s returned %v, which does not tell the navigation error", what, err)
			}
		} else if cerr != nil {
			if err != nil && !ctxErr(err, cerr) {
				return fmt.Errorf("%s returned %v", what, err)
			}
		} else if err != nil {
			return fmt.Errorf("%s failed: %v", what, err)
		}
		if err == nil {
			if len(mine) != 1 {
				return fmt.Errorf("%s made %d connections", what, len(mine))
			}
			if err := check(resp, req, n, mine[0]); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			if err := told(b, mine[0], req); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		}
		b.mu.Lock()
		bad := append([]string(nil), b.bad...)
		b.mu.Unlock()
		if len(bad) > 0 {
			return fmt.Errorf("%s: the browser was asked for something wrong: %s", what, bad[0])
		}
	}
	return nil
}
