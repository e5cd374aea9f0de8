package cdp

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gorilla/websocket"
)

// A browser that speaks enough of the DevTools protocol. Every document it can
// load is described by a navP.

type subP struct {
	Type  string `json:"type"`  // resource type
	Frame bool   `json:"frame"` // belongs to a child frame
	Req   int    `json:"req"`   // position of its request
	Res   int    `json:"res"`   // position of its response, -1: there is none
}

type faultP struct {
	Step string `json:"step"` // "new", "dial", a method, or "event"
	N    int    `json:"n"`    // for "event": how many events are sent before
	How  string `json:"how"`  // error, close, stall, text
	// After events stalled, the rest comes when the next session navigates
	// the tab, rather than when it has attached to it.
	Rest bool `json:"rest,omitempty"`
}

type navP struct {
	Redirects int         `json:"redirects"`
	Away      int         `json:"away,omitempty"` // where the redirects lead: 1 another host, 2 another scheme, port and query
	Status    int         `json:"status"`
	Proto     string      `json:"proto"` // "" is absent
	Headers   [][2]string `json:"headers"`
	HTML      string      `json:"html"`
	PadKB     int         `json:"pad,omitempty"` // so much more text
	Subs      []subP      `json:"subs"`
	Res       int         `json:"res"`   // position of the document's response
	Ready     int         `json:"ready"` // position of the page being ready
	Reply     int         `json:"reply"` // position of the answer to Page.navigate
	NoFrame   bool        `json:"noframe"`
	Delay     []int       `json:"delay"` // µs before the events
	Stale     bool        `json:"stale"` // the page starts to load another document later
	StaleAt   string      `json:"staleat"`
}

type cookieP struct {
	Name, Value, Domain, Path string
	HTTPOnly                  bool
}

type command struct {
	session int
	method  string
	params  json.RawMessage
	at      time.Time
}

var tabIDs atomic.Int64

// strikeRec is a fault that happened, in a session or (-1) before.
type strikeRec struct {
	session int
	what    string
}

type browser struct {
	mu        sync.Mutex
	srv       *httptest.Server
	tabs      map[string]*tab
	sessions  []*session
	newCount  int
	attached  int
	commands  []command
	cookies   []cookieP
	navOf     func(u *url.URL) (id int, n *navP) // by URL
	faultAt   func(kind string, n int) *faultP   // the n-th "new" tab or "session"
	activity  time.Time
	struck    []strikeRec
	closing   chan struct{}
	wg        sync.WaitGroup
	onStall   func(session int)
	onCommand func()
	late      atomic.Int64 // handshakes that complete late
	bad       []string
}

type tab struct {
	id     string
	frame  string
	url    string // of its document
	html   string
	node   int
	nloads int
	stop   chan struct{} // stops the load that is under way
	stale  *navP
	rest   func() // what is left of a load that stalled
	open   int
	gone   bool
}

type session struct {
	b       *browser
	n       int
	tab     *tab
	ws      *websocket.Conn
	wmu     sync.Mutex
	network bool
	page    bool
	closed  chan struct{}
	fault   *faultP
	req     string // the X-Req header
	nav     string // the URL it navigated to
	header  map[string]string
	cookies []map[string]any
	sent    []cookieP // cookies of the answer to Storage.getCookies
	at      time.Time // attached
	last    time.Time
}

func newBrowser() *browser {
	b := &browser{tabs: map[string]*tab{}, closing: make(chan struct{}), activity: time.Now()}
	b.srv = httptest.NewServer(http.HandlerFunc(b.serve))
	return b
}

func (b *browser) shut() {
	close(b.closing)
	b.mu.Lock()
	for _, s := range b.sessions {
		s.ws.Close()
	}
	b.mu.Unlock()
	http.DefaultTransport.(*http.Transport).CloseIdleConnections()
	b.srv.CloseClientConnections()
	b.srv.Close()
	b.wg.Wait()
}

func (b *browser) active() {
	b.mu.Lock()
	b.activity = time.Now()
	b.mu.Unlock()
}

func (b *browser) idleFor() time.Duration {
	b.mu.Lock()
	defer b.mu.Unlock()
	return time.Since(b.activity)
}

func (b *browser) strike(n int, f *faultP) {
	b.mu.Lock()
	b.struck = append(b.struck, strikeRec{n, fmt.Sprintf("%s %s", f.Step, f.How)})
	fn := b.onStall
	b.activity = time.Now()
	b.mu.Unlock()
	if f.How == "stall" && fn != nil {
		fn(n)
	}
}

func (b *browser) odd(format string, args ...any) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.bad = append(b.bad, fmt.Sprintf(format, args...))
}

func (b *browser) serve(w http.ResponseWriter, r *http.Request) {
	b.active()
	switch {
	case r.URL.Path == "/json/version":
		fmt.Fprint(w, `{"Browser":"Fake/1.0","Protocol-Version":"1.3","webSocketDebuggerUrl":"ws://`+r.Host+`/devtools/browser/x"}`)
	case r.URL.Path == "/json/new":
		if r.Method != "PUT" {
			http.Error(w, "Using unsafe HTTP verb "+r.Method, 405)
			return
		}
		b.mu.Lock()
		var f *faultP
		if b.faultAt != nil {
			f = b.faultAt("new", b.newCount)
		}
		b.newCount++
		b.mu.Unlock()
		if f != nil && f.Step == "new" {
			b.strike(-1, f)
			switch f.How {
			case "close":
				panic(http.ErrAbortHandler)
			case "stall":
				select {
				case <-b.closing:
				case <-r.Context().Done():
				}
				return
			case "garbage":
				fmt.Fprint(w, "{nonsense")
				return
			}
			http.Error(w, "cannot create", 500)
			return
		}
		b.mu.Lock()
		// Ports are reused: a late command for the tab of another browser
		// must not reach one of this browser.
		id := fmt.Sprintf("T%d-%d-%d", os.Getpid(), tabIDs.Add(1), len(b.tabs))
		t := &tab{id: id, frame: "F" + id, url: "about:blank", html: "<html><head></head><body></body></html>"}
		b.tabs[id] = t
		b.mu.Unlock()
		json.NewEncoder(w).Encode(map[string]string{
			"id": id, "type": "page", "url": "about:blank", "title": "",
			"webSocketDebuggerUrl": "ws://" + r.Host + "/devtools/page/" + id,
		})
	case strings.HasPrefix(r.URL.Path, "/json/close/"):
		id := strings.TrimPrefix(r.URL.Path, "/json/close/")
		b.mu.Lock()
		t := b.tabs[id]
		if t != nil {
			t.gone = true
		}
		b.mu.Unlock()
		if t == nil {
			http.Error(w, "No such target id: "+id, 404)
			return
		}
		fmt.Fprint(w, "Target is closing")
	case strings.HasPrefix(r.URL.Path, "/devtools/page/"):
		b.attach(w, r, strings.TrimPrefix(r.URL.Path, "/devtools/page/"))
	default:
		http.NotFound(w, r)
	}
}

func (b *browser) attach(w http.ResponseWriter, r *http.Request, id string) {
	b.mu.Lock()
	t := b.tabs[id]
	n := b.attached
	b.attached++
	var f *faultP
	if b.faultAt != nil {
		f = b.faultAt("session", n)
	}
	s := &session{b: b, n: n, tab: t, closed: make(chan struct{}), fault: f}
	if t == nil || t.gone {
		b.mu.Unlock()
		// For example the handshake of a request that was cancelled.
		http.Error(w, "no such tab", 404)
		return
	}
	if f != nil && f.Step == "dial" && f.How == "late" {
		b.late.Add(1)
	}
	if f != nil && f.Step == "dial" && f.How != "stall" && f.How != "late" {
		b.mu.Unlock()
		b.strike(n, f)
		http.Error(w, "no debugging today", 500)
		return
	}
	b.mu.Unlock()
	if f != nil && f.Step == "dial" && f.How == "late" {
		// the handshake completes when nobody waits for it anymore.
		b.strike(n, f)
		select {
		case <-b.closing:
			b.late.Add(-1)
			return
		case <-time.After(100 * time.Millisecond):
		}
	} else if f != nil && f.Step == "dial" {
		b.strike(n, f)
		select {
		case <-b.closing:
		case <-r.Context().Done():
		}
		return
	}
	late := f != nil && f.Step == "dial" && f.How == "late"
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	ws, err := up.Upgrade(w, r, nil)
	if err != nil {
		if late {
			b.late.Add(-1)
		}
		return
	}
	s.ws = ws
	b.mu.Lock()
	s.at = time.Now()
	b.sessions = append(b.sessions, s)
	t.open++
	b.activity = time.Now()
	select {
	case <-b.closing:
		ws.Close()
	default:
	}
	b.mu.Unlock()
	if late {
		b.late.Add(-1)
	}
	b.wg.Add(1)
	defer b.wg.Done()
	s.loop()
	ws.Close()
	b.mu.Lock()
	t.open--
	b.activity = time.Now()
	b.mu.Unlock()
	close(s.closed)
}

func (s *session) send(v any) {
	s.wmu.Lock()
	defer s.wmu.Unlock()
	s.b.active()
	s.ws.SetWriteDeadline(time.Now().Add(20 * time.Second))
	s.ws.WriteJSON(v)
}

func (s *session) event(method string, params map[string]any) {
	s.send(map[string]any{"method": method, "params": params})
}

// loop serves the session's commands until the connection ends.
func (s *session) loop() {
	for {
		var m struct {
			ID     uint64          `json:"id"`
			Method string          `json:"method"`
			Params json.RawMessage `json:"params"`
		}
		if err := s.ws.ReadJSON(&m); err != nil {
			return
		}
		b := s.b
		now := time.Now()
		b.mu.Lock()
		b.activity = now
		b.commands = append(b.commands, command{s.n, m.Method, m.Params, now})
		s.last = now
		fn := b.onCommand
		b.mu.Unlock()
		if fn != nil {
			fn()
		}
		if f := s.fault; f != nil && f.Step == m.Method && f.How != "text" {
			b.strike(s.n, f)
			switch f.How {
			case "close":
				return
			case "stall":
				continue
			}
			s.send(map[string]any{"id": m.ID, "error": map[string]any{"code": -32000, "message": "injected failure of " + m.Method}})
			continue
		}
		result, err, later := s.handle(m.ID, m.Method, m.Params)
		if later {
			continue
		}
		if err != "" {
			b.odd("%s: %s", m.Method, err)
			s.send(map[string]any{"id": m.ID, "error": map[string]any{"code": -32602, "message": err}})
			continue
		}
		if result == nil {
			result = map[string]any{}
		}
		s.send(map[string]any{"id": m.ID, "result": result})
	}
}

func (s *session) handle(id uint64, method string, params json.RawMessage) (result map[string]any, err string, later bool) {
	b := s.b
	switch method {
	case "Page.enable":
		b.mu.Lock()
		s.page = true
		b.mu.Unlock()
	case "Network.enable":
		b.mu.Lock()
		s.network = true
		t := s.tab
		stale := t.stale
		t.stale = nil
		b.mu.Unlock()
		if stale != nil && stale.StaleAt == "enable" {
			s.staleResponse(stale)
		} else if stale != nil {
			b.mu.Lock()
			t.stale = stale
			b.mu.Unlock()
		}
	case "Network.setExtraHTTPHeaders":
		var p struct {
			Headers map[string]string `json:"headers"`
		}
		if e := json.Unmarshal(params, &p); e != nil {
			return nil, e.Error(), false
		}
		b.mu.Lock()
		s.header = p.Headers
		s.req = p.Headers["X-Req"]
		b.mu.Unlock()
	case "Storage.setCookies":
		var p struct {
			Cookies []map[string]any `json:"cookies"`
		}
		if e := json.Unmarshal(params, &p); e != nil {
			return nil, e.Error(), false
		}
		b.mu.Lock()
		s.cookies = append(s.cookies, p.Cookies...)
		for _, c := range p.Cookies {
			name, _ := c["name"].(string)
			value, _ := c["value"].(string)
			b.setCookie(cookieP{Name: name, Value: value, Domain: "site.test", Path: "/"})
		}
		b.mu.Unlock()
	case "Storage.getCookies", "Network.getCookies", "Network.getAllCookies":
		b.mu.Lock()
		defer b.mu.Unlock()
		s.sent = append([]cookieP(nil), b.cookies...)
		ret := []map[string]any{}
		for _, c := range b.cookies {
			ret = append(ret, map[string]any{
				"name": c.Name, "value": c.Value, "domain": c.Domain, "path": c.Path, "httpOnly": c.HTTPOnly,
				"expires": -1, "size": len(c.Name) + len(c.Value), "secure": false, "session": true, "priority": "Medium",
				"sameParty": false, "sourceScheme": "NonSecure", "sourcePort": 80,
			})
		}
		return map[string]any{"cookies": ret}, "", false
	case "Page.navigate", "Page.reload":
		var p struct {
			URL string `json:"url"`
		}
		if e := json.Unmarshal(params, &p); e != nil {
			return nil, e.Error(), false
		}
		b.mu.Lock()
		t := s.tab
		if method == "Page.reload" {
			p.URL = t.url
		} else {
			s.nav = p.URL
		}
		stale := t.stale
		t.stale = nil
		rest := t.rest
		t.rest = nil
		b.mu.Unlock()
		if stale != nil && method == "Page.navigate" {
			s.staleResponse(stale)
		}
		if rest != nil && method == "Page.navigate" {
			rest()
		}
		u, e := url.Parse(p.URL)
		if e != nil {
			return nil, e.Error(), false
		}
		_, nav := b.navOf(u)
		if nav == nil {
			return nil, "Cannot navigate to invalid URL " + p.URL, false
		}
		if f := s.fault; f != nil && f.Step == method && f.How == "text" {
			b.strike(s.n, f)
			return map[string]any{"frameId": t.frame, "loaderId": "L-failed", "errorText": "net::ERR_INJECTED"}, "", false
		}
		// The same document with another fragment is not loaded again.
		b.mu.Lock()
		same := method == "Page.navigate" && u.Fragment != "" && sansFragment(t.url) == sansFragment(p.URL)
		if same {
			t.url = p.URL
		}
		b.mu.Unlock()
		if same {
			return map[string]any{"frameId": t.frame}, "", false
		}
		s.load(id, p.URL, nav, method == "Page.reload")
		return nil, "", true
	case "DOM.getDocument":
		b.mu.Lock()
		defer b.mu.Unlock()
		s.tab.node += 7
		return map[string]any{"root": map[string]any{
			"nodeId": s.tab.node, "backendNodeId": 1, "nodeType": 9, "nodeName": "#document", "localName": "", "nodeValue": "",
			"documentURL": s.tab.url,
		}}, "", false
	case "DOM.getOuterHTML":
		var p struct {
			NodeID *int `json:"nodeId"`
		}
		if e := json.Unmarshal(params, &p); e != nil {
			return nil, e.Error(), false
		}
		b.mu.Lock()
		defer b.mu.Unlock()
		if p.NodeID == nil || *p.NodeID != s.tab.node || s.tab.node == 0 {
			return nil, "Could not find node with given id", false
		}
		return map[string]any{"outerHTML": s.tab.html}, "", false
	case "Page.setLifecycleEventsEnabled", "DOM.enable", "Runtime.enable", "Network.disable", "Page.disable":
	default:
		return nil, "'" + method + "' wasn't found", false
	}
	return nil, "", false
}

func sansFragment(s string) string {
	s, _, _ = strings.Cut(s, "#")
	return s
}

// setCookie is called with b.mu held.
func (b *browser) setCookie(c cookieP) {
	for i := range b.cookies {
		if b.cookies[i].Name == c.Name && b.cookies[i].Domain == c.Domain && b.cookies[i].Path == c.Path {
			b.cookies[i] = c
			return
		}
	}
	b.cookies = append(b.cookies, c)
}

// watched reports whether another session listens to the tab.
func (b *browser) watched(t *tab, not *session) bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, s := range b.sessions {
		if s != not && s.tab == t && s.network && s.page {
			select {
			case <-s.closed:
			default:
				return true
			}
		}
	}
	return false
}

// staleResponse is the response to a document that an earlier page of the tab
// navigates to by itself.
func (s *session) staleResponse(n *navP) {
	b := s.b
	b.mu.Lock()
	t := s.tab
	t.nloads++
	loader := fmt.Sprintf("L-%s-%d", t.id, t.nloads)
	frame := t.frame
	t.url = "http://elsewhere.test/self"
	b.struck = append(b.struck, strikeRec{s.n, "stale response"})
	b.mu.Unlock()
	s.event("Network.requestWillBeSent", reqEvent(loader, loader, frame, "http://elsewhere.test/self", "Document", ""))
	s.event("Network.responseReceived", resEvent(loader, loader, frame, "http://elsewhere.test/self", "Document", 299, "http/9.9", [][2]string{{"X-Stale", "yes"}}))
}

func reqEvent(id, loader, frame, u, typ, redirected string) map[string]any {
	m := map[string]any{
		"requestId": id, "loaderId": loader, "documentURL": u, "timestamp": 12.5, "wallTime": 1700000000.25, "type": typ,
		"initiator": map[string]any{"type": "other"}, "hasUserGesture": false, "redirectHasExtraInfo": false,
		"request": map[string]any{"url": u, "method": "GET", "headers": map[string]any{}, "initialPriority": "VeryHigh", "referrerPolicy": "no-referrer"},
	}
	if frame != "" {
		m["frameId"] = frame
	}
	if redirected != "" {
		m["redirectResponse"] = response(redirected, 302, "http/1.1", [][2]string{{"Location", u}, {"X-Redirect", "yes"}})
	}
	return m
}

func response(u string, status int, proto string, headers [][2]string) map[string]any {
	h := map[string]any{}
	for _, kv := range headers {
		h[kv[0]] = kv[1]
	}
	m := map[string]any{
		"url": u, "status": status, "statusText": "", "headers": h, "mimeType": "text/html", "connectionReused": false, "connectionId": 7,
		"encodedDataLength": 100, "securityState": "neutral", "charset": "",
	}
	if proto != "" {
		m["protocol"] = proto
	}
	return m
}

func resEvent(id, loader, frame, u, typ string, status int, proto string, headers [][2]string) map[string]any {
	m := map[string]any{
		"requestId": id, "loaderId": loader, "timestamp": 13.5, "type": typ, "hasExtraInfo": false,
		"response": response(u, status, proto, headers),
	}
	if frame != "" {
		m["frameId"] = frame
	}
	return m
}

// htmlOf is the rendered document of an URL.
func htmlOf(raw string, n *navP) string {
	if n.HTML == "" {
		return ""
	}
	return n.HTML + strings.Repeat("0123456789 filler, <é>, until 32", n.PadKB*32) + "<!-- " + raw + " -->"
}

func finalURL(raw string, n *navP) string {
	if n.Redirects == 0 {
		return raw
	}
	u, _ := url.Parse(raw)
	switch n.Away {
	case 1:
		return "http://elsewhere.test/final" + u.Path
	case 2:
		return "https://u@" + u.Host + ":8443/final%2Fx" + u.Path + "?from=" + url.QueryEscape(u.Path)
	}
	return fmt.Sprintf("%s://%s/final%s", u.Scheme, u.Host, u.Path)
}

// load loads a document and sends its events.
func (s *session) load(id uint64, raw string, n *navP, reload bool) {
	b, t := s.b, s.tab
	b.mu.Lock()
	if t.stop != nil {
		close(t.stop)
	}
	stop := make(chan struct{})
	t.stop = stop
	t.nloads++
	loader := fmt.Sprintf("L-%s-%d", t.id, t.nloads)
	frame := t.frame
	b.mu.Unlock()

	final := finalURL(raw, n)
	type tok struct {
		pos, seq int
		do       func()
	}
	var toks []tok
	add := func(pos int, do func()) { toks = append(toks, tok{pos, len(toks), do}) }
	all := func(method string, params map[string]any) {
		b.mu.Lock()
		var to []*session
		for _, o := range b.sessions {
			select {
			case <-o.closed:
				continue
			default:
			}
			if o.tab == t && (strings.HasPrefix(method, "Network.") && o.network || strings.HasPrefix(method, "Page.") && o.page) {
				to = append(to, o)
			}
		}
		b.mu.Unlock()
		for _, o := range to {
			o.event(method, params)
		}
	}
	prev := ""
	for r := 0; r <= n.Redirects; r++ {
		u := raw
		if r > 0 {
			u = fmt.Sprintf("%s?hop=%d", raw, r)
		}
		if r == n.Redirects {
			u = final
		}
		ev := reqEvent(loader, loader, frame, u, "Document", prev)
		add(-1, func() { all("Network.requestWillBeSent", ev) })
		prev = u
	}
	docFrame := frame
	if n.NoFrame {
		docFrame = ""
	}
	res := max(n.Res, 0)
	add(res, func() {
		all("Network.responseReceived", resEvent(loader, loader, docFrame, final, "Document", n.Status, n.Proto, append(n.Headers[:len(n.Headers):len(n.Headers)], [2]string{"X-Document", raw})))
	})
	add(max(n.Ready, 0), func() {
		b.mu.Lock()
		t.html, t.url = htmlOf(raw, n), final
		b.mu.Unlock()
		all("Page.domContentEventFired", map[string]any{"timestamp": 14.5})
	})
	add(n.Reply, func() {
		if reload {
			s.send(map[string]any{"id": id, "result": map[string]any{}})
			return
		}
		s.send(map[string]any{"id": id, "result": map[string]any{"frameId": frame, "loaderId": loader}})
	})
	for k, sub := range n.Subs {
		rid, fr, ld := fmt.Sprintf("%s.%d", loader, k), frame, loader
		u := fmt.Sprintf("http://sub.test/%d", k)
		if sub.Frame {
			fr = fmt.Sprintf("%s-child%d", frame, k)
			ld = rid
		}
		add(max(sub.Req, 0), func() { all("Network.requestWillBeSent", reqEvent(rid, ld, fr, u, sub.Type, "")) })
		if sub.Res >= 0 {
			add(max(sub.Req, sub.Res, 0), func() {
				all("Network.responseReceived", resEvent(rid, ld, fr, u, sub.Type, 288, "http/8.8", [][2]string{{"X-Sub", "yes"}}))
				all("Network.loadingFinished", map[string]any{"requestId": rid, "timestamp": 15.5, "encodedDataLength": 10})
			})
		}
	}
	sort.SliceStable(toks, func(i, j int) bool { return toks[i].pos < toks[j].pos })
	b.wg.Add(1)
	go func() {
		defer b.wg.Done()
		for i, k := range toks {
			if f := s.fault; f != nil && f.Step == "event" && f.N == i {
				b.strike(s.n, f)
				if f.How == "close" {
					s.ws.Close()
				} else if f.Rest {
					b.mu.Lock()
					t.rest = func() {
						for _, k := range toks[i:] {
							k.do()
						}
					}
					b.mu.Unlock()
					return
				} else {
					// Goes on when the request has given up and the
					// next one has attached to the tab.
					select {
					case <-s.closed:
					case <-stop:
					case <-b.closing:
					}
					for !b.watched(t, s) {
						select {
						case <-stop:
							return
						case <-b.closing:
							return
						case <-time.After(100 * time.Microsecond):
						}
					}
				}
			}
			if len(n.Delay) > 0 {
				if d := n.Delay[i%len(n.Delay)]; d > 0 {
					time.Sleep(time.Duration(d) * time.Microsecond)
				}
			}
			select {
			case <-stop:
				return
			case <-b.closing:
				return
			default:
			}
			k.do()
		}
		if n.Stale {
			b.mu.Lock()
			t.stale = n
			b.mu.Unlock()
		}
	}()
}
