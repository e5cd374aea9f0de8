// Package cachew is a model of an HTTP cache, an origin server for it, and the
// histories that are run against the real cache and the model.
package cachew

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/yields/ant/antcache"
	"pgregory.net/rapid"
)

// ---- plans ------------------------------------------------------------------

// CC is a set of Cache-Control directives.
type CC struct {
	MaxAge    *int64 `json:"maxage,omitempty"`
	BadAge    bool   `json:"badage,omitempty"`  // max-age=abc
	HugeAge   bool   `json:"hugeage,omitempty"` // max-age=10^20, which no integer holds
	MinFresh  *int64 `json:"minfresh,omitempty"`
	MaxStale  *int64 `json:"maxstale,omitempty"`
	StaleBare bool   `json:"stalebare,omitempty"` // max-stale
	NoCache   bool   `json:"nocache,omitempty"`
	NoStore   bool   `json:"nostore,omitempty"`
	MustReval bool   `json:"mustreval,omitempty"`
	IfError   bool   `json:"iferror,omitempty"`
	Junk      int    `json:"junk,omitempty"`
	Form      uint64 `json:"form,omitempty"`
}

func (c CC) empty() bool {
	c.Form = 0
	return c == CC{}
}

// maxAge is the max-age of the directives, which is at most clampAge.
func (c CC) maxAge() *int64 {
	if c.HugeAge {
		v := int64(clampAge)
		return &v
	}
	return c.MaxAge
}

type mix uint64

func (m *mix) n(n int) int {
	*m = *m*6364136223846793005 + 1442695040888963407
	return int((uint64(*m) >> 33) % uint64(n))
}

// Lines renders the directives: any case, spacing, order and number of lines.
func (c CC) Lines() []string {
	var d [][2]string
	num := func(k string, v *int64) {
		if v != nil {
			d = append(d, [2]string{k, strconv.FormatInt(*v, 10)})
		}
	}
	num("max-age", c.MaxAge)
	if c.BadAge {
		d = append(d, [2]string{"max-age", "abc"})
	}
	if c.HugeAge {
		d = append(d, [2]string{"max-age", "100000000000000000000"})
	}
	num("min-fresh", c.MinFresh)
	num("max-stale", c.MaxStale)
	flag := func(k string, v bool) {
		if v {
			d = append(d, [2]string{k, ""})
		}
	}
	flag("max-stale", c.StaleBare)
	flag("no-cache", c.NoCache)
	flag("no-store", c.NoStore)
	flag("must-revalidate", c.MustReval)
	flag("stale-if-error", c.IfError)
	for i, k := range []string{"public", "no-transform", "community", "x-max-age", "no-store-x", "no-cached", "must-revalidate-not"} {
		if c.Junk>>i&1 == 1 {
			v := ""
			if i == 2 || i == 3 {
				v = "7"
			}
			d = append(d, [2]string{k, v})
		}
	}
	if len(d) == 0 {
		return nil
	}
	m := mix(c.Form)
	if c.Form != 0 {
		for i := len(d) - 1; i > 0; i-- {
			j := m.n(i + 1)
			d[i], d[j] = d[j], d[i]
		}
	}
	lines := []string{""}
	for i, x := range d {
		k, v := x[0], x[1]
		sep := ", "
		eq := "="
		if c.Form != 0 {
			switch m.n(4) {
			case 0:
				k = strings.ToUpper(k)
			case 1:
				k = http.CanonicalHeaderKey(k)
			}
			sep = []string{",", ", ", " ,", " , ", ",,", ",\t"}[m.n(6)]
			eq = []string{"=", "=", "=", " = ", "= ", " ="}[m.n(6)]
		}
		s := k
		if v != "" {
			s += eq + v
		}
		switch {
		case i == 0:
			lines[0] = s
		case c.Form != 0 && m.n(4) == 0:
			lines = append(lines, s)
		default:
			lines[len(lines)-1] += sep + s
		}
	}
	if c.Form != 0 && m.n(5) == 0 {
		lines[0] = " " + lines[0] + " "
	}
	return lines
}

// Resp is what the origin will answer.
type Resp struct {
	Status  int    `json:"st"`
	CC      CC     `json:"cc"`
	DateOff int64  `json:"dateoff"`        // seconds before now
	Date    int    `json:"date"`           // 0: valid, 1: none, 2: not a date
	Expires *int64 `json:"exp,omitempty"`  // seconds after Date
	BadExp  bool   `json:"bexp,omitempty"` // Expires: 0
	NoTag   bool   `json:"notag,omitempty"`
	NoLM    bool   `json:"nolm,omitempty"`
	Vary    int    `json:"vary,omitempty"`
	Size    int    `json:"size"`
	Chunked bool   `json:"chunked,omitempty"`
	Hop     bool   `json:"hop,omitempty"`    // hop-by-hop headers in a 304
	Bare304 bool   `json:"bare,omitempty"`   // a 304 without Date and Cache-Control
	Extra   int    `json:"extra,omitempty"`  // changes X-Extra
	Bump    bool   `json:"bump,omitempty"`   // the resource changes first
	Weak    bool   `json:"weak,omitempty"`   // weak etags
	Fail    int    `json:"fail,omitempty"`   // 1: transport error, 5xx: that status
	Body    int    `json:"bodyf,omitempty"`  // >0: the body fails after Body-1 bytes
	Custom  string `json:"reason,omitempty"` // reason phrase
}

// Req is one request of the history.
type Req struct {
	Adv    int64  `json:"adv"` // seconds to let pass first
	Method string `json:"m"`
	URL    int    `json:"u"`
	CC     CC     `json:"cc"`
	Pragma bool   `json:"pragma,omitempty"`
	Range  bool   `json:"range,omitempty"`
	CRange bool   `json:"crange,omitempty"`
	Auth   bool   `json:"auth,omitempty"`
	Own    int    `json:"own,omitempty"` // own validators: 1 bogus tag, 2 current tag, 3 bogus tag, date, 4 date in the past
	Split  bool   `json:"split,omitempty"` // a list of languages takes two lines
	Lang   int    `json:"lang,omitempty"`
	Tenant int    `json:"ten,omitempty"`
	NilHdr bool   `json:"nilhdr,omitempty"`
	Resp   Resp   `json:"resp"`
}

// Plan is a history.
type Plan struct {
	Agg     bool  `json:"agg"`
	AggAge  int64 `json:"aggage"`
	Storage int   `json:"storage"` // 0: default, 1: own
	Steps   []Req `json:"steps"`
}

// URLs are the URLs of the histories.
var URLs = []string{
	"http://a.test/x", "http://a.test/x?q=1", "https://a.test/x", "http://b.test/x", "http://a.test/y", "http://a.test/x?q=2",
	"http://a.test/X", "http://a.test/x/", "http://a.test:8080/x", "http://a.test/x?q=1&r=2", "http://a.test/x?r=2&q=1",
	"http://a.test/x%2Fy", "http://a.test/x/y", "http://a.test/", "http://a.test/x?", "http://a.test/x?Q=1", "http://a.test/x;q=1",
	"http://a.test/x?q=%31", "http://aa.test/x", "http://a.test/xx",
	"http://u:p@a.test/x", "http://u:q@a.test/x", "http://u@a.test/x", "https://a.test/x?q=1",
	"http://a.test/" + long + "/1", "http://a.test/" + long + "/2", "http://a.test/x?" + long + "=1", "http://a.test/x?" + long + "=2",
	"http://a.test/" + longer + "/1", "http://a.test/" + longer + "/2", "http://a.test/x?" + longer + "=1", "http://a.test/x?" + longer + "=2",
}

var long, longer = strings.Repeat("long-segment/", 90), strings.Repeat("very-long-segment/", 5000)

var langs = []string{"", "en", "fr", "en, fr"}
var tenants = []string{"", "a", "b"}

func varyLines(v int) []string {
	switch v {
	case 1:
		return []string{"Accept-Language"}
	case 2:
		return []string{"Accept-Language, X-Tenant"}
	case 3:
		return []string{"*"}
	case 4:
		return []string{"accept-language"}
	case 5:
		return []string{"X-Tenant", "Accept-Language"}
	case 6:
		return []string{"X-Tenant , *"}
	case 7:
		return []string{"X-TENANT"}
	}
	return nil
}

func varies(v int) (lang, tenant, star bool) {
	switch v {
	case 1, 4:
		return true, false, false
	case 2, 5:
		return true, true, false
	case 3, 6:
		return false, false, true
	case 7:
		return false, true, false
	}
	return
}

func (r Req) cacheable() bool {
	return (r.Method == "GET" || r.Method == "HEAD") && !r.CC.NoStore && !r.Range && !r.CRange && !r.Auth
}

// ---- the origin -------------------------------------------------------------

// ErrOrigin is the origin's transport error.
var ErrOrigin = errors.New("the origin is unreachable")

// Body monitors a response body.
type Body struct {
	Req    string
	Status int
	r      io.Reader
	mu     sync.Mutex
	Closed int
	EOF    bool
	Failed bool
	Late   bool
}

func (b *Body) Read(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.Closed > 0 {
		b.Late = true
		return 0, errors.New("read on closed body")
	}
	n, err := b.r.Read(p)
	if err == io.EOF {
		b.EOF = true
	} else if err != nil {
		b.Failed = true
	}
	return n, err
}

// Close implements io.Closer.
func (b *Body) Close() error {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.Closed++
	return nil
}

type failReader struct {
	r    io.Reader
	left int
}

// ErrBody is the error of failing bodies.
var ErrBody = errors.New("the body broke")

func (f *failReader) Read(p []byte) (int, error) {
	if f.left <= 0 {
		return 0, ErrBody
	}
	if len(p) > f.left {
		p = p[:f.left]
	}
	n, err := f.r.Read(p)
	f.left -= n
	return n, err
}

// rec is one response the origin gave.
type rec struct {
	id     int
	step   int
	method string
	url    string
	req    Req
	plan   Resp
	status int
	header http.Header
	body   []byte
	broken bool
}

type call struct {
	step   int
	method string
	url    string
	header http.Header
	rec    *rec
	err    error
}

// World is an origin and a client of it.
type World struct {
	mu     sync.Mutex
	step   int
	cur    Req
	calls  []call
	recs   []*rec
	vers   map[string]int
	Bodies []*Body
	t0     time.Time
}

func tag(u string, v int, weak bool) string {
	// consecutive versions differ in the case of a letter.
	s := fmt.Sprintf(`"%x-%c%d"`, len(u)*131+int(u[len(u)-1]), "vV"[v&1], v/2)
	if weak {
		s = "W/" + s
	}
	return s
}

func (w *World) modified(v int) time.Time {
	return w.t0.Add(-1000 * time.Hour).Add(time.Duration(v) * time.Hour)
}

func httpDate(t time.Time) string { return t.UTC().Format(http.TimeFormat) }

// Do implements antcache.Client.
func (w *World) Do(req *http.Request) (*http.Response, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	p := w.cur.Resp
	u := req.URL.String()
	c := call{step: w.step, method: req.Method, url: u, header: req.Header.Clone()}
	defer func() { w.calls = append(w.calls, c) }()
	if p.Fail == 1 {
		c.err = ErrOrigin
		return nil, ErrOrigin
	}
	first := true
	for _, x := range w.calls {
		if x.step == w.step {
			first = false
		}
	}
	if p.Bump && first {
		w.vers[u]++
	}
	v := w.vers[u]
	r := &rec{id: len(w.recs) + 1, step: w.step, method: req.Method, url: u, req: w.cur, plan: p, status: p.Status}
	h := http.Header{}
	etag, lm := tag(u, v, p.Weak), w.modified(v)
	if p.Fail >= 500 {
		r.status = p.Fail
	} else if p.Status == 200 {
		inm, ims := req.Header.Get("If-None-Match"), req.Header.Get("If-Modified-Since")
		if inm != "" {
			if !p.NoTag && strings.TrimPrefix(inm, "W/") == strings.TrimPrefix(etag, "W/") {
				r.status = 304
			}
		} else if ims != "" && !p.NoLM {
			if t, err := http.ParseTime(ims); err == nil && !lm.After(t) {
				r.status = 304
			}
		}
	}
	if r.status == 304 {
		// a 304 that takes its response back is left open.
		p.CC.NoStore = false
		if p.Date == 2 {
			p.Date = 1
		}
		r.plan = p
	}
	date := time.Now().Add(-time.Duration(p.DateOff) * time.Second)
	bare := r.status == 304 && p.Bare304
	if !bare {
		switch p.Date {
		case 0:
			h.Set("Date", httpDate(date))
		case 2:
			h.Set("Date", "a while ago")
		}
		if l := p.CC.Lines(); l != nil {
			h["Cache-Control"] = l
		}
		if p.Expires != nil {
			h.Set("Expires", httpDate(date.Add(time.Duration(*p.Expires)*time.Second)))
		} else if p.BadExp {
			h.Set("Expires", "0")
		}
	}
	if r.status != 304 || !bare {
		if l := varyLines(p.Vary); l != nil {
			h["Vary"] = l
		}
	}
	if !p.NoTag {
		h.Set("ETag", etag)
	}
	if !p.NoLM {
		h.Set("Last-Modified", httpDate(lm))
	}
	h.Set("X-Id", strconv.Itoa(r.id))
	if p.Extra > 0 {
		h["X-Extra"] = []string{fmt.Sprintf("e%d", p.Extra), "second, \"quoted\""}
		// Other fields that are nothing to the cache.
		for k, v := range map[string]string{"Age": "30", "Via": "1.1 proxy", "Warning": `110 - "stale"`, "Content-Language": "en", "Content-Location": "/x", "Server": "s", "Set-Cookie": "a=b"} {
			if (p.Extra+len(k)+r.id)%3 == 0 {
				h.Set(k, v+strconv.Itoa(r.id))
			}
		}
	}
	if r.status == 304 && p.Hop {
		for _, k := range []string{"Connection", "Keep-Alive", "Proxy-Authenticate", "Te", "Upgrade"} {
			h.Set(k, "hop")
		}
	}
	if r.status != 304 && r.status != 204 && req.Method != "HEAD" {
		r.body = []byte(fmt.Sprintf("<p>id %d version %d of %s</p>", r.id, v, u))
		for len(r.body) < p.Size {
			r.body = append(r.body, r.body...)
		}
		if p.Size == 0 {
			r.body = nil
		}
	}
	r.header = h.Clone()
	w.recs = append(w.recs, r)
	c.rec = r

	reason := http.StatusText(r.status)
	if p.Custom != "" {
		reason = p.Custom
	}
	resp := &http.Response{
		Status: fmt.Sprintf("%d %s", r.status, reason), StatusCode: r.status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Request: req, ContentLength: int64(len(r.body)),
	}
	var rd io.Reader = bytes.NewReader(r.body)
	if p.Body > 0 && p.Body <= len(r.body) {
		rd = &failReader{rd, p.Body - 1}
		r.broken = true
	}
	b := &Body{Req: req.Method + " " + u, Status: r.status, r: rd}
	w.Bodies = append(w.Bodies, b)
	resp.Body = b
	switch {
	case r.status == 304 || r.status == 204:
	case p.Chunked && req.Method != "HEAD":
		resp.ContentLength = -1
		resp.TransferEncoding = []string{"chunked"}
	default:
		if req.Method == "HEAD" {
			resp.ContentLength = int64(p.Size)
		}
		h.Set("Content-Length", strconv.FormatInt(resp.ContentLength, 10))
		r.header = h.Clone()
	}
	return resp, nil
}

// ---- the model --------------------------------------------------------------

// entry is a stored response.
type entry struct {
	rec     *rec
	header  http.Header // as updated
	cc      CC
	dated   bool
	date    time.Time
	expires *time.Time
	vary    int
	lang    int
	tenant  int
	touched bool // by a validation
}

func dateOf(h http.Header) (time.Time, bool) {
	t, err := time.Parse(time.RFC1123, h.Get("Date"))
	return t, err == nil
}

func expiresOf(h http.Header) *time.Time {
	t, err := time.Parse(time.RFC1123, h.Get("Expires"))
	if err != nil {
		return nil
	}
	return &t
}

func storableStatus(s int) bool {
	switch s {
	case 200, 203, 204, 300, 301, 404, 405, 410, 414, 501:
		return true
	}
	return false
}

func (p Plan) storable(q Req, r *rec) bool {
	if !storableStatus(r.status) || r.plan.Date != 0 || !q.cacheable() {
		return false
	}
	if p.Agg {
		return true
	}
	if r.plan.CC.NoStore {
		return false
	}
	if a := r.plan.CC.maxAge(); a != nil {
		return *a > 0
	}
	return r.plan.Expires != nil && *r.plan.Expires > 0
}

// clampAge is the largest number of seconds that counts.
const clampAge = 1 << 31

func secs(n int64) time.Duration {
	if n > clampAge {
		n = clampAge
	}
	return time.Duration(n) * time.Second
}

type verdict int

const (
	miss verdict = iota
	hit
	validate
)

func (v verdict) String() string { return [...]string{"miss", "hit", "validate"}[v] }

// decide says what has to happen with the stored entry. A response from the
// future has a negative age or, when clamped, none.
func (p Plan) decide(q Req, e *entry, now time.Time, clamped bool) verdict {
	if e == nil {
		return miss
	}
	nocache := q.CC.NoCache || q.Pragma && q.CC.empty()
	age := now.Sub(e.date)
	if clamped {
		age = max(age, 0)
	}
	if p.Agg {
		limit := 24 * time.Hour
		if p.AggAge > 0 {
			limit = time.Duration(p.AggAge) * time.Second
		}
		if !nocache && age < limit {
			return hit
		}
		return miss
	}
	if !e.matches(q) {
		return miss
	}
	if nocache || e.cc.NoCache {
		return validate
	}
	var life time.Duration
	explicit := true
	switch {
	case e.cc.maxAge() != nil:
		life = secs(*e.cc.maxAge())
	case e.expires != nil:
		life = e.expires.Sub(e.date)
	default:
		explicit = false
	}
	if a := q.CC.maxAge(); a != nil && (!explicit || secs(*a) < life) {
		life = secs(*a)
	}
	if q.CC.MinFresh != nil {
		age += secs(*q.CC.MinFresh)
	}
	if !e.cc.MustReval {
		if q.CC.StaleBare {
			return hit
		}
		if q.CC.MaxStale != nil {
			age -= secs(*q.CC.MaxStale)
		}
	}
	if age < life {
		return hit
	}
	return validate
}

func (e *entry) matches(q Req) bool {
	lang, tenant, star := varies(e.vary)
	return !star && (!lang || e.lang == q.Lang) && (!tenant || e.tenant == q.Tenant)
}

func newEntry(q Req, r *rec) *entry {
	e := &entry{rec: r, header: r.header.Clone(), cc: r.plan.CC, vary: r.plan.Vary, lang: q.Lang, tenant: q.Tenant}
	e.date, e.dated = dateOf(r.header)
	e.expires = expiresOf(r.header)
	return e
}

// update applies a 304.
func (e *entry) update(q Req, r *rec) *entry {
	n := *e
	n.header = e.header.Clone()
	n.touched = true
	for k, v := range r.header {
		switch k {
		case "Connection", "Keep-Alive", "Proxy-Authenticate", "Te", "Upgrade":
		default:
			n.header[k] = v
		}
	}
	n.lang, n.tenant = q.Lang, q.Tenant
	if r.plan.Bare304 {
		return &n
	}
	if !r.plan.CC.empty() {
		n.cc = r.plan.CC
	}
	if t, ok := dateOf(r.header); ok {
		n.date = t
	}
	if r.header.Get("Expires") != "" {
		n.expires = expiresOf(r.header)
	}
	if r.plan.Vary != 0 {
		n.vary = r.plan.Vary
	}
	return &n
}

// Violation is a violation of the properties in For.
type Violation struct {
	For []string
	Msg string
}

func (v *Violation) Error() string { return v.Msg }

func viol(props string, format string, args ...any) error {
	return &Violation{strings.Fields(props), fmt.Sprintf(format, args...)}
}

// Keep returns err if it is a violation of the property, or no Violation.
func Keep(prop string, err error) error {
	var v *Violation
	if errors.As(err, &v) {
		for _, p := range v.For {
			if p == prop {
				return err
			}
		}
		return nil
	}
	return err
}

// Stats says what a history contained.
type Stats struct {
	Hits, Validations, NotMod, Replaced, Uncacheable, VaryMiss, Unstorable, Errors, IfError, Boundary int
}

// Own is a storage of the caller.
type Own struct {
	mu sync.Mutex
	m  map[uint64][]byte
}

// Store implements antcache.Storage.
func (o *Own) Store(_ context.Context, k uint64, v []byte) error {
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.m == nil {
		o.m = map[uint64][]byte{}
	}
	o.m[k] = append([]byte{}, v...)
	return nil
}

// Load implements antcache.Storage.
func (o *Own) Load(_ context.Context, k uint64) ([]byte, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	v, ok := o.m[k]
	if !ok {
		return nil, nil
	}
	return append([]byte{}, v...), nil
}

// NewWorld returns a new origin; it must be created inside the bubble.
func NewWorld() *World {
	return &World{vers: map[string]int{}, t0: time.Now().Truncate(time.Second)}
}

// NewCache returns the plan's cache in front of w.
func (p Plan) NewCache(w *World) (*antcache.Cache, error) {
	var opts []antcache.Option
	if p.Agg {
		opts = append(opts, antcache.Aggressive(time.Duration(p.AggAge)*time.Second))
	}
	if p.Storage == 1 {
		opts = append(opts, antcache.WithStorage(&Own{}))
	}
	return antcache.New(w, opts...)
}

func (w *World) request(q Req, e *entry) (*http.Request, error) {
	u, err := url.Parse(URLs[q.URL%len(URLs)])
	if err != nil {
		return nil, err
	}
	h := http.Header{}
	if l := q.CC.Lines(); l != nil {
		h["Cache-Control"] = l
	}
	set := func(k, v string) {
		if v != "" {
			h.Set(k, v)
		}
	}
	if q.Pragma {
		set("Pragma", "no-cache")
		if l := [][]string{{"no-cache"}, {"No-Cache"}, {"x=1, no-cache"}, {"x", "no-cache"}, {" no-cache ,"}, {"no-cache", ""}}[q.CC.Form%6]; q.CC.Form != 0 {
			h["Pragma"] = l
		}
	}
	if q.Range {
		set("Range", []string{"bytes=0-3", "bytes=-1", "items=1-2", "bytes=0-", "x"}[q.CC.Form%5])
	}
	if q.CRange {
		set("Content-Range", "bytes 0-3/10")
	}
	if q.Auth {
		set("Authorization", []string{"Bearer x", "Basic dTpw", "x"}[q.CC.Form%3])
	}
	set("Accept-Language", langs[q.Lang%len(langs)])
	if q.Split && q.Lang%len(langs) == 3 {
		// the same list, in two lines.
		h["Accept-Language"] = []string{"en", "fr"}
	}
	set("X-Tenant", tenants[q.Tenant%len(tenants)])
	switch q.Own {
	case 1:
		set("If-None-Match", `"bogus"`)
	case 2:
		set("If-None-Match", tag(u.String(), w.vers[u.String()], false))
	case 3:
		set("If-None-Match", `"bogus"`)
		set("If-Modified-Since", httpDate(w.modified(0)))
	case 4:
		set("If-Modified-Since", httpDate(w.modified(-5)))
	}
	if len(h) == 0 && q.NilHdr {
		h = nil
	} else if h.Get("X-Req") == "" && !q.NilHdr {
		h.Set("X-Req", "1")
	}
	ctx := context.Background()
	req := (&http.Request{Method: q.Method, URL: u, Header: h, Host: u.Host, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}).WithContext(ctx)
	return req, nil
}

// SameHeader compares headers apart from framing and the cache's own mark.
func SameHeader(got, want http.Header) string {
	keys := map[string]bool{}
	for k := range got {
		keys[k] = true
	}
	for k := range want {
		keys[k] = true
	}
	var list []string
	for k := range keys {
		list = append(list, k)
	}
	sort.Strings(list)
	for _, k := range list {
		switch k {
		case "X-From-Cache", "Transfer-Encoding", "Content-Length", "Connection":
			continue
		}
		a, b := got[k], want[k]
		// optional white space around values does not count.
		trim := func(l []string) (r []string) {
			for _, v := range l {
				r = append(r, strings.Trim(v, " \t"))
			}
			return
		}
		if fmt.Sprintf("%q", trim(a)) != fmt.Sprintf("%q", trim(b)) {
			return fmt.Sprintf("header %s is %q instead of %q", k, a, b)
		}
	}
	return ""
}

// wantHeader is what the origin has to see.
func wantHeader(own http.Header, e *entry) http.Header {
	h := own.Clone()
	if h == nil {
		h = http.Header{}
	}
	if e != nil {
		if t := e.header.Get("ETag"); t != "" && h.Get("If-None-Match") == "" {
			h.Set("If-None-Match", t)
		}
		if t := e.header.Get("Last-Modified"); t != "" && h.Get("If-Modified-Since") == "" {
			h.Set("If-Modified-Since", t)
		}
	}
	return h
}

func equalHeader(got, want http.Header) string {
	if s := SameHeader(got, want); s != "" {
		return s
	}
	if a, b := got["Connection"], want["Connection"]; len(a) != len(b) {
		return fmt.Sprintf("header Connection is %q instead of %q", a, b)
	}
	return ""
}

// Run runs the history against the cache and the model. Bodies are read to
// their end and closed.
func (p Plan) Run(w *World, c *antcache.Cache) (st Stats, err error) {
	stored := map[string]*entry{}
	for i, q := range p.Steps {
		if q.Adv > 0 {
			time.Sleep(time.Duration(q.Adv) * time.Second)
		}
		w.step, w.cur = i, q
		key := q.Method + " " + URLs[q.URL%len(URLs)]
		req, err := w.request(q, stored[key])
		if err != nil {
			return st, err
		}
		before := req.Header.Clone()
		ncalls := len(w.calls)
		resp, doErr := c.Do(req)
		calls := append([]call{}, w.calls[ncalls:]...)
		var body []byte
		var readErr, closeErr error
		if resp != nil {
			body, readErr = io.ReadAll(resp.Body)
			closeErr = resp.Body.Close()
		}
		if doErr == nil && resp == nil {
			return st, viol("C16 C17 C18 C19 C20", "step %d: Do returned no response and no error", i)
		}
		if doErr != nil && resp != nil {
			return st, viol("C18", "step %d: Do returned a response and an error", i)
		}
		pre := fmt.Sprintf("step %d (%s, Cache-Control %q): ", i, key, before["Cache-Control"])
		if s := equalHeader(req.Header, before); s != "" && (len(req.Header) > 0 || len(before) > 0) {
			return st, viol("C16 C18", "%sthe caller's request was modified: %s", pre, s)
		}
		if closeErr != nil && (len(calls) == 0 || calls[len(calls)-1].rec == nil || !calls[len(calls)-1].rec.broken) {
			return st, viol("C19 C18", "%sclosing the body: %v", pre, closeErr)
		}

		// A request that may not be cached.
		if !q.cacheable() {
			st.Uncacheable++
			if err := passed(pre, q, before, calls, resp, body, readErr, doErr, "C16"); err != nil {
				return st, err
			}
			if resp != nil && resp.Header.Get("X-From-Cache") != "" {
				return st, viol("C16", "%sthe response of a request that is not to be cached is marked as cached", pre)
			}
			continue
		}

		e := stored[key]
		now := time.Now()
		v := p.decide(q, e, now, false)
		if o := p.decide(q, e, now, true); o != v && (v == hit) != (len(calls) == 0) {
			v = o
		}
		if len(calls) == 0 {
			// served without the origin.
			if doErr != nil {
				return st, viol("C17 C18 C19", "%serror without asking the origin: %v", pre, doErr)
			}
			if err := p.checkReuse(pre, w, q, key, e, v, now, resp); err != nil {
				return st, err
			}
			st.Hits++
			if s := sameResponse(resp, body, readErr, e); s != "" {
				props := "C19"
				if e.touched {
					props = "C18 C19"
				}
				return st, viol(props, "%sthe cached response (stored in step %d) differs: %s", pre, e.rec.step, s)
			}
			if resp.Header.Get("X-From-Cache") != "1" {
				return st, viol("C19", "%sa cached response is not marked", pre)
			}
			continue
		}
		switch v {
		case hit:
			props := "C17"
			if e.touched {
				props = "C17 C18"
			}
			if e.vary != 0 {
				props += " C20"
			}
			return st, viol(props, "%sthe origin was asked although the response stored in step %d is fresh (age %s, %s)", pre, e.rec.step, now.Sub(e.date), describe(e))
		case miss:
			if e != nil && !p.Agg && !e.matches(q) {
				st.VaryMiss++
			}
			if err := passed(pre, q, before, calls, resp, body, readErr, doErr, "C16 C18 C20"); err != nil {
				return st, err
			}
			if doErr != nil {
				st.Errors++
				continue
			}
			r := calls[0].rec
			if p.storable(q, r) && !r.broken {
				stored[key] = newEntry(q, r)
			} else {
				st.Unstorable++
			}
		case validate:
			st.Validations++
			if s := equalHeader(calls[0].header, wantHeader(before, e)); s != "" {
				return st, viol("C18", "%svalidating the response of step %d: the origin saw: %s", pre, e.rec.step, s)
			}
			if calls[0].method != req.Method || calls[0].url != req.URL.String() {
				return st, viol("C18", "%svalidated with %s %s", pre, calls[0].method, calls[0].url)
			}
			r := calls[0].rec
			// a 304 that the caller's own condition caused says nothing about the entry.
			foreign := r != nil && r.status == 304 && !selects(r.header, e.header)
			if foreign {
				st.Replaced++
				last := calls[len(calls)-1].rec
				if last == nil || doErr != nil {
					continue
				}
				if resp.StatusCode != last.status || !bytes.Equal(body, last.body) && readErr == nil && !last.broken {
					return st, viol("C18", "%sthe origin answered 304 for another version than the stored one, and the caller got status %d and a body of %d bytes that the origin did not send for it", pre, resp.StatusCode, len(body))
				}
				// what is stored now is not determined.
				delete(stored, key)
				return st, nil
			}
			if len(calls) != 1 {
				return st, viol("C18", "%sthe origin was asked %d times", pre, len(calls))
			}
			switch {
			case r == nil:
				st.Errors++
				if doErr == nil {
					return st, viol("C18", "%sthe validation failed (%v) and the caller got status %d", pre, calls[0].err, resp.StatusCode)
				}
				if !errors.Is(doErr, ErrOrigin) {
					return st, viol("C18", "%sthe validation failed with %v and the caller got %v", pre, calls[0].err, doErr)
				}
			case doErr != nil:
				return st, viol("C18", "%sthe origin answered the validation with %d and the caller got the error %v", pre, r.status, doErr)
			case r.status == 304:
				st.NotMod++
				n := e.update(q, r)
				if s := sameResponse(resp, body, readErr, n); s != "" {
					return st, viol("C18", "%sthe response of step %d was validated and differs now: %s", pre, e.rec.step, s)
				}
				stored[key] = n
			case r.status >= 500 && r.status < 600 && q.CC.IfError:
				st.IfError++
				if s := sameResponse(resp, body, readErr, e); s != "" {
					return st, viol("C18", "%sthe origin failed with %d, the response of step %d was to be served and differs: %s", pre, r.status, e.rec.step, s)
				}
			default:
				st.Replaced++
				if s := sameRec(resp, body, readErr, r); s != "" {
					return st, viol("C18", "%sthe origin answered the validation with %d and the caller got something else: %s", pre, r.status, s)
				}
				if (r.status < 500 || r.status > 599) && p.storable(q, r) && !r.broken {
					n := newEntry(q, r)
					n.touched = true
					stored[key] = n
				}
			}
		}
	}
	return st, nil
}

func selects(a, b http.Header) bool {
	for _, k := range []string{"ETag", "Last-Modified"} {
		x, y := strings.TrimPrefix(a.Get(k), "W/"), strings.TrimPrefix(b.Get(k), "W/")
		if x != "" && y != "" {
			return x == y
		}
	}
	return true
}

func describe(e *entry) string {
	return fmt.Sprintf("Date %q, Cache-Control %q, Expires %q", e.header.Get("Date"), e.header["Cache-Control"], e.header.Get("Expires"))
}

// passed checks a request that was to be passed to the origin as it is.
func passed(pre string, q Req, before http.Header, calls []call, resp *http.Response, body []byte, readErr, doErr error, props string) error {
	if len(calls) != 1 {
		return viol(props, "%sthe origin was asked %d times instead of once", pre, len(calls))
	}
	c := calls[0]
	if c.method != q.Method || c.url != URLs[q.URL%len(URLs)] {
		return viol(props, "%sthe origin was asked for %s %s", pre, c.method, c.url)
	}
	if s := equalHeader(c.header, before); s != "" {
		return viol(props, "%sthe request was to be passed on unchanged, the origin saw: %s", pre, s)
	}
	if c.rec == nil {
		if doErr == nil || !errors.Is(doErr, c.err) {
			return viol(props, "%sthe origin failed with %v and the caller got %v", pre, c.err, doErr)
		}
		return nil
	}
	if doErr != nil {
		return viol(props, "%serror although the origin answered: %v", pre, doErr)
	}
	if s := sameRec(resp, body, readErr, c.rec); s != "" {
		return viol(props+" C19", "%sthe caller did not get what the origin sent: %s", pre, s)
	}
	return nil
}

// checkReuse says why the response may not be reused.
func (p Plan) checkReuse(pre string, w *World, q Req, key string, e *entry, v verdict, now time.Time, resp *http.Response) error {
	if v == hit && e != nil {
		// the entry is to be used: is it this one?
		if resp.Header.Get("X-Id") == e.header.Get("X-Id") {
			return nil
		}
	}
	id, _ := strconv.Atoi(resp.Header.Get("X-Id"))
	if id < 1 || id > len(w.recs) {
		return viol("C19 C18 C20", "%sserved a response that the origin never sent (X-Id %q)", pre, resp.Header.Get("X-Id"))
	}
	r := w.recs[id-1]
	rk := r.method + " " + r.url
	switch {
	case rk != key:
		return viol("C20", "%sserved the response to %s of step %d", pre, rk, r.step)
	case !r.req.cacheable():
		return viol("C16", "%sserved the response of step %d, whose request was not to be cached", pre, r.step)
	case r.status == 304:
		if e == nil {
			return viol("C16 C18", "%sserved a 304", pre)
		}
	case !p.storable(r.req, r):
		return viol("C16", "%sserved the response of step %d, which may not be stored (status %d, %v)", pre, r.step, r.status, r.header)
	case r.broken:
		return viol("C19", "%sserved the response of step %d, whose body could not be read", pre, r.step)
	}
	if e == nil {
		return viol("C16 C19", "%sserved a response that was not to be stored", pre)
	}
	if !p.Agg && !e.matches(q) {
		return viol("C20", "%sserved the response of step %d, which varies by %q: Accept-Language %q and %q, X-Tenant %q and %q",
			pre, e.rec.step, varyLines(e.vary), langs[e.lang%len(langs)], langs[q.Lang%len(langs)], tenants[e.tenant%len(tenants)], tenants[q.Tenant%len(tenants)])
	}
	if v != hit {
		return viol("C17", "%sserved the response of step %d without asking the origin although it is not fresh for the request (age %s, %s)", pre, e.rec.step, now.Sub(e.date), describe(e))
	}
	return viol("C18 C19", "%sserved the response with X-Id %d instead of %s", pre, id, e.header.Get("X-Id"))
}

func sameRec(resp *http.Response, body []byte, readErr error, r *rec) string {
	if resp.StatusCode != r.status {
		return fmt.Sprintf("status %d instead of %d", resp.StatusCode, r.status)
	}
	if s := SameHeader(resp.Header, r.header); s != "" {
		return s
	}
	if r.broken {
		if readErr == nil {
			return "the body's read error is lost"
		}
		if !bytes.HasPrefix(r.body, body) {
			return "the body's bytes before the error differ"
		}
		return ""
	}
	if readErr != nil {
		return fmt.Sprintf("reading the body: %v", readErr)
	}
	if !bytes.Equal(body, r.body) {
		return fmt.Sprintf("body of %d bytes instead of %d: %.80q instead of %.80q", len(body), len(r.body), body, r.body)
	}
	return ""
}

func sameResponse(resp *http.Response, body []byte, readErr error, e *entry) string {
	if resp.StatusCode != e.rec.status {
		return fmt.Sprintf("status %d instead of %d", resp.StatusCode, e.rec.status)
	}
	want := http.StatusText(e.rec.status)
	if e.rec.plan.Custom != "" {
		want = e.rec.plan.Custom
	}
	if s := fmt.Sprintf("%d %s", e.rec.status, want); resp.Status != s {
		return fmt.Sprintf("status %q instead of %q", resp.Status, s)
	}
	if s := SameHeader(resp.Header, e.header); s != "" {
		return s
	}
	if readErr != nil {
		return fmt.Sprintf("reading the body: %v", readErr)
	}
	if !bytes.Equal(body, e.rec.body) {
		return fmt.Sprintf("body of %d bytes instead of %d: %.80q instead of %.80q", len(body), len(e.rec.body), body, e.rec.body)
	}
	return ""
}

// ---- generators -------------------------------------------------------------

// Focus weighs the generator towards a property.
type Focus struct {
	Uncacheable int // percent of requests that may not be cached
	Unstorable  int // percent of responses that may not be stored
	Vary        int // percent
	URLs        int // how many URLs
	Directives  int // percent of requests with freshness directives
	Validation  int // percent of steps that make what is stored stale
	Faults      int // percent
	Bodies      int // percent of failing bodies
	Own         int // percent
}

func pct(t *rapid.T, n int) bool { return n > 0 && rapid.IntRange(0, 99).Draw(t, "pct") >= 100-n }

// eons are long times, up to the longest that a directive can tell.
var eons = []int64{2_000_000, 31_536_000, 40_000_000, 1 << 25, 1<<31 - 1, 1 << 31, 1 << 30}

var ages = []int64{5, 10, 60, 1, 2, 3600, 9999999999, 100000000000000, 86400}

func age(t *rapid.T) *int64 {
	v := rapid.SampledFrom(ages).Draw(t, "age")
	return &v
}

func form(t *rapid.T) uint64 {
	if rapid.Bool().Draw(t, "plain") {
		return 0
	}
	return uint64(rapid.IntRange(1, 1<<30).Draw(t, "form"))
}

// GenResp generates an origin response.
func GenResp(t *rapid.T, f Focus) Resp {
	r := Resp{Status: 200, Size: rapid.SampledFrom([]int{60, 0, 1, 300, 5000, 40000}).Draw(t, "size"), Chunked: rapid.Bool().Draw(t, "chunked")}
	if rapid.IntRange(0, 199).Draw(t, "huge") == 199 {
		r.Size = rapid.SampledFrom([]int{70_000, 140_000, 600_000, 1_100_000, 3_300_000}).Draw(t, "hugesize")
	}
	r.CC.Form = form(t)
	switch rapid.IntRange(0, 9).Draw(t, "life") {
	case 0, 1, 2, 3, 4:
		r.CC.MaxAge = age(t)
	case 5, 6:
		r.Expires = age(t)
		if *r.Expires > 1000000 {
			*r.Expires = 60
		}
	case 7, 8:
		r.CC.MaxAge = age(t)
		v := rapid.SampledFrom([]int64{5, 60, 1, -10, 0, 3600}).Draw(t, "exp")
		r.Expires = &v
	case 9:
		r.CC.MaxAge = age(t)
		r.BadExp = true
	}
	if rapid.IntRange(0, 7).Draw(t, "old") == 0 {
		r.DateOff = rapid.SampledFrom([]int64{1, 4, 5, 9, 100, -1, -5, -60, -86400}).Draw(t, "dateoff")
	}
	r.CC.Junk = rapid.SampledFrom([]int{0, 0, 1, 2, 4, 8, 15, 16, 32, 64, 127}).Draw(t, "junk")
	switch rapid.IntRange(0, 11).Draw(t, "rdir") {
	case 0:
		r.CC.NoCache = true
	case 1, 2:
		r.CC.MustReval = true
	case 3:
		r.CC.IfError = true
	}
	if rapid.IntRange(0, 9).Draw(t, "st") == 0 {
		r.Status = rapid.SampledFrom([]int{203, 204, 300, 301, 404, 405, 410, 414, 501}).Draw(t, "okstatus")
	}
	if pct(t, f.Unstorable) {
		switch rapid.IntRange(0, 6).Draw(t, "unst") {
		case 0:
			r.CC.NoStore = true
		case 1:
			r.Status = rapid.SampledFrom([]int{201, 202, 205, 302, 303, 307, 308, 400, 401, 403, 429, 500, 502, 503, 226, 402, 406, 415, 418, 421, 451, 504, 505, 511, 599, 999}).Draw(t, "nostatus")
		case 2:
			r.Date = 1
		case 3:
			r.Date = 2
		case 4:
			r.CC.MaxAge, r.Expires = nil, nil
		case 5:
			z := rapid.SampledFrom([]int64{0, -5}).Draw(t, "zero")
			r.CC.MaxAge = &z
		case 6:
			z := rapid.SampledFrom([]int64{0, -60}).Draw(t, "zeroexp")
			r.CC.MaxAge, r.Expires = nil, &z
			if rapid.Bool().Draw(t, "bad") {
				r.Expires, r.CC.BadAge = nil, true
			}
		}
	}
	if pct(t, f.Vary) {
		r.Vary = rapid.SampledFrom([]int{1, 2, 4, 5, 7, 3, 6}).Draw(t, "vary")
	}
	switch rapid.IntRange(0, 5).Draw(t, "validators") {
	case 0:
		r.NoTag = true
	case 1:
		r.NoLM = true
	case 2:
		r.NoTag, r.NoLM = rapid.Bool().Draw(t, "none"), true
	case 3:
		r.Weak = true
	}
	r.Extra = rapid.IntRange(0, 3).Draw(t, "extra")
	r.Bump = rapid.IntRange(0, 2).Draw(t, "bump") == 0
	r.Hop = rapid.Bool().Draw(t, "hop")
	r.Bare304 = rapid.IntRange(0, 3).Draw(t, "bare") == 0
	if rapid.IntRange(0, 9).Draw(t, "reason") == 0 {
		r.Custom = "All Is Well"
	}
	if pct(t, f.Faults) {
		r.Fail = rapid.SampledFrom([]int{1, 500, 503, 599}).Draw(t, "failkind")
	}
	if pct(t, f.Bodies) {
		r.Body = rapid.IntRange(1, r.Size+40).Draw(t, "bodyfail")
	}
	return r
}

// Gen generates a history.
func Gen(t *rapid.T, f Focus) *Plan {
	p := &Plan{Agg: rapid.IntRange(0, 3).Draw(t, "agg") == 0, Storage: rapid.IntRange(0, 1).Draw(t, "storage")}
	if p.Agg {
		p.AggAge = rapid.SampledFrom([]int64{0, 10, 60, -1, 7200}).Draw(t, "aggage")
	}
	n := rapid.IntRange(2, 12).Draw(t, "n")
	if rapid.IntRange(0, 79).Draw(t, "longer") == 79 {
		n = rapid.IntRange(15, 40).Draw(t, "nlong")
	}
	urls := rapid.SliceOfN(rapid.IntRange(0, f.URLs-1), 1, 3).Draw(t, "urls")
	epochs := 0 // the clock ends in 2262
	if rapid.IntRange(0, 24).Draw(t, "epochs") == 24 {
		epochs = 3
	}
	for i := 0; i < n; i++ {
		q := Req{Method: "GET", URL: rapid.SampledFrom(urls).Draw(t, "url")}
		if rapid.IntRange(0, 4).Draw(t, "head") == 0 {
			q.Method = "HEAD"
		}
		q.CC.Form = form(t)
		q.Adv = rapid.SampledFrom([]int64{0, 0, 1, 2, 4, 5, 6, 9, 10, 11, 3, 54, 55, 59, 60, 61, 3599, 3600, 86399, 86400, 86401}).Draw(t, "adv")
		if pct(t, f.Directives) {
			switch rapid.IntRange(0, 8).Draw(t, "qdir") {
			case 0:
				v := rapid.SampledFrom([]int64{0, 1, 3, 5, 10, 3600, 9999999999}).Draw(t, "qage")
				q.CC.MaxAge = &v
			case 1:
				v := rapid.SampledFrom([]int64{1, 3, 5, 60, 0}).Draw(t, "minfresh")
				q.CC.MinFresh = &v
			case 2:
				v := rapid.SampledFrom([]int64{1, 3, 5, 60, 9999999999}).Draw(t, "maxstale")
				q.CC.MaxStale = &v
			case 3:
				q.CC.StaleBare = true
			case 4:
				q.CC.NoCache = true
			case 5:
				q.Pragma = true
			case 6:
				a, b := int64(rapid.IntRange(0, 12).Draw(t, "qage2")), int64(rapid.IntRange(0, 6).Draw(t, "ms2"))
				q.CC.MaxAge, q.CC.MaxStale = &a, &b
			case 7:
				a, b := int64(rapid.IntRange(0, 12).Draw(t, "mf3")), int64(rapid.IntRange(0, 6).Draw(t, "ms3"))
				q.CC.MinFresh, q.CC.MaxStale = &a, &b
			case 8:
				a, b := int64(rapid.IntRange(0, 12).Draw(t, "qage4")), int64(rapid.IntRange(0, 6).Draw(t, "mf4"))
				q.CC.MaxAge, q.CC.MinFresh = &a, &b
			}
		}
		if pct(t, f.Validation) {
			if rapid.Bool().Draw(t, "force") {
				q.CC.NoCache = true
			} else {
				z := int64(0)
				q.CC.MaxAge = &z
				q.CC.MaxStale, q.CC.StaleBare = nil, false
			}
		}
		q.CC.IfError = pct(t, f.Faults)
		q.CC.Junk = rapid.SampledFrom([]int{0, 0, 0, 2, 8, 16, 32}).Draw(t, "qjunk")
		if pct(t, f.Uncacheable) {
			switch rapid.IntRange(0, 5).Draw(t, "unc") {
			case 0:
				q.Method = rapid.SampledFrom([]string{"POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "PURGE", "GETX", "get"}).Draw(t, "method")
			case 1, 2:
				q.CC.NoStore = true
			case 3:
				q.Range = true
			case 4:
				q.CRange = true
			case 5:
				q.Auth = true
			}
		}
		if pct(t, f.Own) {
			q.Own = rapid.IntRange(1, 4).Draw(t, "own")
		}
		if f.Vary > 0 {
			q.Lang = rapid.IntRange(0, len(langs)-1).Draw(t, "lang")
			q.Tenant = rapid.IntRange(0, len(tenants)-1).Draw(t, "tenant")
			q.Split = rapid.Bool().Draw(t, "split")
			if rapid.Bool().Draw(t, "same") {
				q.Lang, q.Tenant = 1, 1
			}
		}
		q.NilHdr = rapid.IntRange(0, 5).Draw(t, "nilhdr") == 0
		q.Resp = GenResp(t, f)
		if epochs > 0 {
			if i > 0 && rapid.Bool().Draw(t, "epoch") {
				epochs--
				q.Adv = rapid.SampledFrom(eons).Draw(t, "eon")
			}
			if q.Resp.CC.MaxAge != nil && *q.Resp.CC.MaxAge > 0 && rapid.IntRange(0, 3).Draw(t, "longlife") != 0 {
				v := rapid.SampledFrom(eons).Draw(t, "eonage") + int64(rapid.IntRange(-1, 1).Draw(t, "around"))
				q.Resp.CC.MaxAge = &v
				if rapid.IntRange(0, 4).Draw(t, "hugeage") == 0 {
					q.Resp.CC.MaxAge, q.Resp.CC.HugeAge = nil, true
				}
			} else if q.Resp.CC.MaxAge == nil && q.Resp.Expires != nil && *q.Resp.Expires > 0 {
				v := rapid.SampledFrom(eons).Draw(t, "eonexp") + int64(rapid.IntRange(-1, 1).Draw(t, "around"))
				q.Resp.Expires = &v
			}
			if q.Resp.DateOff > 0 {
				q.Resp.DateOff = rapid.SampledFrom(eons).Draw(t, "eonold")
			}
		}
		p.Steps = append(p.Steps, q)
	}
	return p
}

// Begin starts step i and returns its request.
func (w *World) Begin(i int, q Req) (*http.Request, error) {
	w.step, w.cur = i, q
	return w.request(q, nil)
}

// Undrained returns the bodies after the first n that were closed before they were read
// to their end, other than keep.
func (w *World) Undrained(n int, keep *Body) *Body {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, b := range w.Bodies[n:] {
		b.mu.Lock()
		bad := b != keep && b.Closed > 0 && !b.EOF && !b.Failed
		b.mu.Unlock()
		if bad {
			return b
		}
	}
	return nil
}

// Open returns the bodies that are not closed.
func (w *World) Open() (ret []*Body) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, b := range w.Bodies {
		b.mu.Lock()
		if b.Closed == 0 {
			ret = append(ret, b)
		}
		b.mu.Unlock()
	}
	return ret
}
