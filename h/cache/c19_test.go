package cache

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing/iotest"
	"time"

	"github.com/yields/ant/antcache"
	"github.com/yields/ant/zverif/cachew"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/zsched"
	"pgregory.net/rapid"
)

func init() {
	history("C19", cachew.Focus{Uncacheable: 5, Unstorable: 10, Vary: 20, URLs: 2, Directives: 5, Validation: 25, Faults: 5, Bodies: 10, Own: 5}, 20000, 300000,
		func(s cachew.Stats) bool { return s.Hits >= 2 },
		"histories of responses in all framings (length, chunked, connection close, none, HTTP/1.0, HTTP/2, decompressed), with arbitrary bodies and headers, read in pieces, abandoned, broken and closed in any order, over several storages; "+
			"also the histories of C16-C20; non-trivial: a response served from the cache after at least two responses were read, or one that was abandoned or broke",
		[]string{"a response of which all bytes but not the end were read, or with a 5xx status, may or may not be stored", "trailers, non-canonical header keys and reads concurrent with a close are left open"},
		vf.S("bodies", 40000, 700000, genC19, runC19))
}

type hdrP struct {
	K int    `json:"k"`
	V string `json:"v"`
}

type exchP struct {
	URL     int    `json:"u"`
	Head    bool   `json:"head,omitempty"`
	Force   bool   `json:"force,omitempty"` // no-cache
	Not     bool   `json:"not,omitempty"`   // a validation is answered by 304
	Framing int    `json:"fr"`
	Status  int    `json:"st"`
	Reason  string `json:"reason,omitempty"`
	Body    []byte `json:"b"`
	Repeat  int    `json:"rep,omitempty"`
	Headers []hdrP `json:"h"`
	Cut     int    `json:"cut,omitempty"` // >0: the wire ends Cut bytes early
	Fail    int    `json:"fail,omitempty"`
	Reader  int    `json:"rd,omitempty"`
	Moved   int    `json:"mv,omitempty"` // the client was redirected
}

// where a client may be redirected to.
var movedTo = []string{"", "http://a.test/z/", "https://b.test/", "http://a.test/x#top", "http://a.test/%C3%A4%2Fb%20c?q=%20;&r=a+b#%C3%A4", "http://a.test/y?z", "http://[::1]:8080/x", "http://u:p@a.test/x?", "http://a.test"}

type actP struct {
	Do   *exchP `json:"do,omitempty"`
	Resp int    `json:"r"` // which open response
	Read int    `json:"n"` // bytes to read, -1: all, -2: close, -3: exactly what is left without the end
}

type c19P struct {
	Storage int    `json:"storage"` // 0 memory, 1 own, 2 disk, 3 disk compressed
	Agg     bool   `json:"agg"`
	Acts    []actP `json:"acts"`
}

var hdrKeys = []string{"X-Test", "Set-Cookie", "Content-Type", "Content-Encoding", "X-Empty", "Server", "Link", "Content-Language", "X-Long", "Location", "X-Ant", "Age"}

func genC19(t *rapid.T) *c19P {
	p := &c19P{Storage: rapid.SampledFrom([]int{0, 1, 0, 2, 3}).Draw(t, "storage"), Agg: rapid.IntRange(0, 3).Draw(t, "agg") == 0}
	n := rapid.IntRange(3, 8).Draw(t, "n")
	opened := 0
	open := map[int]bool{}
	for i := 0; i < n; i++ {
		e := &exchP{URL: rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "url"), Head: rapid.IntRange(0, 9).Draw(t, "head") == 0,
			Force: rapid.IntRange(0, 2).Draw(t, "force") == 0, Not: rapid.Bool().Draw(t, "not"),
			Framing: rapid.IntRange(0, 9).Draw(t, "framing"), Status: 200}
		if rapid.IntRange(0, 5).Draw(t, "st") == 0 {
			e.Status = rapid.SampledFrom([]int{203, 204, 300, 301, 404, 405, 410, 414, 501}).Draw(t, "status")
		}
		if rapid.IntRange(0, 5).Draw(t, "rs") == 0 {
			e.Reason = rapid.SampledFrom([]string{"Fine", "Not  So Fine", "200", "é"}).Draw(t, "reason")
		}
		switch rapid.IntRange(0, 4).Draw(t, "bodykind") {
		case 0:
			e.Body = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")
		case 1:
			e.Body = []byte(rapid.SampledFrom([]string{"", "\r\n", "0\r\n\r\n", "5\r\nhello\r\n0\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc", "\r\n\r\n", "\x00", "\n"}).Draw(t, "tricky"))
		case 2:
			e.Body = []byte("<html><body><a href=/x>x</a></body></html>")
		case 3:
			e.Body = rapid.SliceOfN(rapid.Byte(), 1, 30).Draw(t, "unit")
			e.Repeat = rapid.SampledFrom([]int{10, 200, 3000}).Draw(t, "repeat")
		case 4:
			e.Body = nil
		}
		for j := rapid.IntRange(0, 4).Draw(t, "nh"); j > 0; j-- {
			v := rapid.SampledFrom([]string{"v", "", "a, b", "text/html; charset=utf-8", "gzip", "k=v; Path=/", "\"quoted\"", "ünïcode", "a\tb", "1", "LONG", "X: y", "%0d%0a"}).Draw(t, "hv")
			e.Headers = append(e.Headers, hdrP{rapid.IntRange(0, len(hdrKeys)-1).Draw(t, "hk"), v})
		}
		if rapid.IntRange(0, 7).Draw(t, "cuts") == 0 {
			e.Cut = rapid.IntRange(1, 30).Draw(t, "cut")
		}
		if rapid.IntRange(0, 9).Draw(t, "fails") == 0 {
			e.Fail = rapid.IntRange(1, 60).Draw(t, "fail")
		}
		e.Reader = rapid.IntRange(0, 4).Draw(t, "reader")
		if rapid.IntRange(0, 3).Draw(t, "redirected") == 3 {
			e.Moved = rapid.IntRange(1, len(movedTo)-1).Draw(t, "moved")
		}
		p.Acts = append(p.Acts, actP{Do: e})
		open[opened] = true
		opened++
		// actions on open responses.
		for k := rapid.IntRange(0, 4).Draw(t, "acts"); k > 0; k-- {
			r := rapid.IntRange(0, opened-1).Draw(t, "which")
			if rapid.Bool().Draw(t, "last") {
				r = opened - 1
			}
			p.Acts = append(p.Acts, actP{Resp: r, Read: rapid.SampledFrom([]int{-1, -2, -2, 1, 5, 40, 1000, -3, 0}).Draw(t, "act")})
		}
		if rapid.IntRange(0, 9).Draw(t, "tidy") < 7 {
			p.Acts = append(p.Acts, actP{Resp: opened - 1, Read: -1}, actP{Resp: opened - 1, Read: -2})
		}
	}
	return p
}

// xrec is what the origin sent.
type xrec struct {
	id     int
	key    string
	status int
	text   string
	header http.Header
	body   []byte   // what a reader can get
	broken bool     // reading it ends with an error
	cached *xrec    // served instead (304)
	urls   []string // that it may claim to come from
}

// opened is a response the caller holds.
type opened struct {
	resp   *http.Response
	rec    *xrec // whose content is expected
	got    []byte
	ended  bool // end seen
	failed bool
	closed bool
	store  bool // its close stores it
}

type slot struct {
	cur   *xrec
	maybe []*xrec
}

type c19World struct {
	cur   *exchP
	id    int
	calls int
	last  *xrec
	lastr *http.Response
	recs  map[int]*xrec
	bug   error
}

type zeroReader struct {
	r io.Reader
	n int
}

func (z *zeroReader) Read(p []byte) (int, error) {
	if z.n++; z.n%2 == 1 {
		return 0, nil
	}
	return z.r.Read(p)
}

// eagerReader returns the end, or the error, with the last bytes
// (iotest.DataErrReader loses bytes of readers that do so themselves).
type eagerReader struct {
	r   *bufio.Reader
	err error
}

func (e *eagerReader) Read(p []byte) (int, error) {
	if e.err != nil {
		return 0, e.err
	}
	n, err := e.r.Read(p)
	if n > 0 && err == nil {
		_, err = e.r.Peek(1)
	}
	e.err = err
	return n, err
}

func (e *exchP) content() []byte {
	if e.Repeat > 0 {
		return bytes.Repeat(e.Body, e.Repeat)
	}
	return e.Body
}

func (w *c19World) Do(req *http.Request) (*http.Response, error) {
	e := w.cur
	w.calls++
	w.id++
	r := &xrec{id: w.id, key: req.Method + " " + req.URL.String(), status: e.Status}
	if e.Moved > 0 {
		u, err := url.Parse(movedTo[e.Moved])
		if err != nil {
			vf.Bug("%v", err)
		}
		req = req.Clone(req.Context())
		req.URL, req.Host = u, u.Host
	}
	r.urls = []string{req.URL.String()}
	w.recs[r.id] = r
	w.last = r
	h := http.Header{}
	h.Set("Date", time.Now().UTC().Format(http.TimeFormat))
	h.Set("Cache-Control", "max-age=1000000")
	h.Set("Etag", `"t"`)
	for _, x := range e.Headers {
		v := x.V
		if v == "LONG" {
			v = strings.Repeat("long ", 2000)
		}
		h.Add(hdrKeys[x.K], v)
	}
	not := e.Not && e.Force && req.Header.Get("If-None-Match") != ""
	if not {
		r.status = 304
		h.Set("X-Rev", strconv.Itoa(r.id))
	} else {
		h.Set("X-Id", strconv.Itoa(r.id))
	}
	text := http.StatusText(r.status)
	if e.Reason != "" && !not {
		text = e.Reason
	}
	r.text = fmt.Sprintf("%d %s", r.status, text)
	body := e.content()
	none := not || r.status == 204 || req.Method == "HEAD"
	if none {
		body = nil
	}
	framing := e.Framing
	if none && framing > 4 {
		framing = 0
	}
	proto := "HTTP/1.1"
	if framing == 3 || framing == 4 {
		proto = "HTTP/1.0"
	}
	var resp *http.Response
	if framing <= 4 {
		var b bytes.Buffer
		fmt.Fprintf(&b, "%s %s\r\n", proto, r.text)
		keys := make([]string, 0, len(h))
		for k := range h {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			for _, v := range h[k] {
				fmt.Fprintf(&b, "%s: %s\r\n", k, v)
			}
		}
		cuttable := false
		switch framing {
		case 0, 4:
			if !not && r.status != 204 {
				n := len(body)
				if req.Method == "HEAD" {
					n = len(e.content())
				}
				fmt.Fprintf(&b, "Content-Length: %d\r\n", n)
			}
			b.WriteString("\r\n")
			b.Write(body)
			cuttable = true
		case 1:
			if none {
				b.WriteString("\r\n")
				break
			}
			b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
			for rest := body; len(rest) > 0; {
				n := min(len(rest), 1+len(rest)/2)
				fmt.Fprintf(&b, "%x\r\n%s\r\n", n, rest[:n])
				rest = rest[n:]
			}
			b.WriteString("0\r\n\r\n")
			cuttable = true
		case 2:
			b.WriteString("Connection: close\r\n\r\n")
			b.Write(body)
		case 3:
			b.WriteString("\r\n")
			b.Write(body)
		}
		wire := b.Bytes()
		if e.Cut > 0 && cuttable && !none && len(body) > 0 {
			head := bytes.Index(wire, []byte("\r\n\r\n")) + 4
			if cut := len(wire) - e.Cut; cut >= head {
				wire = wire[:cut]
				r.broken = true
				// what can be read of it is found out by reading it.
				ref, err := http.ReadResponse(bufio.NewReader(bytes.NewReader(wire)), req)
				if err != nil {
					w.bug = err
					return nil, err
				}
				part, err := io.ReadAll(ref.Body)
				if err == nil {
					w.bug = errors.New("a cut response can be read")
				}
				body = part
			}
		}
		var err error
		resp, err = http.ReadResponse(bufio.NewReader(bytes.NewReader(wire)), req)
		if err != nil {
			w.bug = fmt.Errorf("%w in %q", err, wire)
			return nil, err
		}
	} else {
		resp = &http.Response{Status: r.text, StatusCode: r.status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Request: req, ContentLength: -1,
			Body: io.NopCloser(bytes.NewReader(body))}
		switch framing {
		case 5:
			resp.Uncompressed = true
		case 6:
			resp.Proto, resp.ProtoMajor, resp.ProtoMinor = "HTTP/2.0", 2, 0
		case 7:
			resp.Proto, resp.ProtoMajor, resp.ProtoMinor = "HTTP/2.0", 2, 0
			resp.ContentLength = int64(len(body))
			h.Set("Content-Length", strconv.Itoa(len(body)))
		case 8:
			resp.ContentLength = 0
		case 9:
			resp.ContentLength = int64(len(body))
			if len(body) == 0 {
				resp.Body = http.NoBody
			}
		}
	}
	r.body = body
	if !none && resp.Body != http.NoBody {
		rd := io.Reader(resp.Body)
		if e.Fail > 0 && e.Fail <= len(body) {
			rd = io.MultiReader(io.LimitReader(rd, int64(e.Fail-1)), iotest.ErrReader(cachew.ErrBody))
			r.broken = true
			r.body = body[:e.Fail-1]
		}
		switch e.Reader {
		case 1:
			rd = &eagerReader{r: bufio.NewReader(rd)}
		case 2:
			if len(body) < 3000 {
				rd = iotest.OneByteReader(rd)
			}
		case 3:
			rd = iotest.HalfReader(rd)
		case 4:
			rd = &zeroReader{r: rd}
		}
		resp.Body = struct {
			io.Reader
			io.Closer
		}{rd, resp.Body}
	}
	r.header = resp.Header.Clone()
	w.lastr = resp
	return resp, nil
}

func runC19(c *vf.Case, p *c19P) error {
	return vf.Bubble(c, zsched.Sched{}, func() (err error) {
		w := &c19World{recs: map[int]*xrec{}}
		var opts []antcache.Option
		if p.Agg {
			opts = append(opts, antcache.Aggressive(0))
		}
		switch p.Storage {
		case 1:
			opts = append(opts, antcache.WithStorage(&cachew.Own{}))
		case 2, 3:
			dir, err := os.MkdirTemp(vf.Scratch(), "c19")
			if err != nil {
				vf.Bug("%v", err)
			}
			defer os.RemoveAll(dir)
			o := []antcache.DiskOption{antcache.SweepEvery(0)}
			if p.Storage == 3 {
				o = append(o, antcache.Compress())
			}
			d, err := antcache.Open(dir, o...)
			if err != nil {
				return err
			}
			defer d.Close()
			opts = append(opts, antcache.WithStorage(d))
		}
		cache, err := antcache.New(w, opts...)
		if err != nil {
			return err
		}
		c.Label("storage=%d aggressive=%v", p.Storage, p.Agg)
		slots := map[string]*slot{}
		var held []*opened
		hits, abandoned, brokenSeen, reads := 0, 0, 0, 0
		// store models what a close does.
		store := func(o *opened) {
			if !o.store {
				return
			}
			s := slots[o.rec.key]
			switch {
			case o.failed:
				brokenSeen++
			case o.ended && o.rec.status < 500:
				s.cur, s.maybe = o.rec, nil
			case bytes.Equal(o.got, o.rec.body) && !o.rec.broken:
				s.maybe = append(s.maybe, o.rec)
			default:
				abandoned++
			}
		}
		urls := []string{"http://a.test/x", "http://a.test/y?z"}
		for i, a := range p.Acts {
			if a.Do == nil {
				if a.Resp >= len(held) {
					continue
				}
				if err := act(i, a, held[a.Resp], store); err != nil {
					return err
				}
				continue
			}
			e := a.Do
			u, _ := url.Parse(urls[e.URL])
			req := &http.Request{Method: "GET", URL: u, Header: http.Header{}, Host: u.Host}
			if e.Head {
				req.Method = "HEAD"
			}
			if e.Force {
				req.Header.Set("Cache-Control", "no-cache")
			}
			key := req.Method + " " + u.String()
			s := slots[key]
			if s == nil {
				s = &slot{}
				slots[key] = s
			}
			w.cur, w.calls, w.last = e, 0, nil
			resp, err := cache.Do(req)
			if w.bug != nil {
				vf.Bug("origin: %v", w.bug)
			}
			if err != nil {
				return fmt.Errorf("action %d: %w", i, err)
			}
			o := &opened{resp: resp}
			id, err := strconv.Atoi(resp.Header.Get("X-Rev"))
			if err != nil {
				id, _ = strconv.Atoi(resp.Header.Get("X-Id"))
			}
			switch {
			case w.calls == 0:
				// from the cache.
				hits++
				r := w.recs[id]
				ok := false
				for _, x := range append([]*xrec{s.cur}, s.maybe...) {
					ok = ok || x != nil && x == r
				}
				if !ok {
					return fmt.Errorf("action %d: the cache serves response %d, which was not read to its end, or was replaced (stored: %s)", i, id, s)
				}
				s.cur, s.maybe = r, nil
				o.rec = r
				if r.cached != nil {
					c.Label("validated response served")
				}
			case w.last.status == 304:
				// the stored response, updated: its content is that of the stored one.
				if w.calls != 1 || s.cur == nil && len(s.maybe) == 0 {
					return fmt.Errorf("action %d: unexpected validation", i)
				}
				var base *xrec
				for _, x := range append([]*xrec{s.cur}, s.maybe...) {
					if x == nil {
						continue
					}
					if b := w.merged(x); sameX(resp, b) == "" {
						base = b
					}
				}
				if base == nil {
					why := ""
					if s.cur != nil {
						why = sameX(resp, w.merged(s.cur))
					}
					return fmt.Errorf("action %d: the validated response is not the stored one updated (stored: %s): %s", i, s, why)
				}
				o.rec = base
				o.store = true
				w.recs[w.last.id] = base
				c.Label("validation")
			default:
				if w.calls != 1 {
					return fmt.Errorf("action %d: the origin was asked %d times", i, w.calls)
				}
				if !e.Force && s.cur != nil {
					return fmt.Errorf("action %d: the origin was asked although response %d is stored", i, s.cur.id)
				}
				o.rec = w.last
				o.store = true
			}
			if why := sameX(resp, o.rec); why != "" {
				return fmt.Errorf("action %d: response %d differs from what the origin sent: %s", i, o.rec.id, why)
			}
			if resp.Request == nil || resp.Request.URL == nil {
				return fmt.Errorf("action %d: response %d has no request", i, o.rec.id)
			}
			got, known := resp.Request.URL.String(), false
			for _, u := range o.rec.urls {
				known = known || got == u
			}
			if !known {
				return fmt.Errorf("action %d: response %d is said to come from %s, it came from %s (%d requests to the origin)", i, o.rec.id, got, o.rec.urls, w.calls)
			}
			o.rec.urls = []string{got}
			if resp.Request.Method != req.Method {
				return fmt.Errorf("action %d: response %d is said to answer %s", i, o.rec.id, resp.Request.Method)
			}
			c.LabelIf(e.Moved > 0, "redirected")
			held = append(held, o)
			reads++
			c.Label("framing %d status %d", e.Framing, e.Status/100*100)
		}
		for _, o := range held {
			if !o.closed {
				o.resp.Body.Close()
			}
		}
		c.LabelIf(abandoned > 0, "abandoned")
		c.LabelIf(brokenSeen > 0, "broken")
		c.LabelIf(hits > 0, "hit")
		c.NT(hits > 0 && reads >= 3 || abandoned+brokenSeen > 0)
		return nil
	})
}

func (s *slot) String() string {
	var r []string
	if s.cur != nil {
		r = append(r, strconv.Itoa(s.cur.id))
	}
	for _, m := range s.maybe {
		r = append(r, fmt.Sprintf("maybe %d", m.id))
	}
	return strings.Join(r, ", ")
}

// merged is x updated by the last 304.
func (w *c19World) merged(x *xrec) *xrec {
	n := *x
	n.id = w.last.id
	n.cached = x
	n.header = x.header.Clone()
	n.urls = append(append([]string{}, x.urls...), w.last.urls...)
	for k, v := range w.last.header {
		switch k {
		case "Connection", "Content-Length", "Transfer-Encoding":
		default:
			n.header[k] = v
		}
	}
	return &n
}

// sameX compares the head of a response.
func sameX(resp *http.Response, r *xrec) string {
	if resp.StatusCode != r.status {
		return fmt.Sprintf("status %d instead of %d", resp.StatusCode, r.status)
	}
	if strings.TrimSpace(resp.Status) != strings.TrimSpace(r.text) {
		return fmt.Sprintf("status %q instead of %q", resp.Status, r.text)
	}
	return cachew.SameHeader(resp.Header, r.header)
}

func act(i int, a actP, o *opened, store func(*opened)) error {
	switch {
	case a.Read == -2:
		err := o.resp.Body.Close()
		if !o.closed {
			o.closed = true
			store(o)
			if err != nil && o.ended {
				return fmt.Errorf("action %d: closing response %d: %v", i, o.rec.id, err)
			}
		}
		return nil
	case o.closed:
		// what reads after a close give is left open, but they store nothing.
		io.CopyN(io.Discard, o.resp.Body, 100)
		return nil
	}
	var n int
	var err error
	switch {
	case a.Read == -1:
		var b []byte
		b, err = io.ReadAll(o.resp.Body)
		o.got = append(o.got, b...)
		if err == nil {
			err = io.EOF
		}
	case a.Read == -3:
		b := make([]byte, len(o.rec.body)-len(o.got))
		n, err = io.ReadFull(o.resp.Body, b)
		o.got = append(o.got, b[:n]...)
		if err == io.ErrUnexpectedEOF {
			err = io.EOF
			if o.rec.broken {
				err = io.ErrUnexpectedEOF
			}
		}
	default:
		b := make([]byte, a.Read)
		n, err = o.resp.Body.Read(b)
		o.got = append(o.got, b[:n]...)
	}
	if !bytes.HasPrefix(o.rec.body, o.got) {
		return fmt.Errorf("action %d: response %d: the caller read %.200q, the origin sent %.200q", i, o.rec.id, o.got, o.rec.body)
	}
	switch {
	case err == io.EOF:
		if o.failed {
			return nil
		}
		if o.rec.broken {
			return fmt.Errorf("action %d: response %d breaks after %d bytes and the caller read an end after %d", i, o.rec.id, len(o.rec.body), len(o.got))
		}
		if len(o.got) != len(o.rec.body) {
			return fmt.Errorf("action %d: response %d has %d bytes and the caller read an end after %d", i, o.rec.id, len(o.rec.body), len(o.got))
		}
		o.ended = true
	case err != nil:
		if !o.rec.broken {
			return fmt.Errorf("action %d: reading response %d: %v", i, o.rec.id, err)
		}
		o.failed = true
	}
	return nil
}
