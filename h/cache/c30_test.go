package cache

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/yields/ant/antcache"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/zsched"
	"pgregory.net/rapid"
)

// C30: failing storages, through the cache's public surface. The storage is the
// caller's own: every operation of the history says what its load and its
// store do, the model keeps what the storage holds.

func init() {
	vf.Register(vf.Check{
		ID: "C30",
		Rule: "histories of 2-10 requests (GET and HEAD, some URLs, standard and aggressive strategy, virtual time) through a cache whose storage fails to load (error, error with bytes, entries that are no responses, truncated entries) or to store (with and without having stored), whose origin answers validations with 304, 200, 500 or an error, and whose bodies are read, abandoned, closed twice or fail to close; " +
			"non-trivial: at least one storage fault that mattered and, after it, a response served from the cache or a store",
		Assumptions: []string{
			"whether the origin is asked when a load fails is left open, as is whether an entry that is no response gives an error or a new response of the origin",
			"bytes of an entry that changed but still read as a response cannot be told and are not tried",
		},
		Subs: []vf.Sub{vf.S("faults", 40000, 900000, genC30, runC30)},
	})
}

type c30Op struct {
	URL    int    `json:"u"`
	Head   bool   `json:"head,omitempty"`
	Wait   int    `json:"wait,omitempty"` // seconds before it
	NC     bool   `json:"nc,omitempty"`   // no-cache
	Load   int    `json:"load,omitempty"` // 1 error, 2 error with bytes, 3 garbage, 4 truncated
	Junk   []byte `json:"junk,omitempty"`
	Frac   int    `json:"frac,omitempty"`
	Store  int    `json:"store,omitempty"` // 1 error, 2 error though stored
	Kind   int    `json:"kind,omitempty"`  // of error
	Ans    int    `json:"ans,omitempty"`   // when validated: 0 304, 1 200, 2 500, 3 error
	Down   bool   `json:"down,omitempty"`  // the origin fails
	Broken bool   `json:"broken,omitempty"`
	Unread int    `json:"unread,omitempty"` // bytes left unread
	Twice  bool   `json:"twice,omitempty"`
	Shut   bool   `json:"shut,omitempty"` // closing the origin's body fails
	Len    int    `json:"len"`
	Life   int    `json:"life"` // max-age
	Chunk  bool   `json:"chunk,omitempty"`
	Drop   bool   `json:"drop,omitempty"` // the body is never closed
}

type c30P struct {
	Agg bool    `json:"agg,omitempty"`
	Ops []c30Op `json:"ops"`
}

func genC30(t *rapid.T) *c30P {
	p := &c30P{Agg: rapid.IntRange(0, 4).Draw(t, "agg") == 0}
	one := func(n int, l string) bool { return rapid.IntRange(0, n-1).Draw(t, l) == n-1 }
	n := rapid.IntRange(2, 10).Draw(t, "n")
	calm := rapid.IntRange(0, 2).Draw(t, "calm") // how rare faults are
	for i := 0; i < n; i++ {
		o := c30Op{URL: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "url"), Head: one(8, "head"),
			Wait: rapid.SampledFrom([]int{0, 0, 10, 20, 100}).Draw(t, "wait"), NC: one(10, "nc"),
			Ans: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "ans"), Down: one(15, "down"),
			Len:  rapid.SampledFrom([]int{5, 0, 1, 700, 5000}).Draw(t, "len"),
			Life: rapid.SampledFrom([]int{5, 15, 55, 1000}).Draw(t, "life"), Chunk: one(3, "chunk"),
			Twice: one(6, "twice"), Shut: one(8, "shut"), Broken: one(15, "broken"), Drop: one(15, "drop")}
		if one(8, "unread") {
			o.Unread = rapid.IntRange(1, 10).Draw(t, "left")
		}
		if one(2+calm, "loads") {
			o.Load = rapid.IntRange(1, 4).Draw(t, "load")
			switch o.Load {
			case 3:
				if rapid.Bool().Draw(t, "random") {
					o.Junk = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "junk")
				} else {
					o.Junk = []byte(rapid.SampledFrom([]string{"", "\r\n", "HTTP", "HTTP/1.1\r\n\r\n", "HTTP/1.1 200", "HTTP/1.1 20x OK\r\n\r\n", "HTTP/9.9.9 200 OK\r\n\r\n",
						"HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n", "HTTP/1.1 200 OK\r\nno header\r\n\r\n", "<html></html>", "GET / HTTP/1.1\r\nHost: x\r\n\r\n",
						"HTTP/1.1 200 OK\r\nContent-Length: 3\r\nContent-Length: 4\r\n\r\nabc", "HTTP/1.1 200 OK\r\nTransfer-Encoding: x\r\n\r\n", "\x00\x00\x00\x00"}).Draw(t, "text"))
				}
			case 4:
				o.Frac = rapid.IntRange(0, 999).Draw(t, "frac")
			}
		}
		if one(2+calm, "stores") {
			o.Store = rapid.IntRange(1, 2).Draw(t, "store")
		}
		o.Kind = rapid.IntRange(0, 7).Draw(t, "kind")
		p.Ops = append(p.Ops, o)
	}
	return p
}

// storageErr is an error of the storage or the origin.
type storageErr struct {
	what string
	as   error
}

func (e *storageErr) Error() string { return e.what }
func (e *storageErr) Is(t error) bool {
	return e.as != nil && t == e.as
}

func newStorageErr(kind int, what string) error {
	e := &storageErr{what: what}
	switch kind {
	case 1:
		e.as = context.Canceled
	case 2:
		e.as = io.EOF
	case 3:
		e.as = io.ErrUnexpectedEOF
	case 4:
		return fmt.Errorf("wrapped: %w", e)
	case 5:
		e.as = context.DeadlineExceeded
	case 6:
		e.as = fs.ErrNotExist
	case 7:
		e.as = fs.ErrClosed
	}
	return e
}

// same reports whether err carries want.
func carries(err, want error) bool {
	var a, b *storageErr
	if !errors.As(want, &b) {
		return false
	}
	// errors.As stops at the first storageErr: walk all of them.
	if errors.Is(err, b) {
		return true
	}
	return errors.As(err, &a) && a == b
}

type c30Rec struct {
	id   int
	url  string
	head bool
	len  int
	life int
	date time.Time
	body []byte
}

type c30Body struct {
	r      io.Reader
	closed int
	eof    bool
	err    error
	fail   error
}

func (b *c30Body) Read(p []byte) (int, error) {
	if b.closed > 0 {
		return 0, errors.New("read after close")
	}
	n, err := b.r.Read(p)
	if err == io.EOF {
		b.eof = true
		if b.fail != nil {
			return n, b.fail
		}
	}
	return n, err
}

func (b *c30Body) Close() error {
	b.closed++
	return b.err
}

type c30Storage struct {
	held  map[uint64][]byte
	copy  map[uint64][]byte
	op    *c30Op
	err   error // of load
	serr  error // of store
	ctx   any
	keys  []uint64
	puts  []uint64
	vals  [][]byte
	cut   bool
	early bool
	body  *c30Body
	bad   string
}

type ctxKey struct{}

func (s *c30Storage) Load(ctx context.Context, k uint64) ([]byte, error) {
	if got := ctx.Value(ctxKey{}); got != s.ctx {
		s.bad = fmt.Sprintf("the storage's Load got another context than the request's (value %v, want %v)", got, s.ctx)
	}
	s.keys = append(s.keys, k)
	v, ok := s.held[k]
	if ok && !bytes.Equal(v, s.copy[k]) {
		s.bad = fmt.Sprintf("the bytes that were given to the storage changed: %q, stored %q", v, s.copy[k])
	}
	switch s.op.Load {
	case 1:
		return nil, s.err
	case 2:
		if !ok {
			v = []byte("HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx")
		}
		return v, s.err
	case 3:
		return append([]byte{}, s.op.Junk...), nil
	case 4:
		if ok {
			n := len(v) * s.op.Frac / 1000
			s.cut = true
			return append([]byte{}, v[:n]...), nil
		}
	}
	if !ok {
		return nil, nil
	}
	return v, nil
}

func (s *c30Storage) Store(ctx context.Context, k uint64, v []byte) error {
	if got := ctx.Value(ctxKey{}); got != s.ctx {
		s.bad = fmt.Sprintf("the storage's Store got another context than the request's (value %v, want %v)", got, s.ctx)
	}
	if s.body != nil && s.body.closed == 0 {
		s.early = true
	}
	s.puts = append(s.puts, k)
	s.vals = append(s.vals, v)
	if s.op.Store != 1 {
		s.held[k] = v
		s.copy[k] = append([]byte{}, v...)
	}
	if s.op.Store != 0 {
		return s.serr
	}
	return nil
}

type doFunc func(*http.Request) (*http.Response, error)

func (f doFunc) Do(r *http.Request) (*http.Response, error) { return f(r) }

var c30URLs = []string{"http://a.test/x", "http://a.test/y?q=1", "https://b.test/x"}

func runC30(c *vf.Case, p *c30P) error {
	return vf.Bubble(c, zsched.Sched{}, func() error { return p.run(c) })
}

func (p *c30P) run(c *vf.Case) error {
	st := &c30Storage{held: map[uint64][]byte{}, copy: map[uint64][]byte{}}
	model := map[string]*c30Rec{}
	keys := map[string]uint64{}
	var (
		o       *c30Op
		asked   []*c30Rec // the origin's complete answers during the operation
		reqs    []*http.Request
		codes   []int
		bodies  []*c30Body
		origErr error
		shutErr error
		readErr error
		ids     int
	)
	origin := doFunc(func(req *http.Request) (*http.Response, error) {
		reqs = append(reqs, req)
		cond := req.Header.Get("If-None-Match") != ""
		if o.Down || cond && o.Ans == 3 {
			codes = append(codes, 0)
			return nil, origErr
		}
		h := http.Header{"Date": {time.Now().UTC().Format(http.TimeFormat)}}
		code := 200
		ids++
		rec := &c30Rec{id: ids, url: req.URL.String(), head: req.Method == "HEAD", len: o.Len, life: o.Life, date: time.Now()}
		rec.body = []byte(strings.Repeat(strconv.Itoa(ids)+".", o.Len/2+1)[:o.Len])
		if cond && o.Ans == 0 {
			code = 304
			rec = nil
			h.Set("ETag", req.Header.Get("If-None-Match"))
		} else if cond && o.Ans == 2 {
			code = 500
			h.Set("X-Id", strconv.Itoa(ids))
		} else {
			h.Set("X-Id", strconv.Itoa(ids))
			h.Set("ETag", fmt.Sprintf(`"%d"`, ids))
			h.Set("Cache-Control", fmt.Sprintf("max-age=%d", o.Life))
		}
		asked = append(asked, rec)
		codes = append(codes, code)
		resp := &http.Response{Status: fmt.Sprintf("%d %s", code, http.StatusText(code)), StatusCode: code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Request: req}
		b := &c30Body{r: strings.NewReader(""), err: shutErr}
		if rec != nil {
			if o.Chunk {
				resp.ContentLength = -1
				resp.TransferEncoding = []string{"chunked"}
			} else {
				resp.ContentLength = int64(rec.len)
				h.Set("Content-Length", strconv.Itoa(rec.len))
			}
			if !rec.head {
				b.r = bytes.NewReader(rec.body)
				if o.Broken {
					b.fail = readErr
				}
			}
		}
		st.body = b
		bodies = append(bodies, b)
		resp.Body = b
		return resp, nil
	})
	opts := []antcache.Option{antcache.WithStorage(st)}
	if p.Agg {
		opts = append(opts, antcache.Aggressive(15*time.Second))
	}
	cache, err := antcache.New(origin, opts...)
	if err != nil {
		return err
	}
	faults, after := 0, 0
	for i := range p.Ops {
		op := p.Ops[i]
		o = &op
		time.Sleep(time.Duration(op.Wait) * time.Second)
		asked, reqs, codes, bodies = nil, nil, nil, nil
		origErr = newStorageErr(op.Kind, "origin down")
		shutErr, readErr = nil, nil
		if op.Shut {
			shutErr = newStorageErr(0, "close failed")
		}
		if op.Broken {
			readErr = newStorageErr(0, "body broke")
		}
		*st = c30Storage{held: st.held, copy: st.copy, op: o, ctx: i,
			err: newStorageErr(op.Kind, "load failed"), serr: newStorageErr(op.Kind, "store failed")}
		u, err := url.Parse(c30URLs[op.URL%len(c30URLs)])
		if err != nil {
			return err
		}
		method := "GET"
		if op.Head {
			method = "HEAD"
		}
		slot := method + " " + u.String()
		ent := model[slot]
		ctx := context.WithValue(context.Background(), ctxKey{}, i)
		req := (&http.Request{Method: method, URL: u, Header: http.Header{}, Host: u.Host, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}).WithContext(ctx)
		if op.NC {
			req.Header.Set("Cache-Control", "no-cache")
		}
		pre := fmt.Sprintf("request %d (%s, load fault %d, store fault %d)", i, slot, op.Load, op.Store)

		resp, doErr := cache.Do(req)

		if st.bad != "" {
			return fmt.Errorf("%s: %s", pre, st.bad)
		}
		if len(st.keys) == 0 {
			return fmt.Errorf("%s: the storage was not asked", pre)
		}
		for _, k := range st.keys {
			if want, ok := keys[slot]; ok && k != want {
				return fmt.Errorf("%s: looked up under key %d, earlier %d", pre, k, want)
			}
			keys[slot] = k
		}
		for other, k := range keys {
			if other != slot && k == keys[slot] {
				return fmt.Errorf("%s: looked up under the key of %s", pre, other)
			}
		}
		if len(st.puts) > 0 {
			return fmt.Errorf("%s: stored before the body was closed", pre)
		}
		if (resp == nil) == (doErr == nil) {
			return fmt.Errorf("%s: response %v with error %v", pre, resp != nil, doErr)
		}
		// What the request must give.
		if op.Load == 1 || op.Load == 2 {
			if doErr == nil {
				return fmt.Errorf("%s: the storage failed to load and the request succeeded with status %d", pre, resp.StatusCode)
			}
			if !carries(doErr, st.err) {
				return fmt.Errorf("%s: the storage's error is not in %q", pre, doErr)
			}
			for _, b := range bodies {
				if b.closed == 0 {
					return fmt.Errorf("%s: the request failed and left the origin's body open", pre)
				}
			}
			faults++
			continue
		}
		lame := op.Load == 3 || st.cut // the entry may or may not be read
		if lame {
			faults++
		}
		var now = time.Now()
		fresh := ent != nil && !op.NC && now.Sub(ent.date) < time.Duration(ent.life)*time.Second
		if p.Agg {
			fresh = ent != nil && !op.NC && now.Sub(ent.date) < 15*time.Second
		}
		want := "miss"
		switch {
		case fresh:
			want = "hit"
		case ent != nil && !p.Agg:
			want = "validate"
		}
		if doErr != nil {
			for _, b := range bodies {
				if b.closed == 0 {
					return fmt.Errorf("%s: the request failed and left the origin's body open", pre)
				}
			}
			for _, code := range codes {
				if code == 0 {
					if !carries(doErr, origErr) {
						return fmt.Errorf("%s: the origin's error is not in %q", pre, doErr)
					}
					doErr = nil
				}
			}
			if doErr != nil && !lame {
				return fmt.Errorf("%s: unexpected error %v", pre, doErr)
			}
			if want == "hit" && !lame {
				return fmt.Errorf("%s: the origin was asked though the stored response is fresh", pre)
			}
			continue
		}
		// Which response it is.
		var src *c30Rec
		fromOrigin, merged, short := false, false, false
		id, _ := strconv.Atoi(resp.Header.Get("X-Id"))
		switch {
		case len(asked) > 0 && asked[len(asked)-1] != nil && asked[len(asked)-1].id == id:
			src, fromOrigin = asked[len(asked)-1], true
		case ent != nil && ent.id == id:
			src = ent
			merged = len(codes) > 0 && codes[len(codes)-1] == 304
			short = st.cut
		default:
			return fmt.Errorf("%s: got response %d, which is neither the stored one nor a new one", pre, id)
		}
		if !lame {
			ok := map[string]bool{
				"miss":     fromOrigin && len(codes) == 1,
				"hit":      !fromOrigin && len(codes) == 0,
				"validate": len(codes) == 1 && (fromOrigin || merged) && reqs[0].Header.Get("If-None-Match") != "",
			}[want]
			if !ok {
				return fmt.Errorf("%s: expected a %s, got response %d (stored %v) after %d requests %v to the origin", pre, want, id, ent != nil, len(codes), codes)
			}
		} else if !fromOrigin && want == "miss" && ent == nil {
			return fmt.Errorf("%s: served a stored response where there is none", pre)
		}
		if got := resp.Header.Get("X-From-Cache"); (got == "1") != !fromOrigin && len(codes) == 0 {
			return fmt.Errorf("%s: X-From-Cache is %q", pre, got)
		}
		code := 200
		if fromOrigin {
			code = codes[len(codes)-1]
		}
		if resp.StatusCode != code {
			return fmt.Errorf("%s: status %d, expected %d", pre, resp.StatusCode, code)
		}
		// Read it.
		wantBody := src.body
		if src.head {
			wantBody = nil
		}
		var got []byte
		var rerr error
		partial := op.Unread > 0 && len(wantBody) > op.Unread
		if partial {
			got = make([]byte, len(wantBody)-op.Unread)
			var n int
			n, rerr = io.ReadFull(resp.Body, got)
			got = got[:n]
		} else {
			got, rerr = io.ReadAll(resp.Body)
		}
		if len(st.puts) > 0 {
			return fmt.Errorf("%s: stored before the body was closed", pre)
		}
		broke := fromOrigin && op.Broken && !src.head
		switch {
		case short:
			if !bytes.HasPrefix(wantBody, got) {
				return fmt.Errorf("%s: a truncated entry gave other bytes: %q of %q", pre, got, wantBody)
			}
			if rerr == nil && !partial && len(got) < len(wantBody) {
				return fmt.Errorf("%s: a truncated entry was served as complete: %d of %d bytes without an error", pre, len(got), len(wantBody))
			}
		case broke && !partial:
			if !carries(rerr, readErr) {
				return fmt.Errorf("%s: the body broke with %v, the reader saw %v", pre, readErr, rerr)
			}
		case rerr != nil:
			return fmt.Errorf("%s: reading the body: %v", pre, rerr)
		case partial && !bytes.HasPrefix(wantBody, got), !partial && !bytes.Equal(got, wantBody):
			return fmt.Errorf("%s: body %q, expected %q", pre, got, wantBody)
		}
		if op.Drop {
			if len(st.puts) > 0 {
				return fmt.Errorf("%s: stored though the body was not closed", pre)
			}
			continue
		}
		cerr := resp.Body.Close()
		if op.Twice {
			resp.Body.Close()
		}
		for j, b := range bodies {
			if b.closed == 0 {
				return fmt.Errorf("%s: the origin's body %d is open after the response was closed", pre, j)
			}
		}
		if st.bad != "" {
			return fmt.Errorf("%s: %s", pre, st.bad)
		}
		storable := (fromOrigin && code == 200 || merged) && !partial && !broke && rerr == nil
		// An empty or HEAD response is complete without being read.
		if src.head && (fromOrigin && code == 200 || merged) {
			storable = true
		}
		if short {
			// whole or not: only the bytes that are given count.
			storable = storable && len(got) == len(wantBody)
		}
		wantPuts := 0
		if storable {
			wantPuts = 1
		}
		if len(st.puts) != wantPuts {
			return fmt.Errorf("%s: stored %d times, expected %d (from origin %v, 304 %v, read %d of %d, error %v)", pre, len(st.puts), wantPuts, fromOrigin, merged, len(got), len(wantBody), rerr)
		}
		if storable {
			if st.early {
				return fmt.Errorf("%s: stored before the origin's body was closed", pre)
			}
			if st.puts[0] != keys[slot] {
				return fmt.Errorf("%s: stored under key %d, looked up under %d", pre, st.puts[0], keys[slot])
			}
			back, err := http.ReadResponse(bufio.NewReader(bytes.NewReader(st.vals[0])), req)
			if err != nil {
				return fmt.Errorf("%s: the stored bytes do not read as a response: %v", pre, err)
			}
			bb, err := io.ReadAll(back.Body)
			if err != nil || !bytes.Equal(bb, wantBody) || back.Header.Get("X-Id") != strconv.Itoa(src.id) || back.StatusCode != 200 {
				return fmt.Errorf("%s: stored response %s with body %q (%v), expected response %d with %q", pre, back.Header.Get("X-Id"), bb, err, src.id, wantBody)
			}
			if op.Store == 0 && cerr != nil && !(fromOrigin && op.Shut) {
				return fmt.Errorf("%s: closing failed though the response was stored: %v", pre, cerr)
			}
			if op.Store != 0 {
				faults++
				if !carries(cerr, st.serr) {
					return fmt.Errorf("%s: the storage failed to store with %q, closing the body returned %v", pre, st.serr, cerr)
				}
			} else if faults > 0 {
				after++
			}
			if op.Store != 1 {
				n := *src
				n.date = now
				model[slot] = &n
			}
		} else if cerr != nil && !(fromOrigin && op.Shut) && !short {
			return fmt.Errorf("%s: closing failed: %v", pre, cerr)
		}
		if fromOrigin && op.Shut && !carries(cerr, shutErr) {
			return fmt.Errorf("%s: the origin's body failed to close, closing the response returned %v", pre, cerr)
		}
		if faults > 0 && want == "hit" && !lame {
			after++
		}
		c.LabelIf(want == "hit" && !lame, "hit")
		c.LabelIf(merged, "304")
		c.LabelIf(storable && op.Store != 0, "store failed")
		c.LabelIf(lame && !fromOrigin, "broken entry served")
	}
	for i := range p.Ops {
		c.LabelIf(p.Ops[i].Load != 0, fmt.Sprintf("load fault %d", p.Ops[i].Load))
	}
	c.LabelIf(p.Agg, "aggressive")
	c.NT(faults > 0 && after > 0)
	return nil
}
