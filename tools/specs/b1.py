bugs = []
def bug(**k): bugs.append(k)

bug(id='c07-load-then-store', property='C07', pkg='.', args='-race', edits=[('dedupe.go', '''		if _, exists := d.m.LoadOrStore(u.String(), nil); !exists {
			ret = append(ret, u)''', '''		if _, exists := d.m.Load(u.String()); !exists {
			d.m.Store(u.String(), nil)
			ret = append(ret, u)''')],
    needs='two goroutines de-duplicating the same URL at the same time',
    breaks='the same URL is returned as new to both',
    demo='''
package ant

import (
	"context"
	"net/url"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 30; i++ {
		d := DedupeMap()
		var n int64
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j := 0; j < 500; j++ {
					r, _ := d.Dedupe(context.Background(), URLs{&url.URL{Scheme: "http", Host: "h", Path: "/" + strconv.Itoa(j)}})
					atomic.AddInt64(&n, int64(len(r)))
				}
			}()
		}
		close(start)
		wg.Wait()
		if n != 500 {
			t.Fatalf("%d of 500 URLs are new", n)
		}
	}
}
''')

bug(id='c10-notfound-leak', property='C10', pkg='.', edits=[('fetcher.go', """		f.discard(resp)
""", """		if err, ok := err.(*FetchError); ok && err.Status == 404 {
			return nil, nil
		}

		f.discard(resp)
"""), ('fetcher.go', """		if err, ok := err.(*FetchError); ok {
			if err.Status == 404 {
				return nil, nil
			}
		}

""", "")],
    needs='a page that answers 404', breaks='the body of the answer is neither read nor closed',
    demo='''
package ant

import (
	"context"
	"io"
	"net/http"
	"strings"
	"testing"
)

type demoBody struct {
	io.Reader
	closed bool
}

func (b *demoBody) Close() error { b.closed = true; return nil }

type demoClient struct{ b *demoBody }

func (c demoClient) Do(req *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 404, Header: http.Header{}, Body: c.b, Request: req}, nil
}

func TestDemo(t *testing.T) {
	b := &demoBody{Reader: strings.NewReader("x")}
	f := &Fetcher{Client: demoClient{b}}
	req, _ := http.NewRequest("GET", "http://h/", nil)
	if p, err := f.Fetch(context.Background(), req.URL); p != nil || err != nil {
		t.Fatal(p, err)
	}
	if !b.closed {
		t.Fatal("the body was not closed")
	}
}
''')

bug(id='c04-robots-by-hostname', property='C04', pkg='internal/robots', edits=[
    ('internal/robots/cache.go', '''	if v, ok := c.lru.Get(url.Host); ok {''', '''	if v, ok := c.lru.Get(url.Hostname()); ok {'''),
    ('internal/robots/cache.go', '''		s := &Host{}
		c.lru.Set(url.Host, s)''', '''		s := &Host{}
		c.lru.Set(url.Hostname(), s)'''),
    ('internal/robots/cache.go', '''	s := &Host{data: data}
	c.lru.Set(url.Host, s)''', '''	s := &Host{data: data}
	c.lru.Set(url.Hostname(), s)''')],
    needs='two servers on different ports of one host name with different robots.txt files', breaks='the rules of one are applied to the other',
    demo='''
package robots

import (
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"testing"
)

func TestDemo(t *testing.T) {
	mk := func(body string) *url.URL {
		s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { fmt.Fprint(w, body) }))
		t.Cleanup(s.Close)
		u, _ := url.Parse(s.URL + "/x")
		return u
	}
	a, b := mk("User-agent: *\\nDisallow: /\\n"), mk("User-agent: *\\nDisallow:\\n")
	c := NewCache(http.DefaultClient, 10)
	for u, want := range map[*url.URL]bool{a: false, b: true} {
		got, err := c.Allowed(context.Background(), Request{URL: u, UserAgent: "ant"})
		if err != nil || got != want {
			t.Fatalf("%s: %v %v", u, got, err)
		}
	}
}
''')
