package cache

import (
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"

	"github.com/yields/ant/antcache"
	"github.com/yields/ant/zverif/vf"
	"pgregory.net/rapid"
)

// multiP is a cache that gets to know very many URLs.
type multiP struct {
	N    int    `json:"n"`
	Salt uint64 `json:"salt"`
	Agg  bool   `json:"agg"`
	Head bool   `json:"head"`
}

func genMulti(t *rapid.T) *multiP {
	return &multiP{N: rapid.SampledFrom([]int{150_000, 170_000}).Draw(t, "n"), Salt: rapid.Uint64().Draw(t, "salt"), Agg: rapid.Bool().Draw(t, "agg"), Head: rapid.Bool().Draw(t, "head")}
}

// echo answers with what it was asked for.
type echo struct{ asked int }

func (e *echo) Do(req *http.Request) (*http.Response, error) {
	e.asked++
	name := req.Method + " " + req.URL.String()
	return &http.Response{
		Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: req,
		Header:        http.Header{"Date": {time.Now().UTC().Format(http.TimeFormat)}, "Cache-Control": {"max-age=36000"}, "X-Name": {name}},
		ContentLength: -1,
		Body:          io.NopCloser(strings.NewReader(name)),
	}, nil
}

func (p *multiP) request(i int) (*http.Request, error) {
	x := (p.Salt + uint64(i)) * 0x9e3779b97f4a7c15
	x ^= x >> 29
	u := fmt.Sprintf("http://h%d.test/%d/%x?q=%d", x%3, x>>60, x, i%4)
	m := "GET"
	if p.Head && i%16 == 0 {
		m = "HEAD"
	}
	return http.NewRequest(m, u, nil)
}

func runMulti(c *vf.Case, p *multiP) error {
	var opts []antcache.Option
	if p.Agg {
		opts = append(opts, antcache.Aggressive(0))
	}
	e := &echo{}
	cache, err := antcache.New(e, opts...)
	if err != nil {
		return err
	}
	for round := 0; round < 2; round++ {
		for i := 0; i < p.N; i++ {
			req, err := p.request(i)
			if err != nil {
				vf.Bug("%v", err)
			}
			name := req.Method + " " + req.URL.String()
			resp, err := cache.Do(req)
			if err != nil {
				return fmt.Errorf("%s: %w", name, err)
			}
			body, err := io.ReadAll(resp.Body)
			if err != nil {
				return fmt.Errorf("%s: %w", name, err)
			}
			if err := resp.Body.Close(); err != nil {
				return fmt.Errorf("%s: close: %w", name, err)
			}
			if got := resp.Header.Get("X-Name"); got != name {
				return fmt.Errorf("after %d URLs: %s was answered with the response to %s", max(i, round*p.N), name, got)
			}
			if want := name; req.Method == "GET" && string(body) != want {
				return fmt.Errorf("after %d URLs: %s was answered with the body %q", max(i, round*p.N), name, body)
			}
		}
	}
	c.Note("%d URLs, the origin was asked %d times", p.N, e.asked)
	c.NT(e.asked == p.N)
	return nil
}
