package core

import (
	"context"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/zsched"
	"pgregory.net/rapid"
)

// c04Long is a crawl of several hours, one page at a time, in which the
// robots files change.
type c04Long struct {
	Hosts []c04LongHost `json:"hosts"`
	Pages []c04LongPage `json:"pages"`
}

type c04LongHost struct {
	Files []c04LongFile `json:"files"`
}

type c04LongFile struct {
	From   int   `json:"from"` // seconds
	Status int   `json:"st"`
	No     []int `json:"no"` // disallowed kinds of pages
}

type c04LongPage struct {
	Host int `json:"h"`
	Kind int `json:"k"`
	Lat  int `json:"lat"` // seconds
}

func genC04Long(t *rapid.T) *c04Long {
	p := &c04Long{}
	for n := pick(t, "hosts", 1, 1, 2, 3); n > 0; n-- {
		var h c04LongHost
		from := 0
		for m := uni(t, 1, 5, "files"); m > 0; m-- {
			f := c04LongFile{From: from, Status: pick(t, "st", 200, 200, 200, 404, 500)}
			for k := 0; k < 3; k++ {
				if rapid.Bool().Draw(t, "no") {
					f.No = append(f.No, k)
				}
			}
			h.Files = append(h.Files, f)
			from += uni(t, 60, 9000, "from")
		}
		p.Hosts = append(p.Hosts, h)
	}
	for n := uni(t, 3, 14, "pages"); n > 0; n-- {
		p.Pages = append(p.Pages, c04LongPage{
			Host: uni(t, 0, len(p.Hosts)-1, "host"), Kind: uni(t, 0, 2, "kind"),
			Lat: pick(t, "lat", 1, 61, 601, 1201, 1799, 3001, 3701, 5003, 9001, uni(t, 1, 4000, "l")),
		})
	}
	return p
}

func (h c04LongHost) at(d time.Duration) (f c04LongFile) {
	for _, g := range h.Files {
		if d >= time.Duration(g.From)*time.Second {
			f = g
		}
	}
	return
}

func (f c04LongFile) allows(kind int) bool {
	if f.Status != 200 {
		return true
	}
	for _, k := range f.No {
		if k == kind {
			return false
		}
	}
	return true
}

func runC04Long(c *vf.Case, p *c04Long) error {
	return vf.Bubble(c, zsched.Sched{}, func() error {
		const root = "root.invalid"
		name := func(i int) string { return fmt.Sprintf("h%d.test", i) }
		path := func(i int) string { return fmt.Sprintf("/k%d/p%d", p.Pages[i].Kind, i) }
		var mu sync.Mutex
		var got []string
		t0 := time.Now()
		w := newWeb(func(req *http.Request) reply {
			mu.Lock()
			defer mu.Unlock()
			now := time.Since(t0)
			if req.URL.Host == root {
				if req.URL.Path == "/robots.txt" {
					return reply{status: 404}
				}
				var b strings.Builder
				for i, pg := range p.Pages {
					fmt.Fprintf(&b, `<a href="http://%s%s">p</a>`, name(pg.Host), path(i))
				}
				return reply{status: 200, body: []byte(b.String())}
			}
			got = append(got, fmt.Sprintf("%s %s", now, req.URL))
			for i, h := range p.Hosts {
				if req.URL.Host != name(i) || req.URL.Path != "/robots.txt" {
					continue
				}
				f := h.at(now)
				b := "User-agent: *\nDisallow: /x\n"
				for _, k := range f.No {
					b += fmt.Sprintf("Disallow: /k%d/\n", k)
				}
				return reply{status: f.Status, body: []byte(b)}
			}
			for i, pg := range p.Pages {
				if req.URL.Host == name(pg.Host) && req.URL.Path == path(i) {
					return reply{status: 200, latency: time.Duration(pg.Lat) * time.Second}
				}
			}
			return reply{status: 404}
		})
		useWeb(w)
		eng, err := ant.NewEngine(ant.EngineConfig{
			Scraper: scraperFunc(func(_ context.Context, p *ant.Page) (ant.URLs, error) { return p.URLs(), nil }),
			Fetcher: &ant.Fetcher{Client: w}, Workers: 1, Concurrency: 1,
		})
		if err != nil {
			return fmt.Errorf("NewEngine: %v", err)
		}
		if err := eng.Run(context.Background(), "http://"+root+"/0"); err != nil {
			return fmt.Errorf("the crawl returned %v", err)
		}
		type known struct {
			at   time.Duration
			file c04LongFile
		}
		var want []string
		files := map[int]known{}
		now, again, change := time.Duration(0), 0, 0
		for i, pg := range p.Pages {
			k, ok := files[pg.Host]
			age := now - k.at
			if ok && (age-time.Hour).Abs() < time.Second {
				c.Label("not decided: a file of exactly one hour")
				return nil
			}
			if !ok || age > time.Hour {
				f := p.Hosts[pg.Host].at(now)
				if ok {
					again++
					if f.allows(pg.Kind) != k.file.allows(pg.Kind) {
						change++
					}
				}
				k = known{now, f}
				files[pg.Host] = k
				want = append(want, fmt.Sprintf("%s http://%s/robots.txt", now, name(pg.Host)))
			}
			if k.file.allows(pg.Kind) {
				want = append(want, fmt.Sprintf("%s http://%s%s", now, name(pg.Host), path(i)))
				now += time.Duration(pg.Lat) * time.Second
			}
		}
		c.NT(again > 0)
		c.LabelIf(again > 0, "asked again")
		c.LabelIf(change > 0, "another verdict")
		for i := range max(len(got), len(want)) {
			switch {
			case i >= len(got):
				return fmt.Errorf("request %d should be %q, there is none", i, want[i])
			case i >= len(want):
				return fmt.Errorf("request %d is %q, none was due", i, got[i])
			case got[i] != want[i]:
				return fmt.Errorf("request %d is %q, expected %q", i, got[i], want[i])
			}
		}
		return nil
	})
}
