package core

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/vf"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID: "C01",
		Rule: "random site graphs (random, chain, star, tree, dense; up to 40 pages on up to 3 hosts; chains, stars and trees of up to 420 pages), spellings and relative forms of links, redirects, URLs enqueued from outside, statuses, latencies, matcher, " +
			"robots rules, workers, concurrency and schedule; non-trivial: at least 3 pages reachable and one of them linked more than once or from several pages",
		Assumptions: []string{"the HTTP client is a fake that answers from the generated graph; time is virtual"},
		Subs: []vf.Sub{
			vf.S("crawl", 50000, 120000, genC01, runC01),
			vf.S("large", 160, 4000, genC01Large, runC01),
			vf.S("end", 12000, 200000, genC01End, runC01),
			vf.S("flood", 40, 600, genC01Flood, runC01),
		},
	})
}

// genC01 adds redirected pages, long URLs and URLs enqueued from outside.
func genC01(t *rapid.T) *crawlP {
	p := genCrawl(t)
	for i := range p.Pages {
		p.Pages[i].Moved = uni(t, 0, 9, "moved") == 3
		if p.Pages[i].Query && uni(t, 0, 7, "padded") == 3 {
			p.Pages[i].Pad = pick(t, "pad", 10, 300, 2100, 9000)
		}
	}
	if uni(t, 0, 3, "ext") == 2 {
		// the first page takes until the last call of Enqueue returned, or the
		// calls race with the end of the crawl.
		p.Keep = uni(t, 0, 1, "keep") == 1
		span := 40
		if p.Keep {
			span = 400
			p.untwin()
			p.Pages[0] = pageP{Status: 200, Host: p.Pages[0].Host, Links: p.Pages[0].Links}
		}
		for k := uni(t, 1, 4, "exts"); k > 0; k-- {
			p.Ext = append(p.Ext, extP{MS: uni(t, 0, span, "at") * 10, Links: genLinks(t, len(p.Pages), 6, "ext")})
		}
	}
	return p
}

// genC01Large generates long chains and pages with many links.
func genC01Large(t *rapid.T) *crawlP {
	p := genCrawlN(t, pick(t, "shape", "chain", "star", "tree", "star"), uni(t, 60, 420, "pages"))
	p.untwin()
	for i := range p.Pages {
		// long chains are not cut early.
		if p.Pages[i].Status == 404 && i%50 != 7 {
			p.Pages[i].Status = 200
		}
		p.Pages[i].Denied = p.Pages[i].Denied && i%50 == 9
		p.Pages[i].Unmat = p.Pages[i].Unmat && i%50 == 11
	}
	p.Workers = pick(t, "workers", 1, 2, 10, 32)
	p.Conc = pick(t, "conc", 0, 1, 4, 20, 64)
	return p
}

// genC01End generates crawls of one or two pages, and calls of Enqueue at the
// moment at which they end.
func genC01End(t *rapid.T) *crawlP {
	p := &crawlP{Workers: pick(t, "workers", 1, 1, 2, 4), Conc: pick(t, "conc", 0, 0, 1, 2), Hosts: 1, Sched: vf.GenSched(t)}
	for i := 0; i < 5; i++ {
		p.Pages = append(p.Pages, pageP{Status: 200, LatMS: uni(t, 0, 2, "lat")})
	}
	p.Seeds = []linkP{{To: 0}}
	end := p.Pages[0].LatMS
	if uni(t, 0, 1, "two") == 1 {
		p.Pages[0].Links = []linkP{{To: 1}}
		end += p.Pages[1].LatMS
	}
	// what is added late goes on for a while.
	for i := 2; i < 4; i++ {
		p.Pages[i].LatMS = pick(t, "slow", 0, 4, 20)
		if uni(t, 0, 3, "more") > 0 {
			p.Pages[i].Links = []linkP{{To: 4}}
		}
	}
	for k := uni(t, 1, 3, "exts"); k > 0; k-- {
		// every step between yield points takes less than a microsecond.
		e := extP{MS: end, NS: uni(t, 0, pick(t, "span", 100, 1000, 10_000, 60_000, 400_000), "ns")}
		for j := uni(t, 1, 2, "n"); j > 0; j-- {
			e.Links = append(e.Links, linkP{To: uni(t, 2, 3, "to")})
		}
		p.Ext = append(p.Ext, e)
	}
	return p
}

// genC01Flood generates a page with thousands of links to few pages, some of
// which only its last links name.
func genC01Flood(t *rapid.T) *crawlP {
	p := &crawlP{Workers: pick(t, "workers", 1, 2, 4), Conc: pick(t, "conc", 0, 1, 3), Hosts: 2, Objects: uni(t, 0, 1, "objects") == 1, Matcher: true}
	n := uni(t, 3, 12, "pages")
	for i := 0; i < n; i++ {
		p.Pages = append(p.Pages, pageP{Status: 200, Host: uni(t, 0, 1, "host"), LatMS: genLat(t), Unmat: i > 0 && uni(t, 0, 5, "unmat") == 3})
	}
	late := uni(t, 1, n-1, "late")
	for j, k := 0, pick(t, "k", 1100, 2500, 4500, 9000, 17000); j < k; j++ {
		p.Pages[0].Links = append(p.Pages[0].Links, linkP{j % late, j / 7 % (nvars + 3)})
	}
	for j := late; j < n; j++ {
		p.Pages[0].Links = append(p.Pages[0].Links, linkP{j, 0})
	}
	p.Seeds = []linkP{{To: 0}}
	return p
}

func runC01(c *vf.Case, p *crawlP) error {
	return vf.Bubble(c, p.Sched, func() error {
		cr := newCrawl(p)
		eng, err := ant.NewEngine(cr.config())
		if err != nil {
			return fmt.Errorf("NewEngine: %v", err)
		}
		cr.eng = eng
		var ext sync.WaitGroup
		cr.hook = func(kind string, page int, ctx context.Context) error {
			if kind == "fetch" && page == 0 && p.Keep {
				ext.Wait()
			}
			return nil
		}
		refused := make([]bool, len(p.Ext))
		began, ended := make([]int64, len(p.Ext)), make([]int64, len(p.Ext))
		var clock atomic.Int64
		for k, e := range p.Ext {
			var urls []string
			for _, l := range e.Links {
				urls = append(urls, p.pageURL(l.To, l.Var))
			}
			ext.Add(1)
			go func() {
				defer ext.Done()
				time.Sleep(time.Duration(e.MS)*time.Millisecond + time.Duration(e.NS))
				began[k] = clock.Add(1)
				err := eng.Enqueue(context.Background(), urls...)
				ended[k] = clock.Add(1)
				refused[k] = err != nil
				if err != nil && (p.Keep || !errors.Is(err, io.EOF)) {
					cr.odd("Enqueue while the crawl ran returned %v", err)
				}
			}()
		}
		err, ok := cr.run(context.Background(), 10*time.Hour, cr.seeds()...)
		if !ok {
			return fmt.Errorf("the crawl did not end")
		}
		if err != nil {
			return fmt.Errorf("a crawl without faults returned %v", err)
		}
		// calls after the end of the crawl are refused; what was added once
		// such a call began may have been too late as well.
		ext.Wait()
		added := p.Ext
		defer func() { p.Ext = added }()
		p.Ext = nil
		for k, e := range added {
			ok := true
			for j := range added {
				ok = ok && (!refused[j] || ended[k] < began[j])
			}
			if ok {
				p.Ext = append(p.Ext, e)
			}
		}
		if err := cr.oddities(); err != nil {
			return err
		}
		req, scr := cr.expected()
		indeg := 0
		links := map[int]int{}
		for i := range scr {
			for _, l := range cr.links(i) {
				links[l.To]++
				if links[l.To] > 1 {
					indeg++
				}
			}
		}
		c.NT(len(req) >= 3 && indeg > 0)
		c.LabelIf(len(req) > 10, "more than 10 pages crawled")
		c.LabelIf(len(req) > 100, "more than 100 pages crawled")
		c.LabelIf(len(p.Ext) > 0, "URLs added from outside")
		c.LabelIf(len(p.Ext) > 0 && !p.Keep, "URLs added near the end")
		c.LabelIf(len(p.Ext) < len(added), "URLs added too late")
		c.LabelIf(p.Workers > 1, "several workers")
		c.LabelIf(p.Conc > 0, "concurrency limit")
		c.LabelIf(p.Polite, "robots")
		c.LabelIf(p.Matcher, "matcher")
		c.LabelIf(len(req) != len(scr), "404 pages")
		c.Note("requested %d pages, scraped %d", len(cr.fetches), len(cr.scrapes))
		if len(p.Ext) == len(added) {
			return cr.complete()
		}
		p.Ext = added
		req2, scr2 := cr.expected()
		return cr.between(req, scr, req2, scr2)
	})
}
