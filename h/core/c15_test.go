package core

import (
	"context"
	"fmt"
	"net/url"
	"sync"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/vf"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID: "C15",
		Rule: "random URLs and random hosts, globs and regular expressions derived from them, judged by own evaluators; crawls with a recording matcher; " +
			"non-trivial: for the matchers, both a URL that matches and one that does not; for crawls, at least one URL refused and two requested",
		Assumptions: []string{"a regular expression comes from a grammar of literals, classes, repetition, alternation and anchors"},
		Subs: []vf.Sub{
			vf.S("verdict", 150000, 4000000, genC15, runC15),
			vf.S("engine", 12000, 200000, genC15e, runC15e),
		},
	})
}

type c15P struct {
	URLs []mURL `json:"urls"`
	Rule mRule  `json:"rule"`
}

func genC15(t *rapid.T) *c15P {
	p := &c15P{URLs: rapid.SliceOfN(rapid.Custom(genMURL), 1, 5).Draw(t, "urls")}
	p.Rule = genMRule(t, p.URLs)
	return p
}

func matcherOf(r mRule) ant.Matcher {
	switch r.Kind {
	case "host":
		return ant.MatchHostname(r.Arg)
	case "pattern":
		return ant.MatchPattern(r.Arg)
	}
	return ant.MatchRegexp(r.Arg)
}

func runC15(c *vf.Case, p *c15P) error {
	m := matcherOf(p.Rule)
	var yes, no int
	for _, mu := range p.URLs {
		u := mu.url()
		before := u.String()
		want := p.Rule.matches(mu)
		if got := m.Match(u); got != want {
			return fmt.Errorf("matcher %s: %s (host %q, path %q): got %v, want %v", p.Rule, u, mu.Host, mu.Path, got, want)
		}
		if u.String() != before {
			return fmt.Errorf("matcher %s changed the URL %s to %s", p.Rule, before, u)
		}
		// what is not host or path does not matter.
		v := *u
		v.Scheme, v.RawQuery, v.Fragment, v.User = "https", "zzz=a.test/x", "a/b", url.UserPassword("x", "a.test")
		if mu.Scheme == "https" {
			v.Scheme = "http"
		}
		if got := m.Match(&v); got != want {
			return fmt.Errorf("matcher %s: %v for %s and %v for %s", p.Rule, want, u, got, &v)
		}
		// the same URL after parsing.
		w, err := url.Parse(before)
		if err != nil {
			vf.Bug("parse %q: %v", before, err)
		}
		if got := m.Match(w); got != want {
			return fmt.Errorf("matcher %s: %v for %s before and %v after parsing", p.Rule, want, u, got)
		}
		if want {
			yes++
		} else {
			no++
		}
	}
	c.NT(yes > 0 && no > 0)
	c.LabelIf(yes > 0, p.Rule.Kind+" matches")
	c.LabelIf(no > 0, p.Rule.Kind+" rejects")
	c.Note("%s accepts %d and refuses %d", p.Rule, yes, no)
	return nil
}

func genC15e(t *rapid.T) *crawlP {
	p := genCrawl(t)
	p.Matcher = true
	return p
}

func runC15e(c *vf.Case, p *crawlP) error {
	return vf.Bubble(c, p.Sched, func() error {
		cr := newCrawl(p)
		cfg := cr.config()
		var mu sync.Mutex
		accepted := map[string]bool{}
		canon := map[int]string{}
		refused := 0
		var bad error
		cfg.Matcher = ant.MatcherFunc(func(u *url.URL) bool {
			mu.Lock()
			defer mu.Unlock()
			s := u.String()
			i := p.pageOf(u)
			if i < 0 {
				bad = fmt.Errorf("the matcher was asked about %s, which is not in normal form", s)
				return true
			}
			if prev, ok := canon[i]; ok && prev != s {
				bad = fmt.Errorf("the matcher was asked about two spellings of one page: %s and %s", prev, s)
			}
			canon[i] = s
			if p.Pages[i].Unmat {
				refused++
				return false
			}
			accepted[s] = true
			return true
		})
		serve := cr.web.handle
		nreq := 0
		cr.web.handle = nil
		cr.web.handle = func(req reqT) reply {
			if req.URL.Path != "/robots.txt" {
				mu.Lock()
				nreq++
				if !accepted[req.URL.String()] && bad == nil {
					bad = fmt.Errorf("requested %s, which the matcher was not asked about or refused", req.URL)
				}
				mu.Unlock()
			}
			return serve(req)
		}
		eng, err := ant.NewEngine(cfg)
		if err != nil {
			return fmt.Errorf("NewEngine: %v", err)
		}
		cr.eng = eng
		err, ok := cr.run(context.Background(), 10*time.Hour, cr.seeds()...)
		mu.Lock()
		defer mu.Unlock()
		if bad != nil {
			return bad
		}
		if !ok {
			return fmt.Errorf("the crawl did not end")
		}
		if err != nil {
			return fmt.Errorf("a crawl without faults returned %v", err)
		}
		c.NT(refused > 0 && nreq >= 2)
		c.LabelIf(refused > 0, "refused URLs")
		c.Note("%d accepted, %d refusals, %d requests", len(accepted), refused, nreq)
		return cr.complete()
	})
}
