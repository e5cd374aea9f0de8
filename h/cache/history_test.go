package cache

import (
	"fmt"

	"github.com/yields/ant/zverif/cachew"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/zsched"
	"pgregory.net/rapid"
)

// history registers a check that runs histories for one property.
func history(id string, f cachew.Focus, quick, thorough int, nt func(cachew.Stats) bool, rule string, assume []string, more ...vf.Sub) {
	gen := func(t *rapid.T) *cachew.Plan { return cachew.Gen(t, f) }
	run := func(c *vf.Case, p *cachew.Plan) error {
		var st cachew.Stats
		err := vf.Bubble(c, zsched.Sched{}, func() (err error) {
			w := cachew.NewWorld()
			cache, err := p.NewCache(w)
			if err != nil {
				return err
			}
			st, err = p.Run(w, cache)
			return err
		})
		c.NT(nt(st))
		c.Label("storage=%d aggressive=%v", p.Storage, p.Agg)
		c.LabelIf(st.Hits > 0, "hit")
		c.LabelIf(st.Validations > 0, "validation")
		c.LabelIf(st.NotMod > 0, "304")
		c.LabelIf(st.Replaced > 0, "replaced")
		c.LabelIf(st.IfError > 0, "stale-if-error used")
		c.LabelIf(st.Uncacheable > 0, "uncacheable request")
		c.LabelIf(st.Unstorable > 0, "unstorable response")
		c.LabelIf(st.VaryMiss > 0, "vary mismatch")
		c.LabelIf(st.Errors > 0, "origin error")
		c.Note("%s", fmt.Sprintf("%+v", st))
		return cachew.Keep(id, err)
	}
	vf.Register(vf.Check{
		ID: id, Rule: rule, Assumptions: assume,
		Subs: append([]vf.Sub{vf.S("history", quick, thorough, gen, run)}, more...),
	})
}

func init() {
	common := "histories of 2-12 requests over several URLs and methods against an origin with versions, validators, lifetimes, directives in random spelling and virtual time, checked step by step against a model of the cache; "
	assume := []string{
		"only-if-cached, the request header Vary, dates in the future and other formats than IMF-fixdate, 206 responses and contradicting duplicate directives are left open",
		"a 304 does not carry no-store",
	}
	history("C16", cachew.Focus{Uncacheable: 30, Unstorable: 40, Vary: 8, URLs: 3, Directives: 10, Validation: 10, Faults: 4, Bodies: 1, Own: 3}, 40000, 800000,
		func(s cachew.Stats) bool { return s.Uncacheable+s.Unstorable >= 2 && s.Hits+s.Validations >= 1 },
		common+"non-trivial: at least two requests or responses that must not be cached and at least one reuse", assume)
	history("C17", cachew.Focus{Uncacheable: 2, Unstorable: 3, Vary: 8, URLs: 2, Directives: 60, Validation: 10, Faults: 4, Bodies: 1, Own: 3}, 40000, 800000,
		func(s cachew.Stats) bool { return s.Hits >= 1 && s.Validations >= 1 },
		common+"non-trivial: at least one request served from the cache and one validated", assume)
	history("C18", cachew.Focus{Uncacheable: 2, Unstorable: 10, Vary: 15, URLs: 2, Directives: 10, Validation: 50, Faults: 20, Bodies: 2, Own: 12}, 40000, 800000,
		func(s cachew.Stats) bool { return s.Validations >= 2 },
		common+"non-trivial: at least two validations", assume)
	history("C20", cachew.Focus{Uncacheable: 5, Unstorable: 5, Vary: 60, URLs: len(cachew.URLs), Directives: 15, Validation: 15, Faults: 5, Bodies: 1, Own: 3}, 40000, 800000,
		func(s cachew.Stats) bool { return s.VaryMiss >= 1 || s.Hits >= 1 },
		common+"multitude: one cache and 150000 URLs, in which a colliding key would show; non-trivial: at least one response reused or refused because of Vary, or every URL of a multitude reused", assume,
		vf.S("multitude", 4, 40, genMulti, runMulti))
}
