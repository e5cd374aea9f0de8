package disk

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/yields/ant/antcache"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/vos"
	"github.com/yields/ant/zverif/zsched"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID: "C24",
		Rule: "policy: sequences of stores of various sizes, pauses and reopenings on a virtual clock, judged at every sweep; mass: up to hundreds of entries that expire together, some of which cannot be removed at first; races: concurrent histories with sweeps; " +
			"non-trivial: a sweep that removed some entries and kept others (policy, mass), or stores that overlap or lie in different sessions (races); distinct by plan",
		Assumptions: []string{
			"the age and size of an entry are those of its file",
			"entries of the same age may be removed in any order",
		},
		Subs: []vf.Sub{
			vf.S("policy", 40000, 800000, genPolicy, runPolicy),
			vf.S("mass", 800, 20000, genMass, runMass),
			vf.S("races", 20000, 400000, func(t *rapid.T) *histP { return genHist(t, true) }, runHist),
		},
	})
}

type stepP struct {
	Kind  int    `json:"s"` // 0 store, 1 pause, 2 reopen
	Key   uint64 `json:"key,omitempty"`
	Size  int    `json:"n,omitempty"`
	Zip   int    `json:"zip,omitempty"` // kind of content
	Pause int64  `json:"ns,omitempty"`
	// Touch sets the modification time of the entry's file to that much after
	// the present while the store is closed.
	Touch int64 `json:"touch,omitempty"`
}

// policyP is a sequential history with sweeps.
type policyP struct {
	Config configP `json:"config"`
	Swap   int     `json:"swap"` // order of the options
	Steps  []stepP `json:"steps"`
}

func genPolicy(t *rapid.T) *policyP {
	p := &policyP{}
	c := &p.Config
	c.Compress = rapid.IntRange(0, 3).Draw(t, "compress") == 0
	c.Default = rapid.IntRange(0, 9).Draw(t, "default") == 0
	c.Twice = rapid.IntRange(0, 9).Draw(t, "twice") == 0
	p.Swap = rapid.IntRange(0, 5).Draw(t, "swap")
	unit := int64(time.Second)
	c.Sweep = rapid.SampledFrom([]int64{1, 1, 5, 30, 60, 600}).Draw(t, "sweep") * unit
	if rapid.IntRange(0, 9).Draw(t, "nosweep") == 0 {
		c.Sweep = rapid.SampledFrom([]int64{0, -1, -unit}).Draw(t, "sweep0")
	}
	c.Age = rapid.SampledFrom([]int64{0, -1, 1, 2, 7, 60, 3600}).Draw(t, "age")
	if c.Age > 0 {
		c.Age *= unit
	}
	if c.Sweep > 0 && c.Age/c.Sweep > 60 {
		c.Sweep = c.Age / 30
	}
	c.Size = rapid.SampledFrom([]int64{0, -1, 1, 10, 25, 100, 1000}).Draw(t, "maxsize")
	sweep := c.Sweep
	if c.Default {
		sweep, c.Age, c.Size = 300*unit, 24*3600*unit, 1<<30
		c.Sweep = sweep
	}
	n := rapid.IntRange(2, 14).Draw(t, "n")
	nkeys := 9
	if !c.Default && rapid.IntRange(0, 99).Draw(t, "crowd") == 99 {
		// many entries.
		n, nkeys = rapid.IntRange(40, 150).Draw(t, "ncrowd"), 120
		if c.Size > 0 && c.Size < 1<<30 {
			c.Size = rapid.SampledFrom([]int64{100, 1000, 3000}).Draw(t, "crowdsize")
		}
	}
	for i := 0; i < n; i++ {
		var s stepP
		switch rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2}).Draw(t, "kind") {
		case 0:
			s.Key = uint64(rapid.IntRange(0, nkeys).Draw(t, "key"))
			s.Size = rapid.SampledFrom([]int{0, 1, 3, 5, 9, 10, 11, 24, 26, 60, 99, 101, 300}).Draw(t, "size")
			s.Zip = rapid.IntRange(0, 2).Draw(t, "zip")
		case 1:
			s.Kind = 1
			switch rapid.IntRange(0, 5).Draw(t, "pause") {
			case 0:
				s.Pause = rapid.Int64Range(1, 5).Draw(t, "p") * unit
			case 1:
				s.Pause = max(sweep, unit)
			case 2:
				s.Pause = max(c.Age, unit)
			case 3:
				s.Pause = rapid.Int64Range(1, 1000).Draw(t, "p") * int64(time.Millisecond)
			case 4:
				s.Pause = max(c.Age, unit)/2 + 1
			case 5:
				s.Pause = max(sweep, unit) * 2
			}
		case 2:
			s.Kind = 2
			if rapid.Bool().Draw(t, "closed") {
				s.Pause = rapid.Int64Range(1, 10).Draw(t, "p") * unit
			}
			if rapid.IntRange(0, 2).Draw(t, "touch") == 2 {
				// the clock was set, or the file comes from elsewhere.
				s.Key = uint64(rapid.IntRange(0, nkeys).Draw(t, "key"))
				age := max(c.Age, unit)
				s.Touch = rapid.SampledFrom([]int64{1, -1, unit, -unit, age / 2, -age / 2, 2 * age, -2 * age, 100 * age, -100 * age}).Draw(t, "touched")
			}
		}
		p.Steps = append(p.Steps, s)
	}
	p.Steps = append(p.Steps, stepP{Kind: 1, Pause: max(sweep, unit) + 1})
	return p
}

// entry is what the model knows of an entry.
type entry struct {
	at   time.Time
	size int64
	val  []byte
}

func runPolicy(c *vf.Case, p *policyP) error {
	if !instrumented() {
		c.Label("not decided: the file system calls are not visible")
		return nil
	}
	dir := newDir()
	defer os.RemoveAll(dir)
	return vf.Bubble(c, zsched.Sched{}, func() error {
		vos.Start(&vos.Ctl{Root: dir})
		defer vos.Stop()
		cfg := p.Config
		opts := cfg.options()
		if n := len(opts); n > 2 && !cfg.Twice {
			opts[p.Swap%n], opts[(p.Swap+1)%n] = opts[(p.Swap+1)%n], opts[p.Swap%n]
		}
		var d *antcache.Diskstore
		var opened time.Time
		open := func() error {
			var err error
			if d, err = antcache.Open(dir, opts...); err != nil {
				return err
			}
			opened = time.Now()
			tctx, cancel := context.WithTimeout(ctx, 10*time.Microsecond)
			defer cancel()
			return d.Wait(tctx)
		}
		if err := open(); err != nil {
			return err
		}
		defer func() { d.Close() }()
		model := map[uint64]entry{}
		top := uint64(9)
		for _, s := range p.Steps {
			top = max(top, s.Key)
		}
		swept, kept, id := 0, 0, 0
		// observe loads everything and compares it with the model, in which gone
		// entries are allowed to be missing.
		observe := func(i int, when string) (map[uint64]entry, error) {
			now := map[uint64]entry{}
			var sum int64
			for k := uint64(0); k <= top; k++ {
				v, err := d.Load(ctx, k)
				if err != nil {
					return nil, fmt.Errorf("step %d: %s: load of key %d: %w", i, when, k, err)
				}
				e, ok := model[k]
				switch {
				case v == nil:
					continue
				case !ok:
					return nil, fmt.Errorf("step %d: %s: key %d is there again", i, when, k)
				case string(v) != string(e.val):
					return nil, fmt.Errorf("step %d: %s: key %d has another value", i, when, k)
				}
				now[k] = e
				sum += e.size
			}
			files := listing(dir)
			var total int64
			for name, n := range files {
				if filepath.Ext(name) == ".tmp" {
					continue
				}
				total += n
			}
			if len(files) != len(now) || total != sum {
				return nil, fmt.Errorf("step %d: %s: %d entries of %d bytes load, the directory holds %d files of %d bytes: %v", i, when, len(now), sum, len(files), total, sortedNames(files))
			}
			return now, nil
		}
		same := func(i int, when string) error {
			now, err := observe(i, when)
			if err != nil {
				return err
			}
			for k := range model {
				if _, ok := now[k]; !ok {
					return fmt.Errorf("step %d: %s: key %d was removed without a sweep", i, when, k)
				}
			}
			return nil
		}
		// sweep judges a sweep at the present time.
		sweep := func(i int) error {
			t := time.Now()
			when := fmt.Sprintf("after the sweep at %s", t.Sub(opened))
			now, err := observe(i, when)
			if err != nil {
				return err
			}
			var sum int64
			var removed []entry
			oldest := time.Time{}
			removedKeys := []uint64{}
			for k, e := range model {
				expired := cfg.Age > 0 && t.Sub(e.at) > time.Duration(cfg.Age)
				if _, ok := now[k]; ok {
					if expired {
						return fmt.Errorf("step %d: %s: key %d is %s old and still there", i, when, k, t.Sub(e.at))
					}
					sum += e.size
					if oldest.IsZero() || e.at.Before(oldest) {
						oldest = e.at
					}
				} else if !expired {
					removed = append(removed, e)
					removedKeys = append(removedKeys, k)
				}
			}
			if cfg.Size > 0 && sum > cfg.Size {
				return fmt.Errorf("step %d: %s: %d bytes are left, the limit is %d", i, when, sum, cfg.Size)
			}
			if len(removed) > 0 {
				if cfg.Size <= 0 {
					return fmt.Errorf("step %d: %s: keys %v were removed although they are not expired", i, when, removedKeys)
				}
				sort.Slice(removed, func(a, b int) bool { return removed[a].at.After(removed[b].at) })
				last := removed[0]
				if !oldest.IsZero() && oldest.Before(last.at) {
					return fmt.Errorf("step %d: %s: keys %v were removed, older ones were kept", i, when, removedKeys)
				}
				needed := false
				for _, e := range removed {
					needed = needed || e.at.Equal(last.at) && sum+e.size > cfg.Size
				}
				if !needed {
					return fmt.Errorf("step %d: %s: keys %v were removed, %d bytes are left and the newest of them (%d bytes) would have fit into %d", i, when, removedKeys, sum, last.size, cfg.Size)
				}
			}
			if len(now) < len(model) && len(now) > 0 {
				kept++
			}
			if len(now) < len(model) {
				swept++
			}
			model = now
			return nil
		}
		pause := func(i int, dt time.Duration) error {
			until := time.Now().Add(dt)
			for cfg.Sweep > 0 {
				since := time.Since(opened)
				next := opened.Add((since/time.Duration(cfg.Sweep) + 1) * time.Duration(cfg.Sweep))
				if next.After(until) {
					break
				}
				// nothing happens before the tick.
				if dt := time.Until(next) - 1; dt > 0 {
					time.Sleep(dt)
					synctest.Wait()
					if err := same(i, "before a sweep"); err != nil {
						return err
					}
				}
				time.Sleep(time.Until(next))
				synctest.Wait()
				if err := sweep(i); err != nil {
					return err
				}
				if len(model) == 0 {
					break
				}
			}
			time.Sleep(time.Until(until))
			synctest.Wait()
			if len(model) == 0 {
				_, err := observe(i, "after a pause")
				return err
			}
			return same(i, "after a pause")
		}
		for i, s := range p.Steps {
			switch s.Kind {
			case 0:
				id++
				v := valP{s.Size, s.Zip}.bytes(id)
				if err := d.Store(ctx, s.Key, v); err != nil {
					return fmt.Errorf("step %d: %w", i, err)
				}
				model[s.Key] = entry{time.Now(), stored(cfg.Compress, v), v}
				// no two entries are of the same age.
				if err := pause(i, time.Microsecond); err != nil {
					return err
				}
			case 1:
				if err := pause(i, time.Duration(s.Pause)); err != nil {
					return err
				}
			case 2:
				if err := d.Close(); err != nil {
					return fmt.Errorf("step %d: %w", i, err)
				}
				time.Sleep(time.Duration(s.Pause))
				if e, ok := model[s.Key]; ok && s.Touch != 0 {
					e.at = time.Now().Add(time.Duration(s.Touch))
					if err := os.Chtimes(filepath.Join(dir, keyname(s.Key)), e.at, e.at); err != nil {
						vf.Bug("%v", err)
					}
					model[s.Key] = e
					c.Label("touched")
				}
				if err := open(); err != nil {
					return fmt.Errorf("step %d: reopening: %w", i, err)
				}
				if err := same(i, "after reopening"); err != nil {
					return err
				}
			}
		}
		c.LabelIf(swept > 0, "removed")
		c.LabelIf(kept > 0, "removed some")
		c.LabelIf(cfg.Sweep <= 0, "no sweeps")
		c.LabelIf(cfg.Default, "defaults")
		c.NT(kept > 0 || cfg.Sweep <= 0 && len(model) > 0)
		return nil
	})
}

// massP is a store whose entries expire by the generation.
type massP struct {
	Gens     []int `json:"gens"`     // entries per generation, a minute apart
	Stubborn []int `json:"stubborn"` // entries whose removal fails
	Fails    int   `json:"fails"`    // how often
	Reopen   bool  `json:"reopen"`
	Compress bool  `json:"compress"`
}

func genMass(t *rapid.T) *massP {
	p := &massP{Fails: rapid.SampledFrom([]int{1, 2, 1000}).Draw(t, "fails"), Reopen: rapid.Bool().Draw(t, "reopen"), Compress: rapid.Bool().Draw(t, "compress")}
	p.Gens = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 8, 20, 20, 70, 150}), 1, 4).Draw(t, "gens")
	if rapid.IntRange(0, 29).Draw(t, "more") == 29 {
		p.Gens[0] = rapid.SampledFrom([]int{300, 700}).Draw(t, "most")
	}
	n := 0
	for _, g := range p.Gens {
		n += g
	}
	if rapid.Bool().Draw(t, "faults") {
		p.Stubborn = rapid.SliceOfN(rapid.IntRange(0, n-1), 1, 3).Draw(t, "stubborn")
	}
	return p
}

func runMass(c *vf.Case, p *massP) error {
	if !instrumented() {
		c.Label("not decided: the file system calls are not visible")
		return nil
	}
	dir := newDir()
	defer os.RemoveAll(dir)
	return vf.Bubble(c, zsched.Sched{}, func() error {
		failing := map[string]int{}
		for _, i := range p.Stubborn {
			failing[keyname(uint64(i))] = p.Fails
		}
		failed := 0
		vos.Start(&vos.Ctl{Root: dir, Fault: func(_ int, kind, name string) *vos.Fault {
			if kind != "remove" || failing[name] == 0 {
				return nil
			}
			failing[name]--
			failed++
			return &vos.Fault{Err: syscall.EACCES}
		}})
		defer vos.Stop()
		cfg := configP{Compress: p.Compress, Age: int64(10 * time.Minute), Sweep: int64(30 * time.Second)}
		d, err := antcache.Open(dir, cfg.options()...)
		if err != nil {
			return err
		}
		defer func() { d.Close() }()
		if err := d.Wait(ctx); err != nil {
			return err
		}
		var at []time.Time
		val := func(i int) []byte { return valP{i % 7 * 9, i % 4}.bytes(i) }
		// judge compares what is there with what has not expired at the last sweep.
		judge := func(swept time.Time) error {
			files := listing(dir)
			for i, w := range at {
				k := uint64(i)
				v, err := d.Load(ctx, k)
				if err != nil {
					return fmt.Errorf("load of key %d: %w", k, err)
				}
				_, there := files[keyname(k)]
				if v != nil && string(v) != string(val(i)) {
					return fmt.Errorf("key %d has another value", k)
				}
				stubborn := false
				for _, x := range p.Stubborn {
					stubborn = stubborn || x == i
				}
				expired := swept.Sub(w) > time.Duration(cfg.Age)
				switch {
				case !expired && (v == nil || !there):
					return fmt.Errorf("%d entries, %d removals failed: key %d was removed, it is %s old", len(at), failed, k, swept.Sub(w))
				case expired && !stubborn && (v != nil || there):
					return fmt.Errorf("%d entries, %d removals failed: key %d is still there after a sweep, it is %s old", len(at), failed, k, swept.Sub(w))
				case expired && stubborn && failing[keyname(k)] == 0 && there && swept.Sub(w) > time.Duration(cfg.Age)+5*time.Minute:
					return fmt.Errorf("%d entries: key %d is still there, although it can be removed again and is %s old", len(at), k, swept.Sub(w))
				}
			}
			return nil
		}
		for g, n := range p.Gens {
			for ; n > 0; n-- {
				if err := d.Store(ctx, uint64(len(at)), val(len(at))); err != nil {
					return err
				}
				at = append(at, time.Now())
			}
			time.Sleep(time.Minute)
			if p.Reopen && g == 0 {
				if err := d.Close(); err != nil {
					return err
				}
				if d, err = antcache.Open(dir, cfg.options()...); err != nil {
					return err
				}
				if err := d.Wait(ctx); err != nil {
					return err
				}
			}
		}
		time.Sleep(time.Second)
		mixed := false
		for i := 0; i < 40; i++ {
			time.Sleep(30 * time.Second)
			synctest.Wait()
			// the last sweep was at the last half minute.
			age := time.Since(at[0])
			if err := judge(at[0].Add(age - age%(30*time.Second))); err != nil {
				return err
			}
			left := len(listing(dir))
			mixed = mixed || left > 0 && left < len(at)
		}
		c.LabelIf(failed > 0, "removals failed")
		c.LabelIf(len(at) > 100, "hundreds of entries")
		c.NT(mixed)
		return nil
	})
}
