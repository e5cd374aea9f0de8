package disk

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/yields/ant/antcache"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/vos"
	"github.com/yields/ant/zverif/zsched"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID:    "C22",
		Level: "fault_enumeration",
		Rule: "histories of concurrent stores, sweeps and reopenings are recorded at the file system boundary; the directory is reconstructed as it may be after a crash between any two operations " +
			"(nothing lost, everything unsynced lost, data lost but not names, names but not data, zeroed data, random torn subsets), reopened and compared; " +
			"large: values up to 2.5 MB; non-trivial: a history with a crash point at which something unsynced could be lost while a store was in progress; distinct by plan",
		Assumptions: []string{
			"loss model: file data since the file's last fsync and directory entries since the directory's last fsync may be lost, singly and in any combination; a rename is atomic; what was synced stays",
		},
		Subs: []vf.Sub{
			vf.S("crashes", 8000, 160000, genCrash, runCrash),
			vf.S("large", 160, 3000, genCrashLarge, runCrash),
		},
	})
}

type crashP struct {
	Config configP      `json:"config"`
	Sched  zsched.Sched `json:"sched"`
	// Seeds of earlier sessions.
	Before []opP   `json:"before,omitempty"`
	Procs  [][]opP `json:"procs"`
	Tear   uint64  `json:"tear"` // seed of the random losses
	Tears  int     `json:"tears"`
	Again  []opP   `json:"again,omitempty"` // stores after the crash, with a crash again
	AgainI int     `json:"againi,omitempty"`
}

func genCrash(t *rapid.T) *crashP {
	p := &crashP{Sched: vf.GenSched(t), Tear: rapid.Uint64().Draw(t, "tear"), Tears: rapid.IntRange(1, 3).Draw(t, "tears")}
	p.Config.Compress = rapid.Bool().Draw(t, "compress")
	if rapid.IntRange(0, 3).Draw(t, "sweeps") == 0 {
		p.Config.Sweep = rapid.SampledFrom([]int64{5_000, 20_000}).Draw(t, "sweep")
		p.Config.Age = rapid.SampledFrom([]int64{0, 10_000, 100_000}).Draw(t, "age")
	}
	nkeys := rapid.IntRange(1, 3).Draw(t, "keys")
	store := func() opP {
		o := opP{Key: rapid.IntRange(0, nkeys-1).Draw(t, "key"), Val: genVal(t)}
		o.Val.Size = min(o.Val.Size, 300)
		return o
	}
	for i := rapid.IntRange(0, 2).Draw(t, "before"); i > 0; i-- {
		p.Before = append(p.Before, store())
	}
	for n := rapid.IntRange(1, 3).Draw(t, "procs"); n > 0; n-- {
		var l []opP
		for k := rapid.IntRange(1, 3).Draw(t, "ops"); k > 0; k-- {
			l = append(l, store())
			if p.Config.Sweep > 0 && rapid.Bool().Draw(t, "sleeps") {
				l = append(l, opP{Kind: opSleep, Sleep: rapid.SampledFrom([]int64{1_000, 12_000, 60_000}).Draw(t, "sleep")})
			}
		}
		p.Procs = append(p.Procs, l)
	}
	if rapid.Bool().Draw(t, "withagain") {
		for k := rapid.IntRange(1, 2).Draw(t, "again"); k > 0; k-- {
			p.Again = append(p.Again, store())
		}
		p.AgainI = rapid.IntRange(0, 200).Draw(t, "againi")
	}
	return p
}

// genCrashLarge generates few stores of large values.
func genCrashLarge(t *rapid.T) *crashP {
	p := &crashP{Sched: vf.GenSched(t), Tear: rapid.Uint64().Draw(t, "tear"), Tears: 1}
	p.Config.Compress = rapid.Bool().Draw(t, "compress")
	store := func() opP {
		return opP{
			Key: rapid.IntRange(0, 1).Draw(t, "key"),
			Val: valP{Size: rapid.SampledFrom([]int{4096, 5000, 32768, 65536, 70_000, 140_000, 600_000, 1_100_000, 2_500_000}).Draw(t, "size"), Kind: rapid.IntRange(0, 3).Draw(t, "kind")},
		}
	}
	for i := rapid.IntRange(0, 1).Draw(t, "before"); i > 0; i-- {
		p.Before = append(p.Before, store())
	}
	l := []opP{store()}
	if rapid.Bool().Draw(t, "two") {
		l = append(l, store())
	}
	p.Procs = append(p.Procs, l)
	return p
}

// state says which values a key may have: nil is absence.
type state map[uint64][]*srec

func openWait(dir string, cfg configP) (*antcache.Diskstore, error) {
	d, err := antcache.Open(dir, cfg.options()...)
	if err != nil {
		return nil, err
	}
	tctx, cancel := context.WithTimeout(ctx, time.Second)
	defer cancel()
	if err := d.Wait(tctx); err != nil {
		d.Close()
		return nil, fmt.Errorf("the store does not become ready: %w", err)
	}
	return d, nil
}

type crasher struct {
	p      *crashP
	ids    int
	points int
	risky  int
	rnd    uint64
}

func (w *crasher) rand() uint64 {
	w.rnd ^= w.rnd << 13
	w.rnd ^= w.rnd >> 7
	w.rnd ^= w.rnd << 17
	return w.rnd
}

// allowed returns the stores whose value a key may have at a point of the log.
func allowed(stores []*srec, init state, key uint64, n int, gone func(*srec) bool) (ret []*srec) {
	var done []*srec
	for _, s := range stores {
		switch {
		case s.key != key || s.logb > n:
		case s.end != 0 && s.loge <= n:
			done = append(done, s)
		default:
			ret = append(ret, s)
		}
	}
	absent := len(done) == 0
	for _, s := range done {
		superseded := false
		for _, x := range done {
			superseded = superseded || x.begin > s.end
		}
		if !superseded {
			ret = append(ret, s)
			absent = absent || gone(s)
		}
	}
	if len(done) == 0 {
		ret = append(ret, init[key]...)
		for _, s := range init[key] {
			absent = absent && (s == nil || gone(s))
		}
	}
	if absent {
		ret = append(ret, nil)
	}
	return
}

// judge opens what is left of a directory and compares.
func judge(disk vos.Disk, cfg configP, may func(uint64) []*srec, dir string) (state, error) {
	os.RemoveAll(dir)
	if err := os.Mkdir(dir, 0o755); err != nil {
		vf.Bug("mkdir: %v", err)
	}
	for name, b := range disk {
		if err := os.WriteFile(filepath.Join(dir, name), b, 0o644); err != nil {
			vf.Bug("write: %v", err)
		}
	}
	d, err := openWait(dir, configP{Compress: cfg.Compress})
	if err != nil {
		return nil, err
	}
	defer d.Close()
	got := state{}
	for _, k := range keys[:4] {
		v, err := d.Load(ctx, k)
		if err != nil {
			return nil, fmt.Errorf("load of key %d: %w", k, err)
		}
		if v == nil {
			v = nil
		}
		ok := false
		l := may(k)
		for _, s := range l {
			if s == nil && v == nil || s != nil && v != nil && bytes.Equal(s.val, v) {
				ok = true
				got[k] = append(got[k], s)
			}
		}
		if !ok {
			return nil, fmt.Errorf("key %d loads as %s, possible are %v", k, describe(v), l)
		}
	}
	return got, nil
}

func describe(v []byte) string {
	if v == nil {
		return "nothing"
	}
	return fmt.Sprintf("%d bytes %.40q", len(v), v)
}

// record runs stores on dir and returns them with the log.
func (w *crasher) record(dir string, procs [][]opP, cfg configP) (*vos.Ctl, []*srec, error) {
	c := &vos.Ctl{Root: dir, Record: true}
	vos.Start(c)
	defer vos.Stop()
	d, err := openWait(dir, cfg)
	if err != nil {
		return nil, nil, err
	}
	defer d.Close()
	var mu sync.Mutex
	var stores []*srec
	var clock int64
	var first error
	var wg sync.WaitGroup
	for _, l := range procs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range l {
				if o.Kind == opSleep {
					time.Sleep(time.Duration(o.Sleep))
					continue
				}
				mu.Lock()
				w.ids++
				clock++
				s := &srec{id: w.ids, key: keys[o.Key], val: o.Val.bytes(w.ids), begin: clock, at: time.Now(), logb: c.Len()}
				stores = append(stores, s)
				mu.Unlock()
				err := d.Store(ctx, s.key, s.val)
				mu.Lock()
				clock++
				if err == nil {
					s.end, s.loge = clock, c.Len()
				} else if first == nil {
					first = fmt.Errorf("%s: %w", s, err)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return c, stores, first
}

// explore tries the crash points of a log.
func (w *crasher) explore(c *vos.Ctl, stores []*srec, init state, depth int) error {
	age := time.Duration(w.p.Config.Age)
	var now time.Time
	gone := func(s *srec) bool {
		if w.p.Config.Sweep <= 0 || age <= 0 {
			return false
		}
		// s, or a store that took its place, had expired.
		for _, x := range stores {
			if x.key == s.key && (x.end == 0 || x.end > s.begin) && now.Sub(x.at) > age-2*time.Microsecond {
				return true
			}
		}
		return now.Sub(s.at) > age-2*time.Microsecond
	}
	log := c.Log()
	dir := newDir()
	defer os.RemoveAll(dir)
	st := c.NewCrash()
	target := -1
	if depth == 0 && len(w.p.Again) > 0 {
		target = w.p.AgainI % (len(log) + 1)
	}
	for n := 0; ; n++ {
		may := func(k uint64) []*srec { return allowed(stores, init, k, n, gone) }
		patterns := []int{vos.KeepAll}
		if st.Pending() > 0 {
			patterns = append(patterns, vos.LoseAll, vos.LoseData, vos.LoseNames, vos.ZeroData)
			for i := 0; i < w.p.Tears; i++ {
				patterns = append(patterns, vos.Random)
			}
			w.risky++
		}
		for _, pt := range patterns {
			w.points++
			disk := st.After(w.rand, pt)
			got, err := judge(disk, w.p.Config, may, dir)
			if err != nil {
				what := []string{"nothing is lost", "what was not synced is lost", "unsynced data is lost", "unsynced names are lost", "unsynced data is zero", "a part of what was not synced is lost"}[pt]
				at := "before the first operation"
				if n > 0 {
					at = fmt.Sprintf("after operation %d (%s %s %s)", n, log[n-1].Kind, log[n-1].Name, log[n-1].To)
				}
				return fmt.Errorf("crash %s, %s: %w", at, what, err)
			}
			if n == target && pt == patterns[w.p.AgainI%len(patterns)] {
				// go on in what is left, and crash again.
				c2, stores2, err := w.record(dir, [][]opP{w.p.Again}, configP{Compress: w.p.Config.Compress})
				if err != nil {
					return fmt.Errorf("after a crash: %w", err)
				}
				if err := w.explore(c2, stores2, got, depth+1); err != nil {
					return fmt.Errorf("second crash: %w", err)
				}
			}
		}
		if n == len(log) {
			break
		}
		now = log[n].T
		st.Step(log[n])
	}
	if !sameDisk(st.Now(), c.Root) {
		return errNotSeen
	}
	return nil
}

var errNotSeen = fmt.Errorf("not all operations were seen")

func runCrash(c *vf.Case, p *crashP) error {
	if !instrumented() {
		c.Label("not decided: the file system calls are not visible")
		return nil
	}
	dir := newDir()
	defer os.RemoveAll(dir)
	return vf.Bubble(c, p.Sched, func() error {
		w := &crasher{p: p, rnd: p.Tear | 1}
		init := state{}
		for _, k := range keys {
			init[k] = []*srec{nil}
		}
		if len(p.Before) > 0 {
			_, stores, err := w.record(dir, [][]opP{p.Before}, configP{Compress: p.Config.Compress})
			if err != nil {
				return err
			}
			for _, s := range stores {
				init[s.key] = []*srec{s}
			}
		}
		ctl, stores, err := w.record(dir, p.Procs, p.Config)
		if err != nil {
			return err
		}
		zsched.Stop()
		err = w.explore(ctl, stores, init, 0)
		if err == errNotSeen {
			c.Label("not decided: some file system calls are not visible")
			return nil
		}
		if err != nil {
			return err
		}
		c.Note("%d crashed directories reopened", w.points)
		c.Label("operations %d", len(ctl.Log())/10*10)
		c.LabelIf(p.Config.Sweep > 0, "with sweeps")
		c.LabelIf(len(p.Again) > 0, "second crash")
		c.NT(w.risky > 0)
		return nil
	})
}
