package disk

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"testing/synctest"
	"time"

	"github.com/yields/ant/antcache"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/vos"
	"github.com/yields/ant/zverif/zsched"
	"pgregory.net/rapid"
)

const (
	opStore = iota
	opLoad
	opWait
	opSleep
)

type opP struct {
	Kind  int   `json:"op"`
	Key   int   `json:"key"`
	Val   valP  `json:"v"`
	Sleep int64 `json:"ns,omitempty"`
}

type sessP struct {
	Foreign []int   `json:"foreign,omitempty"`
	Pause   int64   `json:"pause,omitempty"` // virtual time before it opens
	Wait    bool    `json:"wait,omitempty"`
	Procs   [][]opP `json:"procs"`
}

// histP is a history of concurrent sessions on one directory.
type histP struct {
	Config   configP      `json:"config"`
	Sched    zsched.Sched `json:"sched"`
	Sessions []sessP      `json:"sessions"`
}

func genHist(t *rapid.T, evict bool) *histP {
	p := &histP{Sched: vf.GenSched(t)}
	c := &p.Config
	c.Compress = rapid.Bool().Draw(t, "compress")
	c.Sweep = rapid.SampledFrom([]int64{0, 5_000, 20_000, 100_000, 5_000_000}).Draw(t, "sweep")
	c.Age = rapid.SampledFrom([]int64{0, -1, int64(24 * time.Hour)}).Draw(t, "age")
	c.Size = rapid.SampledFrom([]int64{0, -1, 1 << 40}).Draw(t, "maxsize")
	c.Twice = rapid.IntRange(0, 9).Draw(t, "twice") == 0
	if evict {
		c.Sweep = rapid.SampledFrom([]int64{5_000, 20_000, 100_000}).Draw(t, "sweep2")
		if rapid.Bool().Draw(t, "aged") {
			c.Age = rapid.SampledFrom([]int64{2_000, 20_000, 200_000, 1_000_000}).Draw(t, "age2")
		} else {
			c.Size = rapid.SampledFrom([]int64{10, 100, 400, 6000}).Draw(t, "maxsize2")
		}
	} else {
		c.Default = rapid.IntRange(0, 9).Draw(t, "default") == 0
	}
	nkeys := rapid.SampledFrom([]int{1, 2, 3, 5}).Draw(t, "keys")
	if !evict && rapid.IntRange(0, 5).Draw(t, "many") == 0 {
		nkeys = len(keys)
	}
	for i := rapid.IntRange(1, 3).Draw(t, "sessions"); i > 0; i-- {
		var s sessP
		if rapid.IntRange(0, 2).Draw(t, "withforeign") == 0 {
			for j := rapid.IntRange(1, 6).Draw(t, "nforeign"); j > 0; j-- {
				s.Foreign = append(s.Foreign, rapid.IntRange(0, len(foreign)-1).Draw(t, "foreign"))
			}
		}
		s.Wait = rapid.Bool().Draw(t, "wait")
		s.Pause = rapid.SampledFrom([]int64{0, 0, 50_000, 2_000_000}).Draw(t, "pause")
		for n := rapid.IntRange(1, 4).Draw(t, "procs"); n > 0; n-- {
			var l []opP
			for k := rapid.IntRange(1, 6).Draw(t, "ops"); k > 0; k-- {
				o := opP{Kind: rapid.SampledFrom([]int{opStore, opStore, opLoad, opLoad, opLoad, opWait, opSleep}).Draw(t, "kind"), Key: rapid.IntRange(0, nkeys-1).Draw(t, "key")}
				switch o.Kind {
				case opStore:
					o.Val = genVal(t)
					if o.Val.Size > 5000 && rapid.IntRange(0, 4).Draw(t, "big") > 0 {
						o.Val.Size = 20
					}
				case opSleep:
					o.Sleep = rapid.SampledFrom([]int64{1, 300, 4_000, 30_000, 300_000}).Draw(t, "sleep")
				}
				l = append(l, o)
			}
			s.Procs = append(s.Procs, l)
		}
		p.Sessions = append(p.Sessions, s)
	}
	return p
}

// runHist runs the history and judges every load.
func runHist(c *vf.Case, p *histP) error {
	evict := p.Config.Age > 0 && p.Config.Age < int64(time.Hour) || p.Config.Size > 0 && p.Config.Size < 1<<30
	if p.Config.Default {
		evict = false
	}
	if evict && !instrumented() {
		c.Label("not decided: the file system calls are not visible")
		return nil
	}
	dir := newDir()
	defer os.RemoveAll(dir)
	return vf.Bubble(c, p.Sched, func() error {
		vos.Start(&vos.Ctl{Root: dir})
		defer vos.Stop()
		h := &hist{}
		var mu sync.Mutex
		var first error
		fail := func(format string, args ...any) {
			mu.Lock()
			defer mu.Unlock()
			if first == nil {
				first = fmt.Errorf(format, args...)
			}
		}
		id := 0
		var allForeign []int
		overlaps, loads, prewarm := 0, 0, 0
		var d *antcache.Diskstore
		age := time.Duration(p.Config.Age)
		// load loads and judges.
		load := func(sess int, key uint64, warm bool, must bool) {
			b, t0 := h.tick(), time.Now()
			v, err := d.Load(ctx, key)
			t1 := time.Now()
			e := h.tick()
			mu.Lock()
			defer mu.Unlock()
			loads++
			if err != nil {
				if first == nil {
					first = fmt.Errorf("session %d: load of key %d: %w", sess, key, err)
				}
				return
			}
			_ = t0
			gone := func(s *srec) bool {
				if !warm && s.sess < sess {
					// not read yet; stays true if the key was not stored in this session.
					return true
				}
				if evict && p.Config.Age > 0 {
					// also when a concurrent store, that began earlier, took its place.
					for _, x := range h.stores {
						if x.key == s.key && (x.end == 0 || x.end > s.begin) && t1.Sub(x.at) > age-2*time.Microsecond {
							return true
						}
					}
				}
				return evict && p.Config.Size > 0
			}
			if err := h.acceptable(key, v, b, e, gone); err != nil && first == nil {
				first = fmt.Errorf("session %d: %w", sess, err)
			}
		}
		final := func(sess int) {
			for _, k := range keys {
				load(sess, k, true, true)
			}
			for _, k := range []uint64{77, 88, 5, 4} {
				load(sess, k, true, true)
			}
		}
		for i, s := range p.Sessions {
			time.Sleep(time.Duration(s.Pause))
			for _, f := range s.Foreign {
				addForeign(dir, f)
				allForeign = append(allForeign, f)
			}
			var err error
			d, err = antcache.Open(dir, p.Config.options()...)
			if err != nil {
				return fmt.Errorf("session %d: open: %w", i, err)
			}
			closed := false
			defer func() {
				if !closed {
					d.Close()
				}
			}()
			wait := func() bool {
				tctx, cancel := context.WithTimeout(ctx, 10*time.Second)
				defer cancel()
				if err := d.Wait(tctx); err != nil {
					fail("session %d: the store does not become ready: %v", i, err)
					return false
				}
				return true
			}
			warm := make([]bool, len(s.Procs))
			allwarm := false
			if s.Wait {
				allwarm = wait()
			}
			var wg sync.WaitGroup
			var active int
			for j, l := range s.Procs {
				wg.Add(1)
				warm[j] = allwarm
				go func() {
					defer wg.Done()
					for _, o := range l {
						key := keys[o.Key]
						switch o.Kind {
						case opStore:
							mu.Lock()
							id++
							r := &srec{id: id, key: key, val: o.Val.bytes(id), sess: i}
							h.stores = append(h.stores, r)
							r.begin, r.at = h.tick(), time.Now()
							if active++; active > 1 {
								overlaps++
							}
							mu.Unlock()
							in := append([]byte(nil), r.val...)
							err := d.Store(ctx, key, in)
							// the caller may reuse its slice.
							for x := range in {
								in[x] ^= 0x55
							}
							mu.Lock()
							active--
							if err != nil {
								if first == nil {
									first = fmt.Errorf("session %d: %s: %w", i, r, err)
								}
							} else {
								r.end, r.done = h.tick(), time.Now()
							}
							mu.Unlock()
						case opLoad:
							if !warm[j] {
								prewarm++
							}
							load(i, key, warm[j], false)
						case opWait:
							warm[j] = wait() || warm[j]
						case opSleep:
							time.Sleep(time.Duration(o.Sleep))
						}
					}
				}()
			}
			wg.Wait()
			if first != nil {
				// let a startup that does not end, end.
				return first
			}
			if !wait() {
				return first
			}
			final(i)
			if evict && first == nil {
				// everything is quiet: sweep what is expired or too much.
				// (without delays between statements.)
				before := h.newest()
				zsched.Stop()
				pause := time.Duration(p.Config.Sweep)*2 + 4*time.Millisecond
				if p.Config.Age > 0 && age < time.Hour {
					pause += age
				}
				time.Sleep(pause)
				synctest.Wait()
				final(i)
				var sum int64
				present := 0
				for _, k := range keys {
					v, err := d.Load(ctx, k)
					if err != nil {
						fail("session %d: load of key %d: %w", i, k, err)
					}
					if v == nil {
						continue
					}
					present++
					sum += stored(p.Config.Compress, v)
					if p.Config.Age > 0 && p.Config.Age < int64(time.Hour) {
						fail("session %d: key %d is there after it expired and was swept", i, k)
					}
				}
				if p.Config.Size > 0 {
					if sum > p.Config.Size {
						fail("session %d: %d bytes are stored after a sweep, the limit is %d", i, sum, p.Config.Size)
					}
					if before != nil && (p.Config.Age <= 0 || p.Config.Age > int64(time.Hour)) && stored(p.Config.Compress, before.val) <= p.Config.Size {
						v, _ := d.Load(ctx, before.key)
						if v == nil {
							fail("session %d: %s was removed although it is the newest and fits the size limit", i, before)
						}
					}
				}
				n := 0
				for name := range listing(dir) {
					if filepath.Ext(name) == ".tmp" || isForeign(name) {
						continue
					}
					n++
				}
				if n != present {
					fail("session %d: %d entries load and %d files are in the directory after a sweep: %v", i, present, n, sortedNames(listing(dir)))
				}
			}
			closed = true
			if err := d.Close(); err != nil {
				return fmt.Errorf("session %d: close: %w", i, err)
			}
			next := p.Sched
			next.Seed += uint64(i + 1)
			zsched.Start(next)
			if first != nil {
				return first
			}
		}
		for _, f := range allForeign {
			if untouched(f) && !foreignLeft(dir, f) {
				return fmt.Errorf("the foreign file %q was removed", foreign[f])
			}
		}
		c.LabelIf(overlaps > 0, "concurrent stores")
		c.LabelIf(prewarm > 0, "loads while starting")
		c.LabelIf(len(p.Sessions) > 1, "reopened")
		c.LabelIf(len(allForeign) > 0, "foreign files")
		c.LabelIf(evict, "evicting")
		c.LabelIf(p.Config.Compress, "compressed")
		c.NT(loads > 0 && len(h.stores) > 1 && (overlaps > 0 || len(p.Sessions) > 1))
		return nil
	})
}

func isForeign(name string) bool {
	for _, f := range foreign {
		if f == name || f == "LINK:"+name || f == "DIR:"+name {
			return true
		}
	}
	return false
}

// newest returns the store that began after all others had ended.
func (h *hist) newest() *srec {
	var n *srec
	for _, s := range h.stores {
		if n == nil || s.begin > n.begin {
			n = s
		}
	}
	for _, s := range h.stores {
		if s != n && (s.end == 0 || s.end > n.begin || s.done.Add(2*time.Microsecond).After(n.at)) {
			return nil
		}
	}
	return n
}
