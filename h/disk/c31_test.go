package disk

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/golang/snappy"
	"github.com/yields/ant/antcache"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/vos"
	"github.com/yields/ant/zverif/zsched"
	"pgregory.net/rapid"
)

// C31: opening, waiting for and closing a disk store, on a slow disk whose
// operations take virtual time.

func init() {
	vf.Register(vf.Check{
		ID: "C31",
		Rule: "opening directories, paths that are relative, missing, no directory or cannot be opened, and options that fail; waits with all kinds of contexts, stores and loads while a slow disk is being read, closing at any time of the reading and of sweeps, and opening again; " +
			"non-trivial: an open that fails, or a close or a wait while the directory was still being read or swept",
		Assumptions: []string{
			"a wait whose context is done may return nil if the directory was read",
			"loads may wait for a running sweep",
		},
		Subs: []vf.Sub{vf.S("life", 12000, 250000, genC31, runC31)},
	})
}

type waitP struct {
	At     int `json:"at"`   // units of 100 ms
	Kind   int `json:"kind"` // 0 background, 1 cancelled, 2 deadline, 3 cancelled before
	Cancel int `json:"cancel,omitempty"`
}

type c31Op struct {
	At   int  `json:"at"`
	Key  int  `json:"key"`
	Load bool `json:"load,omitempty"`
}

type c31P struct {
	Where   int          `json:"where"`
	Opt     int          `json:"opt,omitempty"` // position of the failing option
	Entries int          `json:"entries"`
	Foreign []int        `json:"foreign,omitempty"`
	Slow    int          `json:"slow,omitempty"`   // ms per entry
	Remove  int          `json:"remove,omitempty"` // ms per removal
	Config  configP      `json:"config"`
	Waits   []waitP      `json:"waits,omitempty"`
	Ops     []c31Op      `json:"ops,omitempty"`
	Close   int          `json:"close"`
	Shut    bool         `json:"shut,omitempty"` // closing the directory fails
	Again   bool         `json:"again,omitempty"`
	Second  bool         `json:"second,omitempty"`
	Sched   zsched.Sched `json:"sched"`
}

const (
	atDir = iota
	atRelative
	atMissing
	atFile
	atLink
	atOpenFault
	atStatFault
	atOption
	atSpelled
)

func genC31(t *rapid.T) *c31P {
	p := &c31P{}
	if rapid.IntRange(0, 2).Draw(t, "odd") == 2 {
		p.Where = rapid.IntRange(1, 8).Draw(t, "where")
		p.Opt = rapid.IntRange(0, 5).Draw(t, "opt")
	}
	p.Entries = rapid.SampledFrom([]int{3, 0, 1, 5, 6, 12, 40}).Draw(t, "entries")
	for j := rapid.IntRange(0, 2).Draw(t, "nforeign"); j > 0; j-- {
		p.Foreign = append(p.Foreign, rapid.IntRange(0, len(foreign)-1).Draw(t, "foreign"))
	}
	p.Slow = rapid.SampledFrom([]int{500, 0, 100, 2000}).Draw(t, "slow")
	c := &p.Config
	c.Compress = rapid.Bool().Draw(t, "compress")
	c.Twice = rapid.IntRange(0, 5).Draw(t, "twice") == 0
	span := max(p.Entries*p.Slow/100, 5)
	if rapid.IntRange(0, 2).Draw(t, "sweeps") == 0 {
		c.Sweep = rapid.SampledFrom([]int64{1, 3, 20}).Draw(t, "sweep") * int64(time.Second)
		c.Age = rapid.SampledFrom([]int64{0, 1, 5}).Draw(t, "age") * int64(time.Second)
		c.Size = rapid.SampledFrom([]int64{0, 100}).Draw(t, "maxsize")
		p.Remove = rapid.SampledFrom([]int{0, 300, 1000}).Draw(t, "remove")
		span += 50
	}
	for n := rapid.IntRange(0, 3).Draw(t, "waits"); n > 0; n-- {
		p.Waits = append(p.Waits, waitP{At: rapid.IntRange(0, span).Draw(t, "at"), Kind: rapid.IntRange(0, 3).Draw(t, "kind"), Cancel: rapid.IntRange(0, span).Draw(t, "cancel")})
	}
	for n := rapid.IntRange(0, 4).Draw(t, "ops"); n > 0; n-- {
		p.Ops = append(p.Ops, c31Op{At: rapid.IntRange(0, span).Draw(t, "opat"), Key: rapid.IntRange(0, 9).Draw(t, "key"), Load: rapid.IntRange(0, 2).Draw(t, "load") == 2})
	}
	p.Close = rapid.IntRange(0, span+span/2).Draw(t, "close")
	if rapid.IntRange(0, 3).Draw(t, "early") == 3 {
		p.Close = rapid.SampledFrom([]int{0, 1}).Draw(t, "closeat")
	}
	p.Shut = rapid.IntRange(0, 9).Draw(t, "shut") == 9
	p.Again = rapid.Bool().Draw(t, "again")
	p.Second = rapid.IntRange(0, 3).Draw(t, "second") == 3
	if rapid.Bool().Draw(t, "sched") {
		p.Sched = vf.GenSched(t)
	}
	return p
}

// slack is what the schedule may delay an operation by.
const slack = 2 * time.Second

func runC31(c *vf.Case, p *c31P) error {
	if !instrumented() {
		c.Label("not decided: the file system calls are not visible")
		return nil
	}
	root := newDir()
	defer os.RemoveAll(root)
	return vf.Bubble(c, p.Sched, func() error { return p.run(c, root) })
}

func (p *c31P) run(c *vf.Case, root string) error {
	var (
		dir    = filepath.Join(root, "a")
		start  = time.Now()
		vals   = map[uint64][]byte{}
		stored sync.Map
		preset = map[string]bool{}
	)
	for _, d := range []string{"a", "b"} {
		if err := os.Mkdir(filepath.Join(root, d), 0o755); err != nil {
			vf.Bug("mkdir: %v", err)
		}
	}
	os.WriteFile(filepath.Join(root, "file"), []byte("x"), 0o644)
	os.Symlink(dir, filepath.Join(root, "link"))
	for i := 0; i < p.Entries; i++ {
		k := uint64(1000 + i)
		v := valP{20 + i%3, i % 4}.bytes(i)
		vals[k] = v
		b := v
		if p.Config.Compress {
			b = snappy.Encode(nil, v)
		}
		f := filepath.Join(dir, keyname(k))
		preset[filepath.Join("a", keyname(k))] = true
		if err := os.WriteFile(f, b, 0o644); err != nil {
			vf.Bug("write: %v", err)
		}
		old := start.Add(-time.Hour)
		os.Chtimes(f, old, old)
	}
	for _, i := range p.Foreign {
		addForeign(dir, i)
	}
	before := listing(dir)

	injected := syscall.Errno(syscall.EIO)
	var shutting atomic.Bool
	ctl := &vos.Ctl{Root: root, Fault: func(_ int, kind, name string) *vos.Fault {
		switch {
		case p.Where == atOpenFault && kind == "open" && name == "a",
			p.Where == atStatFault && (kind == "fstat" || kind == "stat") && name == "a":
			return &vos.Fault{Err: injected}
		case shutting.Load() && kind == "close" && (name == "a" || name == "link"):
			return &vos.Fault{Err: injected, After: true}
		}
		return nil
	}, Delay: func(kind, name string) time.Duration {
		switch {
		case (kind == "stat" || kind == "lstat") && preset[name]:
			return time.Duration(p.Slow) * time.Millisecond
		case kind == "remove" && preset[name]:
			return time.Duration(p.Remove) * time.Millisecond
		}
		return 0
	}}
	vos.Start(ctl)
	defer vos.Stop()

	cfg := p.Config
	opts := cfg.options()
	var debugs atomic.Int64
	opts = append(opts, antcache.Debug(func(string, ...any) { debugs.Add(1) }))
	optErr := errors.New("no such option")
	path := dir
	switch p.Where {
	case atRelative:
		wd, err := os.Getwd()
		if err != nil {
			vf.Bug("getwd: %v", err)
		}
		if path, err = filepath.Rel(wd, dir); err != nil {
			vf.Bug("rel: %v", err)
		}
	case atMissing:
		path = filepath.Join(root, "missing", "too")
	case atFile:
		path = filepath.Join(root, "file")
	case atLink:
		path = filepath.Join(root, "link")
	case atSpelled:
		path = root + "//./b/../a/"
	case atOption:
		n := p.Opt % (len(opts) + 1)
		opts = append(opts[:n:n], append([]antcache.DiskOption{func(*antcache.Diskstore) error { return optErr }}, opts[n:]...)...)
	}
	d, err := antcache.Open(path, opts...)
	took := time.Since(start)
	bad := map[int]error{atRelative: nil, atMissing: fs.ErrNotExist, atFile: nil, atOpenFault: injected, atStatFault: injected, atOption: optErr}
	if want, ok := bad[p.Where]; ok {
		c.NT(true)
		c.Label("open fails %d", p.Where)
		if err == nil {
			if p.Where == atStatFault {
				// it need not look.
				return d.Close()
			}
			d.Close()
			return fmt.Errorf("opening %q (case %d) succeeded", path, p.Where)
		}
		if d != nil {
			return fmt.Errorf("opening %q failed with %v and returned a store", path, err)
		}
		if want != nil && !errors.Is(err, want) {
			return fmt.Errorf("opening %q failed with %v, which does not carry %v", path, err, want)
		}
		time.Sleep(time.Minute)
		if open := ctl.OpenFiles(); len(open) > 0 {
			return fmt.Errorf("opening %q failed (%v) and left files open: %v", path, err, open)
		}
		n := ctl.Ops()
		time.Sleep(time.Hour)
		if m := ctl.Ops(); m != n {
			return fmt.Errorf("opening %q failed (%v) and something still uses the directory", path, err)
		}
		if after := listing(dir); fmt.Sprint(after) != fmt.Sprint(before) {
			return fmt.Errorf("opening %q failed (%v) and changed the directory: %v, was %v", path, err, after, before)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("open: %w", err)
	}
	if took > slack {
		d.Close()
		return fmt.Errorf("open waited %s for the directory to be read", took)
	}
	var other *antcache.Diskstore
	if p.Second {
		if other, err = antcache.Open(filepath.Join(root, "b"), antcache.SweepEvery(0)); err != nil {
			return fmt.Errorf("open of a second directory: %w", err)
		}
		if err := other.Wait(ctx); err != nil {
			return fmt.Errorf("wait for the second directory: %w", err)
		}
		for i := 0; i < 3; i++ {
			if err := other.Store(ctx, uint64(i), []byte(fmt.Sprint("other", i))); err != nil {
				return fmt.Errorf("store in the second directory: %w", err)
			}
		}
	}
	keeps := cfg.Sweep <= 0 || cfg.Age <= 0 && cfg.Size <= 0
	// all compares what is there with what was when the store was opened.
	all := func(d *antcache.Diskstore, when string) error {
		for k, v := range vals {
			got, err := d.Load(ctx, k)
			if err != nil {
				return fmt.Errorf("%s: load of key %d: %w", when, k, err)
			}
			if got == nil && !keeps {
				continue
			}
			if !bytes.Equal(got, v) {
				return fmt.Errorf("%s: key %d gives %q, expected %q", when, k, got, v)
			}
		}
		return nil
	}
	var (
		mu    sync.Mutex
		first error
		waits sync.WaitGroup
		busy  sync.WaitGroup
		early atomic.Int64 // waits that ended before the directory was read
	)
	fail := func(err error) {
		mu.Lock()
		defer mu.Unlock()
		if first == nil {
			first = err
		}
	}
	unit := 100 * time.Millisecond
	var closing atomic.Bool
	for i, w := range p.Waits {
		waits.Add(1)
		go func() {
			defer waits.Done()
			time.Sleep(time.Duration(w.At) * unit)
			cctx, cancel := context.WithCancel(ctx)
			defer cancel()
			at := time.Now()
			limit := time.Duration(w.Cancel) * unit
			switch w.Kind {
			case 1:
				go func() {
					time.Sleep(limit)
					cancel()
				}()
			case 2:
				var c2 context.CancelFunc
				cctx, c2 = context.WithDeadline(cctx, at.Add(limit))
				defer c2()
			case 3:
				limit = 0
				cancel()
			}
			err := d.Wait(cctx)
			took := time.Since(at)
			name := fmt.Sprintf("wait %d (kind %d, limit %s)", i, w.Kind, limit)
			if w.Kind != 0 && took > limit+slack {
				fail(fmt.Errorf("%s returned %v after %s", name, err, took))
				return
			}
			if err == nil {
				// What it waited for.
				if !closing.Load() {
					busy.Add(1)
					defer busy.Done()
					if err := all(d, name); err != nil {
						fail(err)
					}
				}
				return
			}
			early.Add(1)
			switch {
			case w.Kind == 0:
				fail(fmt.Errorf("%s returned %v", name, err))
			case !errors.Is(err, cctx.Err()) || cctx.Err() == nil:
				fail(fmt.Errorf("%s returned %v, its context's error is %v", name, err, cctx.Err()))
			}
		}()
	}
	for i, o := range p.Ops {
		busy.Add(1)
		go func() {
			defer busy.Done()
			time.Sleep(time.Duration(o.At) * unit)
			at := time.Now()
			name := fmt.Sprintf("operation %d at %s", i, at.Sub(start))
			if o.Load && len(vals) > 0 {
				k := uint64(1000 + o.Key%len(vals))
				got, err := d.Load(ctx, k)
				if err != nil {
					fail(fmt.Errorf("%s: load: %w", name, err))
				} else if got != nil && !bytes.Equal(got, vals[k]) {
					fail(fmt.Errorf("%s: key %d gives %q, expected %q", name, k, got, vals[k]))
				}
			} else {
				k := uint64(2000 + i)
				v := valP{30 + i, i % 4}.bytes(100 + i)
				if err := d.Store(ctx, k, v); err != nil {
					fail(fmt.Errorf("%s: store: %w", name, err))
					return
				}
				stored.Store(k, v)
				if time.Since(at) <= slack {
					got, err := d.Load(ctx, k)
					if err != nil || !bytes.Equal(got, v) && (keeps || got != nil) {
						fail(fmt.Errorf("%s: key %d gives %q (%v) right after it was stored, expected %q", name, k, got, err, v))
					}
				}
			}
			if took := time.Since(at); took > slack && p.Remove == 0 {
				fail(fmt.Errorf("%s took %s while the directory was being read", name, took))
			}
		}()
	}
	time.Sleep(time.Duration(p.Close) * unit)
	if len(p.Ops) > 0 {
		busy.Wait()
	}
	closing.Store(true)
	busy.Wait()
	shutting.Store(p.Shut)
	closedAt := time.Now()
	sofar := closedAt.Sub(start)
	err = d.Close()
	n, dn := ctl.Ops(), debugs.Load()
	c.NT(sofar < time.Duration(p.Entries*p.Slow)*time.Millisecond || early.Load() > 0 || time.Since(closedAt) > 0)
	c.LabelIf(sofar < time.Duration(p.Entries*p.Slow)*time.Millisecond, "closed while being read")
	c.LabelIf(early.Load() > 0, "wait ended early")
	c.LabelIf(cfg.Sweep > 0 && time.Since(closedAt) > 0 && sofar > time.Duration(p.Entries*p.Slow)*time.Millisecond, "closed while being swept")
	if (err != nil) != p.Shut {
		return fmt.Errorf("close returned %v (closing the directory fails: %v)", err, p.Shut)
	}
	if p.Shut && !errors.Is(err, injected) {
		return fmt.Errorf("close returned %v, closing the directory failed with %v", err, injected)
	}
	shutting.Store(false)
	for _, f := range ctl.OpenFiles() {
		if f != "b" {
			return fmt.Errorf("%q is open after close (closed %s after open)", f, sofar)
		}
	}
	// A wait ends at the latest with the reading, which close waits for.
	bound := time.Duration(p.Entries*(p.Slow+p.Remove))*time.Millisecond + 2*slack
	if took := time.Since(closedAt); took > bound {
		return fmt.Errorf("close took %s", took)
	}
	names := listing(dir)
	time.Sleep(time.Hour)
	if m := ctl.Ops(); m != n {
		return fmt.Errorf("the store used the directory after it was closed: %v (closed %s after open)", ctl.Kinds()[n:m], sofar)
	}
	if debugs.Load() != dn {
		return fmt.Errorf("the store logged after it was closed (closed %s after open)", sofar)
	}
	if after := listing(dir); fmt.Sprint(names) != fmt.Sprint(after) {
		return fmt.Errorf("the directory changed after close: %v, was %v", after, names)
	}
	waits.Wait()
	if first != nil {
		return first
	}
	if p.Second {
		for i := 0; i < 3; i++ {
			if got, err := other.Load(ctx, uint64(i)); err != nil || string(got) != fmt.Sprint("other", i) {
				return fmt.Errorf("the second directory's key %d gives %q (%v)", i, got, err)
			}
		}
		if got, err := other.Load(ctx, 1000); err != nil || got != nil {
			return fmt.Errorf("the second directory has the first one's key: %q (%v)", got, err)
		}
		if err := other.Close(); err != nil {
			return fmt.Errorf("close of the second directory: %w", err)
		}
	}
	if p.Again {
		d, err := antcache.Open(dir, cfg.options()...)
		if err != nil {
			return fmt.Errorf("open again: %w", err)
		}
		defer d.Close()
		if err := d.Wait(ctx); err != nil {
			return fmt.Errorf("wait after opening again: %w", err)
		}
		if err := all(d, "opened again"); err != nil {
			return err
		}
		var lost error
		stored.Range(func(k, v any) bool {
			got, err := d.Load(ctx, k.(uint64))
			if err != nil || !bytes.Equal(got, v.([]byte)) && (keeps || got != nil) {
				lost = fmt.Errorf("opened again: key %d gives %q (%v), expected %q", k, got, err, v)
			}
			return lost == nil
		})
		return lost
	}
	return nil
}
