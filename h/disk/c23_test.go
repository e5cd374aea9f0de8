package disk

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/yields/ant/antcache"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/vos"
	"github.com/yields/ant/zverif/zsched"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID:    "C23",
		Level: "fault_enumeration",
		Rule: "sequential histories of stores, loads, pauses (sweeps) and reopenings; every file system operation of the history fails in turn, once or from there on, with different errors, short writes and reads, and effects that take place nevertheless; " +
			"non-trivial: a history in which at least one failing operation belonged to a store, and the others were still judged; distinct by plan",
		Assumptions: []string{
			"an operation that fails may be repeated by the store; if the repetition succeeds the failure need not be reported",
			"a file that could not be read or listed at startup may be missing until the next start",
			"a failing close releases the file",
		},
		Subs: []vf.Sub{
			vf.S("faults", 2400, 60000, genFault, runFault),
		},
	})
}

type fstepP struct {
	Kind  int   `json:"s"` // 0 store, 1 load, 2 pause, 3 reopen
	Key   int   `json:"key"`
	Val   valP  `json:"v"`
	Pause int64 `json:"ns,omitempty"`
}

type faultP struct {
	Config  configP  `json:"config"`
	Foreign []int    `json:"foreign,omitempty"`
	Steps   []fstepP `json:"steps"`
	Errs    []int    `json:"errs"`  // errors to use, by operation
	Short   []int    `json:"short"` // how much a short operation transfers
	Sticky  int      `json:"sticky,omitempty"`
	Second  int      `json:"second,omitempty"` // >0: the operation that many later fails, too
}

var ioErrors = []error{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EDQUOT, syscall.EMFILE, syscall.EINTR, syscall.EROFS, os.ErrDeadlineExceeded,
	syscall.ENOENT, syscall.EINVAL, syscall.EPERM, syscall.ESTALE, os.ErrClosed, io.ErrUnexpectedEOF, context.Canceled, os.ErrInvalid, syscall.ENOTSUP, syscall.EEXIST}

func genFault(t *rapid.T) *faultP {
	p := &faultP{}
	c := &p.Config
	c.Compress = rapid.Bool().Draw(t, "compress")
	if rapid.IntRange(0, 2).Draw(t, "sweeps") == 0 {
		c.Sweep = int64(time.Second)
		c.Age = rapid.SampledFrom([]int64{0, int64(2 * time.Second)}).Draw(t, "age")
		c.Size = rapid.SampledFrom([]int64{0, 60}).Draw(t, "maxsize")
	}
	for j := rapid.IntRange(0, 2).Draw(t, "nforeign"); j > 0; j-- {
		p.Foreign = append(p.Foreign, rapid.IntRange(0, len(foreign)-1).Draw(t, "foreign"))
	}
	nkeys := rapid.IntRange(1, 4).Draw(t, "keys")
	for n := rapid.IntRange(2, 8).Draw(t, "n"); n > 0; n-- {
		s := fstepP{Kind: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "kind"), Key: rapid.IntRange(0, nkeys-1).Draw(t, "key")}
		switch s.Kind {
		case 0:
			s.Val = genVal(t)
			s.Val.Size = min(s.Val.Size, 5000)
		case 2:
			s.Pause = rapid.SampledFrom([]int64{1, 1000, 2100, 4000}).Draw(t, "pause") * int64(time.Millisecond)
		}
		p.Steps = append(p.Steps, s)
	}
	p.Errs = rapid.SliceOfN(rapid.IntRange(0, len(ioErrors)-1), 1, 5).Draw(t, "errs")
	p.Short = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 3, 20, 4999}), 1, 5).Draw(t, "short")
	p.Sticky = rapid.IntRange(0, 3).Draw(t, "sticky")
	if rapid.IntRange(0, 2).Draw(t, "twofaults") == 0 {
		p.Second = rapid.IntRange(1, 12).Draw(t, "second")
	}
	return p
}

// fired is a fault that was injected.
type fired struct {
	i    int
	kind string
	name string
}

func runFault(c *vf.Case, p *faultP) error {
	if !instrumented() {
		c.Label("not decided: the file system calls are not visible")
		return nil
	}
	n, kinds, err := faultRun(c, p, -1, false)
	if err != nil {
		return fmt.Errorf("without a fault: %w", err)
	}
	instore := 0
	for i := 0; i < n; i++ {
		_, _, err := faultRun(c, p, i, false)
		if err != nil {
			return fmt.Errorf("operation %d (%s) fails: %w", i, kinds[i], err)
		}
		switch kinds[i] {
		case "write", "sync", "syncdir", "rename", "create":
			instore++
		}
		if i%4 == p.Sticky {
			_, _, err := faultRun(c, p, i, true)
			if err != nil {
				return fmt.Errorf("operations from %d (%s) fail during one step: %w", i, kinds[i], err)
			}
		}
	}
	c.Label("operations %d", n/20*20)
	c.NT(instore > 0)
	return nil
}

// faultRun runs the plan with a fault at operation at; sticky: and at all
// further operations until the end of the step.
func faultRun(c *vf.Case, p *faultP, at int, sticky bool) (n int, kinds []string, err error) {
	dir := newDir()
	defer os.RemoveAll(dir)
	for _, f := range p.Foreign {
		addForeign(dir, f)
	}
	err = vf.Bubble(c, zsched.Sched{}, func() (err error) {
		var hits []fired
		var okAfter map[string]bool
		active := true
		ctl := &vos.Ctl{Root: dir}
		stuck := 0
		ctl.Fault = func(i int, kind, name string) *vos.Fault {
			hit := at >= 0 && active && (i == at || sticky && i > at && len(hits) > 0 || p.Second > 0 && i == at+p.Second && len(hits) > 0)
			if !hit {
				if len(hits) > 0 && okAfter != nil {
					okAfter[kind] = true
				}
				return nil
			}
			if stuck++; stuck > 300 {
				// a loop; let it end.
				active = false
			}
			hits = append(hits, fired{i, kind, name})
			if okAfter != nil {
				delete(okAfter, kind)
			}
			f := &vos.Fault{Err: ioErrors[p.Errs[at%len(p.Errs)]], Short: p.Short[at%len(p.Short)]}
			return f
		}
		vos.Start(ctl)
		defer vos.Stop()
		defer func() { n, kinds = ctl.Ops(), ctl.Kinds() }()

		var d *antcache.Diskstore
		age := time.Duration(p.Config.Age)
		may := state{}
		for _, k := range keys {
			may[k] = []*srec{nil}
		}
		evict := p.Config.Sweep > 0 && (p.Config.Age > 0 || p.Config.Size > 0)
		add := func(k uint64, s *srec) {
			for _, x := range may[k] {
				if x == s {
					return
				}
			}
			may[k] = append(may[k], s)
		}
		id := 0
		// missing: keys that may be missing until the next start.
		missing := map[uint64]bool{}
		open := func() error {
			missing = map[uint64]bool{}
			for try := 0; ; try++ {
				before := len(hits)
				var err error
				d, err = antcache.Open(dir, p.Config.options()...)
				if err != nil {
					if len(hits) == before {
						return fmt.Errorf("open: %w", err)
					}
					if open := ctl.OpenFiles(); len(open) > 0 {
						return fmt.Errorf("open failed (%w) and left files open: %v", err, open)
					}
					d = nil
					active = false
					if try > 2 {
						return fmt.Errorf("open: %w", err)
					}
					continue
				}
				tctx, cancel := context.WithTimeout(ctx, time.Hour)
				werr := d.Wait(tctx)
				cancel()
				if werr != nil || stuck > 300 {
					active = false
					return fmt.Errorf("the store does not become ready after a fault of %v", hits[0])
				}
				for _, h := range hits[before:] {
					for _, k := range keys {
						if h.kind == "readdir" || h.name == keyname(k) || h.kind == "fstat" || h.kind == "open" {
							missing[k] = true
						}
					}
				}
				return nil
			}
		}
		names := func() map[string]bool {
			m := map[string]bool{}
			for n := range listing(dir) {
				m[n] = true
			}
			return m
		}
		// load judges a load.
		load := func(k uint64) error {
			before := len(hits)
			v, err := d.Load(ctx, k)
			faulty := len(hits) > before
			if err != nil {
				if !faulty {
					return fmt.Errorf("load of key %d: %w", k, err)
				}
				return nil
			}
			if v == nil && missing[k] {
				return nil
			}
			if v == nil && faulty {
				return fmt.Errorf("load of key %d: the failing %s was answered with absence", k, hits[before].kind)
			}
			for _, s := range may[k] {
				if s == nil && v == nil || s != nil && v != nil && bytes.Equal(s.val, v) {
					return nil
				}
				if s != nil && v == nil && evict && (p.Config.Size > 0 || time.Since(s.at) > age) {
					return nil
				}
			}
			return fmt.Errorf("load of key %d: %s, possible are %v", k, describe(v), may[k])
		}
		all := func(when string) error {
			for _, k := range keys[:5] {
				if err := load(k); err != nil {
					return fmt.Errorf("%s: %w", when, err)
				}
			}
			return nil
		}
		if err := open(); err != nil {
			return err
		}
		defer func() {
			if d != nil {
				d.Close()
			}
		}()
		for i, s := range p.Steps {
			before := len(hits)
			switch s.Kind {
			case 0:
				k := keys[s.Key]
				id++
				r := &srec{id: id, key: k, val: s.Val.bytes(id), at: time.Now()}
				had := names()
				okAfter = map[string]bool{}
				err := d.Store(ctx, k, r.val)
				mine := hits[before:]
				switch {
				case err != nil && len(mine) == 0:
					return fmt.Errorf("step %d: %s failed although nothing failed: %w", i, r, err)
				case err != nil:
					add(k, r)
					if len(mine) == 1 && mine[0].kind != "remove" {
						for name := range names() {
							if !had[name] && name != keyname(k) {
								return fmt.Errorf("step %d: %s failed (%w) and left the file %s behind", i, r, err, name)
							}
						}
					}
				default:
					for _, h := range mine {
						if h.kind != "remove" && !okAfter[h.kind] {
							return fmt.Errorf("step %d: %s reported success although a %s failed", i, r, h.kind)
						}
					}
					may[k] = []*srec{r}
					delete(missing, k)
					for name := range names() {
						if !had[name] && name != keyname(k) && len(mine) == 0 {
							return fmt.Errorf("step %d: %s left the file %s behind", i, r, name)
						}
					}
				}
				okAfter = nil
				if open := ctl.OpenFiles(); len(open) > 1 {
					return fmt.Errorf("step %d: %s left files open: %v", i, r, open)
				}
			case 1:
				if err := load(keys[s.Key]); err != nil {
					return fmt.Errorf("step %d: %w", i, err)
				}
			case 2:
				time.Sleep(time.Duration(s.Pause))
				synctest.Wait()
			case 3:
				err := d.Close()
				d = nil
				if err != nil && len(hits) == before {
					return fmt.Errorf("step %d: close: %w", i, err)
				}
				if err := open(); err != nil {
					return fmt.Errorf("step %d: reopening: %w", i, err)
				}
			}
			if len(hits) > before {
				// the fault has been; from now on everything works.
				if sticky || p.Second == 0 {
					active = false
				}
			}
			if !active || at < 0 {
				if err := all(fmt.Sprintf("after step %d", i)); err != nil {
					return err
				}
			}
		}
		active = false
		if evict && p.Config.Age > 0 {
			// a later sweep succeeds.
			time.Sleep(age + 3*time.Second)
			synctest.Wait()
			for _, k := range keys[:5] {
				v, err := d.Load(ctx, k)
				if err != nil || v != nil {
					return fmt.Errorf("at the end: load of key %d after it expired and was swept: %s %v", k, describe(v), err)
				}
			}
			if len(missing) == 0 {
				for name := range names() {
					for _, k := range keys[:5] {
						if name == keyname(k) && unindexed(may[k]) {
							return fmt.Errorf("at the end: the expired file %s was not removed", name)
						}
					}
				}
			}
		}
		if err := d.Close(); err != nil {
			d = nil
			return fmt.Errorf("at the end: close: %w", err)
		}
		d = nil
		if open := ctl.OpenFiles(); len(open) > 0 {
			return fmt.Errorf("files are left open: %v", open)
		}
		if err := open(); err != nil {
			return err
		}
		if err := all("after reopening"); err != nil {
			return err
		}
		for _, k := range keys[:5] {
			id++
			r := &srec{id: id, key: k, val: valP{Size: 9}.bytes(id), at: time.Now()}
			if err := d.Store(ctx, k, r.val); err != nil {
				return fmt.Errorf("later %s: %w", r, err)
			}
			may[k] = []*srec{r}
		}
		if err := all("after storing again"); err != nil {
			return err
		}
		for _, f := range p.Foreign {
			if untouched(f) && !foreignLeft(dir, f) {
				return fmt.Errorf("the foreign file %q was removed", foreign[f])
			}
		}
		return nil
	})
	return
}

// unindexed: no store of the key failed, so that its file is in the index.
func unindexed(l []*srec) bool { return len(l) == 1 }
