package disk

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"sync/atomic"
	"time"

	"github.com/yields/ant/antcache"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/vos"
	"pgregory.net/rapid"
)

var ctx = context.Background()

// keys of the entries.
var keys = []uint64{0, 1, 7, 10, 1<<64 - 1, 1 << 63, 3}

func keyname(k uint64) string { return strconv.FormatUint(k, 10) }

var dirs int

// newDir makes an empty directory.
func newDir() string {
	dirs++
	d := filepath.Join(base, strconv.Itoa(dirs))
	if err := os.Mkdir(d, 0o755); err != nil {
		vf.Bug("mkdir: %v", err)
	}
	return d
}

// listing returns the regular files of a directory and their contents' sizes.
func listing(dir string) map[string]int64 {
	ret := map[string]int64{}
	es, err := os.ReadDir(dir)
	if err != nil {
		vf.Bug("readdir: %v", err)
	}
	for _, e := range es {
		if fi, err := e.Info(); err == nil && fi.Mode().IsRegular() {
			ret[e.Name()] = fi.Size()
		}
	}
	return ret
}

// valP is a value: a unique tag (unless Size is smaller) and a filling.
type valP struct {
	Size int `json:"n"`
	Kind int `json:"k"` // 0 text, 1 pseudo-random bytes, 2 zeros, 3 like a snappy block
}

func genVal(t *rapid.T) valP {
	if rapid.IntRange(0, 999).Draw(t, "huge") == 999 {
		return valP{Size: rapid.SampledFrom([]int{65536, 140_000, 600_000, 1_100_000, 2_500_000}).Draw(t, "hugesize"), Kind: rapid.IntRange(0, 3).Draw(t, "hkind")}
	}
	return valP{Size: rapid.SampledFrom([]int{0, 0, 1, 3, 8, 40, 40, 300, 5000, 70000}).Draw(t, "size"), Kind: rapid.IntRange(0, 3).Draw(t, "kind")}
}

func (v valP) bytes(id int) []byte {
	b := make([]byte, v.Size)
	switch v.Kind {
	case 0:
		copy(b, bytes.Repeat([]byte("text "), v.Size/5+1))
	case 1:
		x := uint64(id)*0x9e3779b97f4a7c15 + 1
		for i := range b {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			b[i] = byte(x)
		}
	case 3:
		for i := range b {
			b[i] = 0xff
		}
	}
	copy(b, fmt.Sprintf("<%d>", id))
	return b
}

// foreign is what else lies in a directory.
var foreign = []string{"1.tmp", "123456.tmp", "tmp", ".hidden", "README", "-1", "99999999999999999999999", "007", "5x", " 1", "+1", "0x1", "1.0", "00", "7.tmp", "1e3", "DIR:sub", "DIR:77", "LINK:88"}

func addForeign(dir string, i int) {
	name := foreign[i]
	switch {
	case len(name) > 4 && name[:4] == "DIR:":
		os.Mkdir(filepath.Join(dir, name[4:]), 0o755)
	case len(name) > 5 && name[:5] == "LINK:":
		os.Symlink("/nonexistent/verif", filepath.Join(dir, name[5:]))
	default:
		os.WriteFile(filepath.Join(dir, name), []byte("foreign"), 0o644)
	}
}

// untouched says whether a foreign file is to be left alone.
func untouched(i int) bool {
	n := foreign[i]
	return filepath.Ext(n) != ".tmp" && n != "tmp"
}

func foreignLeft(dir string, i int) bool {
	name := foreign[i]
	for _, p := range []string{"DIR:", "LINK:"} {
		if len(name) > len(p) && name[:len(p)] == p {
			name = name[len(p):]
		}
	}
	_, err := os.Lstat(filepath.Join(dir, name))
	return err == nil
}

// configP is the configuration of a store.
type configP struct {
	Compress bool  `json:"compress,omitempty"`
	Age      int64 `json:"age"`  // ns
	Size     int64 `json:"size"` // bytes
	Sweep    int64 `json:"sweep"`
	// Twice gives every option twice, the first time with another value.
	Twice bool `json:"twice,omitempty"`
	// Default leaves the options out.
	Default bool `json:"default,omitempty"`
}

func (c *configP) options() []antcache.DiskOption {
	var o []antcache.DiskOption
	if c.Compress {
		o = append(o, antcache.Compress())
	}
	if c.Default {
		return o
	}
	if c.Twice {
		o = append(o, antcache.Maxage(time.Nanosecond), antcache.SweepEvery(-1), antcache.Maxsize(1))
	}
	return append(o, antcache.SweepEvery(time.Duration(c.Sweep)), antcache.Maxage(time.Duration(c.Age)), antcache.Maxsize(c.Size))
}

// srec is a call of Store.
type srec struct {
	id    int
	key   uint64
	val   []byte
	begin int64 // logical times
	end   int64 // 0: in progress, or failed
	at    time.Time
	done  time.Time
	sess  int
	logb  int // length of the operation log
	loge  int
	err   error
}

// hist is a history of stores.
type hist struct {
	clock  atomic.Int64
	stores []*srec
}

func (h *hist) tick() int64 { return h.clock.Add(1) }

// acceptable says whether a load between b and e may return v, which is nil for
// absence. gone says whether a completed store may have been removed.
func (h *hist) acceptable(key uint64, v []byte, b, e int64, gone func(*srec) bool) error {
	latest := func(s *srec) bool {
		for _, x := range h.stores {
			if x.key == key && x.end != 0 && x.end < b && s.end != 0 && x.begin > s.end {
				return false
			}
		}
		return true
	}
	if v == nil {
		for _, s := range h.stores {
			// a later store takes the place of s even while it is in progress.
			if s.key == key && s.end != 0 && s.end < b && !gone(s) {
				return fmt.Errorf("the load of key %d found nothing, although the store of %s had completed", key, s)
			}
		}
		return nil
	}
	for _, s := range h.stores {
		if s.key == key && s.begin < e && bytes.Equal(s.val, v) && latest(s) {
			return nil
		}
	}
	for _, s := range h.stores {
		if bytes.Equal(s.val, v) {
			return fmt.Errorf("the load of key %d returned the value of %s, which is another key's, or was replaced", key, s)
		}
	}
	return fmt.Errorf("the load of key %d returned %d bytes that were never stored: %.60q", key, len(v), v)
}

func (s *srec) String() string {
	return fmt.Sprintf("store %d (key %d, %d bytes)", s.id, s.key, len(s.val))
}

func sortedNames(m map[string]int64) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// instrumented says whether the file system operations of the code under test
// go through vos; found out by trying.
var instrumentedState int

func instrumented() bool {
	if instrumentedState == 0 {
		instrumentedState = 1
		dir := newDir()
		defer os.RemoveAll(dir)
		c := &vos.Ctl{Root: dir, Record: true}
		vos.Start(c)
		defer vos.Stop()
		d, err := antcache.Open(dir, antcache.SweepEvery(0))
		if err != nil {
			return false
		}
		defer d.Close()
		d.Store(ctx, 1, []byte("x"))
		crash := c.NewCrash()
		for _, o := range c.Log() {
			crash.Step(o)
		}
		if sameDisk(crash.Now(), dir) {
			instrumentedState = 2
		}
	}
	return instrumentedState == 2
}

// sameDisk compares the model of a directory with the directory.
func sameDisk(m vos.Disk, dir string) bool {
	l := listing(dir)
	if len(l) != len(m) {
		return false
	}
	for name, b := range m {
		got, err := os.ReadFile(filepath.Join(dir, name))
		if err != nil || !bytes.Equal(got, b) {
			return false
		}
	}
	return true
}
