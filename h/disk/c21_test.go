package disk

import (
	"bytes"
	"fmt"
	"os"
	"sync"
	"time"

	"github.com/golang/snappy"
	"github.com/yields/ant/antcache"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/vos"
	"github.com/yields/ant/zverif/zsched"
	"pgregory.net/rapid"
)

// stored is the size of a value on disk.
func stored(compress bool, v []byte) int64 {
	if compress {
		return int64(len(snappy.Encode(nil, v)))
	}
	return int64(len(v))
}

func init() {
	vf.Register(vf.Check{
		ID: "C21",
		Rule: "concurrent histories of stores and loads over one to three sessions on one directory, with sweeps, startup races, foreign files and left temporary files; crowd: hundreds of entries, some of megabytes, over reopenings; " +
			"non-trivial: at least two stores that overlap or lie in different sessions, and a load; distinct by plan",
		Assumptions: []string{
			"a load that begins before the store is ready may miss what earlier sessions stored",
			"foreign files do not have the name of a key (decimal, no leading zeros)",
		},
		Subs: []vf.Sub{
			vf.S("histories", 20000, 400000, func(t *rapid.T) *histP { return genHist(t, false) }, runHist),
			vf.S("crowd", 80, 3000, genCrowd, runCrowd),
			vf.S("sweeps", 20000, 400000, func(t *rapid.T) *histP { return genHist(t, true) }, runHist),
		},
	})
}

// crowdP stores many entries.
type crowdP struct {
	N        int    `json:"n"`
	Salt     uint64 `json:"salt"`
	Gors     int    `json:"gors"`
	Sessions int    `json:"sessions"`
	Compress bool   `json:"compress"`
	Sizes    []int  `json:"sizes"`
	Sweep    bool   `json:"sweep"` // sweeps that have nothing to remove
}

func genCrowd(t *rapid.T) *crowdP {
	p := &crowdP{
		N: rapid.SampledFrom([]int{20, 60, 60, 150, 300, 600}).Draw(t, "n"), Salt: rapid.Uint64().Draw(t, "salt"),
		Gors: rapid.IntRange(1, 6).Draw(t, "gors"), Sessions: rapid.IntRange(1, 3).Draw(t, "sessions"),
		Compress: rapid.Bool().Draw(t, "compress"), Sweep: rapid.Bool().Draw(t, "sweep"),
	}
	p.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 9, 30, 100, 100, 4096, 20000}), 1, 6).Draw(t, "sizes")
	if rapid.IntRange(0, 15).Draw(t, "multitude") == 15 {
		p.N, p.Sizes, p.Sessions = rapid.SampledFrom([]int{1100, 2500}).Draw(t, "nmany"), []int{20, 0, 1}, 2
	}
	if p.N < 100 {
		p.Sizes = append(p.Sizes, rapid.SampledFrom([]int{65536, 200_000, 1_100_000, 3_000_000}).Draw(t, "big"))
	}
	return p
}

// runCrowd checks that nothing gets lost or mixed up among many entries.
func runCrowd(c *vf.Case, p *crowdP) error {
	dir := newDir()
	defer os.RemoveAll(dir)
	return vf.Bubble(c, zsched.Sched{}, func() error {
		vos.Start(&vos.Ctl{Root: dir})
		defer vos.Stop()
		used := map[uint64]bool{}
		ks := make([]uint64, p.N)
		x := p.Salt
		for i := range ks {
			x += 0x9e3779b97f4a7c15
			z := (x ^ x>>30) * 0xbf58476d1ce4e5b9
			z = (z ^ z>>27) * 0x94d049bb133111eb
			z ^= z >> 31
			ks[i] = []uint64{z, z >> 32, z | 1<<63, uint64(i), z >> 1}[i%5]
			for used[ks[i]] {
				ks[i]++
			}
			used[ks[i]] = true
		}
		key := func(i int) uint64 { return ks[i] }
		want := map[uint64][]byte{}
		cfg := configP{Compress: p.Compress, Age: int64(24 * time.Hour), Size: 1 << 40}
		if p.Sweep {
			cfg.Sweep = int64(time.Millisecond)
		}
		val := func(sess, i int) []byte {
			return valP{p.Sizes[(i+sess)%len(p.Sizes)], (i + sess) % 4}.bytes(sess*10000 + i)
		}
		for sess := 0; sess < p.Sessions; sess++ {
			d, err := antcache.Open(dir, cfg.options()...)
			if err != nil {
				return fmt.Errorf("session %d: open: %w", sess, err)
			}
			err = func() error {
				if sess > 0 {
					if err := d.Wait(ctx); err != nil {
						return err
					}
					for k, w := range want {
						if v, err := d.Load(ctx, k); err != nil || !bytes.Equal(v, w) {
							return fmt.Errorf("session %d: key %d loads %d bytes (%v), %d were stored in an earlier session", sess, k, len(v), err, len(w))
						}
					}
				}
				// every session replaces some and adds others.
				var wg sync.WaitGroup
				errs := make([]error, p.Gors)
				mine := make([]map[uint64][]byte, p.Gors)
				for g := range errs {
					mine[g] = map[uint64][]byte{}
					for i := g; i < p.N; i += p.Gors {
						if sess == 0 || i%3 == sess-1 {
							mine[g][key(i)] = nil
						}
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := g; i < p.N && errs[g] == nil; i += p.Gors {
							if sess > 0 && i%3 != sess-1 {
								continue
							}
							v := val(sess, i)
							mine[g][key(i)] = v
							errs[g] = d.Store(ctx, key(i), append([]byte(nil), v...))
							if i%16 == 0 {
								time.Sleep(time.Millisecond)
							}
						}
					}()
				}
				wg.Wait()
				for g, err := range errs {
					if err != nil {
						return fmt.Errorf("session %d: store: %w", sess, err)
					}
					for k, v := range mine[g] {
						want[k] = v
					}
				}
				time.Sleep(10 * time.Millisecond)
				for k, w := range want {
					v, err := d.Load(ctx, k)
					if err != nil || !bytes.Equal(v, w) || v == nil {
						return fmt.Errorf("session %d: key %d loads %d bytes (%v), %d were stored", sess, k, len(v), err, len(w))
					}
				}
				return nil
			}()
			if cerr := d.Close(); err == nil && cerr != nil {
				err = fmt.Errorf("session %d: close: %w", sess, cerr)
			}
			if err != nil {
				return err
			}
		}
		c.NT(p.Sessions > 1)
		c.Label("entries of a crowd")
		c.Note("%d entries, %d sessions, %d goroutines", len(want), p.Sessions, p.Gors)
		return nil
	})
}
