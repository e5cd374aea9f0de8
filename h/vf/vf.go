// Package vf drives the generated-input checks.
package vf

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/yields/ant/zverif/zsched"
	"pgregory.net/rapid"
)

// Case is one execution of a plan.
type Case struct {
	T       *testing.T
	Thor    bool
	nontriv bool
	sig     string
	labels  []string
	note    string
	known   map[string]string
}

// NT marks the case as non-trivial.
func (c *Case) NT(cond bool) {
	if cond {
		c.nontriv = true
	}
}

// Sig adds to the signature by which distinct cases are counted; without it the
// plan is the signature.
func (c *Case) Sig(s string) { c.sig += s + ";" }

// Label classifies the case.
func (c *Case) Label(format string, args ...any) {
	c.labels = append(c.labels, fmt.Sprintf(format, args...))
}

// LabelIf classifies the case when cond holds.
func (c *Case) LabelIf(cond bool, l string) {
	if cond {
		c.labels = append(c.labels, l)
	}
}

// Note adds an observation to the case's sample.
func (c *Case) Note(format string, args ...any) {
	c.note += fmt.Sprintf(format, args...) + "; "
}

// KnownError is a violation that may be listed in the known-findings file.
type KnownError struct {
	Key string
	Err error
}

func (k *KnownError) Error() string { return k.Err.Error() + " [finding " + k.Key + "]" }
func (k *KnownError) Unwrap() error { return k.Err }

// Known returns an error that is reported as a known finding if key is listed
// for the property.
func Known(key string, format string, args ...any) error {
	return &KnownError{key, fmt.Errorf(format, args...)}
}

// Sub is one generated check of a property.
type Sub struct {
	Name            string
	Quick, Thorough int // cases over all processes
	gen             func(*rapid.T) any
	run             func(*Case, any) error
	decode          func([]byte) (any, error)
	// Replays is how often a saved plan is run when replaying.
	Replays int
	Stall   time.Duration
}

// S makes a Sub.
func S[T any](name string, quick, thorough int, gen func(*rapid.T) *T, run func(*Case, *T) error) Sub {
	return Sub{
		Name: name, Quick: quick, Thorough: thorough,
		gen: func(t *rapid.T) any { return gen(t) },
		run: func(c *Case, p any) error { return run(c, p.(*T)) },
		decode: func(b []byte) (any, error) {
			v := new(T)
			return v, json.Unmarshal(b, v)
		},
		Replays: 60,
	}
}

// Check decides one property.
type Check struct {
	ID          string
	Rule        string
	Level       string
	Assumptions []string
	Subs        []Sub
}

var checks = map[string]*Check{}

// Register registers a check.
func Register(c Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = &c
}

type violation struct {
	Sub   string          `json:"sub"`
	Error string          `json:"error"`
	Plan  json.RawMessage `json:"plan"`
}

type result struct {
	Property    string            `json:"property"`
	Rule        string            `json:"rule"`
	Assumptions []string          `json:"assumptions"`
	Level       string            `json:"level"`
	Evaluations int               `json:"evaluations"`
	Nontrivial  []string          `json:"nontrivial"`
	Subs        map[string]int    `json:"subs"`
	Labels      map[string]int    `json:"labels"`
	Samples     []any             `json:"samples"`
	Violations  []violation       `json:"violations"`
	Known       map[string]int    `json:"known"`
	KnownText   map[string]string `json:"known_text"`
	Cut         bool              `json:"cut"`
	Harness     string            `json:"harness_error"`
}

type harness struct {
	t        *testing.T
	res      result
	seen     map[uint64]struct{}
	known    map[string]string
	deadline time.Time
	cur      string
	lastFail *violation
	caseAt   atomic.Int64
	stallNS  atomic.Int64
}

func envInt(k string, d int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return d
}

// Scratch returns the scratch directory.
func Scratch() string {
	if d := os.Getenv("VF_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

// HarnessError is panicked by the harness when it cannot do its work.
type HarnessError string

// Bug aborts the check as an error of the harness, not a violation.
func Bug(format string, args ...any) { panic(HarnessError(fmt.Sprintf(format, args...))) }

// Main runs the check selected by the environment.
func Main(t *testing.T) {
	id := os.Getenv("VF_PROP")
	c := checks[id]
	if c == nil {
		t.Fatalf("no such property %q", id)
	}
	h := &harness{t: t, seen: map[uint64]struct{}{}, known: loadKnown(id), cur: os.Getenv("VF_CUR")}
	h.res = result{Property: id, Rule: c.Rule, Level: c.Level, Assumptions: c.Assumptions,
		Subs: map[string]int{}, Labels: map[string]int{}, Known: map[string]int{}, KnownText: map[string]string{}}
	go h.watchdog()
	if f := os.Getenv("VF_REPLAY"); f != "" {
		h.replay(c, f)
		h.write()
		return
	}
	thorough := os.Getenv("VF_TIER") == "thorough"
	shard, shards := envInt("VF_SHARD", 0), envInt("VF_SHARDS", 1)
	budget := 150 * time.Second
	if thorough {
		budget = 660 * time.Second
	}
	start := time.Now()
	for i, s := range c.Subs {
		n := s.Quick
		if thorough {
			n = s.Thorough
		}
		// VF_SCALE is a percentage, for experiments with many mutants.
		n = n * int(envInt("VF_SCALE", 100)) / 100
		n = (n + int(shards) - 1) / int(shards)
		// each sub-check may use its share of what is left.
		left := budget - time.Since(start)
		h.deadline = time.Now().Add(left / time.Duration(len(c.Subs)-i))
		h.runSub(c, s, n, thorough, envInt("VF_SEED", 1), shard)
		if h.res.Harness != "" {
			break
		}
	}
	h.write()
}

func (h *harness) write() {
	for k := range h.seen {
		h.res.Nontrivial = append(h.res.Nontrivial, strconv.FormatUint(k, 36))
	}
	b, err := json.Marshal(h.res)
	if err != nil {
		h.t.Fatalf("marshal: %v", err)
	}
	if err := os.WriteFile(os.Getenv("VF_OUT"), b, 0o644); err != nil {
		h.t.Fatalf("write: %v", err)
	}
}

// watchdog ends the process when one case takes too long in real time.
func (h *harness) watchdog() {
	for {
		time.Sleep(time.Second)
		at := h.caseAt.Load()
		if at == 0 {
			continue
		}
		if d := time.Since(time.Unix(0, at)); d > time.Duration(h.stallNS.Load()) {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "case stalled for %s\n%s\n", d, buf)
			os.Exit(44)
		}
	}
}

func seedOf(id, sub string, seed, shard int64) uint64 {
	f := fnv.New64a()
	fmt.Fprintf(f, "%s/%s/%d/%d", id, sub, seed, shard)
	v := f.Sum64() & 0x7fffffffffffffff
	if v == 0 {
		v = 1
	}
	return v
}

func setFlag(k, v string) {
	if err := flag.Set(k, v); err != nil {
		panic(err)
	}
}

func (h *harness) runSub(c *Check, s Sub, n int, thorough bool, seed, shard int64) {
	setFlag("rapid.checks", strconv.Itoa(n))
	setFlag("rapid.seed", strconv.FormatUint(seedOf(c.ID, s.Name, seed, shard), 10))
	setFlag("rapid.nofailfile", "true")
	if thorough {
		setFlag("rapid.shrinktime", "40s")
	} else {
		setFlag("rapid.shrinktime", "12s")
	}
	h.lastFail = nil
	samples := 0
	ok := h.t.Run(s.Name, func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			if time.Now().After(h.deadline) && h.lastFail == nil {
				h.res.Cut = true
				return
			}
			if h.res.Harness != "" {
				return
			}
			p := s.gen(rt)
			b, err := json.Marshal(p)
			if err != nil {
				h.res.Harness = "marshal plan: " + err.Error()
				return
			}
			// Run the decoded plan, so that a replay runs the same thing.
			p, err = s.decode(b)
			if err != nil {
				h.res.Harness = "decode plan: " + err.Error()
				return
			}
			cs, err := h.one(t, s, p, b, thorough)
			if h.lastFail == nil {
				h.res.Evaluations++
				h.res.Subs[s.Name]++
				for _, l := range cs.labels {
					h.res.Labels[s.Name+": "+l]++
				}
				if cs.nontriv {
					f := fnv.New64a()
					f.Write([]byte(s.Name))
					if cs.sig != "" {
						f.Write([]byte(cs.sig))
					} else {
						f.Write(b)
					}
					if len(h.seen) < 200000 {
						h.seen[f.Sum64()] = struct{}{}
					}
					if samples < 1 && len(b) < 3000 && h.res.Evaluations > 2 {
						samples++
						h.res.Samples = append(h.res.Samples, map[string]any{"sub": s.Name, "plan": json.RawMessage(b), "observed": cs.note, "classes": cs.labels})
					}
				}
			}
			if err != nil {
				h.lastFail = &violation{Sub: s.Name, Error: err.Error(), Plan: b}
				// One message, so that shrinking does not stop at its text.
				rt.Fatalf("violation")
			}
		})
	})
	if h.lastFail != nil {
		h.res.Violations = append(h.res.Violations, *h.lastFail)
	} else if !ok && h.res.Harness == "" {
		h.res.Harness = "sub-check " + s.Name + " failed without a recorded violation (generator error?)"
	}
}

// one runs a plan once.
func (h *harness) one(t *testing.T, s Sub, p any, b []byte, thorough bool) (cs *Case, err error) {
	cs = &Case{T: t, Thor: thorough}
	if h.cur != "" {
		buf := make([]byte, 0, len(b)+100)
		buf = append(buf, fmt.Sprintf(`{"sub":%q,"plan":`, s.Name)...)
		buf = append(buf, b...)
		buf = append(buf, '}')
		os.WriteFile(h.cur, buf, 0o644)
	}
	stall := s.Stall
	if stall == 0 {
		stall = 40 * time.Second
	}
	h.stallNS.Store(int64(stall))
	h.caseAt.Store(time.Now().UnixNano())
	defer h.caseAt.Store(0)
	defer func() {
		if r := recover(); r != nil {
			err = h.panicked(r, debug.Stack())
		}
		err = h.filter(err)
	}()
	err = s.run(cs, p)
	return
}

func (h *harness) panicked(r any, stack []byte) error {
	if e, ok := r.(HarnessError); ok {
		h.res.Harness = string(e) + "\n" + string(stack)
		return nil
	}
	return fmt.Errorf("panic: %v\n%s", r, trimStack(string(stack)))
}

func trimStack(s string) string {
	if len(s) > 5000 {
		s = s[:5000]
	}
	return s
}

// filter turns listed findings into notes.
func (h *harness) filter(err error) error {
	var k *KnownError
	if errors.As(err, &k) {
		if text, ok := h.known[k.Key]; ok {
			h.res.Known[k.Key]++
			h.res.KnownText[k.Key] = text
			return nil
		}
	}
	return err
}

func (h *harness) replay(c *Check, path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		h.res.Harness = err.Error()
		return
	}
	var f struct {
		Sub  string          `json:"sub"`
		Plan json.RawMessage `json:"plan"`
	}
	for i := 0; i < 2; i++ {
		if err := json.Unmarshal(b, &f); err != nil {
			h.res.Harness = err.Error()
			return
		}
		var in struct {
			Sub  *string         `json:"sub"`
			Plan json.RawMessage `json:"plan"`
		}
		if json.Unmarshal(f.Plan, &in) == nil && in.Sub != nil && in.Plan != nil {
			b = f.Plan
			continue
		}
		break
	}
	for _, s := range c.Subs {
		if s.Name != f.Sub {
			continue
		}
		for i := 0; i < s.Replays; i++ {
			p, err := s.decode(f.Plan)
			if err != nil {
				h.res.Harness = err.Error()
				return
			}
			_, err = h.one(h.t, s, p, f.Plan, false)
			h.res.Evaluations++
			if err != nil {
				h.res.Violations = append(h.res.Violations, violation{Sub: s.Name, Error: err.Error(), Plan: f.Plan})
				return
			}
		}
		fmt.Printf("replay: no violation in %d runs\n", s.Replays)
		return
	}
	h.res.Harness = "replay: no sub-check " + f.Sub
}

// loadKnown reads lines "known: property=<id> key=<key> <text>".
func loadKnown(id string) map[string]string {
	ret := map[string]string{}
	b, err := os.ReadFile(os.Getenv("VF_KNOWN"))
	if err != nil {
		return ret
	}
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "known: property="+id+" key=")
		if !ok {
			continue
		}
		key, text, _ := strings.Cut(rest, " ")
		ret[key] = text
	}
	return ret
}

// GenSched generates a schedule.
func GenSched(t *rapid.T) zsched.Sched {
	s := zsched.Sched{Seed: rapid.Uint64().Draw(t, "sched")}
	switch rapid.IntRange(0, 4).Draw(t, "schedkind") {
	case 0:
		// run to completion between blocking operations.
	case 1:
		s.Prob, s.Max = 24, 1000
	case 2:
		s.Prob, s.Max = 128, 300
	case 3:
		s.Prob, s.Max = 255, 64
	case 4:
		// few long delays: one goroutine stands still while others go on.
		s.Prob, s.Max = 16, 200
		s.Long, s.LongNS = rapid.SampledFrom([]int{8, 40, 150}).Draw(t, "long"), rapid.SampledFrom([]int{20_000, 400_000, 3_000_000}).Draw(t, "longns")
	}
	return s
}

var bubbleMu sync.Mutex

// Bubble runs fn in a synctest bubble under schedule s. After fn returns, the
// bubble is given an hour of virtual time to finish what is left; goroutines
// that remain blocked are reported as an error.
func Bubble(c *Case, s zsched.Sched, fn func() error) (err error) {
	bubbleMu.Lock()
	defer bubbleMu.Unlock()
	var ret error
	var done bool
	defer func() {
		zsched.Stop()
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if e, ok := r.(HarnessError); ok {
				panic(e)
			}
			if strings.Contains(msg, "blocked goroutines remain") || strings.Contains(msg, "all goroutines in bubble are blocked") {
				if done && ret != nil {
					err = ret
					return
				}
				if done {
					err = fmt.Errorf("goroutines are left blocked after the operation ended: %s\n%s", msg, blockedStacks())
				} else {
					err = fmt.Errorf("deadlock: %s\n%s", msg, blockedStacks())
				}
				return
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	synctest.Test(c.T, func(t *testing.T) {
		zsched.Start(s)
		func() {
			defer func() {
				if r := recover(); r != nil {
					if e, ok := r.(HarnessError); ok {
						panic(e)
					}
					ret = fmt.Errorf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
				}
			}()
			ret = fn()
		}()
		done = true
		c.LabelIf(s.Prob > 0, "preempted schedule")
		zsched.Stop()
		time.Sleep(time.Hour)
	})
	return ret
}

// blockedStacks returns the stacks of goroutines inside bubbles.
func blockedStacks() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "synctest bubble") && strings.Contains(g, "/yields/ant") {
			out = append(out, g)
		}
	}
	s := strings.Join(out, "\n\n")
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}
