// Package zsched provides the yield points that the instrumenter inserts
// between the statements of the code under test.
//
// While a schedule is active (inside a testing/synctest bubble) a yield point
// sleeps for a pseudo-random amount of virtual time, so the interleaving of the
// goroutines is a function of the schedule's seed. Otherwise it does nothing.
package zsched

import (
	"os"
	"runtime"
	"sync/atomic"
	"time"
)

// Sched is a schedule.
type Sched struct {
	Seed   uint64 `json:"seed"`
	Prob   int    `json:"prob"`   // of 256: sleep at a yield point.
	Max    int    `json:"max"`    // max virtual sleep, ns.
	Long   int    `json:"long"`   // of 4096: long sleep at a yield point.
	LongNS int    `json:"longns"` // duration of a long sleep.
}

type state struct {
	Sched
	n      atomic.Uint64
	budget uint64
	over   atomic.Bool
}

var cur atomic.Pointer[state]

// Yield only makes P call runtime.Gosched at random (race mode).
var raceMode atomic.Bool

// SetRaceMode turns race mode on.
func SetRaceMode(v bool) { raceMode.Store(v) }

// DefaultBudget is the number of steps after which every yield point sleeps for
// an hour of virtual time, which turns a spinning loop into passing time.
const DefaultBudget = 40_000_000

// Start activates s.
func Start(s Sched) {
	st := &state{Sched: s, budget: DefaultBudget}
	cur.Store(st)
}

// Stop deactivates the schedule and returns the number of steps.
func Stop() uint64 {
	st := cur.Swap(nil)
	if st == nil {
		return 0
	}
	return st.n.Load()
}

// Steps returns the number of steps so far.
func Steps() uint64 {
	if st := cur.Load(); st != nil {
		return st.n.Load()
	}
	return 0
}

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a schedule-controlled number below n.
func Intn(n int) int {
	if n <= 1 {
		return 0
	}
	st := cur.Load()
	if st == nil {
		return 0
	}
	r := mix(st.Seed + st.n.Add(1)*0x9e3779b97f4a7c15)
	return int(r>>1) % n
}

var rn atomic.Uint64

// P is a yield point.
func P() {
	st := cur.Load()
	if st == nil {
		if raceMode.Load() {
			// No shared write here: it would order the goroutines.
			if uint64(time.Now().UnixNano())%7 == 0 {
				runtime.Gosched()
			}
		}
		return
	}
	n := st.n.Add(1)
	if n > st.budget {
		if time.Now().Year() > 2250 {
			// Centuries passed: something waits in vain while others go on. The
			// runtime would crash at the end of its clock; end like a stall.
			os.Stderr.WriteString("case does not end in virtual time\n")
			buf := make([]byte, 1<<20)
			os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			os.Exit(44)
		}
		time.Sleep(time.Hour)
		return
	}
	r := mix(st.Seed + n*0x9e3779b97f4a7c15)
	if st.Long > 0 && int(r&4095) < st.Long {
		time.Sleep(time.Duration(st.LongNS))
		return
	}
	r >>= 12
	if int(r&255) < st.Prob {
		r >>= 8
		if st.Max > 0 {
			time.Sleep(time.Duration(1 + r%uint64(st.Max)))
		} else {
			runtime.Gosched()
		}
	}
}
