package core

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/zsched"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID: "C08",
		Rule: "random scripts of producers (batches, pauses, cancelled contexts), consumers (pauses, delayed acknowledgement), waiters and an optional close, on a random schedule; " +
			"non-trivial: at least 2 producers or consumers, at least 3 URLs delivered, and a consumer that had to wait",
		Assumptions: []string{"order is judged with a logical clock: only operations that do not overlap are ordered"},
		Subs: []vf.Sub{
			vf.S("history", 40000, 800000, genC08, runC08),
			vf.S("large", 240, 4000, genC08Large, runC08),
			vf.S("repeats", 3000, 60000, genC08Rep, runC08Rep),
		},
	})
}

type prodOp struct {
	N      int  `json:"n"`
	Wait   int  `json:"w"` // pause before, µs
	Cancel bool `json:"c"`
}

type consP struct {
	N     int   `json:"n"`   // URLs to take, -1: until end
	Pause []int `json:"p"`   // µs before each dequeue
	Ack   []int `json:"ack"` // µs before acknowledging, cyclic
	Start int   `json:"start"`
}

type c08P struct {
	Size    int          `json:"size"`
	Prods   [][]prodOp   `json:"prods"`
	Cons    []consP      `json:"cons"`
	Waiters []int        `json:"waiters"` // µs at which Wait is called
	Close   int          `json:"close"`   // µs, -1: at the end
	Closers int          `json:"closers"`
	Sched   zsched.Sched `json:"sched"`
}

// holdUS is how long a URL is held that is not acknowledged soon: 10 minutes.
const holdUS = 600_000_000

func genUS(t *rapid.T) int {
	return rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5, 20, 100}).Draw(t, "us")
}

func genC08(t *rapid.T) *c08P {
	p := &c08P{Size: rapid.IntRange(0, 4).Draw(t, "size"), Close: -1, Sched: vf.GenSched(t)}
	us := rapid.Custom(func(t *rapid.T) int { return genUS(t) })
	op := rapid.Custom(func(t *rapid.T) prodOp {
		return prodOp{rapid.IntRange(0, 4).Draw(t, "n"), genUS(t), rapid.IntRange(0, 9).Draw(t, "cancel") == 0}
	})
	p.Prods = rapid.SliceOfN(rapid.SliceOfN(op, 1, 5), 1, 4).Draw(t, "prods")
	p.Cons = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) consP {
		ack := rapid.SliceOfN(us, 1, 3).Draw(t, "ack")
		if rapid.IntRange(0, 5).Draw(t, "holds") == 0 {
			// The URL is still unacknowledged when everything else has come to rest.
			ack[rapid.IntRange(0, len(ack)-1).Draw(t, "hold")] = holdUS
		}
		return consP{rapid.SampledFrom([]int{-1, -1, 1, 2, 3}).Draw(t, "n"), rapid.SliceOfN(us, 1, 3).Draw(t, "pause"), ack, genUS(t)}
	}), 1, 5).Draw(t, "cons")
	p.Waiters = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 3, 30, 200}), 0, 2).Draw(t, "waiters")
	if rapid.Bool().Draw(t, "closes") {
		p.Close = rapid.SampledFrom([]int{0, 1, 2, 6, 30, 150}).Draw(t, "close")
	}
	p.Closers = rapid.IntRange(1, 2).Draw(t, "closers")
	return p
}

// genC08Large generates histories with long backlogs.
func genC08Large(t *rapid.T) *c08P {
	p := &c08P{Size: rapid.IntRange(0, 4).Draw(t, "size"), Close: -1, Closers: 1}
	if rapid.Bool().Draw(t, "yields") {
		p.Sched = zsched.Sched{Seed: rapid.Uint64().Draw(t, "sched"), Prob: 8, Max: 200}
	}
	op := rapid.Custom(func(t *rapid.T) prodOp {
		return prodOp{rapid.SampledFrom([]int{1, 30, 64, 100, 257, 600, 1025, 2000}).Draw(t, "n"), genUS(t), false}
	})
	p.Prods = rapid.SliceOfN(rapid.SliceOfN(op, 1, 4), 1, 2).Draw(t, "prods")
	p.Cons = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) consP {
		return consP{rapid.SampledFrom([]int{-1, -1, 31, 500, 1030}).Draw(t, "n"), rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 0, 5, 100}), 1, 8).Draw(t, "pause"), []int{0}, genUS(t)}
	}), 1, 3).Draw(t, "cons")
	if rapid.IntRange(0, 2).Draw(t, "waits") == 0 {
		p.Waiters = []int{0}
	}
	if rapid.IntRange(0, 3).Draw(t, "closes") == 0 {
		p.Close = rapid.SampledFrom([]int{6, 150, 4000}).Draw(t, "close")
	}
	return p
}

// fifo judges the order of delivery: an item whose enqueue ended before
// another's began, or that precedes it in its batch, is not delivered after it.
func fifo(items []*qItem) error {
	// latest returns the item that is dequeued last, undelivered ones never are.
	latest := func(a, b *qItem) *qItem {
		if a == nil || a.delivered > 0 && (b.delivered == 0 || b.deqB > a.deqB) {
			return b
		}
		return a
	}
	check := func(a, b *qItem) error {
		if a == nil || b.delivered == 0 {
			return nil
		}
		if a.delivered == 0 {
			return fmt.Errorf("URL %d was delivered and URL %d, enqueued before it, was not", b.id, a.id)
		}
		if b.deqE < a.deqB {
			return fmt.Errorf("URL %d was delivered before URL %d, which was enqueued first", b.id, a.id)
		}
		return nil
	}
	var ok []*qItem
	for _, it := range items {
		if it.ok {
			ok = append(ok, it)
		}
	}
	// Items of a batch are consecutive and in order.
	var prev *qItem
	for j, it := range ok {
		if j > 0 && ok[j-1].batch != it.batch {
			prev = nil
		}
		if err := check(prev, it); err != nil {
			return err
		}
		prev = latest(prev, it)
	}
	byEnd := append([]*qItem(nil), ok...)
	sort.SliceStable(byEnd, func(i, j int) bool { return byEnd[i].enqE < byEnd[j].enqE })
	byBegin := append([]*qItem(nil), ok...)
	sort.SliceStable(byBegin, func(i, j int) bool { return byBegin[i].enqB < byBegin[j].enqB })
	prev = nil
	k := 0
	for _, b := range byBegin {
		for k < len(byEnd) && byEnd[k].enqE < b.enqB {
			prev = latest(prev, byEnd[k])
			k++
		}
		if err := check(prev, b); err != nil {
			return err
		}
	}
	return nil
}

type qItem struct {
	id             int
	enqB, enqE     int64 // logical times
	batch, pos     int
	deqB, deqE     int64
	doneB          int64
	ok             bool
	delivered, ack int
}

func runC08(c *vf.Case, p *c08P) error {
	return vf.Bubble(c, p.Sched, func() error {
		q := ant.MemoryQueue(p.Size)
		var clock atomic.Int64
		tick := func() int64 { return clock.Add(1) }
		var (
			mu                 sync.Mutex
			items              []*qItem
			byURL              = map[string]*qItem{}
			first              error
			closeB, closeE     int64
			blocked            = map[int]bool{}
			waited             = false
			batches            int
			prodWG, consWG, wg sync.WaitGroup
			openWaits          = map[int]bool{}
		)
		fail := func(format string, args ...any) {
			mu.Lock()
			defer mu.Unlock()
			if first == nil {
				first = fmt.Errorf(format, args...)
			}
		}
		guard := func() {
			if r := recover(); r != nil {
				fail("panic: %v", r)
			}
		}
		ctx := context.Background()
		gone, cancel := context.WithCancel(ctx)
		cancel()
		us := func(n int) {
			if n > 0 {
				time.Sleep(time.Duration(n) * time.Microsecond)
			}
		}
		for _, ops := range p.Prods {
			prodWG.Add(1)
			go func() {
				defer prodWG.Done()
				defer guard()
				for _, op := range ops {
					us(op.Wait)
					var urls ant.URLs
					var mine []*qItem
					mu.Lock()
					batches++
					for k := 0; k < op.N; k++ {
						it := &qItem{id: len(items), batch: batches, pos: k}
						items = append(items, it)
						u := &ant.URL{Scheme: "http", Host: "q.test", Path: fmt.Sprintf("/%d", it.id)}
						byURL[u.String()] = it
						urls = append(urls, u)
						mine = append(mine, it)
					}
					b := tick()
					for _, it := range mine {
						it.enqB = b
					}
					mu.Unlock()
					cx := ctx
					if op.Cancel {
						cx = gone
					}
					err := q.Enqueue(cx, urls)
					e := tick()
					mu.Lock()
					cb, ce := closeB, closeE
					for _, it := range mine {
						it.enqE = e
						it.ok = err == nil
					}
					mu.Unlock()
					switch {
					case err == nil && op.Cancel && op.N > 0:
						fail("Enqueue with a cancelled context returned no error")
					case err == nil && op.N > 0 && ce > 0 && ce < b:
						fail("Enqueue after Close returned no error")
					case err == nil:
					case errors.Is(err, io.EOF) && cb > 0:
					case op.Cancel && errors.Is(err, context.Canceled):
					default:
						fail("Enqueue returned %v (cancelled %v, close begun %v)", err, op.Cancel, cb > 0)
					}
				}
			}()
		}
		for ci, cp := range p.Cons {
			consWG.Add(1)
			go func() {
				defer consWG.Done()
				defer guard()
				us(cp.Start)
				for n := 0; cp.N < 0 || n < cp.N; n++ {
					us(cp.Pause[n%len(cp.Pause)])
					b := tick()
					mu.Lock()
					blocked[ci] = true
					before := time.Now()
					mu.Unlock()
					u, err := q.Dequeue(ctx)
					e := tick()
					mu.Lock()
					delete(blocked, ci)
					if time.Since(before) > 0 {
						waited = true
					}
					cb, ce := closeB, closeE
					mu.Unlock()
					if err != nil {
						if !errors.Is(err, io.EOF) || cb == 0 {
							fail("Dequeue returned %v (close begun %v)", err, cb > 0)
						}
						return
					}
					if u == nil {
						fail("Dequeue returned no URL and no error")
						return
					}
					if ce > 0 && ce < b {
						fail("Dequeue after Close returned %s instead of EOF", u)
					}
					mu.Lock()
					it := byURL[u.String()]
					if it == nil {
						mu.Unlock()
						fail("Dequeue returned %s, which was never enqueued", u)
						return
					}
					it.delivered++
					it.deqB, it.deqE = b, e
					mu.Unlock()
					us(cp.Ack[n%len(cp.Ack)])
					mu.Lock()
					it.doneB = tick()
					mu.Unlock()
					if err := q.Done(ctx, u); err != nil {
						fail("Done returned %v", err)
					}
				}
			}()
		}
		for wi, at := range p.Waiters {
			wg.Add(1)
			mu.Lock()
			openWaits[wi] = true
			mu.Unlock()
			go func() {
				defer wg.Done()
				defer guard()
				us(at)
				b := tick()
				q.Wait()
				e := tick()
				mu.Lock()
				defer mu.Unlock()
				delete(openWaits, wi)
				if closeB > 0 {
					// In-flight URLs still count, discarded ones do not.
					for _, it := range items {
						if it.ok && it.enqE < b && it.delivered > 0 && it.doneB == 0 && first == nil && it.deqE < b {
							first = fmt.Errorf("Wait (begun %d, ended %d) returned although the delivered URL %d (dequeued at %d) was not acknowledged", b, e, it.id, it.deqE)
						}
					}
					return
				}
				for _, it := range items {
					if it.ok && it.enqE < b && it.doneB == 0 && first == nil {
						first = fmt.Errorf("Wait (begun %d, ended %d) returned although URL %d (enqueued at %d) was not acknowledged and the queue not closed", b, e, it.id, it.enqE)
					}
				}
			}()
		}
		doClose := func() {
			mu.Lock()
			if closeB == 0 {
				closeB = tick()
			}
			mu.Unlock()
			err := q.Close(ctx)
			mu.Lock()
			if closeE == 0 {
				closeE = tick()
			}
			mu.Unlock()
			if err != nil {
				fail("Close returned %v", err)
			}
		}
		if p.Close >= 0 {
			for k := 0; k < p.Closers; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer guard()
					us(p.Close)
					doClose()
				}()
			}
		}
		// Everything comes to rest: producers are done, consumers are done,
		// blocked or, the first time, hold a URL that they acknowledge later.
		nDelivered := 0
		var stranded *qItem
		rest := func(d time.Duration) (held bool) {
			time.Sleep(d)
			mu.Lock()
			defer mu.Unlock()
			nDelivered, stranded = 0, nil
			for _, it := range items {
				nDelivered += it.delivered
				if it.ok && it.delivered == 0 && stranded == nil {
					stranded = it
				}
				held = held || it.delivered > 0 && it.doneB == 0
			}
			if first == nil && closeB == 0 && stranded != nil && len(blocked) > 0 {
				first = fmt.Errorf("URL %d was enqueued and is available, but %d consumers are blocked in Dequeue", stranded.id, len(blocked))
			}
			if first == nil && closeB > 0 && len(blocked) > 0 {
				first = fmt.Errorf("%d consumers are blocked in Dequeue after Close", len(blocked))
			}
			return held
		}
		held := rest(5 * time.Minute)
		rest(1000 * time.Hour)
		mu.Lock()
		if first == nil && closeB == 0 && stranded == nil && len(openWaits) > 0 {
			first = fmt.Errorf("Wait is still blocked although every URL was acknowledged")
		}
		if first == nil && closeB > 0 && len(openWaits) > 0 {
			first = fmt.Errorf("Wait is still blocked although the queue was closed and every delivered URL acknowledged")
		}
		err := first
		closed := closeB > 0
		mu.Unlock()
		if err != nil {
			go q.Close(ctx)
			time.Sleep(time.Minute)
			return err
		}
		// An idle queue answers a cancelled context instead of blocking.
		if !closed && stranded == nil {
			res := make(chan error, 1)
			go func() {
				_, err := q.Dequeue(gone)
				res <- err
			}()
			select {
			case err := <-res:
				if !errors.Is(err, context.Canceled) {
					fail("Dequeue of an empty queue with a cancelled context returned %v", err)
				}
			case <-time.After(time.Minute):
				fail("Dequeue of an empty queue with a cancelled context blocks")
			}
		}
		doClose()
		time.Sleep(time.Hour)
		mu.Lock()
		defer mu.Unlock()
		if first == nil && len(blocked) > 0 {
			first = fmt.Errorf("%d consumers are blocked in Dequeue after Close", len(blocked))
		}
		if first == nil && len(openWaits) > 0 {
			first = fmt.Errorf("Wait is blocked after Close although every delivered URL was acknowledged")
		}
		if first != nil {
			return first
		}
		for _, it := range items {
			if it.delivered > 1 {
				return fmt.Errorf("URL %d was delivered %d times", it.id, it.delivered)
			}
			if it.delivered > 0 && !it.ok {
				return fmt.Errorf("URL %d was delivered although its Enqueue failed", it.id)
			}
		}
		// First in, first out.
		if err := fifo(items); err != nil {
			return err
		}
		c.NT((len(p.Prods) > 1 || len(p.Cons) > 1) && nDelivered >= 3 && waited)
		c.LabelIf(p.Close >= 0, "closed in the middle")
		c.LabelIf(waited, "a consumer waited")
		c.LabelIf(held, "a URL held while the rest is idle")
		c.LabelIf(len(p.Waiters) > 0, "waiters")
		c.Note("%d delivered of %d", nDelivered, len(items))
		return nil
	})
}

type c08RepP struct {
	Batches [][]int      `json:"b"` // numbers of URLs, which repeat
	Object  bool         `json:"o"` // equal URLs are the same object
	Pause   []int        `json:"p"` // µs before each dequeue, cyclic
	Sched   zsched.Sched `json:"sched"`
}

func genC08Rep(t *rapid.T) *c08RepP {
	p := &c08RepP{Object: rapid.Bool().Draw(t, "object"), Sched: vf.GenSched(t)}
	p.Batches = rapid.SliceOfN(rapid.SliceOfN(rapid.IntRange(0, 2), 0, 6), 1, 5).Draw(t, "batches")
	p.Pause = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) int { return genUS(t) }), 1, 3).Draw(t, "pause")
	return p
}

// runC08Rep enqueues URLs repeatedly: the queue does not de-duplicate.
func runC08Rep(c *vf.Case, p *c08RepP) error {
	return vf.Bubble(c, p.Sched, func() error {
		q := ant.MemoryQueue(2)
		ctx := context.Background()
		urls := make([]*ant.URL, 3)
		next := func(n int) *ant.URL {
			if urls[n] == nil || !p.Object {
				urls[n] = &ant.URL{Scheme: "http", Host: "q.test", Path: fmt.Sprintf("/%d", n)}
			}
			return urls[n]
		}
		var want []string
		for _, b := range p.Batches {
			for _, n := range b {
				want = append(want, fmt.Sprintf("http://q.test/%d", n))
			}
		}
		errs := make(chan error, 1)
		go func() {
			for _, b := range p.Batches {
				var batch ant.URLs
				for _, n := range b {
					batch = append(batch, next(n))
				}
				if err := q.Enqueue(ctx, batch); err != nil {
					errs <- fmt.Errorf("Enqueue returned %v", err)
					return
				}
			}
			errs <- nil
		}()
		got := make(chan *ant.URL, len(want))
		go func() {
			for n := range want {
				time.Sleep(time.Duration(p.Pause[n%len(p.Pause)]) * time.Microsecond)
				u, err := q.Dequeue(ctx)
				if err != nil {
					return
				}
				got <- u
			}
		}()
		time.Sleep(time.Minute)
		defer q.Close(ctx)
		if err := <-errs; err != nil {
			return err
		}
		waited := make(chan struct{})
		go func() {
			q.Wait()
			close(waited)
		}()
		over := func() bool {
			time.Sleep(time.Second)
			select {
			case <-waited:
				return true
			default:
				return false
			}
		}
		for n, w := range want {
			select {
			case u := <-got:
				if u == nil || u.String() != w {
					return fmt.Errorf("dequeue %d gave %v instead of %s", n, u, w)
				}
				if over() {
					return fmt.Errorf("Wait returned after %d of %d acknowledgements", n, len(want))
				}
				q.Done(ctx, u)
			default:
				return fmt.Errorf("%d URLs were enqueued, some of them repeatedly, and %d delivered", len(want), n)
			}
		}
		if !over() {
			return fmt.Errorf("Wait is still blocked although all %d URLs were acknowledged", len(want))
		}
		c.NT(len(want) > 3)
		c.LabelIf(p.Object, "the same URL values")
		return nil
	})
}
