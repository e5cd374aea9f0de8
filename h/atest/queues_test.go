package atest

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/url"
	"sync"
	"sync/atomic"
	"time"

	"github.com/yields/ant"
)

// variant describes a queue: how it is built, and what is wrong with it.
type variant struct {
	Impl   string `json:"impl"`
	Fault  string `json:"fault"` // "": the queue keeps the contract
	N      int    `json:"n"`     // where the fault is
	Copies bool   `json:"copies"`
	CtxTop bool   `json:"ctxtop"` // the context is looked at first
	PreUS  int    `json:"pre"`    // delays, microseconds
	PostUS int    `json:"post"`
	LateUS int    `json:"late"` // enqueued URLs become visible later
}

// store keeps the pending URLs, first in first out.
type store interface {
	push(ant.URLs)
	pop() *ant.URL
	len() int
}

type sliceStore struct{ us ant.URLs }

func (s *sliceStore) push(us ant.URLs) { s.us = append(s.us, us...) }
func (s *sliceStore) len() int         { return len(s.us) }
func (s *sliceStore) pop() *ant.URL {
	u := s.us[0]
	s.us = s.us[1:]
	return u
}

type node struct {
	u    *ant.URL
	next *node
}

type linkedStore struct {
	head, tail *node
	n          int
}

func (s *linkedStore) push(us ant.URLs) {
	for _, u := range us {
		nd := &node{u: u}
		if s.tail == nil {
			s.head = nd
		} else {
			s.tail.next = nd
		}
		s.tail = nd
		s.n++
	}
}
func (s *linkedStore) len() int { return s.n }
func (s *linkedStore) pop() *ant.URL {
	u := s.head.u
	if s.head = s.head.next; s.head == nil {
		s.tail = nil
	}
	s.n--
	return u
}

// ringStore is a growing ring buffer.
type ringStore struct {
	buf     []string
	at, cnt int
}

func (s *ringStore) push(us ant.URLs) {
	for _, u := range us {
		if s.cnt == len(s.buf) {
			nb := make([]string, 1+2*len(s.buf))
			for i := 0; i < s.cnt; i++ {
				nb[i] = s.buf[(s.at+i)%len(s.buf)]
			}
			s.buf, s.at = nb, 0
		}
		s.buf[(s.at+s.cnt)%len(s.buf)] = u.String()
		s.cnt++
	}
}
func (s *ringStore) len() int { return s.cnt }
func (s *ringStore) pop() *ant.URL {
	u, err := url.Parse(s.buf[s.at])
	if err != nil {
		panic(err)
	}
	s.at = (s.at + 1) % len(s.buf)
	s.cnt--
	return u
}

// mapStore numbers the URLs.
type mapStore struct {
	m        map[int]*ant.URL
	from, to int
}

func (s *mapStore) push(us ant.URLs) {
	for _, u := range us {
		s.m[s.to] = u
		s.to++
	}
}
func (s *mapStore) len() int { return s.to - s.from }
func (s *mapStore) pop() *ant.URL {
	u := s.m[s.from]
	delete(s.m, s.from)
	s.from++
	return u
}

var errFault = errors.New("fault of the queue")

// queue is a queue in which waiters poll or are woken one by one.
type queue struct {
	v       variant
	mu      sync.Mutex
	st      store
	late    ant.URLs // not visible yet
	closed  bool
	open    int // not acknowledged
	changed chan struct{}
	idle    *sync.Cond
	// call counts
	enq, deq, got int
	prev          *ant.URL
	slept         atomic.Int32
}

// newQueue builds the queue.
func newQueue(v variant) ant.Queue {
	if v.Impl == "memory" && v.Fault == "" {
		return &wrapper{v: v, Queue: ant.MemoryQueue(v.N)}
	}
	q := &queue{v: v, changed: make(chan struct{})}
	q.idle = sync.NewCond(&q.mu)
	switch v.Impl {
	case "linked":
		q.st = &linkedStore{}
	case "ring":
		q.st = &ringStore{}
	case "map":
		q.st = &mapStore{m: map[int]*ant.URL{}}
	default:
		q.st = &sliceStore{}
	}
	return q
}

// sleep delays the first calls, the suite makes a thousand.
func (q *queue) sleep(us int) {
	if us > 0 && q.slept.Add(1) < 30 {
		time.Sleep(time.Duration(us) * time.Microsecond)
	}
}

func (q *queue) is(fault string) bool { return q.v.Fault == fault }

// wake tells everyone that something changed; q.mu is held.
func (q *queue) wake() {
	close(q.changed)
	q.changed = make(chan struct{})
	q.idle.Broadcast()
}

func (q *queue) Enqueue(ctx context.Context, urls ant.URLs) error {
	q.sleep(q.v.PreUS)
	q.mu.Lock()
	defer q.mu.Unlock()
	defer q.sleep(q.v.PostUS)
	q.enq++
	closed := func() error {
		if !q.closed {
			return nil
		}
		switch q.v.Fault {
		case "enqueue-closed-nil":
			return errOK
		case "enqueue-closed-error":
			return errFault
		case "enqueue-closed-wrapped":
			return io.ErrUnexpectedEOF
		}
		return io.EOF
	}
	canceled := func() error {
		err := ctx.Err()
		if err == nil {
			return nil
		}
		switch q.v.Fault {
		case "enqueue-canceled-nil":
			return nil
		case "enqueue-canceled-eof":
			return io.EOF
		case "enqueue-canceled-deadline":
			return context.DeadlineExceeded
		}
		return err
	}
	checks := []func() error{closed, canceled}
	if q.v.CtxTop {
		checks = []func() error{canceled, closed}
	}
	for _, f := range checks {
		if err := f(); err == errOK {
			return nil
		} else if err != nil {
			return err
		}
	}
	if q.is("enqueue-error") {
		return errFault
	}
	if q.is("enqueue-error-nth") && q.enq == 2+q.v.N%999 && q.deq == 0 {
		return errFault
	}
	if q.is("capacity") && q.st.len()+len(q.late) >= 100+q.v.N%800 {
		return errFault
	}
	us := append(ant.URLs(nil), urls...)
	switch q.v.Fault {
	case "reversed":
		for i, j := 0, len(us)-1; i < j; i, j = i+1, j-1 {
			us[i], us[j] = us[j], us[i]
		}
	case "sorted-desc":
		for i := range us {
			for j := i + 1; j < len(us); j++ {
				if us[i].String() < us[j].String() {
					us[i], us[j] = us[j], us[i]
				}
			}
		}
	case "lost-first":
		us = us[1:]
	case "lost-last":
		if len(us) > 1 {
			us = us[:len(us)-1]
		}
	case "lost-third":
		if len(us) > 2 {
			us = us[:2]
		}
	case "twice":
		if len(us) > 1 {
			us = append(ant.URLs{us[0]}, us...)[:len(us)]
		}
	case "twice-pair":
		if len(us) == 2 {
			us[q.v.N%2] = us[1-q.v.N%2]
		}
	case "twice-third":
		if len(us) > 2 {
			us[2] = us[q.v.N%2]
		}
	case "other-url":
		for i := range us {
			u := *us[i]
			switch q.v.N % 4 {
			case 0:
				u.Scheme = "http"
			case 1:
				u.Path += "/"
			case 2:
				u.Host = "x" + u.Host
			case 3:
				u = url.URL{}
			}
			us[i] = &u
		}
	}
	if q.v.Copies {
		for i := range us {
			u := *us[i]
			us[i] = &u
		}
	}
	q.open += len(us)
	if q.v.LateUS > 0 {
		q.late = append(q.late, us...)
		n := len(us)
		time.AfterFunc(time.Duration(q.v.LateUS)*time.Microsecond, func() {
			q.mu.Lock()
			defer q.mu.Unlock()
			if n > len(q.late) {
				n = len(q.late)
			}
			q.st.push(q.late[:n])
			q.late = q.late[n:]
			q.wake()
		})
		return nil
	}
	q.st.push(us)
	q.wake()
	return nil
}

var errOK = errors.New("ok")

func (q *queue) Dequeue(ctx context.Context) (*ant.URL, error) {
	q.sleep(q.v.PreUS)
	if q.is("dequeue-ignores-context") {
		ctx = context.WithoutCancel(ctx)
	}
	var give <-chan time.Time
	if q.v.Fault != "" {
		// A faulty queue does not block forever here, it fails.
		t := time.NewTimer(100 * time.Millisecond)
		defer t.Stop()
		give = t.C
	}
	for {
		q.mu.Lock()
		q.deq++
		if err := ctx.Err(); err != nil && (q.v.CtxTop || q.st.len() == 0 && !q.closed) {
			q.mu.Unlock()
			switch q.v.Fault {
			case "dequeue-canceled-eof":
				return nil, io.EOF
			case "dequeue-canceled-deadline":
				return nil, context.DeadlineExceeded
			case "dequeue-canceled-error":
				return nil, errFault
			}
			return nil, err
		}
		if q.closed {
			q.mu.Unlock()
			switch q.v.Fault {
			case "dequeue-closed-nil":
				return new(ant.URL), nil
			case "dequeue-closed-canceled":
				return nil, context.Canceled
			case "dequeue-closed-error":
				return nil, errFault
			case "dequeue-closed-blocks":
				<-give
				return nil, errFault
			}
			return nil, io.EOF
		}
		if q.is("dequeue-error") || q.is("dequeue-error-nth") && q.st.len() > 0 && q.got == q.v.N%2 {
			q.mu.Unlock()
			return nil, errFault
		}
		if q.st.len() > 0 {
			u := q.st.pop()
			q.got++
			if q.is("same-again") && q.prev != nil {
				u = q.prev
			}
			q.prev = u
			q.mu.Unlock()
			q.sleep(q.v.PostUS)
			return u, nil
		}
		ch := q.changed
		q.mu.Unlock()
		select {
		case <-ch:
		case <-ctx.Done():
		case <-give:
			return nil, errFault
		}
	}
}

func (q *queue) Done(ctx context.Context, u *ant.URL) error {
	q.mu.Lock()
	defer q.mu.Unlock()
	q.open--
	q.wake()
	return nil
}

func (q *queue) Wait() {
	q.mu.Lock()
	defer q.mu.Unlock()
	for q.open > 0 {
		q.idle.Wait()
	}
}

func (q *queue) Close(ctx context.Context) error {
	q.sleep(q.v.PreUS)
	q.mu.Lock()
	defer q.mu.Unlock()
	if q.is("close-error") {
		return errFault
	}
	q.closed = true
	q.open -= q.st.len() + len(q.late)
	q.late = nil
	for q.st.len() > 0 {
		q.st.pop()
	}
	q.wake()
	return nil
}

// wrapper delays the in-memory queue.
type wrapper struct {
	v variant
	ant.Queue
	slept atomic.Int32
}

func (w *wrapper) Enqueue(ctx context.Context, us ant.URLs) error {
	if w.slept.Add(1) < 30 {
		time.Sleep(time.Duration(w.v.PreUS) * time.Microsecond)
	}
	if w.v.Copies {
		cp := make(ant.URLs, len(us))
		for i := range us {
			u, err := url.Parse(us[i].String())
			if err != nil {
				return fmt.Errorf("copy: %w", err)
			}
			cp[i] = u
		}
		us = cp
	}
	return w.Queue.Enqueue(ctx, us)
}

func (w *wrapper) Dequeue(ctx context.Context) (*ant.URL, error) {
	time.Sleep(time.Duration(w.v.PostUS) * time.Microsecond)
	return w.Queue.Dequeue(ctx)
}

var faults = []string{
	"reversed", "sorted-desc", "lost-first", "lost-last", "lost-third", "twice", "twice-pair", "twice-third", "other-url", "same-again",
	"enqueue-error", "enqueue-error-nth", "capacity", "enqueue-closed-nil", "enqueue-closed-error", "enqueue-closed-wrapped",
	"enqueue-canceled-nil", "enqueue-canceled-eof", "enqueue-canceled-deadline",
	"dequeue-error", "dequeue-error-nth", "dequeue-ignores-context", "dequeue-canceled-eof", "dequeue-canceled-deadline", "dequeue-canceled-error",
	"dequeue-closed-nil", "dequeue-closed-canceled", "dequeue-closed-error", "dequeue-closed-blocks", "close-error",
}
