package main

import (
	"sync"
	"time"
)

// scheduler lets concurrent exchanges proceed one at a time, in the order of a
// schedule, from one call of user code to the next.
type scheduler struct {
	n      int
	sched  []int
	burst  int
	mu     sync.Mutex
	grant  []chan struct{}
	events chan event
	free   bool
}

type event struct {
	idx  int
	done bool
}

func newScheduler(n int, sched []int, burst int) *scheduler {
	s := &scheduler{n: n, sched: sched, burst: burst, free: n == 0 || len(sched) == 0,
		events: make(chan event, 1024)}
	for i := 0; i < n; i++ {
		s.grant = append(s.grant, make(chan struct{}, 1))
	}
	return s
}

func (s *scheduler) start(i int) { s.pass(i) }

func (s *scheduler) pass(i int) {
	if s.free {
		return
	}
	s.events <- event{i, false}
	<-s.grant[i]
}

func (s *scheduler) finish(i int) {
	if s.free {
		return
	}
	s.events <- event{i, true}
}

func (s *scheduler) drive() {
	if s.free {
		return
	}
	waiting, done := make([]bool, s.n), make([]bool, s.n)
	settle := func(i int) {
		// wait for the exchange to arrive at its next call of user code; it
		// may as well be held up by another one.
		deadline := time.After(200 * time.Millisecond)
		for !waiting[i] && !done[i] {
			select {
			case e := <-s.events:
				if e.done {
					done[e.idx] = true
				} else {
					waiting[e.idx] = true
				}
			case <-deadline:
				return
			}
		}
	}
	for i := 0; i < s.n; i++ {
		settle(i)
	}
	step := func(i int) {
		if done[i] || !waiting[i] {
			return
		}
		waiting[i] = false
		s.grant[i] <- struct{}{}
		settle(i)
	}
	for _, i := range s.sched {
		for b := 0; b < s.burst; b++ {
			step(i - 1)
		}
	}
	for turns := 0; ; turns++ {
		left := false
		for i := 0; i < s.n; i++ {
			if !done[i] {
				left = true
				step(i)
				if !waiting[i] && !done[i] {
					settle(i)
				}
			}
		}
		if !left {
			return
		}
	}
}
