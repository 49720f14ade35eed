// Package sched is the controlled scheduler of the concurrency check. The
// instrumented copies of the packages of /repo call P before every statement;
// exactly one of the two threads of a scenario runs at any time, and the plan
// says before which of its points a thread hands over to the other.
package sched

import (
	"fmt"
	"sync/atomic"
	"time"
)

// Switch makes the running thread hand over before its at-th point.
type Switch struct{ Thread, At int }

// Occ says when a static point was passed by a thread running alone: its
// first, second, fourth, eighth ... and last occurrence.
type Occ struct {
	At          []int
	Last, Count int
}

var (
	active   atomic.Bool
	cur      int
	cnt      [2]int
	plan     []Switch
	pos      int
	gate     [2]chan struct{}
	finished [2]bool
	passed   int

	recording bool
	rec       map[string]*Occ
	recN      int
)

// P is a scheduling point.
func P(site string) {
	if !active.Load() {
		if recording {
			o := rec[site]
			if o == nil {
				o = &Occ{}
				rec[site] = o
			}
			o.Count++
			if o.Count&(o.Count-1) == 0 {
				o.At = append(o.At, recN)
			}
			o.Last = recN
			recN++
		}
		return
	}
	t := cur
	c := cnt[t]
	cnt[t]++
	if pos < len(plan) && plan[pos].Thread == t && plan[pos].At == c {
		pos++
		if !finished[1-t] {
			passed++
			cur = 1 - t
			gate[1-t] <- struct{}{}
			<-gate[t]
		}
	}
}

// Record runs f alone and returns its points and their number.
func Record(f func()) (map[string]*Occ, int) {
	rec, recN, recording = map[string]*Occ{}, 0, true
	defer func() { recording = false }()
	f()
	return rec, recN
}

// Run executes the two threads under the plan, thread start first, and returns
// how many handovers of the plan took place. stalled says that a thread blocked
// outside the scheduler's control and both were let run freely.
func Run(start int, pl []Switch, body [2]func()) (switches int, stalled bool, err error) {
	plan, pos, cnt, finished, passed = pl, 0, [2]int{}, [2]bool{}, 0
	gate = [2]chan struct{}{make(chan struct{}, 4), make(chan struct{}, 4)}
	done := make(chan int, 2)
	cur = start
	active.Store(true)
	for i := 0; i < 2; i++ {
		go func(i int) {
			<-gate[i]
			body[i]()
			finished[i] = true
			if active.Load() && !finished[1-i] {
				cur = 1 - i
				gate[1-i] <- struct{}{}
			}
			done <- i
		}(i)
	}
	gate[start] <- struct{}{}
	last := -1
	for n := 0; n < 2; {
		select {
		case <-done:
			n++
		case <-time.After(4 * time.Second):
			if s := cnt[0] + cnt[1]; s != last { // still moving
				last = s
				continue
			}
			if stalled {
				active.Store(false)
				return passed, true, fmt.Errorf("both threads are blocked")
			}
			stalled = true
			active.Store(false)
			gate[0] <- struct{}{}
			gate[1] <- struct{}{}
		}
	}
	active.Store(false)
	return passed, stalled, nil
}
