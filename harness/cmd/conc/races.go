package main

import (
	"fmt"
	"runtime"
	"time"

	"vh/mc"
)

// The hand-over between the two threads must not be an ordering the race
// detector knows about, so it goes through a plain variable nobody instruments.
var turn int

//go:norace
//go:noinline
func setTurn(v int) { turn = v }

//go:norace
//go:noinline
func getTurn() int { return turn }

// inOrder runs the operations of list[0] on one thread and then those of list[1] on
// another, with no ordering between the threads that the race detector sees.
func inOrder(t *mc.T, list [2][]int, share bool) {
	before := raceErrors()
	var got [2][][]byte
	ks := keysets(share)
	setTurn(0)
	done := make(chan bool, 2)
	for i := range list {
		go func(i int) {
			for getTurn() != i {
				runtime.Gosched()
			}
			for _, o := range list[i] {
				got[i] = append(got[i], guarded(all[o], i, ks[i]))
			}
			setTurn(i + 1)
			for getTurn() != 2 { // both stay alive
				runtime.Gosched()
			}
			done <- true
		}(i)
	}
	for range list {
		select {
		case <-done:
		case <-time.After(150 * time.Second):
			t.Fail("no end")
		}
	}
	for i := range list {
		for n, o := range list[i] {
			t.Eq(fmt.Sprintf("%s on thread %d", all[o].name, i), got[i][n], memoAlone(o, i, share))
		}
	}
	if n := raceErrors(); n > before {
		t.Fail("%d data races reported; see the log of the part", n-before)
	}
	t.Outcome("%x", got)
	t.State(fmt.Sprint(list))
}

func memoAlone(i, id int, share bool) []byte {
	k := aloneKey{i, id, share}
	if aloneMemo[k] == nil {
		aloneMemo[k] = alone(i, id, share)
	}
	return aloneMemo[k]
}

// races runs pairs of operations one after the other on two threads that share
// no ordering: whatever both touch, and one writes, is then reported, whichever
// interleaving a free run would take.
func races(r *mc.Run) {
	var up, down []int
	for i := range all {
		up, down = append(up, i), append([]int{i}, down...)
	}
	for _, share := range []bool{true, false} {
		share := share
		r.SerialGroup(fmt.Sprintf("unordered-all-share=%v", share), "every operation on one thread, then every operation on the other, without any happens-before edge between the threads; conflicting accesses are reported by the race detector", func(emit mc.Emit) {
			emit("same order", func(t *mc.T) { inOrder(t, [2][]int{up, up}, share) })
			emit("opposite order", func(t *mc.T) { inOrder(t, [2][]int{up, down}, share) })
		})
	}
	r.SerialGroup("unordered-pairs", "every pair of operations on the same package (thorough: every pair at all), sharing keys, without any happens-before edge", func(emit mc.Emit) {
		for a := range all {
			for b := a; b < len(all); b++ {
				if !r.Thorough() && a != b && all[a].pkg != all[b].pkg {
					continue
				}
				a, b := a, b
				emit(fmt.Sprintf("%s|%s", all[a].name, all[b].name), func(t *mc.T) { inOrder(t, [2][]int{{a}, {b}}, true) })
			}
		}
	})
	r.SerialGroup("free-running", "every operation on eight threads at once, sharing keys, under the real scheduler", func(emit mc.Emit) {
		for i := range all {
			i := i
			emit(all[i].name, func(t *mc.T) {
				before := raceErrors()
				ks := keysets(true)
				var got [8][]byte
				done := make(chan bool, 8)
				for n := range got {
					go func(n int) {
						got[n] = guarded(all[i], n%2, ks[0])
						done <- true
					}(n)
				}
				for range got {
					<-done
				}
				for n := range got {
					t.Eq(fmt.Sprintf("thread %d", n), got[n], memoAlone(i, n%2, true))
				}
				if n := raceErrors(); n > before {
					t.Fail("%d data races reported; see the log of the part", n-before)
				}
			})
		}
	})
}
