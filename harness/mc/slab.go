package mc

import (
	"runtime"
	"sync"
	"syscall"
)

// slab is writable memory with an inaccessible page on either side, so that the smallest read or
// write outside a buffer at its edge is noticed (as a panic, see debug.SetPanicOnFault).
type slab struct{ b []byte }

const slabLen = 1 << 16

var slabs struct {
	sync.Mutex
	free []*slab
	off  bool
}

// getSlab returns nil when there is none.
func getSlab(n int) *slab {
	if n == 0 || n > slabLen || runtime.GOARCH == "arm64" {
		return nil // faults are not delivered to the guest of the interpreter
	}
	slabs.Lock()
	defer slabs.Unlock()
	if k := len(slabs.free); k > 0 {
		s := slabs.free[k-1]
		slabs.free = slabs.free[:k-1]
		return s
	}
	if slabs.off {
		return nil
	}
	page := syscall.Getpagesize()
	m, err := syscall.Mmap(-1, 0, slabLen+2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err == nil {
		if err = syscall.Mprotect(m[:page], syscall.PROT_NONE); err == nil {
			err = syscall.Mprotect(m[page+slabLen:], syscall.PROT_NONE)
		}
	}
	if err != nil {
		slabs.off = true
		return nil
	}
	return &slab{m[page : page+slabLen]}
}

func (s *slab) put() {
	slabs.Lock()
	slabs.free = append(slabs.free, s)
	slabs.Unlock()
}

// frame is a buffer of n bytes with its surroundings.
type frame struct {
	all  []byte // what is filled and compared
	at   int    // where the buffer starts in all
	buf  []byte
	slab *slab
}

// frame lays out a buffer of n bytes in one of four ways: on the heap between guard bytes, with
// and without spare capacity, and right after and right before an inaccessible page.
func (t *T) frame(n, after int) (f frame) {
	if t.lent == 0 {
		for i := 0; i < len(t.key); i++ {
			t.lent = t.lent*31 + uint32(t.key[i])
		}
		t.lent = t.lent&3 + 4
	}
	t.lent++
	cut := t.lent&1 == 1
	if t.lent&2 == 2 {
		f.slab = getSlab(n + guardLen + after)
	}
	switch {
	case f.slab == nil:
		f.all = make([]byte, n+guardLen+after)
		f.at = guardLen
	case cut:
		f.all = f.slab.b[slabLen-n-guardLen:]
		f.at = guardLen
	default:
		f.all = f.slab.b[:n+after]
	}
	f.buf = f.all[f.at : f.at+n]
	if cut {
		f.buf = f.buf[:n:n]
	}
	return f
}

func (f *frame) done() {
	if f.slab != nil {
		f.slab.put()
		f.slab = nil
	}
}
