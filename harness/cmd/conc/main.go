// Check X01: operations of two threads on distinct objects, under a controlled
// scheduler (built from instrumented copies) and under the race detector.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync/atomic"

	"vh/mc"
	"vh/sched"
)

var (
	all  []op
	raws [2]*raw
)

func setup() {
	raws = [2]*raw{mkRaw(0), mkRaw(1)}
	all = ops()
}

func keysets(share bool) [2]*keyset {
	a := raws[0].keys()
	if share {
		return [2]*keyset{a, a}
	}
	return [2]*keyset{a, raws[1].keys()}
}

type jobMsg struct {
	A, B, Start int
	Share       bool
	Plan        []sched.Switch
}

type resMsg struct {
	Out      [2][]byte
	Switches int
	Stalled  bool
	Err      string
}

func child() {
	setup()
	in, out := json.NewDecoder(bufio.NewReader(os.Stdin)), json.NewEncoder(os.Stdout)
	for {
		var j jobMsg
		if in.Decode(&j) != nil {
			return
		}
		var r resMsg
		ks := keysets(j.Share)
		o := [2]op{all[j.A], all[j.B]}
		sw, st, err := sched.Run(j.Start, j.Plan, [2]func(){
			func() { r.Out[0] = guarded(o[0], 0, ks[0]) },
			func() { r.Out[1] = guarded(o[1], 1, ks[1]) }})
		if err != nil {
			out.Encode(resMsg{Err: err.Error()})
			os.Exit(0)
		}
		r.Switches, r.Stalled = sw, st
		out.Encode(r)
	}
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	enc *json.Encoder
	dec *json.Decoder
}

var pool = make(chan *proc, 64)

func start() *proc {
	p := &proc{cmd: exec.Command(os.Args[0])}
	p.cmd.Env = append(os.Environ(), "VH_CONC_CHILD=1", "GOMAXPROCS=2")
	p.cmd.Stderr = os.Stderr
	in, _ := p.cmd.StdinPipe()
	out, _ := p.cmd.StdoutPipe()
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	p.in, p.enc, p.dec = in, json.NewEncoder(in), json.NewDecoder(bufio.NewReader(out))
	return p
}

func ask(j jobMsg) (r resMsg, err error) {
	var p *proc
	select {
	case p = <-pool:
	default:
		p = start()
	}
	if err = p.enc.Encode(j); err == nil {
		err = p.dec.Decode(&r)
	}
	if err != nil || r.Err != "" {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
		return
	}
	pool <- p
	return
}

func main() {
	if os.Getenv("VH_CONC_CHILD") != "" {
		child()
		return
	}
	mc.Main(map[string]func(*mc.Run){"X01": x01})
}

// alone is what operation i of thread id gives when nothing else runs.
func alone(i, id int, share bool) []byte { return guarded(all[i], id, keysets(share)[id]) }

func x01(r *mc.Run) {
	setup()
	if raceEnabled {
		races(r)
		return
	}
	schedules(r)
}

type points struct {
	at    []int // chosen points, ascending
	first []int // first occurrences only
	total int
	sites int
}

// pointsOf runs operation i alone and chooses points: the first occ power-of-two
// occurrences and the last one of every statement, of the layer the operation is about.
func pointsOf(i, id, occ int, share, layer bool) points {
	ks := keysets(share)
	m, n := sched.Record(func() { guarded(all[i], id, ks[id]) })
	p := points{total: n, sites: len(m)}
	use := map[string]*sched.Occ{}
	for s, o := range m {
		for _, l := range all[i].layers {
			if strings.HasPrefix(s, l) {
				use[s] = o
			}
		}
	}
	if !layer || len(use) < 5 {
		use = m
	}
	pick, f := map[int]bool{}, map[int]bool{}
	for _, o := range use {
		for k, a := range o.At {
			if k < occ {
				pick[a] = true
			}
		}
		f[o.At[0]] = true
		if occ > 1 {
			pick[o.Last] = true
		}
	}
	for a := range pick {
		p.at = append(p.at, a)
	}
	for a := range f {
		p.first = append(p.first, a)
	}
	sort.Ints(p.at)
	sort.Ints(p.first)
	return p
}

// thin keeps at most n entries, evenly spread.
func thin(l []int, n int) []int {
	if len(l) <= n {
		return l
	}
	var o []int
	for i := 0; i < n; i++ {
		o = append(o, l[i*len(l)/n])
	}
	return o
}

func pairsOf(r *mc.Run) (l [][2]int) {
	idx := map[string]int{}
	for i, o := range all {
		idx[o.name] = i
		l = append(l, [2]int{i, i})
	}
	other := [][2]string{{"sha3-256", "shake128"}, {"sha3-224", "sha3-512"}, {"shake256", "cshake256"}, {"cshake128", "cshake256"}, {"shakesum", "shake256"},
		{"csidh-genkey", "csidh-validate"}, {"csidh-validate", "csidh-derive"}, {"csidh-public", "csidh-derive"}, {"csidh-derive", "pke"}, {"drbg", "pke"}, {"pke", "multi-pke"},
		{"sha3-256", "encap-P434"}, {"shake256", "decap-P503"}, {"derive-A-P434", "derive-A-P503"}, {"derive-B-P503", "derive-B-P751"}}
	for _, n := range fieldName {
		other = append(other, [][2]string{{"keygen-A-" + n, "keygen-B-" + n}, {"derive-A-" + n, "derive-B-" + n}, {"encap-" + n, "decap-" + n},
			{"keygen-SIKE-" + n, "encap-" + n}, {"derive-A-" + n, "encap-" + n}, {"import-" + n, "encap-" + n}, {"mkem-" + n, "encap-" + n}, {"multi-" + n, "mkem-" + n}}...)
	}
	for _, p := range other {
		l = append(l, [2]int{idx[p[0]], idx[p[1]]})
	}
	return
}

func schedules(r *mc.Run) {
	type cfg struct {
		a, b  int
		share bool
	}
	var cfgs []cfg
	for _, p := range pairsOf(r) {
		if all[p[0]].keys && all[p[1]].keys {
			cfgs = append(cfgs, cfg{p[0], p[1], true})
		} else {
			cfgs = append(cfgs, cfg{p[0], p[1], false})
		}
		if r.Thorough() && all[p[0]].keys {
			cfgs = append(cfgs, cfg{p[0], p[1], false})
		}
	}
	for _, c := range cfgs {
		aloneMemo[aloneKey{c.a, 0, c.share}] = alone(c.a, 0, c.share)
		aloneMemo[aloneKey{c.b, 1, c.share}] = alone(c.b, 1, c.share)
	}
	var stalls atomic.Int32
	explore := func(t *mc.T, c cfg, j jobMsg) {
		want := [2][]byte{alone2(c.a, 0, c.share), alone2(c.b, 1, c.share)}
		res, err := ask(j)
		if err != nil {
			t.Fail("the process running the schedule died: %v", err)
		}
		if res.Err != "" {
			t.Fail("%s", res.Err)
		}
		if res.Stalled {
			stalls.Add(1)
		}
		for i := range want {
			t.Step(1)
			if string(res.Out[i]) != string(want[i]) {
				t.Fail("thread %d (%s) gives %s, alone it gives %s", i, all[[2]int{c.a, c.b}[i]].name, show(res.Out[i]), show(want[i]))
			}
		}
		t.Outcome("%d %x", res.Switches, res.Out)
		t.State(fmt.Sprint(c, j.Start, j.Plan))
	}
	total := map[[2]int]int{}
	tot := func(i, id int, share bool) int {
		k := [2]int{i, id}
		if total[k] == 0 {
			total[k] = pointsOf(i, id, 1, share, true).total
		}
		return total[k]
	}
	// room is how many schedules of a pair the tier affords; it depends on statement counts only
	room := func(c cfg, budget, min, max int) int {
		n := budget / (tot(c.a, 0, c.share) + tot(c.b, 1, c.share) + 10000)
		if n < min {
			n = min
		}
		if n > max {
			n = max
		}
		return n
	}
	layer := !r.Thorough()
	occ1 := r.Pick(2, 6)
	r.Group("one-preemption", fmt.Sprintf("every pair of operations of the list; each of the two preempted once, before each statement of its layer (first %d power-of-two occurrences and the last; evenly thinned for the slowest operations), by the whole of the other", occ1), func(emit mc.Emit) {
		for _, c := range cfgs {
			for s := 0; s < 2; s++ {
				if s == 1 && c.a == c.b && !r.Thorough() {
					continue
				}
				if stalls.Load() > 30 {
					return
				}
				oc := occ1
				if c.a != c.b && !r.Thorough() {
					oc = 1
				}
				p := pointsOf([2]int{c.a, c.b}[s], s, oc, c.share, layer)
				for _, at := range thin(p.at, room(c, r.Pick(80, 6000)*1000000, 10, 1<<20)) {
					c, s, at := c, s, at
					if !emit(fmt.Sprintf("%s|%s share=%v: thread %d before point %d of %d", all[c.a].name, all[c.b].name, c.share, s, at, p.total), func(t *mc.T) {
						explore(t, c, jobMsg{c.a, c.b, s, c.share, []sched.Switch{{Thread: s, At: at}}})
					}) {
						return
					}
				}
			}
		}
	})
	r.Group("two-preemptions", "every pair of operations of the list; the first runs to a point, the second to one of its points, the first to its end, then the second: all pairs of points out of first occurrences of statements of the layer, evenly thinned", func(emit mc.Emit) {
		for _, c := range cfgs {
			if stalls.Load() > 30 {
				return
			}
			n := 0
			for m := room(c, r.Pick(40, 4000)*1000000, 4, 1<<20); n*n < m; n++ {
			}
			if n > r.Pick(50, 400) {
				n = r.Pick(50, 400)
			}
			pa, pb := pointsOf(c.a, 0, 1, c.share, layer), pointsOf(c.b, 1, 1, c.share, layer)
			for _, k := range thin(pa.first, n) {
				for _, l := range thin(pb.first, n) {
					c, k, l := c, k, l
					if !emit(fmt.Sprintf("%s|%s share=%v: %d/%d %d/%d", all[c.a].name, all[c.b].name, c.share, k, pa.total, l, pb.total), func(t *mc.T) {
						explore(t, c, jobMsg{c.a, c.b, 0, c.share, []sched.Switch{{Thread: 0, At: k}, {Thread: 1, At: l}}})
					}) {
						return
					}
				}
			}
		}
	})
	if stalls.Load() > 0 {
		r.Note("%d schedules blocked in a lock and were let run freely", stalls.Load())
	}
}

func show(b []byte) string {
	if len(b) > 5 && string(b[:5]) == "panic" {
		return string(b)
	}
	return fmt.Sprintf("%x", b)
}

type aloneKey struct {
	i, id int
	share bool
}

var aloneMemo = map[aloneKey][]byte{}

func alone2(i, id int, share bool) []byte { return aloneMemo[aloneKey{i, id, share}] }
