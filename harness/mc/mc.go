// Package mc is the bounded exhaustive explorer used by every check.
//
// A check is a list of groups. A group enumerates, in a fixed order and with
// nothing drawn at random, every case (an operation history, an environment
// answer sequence, a schedule, an input of a boundary alphabet) within stated
// bounds and runs the real code on each one against a reference model.
package mc

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one failed case.
type Violation struct {
	Group string `json:"group"`
	Key   string `json:"key"`
	Sig   string `json:"sig"`
	Msg   string `json:"msg"`
	idx   int
}

// GroupStat is what one group covered.
type GroupStat struct {
	Name       string   `json:"name"`
	Rule       string   `json:"rule"`
	Cases      int64    `json:"cases"`
	Steps      int64    `json:"steps"`
	States     int64    `json:"states"`
	Outcomes   int64    `json:"distinct_outcomes"`
	Exhaustive bool     `json:"exhaustive"`
	WallS      float64  `json:"wall_s"`
	Samples    []string `json:"samples"`
}

// Part is the partial evidence one process writes.
type Part struct {
	Groups     []*GroupStat `json:"groups"`
	Violations []Violation  `json:"violations"`
	Notes      []string     `json:"notes"`
	// Digests of what cases observed, compared between builds.
	Digests map[string]string `json:"digests,omitempty"`
	WallS   float64           `json:"wall_s"`
}

// Run is one process running (part of) one check.
type Run struct {
	Prop      string
	Tier      string
	Seed      int64
	Deadline  time.Time
	OnlyG     string
	OnlyK     string
	Known     map[string]bool
	part      Part
	mu        sync.Mutex
	workers   int
	label     string
	lastNote  atomic.Value
	HangLimit time.Duration // longest time for a case
	every     int           // a secondary configuration runs only every so many cases of a group
}

// Thorough reports whether the deep tier runs.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func (r *Run) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// Note adds a remark to the evidence.
func (r *Run) Note(f string, a ...interface{}) {
	n := fmt.Sprintf(f, a...)
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, m := range r.part.Notes {
		if m == n {
			return
		}
	}
	r.part.Notes = append(r.part.Notes, n)
}

// T is the handle of one running case.
type T struct {
	r     *Run
	key   string
	steps int64
	obs   []byte
	viol  *Violation
	grp   *group
	lent  uint32
	used  uint32
}

type failure struct{ sig, msg string }

// Fail ends the case as a violation.
func (t *T) Fail(f string, a ...interface{}) { panic(failure{"", fmt.Sprintf(f, a...)}) }

// FailSig ends the case as a violation of the named class.
func (t *T) FailSig(sig, f string, a ...interface{}) { panic(failure{sig, fmt.Sprintf(f, a...)}) }

// Leave gives the case up without a verdict: the harness does not know the code's internals any more.
func (t *T) Leave(f string, a ...interface{}) { panic(left(fmt.Sprintf(f, a...))) }

type left string

// Step counts transitions: calls into the code under test compared with the model.
func (t *T) Step(n int) { t.steps += int64(n) }

// Observe folds observed behaviour into the outcome of the case.
func (t *T) Observe(b ...[]byte) {
	h := sha256.New()
	h.Write(t.obs)
	for _, x := range b {
		fmt.Fprintf(h, "%d:", len(x))
		h.Write(x)
	}
	t.obs = h.Sum(t.obs[:0])
}

// Publish records the outcome of the case for comparison with other builds of the same check.
func (t *T) Publish() {
	t.State(t.r.label + hex.EncodeToString(t.obs[:12]))
	t.r.mu.Lock()
	if t.r.part.Digests == nil {
		t.r.part.Digests = map[string]string{}
	}
	t.r.part.Digests[strings.TrimPrefix(t.grp.stat.Name, t.r.label+"/")+"|"+t.key] = hex.EncodeToString(t.obs[:12])
	t.r.mu.Unlock()
}

// Outcome folds a formatted observation.
func (t *T) Outcome(f string, a ...interface{}) { t.Observe([]byte(fmt.Sprintf(f, a...))) }

// State records that a model state was visited (canonical form).
func (t *T) State(s string) { t.grp.state(s) }

// Eq fails unless got equals want.
func (t *T) Eq(what string, got, want []byte) {
	t.steps++
	if string(got) != string(want) {
		t.Fail("%s: got %s want %s", what, Hex(got), Hex(want))
	}
	t.Observe(got)
}

// Used tells whether the next object of the case should be one that was in use before, holding
// other content, instead of a new one. It alternates like the capacity of lent buffers does.
func (t *T) Used() bool {
	if t.used == 0 {
		for i := 0; i < len(t.key); i++ {
			t.used = t.used*37 + uint32(t.key[i])
		}
		t.used = t.used>>1&1 + 2
	}
	t.used++
	return t.used&1 == 1
}

const guardLen = 12

// Canary is what a buffer of Space holds before the call.
const Canary = 0xA5

// Lend calls f with a copy of b lying between guard bytes, checks that neither the copy nor its
// surroundings were changed, and then overwrites the copy, as a caller reusing its buffer does.
func (t *T) Lend(what string, b []byte, f func(in []byte)) {
	if b == nil || len(b) > 1<<22 {
		f(b)
		return
	}
	fr := t.frame(len(b), guardLen)
	buf, in := fr.all, fr.buf
	for i := range buf {
		buf[i] = 0xC3
	}
	copy(in, b)
	f(in)
	for i, x := range buf {
		w := byte(0xC3)
		if j := i - fr.at; j >= 0 && j < len(b) {
			w = b[j]
		}
		if x != w {
			t.Fail("%s: the caller's memory was changed at offset %d of a buffer of %d bytes", what, i-fr.at, len(b))
		}
	}
	for i := range buf {
		buf[i] = 0x96
	}
	fr.done()
}

// Space calls f with a buffer of n bytes to fill, checks that nothing around it was written and
// returns what it holds.
func (t *T) Space(what string, n int, f func(out []byte)) []byte {
	fr := t.frame(n, guardLen+40)
	buf := fr.all
	for i := range buf {
		buf[i] = Canary
	}
	f(fr.buf)
	for i, x := range buf {
		if (i < fr.at || i >= fr.at+n) && x != Canary {
			t.Fail("%s: wrote outside a buffer of %d bytes at offset %d", what, n, i-fr.at)
		}
	}
	out := append([]byte(nil), fr.buf...)
	fr.done()
	return out
}

// SpaceFor is Space for a call that must fill exactly the first n of n+extra bytes.
func (t *T) SpaceFor(what string, n, extra int, f func(out []byte)) []byte {
	o := t.Space(what, n+extra, f)
	for i := n; i < len(o); i++ {
		if o[i] != Canary {
			t.Fail("%s: wrote byte %d, past the documented size of %d", what, i, n)
		}
	}
	return o[:n:n]
}

// Hex abbreviates long byte strings.
func Hex(b []byte) string {
	if len(b) > 96 {
		return hex.EncodeToString(b[:64]) + fmt.Sprintf("..(%d bytes, sha256 %x)", len(b), sha256.Sum256(b))
	}
	return hex.EncodeToString(b)
}

// Panics runs f and returns the recovered value's text ("" when f returned).
func Panics(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(failure); ok {
				panic(e)
			}
			if e == ErrHorizon {
				panic(e)
			}
			msg = fmt.Sprint(e)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

type horizon struct{}

func (horizon) Error() string { return "horizon" }

// ErrHorizon is thrown by environment stubs when an execution passes the
// explicit bound on the number of environment answers it may consume.
var ErrHorizon error = horizon{}

type group struct {
	stat     *GroupStat
	mu       sync.Mutex
	states   map[string]struct{}
	outcomes map[string]struct{}
}

func (g *group) state(s string) {
	g.mu.Lock()
	g.states[s] = struct{}{}
	g.mu.Unlock()
}

type job struct {
	idx int
	key string
	fn  func(t *T)
}

// Emit hands one case to the explorer; it returns false when the group must stop.
type Emit func(key string, fn func(t *T)) bool

// Group explores every case gen emits.
func (r *Run) Group(name, rule string, gen func(emit Emit)) { r.group(name, rule, r.workers, gen) }

// SerialGroup explores with one worker (for cases that use all cores or
// process-wide switches).
func (r *Run) SerialGroup(name, rule string, gen func(emit Emit)) { r.group(name, rule, 1, gen) }

// LimitGroup explores with at most n workers.
func (r *Run) LimitGroup(name, rule string, n int, gen func(emit Emit)) {
	if n > r.workers {
		n = r.workers
	}
	r.group(name, rule, n, gen)
}

const maxUnknown = 4

func (r *Run) group(name, rule string, workers int, gen func(emit Emit)) {
	if r.label != "" {
		name = r.label + "/" + name
	}
	if r.OnlyG != "" && r.OnlyG != name {
		return
	}
	start := time.Now()
	st := &GroupStat{Name: name, Rule: rule, Exhaustive: true}
	g := &group{stat: st, states: map[string]struct{}{}, outcomes: map[string]struct{}{}}
	ch := make(chan job, 256)
	var stop atomic.Bool
	var unknown atomic.Int64
	var wg sync.WaitGroup
	var viol []Violation
	running := make([]atomic.Value, workers)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for j := range ch {
				if stop.Load() {
					continue
				}
				running[w].Store(busy{j.key, time.Now()})
				t := &T{r: r, key: j.key, grp: g}
				v := t.exec(name, j)
				running[w].Store(busy{})
				g.mu.Lock()
				st.Cases++
				st.Steps += t.steps
				if len(t.obs) > 0 && len(g.outcomes) < 4<<20 {
					g.outcomes[string(t.obs)] = struct{}{}
				}
				if len(st.Samples) < 3 || (st.Cases&(st.Cases-1) == 0 && len(st.Samples) < 12) {
					st.Samples = append(st.Samples, j.key)
				}
				if v != nil {
					viol = append(viol, *v)
					if !r.Known[v.Sig] {
						if unknown.Add(1) >= maxUnknown {
							stop.Store(true)
						}
					}
				}
				g.mu.Unlock()
			}
		}(w)
	}
	done := make(chan struct{})
	go func() { // backstop against non-termination that consumes no environment answers
		tk := time.NewTicker(2 * time.Second)
		defer tk.Stop()
		for {
			select {
			case <-done:
				return
			case <-tk.C:
				for w := range running {
					if b, ok := running[w].Load().(busy); ok && b.key != "" && time.Since(b.at) > r.HangLimit {
						g.mu.Lock()
						r.part.Violations = append(r.part.Violations, viol...)
						r.part.Violations = append(r.part.Violations, Violation{Group: name, Key: b.key, Sig: name + "/hang",
							Msg: fmt.Sprintf("execution did not terminate within %v", r.HangLimit)})
						r.finish()
						os.Exit(0)
					}
				}
			}
		}
	}()
	n, pos := 0, -1
	seen := map[string]bool{}
	if r.every > 1 {
		st.Rule += fmt.Sprintf(" (in this configuration: cases 0, %d, %d, ... of the order)", r.every, 2*r.every)
	}
	gen(func(key string, fn func(t *T)) bool {
		if seen[key] {
			return !stop.Load()
		}
		seen[key] = true
		pos++
		if r.every > 1 && r.OnlyK == "" && pos%r.every != 0 {
			return !stop.Load()
		}
		if r.OnlyK != "" && r.OnlyK != key {
			return true
		}
		if stop.Load() {
			st.Exhaustive = false
			return false
		}
		if time.Now().After(r.Deadline) {
			st.Exhaustive = false
			return false
		}
		ch <- job{n, key, fn}
		n++
		return true
	})
	close(ch)
	wg.Wait()
	close(done)
	if stop.Load() {
		st.Exhaustive = false
	}
	st.States = int64(len(g.states))
	st.Outcomes = int64(len(g.outcomes))
	st.WallS = time.Since(start).Seconds()
	sort.Slice(viol, func(i, j int) bool { return viol[i].idx < viol[j].idx })
	r.part.Violations = append(r.part.Violations, viol...)
	r.part.Groups = append(r.part.Groups, st)
	fmt.Fprintf(os.Stderr, "%s %-40s cases=%d steps=%d states=%d outcomes=%d exhaustive=%v %.1fs viol=%d\n",
		r.Prop, name, st.Cases, st.Steps, st.States, st.Outcomes, st.Exhaustive, st.WallS, len(viol))
}

type busy struct {
	key string
	at  time.Time
}

func (t *T) exec(group string, j job) (v *Violation) {
	defer func() {
		if e := recover(); e != nil {
			if l, ok := e.(left); ok {
				t.grp.mu.Lock()
				t.grp.stat.Exhaustive = false
				t.grp.mu.Unlock()
				t.r.Note("%s: cases left out: %s", group, string(l))
				return
			}
			v = &Violation{Group: group, Key: j.key, idx: j.idx, Sig: group}
			switch f := e.(type) {
			case failure:
				v.Msg = f.msg
				if f.sig != "" {
					v.Sig = f.sig
				}
			default:
				if e == ErrHorizon {
					v.Msg = "execution consumed more environment answers than the horizon allows (livelock)"
				} else {
					v.Msg = fmt.Sprintf("unexpected panic: %v\n%s", e, trim(string(debug.Stack())))
				}
			}
		}
	}()
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	j.fn(t)
	return nil
}

func trim(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

// Main runs the check of the property named by the flags.
func Main(checks map[string]func(*Run)) {
	fProp := flag.String("prop", "", "property")
	fTier := flag.String("tier", "quick", "tier")
	fOut := flag.String("out", "", "partial evidence file")
	fGroup := flag.String("group", "", "only this group")
	fKey := flag.String("key", "", "only this case")
	fDeadline := flag.Float64("seconds", 600, "internal deadline")
	fKnown := flag.String("known", "", "comma separated signatures of known findings")
	fLabel := flag.String("label", "", "prefix of group names")
	fWorkers := flag.Int("workers", 0, "workers")
	fEvery := flag.Int("every", 1, "run only every so many cases of each group")
	flag.Parse()
	run(checks, *fProp, *fTier, *fOut, *fGroup, *fKey, *fKnown, *fLabel, *fDeadline, *fWorkers, *fEvery)
}

// MainEnv is Main for test binaries: the flags arrive in VH_ARGS as JSON.
func MainEnv(checks map[string]func(*Run)) {
	var a struct {
		Prop, Tier, Out, Group, Key, Known, Label string
		Seconds                                   float64
		Workers, Every                            int
	}
	s := os.Getenv("VH_ARGS")
	if s == "" {
		return
	}
	if err := json.Unmarshal([]byte(s), &a); err != nil {
		panic(err)
	}
	run(checks, a.Prop, a.Tier, a.Out, a.Group, a.Key, a.Known, a.Label, a.Seconds, a.Workers, a.Every)
	os.Exit(0)
}

var outFile string

func run(checks map[string]func(*Run), prop, tier, out, grp, key, known, label string, secs float64, workers, every int) {
	f, ok := checks[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such check:", prop)
		os.Exit(3)
	}
	outFile = out
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	r := &Run{HangLimit: 200 * time.Second, Prop: prop, Tier: tier, Seed: 1, OnlyG: grp, OnlyK: key, workers: workers, label: label, every: every,
		Deadline: time.Now().Add(time.Duration(secs * float64(time.Second))), Known: map[string]bool{}}
	for _, k := range strings.Split(known, ",") {
		if k != "" {
			r.Known[k] = true
		}
	}
	startT = time.Now()
	f(r)
	r.finish()
}

var startT time.Time

func (r *Run) finish() {
	r.part.WallS = time.Since(startT).Seconds()
	b, _ := json.MarshalIndent(&r.part, "", " ")
	if outFile != "" {
		if err := os.WriteFile(outFile, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	} else {
		fmt.Println(string(b))
	}
}

// Seqs calls f with every sequence over 0..n-1 of length 1..depth, shortest
// first and lexicographic, until f returns false.
func Seqs(n, depth int, f func(s []int) bool) {
	for d := 1; d <= depth; d++ {
		if !SeqsN(n, d, f) {
			return
		}
	}
}

// SeqsN enumerates all sequences of exactly length d.
func SeqsN(n, d int, f func(s []int) bool) bool {
	s := make([]int, d)
	for {
		if !f(append([]int(nil), s...)) {
			return false
		}
		i := d - 1
		for i >= 0 {
			s[i]++
			if s[i] < n {
				break
			}
			s[i] = 0
			i--
		}
		if i < 0 {
			return true
		}
	}
}

// Pattern returns n bytes of a fixed non-repeating filler stream identified by id.
func Pattern(id, n int) []byte {
	out := make([]byte, 0, n+32)
	for ctr := 0; len(out) < n; ctr++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("pattern %d %d", id, ctr)))
		out = append(out, h[:]...)
	}
	return out[:n:n]
}

// Label prefixes the names of the following groups.
func (r *Run) Label() string { return r.label }

// Long says whether groups of a few very long cases are to run: in the default configuration only.
func (r *Run) Long() bool { return r.every <= 1 }

// Cycles are the index cycles an object is put through many times: every operation alone, every operation after
// its predecessor, and all in order.
func Cycles(n int) (out [][]int) {
	var all []int
	for i := 0; i < n; i++ {
		out = append(out, []int{i})
		all = append(all, i)
	}
	for i := 0; i+1 < n; i += 2 {
		out = append(out, []int{i, (i + n/2) % n})
	}
	return append(out, all)
}
