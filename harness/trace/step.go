package trace

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"syscall"

	"vh/mc"
)

// Op is a function of the code under test whose execution must not depend on the data.
type Op struct {
	Name string
	N    int         // number of inputs
	Set  func(i int) // brings in input i, outside of the observed stretch
	Run  func()
	Out  func() []byte // what Run computed, to tell the inputs apart
}

// Path is a way the processor capabilities can be set.
type Path struct {
	Name string
	Set  func()
}

//go:noinline
func begin() { marks++ }

//go:noinline
func end() { marks += 2 }

var marks int

const childEnv, statesEnv = "VH_CT_PATH", "VH_CT_STATES"

// Observed reports whether this is the observed program. The processor valgrind shows it may lack capabilities.
func Observed() bool { return os.Getenv(childEnv) != "" }

// Child runs the operations when the program is the observed one, and does not return then. The inputs are in state.
func Child(paths []Path, ops []Op, state []byte) {
	name := os.Getenv(childEnv)
	if name == "" {
		return
	}
	for _, p := range paths {
		if p.Name == name {
			p.Set()
		}
	}
	all, err := os.ReadFile(os.Getenv(statesEnv))
	if err != nil {
		panic(err)
	}
	for _, o := range ops {
		copy(state, all)
		o.Run() // what is set up on first use
		for i := 0; i < o.N; i++ {
			copy(state, all)
			all = all[len(state):]
			if i%8 == 0 {
				runtime.Gosched() // a new time slice
			}
			begin()
			o.Run()
			end()
		}
	}
	os.Exit(0)
}

type item struct {
	kind byte // I, L, S, M as valgrind names them
	v    uint64
}

func (e item) String() string {
	if e.kind == 'I' {
		return "goes on at " + place(e.v)
	}
	return fmt.Sprintf("touches address %#x", e.v)
}

type observed struct {
	bad   string
	steps map[string]int
	total int
	err   error
}

// observe runs this program again under valgrind, which lists the instructions and the memory accesses of every
// observed stretch, and compares each stretch with the first one of its operation.
func observe(path string, ops []Op, states string) (o observed) {
	o.steps = map[string]int{}
	pr, pw, err := os.Pipe()
	if err != nil {
		o.err = err
		return
	}
	defer pr.Close()
	args := []string{"--tool=lackey", "--trace-mem=yes", "--log-fd=3", os.Args[0]}
	cmd := exec.Command("valgrind", append(args, os.Args[1:]...)...)
	cmd.Env = append(os.Environ(), childEnv+"="+path, statesEnv+"="+states, "GODEBUG=asyncpreemptoff=1", "GOMAXPROCS=1", "GOGC=off")
	cmd.ExtraFiles = []*os.File{pw}
	runtime.LockOSThread() // the signal comes when this thread ends
	defer runtime.UnlockOSThread()
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var so bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &so
	if o.err = cmd.Start(); o.err != nil {
		pw.Close()
		return
	}
	pw.Close()
	b, e := uint64(reflect.ValueOf(begin).Pointer()), uint64(reflect.ValueOf(end).Pointer())
	mine := map[uint64]bool{}
	own := func(pc uint64) bool {
		m, ok := mine[pc]
		if !ok {
			f := runtime.FuncForPC(uintptr(pc))
			m = f != nil && !strings.HasPrefix(f.Name(), "runtime") && !strings.HasPrefix(f.Name(), "internal/")
			mine[pc] = m
		}
		return m
	}
	sc := bufio.NewReaderSize(pr, 1<<20)
	on, take := false, false
	op, in, at := 0, -1, 0
	var ref []item
	last := uint64(0)
	for {
		line, err := sc.ReadSlice('\n')
		if err != nil {
			break
		}
		if len(line) < 5 || line[0] == '=' || line[2] != ' ' {
			continue
		}
		k := line[1]
		if k == ' ' {
			k = line[0]
		}
		var v uint64
		for _, c := range line[3:] {
			switch {
			case c >= '0' && c <= '9':
				v = v<<4 | uint64(c-'0')
			case c >= 'a' && c <= 'f':
				v = v<<4 | uint64(c-'a'+10)
			default:
				goto parsed
			}
		}
	parsed:
		if k == 'I' {
			if v == b {
				if in++; op < len(ops) && in == ops[op].N {
					op, in = op+1, 0
				}
				if in == 0 {
					ref = ref[:0]
				}
				on, take, at = true, false, 0
				continue
			}
			if v == e && on {
				if on = false; at != len(ref) && o.bad == "" {
					o.bad = fmt.Sprintf("%s ends earlier, after %s", o.what(ops, op, in), place(last))
				}
				if op < len(ops) {
					o.steps[ops[op].Name] = len(ref)
				}
				continue
			}
			take = on && own(v)
		}
		if !on || !take {
			continue
		}
		o.total++
		it := item{k, v}
		if in == 0 {
			ref = append(ref, it)
			at++
			continue
		}
		if o.bad == "" && (at >= len(ref) || ref[at] != it) {
			was := "ends"
			if at < len(ref) {
				was = ref[at].String()
			}
			o.bad = fmt.Sprintf("%s: after %s it %s and with input 0 %s", o.what(ops, op, in), place(last), it, was)
		}
		at++
		if k == 'I' {
			last = v
		}
	}
	if err := cmd.Wait(); err != nil {
		o.err = fmt.Errorf("%v: %s", err, so.String())
	} else if op != len(ops)-1 || in != ops[op].N-1 {
		o.err = fmt.Errorf("the observed program ran %d operations and %d inputs", op, in)
	}
	return
}

func (o *observed) what(ops []Op, op, in int) string {
	if op >= len(ops) {
		return "an unknown operation"
	}
	return fmt.Sprintf("%s with input %d", ops[op].Name, in)
}

// Thorough tells a test binary which tier it runs in.
func Thorough() bool { return strings.Contains(os.Getenv("VH_ARGS"), `"Tier":"thorough"`) }

var values sync.Mutex // guards what the operations work on

// Stepped explores, on every path, all inputs of all operations.
func Stepped(r *mc.Run, name string, paths []Path, ops []Op, state []byte) {
	if _, err := exec.LookPath("valgrind"); err != nil {
		r.Note("no valgrind: %s left out", name)
		return
	}
	n := 0
	for _, o := range ops {
		n += o.N
	}
	r.Group("instructions-"+name, fmt.Sprintf("the instructions and addresses of %d functions on %d inputs, on every path", len(ops), n), func(emit mc.Emit) {
		for _, p := range paths {
			p := p
			emit(p.Name, func(t *mc.T) {
				f, err := os.CreateTemp("", "vh.ct.")
				if err != nil {
					panic(err)
				}
				defer os.Remove(f.Name())
				defer f.Close()
				values.Lock()
				p.Set()
				for _, o := range ops {
					seen := map[string]bool{}
					for i := 0; i < o.N; i++ {
						o.Set(i)
						f.Write(state)
						o.Run()
						seen[string(o.Out())] = true
					}
					if len(seen) < 2 {
						values.Unlock()
						t.Fail("%s: the same result for all inputs", o.Name)
					}
					t.State(fmt.Sprintf("%s: %d results", o.Name, len(seen)))
				}
				values.Unlock()
				o := observe(p.Name, ops, f.Name())
				if o.err == nil && o.bad != "" { // not an accident of the scheduler
					if again := observe(p.Name, ops, f.Name()); again.err != nil || again.bad != o.bad {
						o = observe(p.Name, ops, f.Name())
						if o.bad != again.bad {
							o.bad = ""
						}
					}
				}
				if o.err != nil {
					r.Note("%s, %s: not observed: %v", name, p.Name, o.err)
					return
				}
				if o.bad != "" {
					t.Fail("execution depends on the data: %s", o.bad)
				}
				t.Step(n)
				t.Outcome("%d events", o.total)
				for k, v := range o.steps {
					if v == 0 {
						t.Fail("%s: nothing was observed", k)
					}
					t.State(fmt.Sprintf("%s: %d events", k, v))
				}
			})
		}
	})
}
