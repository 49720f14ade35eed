// vrun builds the parts of one check from /repo's current tree, runs them,
// merges their evidence and reports violations.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"vh/mc"
)

type part struct {
	label    string            // prefix of group names; must be unique within a property
	kind     string            // main, test or script
	pkg      string            // main: package below harness; test: directory below /repo
	files    map[string]string // test: overlay name -> file below harness/overlay
	subst    [][2]string       // test: textual substitutions in the overlay files
	extra    map[string]string // further overlay entries, path below /repo -> file below harness/overlay
	tags     string
	goarch   string
	race     bool
	env      []string
	optional bool   // a part that needs names inside the package: left out, and noted, when it does not compile
	thorough bool   // only in the thorough tier
	every    [2]int // quick, thorough: run only every so many cases of each group (a secondary configuration)
	emulate  bool   // 64-bit ARM code, run by the interpreter in harness/a64
	trace    bool   // with emulate: under the tracing build of the interpreter
	gen      string // generator package run before the build; writes overlay entries
}

type check struct {
	level       string
	rule        string
	parts       []part
	cmp         bool // compare the published outcomes of all parts with those of the first
	assumptions []string
}

var (
	repo    = "/repo"
	verif   = ""
	scratch = ""
	prop    = flag.String("prop", "", "property id")
	tier    = flag.String("tier", "", "quick or thorough")
	replay  = flag.String("replay", "", "replay file")
	keep    = flag.Bool("v", false, "show part output")
)

func main() {
	flag.Parse()
	verif = os.Getenv("VH_VERIF")
	scratch = os.Getenv("VH_SCRATCH")
	if r := os.Getenv("VH_REPO"); r != "" {
		repo = r
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	c, ok := checks[*prop]
	if !ok {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	os.Exit(runCheck(c))
}

func (p part) step() int {
	if n := p.every[map[string]int{"thorough": 1}[*tier]]; n > 1 {
		return n
	}
	return 1
}

type built struct {
	part
	bin string
	err string
}

func goEnv(p part) []string {
	env := append(os.Environ(), "GOWORK="+filepath.Join(verif, "harness", "go.work"))
	if w := os.Getenv("VH_WORK"); w != "" {
		env = append(env, "GOWORK="+w)
	}
	if p.goarch != "" {
		env = append(env, "GOARCH="+p.goarch, "CGO_ENABLED=0")
	}
	if p.race {
		env = append(env, "CGO_ENABLED=1")
	}
	return env
}

func build(i int, p part) built {
	b := built{part: p, bin: filepath.Join(scratch, fmt.Sprintf("part%d", i))}
	var args []string
	overlay := map[string]string{}
	tmp := filepath.Join(scratch, fmt.Sprintf("ov%d", i))
	os.MkdirAll(tmp, 0o755)
	put := func(dst, src string) error {
		data, err := os.ReadFile(filepath.Join(verif, "harness", "overlay", src))
		if err != nil {
			return err
		}
		s := string(data)
		for _, r := range p.subst {
			s = strings.ReplaceAll(s, r[0], r[1])
		}
		f := filepath.Join(tmp, strings.ReplaceAll(dst, "/", "_"))
		if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
			return err
		}
		overlay[filepath.Join(repo, dst)] = f
		return nil
	}
	if p.kind == "test" { // only our file: the part must not depend on the existing tests
		old, _ := filepath.Glob(filepath.Join(repo, p.pkg, "*_test.go"))
		for _, f := range old {
			overlay[f] = ""
		}
	}
	for name, src := range p.files {
		if err := put(filepath.Join(p.pkg, name), src); err != nil {
			b.err = err.Error()
			return b
		}
	}
	for dst, src := range p.extra {
		if err := put(dst, src); err != nil {
			b.err = err.Error()
			return b
		}
	}
	if p.gen != "" {
		cmd := exec.Command("go", "run", "./cmd/"+p.gen, "-repo", repo, "-out", tmp, "-list", filepath.Join(tmp, "list.json"))
		cmd.Dir = filepath.Join(verif, "harness")
		cmd.Env = goEnv(part{})
		if out, err := cmd.CombinedOutput(); err != nil {
			b.err = "generator: " + string(out)
			return b
		}
		data, _ := os.ReadFile(filepath.Join(tmp, "list.json"))
		m := map[string]string{}
		if err := json.Unmarshal(data, &m); err != nil {
			b.err = err.Error()
			return b
		}
		b.optional = true // the code may use what the instrumentation cannot copy
		for k, v := range m {
			overlay[k] = v
		}
	}
	if p.kind == "test" {
		args = []string{"test", "-c", "-vet=off"}
	} else {
		args = []string{"build"}
	}
	args = append(args, "-o", b.bin)
	if p.tags != "" {
		args = append(args, "-tags", p.tags)
	}
	if p.race {
		args = append(args, "-race")
	}
	if len(overlay) > 0 {
		data, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
		f := filepath.Join(tmp, "overlay.json")
		os.WriteFile(f, data, 0o644)
		args = append(args, "-overlay", f)
	}
	var cmd *exec.Cmd
	if p.kind == "test" {
		cmd = exec.Command("go", append(args, ".")...)
		cmd.Dir = filepath.Join(repo, p.pkg)
	} else {
		cmd = exec.Command("go", append(args, "./"+p.pkg)...)
		cmd.Dir = filepath.Join(verif, "harness")
	}
	cmd.Env = goEnv(p)
	if out, err := cmd.CombinedOutput(); err != nil {
		b.err = fmt.Sprintf("%v: %s", err, out)
	}
	if b.err == "" && p.emulate {
		f := interpreter
		if p.trace {
			f = tracer
		}
		if err := f(); err != nil {
			b.err = err.Error()
		}
	}
	return b
}

// interpreter and tracer build harness/a64 once each.
var interpreter, tracer = sync.OnceValue(func() error { return buildA64("a64") }), sync.OnceValue(func() error { return buildA64("a64t", "-DTRACE") })

func buildA64(name string, opts ...string) error {
	args := append([]string{"-O2", "-fwrapv", "-fno-strict-aliasing"}, opts...)
	out, err := exec.Command("gcc", append(args, "-o", filepath.Join(scratch, name), filepath.Join(verif, "harness", "a64", "a64.c"), "-lm")...).CombinedOutput()
	if err != nil {
		return fmt.Errorf("interpreter: %v: %s", err, out)
	}
	return nil
}

// emulated makes a command run under the interpreter: one processor, no signals.
func emulated(cmd *exec.Cmd, trace bool) {
	a64 := filepath.Join(scratch, "a64")
	cmd.Env = append(cmd.Env, "GODEBUG=asyncpreemptoff=1", "GOMAXPROCS=1")
	if trace {
		a64 += "t"
		cmd.Env = append(cmd.Env, "GOGC=off", fmt.Sprintf("A64_JOBS=%d", min(max(runtime.NumCPU(), 1), 64)))
	}
	cmd.Path, cmd.Args = a64, append([]string{a64}, cmd.Args...)
}

// unsupported tells that the interpreter gave up, or met a fault it cannot hand to the program as a signal.
func unsupported(b built, err error) bool {
	e, ok := err.(*exec.ExitError)
	return b.emulate && ok && (e.ExitCode() >= 124 || e.ExitCode() < 0)
}

type runOpt struct {
	group, key string
	seconds    float64
}

func knownSigs() (sigs map[string]string) {
	sigs = map[string]string{}
	data, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(l, "known: property="+*prop+" ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="+*prop+" "), " ", 2)
		if len(f) == 2 && strings.HasPrefix(f[0], "sig=") {
			sigs[strings.TrimPrefix(f[0], "sig=")] = f[1]
		}
	}
	return
}

// run executes one part and returns its partial evidence; log holds its output and crash is set when it died.
func run(b built, o runOpt) (p *mc.Part, log string, crash bool) {
	out := b.bin + ".json"
	os.Remove(out)
	var ks []string
	for k := range knownSigs() {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	known := strings.Join(ks, ",")
	var cmd *exec.Cmd
	if b.kind == "test" {
		a, _ := json.Marshal(map[string]interface{}{"Prop": *prop, "Tier": *tier, "Out": out, "Group": o.group, "Key": o.key,
			"Known": known, "Label": b.label, "Seconds": o.seconds, "Every": b.step()})
		cmd = exec.Command(b.bin, "-test.run", "^TestVerifHarness$", "-test.timeout", "0", "-test.v")
		cmd.Dir = filepath.Join(repo, b.pkg)
		cmd.Env = append(os.Environ(), "VH_ARGS="+string(a))
	} else {
		cmd = exec.Command(b.bin, "-prop", *prop, "-tier", *tier, "-out", out, "-group", o.group, "-key", o.key,
			"-known", known, "-label", b.label, "-seconds", fmt.Sprint(o.seconds), "-every", fmt.Sprint(b.step()))
		cmd.Dir = scratch
		cmd.Env = os.Environ()
	}
	cmd.Env = append(cmd.Env, "VH_REPO="+repo, "GOTRACEBACK=all")
	cmd.Env = append(cmd.Env, b.env...)
	if b.emulate {
		emulated(cmd, b.trace)
	}
	lf, _ := os.Create(b.bin + ".log")
	cmd.Stdout, cmd.Stderr = lf, lf
	err := cmd.Run()
	lf.Close()
	data, _ := os.ReadFile(b.bin + ".log")
	log = string(data)
	if len(log) > 1<<20 {
		log = log[:1<<19] + "\n...\n" + log[len(log)-1<<19:]
	}
	if *keep {
		fmt.Fprintln(os.Stderr, log)
	}
	if err != nil && unsupported(b, err) {
		return &mc.Part{Notes: []string{"part " + b.label + " left out: " + first(log, 300)}}, log, false
	}
	js, rerr := os.ReadFile(out)
	if err != nil || rerr != nil {
		return nil, log, true
	}
	p = &mc.Part{}
	if e := json.Unmarshal(js, p); e != nil {
		return nil, log, true
	}
	return p, log, false
}

// alsoWithoutAsm repeats a violation seen under the interpreter on 64-bit ARM code without assembly. When that
// fails too, the assembly is not what is wrong: either the Go code is, which the native parts report, or the interpreter.
func alsoWithoutAsm(b built, v mc.Violation) bool {
	t := b.part
	t.tags = "noasm"
	if b.tags != "" {
		t.tags += "," + b.tags
	}
	twin := build(1000, t)
	if twin.err != "" {
		return true
	}
	p, _, crash := run(twin, runOpt{group: v.Group, key: v.Key, seconds: 250})
	return crash || len(p.Violations) > 0
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

func writeReplay(name string, v interface{}) string {
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, name)
	data, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(f, data, 0o644)
	return f
}

func runCheck(c check) int {
	start := time.Now()
	var ps []part
	for _, p := range c.parts {
		if !p.thorough || *tier == "thorough" {
			ps = append(ps, p)
		}
	}
	c.parts = ps
	parts := make([]built, len(c.parts))
	var wg sync.WaitGroup
	sem := make(chan bool, 4)
	for i, p := range c.parts {
		wg.Add(1)
		go func(i int, p part) {
			defer wg.Done()
			sem <- true
			parts[i] = build(i, p)
			<-sem
		}(i, p)
	}
	wg.Wait()
	fmt.Fprintf(os.Stderr, "built %d parts in %.1fs\n", len(parts), time.Since(start).Seconds())

	budget := 560.0
	if *tier == "thorough" {
		budget = 4 * 3600
	}
	if *replay != "" {
		return doReplay(parts)
	}
	type result struct {
		p     *mc.Part
		log   string
		crash bool
	}
	early := map[int]chan result{} // the interpreter uses one processor: these parts run beside the others
	slots := make(chan bool, 4)
	for i, b := range parts {
		if b.emulate && !b.trace && b.err == "" {
			early[i] = make(chan result, 1)
			go func(b built, ch chan result) {
				slots <- true
				p, log, crash := run(b, runOpt{seconds: budget - time.Since(start).Seconds()})
				<-slots
				ch <- result{p, log, crash}
			}(b, early[i])
		}
	}
	var groups []*mc.GroupStat
	var notes []string
	exhaustive := true
	known := knownSigs()
	knownHit := map[string]bool{}
	nviol := 0
	type vio struct {
		b built
		v mc.Violation
	}
	var unknown []vio
	var crashes []string
	okParts := 0
	broken := ""
	var base *mc.Part
	var basePart built
	var cmpLines, unbuilt []string
	for i, b := range parts {
		if b.err != "" {
			if b.optional || b.race {
				// A white-box group which no longer fits the code is left out; the black-box groups still decide.
				notes = append(notes, "part "+b.label+" not built and left out: "+first(b.err, 600))
				fmt.Fprintln(os.Stderr, "part", b.label, "not built:", b.err)
				exhaustive = false
				continue
			}
			if c.cmp && base != nil { // the default build works and a supported one does not
				f := writeReplay(fmt.Sprintf("%s-%s-build.json", *prop, clean(b.label)), map[string]string{
					"property": *prop, "part": b.label, "what": "the package does not build in this configuration, although the default build works", "log": tail(b.err, 20000)})
				unbuilt = append(unbuilt, f)
				fmt.Println("configuration", b.label, "does not build:", first(b.err, 800))
				continue
			}
			broken = b.err
			fmt.Fprintln(os.Stderr, "part", b.label, "not built:", b.err)
			continue
		}
		left := budget - time.Since(start).Seconds()
		if left < 5 {
			left = 5
		}
		var p *mc.Part
		var log string
		var crash bool
		if ch := early[i]; ch != nil {
			r := <-ch
			p, log, crash = r.p, r.log, r.crash
		} else {
			p, log, crash = run(b, runOpt{seconds: left})
		}
		if crash {
			fmt.Fprintln(os.Stderr, tail(log, 4000))
			p2, log2, crash2 := run(b, runOpt{seconds: left})
			if crash2 {
				f := writeReplay(fmt.Sprintf("%s-%s-crash.json", *prop, clean(b.label)), map[string]string{
					"property": *prop, "part": b.label, "what": "the process running the code under test died, twice", "log": tail(log2, 20000)})
				crashes = append(crashes, f)
				exhaustive = false
				continue
			}
			p = p2
		}
		if len(p.Groups) == 0 {
			exhaustive = false
		}
		if !b.emulate || b.trace {
			okParts++
		}
		if c.cmp && base == nil {
			base, basePart = p, b
		} else if c.cmp {
			cmpLines = append(cmpLines, compare(base, p, basePart, b, left)...)
		}
		for _, g := range p.Groups {
			if !g.Exhaustive {
				exhaustive = false
			}
			groups = append(groups, g)
		}
		notes = append(notes, p.Notes...)
		for _, v := range p.Violations {
			if _, ok := known[v.Sig]; ok {
				knownHit[v.Sig] = true
				continue
			}
			if b.emulate && !b.trace && (strings.HasSuffix(v.Sig, "/hang") || alsoWithoutAsm(b, v)) {
				notes = append(notes, fmt.Sprintf("part %s: left to the other builds, not a matter of the assembly: %s %s", b.label, v.Group, v.Key))
				exhaustive = false
				continue
			}
			unknown = append(unknown, vio{b, v})
		}
	}
	var lines []string
	for i, u := range unknown {
		nviol++
		if i >= 3 {
			continue
		}
		confirmed, how := 0, "alone"
		began := time.Now()
		for k := 0; k < 3 && (confirmed == 0 || time.Since(began) < 10*time.Second); k++ {
			p, _, crash := run(u.b, runOpt{group: u.v.Group, key: u.v.Key, seconds: 250})
			if crash || (p != nil && len(p.Violations) > 0) {
				confirmed++
			}
			if strings.HasSuffix(u.v.Sig, "/hang") {
				break
			}
		}
		if confirmed == 0 {
			how = "only when the whole group runs"
			for k := 0; k < 2 && confirmed == 0; k++ {
				p, _, crash := run(u.b, runOpt{group: u.v.Group, seconds: 200})
				if crash || (p != nil && len(p.Violations) > 0) {
					confirmed++
				}
			}
		}
		if confirmed == 0 {
			notes = append(notes, fmt.Sprintf("not reproduced and not reported: %s %s: %s", u.v.Group, u.v.Key, first(u.v.Msg, 300)))
			nviol--
			exhaustive = false
			continue
		}
		f := writeReplay(fmt.Sprintf("%s-%d.json", *prop, i), map[string]interface{}{"property": *prop, "part": u.b.label,
			"group": u.v.Group, "key": u.v.Key, "message": u.v.Msg, "reproduced": fmt.Sprintf("%d times, %s", confirmed, how),
			"replay_cmd": fmt.Sprintf("bash /verif/check.sh %s -replay <this file>", *prop)})
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, f))
		fmt.Printf("%s %s: %s\n", u.v.Group, u.v.Key, first(u.v.Msg, 1500))
	}
	for i, f := range cmpLines {
		nviol++
		if i < 3 {
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, f))
		}
	}
	for _, f := range append(crashes, unbuilt...) {
		nviol++
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, f))
	}
	cov := map[string]interface{}{}
	var cases, steps, states, outc int64
	var samples []interface{}
	for _, g := range groups {
		cases += g.Cases
		steps += g.Steps
		states += g.States
		outc += g.Outcomes
		for i, s := range g.Samples {
			if i < 4 {
				samples = append(samples, g.Name+": "+first(s, 200))
			}
		}
		g.Samples = nil
	}
	cov["samples"] = samples
	cov["exhaustive"] = exhaustive && nviol == 0
	cov["groups"] = groups
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	if c.level == "model_checking" {
		cov["states"] = states
		cov["transitions"] = steps
		cov["traces_validated_against_impl"] = cases
		cov["distinct_outcomes"] = outc
		cov["rule"] = c.rule
	} else {
		cov["evaluations"] = cases
		cov["distinct_nontrivial"] = outc
		cov["rule"] = c.rule + " Non-trivial: the bytes observed from the real code (outcome hash) differ from every other case."
		cov["calls_compared"] = steps
	}
	var ks []string
	for s := range knownHit {
		ks = append(ks, s)
	}
	sort.Strings(ks)
	if len(ks) > 0 {
		cov["known_findings_observed"] = ks
	}
	ev := evidence{Property: *prop, Tier: *tier, Seed: 1, Level: c.level, Coverage: cov, Assumptions: c.assumptions,
		WallS: time.Since(start).Seconds(), Violations: nviol}
	if ev.Assumptions == nil {
		ev.Assumptions = []string{}
	}
	data, _ := json.MarshalIndent(&ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", *prop+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, s := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, known[s])
	}
	fmt.Printf("%s tier=%s cases=%d calls=%d states=%d outcomes=%d exhaustive=%v violations=%d wall=%.1fs\n",
		*prop, *tier, cases, steps, states, outc, cov["exhaustive"], nviol, ev.WallS)
	if len(lines) > 0 {
		for _, l := range lines {
			fmt.Println(l)
		}
		return 1
	}
	if broken != "" || okParts == 0 {
		fmt.Println("check could not be built:", first(broken, 2000))
		return 2
	}
	return 0
}

// compare reports the cases whose published outcomes differ between two builds, when they do so again.
func compare(a, b *mc.Part, pa, pb built, secs float64) (files []string) {
	var keys []string
	for k, v := range b.Digests {
		if w, ok := a.Digests[k]; ok && v != w {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for i, k := range keys {
		if i >= 3 {
			break
		}
		if !differ(k, pa, pb) {
			continue
		}
		fmt.Printf("%s: builds %s and %s differ on %s\n", *prop, pa.label, pb.label, k)
		files = append(files, writeReplay(fmt.Sprintf("%s-%s-%d.json", *prop, clean(pb.label), i), map[string]interface{}{"property": *prop,
			"part": pb.label, "against": pa.label, "digest": k, "message": "the two builds compute different results on this history",
			"differing": len(keys), "replay_cmd": fmt.Sprintf("bash /verif/check.sh %s -replay <this file>", *prop)}))
	}
	return
}

func differ(k string, pa, pb built) bool {
	f := strings.SplitN(k, "|", 2)
	var d [2]string
	for n, x := range []built{pa, pb} {
		p, _, crash := run(x, runOpt{group: x.label + "/" + f[0], key: f[1], seconds: 250})
		if crash {
			d[n] = "crash"
		} else {
			d[n] = p.Digests[k]
		}
	}
	return d[0] != d[1]
}

func doReplay(parts []built) int {
	data, err := os.ReadFile(*replay)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var m map[string]interface{}
	if err := json.Unmarshal(data, &m); err != nil {
		fmt.Println(err)
		return 2
	}
	if k, ok := m["digest"].(string); ok {
		var pa, pb built
		for _, b := range parts {
			if b.label == m["against"] {
				pa = b
			}
			if b.label == m["part"] {
				pb = b
			}
		}
		if pa.bin != "" && pb.bin != "" && pa.err+pb.err == "" && differ(k, pa, pb) {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, *replay)
			return 1
		}
		fmt.Println("replayed, no violation")
		return 0
	}
	for _, b := range parts {
		if b.err != "" || b.label != m["part"] {
			continue
		}
		g, _ := m["group"].(string)
		k, _ := m["key"].(string)
		p, log, crash := run(b, runOpt{group: g, key: k, seconds: 600})
		if crash {
			fmt.Println(tail(log, 4000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, *replay)
			return 1
		}
		if len(p.Violations) > 0 {
			fmt.Println(p.Violations[0].Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, *replay)
			return 1
		}
		fmt.Println("replayed, no violation")
		return 0
	}
	fmt.Println("no such part")
	return 2
}

func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '/' || r == ' ' {
			return '_'
		}
		return r
	}, s)
}

func first(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
