package main

func mainPart(label, pkg string) part { return part{label: label, kind: "main", pkg: "cmd/" + pkg} }

func variants(pkg string, labels ...string) (out []part) {
	for _, l := range labels {
		p := mainPart(l, pkg)
		switch l {
		case "noasm", "appengine":
			p.tags = l
		case "386":
			p.goarch = "386"
		}
		out = append(out, p)
	}
	return
}

// masked is a part that runs as on a processor without some capabilities. It reaches into package utils, and so
// is left out, with a note, when that has changed.
func masked(pkg, off string, q, t int) part {
	p := mainPart("without "+off, pkg)
	p.extra = map[string]string{"utils/zz_vh_mask.go": "cpu_mask.go"}
	p.env = []string{"VH_CPU_OFF=" + off}
	p.optional = true
	p.every = [2]int{prime(q), prime(t)}
	return p
}

// others adds the other ways the code can run to the default one: each repeats a fixed part of the
// cases, every q-th in the quick tier and every t-th in the thorough one (scaled by the cost of the build).
func others(ps []part, pkg string, q, t int) []part {
	add := func(label, tags, goarch, off string, slow int) {
		p := mainPart(label, pkg)
		if off != "" {
			p = masked(pkg, off, 1, 1)
			p.label = label
		}
		p.tags, p.goarch, p.optional = tags, goarch, true
		p.every = [2]int{prime(q * slow), prime(t * slow)}
		ps = append(ps, p)
	}
	if pkg != "csidh" { // CSIDH has two paths only
		add("no ADX", "", "", "HasADX", 1)
	}
	add("no BMI2 or ADX", "", "", "HasBMI2,HasADX", 1)
	add("noasm", "noasm", "", "", 3)
	add("386", "", "386", "", 12)
	return ps
}

// prime keeps the step from falling in with the nesting of a group's loops.
func prime(n int) int {
	for ; n > 1; n++ {
		ok := true
		for d := 2; d*d <= n; d++ {
			ok = ok && n%d != 0
		}
		if ok {
			break
		}
	}
	return n
}

const detNote = "deterministic: nothing is drawn at random, VERIF_SEED is not used"

var checks = map[string]check{
	"S01": {level: "model_checking", rule: "bounded write histories of the real SHA-3 objects, each compared with an independent FIPS 202 sponge; states are (algorithm, bytes absorbed) of the model.",
		parts: variants("hash", "amd64", "noasm", "appengine", "386"), assumptions: []string{detNote}},
	"S02": {level: "model_checking", rule: "bounded write/read histories of the real SHAKE objects against an independent sponge; states are (algorithm, phase, cursor) of the model.",
		parts: variants("hash", "amd64", "noasm", "appengine", "386"), assumptions: []string{detNote}},
	"S03": {level: "exploration", rule: "every (N,S) length combination and bounded histories within the stated alphabets.",
		parts: variants("hash", "amd64", "noasm", "appengine", "386"), assumptions: []string{detNote}},
	"S04": {level: "model_checking", rule: "bounded histories over several hash objects against one independent model per object.",
		parts: variants("hash", "amd64", "noasm", "appengine", "386"), assumptions: []string{detNote}},
	"M01": {level: "model_checking", rule: "bounded write/reset histories of the real SM3 object against an independent SM3.",
		parts: variants("hash", "amd64", "noasm", "386"), assumptions: []string{detNote}},
	"M02": {level: "model_checking", rule: "bounded write/Sum/Reset histories and every prefix/spare shape of the Sum argument.",
		parts: variants("hash", "amd64", "noasm", "386"), assumptions: []string{detNote}},
	"D01": {level: "model_checking", rule: "bounded histories of the real generator, including every forced counter value of the alphabet, against SP 800-90A over crypto/aes; states are (key,V) of the model.",
		parts: append(variants("drbg", "amd64", "noasm", "386"), masked("drbg", "HasAES", 7, 1)), assumptions: []string{detNote}},
	"D02": {level: "model_checking", rule: "every request length, refused instantiation and request sequence within the bounds, against the model; states are the counter values of the model.",
		parts: append(variants("drbg", "amd64", "noasm", "386"), masked("drbg", "HasAES", 7, 1)), assumptions: []string{detNote}},
	"A01": {level: "model_checking", rule: "every byte value at every position of keys and blocks, bit pairs, key-change histories and buffer layouts on both implementations, against crypto/aes.",
		parts: []part{{label: "amd64", kind: "test", pkg: "drbg/internal/aes", files: map[string]string{"zz_vh_verif_test.go": "aes_test.go"}},
			with(inpkg("drbg/internal/aes", "noasm", "aes_test.go", nil), "noasm", ""), with(inpkg("drbg/internal/aes", "386", "aes_test.go", nil), "", "386"),
			arm64(inpkg("drbg/internal/aes", "aes", "aes_test.go", nil), 4, 1)},
		assumptions: []string{detNote}},
	"U01": {level: "exploration", rule: "one process per identification answer of the enumerated space, the real initialisation code deciding the flags.",
		parts: []part{
			{label: "table", kind: "main", pkg: "cmd/cpu", extra: map[string]string{"utils/cpuid_amd64.s": "cpuid_stub.s", "utils/zz_vh_cpuid.go": "cpuid_stub.go"}, optional: true},
			{label: "real", kind: "main", pkg: "cmd/cpureal"},
			{label: "insn", kind: "test", pkg: "utils", files: map[string]string{"zz_vh_verif_test.go": "cpuid_real_test.go"}, optional: true},
		},
		assumptions: []string{detNote, "the identification instruction is replaced by a table; its own assembly wrapper is compared on the leaves of this processor"}},
}

func init() {
	for id, c := range map[string]check{
		"C01": {level: "model_checking", rule: "words of group-action steps of the real code; states are exponent vectors.",
			parts: others(variants("csidh", "amd64"), "csidh", 8, 1), assumptions: []string{detNote}},
		"C02": {level: "model_checking", rule: "enumerated keys and enumerated answers of the random source on the real group action, against a big.Int model; states are curves of the model.",
			parts: others(variants("csidh", "amd64"), "csidh", 8, 1), assumptions: []string{detNote}},
		"C03": {level: "exploration", rule: "enumerated encodings and answers of the random source on the real validation, against an independent supersingularity test.",
			parts: others(variants("csidh", "amd64"), "csidh", 8, 1), assumptions: []string{detNote, "the reference declares a curve supersingular when p+1 annihilates eight fixed x-coordinates"}},
		"C04": {level: "fault_enumeration", rule: "enumerated random streams, fault positions, buffer sizes and key-object histories against the rejection-sampling model.",
			parts: others(variants("csidh", "amd64"), "csidh", 8, 1), assumptions: []string{detNote}},
		"C05": {level: "exploration", rule: "field and curve functions on every tuple of the boundary alphabets, on each CPU path and build, against math/big.",
			parts: append(variants("csidh", "api"), inpkg("dh/csidh", "fp", "csidh_fp_test.go", nil), inpkg("dh/csidh", "curve", "csidh_curve_test.go", nil),
				with(inpkg("dh/csidh", "fp-noasm", "csidh_fp_test.go", nil), "noasm", ""), with(inpkg("dh/csidh", "curve-noasm", "csidh_curve_test.go", nil), "noasm", ""),
				with(inpkg("dh/csidh", "fp-386", "csidh_fp_test.go", nil), "", "386")), assumptions: []string{detNote}},
		"I01": {level: "model_checking", rule: "enumerated scalar pairs on both sides of the real exchange, with export and import between; states are (field, side, public key).",
			parts: others(variants("sidh", "amd64"), "sidh", 8, 1), assumptions: []string{detNote}},
		"I02": {level: "model_checking", rule: "enumerated scalars on the real code against an affine textbook isogeny model over math/big; states are public keys of the model.",
			parts: others(variants("sidh", "amd64"), "sidh", 8, 1), assumptions: []string{detNote}},
		"I03": {level: "model_checking", rule: "operation histories on one shared KEM object, and every fault position of its random source, against the SIKE specification model; states are (object, last operation).",
			parts: others(variants("sidh", "amd64"), "sidh", 8, 1), assumptions: []string{detNote}},
		"I04": {level: "fault_enumeration", rule: "every enumerated alteration of a ciphertext on the real decapsulation against the SIKE rejection model.",
			parts: others(variants("sidh", "amd64"), "sidh", 8, 1), assumptions: []string{detNote}},
		"I05": {level: "model_checking", rule: "import/export/generate/init histories on the real key objects against a key-store model.",
			parts: variants("sidh", "amd64", "noasm", "386"), assumptions: []string{detNote}},
		"I06": {level: "fault_enumeration", rule: "every stream value of the alphabet, fault position and read pattern of key generation.",
			parts: variants("sidh", "amd64", "noasm", "386"), assumptions: []string{detNote}},
		"I07": {level: "exploration", rule: "field and curve functions on every tuple of the boundary alphabets, on each CPU path and build, against math/big.",
			parts: i07(), assumptions: []string{detNote}},
		"I08": {level: "model_checking", rule: "cross product of fields, variants, operations and buffer sizes on the real API, with canaries.",
			parts: others(variants("sidh", "amd64"), "sidh", 8, 1), assumptions: []string{detNote}},
		"T01": {level: "model_checking", rule: "the same operation, from the same state of the whole program, with every secret of the alphabet: the sequences of executed instructions and touched addresses are compared event by event; transitions are executions, states are (operation, trace).",
			parts: t01(), assumptions: []string{detNote, "what an instruction's own duration depends on is out of sight, except for divisions under the interpreter", "whole operations run as 64-bit ARM code under the interpreter in harness/a64, the functions of the amd64 builds under valgrind"}},
		"K01": {level: "model_checking", rule: "recipient counts, key pairings, alterations, histories and fault positions on real multi-recipient KEM objects, against an mKEM model over the textbook isogeny model.",
			parts: others(variants("mkem", "amd64"), "mkem", 8, 1), assumptions: []string{detNote}},
		"K02": {level: "model_checking", rule: "recipient counts, plaintexts, invalid keys and histories on shared real CSIDH multi-recipient objects, against a model over the big.Int group action.",
			parts: others(variants("mkem", "amd64"), "mkem", 8, 1), assumptions: []string{detNote}},
		"K03": {level: "model_checking", rule: "histories, alterations, messages and fault positions run on both SIKE implementations and compared with each other and with the SIKE model.",
			parts: others(variants("mkem", "amd64"), "mkem", 8, 1), assumptions: []string{detNote}},
		"X01": {level: "model_checking", rule: "schedules of two threads on distinct objects under a controlled scheduler over instrumented copies of the real code; results are compared with those of the operations run alone; states are (pair, plan). Conflicting accesses are decided by the race detector on executions without any ordering between the threads.",
			parts:       []part{{label: "race", kind: "main", pkg: "cmd/conc", race: true, env: []string{"GORACE=exitcode=0 history_size=3"}}, {label: "sched", kind: "main", pkg: "cmd/conc", gen: "vinstr"}},
			assumptions: []string{detNote, "a thread is preempted between statements only", "assembly code is not seen by the race detector, only by the results"}},
		"X02": {level: "model_checking", cmp: true, rule: "every configuration (build tags, 32-bit build, masked CPU capabilities) replays the same enumerated histories and publishes what it observed; states are pairs of a configuration and an outcome; any difference to the default build is a violation, so is a supported configuration that does not build.",
			parts: configurations(), assumptions: []string{detNote, "the arm64 build runs under the interpreter in harness/a64, a fixed part of the cases", "the appengine build has no drbg (drbg/internal/aes/tools.go excludes it)"}},
	} {
		checks[id] = c
	}
}

// inpkg is a part inside a package of /repo; it is left out, with a note, when internal names have changed.
func inpkg(pkg, label, file string, subst [][2]string) part {
	return part{label: label, kind: "test", pkg: pkg, files: map[string]string{"zz_vh_verif_test.go": file}, subst: subst, optional: true}
}

func with(p part, tags, goarch string) part {
	p.tags, p.goarch = tags, goarch
	return p
}

// arm64 makes a part run as 64-bit ARM code, every q-th or t-th case of each group.
func arm64(p part, q, t int) part {
	p.label += "-arm64"
	p.goarch, p.emulate, p.optional = "arm64", true, true
	p.every = [2]int{prime(q), prime(t)}
	return p
}

func i07() []part {
	ps := variants("sidh", "api")
	for _, f := range []string{"434", "503", "751"} {
		pkg := "dh/sidh/internal/p" + f
		sub := [][2]string{{"p434", "p" + f}, {"P434", "P" + f}, {"S434", "S" + f}}
		fl := inpkg(pkg, "p"+f+"-flags", "sidh_fp_test.go", sub)
		fl.files["zz_vh_flags_verif_test.go"] = "sidh_flags2_test.go"
		if f == "434" {
			fl.files["zz_vh_flags_verif_test.go"] = "sidh_flags1_test.go"
		}
		fp, cv := inpkg(pkg, "p"+f, "sidh_fp_test.go", sub), inpkg(pkg, "p"+f+"-curve", "sidh_curve_test.go", sub)
		gen := func(p part, tag, arch string) part {
			p = with(p, tag, arch)
			p.label += "-" + tag + arch
			return p
		}
		ps = append(ps, fp, fl, gen(fp, "noasm", ""), gen(fp, "", "386"), cv, gen(cv, "noasm", ""))
		if f != "434" { // which has no assembly for it
			ps = append(ps, arm64(fp, 40, 1), arm64(cv, 150, 1))
		}
	}
	return ps
}

func t01() []part {
	secret := func(label, tags string, q, t int) part {
		p := mainPart(label, "ct")
		p.tags, p.goarch, p.emulate, p.trace, p.optional = tags, "arm64", true, true, true
		p.every = [2]int{prime(q), prime(t)}
		return p
	}
	ps := []part{secret("arm64", "", 1, 1), secret("arm64-noasm", "noasm", 3, 1)}
	leaf := func(pkg, label, tags, file, extra string, sub [][2]string) {
		p := with(inpkg(pkg, label, file, sub), tags, "")
		if extra != "" {
			p.files["zz_vh_flags_verif_test.go"] = extra
		}
		ps = append(ps, p)
	}
	for _, f := range []string{"434", "503", "751"} {
		sub := [][2]string{{"p434", "p" + f}, {"P434", "P" + f}, {"S434", "S" + f}}
		fl := "ct_sidh_flags2_test.go"
		if f == "434" {
			fl = "ct_sidh_flags1_test.go"
		}
		leaf("dh/sidh/internal/p"+f, "p"+f, "", "ct_sidh_test.go", fl, sub)
		leaf("dh/sidh/internal/p"+f, "p"+f+"-noasm", "noasm", "ct_sidh_test.go", "", sub)
	}
	leaf("dh/csidh", "csidh", "", "ct_csidh_test.go", "ct_csidh_paths_test.go", nil)
	leaf("dh/csidh", "csidh-noasm", "noasm", "ct_csidh_test.go", "", nil)
	leaf("drbg/internal/aes", "aes", "", "ct_aes_test.go", "", nil)
	return ps
}

func configurations() []part {
	ps := variants("hist", "amd64", "noasm", "appengine", "386")
	for _, off := range []string{"HasAES", "HasBMI2", "HasADX", "HasBMI2,HasADX", "HasAES,HasBMI2,HasADX,HasRDSEED"} {
		ps = append(ps, masked("hist", off, 1, 1))
	}
	return append(ps, arm64(mainPart("64-bit", "hist"), 40, 3))
}
