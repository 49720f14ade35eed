// System call 4000 of the tracing interpreter.
//
//   x0=1: explore. For each of the x4 inputs of x2 bytes at x3, a copy of the whole program (fork) gets the input
//   into the buffer x1 and goes on traced, with x0 the number of the input, up to its x0=2 call. The program itself
//   goes on, when all copies have ended, with x0=-1 and the comparison with input 0 in the words at x5: events,
//   instructions, distinct outputs, number of the first input with another trace (or -1), then kind and value of the first
//   event that differs in the one and in the other, and the last instruction before it.
//   x0=2: end of a copy; the x2 bytes at x1 are its output.
//   x0=3: returns 4000, to ask whether this is the tracing interpreter.
#include <sys/wait.h>

static u64 hash_bytes(const u8 *p, u64 n) {
	u64 h = 1469598103934665603ull;
	for (u64 i = 0; i < n; i++)
		h = (h ^ p[i]) * 1099511628211ull, h ^= h >> 29;
	return h;
}
static struct record *share(void) {
	struct record *r = mmap(0, sizeof *r, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (r == MAP_FAILED) { perror("a64: mmap"); exit(125); }
	return r;
}
// copies starts a copy for input i; the copy does not return.
static pid_t copies(cpu *c, u64 i, struct record *r, u64 window) {
	r->done = 0;
	r->window = window;
	pid_t p = fork();
	if (p < 0) { perror("a64: fork"); exit(125); }
	if (p)
		return p;
	rec = r;
	memcpy((void *)c->x[1], (void *)(c->x[3] + i * c->x[2]), c->x[2]);
	c->x[0] = i;
	for (int k = 1; k < 19; k++) // the registers of the call must not differ or lead to the inputs
		if (k != 8) c->x[k] = 0;
	c->excl = 0;
	tn = ti = 0;
	th = 1;
	tracing = 1;
	for (;;)
		run(c, 1 << 30);
}
static int ended(pid_t p, struct record *r) {
	int st;
	while (waitpid(p, &st, 0) < 0)
		if (errno != EINTR) { perror("a64: wait"); exit(125); }
	if (!WIFEXITED(st) || WEXITSTATUS(st) > 120) { // the interpreter gave up on it
		fprintf(stderr, "a64: a traced copy could not be run\n");
		exit(125);
	}
	if (WEXITSTATUS(st) || !r->done) {
		fprintf(stderr, "a64: a traced copy ended with %x\n", st);
		return 0;
	}
	return 1;
}

static int trace_syscall(cpu *c) {
	if (c->x[8] == 4000 && c->x[0] == 3) {
		c->x[0] = 4000;
		return 1;
	}
	if (c->x[8] == 4000 && c->x[0] == 2) {
		if (!tracing) { fprintf(stderr, "a64: end without explore\n"); exit(125); }
		rec->n = tn;
		rec->insns = ti;
		rec->hash = th;
		rec->out = hash_bytes((void *)c->x[1], c->x[2]);
		rec->done = 1;
		_exit(0);
	}
	if (c->x[8] == 4000 && c->x[0] == 1) {
		u64 n = c->x[4], base = 0;
		u64 *res = (u64 *)c->x[5];
		int jobs = 1;
		if (getenv("A64_JOBS")) jobs = atoi(getenv("A64_JOBS"));
		if (jobs < 1 || tracing || base >= n) { fprintf(stderr, "a64: explore %d %d %llu\n", jobs, tracing, (unsigned long long)n); exit(125); }
		static struct record *rs[64], *ref;
		if (jobs > 64) jobs = 64;
		for (int k = 0; k < jobs; k++) if (!rs[k]) rs[k] = share();
		if (!ref) ref = share();
		memset(res, 0, 80);
		res[3] = ~0ull;
		if (!ended(copies(c, base, ref, ~0ull), ref)) exit(122);
		u64 *outs = malloc(n * 8), bad = ~0ull, insns = ref->insns;
		for (u64 i = 0; i < n; i += jobs) {
			pid_t p[64];
			for (int k = 0; k < jobs && i + k < n; k++) p[k] = copies(c, i + k, rs[k], ~0ull);
			for (int k = 0; k < jobs && i + k < n; k++) {
				if (!ended(p[k], rs[k])) {
					res[9] = i + k + 1;
					continue;
				}
				outs[i + k] = rs[k]->out;
				insns += rs[k]->insns;
				if ((rs[k]->hash != ref->hash || rs[k]->n != ref->n) && bad == ~0ull) bad = i + k;
			}
			if (bad != ~0ull || res[9]) break;
		}
		res[0] = ref->n;
		res[1] = insns;
		res[3] = bad;
		if (bad == ~0ull && !res[9]) {
			for (u64 i = 0; i < n; i++) {
				int seen = 0;
				for (u64 j = 0; j < i && !seen; j++) seen = outs[j] == outs[i];
				res[2] += !seen;
			}
		} else if (bad != ~0ull) { // find the first difference: fill in both windows
			struct record *o = rs[0];
			if (!ended(copies(c, bad, o, ~0ull), o)) exit(122);
			u64 w = 0, lim = (ref->n < o->n ? ref->n : o->n) >> WINDOW;
			while (w < lim && ref->check[w] == o->check[w]) w++;
			if (!ended(copies(c, base, ref, w), ref) || !ended(copies(c, bad, o, w), o)) exit(122);
			u64 k = 0, last = 0;
			while (k < 1 << WINDOW && ref->ev[k][0] == o->ev[k][0] && ref->ev[k][1] == o->ev[k][1]) {
				if (ref->ev[k][0] == 0) last = ref->ev[k][1];
				k++;
			}
			if (k < 1 << WINDOW) {
				res[4] = ref->ev[k][0]; res[5] = ref->ev[k][1];
				res[6] = o->ev[k][0]; res[7] = o->ev[k][1];
				res[8] = last;
			}
		}
		free(outs);
		c->x[0] = ~0ull;
		return 1;
	}
	if (!tracing)
		return 0;
	switch (c->x[8]) {
	case 113: M64(c->x[1]) = 1000; M64(c->x[1] + 8) = 0; c->x[0] = 0; return 1;
	case 124: c->x[0] = 0; return 1;
	case 98:
		if ((c->x[1] & 127) == 1) { c->x[0] = 0; return 1; }
		break;
	case 64: c->x[0] = c->x[2]; return 1; // the message of a panic
	case 94: _exit(2);
	case 215: case 222: case 226: case 233: return 0;
	}
	fprintf(stderr, "a64: system call %llu in a traced copy\n", (unsigned long long)c->x[8]);
	_exit(121);
}
