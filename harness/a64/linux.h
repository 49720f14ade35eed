// The Linux side: loader, threads, system calls.
#define MAXT 256
static cpu *threads[MAXT];
static int nthreads;
static cpu *cur;

static void out_of_range(cpu *c) {
	fprintf(stderr, "a64: jump to %llx lr=%llx\n", (unsigned long long)c->pc, (unsigned long long)c->x[30]);
	exit(124);
}

// run executes up to n instructions of a thread.
static void run(cpu *c, int n) {
	cur = c;
	yield_now = 0;
	while (n-- > 0 && !yield_now) {
		u64 pc = c->pc;
		if (pc < tbase || pc >= tend)
			out_of_range(c);
		op *o = &ops[(pc - tbase) >> 2];
		if (!o->f)
			decode(pc, *(u32 *)pc, o);
		EXECUTED(pc);
		c->pc = pc + 4;
		o->f(c, o);
		icount++;
	}
}

static i64 ret(long r) { return r < 0 ? -(i64)errno : r; }

struct a64_stat {
	u64 dev, ino;
	u32 mode, nlink, uid, gid;
	u64 rdev, pad1;
	i64 size;
	i32 blksize, pad2;
	i64 blocks;
	i64 atime, atimens, mtime, mtimens, ctime, ctimens;
	u32 unused[2];
};
static void cpstat(u64 to, const struct stat *s) {
	struct a64_stat *t = (void *)to;
	memset(t, 0, sizeof *t);
	t->dev = s->st_dev; t->ino = s->st_ino; t->mode = s->st_mode; t->nlink = s->st_nlink; t->uid = s->st_uid; t->gid = s->st_gid;
	t->rdev = s->st_rdev; t->size = s->st_size; t->blksize = s->st_blksize; t->blocks = s->st_blocks;
	t->atime = s->st_atim.tv_sec; t->atimens = s->st_atim.tv_nsec; t->mtime = s->st_mtim.tv_sec; t->mtimens = s->st_mtim.tv_nsec;
	t->ctime = s->st_ctim.tv_sec; t->ctimens = s->st_ctim.tv_nsec;
}
static int oflags(u64 f) {
	int r = f & ~0740000;
	if (f & 040000) r |= O_DIRECTORY;
	if (f & 0100000) r |= O_NOFOLLOW;
	if (f & 0200000) r |= O_DIRECT;
	return r;
}

static void block(cpu *c, u64 word, u64 deadline) {
	c->blocked = 1;
	c->futex = word;
	c->deadline = deadline;
	yield_now = 1;
}
static int wake(u64 word, int n) {
	int k = 0;
	for (int i = 0; i < nthreads && k < n; i++) {
		cpu *t = threads[i];
		if (t->alive && t->blocked && t->futex == word) {
			t->blocked = 0;
			t->x[0] = 0;
			k++;
		}
	}
	return k;
}
struct ev { u32 events, pad; u64 data; };
static int poll_epoll(cpu *c) {
	struct epoll_event e[64];
	int m = c->epmax > 64 ? 64 : c->epmax, n = epoll_wait(c->epfd, e, m, 0);
	struct ev *t = (void *)c->epev;
	for (int i = 0; i < n; i++) {
		t[i].events = e[i].events;
		t[i].data = e[i].data.u64;
	}
	return n < 0 ? -errno : n;
}

#ifdef TRACE
#include "trace_sys.h"
#endif

static void do_syscall(cpu *c) {
	u64 a0 = c->x[0], a1 = c->x[1], a2 = c->x[2], a3 = c->x[3], a4 = c->x[4], a5 = c->x[5];
	i64 r = -ENOSYS;
#ifdef TRACE
	if (trace_syscall(c)) return;
#endif
	switch (c->x[8]) {
	case 17: r = ret(syscall(SYS_getcwd, a0, a1)); break;
	case 19: r = ret(syscall(SYS_eventfd2, a0, a1)); break;
	case 20: r = ret(syscall(SYS_epoll_create1, a0)); break;
	case 21: {
		struct epoll_event e;
		struct ev *s = (void *)a3;
		if (s) { e.events = s->events; e.data.u64 = s->data; }
		r = ret(epoll_ctl(a0, a1, a2, s ? &e : 0));
		break;
	}
	case 22:
		c->epfd = a0; c->epev = a1; c->epmax = a2;
		r = poll_epoll(c);
		if (r == 0 && (i32)a3 != 0)
			block(c, 1, (i32)a3 < 0 ? 0 : now() + (u64)(i32)a3 * 1000000);
		break;
	case 24: r = ret(syscall(SYS_dup3, a0, a1, a2)); break;
	case 25: r = ret(syscall(SYS_fcntl, a0, a1, a1 == F_SETFL ? (u64)oflags(a2) : a2)); break;
	case 29: r = -ENOTTY; break; // ioctl
	case 34: r = ret(syscall(SYS_mkdirat, a0, a1, a2)); break;
	case 35: r = ret(syscall(SYS_unlinkat, a0, a1, a2)); break;
	case 46: r = ret(syscall(SYS_ftruncate, a0, a1)); break;
	case 48: r = ret(syscall(SYS_faccessat, a0, a1, a2)); break;
	case 56: r = ret(openat(a0, (char *)a1, oflags(a2), a3)); break;
	case 57: r = ret(close(a0)); break;
	case 59: r = ret(pipe2((int *)a0, oflags(a1))); break;
	case 61: r = ret(syscall(SYS_getdents64, a0, a1, a2)); break;
	case 62: r = ret(lseek(a0, a1, a2)); break;
	case 63: r = ret(read(a0, (void *)a1, a2)); break;
	case 64: r = ret(write(a0, (void *)a1, a2)); break;
	case 67: r = ret(pread(a0, (void *)a1, a2, a3)); break;
	case 68: r = ret(pwrite(a0, (void *)a1, a2, a3)); break;
	case 78: r = ret(syscall(SYS_readlinkat, a0, a1, a2, a3)); break;
	case 79: { struct stat s; r = ret(fstatat(a0, (char *)a1, &s, a3)); if (r == 0) cpstat(a2, &s); break; }
	case 80: { struct stat s; r = ret(fstat(a0, &s)); if (r == 0) cpstat(a1, &s); break; }
	case 93: // exit of one thread
		c->alive = 0;
		if (c->ctid) { M32(c->ctid) = 0; wake(c->ctid, 1); }
		yield_now = 1;
		return;
	case 94:
		if (getenv("A64_STATS"))
			fprintf(stderr, "a64: %llu instructions\n", (unsigned long long)icount);
		fflush(0);
		_exit(a0);
	case 98: { // futex
		int op = a1 & 127;
		if (op == 0) {
			if (M32(a0) != (u32)a2) { r = -EAGAIN; break; }
			u64 dl = 0;
			if (a3) { struct timespec *t = (void *)a3; dl = now() + t->tv_sec * 1000000000ull + t->tv_nsec; }
			block(c, a0, dl);
			r = -ETIMEDOUT; // unless woken
		} else if (op == 1)
			r = wake(a0, (i32)a2);
		break;
	}
	case 101: { // nanosleep
		struct timespec *t = (void *)a0;
		block(c, 0, now() + t->tv_sec * 1000000000ull + t->tv_nsec);
		r = 0;
		break;
	}
	case 113: r = ret(clock_gettime(a0, (void *)a1)); break;
	case 115: { struct timespec *t = (void *)a2; block(c, 0, now() + t->tv_sec * 1000000000ull + t->tv_nsec); r = 0; break; }
	case 123: { memset((void *)a2, 0, a1); M8(a2) = 1; r = 8; break; } // sched_getaffinity: one processor
	case 124: r = 0; yield_now = 1; break;
	case 129: case 130: case 131: { // signals to ourselves
		int sig = c->x[8] == 131 ? a2 : a1;
		if (sig == SIGABRT || sig == SIGSEGV || sig == SIGKILL || sig == SIGQUIT) { fflush(0); _exit(128 + sig); }
		r = 0;
		break;
	}
	case 132: case 134: case 135: // sigaltstack, sigaction, sigprocmask
		if (c->x[8] == 134 && a2) memset((void *)a2, 0, 32);
		if (c->x[8] == 132 && a1) { memset((void *)a1, 0, 24); M32(a1 + 8) = 2; }
		if (c->x[8] == 135 && a2) memset((void *)a2, 0, a3);
		r = 0;
		break;
	case 160: { struct utsname u; uname(&u); strcpy(u.machine, "aarch64"); memcpy((void *)a0, &u, sizeof u); r = 0; break; }
	case 167: r = 0; break; // prctl
	case 169: r = ret(syscall(SYS_gettimeofday, a0, a1)); break;
	case 172: r = getpid(); break;
	case 173: r = getppid(); break;
	case 174: r = getuid(); break;
	case 175: r = geteuid(); break;
	case 176: r = getgid(); break;
	case 177: r = getegid(); break;
	case 178: r = c->tid; break;
	case 214: r = 0; break; // brk
	case 215: r = ret(munmap((void *)a0, a1)); break;
	case 220: { // clone, threads only
		if (!(a0 & 0x10000) || nthreads >= MAXT) break;
		cpu *t = malloc(sizeof *t);
		*t = *c;
		t->x[0] = 0; t->x[SP] = a1; t->excl = 0;
		if (a0 & 0x80000) t->tpidr = a3;
		t->tid = getpid() + nthreads;
		t->ctid = a0 & 0x200000 ? a4 : 0;
		t->blocked = 0;
		threads[nthreads++] = t;
		r = t->tid;
		if (a0 & 0x100000) M32(a2) = r;
		break;
	}
	case 222: r = ret((long)mmap((void *)a0, a1, a2 & ~4, a3, (int)a4, a5)); break;
	case 226: r = ret(mprotect((void *)a0, a1, a2 & ~4)); break;
	case 232: r = -ENOSYS; break;
	case 233: r = ret(madvise((void *)a0, a1, a2)); break;
	case 261: r = ret(syscall(SYS_prlimit64, a0, a1, a2, a3)); break;
	case 278: r = ret(getrandom((void *)a0, a1, a2)); break;
	case 99: case 103: case 107: case 110: case 111: case 236: case 283: case 293: break; // not there
	default:
		if (getenv("A64_TRACE")) fprintf(stderr, "a64: system call %llu\n", (unsigned long long)c->x[8]);
	}
	c->x[0] = r;
}

static void schedule(void) {
	for (;;) {
		int alive = 0, ran = 0;
		u64 next = 0, t = 0;
		for (int i = 0; i < nthreads; i++) {
			cpu *c = threads[i];
			if (!c->alive) continue;
			alive = 1;
			if (c->blocked) {
				if (!t) t = now();
				if (c->futex == 1) {
					int n = poll_epoll(c);
					if (n) { c->blocked = 0; c->x[0] = n; }
				}
				if (c->blocked && c->deadline && c->deadline <= t)
					c->blocked = 0; // the result is in x0 already
				if (c->blocked) {
					if (c->deadline && (!next || c->deadline < next)) next = c->deadline;
					continue;
				}
			}
			c->excl = 0;
			run(c, 20000);
			ran = 1;
		}
		if (!alive) _exit(0);
		if (!ran) {
			t = now();
			u64 d = 1000000;
			if (next && next > t && next - t < d) d = next - t;
			struct timespec ts = {0, d};
			nanosleep(&ts, 0);
		}
	}
}

static void onsegv(int sig, siginfo_t *si, void *u) {
	fprintf(stderr, "a64: signal %d at address %p, pc=%llx lr=%llx\n", sig, si->si_addr, (unsigned long long)cur->pc - 4, (unsigned long long)cur->x[30]);
	_exit(124);
}

int main(int argc, char **argv, char **envp) {
	if (argc < 2) { fprintf(stderr, "usage: a64 program args\n"); return 125; }
	int fd = open(argv[1], O_RDONLY);
	struct stat st;
	if (fd < 0 || fstat(fd, &st)) { perror(argv[1]); return 125; }
	u8 *f = mmap(0, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
	Elf64_Ehdr *h = (void *)f;
	if (memcmp(h->e_ident, ELFMAG, 4) || h->e_machine != EM_AARCH64 || h->e_type != ET_EXEC) { fprintf(stderr, "a64: not a static arm64 program\n"); return 125; }
	Elf64_Phdr *p = (void *)(f + h->e_phoff);
	for (int i = 0; i < h->e_phnum; i++) {
		if (p[i].p_type != PT_LOAD) continue;
		u64 a = p[i].p_vaddr & ~4095ull, e = (p[i].p_vaddr + p[i].p_memsz + 4095) & ~4095ull;
		if (mmap((void *)a, e - a, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void *)a) { perror("a64: mmap"); return 125; }
		memcpy((void *)p[i].p_vaddr, f + p[i].p_offset, p[i].p_filesz);
		if (p[i].p_flags & PF_X) { tbase = a; tend = e; }
		if (!(p[i].p_flags & PF_W)) mprotect((void *)a, e - a, PROT_READ);
	}
	ops = mmap(0, (tend - tbase) / 4 * sizeof(op), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (ops == MAP_FAILED) { perror("a64: mmap"); return 125; }
	aes_init();
	cpu *c = calloc(1, sizeof *c);
	u64 size = 8 << 20;
	u8 *stack = mmap(0, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	u64 *sp = (u64 *)(stack + size - 4096);
	u64 rnd[2];
	if (getrandom(rnd, 16, 0) < 0)
		exit(125);
	memcpy(stack + size - 64, rnd, 16);
	int ne = 0;
	while (envp[ne]) ne++;
	u64 aux[] = {AT_PAGESZ, 4096, AT_HWCAP, 3, AT_HWCAP2, 0, AT_RANDOM, (u64)(stack + size - 64), AT_SECURE, 0, AT_NULL, 0};
	int words = 1 + (argc - 1) + 1 + ne + 1 + sizeof aux / 8;
	sp -= (words + 1) & ~1;
	c->x[SP] = (u64)sp;
	*sp++ = argc - 1;
	for (int i = 1; i < argc; i++) *sp++ = (u64)argv[i];
	*sp++ = 0;
	for (int i = 0; i < ne; i++) *sp++ = (u64)envp[i];
	*sp++ = 0;
	memcpy(sp, aux, sizeof aux);
	c->pc = h->e_entry;
	c->alive = 1;
	c->tid = getpid();
	threads[nthreads++] = c;
	stack_t ss = {.ss_sp = malloc(1 << 16), .ss_size = 1 << 16};
	sigaltstack(&ss, 0);
	struct sigaction sa = {.sa_sigaction = onsegv, .sa_flags = SA_SIGINFO | SA_ONSTACK};
	sigaction(SIGSEGV, &sa, 0);
	sigaction(SIGBUS, &sa, 0);
	signal(SIGPIPE, SIG_IGN);
	schedule();
}
