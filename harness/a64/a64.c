// A64 user-mode interpreter: runs a static Linux/arm64 Go program on another machine, so that the
// checks can explore the 64-bit ARM assembly of /repo. One host thread; guest threads are switched
// between blocks of instructions. Guest memory is host memory at the same addresses.
//
// Exit status 125: the guest used something that is not implemented here (the check then leaves the
// part out; it is never a verdict).
#define _GNU_SOURCE
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef int32_t i32;
typedef uint16_t u16;
typedef uint8_t u8;
typedef unsigned __int128 u128;

typedef union {
	u8 b[16];
	u16 h[8];
	u32 s[4];
	u64 d[2];
	float f[4];
	double g[2];
} vreg;

enum { ZR = 31, SP = 32, TR = 33 }; // zero register, stack pointer, discarded results

typedef struct cpu {
	u64 x[34];
	u64 pc;
	u8 n, z, c, v;
	vreg V[32];
	u64 tpidr, fpcr, fpsr;
	int tid, alive, blocked;
	u64 futex, deadline; // blocked on this word until this time (ns), 0 is forever
	u64 epfd, epev, epmax;
	int excl;
	u64 exaddr;
	u64 ctid;
} cpu;

typedef struct op op;
typedef void (*fn)(cpu *, const op *);
struct op {
	fn f;
	u8 rd, rn, rm, ra, k, sh;
	i64 imm;
};

static u64 tbase, tend;
static op *ops;
static u64 icount;

static void die(int code, const char *what, cpu *c, u32 insn) {
	fprintf(stderr, "a64: %s %08x at pc=%llx lr=%llx x0=%llx sp=%llx\n", what, insn, (unsigned long long)c->pc - 4,
		(unsigned long long)c->x[30], (unsigned long long)c->x[0], (unsigned long long)c->x[SP]);
	exit(code);
}

#ifdef TRACE
#include "trace.h"
#else
#define SEEN(a) (void)0
#define USED(a, b) (void)0
#define EXECUTED(pc) (void)0
#define TIME now()
#endif

#define F(name) static void name(cpu *c, const op *o)
#define X(r) c->x[r]
#define XD X(o->rd)
#define XN X(o->rn)
#define XM X(o->rm)
#define XA X(o->ra)

static inline u64 ror64(u64 v, int n) { n &= 63; return n ? v >> n | v << (64 - n) : v; }
static inline u32 ror32(u32 v, int n) { n &= 31; return n ? v >> n | v << (32 - n) : v; }

static inline u64 shifted(u64 v, int type, int n) {
	switch (type) {
	case 0: return v << n;
	case 1: return v >> n;
	case 2: return (u64)((i64)v >> n);
	}
	return ror64(v, n);
}
static inline u32 shifted32(u32 v, int type, int n) {
	switch (type) {
	case 0: return v << n;
	case 1: return v >> n;
	case 2: return (u32)((i32)v >> n);
	}
	return ror32(v, n);
}
static inline u64 extended(u64 v, int opt, int n) {
	switch (opt) {
	case 0: v = (u8)v; break;
	case 1: v = (u16)v; break;
	case 2: v = (u32)v; break;
	case 4: v = (u64)(i64)(int8_t)v; break;
	case 5: v = (u64)(i64)(int16_t)v; break;
	case 6: v = (u64)(i64)(i32)v; break;
	}
	return v << n;
}
static inline int cond(const cpu *c, int cc) {
	int r;
	switch (cc >> 1) {
	case 0: r = c->z; break;
	case 1: r = c->c; break;
	case 2: r = c->n; break;
	case 3: r = c->v; break;
	case 4: r = c->c && !c->z; break;
	case 5: r = c->n == c->v; break;
	case 6: r = c->n == c->v && !c->z; break;
	default: return 1;
	}
	return (cc & 1) ? !r : r;
}
static inline u64 addc64(cpu *c, u64 a, u64 b, int ci) {
	u64 t = a + b, r = t + ci;
	c->c = (t < a) | (r < t);
	c->v = (~(a ^ b) & (a ^ r)) >> 63;
	c->n = r >> 63;
	c->z = r == 0;
	return r;
}
static inline u64 addc32(cpu *c, u32 a, u32 b, int ci) {
	u64 t = (u64)a + b + ci;
	u32 r = (u32)t;
	c->c = t >> 32;
	c->v = (~(a ^ b) & (a ^ r)) >> 31;
	c->n = r >> 31;
	c->z = r == 0;
	return r;
}
static inline void flags_l64(cpu *c, u64 r) { c->n = r >> 63; c->z = r == 0; c->c = c->v = 0; }
static inline void flags_l32(cpu *c, u32 r) { c->n = r >> 31; c->z = r == 0; c->c = c->v = 0; }

F(i_nop) {}
F(i_adr) { XD = o->imm; }
// add and subtract immediate; the immediate is stored already negated for subtractions without flags
F(i_addi) { XD = XN + o->imm; }
F(i_addiw) { XD = (u32)(XN + o->imm); }
F(i_addsi) { XD = addc64(c, XN, o->imm, 0); }
F(i_addsiw) { XD = addc32(c, XN, o->imm, 0); }
F(i_subsi) { XD = addc64(c, XN, ~o->imm, 1); }
F(i_subsiw) { XD = addc32(c, XN, ~(u32)o->imm, 1); }
F(i_andi) { XD = XN & o->imm; }
F(i_orri) { XD = XN | o->imm; }
F(i_eori) { XD = XN ^ o->imm; }
F(i_andsi) { u64 r = XN & o->imm; flags_l64(c, r); XD = r; }
F(i_andiw) { XD = (u32)(XN & o->imm); }
F(i_orriw) { XD = (u32)(XN | o->imm); }
F(i_eoriw) { XD = (u32)(XN ^ o->imm); }
F(i_andsiw) { u32 r = (u32)(XN & o->imm); flags_l32(c, r); XD = r; }
F(i_movi) { XD = o->imm; }
F(i_movk) { XD = (XD & ~(0xffffull << o->sh)) | (u64)o->imm << o->sh; }
F(i_movkw) { XD = (u32)((XD & ~(0xffffull << o->sh)) | (u64)o->imm << o->sh); }

static inline u64 mask(int n) { return n >= 64 ? ~0ull : (1ull << n) - 1; }
// bit fields: rm holds immr, ra holds imms, k: 0 signed, 1 insert, 2 unsigned; sh is the width
F(i_bfm) {
	int w = o->sh, r = o->rm, s = o->ra, len, pos;
	u64 src = w == 32 ? (u32)XN : XN, f, res;
	if (s >= r) {
		len = s - r + 1;
		pos = 0;
		f = src >> r & mask(len);
	} else {
		len = s + 1;
		pos = w - r;
		f = src & mask(len);
	}
	if (o->k == 0) {
		if (f >> (len - 1) & 1)
			f |= ~mask(len);
		res = f << pos;
	} else if (o->k == 2)
		res = f << pos;
	else
		res = (XD & ~(mask(len) << pos)) | f << pos;
	XD = w == 32 ? (u32)res : res;
}
F(i_lsli) { XD = XN << o->imm; }
F(i_lsri) { XD = XN >> o->imm; }
F(i_ubfx) { XD = XN >> o->sh & o->imm; }
F(i_extr) { u64 lo = XM, hi = XN; XD = o->imm ? lo >> o->imm | hi << (64 - o->imm) : lo; }
F(i_extrw) { u32 lo = XM, hi = XN; XD = o->imm ? lo >> o->imm | hi << (32 - o->imm) : lo; }

F(i_b) { c->pc = o->imm; }
F(i_bl) { X(30) = c->pc; c->pc = o->imm; }
F(i_bcond) { if (cond(c, o->k)) c->pc = o->imm; }
F(i_cbz) { if (XD == 0) c->pc = o->imm; }
F(i_cbnz) { if (XD != 0) c->pc = o->imm; }
F(i_cbzw) { if ((u32)XD == 0) c->pc = o->imm; }
F(i_cbnzw) { if ((u32)XD != 0) c->pc = o->imm; }
F(i_tbz) { if (!(XD >> o->sh & 1)) c->pc = o->imm; }
F(i_tbnz) { if (XD >> o->sh & 1) c->pc = o->imm; }
F(i_br) { c->pc = XN; }
F(i_blr) { u64 t = XN; X(30) = c->pc; c->pc = t; }
F(i_brk) { die(126, "brk", c, o->imm); }
static void do_syscall(cpu *c);
static int yield_now;
F(i_svc) { do_syscall(c); }
static u64 now(void) {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec * 1000000000ull + t.tv_nsec;
}
F(i_mrs) {
	switch (o->imm) {
	case 0xde82: XD = c->tpidr; break;
	case 0xda20: XD = c->fpcr; break;
	case 0xda21: XD = c->fpsr; break;
	case 0xdf02: XD = TIME; break;         // CNTVCT_EL0
	case 0xdf00: XD = 1000000000ull; break; // CNTFRQ_EL0
	case 0xd807: XD = 0x10; break;          // DCZID_EL0: DC ZVA prohibited
	case 0xda10: XD = (u64)c->n << 31 | (u64)c->z << 30 | (u64)c->c << 29 | (u64)c->v << 28; break;
	default: die(125, "mrs", c, o->imm);
	}
}
F(i_msr) {
	switch (o->imm) {
	case 0xde82: c->tpidr = XD; break;
	case 0xda20: c->fpcr = XD; break;
	case 0xda21: c->fpsr = XD; break;
	case 0xda10: c->n = XD >> 31 & 1; c->z = XD >> 30 & 1; c->c = XD >> 29 & 1; c->v = XD >> 28 & 1; break;
	default: die(125, "msr", c, o->imm);
	}
}
F(i_clrex) { c->excl = 0; }

// ---- loads and stores
#define M8(a) (*(u8 *)(a))
#define M16(a) (*(u16 *)(a))
#define M32(a) (*(u32 *)(a))
#define M64(a) (*(u64 *)(a))
enum { OFF, PRE, POST, REG };
static inline u64 addr(cpu *c, const op *o) {
	u64 a = XN;
	switch (o->k) {
	case OFF: a += o->imm; break;
	case PRE: a = XN = a + o->imm; break;
	case POST: XN = a + o->imm; break;
	default: a += extended(XM, o->ra, o->sh);
	}
	SEEN(a);
	return a;
}
#define LD(name, expr) F(name) { u64 a = addr(c, o); XD = (expr); }
LD(i_ldr8, M8(a)) LD(i_ldr16, M16(a)) LD(i_ldr32, M32(a)) LD(i_ldr64, M64(a))
LD(i_ldrs8, (u64)(i64)*(int8_t *)a) LD(i_ldrs16, (u64)(i64)*(int16_t *)a) LD(i_ldrs32, (u64)(i64)*(i32 *)a)
LD(i_ldrs8w, (u32)(i32)*(int8_t *)a) LD(i_ldrs16w, (u32)(i32)*(int16_t *)a)
F(i_ldr64o) { SEEN(XN + o->imm); XD = M64(XN + o->imm); }
F(i_str64o) { SEEN(XN + o->imm); M64(XN + o->imm) = XD; }
F(i_str8) { u64 v = XD; M8(addr(c, o)) = v; }
F(i_str16) { u64 v = XD; M16(addr(c, o)) = v; }
F(i_str32) { u64 v = XD; M32(addr(c, o)) = v; }
F(i_str64) { u64 v = XD; M64(addr(c, o)) = v; }
static void vld(vreg *r, u64 a, int sz) {
	vreg t;
	t.d[0] = t.d[1] = 0;
	memcpy(&t, (void *)a, sz);
	*r = t;
}
// ra is used by the register offset, so the size lies in the function
#define VLS(sz) \
	F(i_vldr##sz) { vld(&c->V[o->rd], addr(c, o), sz); } \
	F(i_vstr##sz) { u64 a = addr(c, o); memcpy((void *)a, &c->V[o->rd], sz); }
VLS(1) VLS(2) VLS(4) VLS(8) VLS(16)
F(i_ldp64) { u64 a = addr(c, o), p = M64(a), q = M64(a + 8); XD = p; XA = q; }
F(i_ldp32) { u64 a = addr(c, o), p = M32(a), q = M32(a + 4); XD = p; XA = q; }
F(i_ldpsw) { u64 a = addr(c, o); i64 p = *(i32 *)a, q = *(i32 *)(a + 4); XD = p; XA = q; }
F(i_stp64) { u64 p = XD, q = XA, a = addr(c, o); M64(a) = p; M64(a + 8) = q; }
F(i_stp32) { u64 p = XD, q = XA, a = addr(c, o); M32(a) = p; M32(a + 4) = q; }
#define VLSP(sz) \
	F(i_vldp##sz) { u64 a = addr(c, o); vld(&c->V[o->rd], a, sz); vld(&c->V[o->ra], a + sz, sz); } \
	F(i_vstp##sz) { u64 a = addr(c, o); memcpy((void *)a, &c->V[o->rd], sz); memcpy((void *)(a + sz), &c->V[o->ra], sz); }
VLSP(4) VLSP(8) VLSP(16)
F(i_ldrlit64) { XD = M64(o->imm); }
F(i_ldrlit32) { XD = M32(o->imm); }
F(i_ldrlitsw) { XD = (u64)(i64)*(i32 *)o->imm; }
F(i_vldrlit) { vld(&c->V[o->rd], o->imm, o->k); }

static inline u64 mld(u64 a, int sz) {
	switch (sz) {
	case 0: return M8(a);
	case 1: return M16(a);
	case 2: return M32(a);
	}
	return M64(a);
}
static inline void mst(u64 a, int sz, u64 v) {
	switch (sz) {
	case 0: M8(a) = v; break;
	case 1: M16(a) = v; break;
	case 2: M32(a) = v; break;
	default: M64(a) = v;
	}
}
F(i_ldx) { SEEN(XN); c->excl = 1; c->exaddr = XN; XD = mld(XN, o->k); }
F(i_stx) {
	SEEN(XN);
	if (c->excl && c->exaddr == XN) {
		mst(XN, o->k, XD);
		XM = 0;
	} else
		XM = 1;
	c->excl = 0;
}
F(i_ldar) { SEEN(XN); XD = mld(XN, o->k); }
F(i_stlr) { SEEN(XN); mst(XN, o->k, XD); }
F(i_cas) { // rm: compare and old value
	SEEN(XN);
	u64 old = mld(XN, o->k), m = o->k == 3 ? ~0ull : mask(8 << o->k);
	if (old == (XM & m))
		mst(XN, o->k, XD);
	if (o->rm != ZR)
		XM = old;
}
F(i_lse) { // rm: operand, rd: old value, sh: operation
	SEEN(XN);
	u64 old = mld(XN, o->k), s = XM, r;
	switch (o->sh) {
	case 0: r = old + s; break;
	case 1: r = old & ~s; break;
	case 2: r = old ^ s; break;
	case 3: r = old | s; break;
	default: r = s; // SWP
	}
	mst(XN, o->k, r);
	XD = old;
}
// LD1/ST1 of k whole registers; sh is the register size, imm the post-index increment, rm its register
F(i_ld1) {
	u64 a = XN;
	SEEN(a);
	for (int i = 0; i < o->k; i++)
		vld(&c->V[(o->rd + i) & 31], a + i * o->sh, o->sh);
	XN = a + (o->rm != ZR ? XM : o->imm);
}
F(i_st1) {
	u64 a = XN;
	SEEN(a);
	for (int i = 0; i < o->k; i++)
		memcpy((void *)(a + i * o->sh), &c->V[(o->rd + i) & 31], o->sh);
	XN = a + (o->rm != ZR ? XM : o->imm);
}
// LDnR: ra is the element size exponent, sh the register size, k the number of registers
F(i_ldr_rep) {
	u64 a = XN;
	SEEN(a);
	for (int i = 0; i < o->k; i++) {
		vreg t;
		t.d[0] = t.d[1] = 0;
		for (int j = 0; j < o->sh; j += 1 << o->ra)
			memcpy(&t.b[j], (void *)(a + (i << o->ra)), 1 << o->ra);
		c->V[(o->rd + i) & 31] = t;
	}
	XN = a + (o->rm != ZR ? XM : o->imm);
}
// LD1/ST1 of one element: ra size exponent, sh index, k is 1 for loads
F(i_ld1e) {
	u64 a = XN;
	SEEN(a);
	if (o->k)
		memcpy(&c->V[o->rd].b[o->sh << o->ra], (void *)a, 1 << o->ra);
	else
		memcpy((void *)a, &c->V[o->rd].b[o->sh << o->ra], 1 << o->ra);
	XN = a + (o->rm != ZR ? XM : o->imm);
}

// ---- data processing, registers; k: shift type or extension, sh: amount
#define SH64 shifted(XM, o->k, o->sh)
#define SH32 shifted32(XM, o->k, o->sh)
F(i_and) { XD = XN & SH64; }
F(i_bic) { XD = XN & ~SH64; }
F(i_orr) { XD = XN | SH64; }
F(i_orn) { XD = XN | ~SH64; }
F(i_eor) { XD = XN ^ SH64; }
F(i_eon) { XD = XN ^ ~SH64; }
F(i_ands) { u64 r = XN & SH64; flags_l64(c, r); XD = r; }
F(i_bics) { u64 r = XN & ~SH64; flags_l64(c, r); XD = r; }
F(i_andw) { XD = (u32)XN & SH32; }
F(i_bicw) { XD = (u32)XN & ~SH32; }
F(i_orrw) { XD = (u32)XN | SH32; }
F(i_ornw) { XD = (u32)XN | ~SH32; }
F(i_eorw) { XD = (u32)XN ^ SH32; }
F(i_eonw) { XD = (u32)XN ^ ~SH32; }
F(i_andsw) { u32 r = (u32)XN & SH32; flags_l32(c, r); XD = r; }
F(i_bicsw) { u32 r = (u32)XN & ~SH32; flags_l32(c, r); XD = r; }
F(i_mov) { XD = XM; }
F(i_add0) { XD = XN + XM; }
F(i_add) { XD = XN + SH64; }
F(i_sub) { XD = XN - SH64; }
F(i_adds) { XD = addc64(c, XN, SH64, 0); }
F(i_subs) { XD = addc64(c, XN, ~SH64, 1); }
F(i_addw) { XD = (u32)XN + SH32; }
F(i_subw) { XD = (u32)XN - SH32; }
F(i_addsw) { XD = addc32(c, XN, SH32, 0); }
F(i_subsw) { XD = addc32(c, XN, ~SH32, 1); }
#define EX extended(XM, o->k, o->sh)
F(i_addx) { XD = XN + EX; }
F(i_subx) { XD = XN - EX; }
F(i_addsx) { XD = addc64(c, XN, EX, 0); }
F(i_subsx) { XD = addc64(c, XN, ~EX, 1); }
F(i_addxw) { XD = (u32)(XN + EX); }
F(i_subxw) { XD = (u32)(XN - EX); }
F(i_addsxw) { XD = addc32(c, XN, (u32)EX, 0); }
F(i_subsxw) { XD = addc32(c, XN, ~(u32)EX, 1); }
F(i_adc) { XD = XN + XM + c->c; }
F(i_adcs) { XD = addc64(c, XN, XM, c->c); }
F(i_sbc) { XD = XN + ~XM + c->c; }
F(i_sbcs) { XD = addc64(c, XN, ~XM, c->c); }
F(i_adcw) { XD = (u32)(XN + XM + c->c); }
F(i_adcsw) { XD = addc32(c, XN, XM, c->c); }
F(i_sbcw) { XD = (u32)(XN + ~XM + c->c); }
F(i_sbcsw) { XD = addc32(c, XN, ~(u32)XM, c->c); }
// conditional compare: k condition, sh flags, ra: 1 negative (CMN), 2 immediate, 4 64-bit
F(i_ccmp) {
	if (!cond(c, o->k)) {
		c->n = o->sh >> 3 & 1;
		c->z = o->sh >> 2 & 1;
		c->c = o->sh >> 1 & 1;
		c->v = o->sh & 1;
		return;
	}
	u64 b = o->ra & 2 ? (u64)o->imm : XM;
	if (o->ra & 4)
		addc64(c, XN, o->ra & 1 ? b : ~b, !(o->ra & 1));
	else
		addc32(c, XN, o->ra & 1 ? (u32)b : ~(u32)b, !(o->ra & 1));
}
F(i_csel) { XD = cond(c, o->k) ? XN : XM; }
F(i_csinc) { XD = cond(c, o->k) ? XN : XM + 1; }
F(i_csinv) { XD = cond(c, o->k) ? XN : ~XM; }
F(i_csneg) { XD = cond(c, o->k) ? XN : -XM; }
F(i_cselw) { XD = (u32)(cond(c, o->k) ? XN : XM); }
F(i_csincw) { XD = (u32)(cond(c, o->k) ? XN : XM + 1); }
F(i_csinvw) { XD = (u32)(cond(c, o->k) ? XN : ~XM); }
F(i_csnegw) { XD = (u32)(cond(c, o->k) ? XN : -XM); }
F(i_udiv) { USED(XN, XM); u64 d = XM; XD = d ? XN / d : 0; }
F(i_sdiv) { USED(XN, XM); i64 d = XM, n = XN; XD = d == 0 ? 0 : d == -1 ? -(u64)n : (u64)(n / d); }
F(i_udivw) { USED(XN, XM); u32 d = XM; XD = d ? (u32)XN / d : 0; }
F(i_sdivw) { USED(XN, XM); i32 d = XM, n = XN; XD = d == 0 ? 0 : d == -1 ? -(u32)n : (u32)(n / d); }
F(i_lslv) { XD = XN << (XM & 63); }
F(i_lsrv) { XD = XN >> (XM & 63); }
F(i_asrv) { XD = (u64)((i64)XN >> (XM & 63)); }
F(i_rorv) { XD = ror64(XN, XM & 63); }
F(i_lslvw) { XD = (u32)XN << (XM & 31); }
F(i_lsrvw) { XD = (u32)XN >> (XM & 31); }
F(i_asrvw) { XD = (u32)((i32)XN >> (XM & 31)); }
F(i_rorvw) { XD = ror32(XN, XM & 31); }
static u64 rbit(u64 v, int n) {
	u64 r = 0;
	for (int i = 0; i < n; i++)
		r |= (v >> i & 1) << (n - 1 - i);
	return r;
}
F(i_rbit) { XD = rbit(XN, 64); }
F(i_rbitw) { XD = rbit((u32)XN, 32); }
F(i_rev) { XD = __builtin_bswap64(XN); }
F(i_revw) { XD = __builtin_bswap32(XN); }
F(i_rev32) { u64 v = XN; XD = (u64)__builtin_bswap32(v >> 32) << 32 | __builtin_bswap32(v); }
F(i_rev16) { u64 v = XN; XD = (v >> 8 & 0x00ff00ff00ff00ffull) | (v & 0x00ff00ff00ff00ffull) << 8; }
F(i_rev16w) { u32 v = XN; XD = (v >> 8 & 0x00ff00ffu) | (v & 0x00ff00ffu) << 8; }
F(i_clz) { XD = XN ? __builtin_clzll(XN) : 64; }
F(i_clzw) { XD = (u32)XN ? __builtin_clz((u32)XN) : 32; }
F(i_cls) { XD = __builtin_clrsbll((i64)XN); }
F(i_clsw) { XD = __builtin_clrsb((i32)XN); }
F(i_madd) { XD = XA + XN * XM; }
F(i_msub) { XD = XA - XN * XM; }
F(i_mul) { XD = XN * XM; }
F(i_maddw) { XD = (u32)XA + (u32)XN * (u32)XM; }
F(i_msubw) { XD = (u32)XA - (u32)XN * (u32)XM; }
F(i_umaddl) { XD = XA + (u64)(u32)XN * (u32)XM; }
F(i_umsubl) { XD = XA - (u64)(u32)XN * (u32)XM; }
F(i_smaddl) { XD = XA + (u64)((i64)(i32)XN * (i32)XM); }
F(i_smsubl) { XD = XA - (u64)((i64)(i32)XN * (i32)XM); }
F(i_umulh) { XD = (u64)((u128)XN * XM >> 64); }
F(i_smulh) { XD = (u64)((__int128)(i64)XN * (i64)XM >> 64); }
static u32 crctab(u32 poly, u32 crc, u64 v, int n) {
	for (int i = 0; i < n; i++) {
		crc ^= (u8)(v >> 8 * i);
		for (int j = 0; j < 8; j++)
			crc = crc >> 1 ^ (crc & 1 ? poly : 0);
	}
	return crc;
}
F(i_crc) { XD = crctab(o->k ? 0x82f63b78u : 0xedb88320u, XN, XM, 1 << o->sh); }

// ---- floating point
#define VD c->V[o->rd]
#define VN c->V[o->rn]
#define VM c->V[o->rm]
#define VA c->V[o->ra]
static inline void setd(vreg *r, double v) { r->g[0] = v; r->d[1] = 0; }
static inline void sets(vreg *r, float v) { r->d[0] = r->d[1] = 0; r->f[0] = v; }
static double dmax(double a, double b) { return isnan(a) || isnan(b) ? NAN : a == b ? (signbit(a) ? b : a) : a > b ? a : b; }
static double dmin(double a, double b) { return isnan(a) || isnan(b) ? NAN : a == b ? (signbit(a) ? a : b) : a < b ? a : b; }
// k: operation; sh: 1 double
F(i_fp2) {
	if (o->sh) {
		double a = VN.g[0], b = VM.g[0], r = 0;
		switch (o->k) {
		case 0: r = a * b; break;
		case 1: r = a / b; break;
		case 2: r = a + b; break;
		case 3: r = a - b; break;
		case 4: r = dmax(a, b); break;
		case 5: r = dmin(a, b); break;
		case 6: r = fmax(a, b); break;
		case 7: r = fmin(a, b); break;
		case 8: r = -(a * b); break;
		}
		setd(&VD, r);
	} else {
		float a = VN.f[0], b = VM.f[0], r = 0;
		switch (o->k) {
		case 0: r = a * b; break;
		case 1: r = a / b; break;
		case 2: r = a + b; break;
		case 3: r = a - b; break;
		case 4: r = dmax(a, b); break;
		case 5: r = dmin(a, b); break;
		case 6: r = fmaxf(a, b); break;
		case 7: r = fminf(a, b); break;
		case 8: r = -(a * b); break;
		}
		sets(&VD, r);
	}
}
static double rnd(double v, int mode) {
	switch (mode) {
	case 0: case 6: case 7: return nearbyint(v);
	case 1: return ceil(v);
	case 2: return floor(v);
	case 3: return trunc(v);
	}
	return round(v); // ties away
}
F(i_fp1) {
	double a = o->sh == 1 ? VN.g[0] : VN.f[0];
	switch (o->k) {
	case 0: if (o->sh == 1) { u64 t = VN.d[0]; VD.d[0] = t; } else { u32 t = VN.s[0]; VD.d[0] = t; } VD.d[1] = 0; return;
	case 1: if (o->sh == 1) { u64 t = VN.d[0] & ~(1ull << 63); VD.d[0] = t; } else { u32 t = VN.s[0] & 0x7fffffff; VD.d[0] = t; } VD.d[1] = 0; return;
	case 2: if (o->sh == 1) { u64 t = VN.d[0] ^ 1ull << 63; VD.d[0] = t; } else { u32 t = VN.s[0] ^ 0x80000000u; VD.d[0] = t; } VD.d[1] = 0; return;
	case 3: if (o->sh == 1) setd(&VD, sqrt(a)); else sets(&VD, sqrtf(a)); return;
	case 4: sets(&VD, (float)a); return;
	case 5: setd(&VD, a); return;
	}
	a = rnd(a, o->k - 8);
	if (o->sh == 1) setd(&VD, a); else sets(&VD, a);
}
static void fcmp(cpu *c, double a, double b) {
	c->n = c->z = c->c = c->v = 0;
	if (isnan(a) || isnan(b)) c->c = c->v = 1;
	else if (a == b) c->z = c->c = 1;
	else if (a < b) c->n = 1;
	else c->c = 1;
}
F(i_fcmp) { double b = o->k ? 0 : o->sh ? VM.g[0] : VM.f[0]; fcmp(c, o->sh ? VN.g[0] : VN.f[0], b); }
F(i_fccmp) {
	if (cond(c, o->k)) fcmp(c, o->sh ? VN.g[0] : VN.f[0], o->sh ? VM.g[0] : VM.f[0]);
	else { c->n = o->imm >> 3 & 1; c->z = o->imm >> 2 & 1; c->c = o->imm >> 1 & 1; c->v = o->imm & 1; }
}
F(i_fmovi) { VD.d[0] = o->imm; VD.d[1] = 0; }
F(i_fcsel) { u64 t = cond(c, o->k) ? VN.d[0] : VM.d[0]; VD.d[0] = o->sh ? t : (u32)t; VD.d[1] = 0; }
F(i_fmadd) {
	if (o->sh) {
		double n = VN.g[0], m = VM.g[0], a = VA.g[0];
		switch (o->k) {
		case 0: setd(&VD, fma(n, m, a)); break;
		case 1: setd(&VD, fma(-n, m, a)); break;
		case 2: setd(&VD, fma(-n, m, -a)); break;
		default: setd(&VD, fma(n, m, -a));
		}
	} else {
		float n = VN.f[0], m = VM.f[0], a = VA.f[0];
		switch (o->k) {
		case 0: sets(&VD, fmaf(n, m, a)); break;
		case 1: sets(&VD, fmaf(-n, m, a)); break;
		case 2: sets(&VD, fmaf(-n, m, -a)); break;
		default: sets(&VD, fmaf(n, m, -a));
		}
	}
}
F(i_fmov_xd) { XD = VN.d[0]; }
F(i_fmov_ws) { XD = VN.s[0]; }
F(i_fmov_dx) { VD.d[0] = XN; VD.d[1] = 0; }
F(i_fmov_sw) { VD.d[0] = (u32)XN; VD.d[1] = 0; }
F(i_fmov_xt) { XD = VN.d[1]; }
F(i_fmov_tx) { VD.d[1] = XN; }
// k: bit 0 unsigned, bit 1 64-bit integer
F(i_cvtf) {
	u64 v = XN;
	if (!(o->k & 2)) v = o->k & 1 ? (u32)v : (u64)(i64)(i32)v;
	if (o->sh) setd(&VD, o->k & 1 ? (double)v : (double)(i64)v);
	else sets(&VD, o->k & 1 ? (float)v : (float)(i64)v);
}
// rounding mode in ra
F(i_fcvt) {
	double a = rnd(o->sh ? VN.g[0] : VN.f[0], o->ra);
	u64 r;
	if (isnan(a)) r = 0;
	else if (o->k == 3) r = a >= 18446744073709551616.0 ? ~0ull : a <= 0 ? 0 : (u64)a;
	else if (o->k == 2) r = a >= 9223372036854775808.0 ? INT64_MAX : a <= -9223372036854775808.0 ? (u64)INT64_MIN : (u64)(i64)a;
	else if (o->k == 1) r = a >= 4294967296.0 ? 0xffffffffu : a <= 0 ? 0 : (u32)a;
	else r = (u32)(a >= 2147483648.0 ? INT32_MAX : a <= -2147483648.0 ? INT32_MIN : (i32)a);
	XD = r;
}
F(i_scvtf_s) { // scalar register form, k unsigned
	if (o->sh) setd(&VD, o->k ? (double)VN.d[0] : (double)(i64)VN.d[0]);
	else sets(&VD, o->k ? (float)VN.s[0] : (float)(i32)VN.s[0]);
}

// ---- vectors. sh: bytes of the vector (8 or 16), ra or k: element size exponent
static inline u64 el(const vreg *v, int e, int i) {
	switch (e) {
	case 0: return v->b[i];
	case 1: return v->h[i];
	case 2: return v->s[i];
	}
	return v->d[i];
}
static inline void put(vreg *v, int e, int i, u64 x) {
	switch (e) {
	case 0: v->b[i] = x; break;
	case 1: v->h[i] = x; break;
	case 2: v->s[i] = x; break;
	default: v->d[i] = x;
	}
}
static inline i64 sx(u64 v, int e) {
	switch (e) {
	case 0: return (int8_t)v;
	case 1: return (int16_t)v;
	case 2: return (i32)v;
	}
	return (i64)v;
}
#define V3(name, expr) \
	F(name) { \
		vreg r; r.d[0] = r.d[1] = 0; \
		int e = o->ra; \
		for (int i = 0; i < o->sh >> e; i++) { u64 a = el(&VN, e, i), b = el(&VM, e, i), d = el(&VD, e, i); (void)a; (void)b; (void)d; put(&r, e, i, expr); } \
		VD = r; \
	}
V3(v_add, a + b) V3(v_sub, a - b) V3(v_and, a & b) V3(v_bic, a & ~b) V3(v_orr, a | b) V3(v_orn, a | ~b)
V3(v_eor, a ^ b) V3(v_bsl, (a & d) | (b & ~d)) V3(v_bit, (d & ~b) | (a & b)) V3(v_bif, (d & b) | (a & ~b))
V3(v_cmeq, a == b ? ~0ull : 0) V3(v_cmtst, a & b ? ~0ull : 0) V3(v_cmhi, a > b ? ~0ull : 0) V3(v_cmhs, a >= b ? ~0ull : 0)
V3(v_cmgt, sx(a, e) > sx(b, e) ? ~0ull : 0) V3(v_cmge, sx(a, e) >= sx(b, e) ? ~0ull : 0)
V3(v_umax, a > b ? a : b) V3(v_umin, a < b ? a : b) V3(v_smax, sx(a, e) > sx(b, e) ? a : b) V3(v_smin, sx(a, e) < sx(b, e) ? a : b)
V3(v_mul, a * b) V3(v_mla, d + a * b) V3(v_mls, d - a * b)
#define VP(name, expr) \
	F(name) { \
		vreg r; r.d[0] = r.d[1] = 0; \
		int e = o->ra, n = o->sh >> e; \
		for (int i = 0; i < n; i++) { const vreg *v = i < n / 2 ? &VN : &VM; int j = 2 * (i % (n / 2)); u64 a = el(v, e, j), b = el(v, e, j + 1); put(&r, e, i, expr); } \
		VD = r; \
	}
VP(v_addp, a + b) VP(v_umaxp, a > b ? a : b) VP(v_uminp, a < b ? a : b)
#define V2(name, expr) \
	F(name) { \
		vreg r; r.d[0] = r.d[1] = 0; \
		int e = o->ra; \
		for (int i = 0; i < o->sh >> e; i++) { u64 a = el(&VN, e, i), d = el(&VD, e, i); int n = o->k; (void)d; (void)n; put(&r, e, i, expr); } \
		VD = r; \
	}
V2(v_not, ~a) V2(v_neg, -a) V2(v_cnt, __builtin_popcountll(a)) V2(v_cmeq0, a == 0 ? ~0ull : 0) V2(v_cmgt0, sx(a, e) > 0 ? ~0ull : 0)
V2(v_cmge0, sx(a, e) >= 0 ? ~0ull : 0) V2(v_cmlt0, sx(a, e) < 0 ? ~0ull : 0) V2(v_cmle0, sx(a, e) <= 0 ? ~0ull : 0) V2(v_rbit, rbit(a, 8))
V2(v_abs, (u64)(sx(a, e) < 0 ? -a : a))
V2(v_shl, n >= 64 ? 0 : a << n) V2(v_ushr, n >= 64 ? 0 : a >> n) V2(v_sshr, (u64)(sx(a, e) >> (n > 63 ? 63 : n)))
V2(v_sri, (n >= 64 ? 0 : a >> n) | (d & ~((n >= 64 ? 0 : mask(8 << e) >> n)))) V2(v_sli, a << n | (d & mask(n))) V2(v_usra, d + (n >= 64 ? 0 : a >> n))
// reversal within groups of k bytes
F(v_rev) {
	vreg r; r.d[0] = r.d[1] = 0;
	int e = o->ra, per = o->k >> e;
	for (int i = 0; i < o->sh >> e; i++) put(&r, e, i / per * per + per - 1 - i % per, el(&VN, e, i));
	VD = r;
}
F(v_dupe) { u64 v = el(&VN, o->ra, o->k); vreg r; r.d[0] = r.d[1] = 0; for (int i = 0; i < o->sh >> o->ra; i++) put(&r, o->ra, i, v); VD = r; }
F(v_dupg) { u64 v = XN; vreg r; r.d[0] = r.d[1] = 0; for (int i = 0; i < o->sh >> o->ra; i++) put(&r, o->ra, i, v); VD = r; }
F(v_insg) { put(&VD, o->ra, o->k, XN); }
F(v_inse) { put(&VD, o->ra, o->k, el(&VN, o->ra, o->sh)); }
F(v_umov) { XD = el(&VN, o->ra, o->k); }
F(v_smov) { XD = (u64)sx(el(&VN, o->ra, o->k), o->ra); }
F(v_smovw) { XD = (u32)sx(el(&VN, o->ra, o->k), o->ra); }
F(v_ext) {
	u8 t[32]; vreg r; r.d[0] = r.d[1] = 0;
	memcpy(t, &VN, o->sh); memcpy(t + o->sh, &VM, o->sh);
	memcpy(&r, t + o->k, o->sh);
	VD = r;
}
F(v_tbl) { // k: table registers, ra: 1 keeps the destination for out-of-range indices
	vreg r; r.d[0] = r.d[1] = 0;
	for (int i = 0; i < o->sh; i++) {
		int n = VM.b[i];
		r.b[i] = n < 16 * o->k ? c->V[(o->rn + n / 16) & 31].b[n % 16] : o->ra ? VD.b[i] : 0;
	}
	VD = r;
}
F(v_perm) { // k: 1 UZP1 2 TRN1 3 ZIP1 5 UZP2 6 TRN2 7 ZIP2
	vreg r; r.d[0] = r.d[1] = 0;
	int e = o->ra, n = o->sh >> e, part = o->k >> 2;
	for (int i = 0; i < n; i++) {
		u64 v;
		switch (o->k & 3) {
		case 1: v = 2 * i + part < n ? el(&VN, e, 2 * i + part) : el(&VM, e, 2 * i + part - n); break;
		case 2: v = i % 2 ? el(&VM, e, i - 1 + part) : el(&VN, e, i + part); break;
		default: v = el(i % 2 ? &VM : &VN, e, part * n / 2 + i / 2);
		}
		put(&r, e, i, v);
	}
	VD = r;
}
F(v_movi) { // k: 0 set, 1 or, 2 and
	u64 hi = o->sh == 16 ? (u64)o->imm : 0;
	if (o->k == 0) { VD.d[0] = o->imm; VD.d[1] = hi; }
	else if (o->k == 1) { VD.d[0] |= o->imm; VD.d[1] = o->sh == 16 ? VD.d[1] | o->imm : 0; }
	else { VD.d[0] &= o->imm; VD.d[1] = o->sh == 16 ? VD.d[1] & o->imm : 0; }
}
// across lanes, k: 0 ADDV 1 UADDLV 2 UMAXV 3 UMINV
F(v_across) {
	u64 r = o->k == 3 ? ~0ull : 0;
	int e = o->ra;
	for (int i = 0; i < o->sh >> e; i++) {
		u64 a = el(&VN, e, i);
		switch (o->k) {
		case 0: case 1: r += a; break;
		case 2: r = a > r ? a : r; break;
		default: r = a < r ? a : r;
		}
	}
	VD.d[0] = VD.d[1] = 0;
	put(&VD, o->k == 1 ? e + 1 : e, 0, r);
}
F(v_addp_s) { u64 r = VN.d[0] + VN.d[1]; VD.d[0] = r; VD.d[1] = 0; }
F(v_uaddlp) {
	vreg r; r.d[0] = r.d[1] = 0;
	int e = o->ra;
	for (int i = 0; i < o->sh >> (e + 1); i++) put(&r, e + 1, i, el(&VN, e, 2 * i) + el(&VN, e, 2 * i + 1));
	VD = r;
}
// widening shift left: upper half when k has bit 7; n in the low bits; imm: signed
F(v_shll) {
	vreg r, s = VN;
	int e = o->ra, half = o->k & 0x80 ? 8 >> e : 0, n = o->k & 63;
	for (int i = 0; i < 8 >> e; i++) { u64 a = el(&s, e, half + i); put(&r, e + 1, i, (o->imm ? (u64)sx(a, e) : a) << n); }
	VD = r;
}
F(v_shrn) {
	vreg r = VD, s = VN;
	int e = o->ra, half = o->k & 0x80 ? 8 >> e : 0, n = o->k & 63;
	if (!half) r.d[0] = r.d[1] = 0;
	for (int i = 0; i < 8 >> e; i++) put(&r, e, half + i, el(&s, e + 1, i) >> n);
	VD = r;
}
// three different, k: opcode, sh: upper half, imm: unsigned
F(v_3diff) {
	vreg r, n = VN, m = VM, d = VD;
	int e = o->ra, half = o->sh ? 8 >> e : 0;
	for (int i = 0; i < 8 >> e; i++) {
		u64 a = el(&n, e, half + i), b = el(&m, e, half + i), x = el(&d, e + 1, i);
		if (!o->imm) { a = sx(a, e); b = sx(b, e); }
		switch (o->k) {
		case 0: x = a + b; break;
		case 1: x = el(&n, e + 1, i) + b; break;
		case 2: x = a - b; break;
		case 8: x += a * b; break;
		case 10: x -= a * b; break;
		default: x = a * b; // 12
		}
		put(&r, e + 1, i, x);
	}
	VD = r;
}
F(v_pmull) { // k: upper half; ra: 3 for 64-bit, 0 for bytes
	vreg r, n = VN, m = VM;
	r.d[0] = r.d[1] = 0;
	if (o->ra == 3) {
		u128 p = 0;
		for (int i = 0; i < 64; i++) if (m.d[o->k] >> i & 1) p ^= (u128)n.d[o->k] << i;
		r.d[0] = (u64)p; r.d[1] = (u64)(p >> 64);
	} else
		for (int i = 0; i < 8; i++) {
			u16 p = 0;
			for (int j = 0; j < 8; j++) if (m.b[8 * o->k + i] >> j & 1) p ^= n.b[8 * o->k + i] << j;
			r.h[i] = p;
		}
	VD = r;
}

// ---- AES
static u8 sbox[256], inv[256];
static u8 xt(u8 a) { return a << 1 ^ (a & 0x80 ? 0x1b : 0); }
static u8 gmul(u8 a, u8 b) {
	u8 r = 0;
	for (; b; b >>= 1, a = xt(a)) if (b & 1) r ^= a;
	return r;
}
static void aes_init(void) {
	for (int a = 0; a < 256; a++) {
		u8 b = 1, t = a; // a^254
		for (int e = 254; e; e >>= 1, t = gmul(t, t)) if (e & 1) b = gmul(b, t);
		u8 s = b ^ (u8)(b << 1 | b >> 7) ^ (u8)(b << 2 | b >> 6) ^ (u8)(b << 3 | b >> 5) ^ (u8)(b << 4 | b >> 4) ^ 0x63;
		sbox[a] = s;
		inv[s] = a;
	}
}
F(v_aese) { vreg t, r; for (int i = 0; i < 16; i++) t.b[i] = VD.b[i] ^ VN.b[i]; for (int i = 0; i < 16; i++) r.b[i] = sbox[t.b[(i + 4 * (i % 4)) % 16]]; VD = r; }
F(v_aesd) { vreg t, r; for (int i = 0; i < 16; i++) t.b[i] = VD.b[i] ^ VN.b[i]; for (int i = 0; i < 16; i++) r.b[i] = inv[t.b[(i + 16 - 4 * (i % 4)) % 16]]; VD = r; }
static void mix(cpu *c, const op *o, const u8 *m) {
	vreg r, n = VN;
	for (int k = 0; k < 16; k += 4)
		for (int i = 0; i < 4; i++) {
			u8 v = 0;
			for (int j = 0; j < 4; j++) v ^= gmul(n.b[k + j], m[(j - i + 4) % 4]);
			r.b[k + i] = v;
		}
	VD = r;
}
F(v_aesmc) { static const u8 m[4] = {2, 3, 1, 1}; mix(c, o, m); }
F(v_aesimc) { static const u8 m[4] = {14, 11, 13, 9}; mix(c, o, m); }
#include "decode.h"
#include "linux.h"
