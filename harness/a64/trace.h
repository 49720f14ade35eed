// Tracing: which instructions a stretch of the program executes, which addresses it touches and what it divides.
static int tracing;
#define WINDOW 16 // events per checkpoint, as a power of two
#define CHECKS (1 << 15)
struct record {
	u64 n, hash, out; // events, their hash, the hash of what the program published
	u64 insns;
	int done;
	u64 window; // the window to record in full, ~0 for none
	u64 check[CHECKS];
	u64 ev[1 << WINDOW][2];
};
static struct record *rec;
static u64 th, tn, ti;

static void checkpoint(void) {
	if (tn >> WINDOW >= CHECKS) {
		fprintf(stderr, "a64: the traced execution does not end\n");
		_exit(123);
	}
	rec->check[(tn >> WINDOW) - 1] = th;
}
static inline void event(u64 kind, u64 v) {
	th = (th ^ v ^ kind << 60) * 0x9E3779B97F4A7C15ull;
	th ^= th >> 32;
	if (tn >> WINDOW == rec->window) {
		rec->ev[tn & ((1 << WINDOW) - 1)][0] = kind;
		rec->ev[tn & ((1 << WINDOW) - 1)][1] = v;
	}
	if (!(++tn & ((1 << WINDOW) - 1)))
		checkpoint();
}
#define EXECUTED(pc) do { if (tracing) { ti++; event(0, pc); } } while (0)
#define SEEN(a) do { if (tracing) event(1, a); } while (0)
#define USED(a, b) do { if (tracing) { event(2, a); event(2, b); } } while (0)
#define TIME (tracing ? 1000000000ull : now())
