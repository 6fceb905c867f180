// MCRT: a stateless model checker packaged as a replacement for the ThreadSanitizer runtime.
// See DESIGN.md. Compiled without -fsanitize=thread; linked as a shared library in front of libstdc++/libc.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <string>
#include <vector>
#include <map>
#include <algorithm>
#include <exception>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unwind.h>
#include <linux/futex.h>
#include "mc.h"

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef unsigned __int128 u128;
#define PC() ((u64)__builtin_return_address(0))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
#define NOINL __attribute__((noinline))

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
extern char __libc_single_threaded;
}

// ---------------------------------------------------------------- constants and memory layout
static constexpr int MAXT = 16;
static constexpr u64 BASE = 0x100000000000ull;
static constexpr u64 HEAP_ARENA = 4ull << 20;
static constexpr u64 STK = 512ull << 10;
static constexpr u64 MM_ARENA = 8ull << 20;
static constexpr u64 HEAP_OFF = 0, STK_OFF = MAXT * HEAP_ARENA, MM_OFF = STK_OFF + MAXT * STK;
static constexpr u64 RSIZE = MM_OFF + MAXT * MM_ARENA;
static constexpr u64 RGRAN = RSIZE / 8;

static inline void rcopy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); }
static inline void rset(void* d, int v, size_t n) { asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); }

template<class T> static T* bigalloc(size_t n) {
	void* p = (void*)syscall(SYS_mmap, 0, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { fprintf(stderr, "mcrt: mmap failed\n"); _exit(3); }
	return (T*)p;
}
static inline u64 mix(u64 a, u64 b) {
	u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C159E3779B9ull + (a << 6) + (a >> 2));
	x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32;
	return x;
}

// ---------------------------------------------------------------- vector clocks
struct VC {
	u32 c[MAXT];
	void clear() { for (int i = 0; i < MAXT; i++) c[i] = 0; }
	void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

// ---------------------------------------------------------------- state
enum OpKind : u8 { OP_NONE, OP_LOCK, OP_RD, OP_WR, OP_JOIN, OP_CV, OP_FUTEX, OP_SLEEP, OP_ONCE, OP_WAITALL, OP_DONE };
static const char* opname[] = {"op", "lock", "rdlock", "wrlock", "join", "condwait", "futexwait", "sleep", "once", "waitall", "done"};

struct Dtor { void (*fn)(void*); void* arg; };
struct Thread {
	u64 regs[7]; // registers of the program at the last operation, filled in by the entry points
	int id;
	bool used, finished, joined, detached, yielded, spin;
	void* sp;
	void* (*fn)(void*);
	void* arg;
	void* ret;
	VC vc, acqf, relf;
	bool has_relf;
	u64 h;
	OpKind op;
	u64 oaddr;        // object waited for
	u64 omtx;         // mutex to reacquire
	int ojoin;
	u64 deadline;     // 0: none
	bool signaled, timedout;
	u64 sigh;
	u64 ticket;
	u32 nchild;
	char eh[16];
	char once[16];
	char* tls;
	u64 heap, mm;
	u32 scfence; u32 scview[MAXT];
	u64 sp_pc[4], sp_addr[4], sp_h[4], sp_ctx[4]; int sp_n; // spin signatures
	u64 hw; // writes to the heap
	Dtor dtors[32]; int ndtors;
	int fail_alloc, fail_thread;
	void* off_save;
};
static Thread T[MAXT];
static Thread no_thread;
__attribute__((used)) static Thread* cur asm("mcrt_cur") = &no_thread;
static int nthreads, nlive;

struct Rec { u32 next; u32 clk; u8 tid, mask, fl; u8 pad; u32 pcx; };
enum { F_W = 1, F_A = 2, F_FREE = 4 };
static Rec* recs; static u32 nrecs, freerec; static constexpr u32 MAXREC = 8u << 20;

struct Store { u64 val, h; u32 clk, step; u8 tid; bool sc, hasrel; VC rel; u32 rd[MAXT]; };
enum LKind : u8 { L_ATOMIC, L_SYNC };
struct Loc {
	u64 addr; u32 next; u8 size; LKind kind; u8 user; // user: 255 none, 254 several
	bool dead;
	// atomic
	u32 s0, ns, cap; // stores [s0, s0+ns)
	// sync object
	int owner; u32 count; u32 readers; u32 state; u64 h; VC vc;
};
static Loc* locs; static u32 nlocs; static constexpr u32 MAXLOC = 1u << 20;
static Store* stores; static u32 nstores; static constexpr u32 MAXSTORE = 4u << 20;

struct Block { u64 addr; u64 size; u64 apc, fpc; u8 tid, kind; bool alive, quiet, eh; };
static Block* blocks; static u32 nblocks; static constexpr u32 MAXBLK = 1u << 20;
enum { K_MALLOC, K_NEW, K_NEWARR, K_MM };

// shadow
static u32 *r_rec, *r_loc, *r_blk; // per granule of the region
static u64 G0, GSZ; static u32 *g_rec, *g_loc; // executable's writable data
static u32* touched; static u32 ntouched; static constexpr u32 MAXTOUCH = 16u << 20; // granule idx; high bit = global region
static u64 EXE_LO, EXE_HI;

static char* tls_cur; static size_t tls_sz; static char* tls_pristine;
static char* data_snap;
static char* eh_ptr; static char** once_ptr1; static char** once_ptr2;

static bool model_on;    // inside an execution
static int quiet;        // oracle nesting
static bool on;          // model_on && !quiet
static bool eh_alloc;
static u64 now_ns;
static u32 step;
static u64 ticket;
static bool allow_leaks, expect_term;
static unsigned salt;
static u32 free_timeouts, spin_rounds, to_mask;
static u64 live_counter;
static int n_atexit; static Dtor atexits[256];

static void* explorer_sp;
static int exec_end; // 0 running 1 ok 2 pruned 3 violation 4 restart 5 assume
static char* emerg_stack;

// options
static const mcrt_scenario* scen;
static int opt_bound, opt_weak; static bool opt_tier_thorough;
static bool opt_trace, opt_replay, opt_nocache, opt_noshare, opt_finals;
static u64* finals; static u64 n_finals, x_finals;
static u32 opt_maxsteps = 200000;

static char viol_msg[4096];
static u64 viol_pc[32]; static int n_viol_pc; static const char* viol_pcname[32];

static FILE* trace_f;

extern "C" void mc_switch(void** save, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  push %rbp
  push %rbx
  push %r12
  push %r13
  push %r14
  push %r15
  sub $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  mov %rsp, (%rdi)
  mov %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  add $8, %rsp
  pop %r15
  pop %r14
  pop %r13
  pop %r12
  pop %rbx
  pop %rbp
  ret
.size mc_switch,.-mc_switch
.globl mc_entry
.type mc_entry,@function
mc_entry:
  .cfi_startproc
  .cfi_undefined rip
  xor %ebp,%ebp
  call mc_thread_main
  ud2
  .cfi_endproc
.size mc_entry,.-mc_entry
)");
extern "C" void mc_entry();

static void tr(const char* f, ...) __attribute__((format(printf, 1, 2)));
static bool tracing() { return unlikely(opt_trace); }

// ---------------------------------------------------------------- end of execution
[[noreturn]] static void leave_exec(int why) {
	exec_end = why;
	model_on = false; on = false;
	void* dummy;
	mc_switch(&dummy, explorer_sp);
	__builtin_unreachable();
}
static _Unwind_Reason_Code bt_cb(_Unwind_Context* c, void* p) {
	int* n = (int*)p;
	if (*n >= 24) return _URC_END_OF_STACK;
	u64 ip = _Unwind_GetIP(c);
	if (ip >= EXE_LO && ip < EXE_HI && n_viol_pc < 30) { viol_pcname[n_viol_pc] = "at"; viol_pc[n_viol_pc++] = ip - 1; }
	(*n)++;
	return _URC_NO_REASON;
}
static void viol_addpc(const char* nm, u64 pc) { if (n_viol_pc < 32) { viol_pcname[n_viol_pc] = nm; viol_pc[n_viol_pc++] = pc; } }
[[noreturn]] static void violation(const char* f, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] static void violation(const char* f, ...) {
	on = false;
	bool m = model_on; model_on = false;
	va_list ap; va_start(ap, f); vsnprintf(viol_msg, sizeof viol_msg, f, ap); va_end(ap);
	exec_end = 3;
	if (opt_replay && m) {
		u64 sp = (u64)__builtin_frame_address(0);
		if (sp - BASE < MM_OFF) { int n = 0; _Unwind_Backtrace(bt_cb, &n); }
	}
	model_on = m;
	if (!m) { fprintf(stderr, "mcrt: violation outside of an execution: %s\n", viol_msg); _exit(3); }
	leave_exec(3);
}
[[noreturn]] static void fatal(const char* f, ...) {
	va_list ap; va_start(ap, f); fprintf(stderr, "mcrt fatal: "); vfprintf(stderr, f, ap); fprintf(stderr, " (scenario %s)\n", scen ? scen->name : "?"); va_end(ap);
	_exit(3);
}
static void tr(const char* f, ...) {
	bool o = on, m = model_on; on = false; model_on = false;
	va_list ap; va_start(ap, f);
	fprintf(trace_f ? trace_f : stdout, "%4u T%d ", step, cur ? cur->id : -1);
	vfprintf(trace_f ? trace_f : stdout, f, ap);
	fprintf(trace_f ? trace_f : stdout, "\n");
	fflush(trace_f ? trace_f : stdout);
	va_end(ap);
	on = o; model_on = m;
}

// ---------------------------------------------------------------- choices / exploration state
struct Choice { u16 n, cur; u8 kind; u32 sig; int dev_before, weak_before; u8 dev[28], weak[28]; };
static Choice* cstk; static u32 ncstk, pos; static constexpr u32 MAXCH = 1u << 20;
static int used_dev, used_weak;
static bool pruned_dev, pruned_weak;
static u64 n_exec, n_steps, n_prune, n_choice_pts, max_depth, n_assume, n_sched, n_complete;
static char sched_buf[400]; static u32 n_sb; static char sample_buf[4][700]; static u32 n_samples;

struct VEnt { u64 key; u8 rem; };
static u64* vkeys; static u8* vrem; static u64 vcap, vcount; static bool vfull;
static void visited_clear() {
	if (!vkeys) { vcap = 1u << 16; vkeys = (u64*)__libc_calloc(vcap, 8); vrem = (u8*)__libc_calloc(vcap, 1); }
	else { memset(vkeys, 0, vcap * 8); }
	vcount = 0;
}
static void visited_grow() {
	u64 oc = vcap; u64* ok = vkeys; u8* orr = vrem;
	if (vcap >= (1ull << 27)) { vfull = true; return; }
	vcap *= 4; if (vcap > (1ull << 27)) vcap = 1ull << 27;
	vkeys = (u64*)__libc_calloc(vcap, 8); vrem = (u8*)__libc_calloc(vcap, 1);
	if (!vkeys || !vrem) fatal("out of memory");
	for (u64 i = 0; i < oc; i++) if (ok[i]) { u64 j = ok[i] & (vcap - 1); while (vkeys[j]) j = (j + 1) & (vcap - 1); vkeys[j] = ok[i]; vrem[j] = orr[i]; }
	__libc_free(ok); __libc_free(orr);
}
// returns true when already visited with at least rem budget
static bool visited(u64 key, int rem) {
	if (!key) key = 1;
	u64 j = key & (vcap - 1);
	while (vkeys[j]) {
		if (vkeys[j] == key) { if (vrem[j] >= rem) return true; vrem[j] = (u8)rem; return false; }
		j = (j + 1) & (vcap - 1);
	}
	if (vfull) return false;
	vkeys[j] = key; vrem[j] = (u8)rem; vcount++;
	if (vcount * 2 > vcap) visited_grow();
	return false;
}

static u64 state_key() {
	u64 k = 0x1234567;
	for (int i = 0; i < nthreads; i++) {
		Thread& t = T[i];
		u64 f = (t.finished ? 1 : 0) | (t.signaled ? 2 : 0) | (t.timedout ? 4 : 0) | (t.yielded ? 8 : 0) | (t.spin ? 16 : 0) | ((u64)t.op << 8) | ((u64)t.joined << 16) | ((u64)t.detached << 17);
		k += mix(mix(mix(t.h + (u64)i * 0x1000193, f), t.sigh), t.deadline);
	}
	k = mix(k, cur->h + cur->id);
	k = mix(k, now_ns);
	k = mix(k, (u64)used_weak + 77);
	return k;
}

struct Opt { u8 tid, act, dev, weak; };
// Makes a choice among n alternatives with costs.
static int choose(int n, const Opt* o, u8 kind, u32 sig) {
	if (n <= 0) fatal("choose of %d", n);
	if (n == 1) return 0;
	if (pos < ncstk) {
		Choice& c = cstk[pos++];
		if (c.n != n || c.kind != kind || c.sig != sig)
			fatal("replay diverged at choice %u: n %d/%d kind %d/%d sig %x/%x", pos - 1, c.n, n, c.kind, kind, c.sig, sig);
		if (opt_replay && o) { c.dev[c.cur] = o[c.cur].dev; c.weak[c.cur] = o[c.cur].weak; } // not part of the recording
		if (c.n <= 28) { used_dev += c.dev[c.cur]; used_weak += c.weak[c.cur]; }
		return c.cur;
	}
	if (opt_replay && ncstk) { /* beyond the recorded prefix: default choices */ }
	if (!opt_nocache && !opt_replay) {
		if (visited(mix(state_key(), kind), opt_bound - used_dev)) { n_prune++; leave_exec(2); }
	}
	n_choice_pts++;
	if (ncstk >= MAXCH) fatal("choice stack overflow");
	Choice& c = cstk[ncstk++];
	pos = ncstk;
	c.n = (u16)n; c.cur = 0; c.kind = kind; c.sig = sig; c.dev_before = used_dev; c.weak_before = used_weak;
	if (o) {
		if (n > 28) fatal("too many alternatives");
		for (int i = 0; i < n; i++) { c.dev[i] = o[i].dev; c.weak[i] = o[i].weak; }
		if (o[0].dev || o[0].weak) fatal("default alternative is not free");
	} else if (n <= 28) { for (int i = 0; i < n; i++) c.dev[i] = c.weak[i] = 0; }
	return 0;
}

// ---------------------------------------------------------------- shadow helpers
static inline bool in_region(u64 a) { return a - BASE < RSIZE; }
static inline bool in_glob(u64 a) { return a - G0 < GSZ; }
static inline bool in_scope(u64 a) { return in_region(a) || in_glob(a); }
static inline void touch(u32 g) { if (ntouched >= MAXTOUCH) fatal("touched overflow"); touched[ntouched++] = g; }
static inline u32* rec_slot(u64 a, u32& gi) {
	if (in_region(a)) { gi = (u32)((a - BASE) >> 3); return &r_rec[gi]; }
	gi = (u32)((a - G0) >> 3); u32* p = &g_rec[gi]; gi |= 0x80000000u; return p;
}
static inline u32* loc_slot(u64 a, u32& gi) {
	if (in_region(a)) { gi = (u32)((a - BASE) >> 3); return &r_loc[gi]; }
	gi = (u32)((a - G0) >> 3); u32* p = &g_loc[gi]; gi |= 0x80000000u; return p;
}
static u64 pctab[65536]; static u32 npc;
static u32 pcidx(u64 pc) {
	u32 h = (u32)(mix(pc, 3) & 65535);
	while (pctab[h] && pctab[h] != pc) h = (h + 1) & 65535;
	if (!pctab[h]) { pctab[h] = pc; if (++npc > 60000) fatal("pctab"); }
	return h;
}
static const char* where(u64 a) {
	static char b[200];
	if (in_region(a)) {
		u64 o = a - BASE;
		if (o < STK_OFF) {
			u32 bi = r_blk[o >> 3];
			if (bi) snprintf(b, sizeof b, "heap block of %llu bytes (offset %lld)", (unsigned long long)blocks[bi].size, (long long)(a - blocks[bi].addr));
			else snprintf(b, sizeof b, "heap (no block)");
		} else if (o < MM_OFF) snprintf(b, sizeof b, "stack of thread %d", (int)((o - STK_OFF) / STK));
		else snprintf(b, sizeof b, "mapped memory");
	} else if (in_glob(a)) snprintf(b, sizeof b, "global");
	else snprintf(b, sizeof b, "address");
	return b;
}
static void race(u64 a, const Rec& r, bool w, bool at, u64 pc) {
	viol_addpc("access", pc);
	viol_addpc("previous access", pctab[r.pcx]);
	violation("data race: %s%s by thread %d conflicts with unordered %s%s by thread %d (%s)", at ? "atomic " : "", w ? "write" : "read", cur->id,
			  r.fl & F_A ? "atomic " : "", r.fl & F_FREE ? "free" : r.fl & F_W ? "write" : "read", r.tid, where(a));
}
static void kill_locs(u64 a, unsigned sz) {
	u32 gi; u32* s = loc_slot(a & ~7ull, gi);
	for (u32 i = *s; i; i = locs[i].next) {
		Loc& l = locs[i];
		if (l.dead) continue;
		if (l.addr < a + sz && a < l.addr + l.size) {
			if (l.kind == L_ATOMIC) l.dead = true;
			else if (l.owner < 0 && l.readers == 0) { l.vc.clear(); l.state = 0; l.count = 0; l.h = mix(l.addr, 5); }
		}
	}
}
NOINL static void access_granule(u64 a, unsigned off, unsigned sz, int fl, u64 pc) {
	// a: granule address
	u32 gi; u32* slot = rec_slot(a, gi);
	u8 mask = (u8)(((1u << sz) - 1) << off);
	Thread* t = cur;
	u32 clk = t->vc.c[t->id];
	bool w = fl & F_W, at = fl & F_A;
	u32 head = *slot;
	if (head) {
		Rec& r = recs[head];
		if (r.tid == t->id && r.clk == clk && (r.mask & mask) == mask && r.fl == fl && !r.next) return;
	}
	if (in_region(a)) {
		u64 o = a - BASE;
		if (o < STK_OFF && !(fl & F_FREE)) {
			u32 bi = r_blk[o >> 3];
			if (!bi) { viol_addpc("access", pc); violation("access outside of any heap block (out of bounds or wild pointer), %s of %u bytes", w ? "write" : "read", sz); }
			Block& b = blocks[bi];
			if (!b.alive) { viol_addpc("access", pc); viol_addpc("freed", b.fpc); viol_addpc("allocated", b.apc); violation("use after free: %s of %u bytes in freed heap block of %llu bytes, offset %lld", w ? "write" : "read", sz, (unsigned long long)b.size, (long long)(a + off - b.addr)); }
			if (a + off + sz > b.addr + b.size) { viol_addpc("access", pc); viol_addpc("allocated", b.apc); violation("heap buffer overflow: %s of %u bytes at offset %lld of block of %llu bytes", w ? "write" : "read", sz, (long long)(a + off - b.addr), (unsigned long long)b.size); }
			if (b.eh) return;
		}
	}
	bool atomic_seen = false;
	u32* link = slot;
	u32 i = head;
	bool covered = false;
	while (i) {
		Rec& r = recs[i];
		u32 nx = r.next;
		if (r.fl & F_A) atomic_seen = true;
		if (r.mask & mask) {
			if (r.tid == t->id) {
				// same thread: program order
				bool sub = (r.mask & ~mask) == 0;
				if (sub && (w || !(r.fl & F_W)) && (!at || (r.fl & F_A))) { *link = nx; r.next = freerec; freerec = i; i = nx; continue; }
				if (r.clk == clk && (r.mask & mask) == mask && ((r.fl & F_W) || !w) && (!(r.fl & F_A) || at)) covered = true;
			} else {
				bool hb = r.clk <= t->vc.c[r.tid];
				if (!hb && (w || (r.fl & F_W)) && !(at && (r.fl & F_A))) race(a + off, r, w, at, pc);
				if (hb && w && (r.mask & ~mask) == 0 && (!at || (r.fl & F_A))) { *link = nx; r.next = freerec; freerec = i; i = nx; continue; }
			}
		}
		link = &r.next;
		i = nx;
	}
	if (covered) return;
	u32 n;
	if (freerec) { n = freerec; freerec = recs[n].next; }
	else { n = ++nrecs; if (n >= MAXREC) fatal("record pool exhausted"); }
	Rec& r = recs[n];
	r.clk = clk; r.tid = (u8)t->id; r.mask = mask; r.fl = (u8)fl; r.pcx = pcidx(pc);
	if (!head) touch(gi);
	r.next = *slot; *slot = n;
	if (w && !at && atomic_seen) kill_locs(a + off, sz);
	else if (w && !at) { u32 g2; if (*loc_slot(a, g2)) kill_locs(a + off, sz); }
}
static inline void access(u64 a, u64 sz, int fl, u64 pc) {
	if (!on) return;
	if ((fl & F_W) && a - BASE < STK_OFF) cur->hw++;
	if (!in_scope(a)) { if (a < 4096) { viol_addpc("access", pc); violation("null pointer dereference (address %#llx)", (unsigned long long)a); } return; }
	if (u64 o = a - BASE - STK_OFF; o < MAXT * STK) {
		// objects of a function that has returned or of a thread that has ended
		Thread& t = T[o / STK];
		u64 base = BASE + STK_OFF + (u64)t.id * STK, low = &t == cur ? (u64)__builtin_frame_address(0) : (u64)t.sp;
		if (t.used && o % STK >= 8192 && (t.finished ? &t != cur : low - base < STK && a < low)) {
			viol_addpc("access", pc);
			violation("%s of %llu bytes on the stack of thread %d %s", fl & F_W ? "write" : "read", (unsigned long long)sz, t.id, t.finished ? "which has ended" : "in a function that has returned");
		}
	}
	while (sz) {
		u64 g = a & ~7ull; unsigned off = (unsigned)(a - g); unsigned n = 8 - off; if (n > sz) n = (unsigned)sz;
		access_granule(g, off, n, fl, pc);
		a += n; sz -= n;
		if (sz && !in_scope(a)) return;
	}
}

// ---------------------------------------------------------------- locations
static Loc* find_loc(u64 a, unsigned size, LKind kind) {
	u32 gi; u32* s = loc_slot(a & ~7ull, gi);
	u32* link = s;
	Loc* old = nullptr;
	for (u32 i = *s; i; i = locs[i].next) {
		Loc& l = locs[i];
		if (l.addr == a && l.size == size && l.kind == kind) { if (!l.dead) return &l; old = &l; }
		else if (!l.dead && kind == L_ATOMIC && l.kind == L_ATOMIC && l.addr < a + size && a < l.addr + l.size) l.dead = true;
	}
	(void)link;
	Loc* l = old;
	if (!l) {
		u32 n = ++nlocs; if (n >= MAXLOC) fatal("location pool exhausted");
		l = &locs[n];
		if (!*s) touch(gi);
		l->next = *s; *s = n;
		l->addr = a; l->size = (u8)size; l->kind = kind; l->user = 255;
	}
	l->dead = false;
	l->s0 = 0; l->ns = 0; l->cap = 0;
	l->owner = -1; l->count = 0; l->readers = 0; l->state = 0; l->vc.clear(); l->h = mix(a, 5);
	return l;
}
static u64 load_mem(u64 a, unsigned sz) {
	switch (sz) { case 1: return *(u8*)a; case 2: return *(u16*)a; case 4: return *(u32*)a; default: return *(u64*)a; }
}
static void store_mem(u64 a, unsigned sz, u64 v) {
	switch (sz) { case 1: *(u8*)a = (u8)v; break; case 2: *(u16*)a = (u16)v; break; case 4: *(u32*)a = (u32)v; break; default: *(u64*)a = v; }
}
static Store* new_store(Loc* l) {
	if (l->ns == l->cap) {
		u32 nc = l->cap ? l->cap * 2 : 4;
		// keep at most 64 stores of history
		if (l->ns >= 64) { for (u32 i = 0; i + 1 < l->ns; i++) stores[l->s0 + i] = stores[l->s0 + i + 1]; l->ns--; }
		else {
			if (nstores + nc >= MAXSTORE) fatal("store pool exhausted");
			u32 b = nstores; nstores += nc;
			for (u32 i = 0; i < l->ns; i++) stores[b + i] = stores[l->s0 + i];
			l->s0 = b; l->cap = nc;
		}
	}
	Store* s = &stores[l->s0 + l->ns++];
	for (int i = 0; i < MAXT; i++) s->rd[i] = 0;
	return s;
}
static Loc* atomic_loc(u64 a, unsigned sz) {
	Loc* l = find_loc(a, sz > 8 ? 8 : sz, L_ATOMIC);
	if (!l->ns) {
		Store* s = new_store(l);
		s->val = load_mem(a, sz > 8 ? 8 : sz); s->h = mix(a, s->val + 99); s->clk = 0; s->step = 0; s->tid = 0; s->sc = false; s->hasrel = false; s->rel.clear();
	}
	return l;
}

// set of addresses known to be used by several concurrently living threads
static u64 shset[1 << 16]; static u32 nsh;
static bool shared_has(u64 a) { u32 h = (u32)(mix(a, 9) & 65535); while (shset[h]) { if (shset[h] == a) return true; h = (h + 1) & 65535; } return false; }
static void shared_add(u64 a) { u32 h = (u32)(mix(a, 9) & 65535); while (shset[h]) h = (h + 1) & 65535; shset[h] = a; if (++nsh > 60000) fatal("shared set"); }
static bool is_shared(Loc* l) {
	if (nlive <= 1) return false;
	if (opt_noshare) return true;
	if (l->user == 254) return true;
	bool sh = shared_has(l->addr);
	if (l->user == 255) l->user = (u8)cur->id;
	else if (l->user != cur->id) {
		l->user = 254;
		if (!sh) { shared_add(l->addr); if (!opt_replay) leave_exec(4); sh = true; }
	}
	return sh;
}

// ---------------------------------------------------------------- scheduler
static bool enabled(Thread& t) {
	if (!t.used || t.finished) return false;
	switch (t.op) {
		case OP_NONE: return true;
		case OP_LOCK: { Loc* l = find_loc(t.oaddr, 8, L_SYNC); return (l->owner < 0 && !l->readers) || t.timedout; }
		case OP_RD: { Loc* l = find_loc(t.oaddr, 8, L_SYNC); return l->owner < 0 || t.timedout; }
		case OP_WR: { Loc* l = find_loc(t.oaddr, 8, L_SYNC); return (l->owner < 0 && !l->readers) || t.timedout; }
		case OP_JOIN: return T[t.ojoin].finished;
		case OP_CV: return false;
		case OP_FUTEX: return t.signaled || t.timedout;
		case OP_SLEEP: return t.timedout;
		case OP_ONCE: { Loc* l = find_loc(t.oaddr, 8, L_SYNC); return l->state != 1; }
		case OP_WAITALL: for (int i = 1; i < nthreads; i++) if (!T[i].finished) return false; return true;
		default: return false;
	}
}
static void switch_to(Thread* n) {
	Thread* o = cur;
	if (o == n) return;
	// save
	if (tls_sz) rcopy(o->tls, tls_cur, tls_sz);
	rcopy(o->eh, eh_ptr, 16);
	if (once_ptr1) { ((void**)o->once)[0] = *once_ptr1; ((void**)o->once)[1] = *once_ptr2; }
	// load
	if (tls_sz) rcopy(tls_cur, n->tls, tls_sz);
	rcopy(eh_ptr, n->eh, 16);
	if (once_ptr1) { *once_ptr1 = (char*)((void**)n->once)[0]; *once_ptr2 = (char*)((void**)n->once)[1]; }
	cur = n;
	mc_switch(&o->sp, n->sp);
}
static void describe_blocked(char* b, size_t n) {
	char* p = b; *p = 0;
	for (int i = 0; i < nthreads; i++) {
		Thread& t = T[i];
		if (t.finished) continue;
		p += snprintf(p, n - (p - b), "%sthread %d blocked in %s", p == b ? "" : ", ", i, opname[t.op]);
		if (t.op == OP_LOCK || t.op == OP_WR || t.op == OP_RD) { Loc* l = find_loc(t.oaddr, 8, L_SYNC); p += snprintf(p, n - (p - b), " (owner %d)", l->owner); }
		if (t.op == OP_JOIN) p += snprintf(p, n - (p - b), " %d", t.ojoin);
	}
}
enum { ACT_RUN, ACT_TIMEOUT, ACT_SPUR };
static void fire_timeout(Thread& t) {
	if (t.deadline > now_ns) now_ns = t.deadline;
	t.timedout = true;
	if (t.op == OP_CV) { t.op = OP_LOCK; t.oaddr = t.omtx; t.sigh = mix(1, now_ns); t.timedout = false; t.deadline = 0; t.signaled = false; t.ojoin = 1; /* ojoin=1: cv timed out */ }
}
static void resched(Thread* me) {
	for (;;) {
		Opt o[MAXT * 3]; int n = 0;
		bool en[MAXT] = {}; bool any0 = false; int n1 = 0;
		for (int i = 0; i < nthreads; i++) { en[i] = enabled(T[i]); if (en[i]) { if (T[i].yielded || T[i].spin) n1++; else any0 = true; } }
		bool cur0 = me && en[me->id] && !me->yielded && !me->spin;
		if (cur0) o[n++] = {(u8)me->id, ACT_RUN, 0, 0};
		for (int k = 1; k <= nthreads; k++) {
			int i = ((me ? me->id : 0) + k) % nthreads;
			if (cur0 && i == me->id) continue;
			if (en[i] && !T[i].yielded && !T[i].spin) o[n++] = {(u8)i, ACT_RUN, (u8)(cur0 ? 1 : 0), 0};
		}
		bool onlyspin = false;
		if (!any0 && n1) {
			onlyspin = true;
			// round robin: a thread may spin on a stale value and has to get its turn (fairness)
			// and the order is only explored for a while, so that a livelock is a fair schedule without progress
			for (int k = 1; k <= nthreads; k++) { int i = ((me ? me->id : 0) + k) % nthreads; if (en[i]) { o[n++] = {(u8)i, ACT_RUN, 0, 0}; if (spin_rounds > 2 * nthreads) break; } }
		}
		// timeouts
		u64 earliest = ~0ull;
		for (int i = 0; i < nthreads; i++) { Thread& t = T[i]; if (t.used && !t.finished && !en[i] && t.deadline && !t.timedout && t.deadline < earliest && (t.op == OP_CV || t.op == OP_FUTEX || t.op == OP_SLEEP || ((t.op == OP_LOCK || t.op == OP_WR || t.op == OP_RD)))) earliest = t.deadline; }
		bool noneen = n == 0;
		if (earliest != ~0ull) {
			// earliest first so that the default is free
			for (int pass = 0; pass < 2; pass++)
				for (int i = 0; i < nthreads; i++) {
					Thread& t = T[i];
					if (!t.used || t.finished || en[i] || !t.deadline || t.timedout) continue;
					if (!(t.op == OP_CV || t.op == OP_FUTEX || t.op == OP_SLEEP || t.op == OP_LOCK || t.op == OP_WR || t.op == OP_RD)) continue;
					bool e = t.deadline == earliest || t.deadline <= now_ns;
					if (e != (pass == 0)) continue;
					int c;
					if (t.deadline <= now_ns) c = cur0 ? 1 : 0;
					else c = (noneen || onlyspin ? 0 : 1) + (e ? 0 : 1);
					if (n < 28) o[n++] = {(u8)i, ACT_TIMEOUT, (u8)c, 0};
				}
		}
		if (scen->flags & mc::SPURIOUS)
			for (int i = 0; i < nthreads; i++) if (T[i].used && !T[i].finished && T[i].op == OP_CV && n > 0 && n < 28) o[n++] = {(u8)i, ACT_SPUR, 1, 0};
		if (n == 0) { char b[1024]; describe_blocked(b, sizeof b); violation("deadlock: %s", b); }
		if (n > 28) n = 28;
		// order: make sure option 0 is free (timeouts with cost 0 may follow paid ones)
		if (o[0].dev) for (int i = 1; i < n; i++) if (!o[i].dev) { std::swap(o[0], o[i]); break; }
		u32 sig = 0;
		for (int i = 0; i < n; i++) sig = sig * 131 + o[i].tid * 4 + o[i].act;
		int ch = choose(n, o, 1, sig);
		Thread& t = T[o[ch].tid];
		if (o[ch].act != ACT_RUN) {
			if (o[ch].act == ACT_TIMEOUT) {
				if (tracing()) tr("** timeout of T%d fires", t.id);
				if (noneen) { if (++free_timeouts > 1000) { char b[1024]; describe_blocked(b, sizeof b); violation("livelock: only timeouts make threads run: %s", b); } }
				to_mask |= 1u << t.id;
				fire_timeout(t);
			} else {
				if (tracing()) tr("** spurious wakeup of T%d", t.id);
				t.op = OP_LOCK; t.oaddr = t.omtx; t.signaled = false; t.sigh = mix(2, t.h); t.ojoin = 0; t.deadline = 0;
			}
			if (!enabled(t)) continue;
		}
		if (!(to_mask >> t.id & 1)) { to_mask = 0; free_timeouts = 0; }
		if (onlyspin && o[ch].act == ACT_RUN) { if (++spin_rounds > 2000) { char b[1024]; describe_blocked(b, sizeof b); violation("livelock: all runnable threads spin: %s", b); } t.spin = false; t.sp_n = 0; }
		if (t.yielded) t.yielded = false;
		for (int i = 0; i < nthreads; i++) if (i != t.id) T[i].yielded = false;
		step++; n_steps++;
		if (n_sb < sizeof sched_buf) sched_buf[n_sb++] = (char)(t.id < 10 ? '0' + t.id : 'a' + t.id - 10);
		if (step > opt_maxsteps) violation("execution does not terminate within %u visible operations", opt_maxsteps);
		if (&t == me) return;
		if (tracing()) tr("-> T%d", t.id);
		n_sched++;
		if (!me) { // no current thread to save (start)
			fatal("resched without current thread");
		}
		switch_to(&t);
		return; // me was chosen again
	}
}
static inline void hop(u64 v) { cur->h = mix(cur->h, v); }
// a scheduling point before an operation on location l
static inline void sp_point(Loc* l) {
	if (quiet) return;
	if (!is_shared(l)) return;
	cur->op = OP_NONE;
	resched(cur);
}
static void sp_always() {
	if (quiet || nlive <= 1) return;
	cur->op = OP_NONE;
	resched(cur);
}
static void tick() { cur->vc.c[cur->id]++; }
static void progress() { spin_rounds = 0; }

// What a thread is about to do: the contents of its stack and registers and the number of its writes to the heap.
// 0 if unknown (it runs on the stack of a fiber).
NOINL static u64 local_state() {
	u64 p = cur->regs[6], top = BASE + STK_OFF + (u64)(cur->id + 1) * STK - 4096;
	if (p >= top || top - p > STK) return 0;
	u64 h = mix(cur->hw, p);
	for (int i = 0; i < 6; i++) h = mix(h, cur->regs[i]);
	for (; p < top; p += 8) h = mix(h, *(u64*)p);
	return h | 1;
}
static constexpr u64 SPIN_MAX = 6, SPH = 0xffffffffffffffull;
// Spin detection: an operation at pc that only reads (store hash sh, latest: of the newest value). Returns true when it
// takes the thread back to the state it was in before the last time it did this, so that the history stays as it is.
// When it was repeated SPIN_MAX times with a different local state each time (a counter) it counts as spinning, too.
static bool pure(u64 pc, u64 a, u64 sh, Loc* l, bool latest) {
	Thread* t = cur;
	if (nlive <= 1) return false;
	sh &= SPH;
	for (int i = 0; i < t->sp_n && i < 4; i++)
		if (t->sp_pc[i] == pc && t->sp_addr[i] == a) {
			u64 c = t->sp_h[i] >> 56;
			if (!c || (t->sp_h[i] & SPH) != sh) { t->sp_h[i] = (1ull << 56) | sh; t->sp_ctx[i] = 0; return false; }
			if (c < 200) t->sp_h[i] += 1ull << 56;
			u64 x = c < SPIN_MAX ? local_state() : 0;
			if (c >= SPIN_MAX || (x && x == t->sp_ctx[i])) {
				// spinning on something that was thought to be private: make it visible
				if (l && !shared_has(l->addr)) { shared_add(l->addr); if (!opt_replay) leave_exec(4); }
				if (latest) t->spin = true;
				return true;
			}
			t->sp_ctx[i] = x;
			return false;
		}
	int k = t->sp_n < 4 ? t->sp_n++ : 3;
	t->sp_pc[k] = pc; t->sp_addr[k] = a; t->sp_h[k] = (1ull << 56) | sh; t->sp_ctx[k] = 0;
	return false;
}
static inline void effect() { cur->sp_n = 0; cur->spin = false; progress(); }
static void wake_spinners(u64 a) {
	for (int i = 0; i < nthreads; i++) for (int k = 0; k < T[i].sp_n; k++) if (T[i].sp_addr[k] == a) { T[i].spin = false; T[i].sp_n = 0; break; }
}

// ---------------------------------------------------------------- atomics
static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static const char* mostr(int mo) { static const char* n[] = {"rlx", "cns", "acq", "rel", "ar", "sc"}; return mo >= 0 && mo < 6 ? n[mo] : "?"; }

// index of the oldest store the current thread may still read
static u32 read_floor(Loc* l, int mo) {
	Thread* t = cur;
	for (u32 k = l->ns; k-- > 0;) {
		Store& s = stores[l->s0 + k];
		if (s.clk <= t->vc.c[s.tid]) return k;
		for (int u = 0; u < nthreads; u++) if (s.rd[u] && s.rd[u] <= t->vc.c[u]) return k;
		if (mo == 5 && (s.sc || (T[s.tid].scfence && s.step < T[s.tid].scfence))) return k;
		if (t->scfence && (s.step < t->scview[s.tid] || (s.sc && s.step < t->scfence))) return k;
	}
	return 0;
}
static Store* pick_read(Loc* l, int mo, u64 notval, bool use_not) {
	u32 last = l->ns - 1;
	Store* r = &stores[l->s0 + last];
	if (opt_weak && nlive > 1 && l->ns > 1 && !quiet && used_weak < opt_weak) {
		u32 fl = read_floor(l, mo);
		if (fl < last) {
			Opt o[28]; u32 ix[28]; int n = 0;
			o[n] = {0, 0, 0, 0}; ix[n++] = last;
			for (u32 k = last; k-- > fl && n < 20;) {
				Store& s = stores[l->s0 + k];
				if (use_not && s.val == notval) continue;
				// reading an identical store (same value, no synchronisation) still matters for happens-before: keep
				o[n] = {(u8)k, 0, 0, 1}; ix[n++] = k;
			}
			if (n > 1) { int c = choose(n, o, 2, (u32)n); r = &stores[l->s0 + ix[c]]; if (c && tracing()) tr("** stale read of %#llx: value %#llx instead of %#llx", (unsigned long long)l->addr, (unsigned long long)r->val, (unsigned long long)stores[l->s0 + last].val); }
		}
	}
	return r;
}
static void did_read(Loc*, Store* s, int mo) {
	Thread* t = cur;
	if (!s->rd[t->id]) s->rd[t->id] = t->vc.c[t->id];
	if (s->hasrel) { if (is_acq(mo)) t->vc.join(s->rel); else t->acqf.join(s->rel); }
}
static Store* push_store(Loc* l, u64 v, int mo, bool rmw) {
	Thread* t = cur;
	Store prev = stores[l->s0 + l->ns - 1];
	u64 ph = prev.h;
	Store* s = new_store(l);
	s->val = v; s->tid = (u8)t->id; s->clk = t->vc.c[t->id]; s->step = step; s->sc = mo == 5;
	s->hasrel = false; s->rel.clear();
	if (rmw && prev.hasrel) { s->rel = prev.rel; s->hasrel = true; }
	if (is_rel(mo)) { s->rel.join(t->vc); s->hasrel = true; }
	else if (t->has_relf) { s->rel.join(t->relf); s->hasrel = true; }
	hop(mix(ph, mix(l->addr, v)));
	s->h = t->h;
	if (is_rel(mo)) tick();
	wake_spinners(l->addr);
	effect();
	return s;
}
static bool atomic_ok(u64 a, unsigned sz, int fl, u64 pc) {
	if (!on || !in_scope(a)) { if (on && a < 4096) { viol_addpc("access", pc); violation("null pointer dereference in atomic operation"); } return false; }
	(void)sz; (void)fl;
	return true;
}
NOINL static u64 m_load(u64 a, unsigned sz, int mo, u64 pc) {
	Loc* l = atomic_loc(a, sz);
	sp_point(l);
	access(a, sz, F_A, pc);
	l = atomic_loc(a, sz);
	Store* s = pick_read(l, mo, 0, false);
	u64 v = s->val;
	u64 sh = s->h;
	did_read(l, s, mo);
	if (!pure(pc, a, sh, l, s == &stores[l->s0 + l->ns - 1])) hop(mix(sh, mix(a, 1)));
	if (tracing()) tr("load%u.%s [%llx] = %llx @%llx", sz, mostr(mo), (unsigned long long)a, (unsigned long long)v, (unsigned long long)pc);
	return v;
}
NOINL static void m_store(u64 a, unsigned sz, u64 v, int mo, u64 pc) {
	Loc* l = atomic_loc(a, sz);
	sp_point(l);
	access(a, sz, F_A | F_W, pc);
	l = atomic_loc(a, sz);
	push_store(l, v, mo, false);
	store_mem(a, sz, v);
	if (tracing()) tr("store%u.%s [%llx] = %llx @%llx", sz, mostr(mo), (unsigned long long)a, (unsigned long long)v, (unsigned long long)pc);
}
enum { R_XCHG, R_ADD, R_SUB, R_AND, R_OR, R_XOR, R_NAND };
NOINL static u64 m_rmw(u64 a, unsigned sz, int op, u64 v, int mo, u64 pc) {
	Loc* l = atomic_loc(a, sz);
	sp_point(l);
	access(a, sz, F_A | F_W, pc);
	l = atomic_loc(a, sz);
	Store* s = &stores[l->s0 + l->ns - 1];
	u64 old = load_mem(a, sz), nv = old;
	u64 m = sz == 8 ? ~0ull : (1ull << (sz * 8)) - 1;
	switch (op) { case R_XCHG: nv = v; break; case R_ADD: nv = old + v; break; case R_SUB: nv = old - v; break; case R_AND: nv = old & v; break; case R_OR: nv = old | v; break; case R_XOR: nv = old ^ v; break; default: nv = ~(old & v); }
	nv &= m;
	if (nv == old && !is_rel(mo) && op != R_XCHG) {
		// value preserving read-modify-write without release: behaves like a read of the latest store
		did_read(l, s, mo);
		if (!pure(pc, a, s->h, l, true)) hop(mix(s->h, mix(a, 4)));
	} else {
		did_read(l, s, mo);
		push_store(l, nv, mo, true);
		store_mem(a, sz, nv);
	}
	if (tracing()) { static const char* nm[] = {"xchg", "add", "sub", "and", "or", "xor", "nand"}; tr("%s%u.%s [%llx] %llx -> %llx @%llx", nm[op], sz, mostr(mo), (unsigned long long)a, (unsigned long long)old, (unsigned long long)nv, (unsigned long long)pc); }
	return old;
}
NOINL static bool m_cas(u64 a, unsigned sz, u64 cmp, u64 v, int mo, int fmo, bool weak, u64* out, u64 pc) {
	Loc* l = atomic_loc(a, sz);
	sp_point(l);
	// the write record is only made on success
	access(a, sz, F_A, pc);
	l = atomic_loc(a, sz);
	u64 old = load_mem(a, sz);
	u64 m = sz == 8 ? ~0ull : (1ull << (sz * 8)) - 1;
	cmp &= m; v &= m;
	bool succ = old == cmp;
	Store* s = &stores[l->s0 + l->ns - 1];
	if (succ && weak && (scen->flags & mc::CASFAIL) && nlive > 1 && is_shared(l) && !quiet) {
		Opt o[2] = {{0, 0, 0, 0}, {1, 0, 1, 0}};
		if (choose(2, o, 3, 0) == 1) { succ = false; if (tracing()) tr("** weak cas fails spuriously"); hop(31337); did_read(l, s, fmo); *out = old; return false; }
	}
	// a failing cas may fail because it reads an older value
	if (opt_weak && nlive > 1 && l->ns > 1 && !quiet) {
		Store* r = pick_read(l, fmo, cmp, true);
		if (r != &stores[l->s0 + l->ns - 1]) { s = r; succ = false; old = r->val; }
	}
	if (succ) {
		access(a, sz, F_A | F_W, pc);
		s = &stores[l->s0 + l->ns - 1];
		did_read(l, s, mo);
		push_store(l, v, mo, true);
		store_mem(a, sz, v);
	} else {
		did_read(l, s, fmo);
		if (!pure(pc, a, s->h, l, s == &stores[l->s0 + l->ns - 1])) hop(mix(s->h, mix(a, 2)));
	}
	*out = old;
	if (tracing()) tr("cas%u.%s [%llx] %llx -> %llx %s (was %llx) @%llx", sz, mostr(mo), (unsigned long long)a, (unsigned long long)cmp, (unsigned long long)v, succ ? "ok" : "fail", (unsigned long long)old, (unsigned long long)pc);
	return succ;
}
static void m_fence(int mo) {
	Thread* t = cur;
	if (is_acq(mo)) t->vc.join(t->acqf);
	if (is_rel(mo)) { t->relf = t->vc; t->has_relf = true; tick(); }
	if (mo == 5) {
		sp_always();
		step++;
		t->scfence = step;
		for (int i = 0; i < nthreads; i++) t->scview[i] = T[i].scfence;
		static u64 dummy; (void)dummy;
		hop(step);
	}
}

// Entry points remember the registers of the program and continue with the implementation
#define ENTRY(NAME)                                                                                                     \
	asm(".text\n.globl " NAME "\n.type " NAME ", @function\n" NAME ":\n"                                                  \
		"movq mcrt_cur(%rip), %r11\nmovq %rbx, 0(%r11)\nmovq %rbp, 8(%r11)\nmovq %r12, 16(%r11)\nmovq %r13, 24(%r11)\n"     \
		"movq %r14, 32(%r11)\nmovq %r15, 40(%r11)\nmovq %rsp, 48(%r11)\njmp m" NAME "\n.size " NAME ", . - " NAME "\n");
#define ATOMICS(N, TY)                                                                                                  \
	extern "C" TY m__tsan_atomic##N##_load(const volatile TY* p, int mo) { u64 a = (u64)p; if (!atomic_ok(a, N / 8, 0, PC())) return *p; return (TY)m_load(a, N / 8, mo, PC()); } \
	extern "C" void __tsan_atomic##N##_store(volatile TY* p, TY v, int mo) { u64 a = (u64)p; if (!atomic_ok(a, N / 8, F_W, PC())) { *p = v; return; } m_store(a, N / 8, v, mo, PC()); } \
	extern "C" TY m__tsan_atomic##N##_exchange(volatile TY* p, TY v, int mo) { u64 a = (u64)p; if (!atomic_ok(a, N / 8, F_W, PC())) { TY o = *p; *p = v; return o; } return (TY)m_rmw(a, N / 8, R_XCHG, v, mo, PC()); } \
	extern "C" TY m__tsan_atomic##N##_fetch_add(volatile TY* p, TY v, int mo) { u64 a = (u64)p; if (!atomic_ok(a, N / 8, F_W, PC())) { TY o = *p; *p = (TY)(o + v); return o; } return (TY)m_rmw(a, N / 8, R_ADD, v, mo, PC()); } \
	extern "C" TY m__tsan_atomic##N##_fetch_sub(volatile TY* p, TY v, int mo) { u64 a = (u64)p; if (!atomic_ok(a, N / 8, F_W, PC())) { TY o = *p; *p = (TY)(o - v); return o; } return (TY)m_rmw(a, N / 8, R_SUB, v, mo, PC()); } \
	extern "C" TY m__tsan_atomic##N##_fetch_and(volatile TY* p, TY v, int mo) { u64 a = (u64)p; if (!atomic_ok(a, N / 8, F_W, PC())) { TY o = *p; *p = (TY)(o & v); return o; } return (TY)m_rmw(a, N / 8, R_AND, v, mo, PC()); } \
	extern "C" TY m__tsan_atomic##N##_fetch_or(volatile TY* p, TY v, int mo) { u64 a = (u64)p; if (!atomic_ok(a, N / 8, F_W, PC())) { TY o = *p; *p = (TY)(o | v); return o; } return (TY)m_rmw(a, N / 8, R_OR, v, mo, PC()); } \
	extern "C" TY m__tsan_atomic##N##_fetch_xor(volatile TY* p, TY v, int mo) { u64 a = (u64)p; if (!atomic_ok(a, N / 8, F_W, PC())) { TY o = *p; *p = (TY)(o ^ v); return o; } return (TY)m_rmw(a, N / 8, R_XOR, v, mo, PC()); } \
	extern "C" TY m__tsan_atomic##N##_fetch_nand(volatile TY* p, TY v, int mo) { u64 a = (u64)p; if (!atomic_ok(a, N / 8, F_W, PC())) { TY o = *p; *p = (TY)~(o & v); return o; } return (TY)m_rmw(a, N / 8, R_NAND, v, mo, PC()); } \
	extern "C" int m__tsan_atomic##N##_compare_exchange_strong(volatile TY* p, TY* c, TY v, int mo, int fmo) { u64 a = (u64)p; if (!atomic_ok(a, N / 8, F_W, PC())) { if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } u64 o; if (m_cas(a, N / 8, *c, v, mo, fmo, false, &o, PC())) return 1; *c = (TY)o; return 0; } \
	extern "C" int m__tsan_atomic##N##_compare_exchange_weak(volatile TY* p, TY* c, TY v, int mo, int fmo) { u64 a = (u64)p; if (!atomic_ok(a, N / 8, F_W, PC())) { if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } u64 o; if (m_cas(a, N / 8, *c, v, mo, fmo, true, &o, PC())) return 1; *c = (TY)o; return 0; } \
	extern "C" TY m__tsan_atomic##N##_compare_exchange_val(volatile TY* p, TY c, TY v, int mo, int fmo) { u64 a = (u64)p; if (!atomic_ok(a, N / 8, F_W, PC())) { TY o = *p; if (o == c) *p = v; return o; } u64 o; if (m_cas(a, N / 8, c, v, mo, fmo, false, &o, PC())) return c; return (TY)o; }
ATOMICS(8, u8)
ENTRY("__tsan_atomic8_load") ENTRY("__tsan_atomic8_exchange") ENTRY("__tsan_atomic8_fetch_add") ENTRY("__tsan_atomic8_fetch_sub") ENTRY("__tsan_atomic8_fetch_and") ENTRY("__tsan_atomic8_fetch_or") ENTRY("__tsan_atomic8_fetch_xor") ENTRY("__tsan_atomic8_fetch_nand") ENTRY("__tsan_atomic8_compare_exchange_strong") ENTRY("__tsan_atomic8_compare_exchange_weak") ENTRY("__tsan_atomic8_compare_exchange_val") 
ATOMICS(16, u16)
ENTRY("__tsan_atomic16_load") ENTRY("__tsan_atomic16_exchange") ENTRY("__tsan_atomic16_fetch_add") ENTRY("__tsan_atomic16_fetch_sub") ENTRY("__tsan_atomic16_fetch_and") ENTRY("__tsan_atomic16_fetch_or") ENTRY("__tsan_atomic16_fetch_xor") ENTRY("__tsan_atomic16_fetch_nand") ENTRY("__tsan_atomic16_compare_exchange_strong") ENTRY("__tsan_atomic16_compare_exchange_weak") ENTRY("__tsan_atomic16_compare_exchange_val") 
ATOMICS(32, u32)
ENTRY("__tsan_atomic32_load") ENTRY("__tsan_atomic32_exchange") ENTRY("__tsan_atomic32_fetch_add") ENTRY("__tsan_atomic32_fetch_sub") ENTRY("__tsan_atomic32_fetch_and") ENTRY("__tsan_atomic32_fetch_or") ENTRY("__tsan_atomic32_fetch_xor") ENTRY("__tsan_atomic32_fetch_nand") ENTRY("__tsan_atomic32_compare_exchange_strong") ENTRY("__tsan_atomic32_compare_exchange_weak") ENTRY("__tsan_atomic32_compare_exchange_val") 
ATOMICS(64, u64)
ENTRY("__tsan_atomic64_load") ENTRY("__tsan_atomic64_exchange") ENTRY("__tsan_atomic64_fetch_add") ENTRY("__tsan_atomic64_fetch_sub") ENTRY("__tsan_atomic64_fetch_and") ENTRY("__tsan_atomic64_fetch_or") ENTRY("__tsan_atomic64_fetch_xor") ENTRY("__tsan_atomic64_fetch_nand") ENTRY("__tsan_atomic64_compare_exchange_strong") ENTRY("__tsan_atomic64_compare_exchange_weak") ENTRY("__tsan_atomic64_compare_exchange_val") 
// 16 byte atomics: sequentially consistent approximation
static bool m128(u64 a, u64 pc) { if (!atomic_ok(a, 16, F_W, pc)) return false; Loc* l = atomic_loc(a, 16); sp_point(l); access(a, 16, F_A | F_W, pc); l = atomic_loc(a, 16); did_read(l, &stores[l->s0 + l->ns - 1], 5); push_store(l, 0, 5, true); return true; }
extern "C" u128 __tsan_atomic128_load(const volatile u128* p, int) { m128((u64)p, PC()); return *p; }
extern "C" void __tsan_atomic128_store(volatile u128* p, u128 v, int) { m128((u64)p, PC()); *p = v; }
extern "C" u128 __tsan_atomic128_exchange(volatile u128* p, u128 v, int) { m128((u64)p, PC()); u128 o = *p; *p = v; return o; }
extern "C" int __tsan_atomic128_compare_exchange_strong(volatile u128* p, u128* c, u128 v, int, int) { m128((u64)p, PC()); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }
extern "C" int __tsan_atomic128_compare_exchange_weak(volatile u128* p, u128* c, u128 v, int, int) { m128((u64)p, PC()); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }
extern "C" u128 __tsan_atomic128_compare_exchange_val(volatile u128* p, u128 c, u128 v, int, int) { m128((u64)p, PC()); u128 o = *p; if (o == c) *p = v; return o; }
extern "C" void __tsan_atomic_thread_fence(int mo) { if (on) m_fence(mo); }
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- plain accesses
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N)                                                                                                           \
	void __tsan_read##N(void* p) { access((u64)p, N, 0, PC()); }                                                        \
	void __tsan_write##N(void* p) { access((u64)p, N, F_W, PC()); }                                                     \
	void __tsan_unaligned_read##N(void* p) { access((u64)p, N, 0, PC()); }                                              \
	void __tsan_unaligned_write##N(void* p) { access((u64)p, N, F_W, PC()); }                                           \
	void __tsan_volatile_read##N(void* p) { access((u64)p, N, 0, PC()); }                                               \
	void __tsan_volatile_write##N(void* p) { access((u64)p, N, F_W, PC()); }                                            \
	void __tsan_unaligned_volatile_read##N(void* p) { access((u64)p, N, 0, PC()); }                                     \
	void __tsan_unaligned_volatile_write##N(void* p) { access((u64)p, N, F_W, PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read1_pc(void* p, void* pc) { access((u64)p, 1, 0, (u64)pc); }
void __tsan_read_range(void* p, unsigned long n) { access((u64)p, n, 0, PC()); }
void __tsan_write_range(void* p, unsigned long n) { access((u64)p, n, F_W, PC()); }
void __tsan_vptr_update(void** p, void* nv) { if (*p != nv) access((u64)p, 8, F_W, PC()); else access((u64)p, 8, 0, PC()); }
void __tsan_vptr_read(void** p) { access((u64)p, 8, 0, PC()); }
}

// ---------------------------------------------------------------- heap
static inline bool heap_ptr(void* p) { return (u64)p - BASE < STK_OFF; }
static void* m_alloc(size_t sz, size_t al, u8 kind, u64 pc) {
	Thread* t = cur;
	if (al < 16) al = 16;
	u64 a = (t->heap + 16 + al - 1) & ~(u64)(al - 1);
	u64 e = (a + (sz ? sz : 1) + 15) & ~15ull;
	u64 lim = BASE + (u64)t->id * HEAP_ARENA + HEAP_ARENA;
	if (e + 32 > lim || sz > HEAP_ARENA) return nullptr;
	t->heap = e;
	u32 bi = ++nblocks; if (bi >= MAXBLK) fatal("block pool");
	Block& b = blocks[bi];
	b = Block{a, sz, pc, 0, (u8)t->id, kind, true, quiet > 0, eh_alloc};
	for (u64 g = (a - BASE) >> 3, ge = (a - BASE + (sz ? sz : 1) + 7) >> 3; g < ge; g++) r_blk[g] = bi;
	rset((void*)a, 0xCD, sz);
	return (void*)a;
}
static void m_free(void* p, u8 kind, size_t sz, u64 pc) {
	u64 a = (u64)p;
	u32 bi = r_blk[(a - BASE) >> 3];
	if (!bi || blocks[bi].addr != a) { viol_addpc("free", pc); violation("free of a pointer that is not the start of a heap block"); }
	Block& b = blocks[bi];
	if (!b.alive) { viol_addpc("free", pc); viol_addpc("freed", b.fpc); viol_addpc("allocated", b.apc); violation("double free of heap block of %llu bytes", (unsigned long long)b.size); }
	if (!quiet && b.kind != kind) { viol_addpc("free", pc); viol_addpc("allocated", b.apc); violation("mismatching deallocation function"); }
	if (!quiet && sz != ~(size_t)0 && sz != b.size) { viol_addpc("free", pc); viol_addpc("allocated", b.apc); violation("sized deallocation of %llu bytes for a block of %llu bytes", (unsigned long long)sz, (unsigned long long)b.size); }
	if (on && !b.eh) for (u64 g = a; g < a + b.size; g += 8) if (r_rec[(g - BASE) >> 3]) { u64 n = a + b.size - g; access_granule(g, 0, n < 8 ? (unsigned)n : 8, F_W | F_FREE, pc); }
	b.alive = false; b.fpc = pc;
	rset(p, 0xDD, b.size);
}
extern "C" void* malloc(size_t n) {
	if (!model_on) return __libc_malloc(n);
	return m_alloc(n, 16, K_MALLOC, PC());
}
extern "C" void* calloc(size_t n, size_t m) {
	if (!model_on) return __libc_calloc(n, m);
	void* p = m_alloc(n * m, 16, K_MALLOC, PC());
	if (p) rset(p, 0, n * m);
	return p;
}
extern "C" void free(void* p) {
	if (!p) return;
	if (heap_ptr(p)) { if (model_on) m_free(p, K_MALLOC, ~(size_t)0, PC()); return; }
	if (!model_on) __libc_free(p);
}
extern "C" void* realloc(void* p, size_t n) {
	if (!model_on && !heap_ptr(p)) return __libc_realloc(p, n);
	if (!model_on) { void* q = __libc_malloc(n); rcopy(q, p, blocks[r_blk[((u64)p - BASE) >> 3]].size < n ? blocks[r_blk[((u64)p - BASE) >> 3]].size : n); return q; }
	if (!p) return m_alloc(n, 16, K_MALLOC, PC());
	void* q = m_alloc(n, 16, K_MALLOC, PC());
	if (heap_ptr(p)) { u64 s = blocks[r_blk[((u64)p - BASE) >> 3]].size; rcopy(q, p, s < n ? s : n); m_free(p, K_MALLOC, ~(size_t)0, PC()); }
	else rcopy(q, p, n);
	return q;
}
extern "C" void* memalign(size_t a, size_t n) { return model_on ? m_alloc(n, a, K_MALLOC, PC()) : __libc_memalign(a, n); }
extern "C" void* aligned_alloc(size_t a, size_t n) { return model_on ? m_alloc(n, a, K_MALLOC, PC()) : __libc_memalign(a, n); }
extern "C" int posix_memalign(void** p, size_t a, size_t n) { *p = model_on ? m_alloc(n, a, K_MALLOC, PC()) : __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
static void* m_new(size_t n, size_t al, u8 kind, u64 pc, bool nothrow) {
	if (!model_on) { void* p = al > 16 ? __libc_memalign(al, n) : __libc_malloc(n); if (!p && !nothrow) throw std::bad_alloc(); return p; }
	if (!quiet && cur->fail_alloc && --cur->fail_alloc == 0) { if (nothrow) return nullptr; throw std::bad_alloc(); }
	void* p = m_alloc(n, al, kind, pc);
	if (!p && !nothrow) throw std::bad_alloc();
	return p;
}
static void m_delete(void* p, u8 kind, size_t sz, u64 pc) {
	if (!p) return;
	if (heap_ptr(p)) { if (model_on) m_free(p, kind, sz, pc); return; }
	if (!model_on) __libc_free(p);
}
void* operator new(size_t n) { return m_new(n, 16, K_NEW, PC(), false); }
void* operator new[](size_t n) { return m_new(n, 16, K_NEWARR, PC(), false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return m_new(n, 16, K_NEW, PC(), true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return m_new(n, 16, K_NEWARR, PC(), true); }
void* operator new(size_t n, std::align_val_t a) { return m_new(n, (size_t)a, K_NEW, PC(), false); }
void* operator new[](size_t n, std::align_val_t a) { return m_new(n, (size_t)a, K_NEWARR, PC(), false); }
void operator delete(void* p) noexcept { m_delete(p, K_NEW, ~(size_t)0, PC()); }
void operator delete[](void* p) noexcept { m_delete(p, K_NEWARR, ~(size_t)0, PC()); }
void operator delete(void* p, size_t s) noexcept { m_delete(p, K_NEW, s, PC()); }
void operator delete[](void* p, size_t s) noexcept { m_delete(p, K_NEWARR, s, PC()); }
void operator delete(void* p, std::align_val_t) noexcept { m_delete(p, K_NEW, ~(size_t)0, PC()); }
void operator delete[](void* p, std::align_val_t) noexcept { m_delete(p, K_NEWARR, ~(size_t)0, PC()); }
void operator delete(void* p, size_t s, std::align_val_t) noexcept { m_delete(p, K_NEW, s, PC()); }
void operator delete[](void* p, size_t s, std::align_val_t) noexcept { m_delete(p, K_NEWARR, s, PC()); }
void operator delete(void* p, const std::nothrow_t&) noexcept { m_delete(p, K_NEW, ~(size_t)0, PC()); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { m_delete(p, K_NEWARR, ~(size_t)0, PC()); }

template<class F> static F real(F& cache, const char* n) { if (!cache) cache = (F)dlsym(RTLD_NEXT, n); return cache; }
extern "C" void* __cxa_allocate_exception(size_t n) noexcept {
	static void* (*f)(size_t);
	bool o = eh_alloc; eh_alloc = true;
	void* p = real(f, "__cxa_allocate_exception")(n);
	eh_alloc = o;
	return p;
}
extern "C" void* __cxa_allocate_dependent_exception() noexcept {
	static void* (*f)();
	bool o = eh_alloc; eh_alloc = true;
	void* p = real(f, "__cxa_allocate_dependent_exception")();
	eh_alloc = o;
	return p;
}
extern "C" void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) {
	if (!model_on) return (void*)syscall(SYS_mmap, a, n, prot, flags, fd, off);
	Thread* t = cur;
	n = (n + 4095) & ~4095ull;
	u64 p = t->mm;
	if (p + n > BASE + MM_OFF + (u64)(t->id + 1) * MM_ARENA) { errno = ENOMEM; return MAP_FAILED; }
	t->mm = p + n;
	live_counter++;
	u32 bi = ++nblocks; if (bi >= MAXBLK) fatal("block pool");
	blocks[bi] = Block{p, n, PC(), 0, (u8)t->id, K_MM, true, quiet > 0, false};
	return (void*)p;
}
extern "C" void* mmap64(void* a, size_t n, int prot, int flags, int fd, off_t off) { return mmap(a, n, prot, flags, fd, off); }
extern "C" int munmap(void* p, size_t n) {
	if (!model_on) return (int)syscall(SYS_munmap, p, n);
	if ((u64)p - BASE - MM_OFF < MAXT * MM_ARENA) {
		n = (n + 4095) & ~4095ull;
		for (u32 i = nblocks; i; i--) if (blocks[i].kind == K_MM && blocks[i].addr == (u64)p) {
			if (!blocks[i].alive) { viol_addpc("munmap", PC()); violation("memory mapping released twice"); }
			if (blocks[i].size != n) { viol_addpc("munmap", PC()); violation("memory mapping of %llu bytes released with %llu bytes", (unsigned long long)blocks[i].size, (unsigned long long)n); }
			blocks[i].alive = false; blocks[i].fpc = PC();
			// everything on it must be ordered before the release
			if (on) for (u64 g = (u64)p; g < (u64)p + n; g += 8) if (r_rec[(g - BASE) >> 3]) access_granule(g, 0, 8, F_W | F_FREE, PC());
			return 0;
		}
		viol_addpc("munmap", PC()); violation("munmap of something that is not a mapping");
	}
	return 0;
}
extern "C" int mprotect(void* p, size_t n, int prot) noexcept {
	if (!model_on) return (int)syscall(SYS_mprotect, p, n, prot);
	return 0;
}

// memory functions called by the executable
static inline bool from_exe(u64 pc) { return pc - EXE_LO < EXE_HI - EXE_LO; }
extern "C" void* memcpy(void* d, const void* s, size_t n) {
	if (on && from_exe(PC())) { access((u64)s, n, 0, PC()); access((u64)d, n, F_W, PC()); }
	void* r = d; rcopy(d, s, n); return r;
}
extern "C" void* memmove(void* d, const void* s, size_t n) {
	if (on && from_exe(PC())) { access((u64)s, n, 0, PC()); access((u64)d, n, F_W, PC()); }
	if ((u64)d - (u64)s >= n) rcopy(d, s, n);
	else { char* dd = (char*)d; const char* ss = (const char*)s; while (n--) { dd[n] = ss[n]; asm volatile("" ::: "memory"); } }
	return d;
}
extern "C" void* memset(void* d, int v, size_t n) {
	if (on && from_exe(PC())) access((u64)d, n, F_W, PC());
	rset(d, v, n); return d;
}

// ---------------------------------------------------------------- threads
static void run_dtors(Thread* t) { while (t->ndtors) { Dtor d = t->dtors[--t->ndtors]; d.fn(d.arg); } }
extern "C" void mc_thread_main() {
	Thread* t = cur;
	if (t->id != 0) {
		void* r = t->fn(t->arg);
		t->ret = r;
		run_dtors(t);
		if (tracing()) tr("thread exits");
		t->finished = true; t->op = OP_DONE; nlive--;
		hop(0xdead);
		effect();
		resched(t);
		fatal("finished thread was resumed");
	}
	scen->fn();
	if (quiet) fatal("scenario ended inside quiet section");
	// like returning from main(): static objects are destroyed while other threads still run
	run_dtors(t);
	while (n_atexit) { Dtor d = atexits[--n_atexit]; d.fn(d.arg); }
	if (nlive > 1) { t->op = OP_WAITALL; resched(t); for (int i = 1; i < nthreads; i++) t->vc.join(T[i].vc); }
	t->op = OP_NONE;
	if (!allow_leaks)
		for (u32 i = 1; i <= nblocks; i++)
			if (blocks[i].alive && !blocks[i].quiet) { viol_addpc("allocated", blocks[i].apc); violation("leak: %s of %llu bytes never released", blocks[i].kind == K_MM ? "memory mapping" : "heap block", (unsigned long long)blocks[i].size); }
	if (opt_finals) { // the set of final states, to compare runs with and without the cache
		u64 k = 99;
		for (int i = 0; i < nthreads; i++) k = mix(k, T[i].h);
		k = mix(k, now_ns) | 1;
		u64 j = k & ((1u << 22) - 1);
		while (finals[j] && finals[j] != k) j = (j + 1) & ((1u << 22) - 1);
		if (!finals[j]) { finals[j] = k; n_finals++; x_finals ^= k; if (n_finals > 3000000) fatal("finals"); }
	}
	leave_exec(1);
}
static Thread* new_thread(void* (*fn)(void*), void* arg) {
	if (nthreads >= MAXT) fatal("too many threads");
	Thread* t = &T[nthreads];
	char* tls = t->tls;
	rset(t, 0, sizeof *t);
	t->tls = tls;
	t->id = nthreads++;
	t->used = true; nlive++;
	t->fn = fn; t->arg = arg;
	t->op = OP_NONE;
	t->heap = BASE + HEAP_OFF + (u64)t->id * HEAP_ARENA;
	t->mm = BASE + MM_OFF + (u64)t->id * MM_ARENA;
	t->vc.c[t->id] = 1;
	rcopy(t->tls, tls_pristine, tls_sz);
	u64* sp = (u64*)(BASE + STK_OFF + (u64)(t->id + 1) * STK - 4096);
	*--sp = 0; *--sp = 0;
	*--sp = (u64)mc_entry;
	for (int i = 0; i < 6; i++) *--sp = 0;
	--sp; // floating point environment, inherited
	asm volatile("stmxcsr (%0); fnstcw 4(%0)" ::"r"(sp) : "memory");
	t->sp = sp;
	return t;
}
extern "C" int pthread_create(pthread_t* out, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
	if (!model_on) { fprintf(stderr, "mcrt: thread created outside of the model\n"); _exit(3); }
	if (cur->fail_thread && --cur->fail_thread == 0) { if (tracing()) tr("create thread fails"); return EAGAIN; }
	Thread* t = new_thread(fn, arg);
	t->vc.join(cur->vc); t->vc.c[t->id] = 1;
	t->h = mix(cur->h, 1000 + ++cur->nchild);
	hop(0xc0ffee);
	tick();
	effect();
	*out = (pthread_t)(0x1000 + salt * 64 + (unsigned)t->id);
	if (tracing()) tr("create thread %d", t->id);
	return 0;
}
static Thread* by_handle(pthread_t h) { unsigned i = (unsigned)(h - 0x1000 - salt * 64); if (i >= (unsigned)nthreads) violation("invalid thread handle"); return &T[i]; }
extern "C" int pthread_join(pthread_t h, void** ret) {
	if (!model_on) return ESRCH;
	Thread* t = by_handle(h);
	if (t->joined || t->detached) violation("thread joined twice or detached");
	if (t == cur) return EDEADLK;
	if (!t->finished) { cur->op = OP_JOIN; cur->ojoin = t->id; if (tracing()) tr("join %d (blocks)", t->id); resched(cur); }
	t->joined = true;
	cur->vc.join(t->vc);
	hop(t->h);
	effect();
	if (ret) *ret = t->ret;
	if (tracing()) tr("join %d", t->id);
	return 0;
}
extern "C" int pthread_detach(pthread_t h) { if (!model_on) return 0; by_handle(h)->detached = true; hop(0xde7ac); return 0; }
extern "C" pthread_t pthread_self() { if (!model_on) return (pthread_t)0x1000; return (pthread_t)(0x1000 + salt * 64 + (unsigned)cur->id); }
extern "C" int pthread_setname_np(pthread_t, const char*) { return 0; }
ENTRY("sched_yield")
extern "C" int msched_yield() noexcept {
	if (!model_on || quiet) return 0;
	if (nlive > 1) {
		cur->yielded = true; cur->op = OP_NONE;
		if (!pure(PC(), 1, 0, nullptr, true)) hop(6);
		if (tracing()) tr("yield");
		resched(cur);
		cur->yielded = false;
	}
	return 0;
}

// ---------------------------------------------------------------- locks
static Loc* sync_obj(u64 a) { return find_loc(a, 8, L_SYNC); }
static void obj_op(Loc* l, u64 tag) { hop(mix(l->h, mix(l->addr, tag))); l->h = cur->h; }
static int kind_of(pthread_mutex_t* m) { return m->__data.__kind & 3; }
static void block_on(OpKind k, u64 a, u64 deadline) {
	cur->op = k; cur->oaddr = a; cur->deadline = deadline; cur->timedout = false;
	resched(cur);
	cur->op = OP_NONE;
}
static int lock_deadline(pthread_mutex_t* m, u64 deadline, u64 pc) {
	u64 a = (u64)m;
	if (!model_on || quiet || !in_scope(a)) return 0;
	Loc* l = sync_obj(a);
	if (l->owner == cur->id && kind_of(m) == PTHREAD_MUTEX_RECURSIVE_NP) { l->count++; return 0; }
	bool sh = is_shared(l);
	if (sh || l->owner >= 0 || l->readers) block_on(OP_LOCK, a, deadline);
	access(a, 8, F_A, pc);
	l = sync_obj(a);
	if (cur->timedout) { cur->timedout = false; cur->deadline = 0; hop(0x7147); return ETIMEDOUT; }
	cur->deadline = 0;
	if (l->owner >= 0) fatal("lock handed to two threads");
	l->owner = cur->id; l->count = 1;
	cur->vc.join(l->vc);
	obj_op(l, 11);
	effect();
	if (tracing()) tr("lock [%llx] @%llx", (unsigned long long)a, (unsigned long long)pc);
	return 0;
}
static u64 ts2ns(const struct timespec* t) { return (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec; }
// The wall clock of the model is ahead of its monotonic clock, so that code which mixes them up misbehaves
static const u64 REALTIME_OFFSET = 1000000000ull * 1000000000ull;
static bool is_realtime(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI; }
// absolute time to time of the model (monotonic)
static u64 dl(const struct timespec* t, clockid_t c) {
	if (t->tv_sec < 0) return 1;
	u64 v = (u64)t->tv_sec > 5000000000ull ? 5000000000ull * 1000000000ull : ts2ns(t);
	if (is_realtime(c)) v = v > REALTIME_OFFSET ? v - REALTIME_OFFSET : 1;
	if (v > 1500000000ull * 1000000000ull) return 0; // decades away: does not pass while somebody waits
	return v ? v : 1;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return lock_deadline(m, 0, PC()); }
extern "C" int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) noexcept { return lock_deadline(m, dl(t, CLOCK_REALTIME), PC()); }
extern "C" int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c_, const struct timespec* t) noexcept { return lock_deadline(m, dl(t, c_), PC()); }
ENTRY("pthread_mutex_trylock")
extern "C" int mpthread_mutex_trylock(pthread_mutex_t* m) noexcept {
	u64 a = (u64)m;
	if (!model_on || quiet || !in_scope(a)) return 0;
	Loc* l = sync_obj(a);
	sp_point(l);
	access(a, 8, F_A, PC());
	l = sync_obj(a);
	if (l->owner == cur->id && kind_of(m) == PTHREAD_MUTEX_RECURSIVE_NP) { l->count++; return 0; }
	if (l->owner >= 0) { u64 hh = mix(l->h, 3); if (!pure(PC(), a, hh, l, true)) hop(mix(l->h, mix(a, 12))); if (tracing()) tr("trylock [%llx] busy", (unsigned long long)a); return EBUSY; }
	l->owner = cur->id; l->count = 1;
	cur->vc.join(l->vc);
	obj_op(l, 11);
	effect();
	if (tracing()) tr("trylock [%llx] ok", (unsigned long long)a);
	return 0;
}
static void unlock_obj(Loc* l) {
	l->owner = -1; l->count = 0;
	l->vc = cur->vc;
	obj_op(l, 13);
	tick();
	effect();
	wake_spinners(l->addr);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
	u64 a = (u64)m;
	if (!model_on || quiet || !in_scope(a)) return 0;
	Loc* l = sync_obj(a);
	if (l->owner != cur->id) { viol_addpc("unlock", PC()); violation("mutex unlocked by thread %d but owned by %d", cur->id, l->owner); }
	if (l->count > 1) { l->count--; return 0; }
	sp_point(l);
	access(a, 8, F_A, PC());
	unlock_obj(sync_obj(a));
	if (tracing()) tr("unlock [%llx] @%llx", (unsigned long long)a, (unsigned long long)PC());
	return 0;
}
extern "C" int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at) noexcept {
	rset(m, 0, sizeof *m);
	if (at) m->__data.__kind = *(const int*)at & 3;
	if (on) { access((u64)m, sizeof *m, F_W, PC()); }
	return 0;
}
extern "C" int pthread_mutex_destroy(pthread_mutex_t* m) noexcept {
	if (!on || !in_scope((u64)m)) return 0;
	Loc* l = sync_obj((u64)m);
	if (l->owner >= 0) { viol_addpc("destroy", PC()); violation("destroying a locked mutex"); }
	access((u64)m, 8, F_W, PC());
	return 0;
}
// rwlock
static int rw_lock(u64 a, bool wr, u64 deadline, u64 pc) {
	if (!model_on || quiet || !in_scope(a)) return 0;
	Loc* l = sync_obj(a);
	bool sh = is_shared(l);
	if (sh || l->owner >= 0 || (wr && l->readers)) block_on(wr ? OP_WR : OP_RD, a, deadline);
	access(a, 8, F_A, pc);
	l = sync_obj(a);
	if (cur->timedout) { cur->timedout = false; cur->deadline = 0; hop(0x7147); return ETIMEDOUT; }
	cur->deadline = 0;
	if (wr) { l->owner = cur->id; } else l->readers++;
	cur->vc.join(l->vc);
	obj_op(l, wr ? 21 : 22);
	effect();
	if (tracing()) tr("%s [%llx]", wr ? "wrlock" : "rdlock", (unsigned long long)a);
	return 0;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { return rw_lock((u64)m, false, 0, PC()); }
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return rw_lock((u64)m, true, 0, PC()); }
extern "C" int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const struct timespec* t) noexcept { return rw_lock((u64)m, false, dl(t, CLOCK_REALTIME), PC()); }
extern "C" int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const struct timespec* t) noexcept { return rw_lock((u64)m, true, dl(t, CLOCK_REALTIME), PC()); }
extern "C" int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t c_, const struct timespec* t) noexcept { return rw_lock((u64)m, false, dl(t, c_), PC()); }
extern "C" int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t c_, const struct timespec* t) noexcept { return rw_lock((u64)m, true, dl(t, c_), PC()); }
static int rw_try(u64 a, bool wr, u64 pc) {
	if (!model_on || quiet || !in_scope(a)) return 0;
	Loc* l = sync_obj(a);
	sp_point(l);
	access(a, 8, F_A, pc);
	l = sync_obj(a);
	if (l->owner >= 0 || (wr && l->readers)) { u64 hh = mix(l->h, 3); if (!pure(pc, a, hh, l, true)) hop(mix(l->h, mix(a, 12))); if (tracing()) tr("try%slock [%llx] busy", wr ? "wr" : "rd", (unsigned long long)a); return EBUSY; }
	if (wr) l->owner = cur->id; else l->readers++;
	cur->vc.join(l->vc);
	obj_op(l, wr ? 21 : 22);
	effect();
	if (tracing()) tr("try%slock [%llx] ok", wr ? "wr" : "rd", (unsigned long long)a);
	return 0;
}
ENTRY("pthread_rwlock_tryrdlock")
ENTRY("pthread_rwlock_trywrlock")
extern "C" int mpthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { return rw_try((u64)m, false, PC()); }
extern "C" int mpthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { return rw_try((u64)m, true, PC()); }
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
	u64 a = (u64)m;
	if (!model_on || quiet || !in_scope(a)) return 0;
	Loc* l = sync_obj(a);
	sp_point(l);
	access(a, 8, F_A, PC());
	l = sync_obj(a);
	if (l->owner == cur->id) { l->owner = -1; l->vc = cur->vc; }
	else if (l->readers) { l->readers--; l->vc.join(cur->vc); }
	else { viol_addpc("unlock", PC()); violation("rwlock unlocked but not held"); }
	obj_op(l, 23);
	tick();
	effect();
	wake_spinners(a);
	if (tracing()) tr("rwunlock [%llx]", (unsigned long long)a);
	return 0;
}
extern "C" int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) noexcept { rset(m, 0, sizeof *m); if (on) access((u64)m, sizeof *m, F_W, PC()); return 0; }
extern "C" int pthread_rwlock_destroy(pthread_rwlock_t* m) noexcept {
	if (!on || !in_scope((u64)m)) return 0;
	Loc* l = sync_obj((u64)m);
	if (l->owner >= 0 || l->readers) { viol_addpc("destroy", PC()); violation("destroying a locked rwlock"); }
	access((u64)m, 8, F_W, PC());
	return 0;
}
// condition variables
static int cv_wait(u64 c, pthread_mutex_t* m, u64 deadline, u64 pc) {
	u64 a = (u64)m;
	if (!model_on || quiet || !in_scope(a)) return 0;
	Loc* lc = sync_obj(c); Loc* l = sync_obj(a);
	if (l->owner != cur->id) { viol_addpc("wait", pc); violation("condition variable waited on without holding the mutex"); }
	bool s1 = is_shared(lc), s2 = is_shared(l);
	if (s1 || s2) { cur->op = OP_NONE; resched(cur); }
	access(c, 8, F_A, pc); access(a, 8, F_A, pc);
	lc = sync_obj(c); l = sync_obj(a);
	obj_op(lc, 31);
	unlock_obj(l);
	if (tracing()) tr("cond wait [%llx]%s", (unsigned long long)c, deadline ? " timed" : "");
	cur->op = OP_CV; cur->oaddr = c; cur->omtx = a; cur->deadline = deadline; cur->signaled = false; cur->timedout = false; cur->ojoin = 0; cur->sigh = 0;
	cur->ticket = ++ticket;
	resched(cur);
	// resumed as OP_LOCK on the mutex
	bool to = cur->ojoin == 1 && !cur->signaled;
	cur->op = OP_NONE; cur->deadline = 0; cur->timedout = false; cur->signaled = false;
	hop(cur->sigh); cur->sigh = 0;
	access(a, 8, F_A, pc);
	l = sync_obj(a);
	if (l->owner >= 0) fatal("lock handed to two threads (cv)");
	l->owner = cur->id; l->count = 1;
	cur->vc.join(l->vc);
	obj_op(l, 11);
	{ cur->sp_n = 0; cur->spin = false; spin_rounds = 0; }
	if (tracing()) tr("cond wait returns%s", to ? " (timeout)" : "");
	return to ? ETIMEDOUT : 0;
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cv_wait((u64)c, m, 0, PC()); }
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cv_wait((u64)c, m, dl(t, CLOCK_REALTIME), PC()); }
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t c_, const struct timespec* t) { return cv_wait((u64)c, m, dl(t, c_), PC()); }
static int cv_signal(u64 c, bool all, u64 pc) {
	if (!model_on || quiet || !in_scope(c)) return 0;
	Loc* l = sync_obj(c);
	sp_point(l);
	access(c, 8, F_A, pc);
	l = sync_obj(c);
	obj_op(l, all ? 32 : 33);
	int w[MAXT], n = 0;
	for (int i = 0; i < nthreads; i++) if (T[i].used && !T[i].finished && T[i].op == OP_CV && T[i].oaddr == c) w[n++] = i;
	std::sort(w, w + n, [](int x, int y) { return T[x].ticket < T[y].ticket; });
	if (tracing()) tr("cond %s [%llx] (%d waiting) @%llx", all ? "broadcast" : "signal", (unsigned long long)c, n, (unsigned long long)pc);
	int first = 0, last = n;
	if (!all && n) {
		Opt o[MAXT]; for (int i = 0; i < n; i++) o[i] = {(u8)i, 0, (u8)(i ? 1 : 0), 0};
		first = choose(n, o, 4, (u32)n); last = first + 1;
		hop((u64)first + 17);
	}
	for (int i = first; i < last; i++) {
		Thread& t = T[w[i]];
		t.op = OP_LOCK; t.oaddr = t.omtx; t.signaled = true; t.sigh = cur->h; t.deadline = 0; t.ojoin = 0;
	}
	if (n) effect(); else { cur->sp_n = 0; cur->spin = false; }
	return 0;
}
extern "C" int pthread_cond_signal(pthread_cond_t* c) noexcept { return cv_signal((u64)c, false, PC()); }
extern "C" int pthread_cond_broadcast(pthread_cond_t* c) noexcept { return cv_signal((u64)c, true, PC()); }
extern "C" int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { rset(c, 0, sizeof *c); if (on) access((u64)c, sizeof *c, F_W, PC()); return 0; }
extern "C" int pthread_cond_destroy(pthread_cond_t* c) noexcept {
	if (!on || !in_scope((u64)c)) return 0;
	for (int i = 0; i < nthreads; i++) if (T[i].used && !T[i].finished && T[i].op == OP_CV && T[i].oaddr == (u64)c) { viol_addpc("destroy", PC()); violation("destroying a condition variable with waiters"); }
	access((u64)c, 8, F_W, PC());
	return 0;
}
// once / guards
static int once_enter(u64 a) { // returns 1 when the caller must run the initialiser
	Loc* l = sync_obj(a);
	if (is_shared(l) || l->state == 1) block_on(OP_ONCE, a, 0);
	l = sync_obj(a);
	if (l->state == 2) { cur->vc.join(l->vc); hop(mix(l->h, 41)); return 0; }
	l->state = 1; obj_op(l, 42); effect();
	return 1;
}
static void once_leave(u64 a, bool ok) { Loc* l = sync_obj(a); l->state = ok ? 2 : 0; l->vc = cur->vc; obj_op(l, 43); tick(); effect(); }
extern "C" int pthread_once(pthread_once_t* o, void (*fn)()) {
	if (!model_on || !in_scope((u64)o)) { if (*o == 2) return 0; fn(); *o = 2; return 0; }
	if (quiet) { if (*o != 2) { fn(); *o = 2; } return 0; }
	access((u64)o, 4, F_A, PC());
	if (!once_enter((u64)o)) return 0;
	try { fn(); } catch (...) { once_leave((u64)o, false); throw; }
	once_leave((u64)o, true);
	return 0;
}
extern "C" int __cxa_guard_acquire(u64* g) {
	u8* b = (u8*)g;
	if (!model_on || quiet || !in_scope((u64)g)) { if (*b) return 0; return 1; }
	if (*b) { m_load((u64)g, 1, 2, PC()); return 0; }
	return once_enter((u64)g);
}
extern "C" void __cxa_guard_release(u64* g) noexcept {
	if (!model_on || quiet || !in_scope((u64)g)) { *(u8*)g = 1; return; }
	access((u64)g, 1, F_A | F_W, PC());
	Loc* l = atomic_loc((u64)g, 1); push_store(l, 1, 3, false); *(u8*)g = 1;
	once_leave((u64)g, true);
}
extern "C" void __cxa_guard_abort(u64* g) noexcept { if (!model_on || quiet || !in_scope((u64)g)) return; once_leave((u64)g, false); }
extern "C" int __cxa_thread_atexit(void (*fn)(void*), void* arg, void*) noexcept {
	if (!model_on) return 0;
	if (cur->ndtors >= 32) fatal("too many tls destructors");
	cur->dtors[cur->ndtors++] = {fn, arg};
	return 0;
}
extern "C" int __cxa_atexit(void (*fn)(void*), void* arg, void* dso) noexcept {
	if (model_on) { if (n_atexit >= 256) fatal("atexit"); atexits[n_atexit++] = {fn, arg}; return 0; }
	static int (*f)(void (*)(void*), void*, void*);
	return real(f, "__cxa_atexit")(fn, arg, dso);
}
// ---------------------------------------------------------------- time, futex
static void to_ts(u64 n, struct timespec* t) { t->tv_sec = (time_t)(n / 1000000000ull); t->tv_nsec = (long)(n % 1000000000ull); }
ENTRY("clock_gettime")
extern "C" int mclock_gettime(clockid_t c, struct timespec* t) noexcept {
	if (!model_on) return (int)syscall(SYS_clock_gettime, c, t);
	if (!quiet) {
		bool timed = false;
		for (int i = 0; i < nthreads; i++) if (i != cur->id && T[i].used && !T[i].finished && T[i].deadline) timed = true;
		if (timed) sp_always();
		if (!pure(PC(), 2, now_ns, nullptr, true)) hop(now_ns + 3);
	}
	to_ts(now_ns + (is_realtime(c) ? REALTIME_OFFSET : 0), t);
	if (tracing()) tr("clock %llu", (unsigned long long)now_ns);
	return 0;
}
static void m_sleep(u64 deadline) {
	if (quiet) return;
	if (deadline <= now_ns) { msched_yield(); return; }
	if (tracing()) tr("sleep until %llu", (unsigned long long)deadline);
	cur->op = OP_SLEEP; cur->deadline = deadline; cur->timedout = false; cur->sp_n = 0;
	resched(cur);
	cur->op = OP_NONE; cur->deadline = 0; cur->timedout = false;
	hop(now_ns + 5);
	cur->sp_n = 0; cur->spin = false;
}
extern "C" int nanosleep(const struct timespec* t, struct timespec*) { if (!model_on) return 0; m_sleep(now_ns + ts2ns(t)); return 0; }
extern "C" int clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec*) { if (!model_on) return 0; m_sleep(fl ? dl(t, c) : now_ns + ts2ns(t)); return 0; }
extern "C" int usleep(useconds_t u) { if (model_on) m_sleep(now_ns + (u64)u * 1000); return 0; }
static int m_futex_wait(u64 a, u32 val, u64 deadline) {
	Loc* l = atomic_loc(a, 4);
	sp_point(l);
	l = atomic_loc(a, 4);
	Store* s = &stores[l->s0 + l->ns - 1];
	hop(mix(s->h, 51));
	cur->sp_n = 0; cur->spin = false;
	if (*(u32*)a != val) { if (tracing()) tr("futex wait [%llx] value differs", (unsigned long long)a); return EAGAIN; }
	if (tracing()) tr("futex wait [%llx]", (unsigned long long)a);
	cur->op = OP_FUTEX; cur->oaddr = a; cur->deadline = deadline; cur->timedout = cur->signaled = false; cur->sigh = 0; cur->ticket = ++ticket;
	resched(cur);
	bool to = cur->timedout && !cur->signaled;
	cur->op = OP_NONE; cur->deadline = 0; cur->timedout = cur->signaled = false;
	hop(cur->sigh + (to ? now_ns : 0)); cur->sigh = 0;
	if (tracing()) tr("futex wait returns%s", to ? " (timeout)" : "");
	return to ? ETIMEDOUT : 0;
}
static int m_futex_wake(u64 a, u32 n) {
	Loc* l = atomic_loc(a, 4);
	sp_point(l);
	l = atomic_loc(a, 4);
	hop(mix(stores[l->s0 + l->ns - 1].h, 52));
	int w[MAXT], c = 0;
	for (int i = 0; i < nthreads; i++) if (T[i].used && !T[i].finished && T[i].op == OP_FUTEX && T[i].oaddr == a && !T[i].signaled && !T[i].timedout) w[c++] = i;
	std::sort(w, w + c, [](int x, int y) { return T[x].ticket < T[y].ticket; });
	if (tracing()) tr("futex wake [%llx] (%d waiting)", (unsigned long long)a, c);
	int k = 0;
	for (int i = 0; i < c && (u32)i < n; i++) { T[w[i]].signaled = true; T[w[i]].sigh = cur->h; k++; }
	if (k) effect();
	return k;
}
extern "C" long syscall(long n, ...) noexcept {
	va_list ap; va_start(ap, n);
	long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
	va_end(ap);
	if (model_on && n == SYS_futex && in_scope((u64)a)) {
		int op = (int)b & 127 & ~FUTEX_PRIVATE_FLAG;
		op = (int)b & 0xf;
		if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
			u64 dlv = 0;
			if (d) { struct timespec* t = (struct timespec*)d; dlv = op == FUTEX_WAIT ? now_ns + ts2ns(t) : dl(t, ((int)b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC); }
			int r = quiet ? EAGAIN : m_futex_wait((u64)a, (u32)c, dlv);
			if (r) { errno = r; return -1; }
			return 0;
		}
		if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) return quiet ? 0 : m_futex_wake((u64)a, (u32)c);
		violation("unsupported futex operation");
	}
	long r;
	register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
	asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
	return r;
}
// deterministic environment
namespace std { }
extern "C" unsigned _ZNSt6thread20hardware_concurrencyEv() { return 2; }
extern "C" unsigned _ZNSt13random_device9_M_getvalEv(void*) { return 12345; }

// ---------------------------------------------------------------- failures
extern "C" void __assert_fail(const char* expr, const char* file, unsigned line, const char* fn) noexcept {
	if (!model_on) { fprintf(stderr, "assertion failed: %s %s:%u\n", expr, file, line); _exit(3); }
	if (expect_term) leave_exec(1);
	const char* s = strrchr(file, '/');
	violation("assertion failed: %s (%s:%u, %s)", expr, s ? s + 1 : file, line, fn);
}
extern "C" void abort() noexcept { if (!model_on) { _exit(134); } if (expect_term) { mcrt_outcome("terminated"); leave_exec(1); } violation("abort() called"); }
extern "C" void exit(int c) noexcept { if (model_on) violation("exit() called"); static void (*f)(int) __attribute__((noreturn)); if (!f) f = (decltype(f))dlsym(RTLD_NEXT, "exit"); f(c); }
static void on_terminate() {
	if (!model_on) { fprintf(stderr, "mcrt: terminate outside of the model\n"); _exit(3); }
	if (expect_term) { mcrt_outcome("terminated"); leave_exec(1); }
	std::type_info* ti = abi::__cxa_current_exception_type();
	violation("std::terminate called%s%s", ti ? " with exception of type " : "", ti ? ti->name() : "");
}
static void crash_landing() {
	asm volatile("fnclex");
	leave_exec(3);
}
static int n_crash_loop;
static void on_signal(int sig, siginfo_t* si, void* uc_) {
	ucontext_t* uc = (ucontext_t*)uc_;
	if (!model_on && exec_end != 3) { // crash in the runtime itself
		fprintf(stderr, "mcrt: signal %d outside of the model, ip %llx addr %p\n", sig, (unsigned long long)uc->uc_mcontext.gregs[REG_RIP], si->si_addr);
		_exit(3);
	}
	if (!model_on && ++n_crash_loop > 100) { fprintf(stderr, "mcrt: signal %d repeats outside of the model\n", sig); _exit(3); }
	if (exec_end != 3) {
		u64 ip = (u64)uc->uc_mcontext.gregs[REG_RIP], ad = (u64)si->si_addr;
		const char* what = "invalid memory access";
		if (sig == SIGFPE) what = "arithmetic exception";
		else if (sig == SIGILL) what = "illegal instruction";
		else if (ad - BASE - STK_OFF < MAXT * STK) what = "stack overflow";
		snprintf(viol_msg, sizeof viol_msg, "crash: %s (signal %d)", what, sig);
		viol_addpc("at", ip);
		if (!from_exe(ip)) { u64* sp = (u64*)uc->uc_mcontext.gregs[REG_RSP]; if (in_region((u64)sp)) for (int i = 0; i < 40 && in_region((u64)(sp + i)); i++) if (from_exe(sp[i])) { viol_addpc("near", sp[i]); break; } }
	}
	exec_end = 3;
	uc->uc_mcontext.gregs[REG_RIP] = (greg_t)crash_landing;
	uc->uc_mcontext.gregs[REG_RSP] = (greg_t)((((u64)emerg_stack + 65536 - 64) & ~15ull) - 8);
}
static u64 tick_exec; static u32 tick_step; static int tick_same;
static void on_vtalrm(int, siginfo_t*, void* uc_) {
	if (!model_on) { tick_same = 0; return; }
	if (tick_exec == n_exec && tick_step == step) {
		if (++tick_same >= 4) {
			ucontext_t* uc = (ucontext_t*)uc_;
			snprintf(viol_msg, sizeof viol_msg, "hang: a thread runs forever without any visible operation");
			viol_addpc("at", (u64)uc->uc_mcontext.gregs[REG_RIP]);
			exec_end = 3;
			uc->uc_mcontext.gregs[REG_RIP] = (greg_t)crash_landing;
			uc->uc_mcontext.gregs[REG_RSP] = (greg_t)((((u64)emerg_stack + 65536 - 64) & ~15ull) - 8);
		}
	} else { tick_exec = n_exec; tick_step = step; tick_same = 0; }
}

// ---------------------------------------------------------------- harness API
static std::map<std::string, u64>* outcomes;
static char outc[256][160]; static int n_outc;
extern "C" int mcrt_choose(int n, const char* what) {
	if (!model_on) fatal("choose outside of model");
	int r = choose(n, nullptr, 5, (u32)n);
	hop(mix((u64)r, 0xC401CE));
	if (tracing()) tr("choose %s: %d of %d", what, r, n);
	return r;
}
extern "C" void mcrt_fail(const char* m) { if (model_on) { viol_addpc("check", PC()); violation("%s", m); } fprintf(stderr, "fail outside model: %s\n", m); _exit(3); }
extern "C" void mcrt_quiet_enter(const void* key, int mode) {
	if (!model_on) return;
	if (!quiet && mode) {
		u64 k = (u64)key;
		// an address no program object uses (in the guard pages of the first stack), 0: the global key
		k = BASE + STK_OFF + (k ? 64 + mix(k, 17) % 1000 * 8 : 0);
		Loc* l = sync_obj(k & ~7ull);
		hop(mix(l->h, 61)); l->h = cur->h;
	}
	quiet++; on = false;
}
extern "C" void mcrt_quiet_leave() { if (!model_on) return; if (--quiet == 0) on = true; }
extern "C" void mcrt_outcome(const char* s) { if (n_outc < 256) { snprintf(outc[n_outc++], 160, "%s", s); } }
extern "C" void mcrt_note(const char* s) { if (opt_trace || opt_replay) { if (opt_trace) tr("note: %s", s); } }
extern "C" void mcrt_point(const void* key) {
	if (!on) return;
	u64 k = (u64)key; if (!k || !in_scope(k)) k = BASE + STK_OFF + 8;
	Loc* l = sync_obj(k & ~7ull);
	sp_point(l);
	obj_op(sync_obj(k & ~7ull), 71);
}
extern "C" void mcrt_expect_terminate(int e) { expect_term = e; }
extern "C" void mcrt_allow_leaks(int e) { allow_leaks = e; }
extern "C" void mcrt_advance(long long ns) { sp_always(); now_ns += (u64)ns; hop(now_ns); effect(); }
extern "C" long long mcrt_now() { return (long long)now_ns; }
extern "C" int mcrt_tid() { return model_on ? cur->id : -1; }
extern "C" void mcrt_salt(unsigned s) { if (nthreads > 1) fatal("salt after thread creation"); salt = s; }
extern "C" void mcrt_mix(unsigned long long v) { if (model_on) hop(v); }
extern "C" void mcrt_fail_alloc(int n) { cur->fail_alloc = n; }
extern "C" void mcrt_fail_thread(int n) { cur->fail_thread = n; }
extern "C" unsigned long long mcrt_live_blocks() { u64 n = 0; for (u32 i = 1; i <= nblocks; i++) n += blocks[i].alive && !blocks[i].quiet; return n; }
extern "C" void mcrt_assume_fail() { leave_exec(5); }
extern "C" int mcrt_thorough() { return opt_tier_thorough; }

static const mcrt_scenario* scens[512]; static int n_scens; static mcrt_scenario scen_store[512];
extern "C" void mcrt_register(const mcrt_scenario* s) { if (n_scens >= 512) { fprintf(stderr, "too many scenarios\n"); _exit(3); } scen_store[n_scens] = *s; scens[n_scens] = &scen_store[n_scens]; n_scens++; }

// ---------------------------------------------------------------- explorer
static u64 wall_ns() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (u64)t.tv_sec * 1000000000ull + (u64)t.tv_nsec; }

static int phdr_cb(struct dl_phdr_info* i, size_t, void*) {
	if (i->dlpi_name && *i->dlpi_name) return 0;
	static bool done; if (done) return 0; done = true;
	u64 lo = ~0ull, hi = 0, rl = 0, rh = 0;
	for (int k = 0; k < i->dlpi_phnum; k++) {
		const ElfW(Phdr)& p = i->dlpi_phdr[k];
		u64 a = i->dlpi_addr + p.p_vaddr;
		if (p.p_type == PT_LOAD && (p.p_flags & PF_X)) { EXE_LO = a; EXE_HI = a + p.p_memsz; }
		if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) { if (a < lo) lo = a; if (a + p.p_memsz > hi) hi = a + p.p_memsz; }
		if (p.p_type == PT_GNU_RELRO) { rl = a; rh = a + p.p_memsz; }
		if (p.p_type == PT_TLS) { tls_cur = (char*)i->dlpi_tls_data; tls_sz = p.p_memsz; }
	}
	if (rh > rl && rl <= lo && rh > lo) lo = (rh + 4095) & ~4095ull;
	if (lo < hi) { G0 = lo & ~7ull; GSZ = ((hi + 7) & ~7ull) - G0; }
	return 0;
}
static void setup() {
	__libc_single_threaded = 0;
	dl_iterate_phdr(phdr_cb, nullptr);
	void* p = (void*)syscall(SYS_mmap, BASE, RSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if ((u64)p != BASE) { fprintf(stderr, "mcrt: cannot map region\n"); _exit(3); }
	for (int i = 0; i < MAXT; i++) syscall(SYS_mprotect, BASE + STK_OFF + (u64)i * STK, 4096 * 2, PROT_NONE);
	r_rec = bigalloc<u32>(RGRAN); r_loc = bigalloc<u32>(RGRAN); r_blk = bigalloc<u32>(RGRAN);
	g_rec = bigalloc<u32>(GSZ / 8 + 1); g_loc = bigalloc<u32>(GSZ / 8 + 1);
	recs = bigalloc<Rec>(MAXREC); locs = bigalloc<Loc>(MAXLOC); stores = bigalloc<Store>(MAXSTORE); blocks = bigalloc<Block>(MAXBLK);
	touched = bigalloc<u32>(MAXTOUCH); cstk = bigalloc<Choice>(MAXCH);
	emerg_stack = bigalloc<char>(65536);
	for (int i = 0; i < MAXT; i++) T[i].tls = (char*)__libc_malloc(tls_sz + 16);
	tls_pristine = (char*)__libc_malloc(tls_sz + 16); rcopy(tls_pristine, tls_cur, tls_sz);
	eh_ptr = (char*)abi::__cxa_get_globals();
	once_ptr1 = (char**)dlsym(RTLD_DEFAULT, "_ZSt15__once_callable"); once_ptr2 = (char**)dlsym(RTLD_DEFAULT, "_ZSt11__once_call");
	if (!once_ptr1 || !once_ptr2) once_ptr1 = once_ptr2 = nullptr;
	try { throw std::runtime_error("warmup"); } catch (std::exception&) { }
	try { std::rethrow_exception(std::make_exception_ptr(std::logic_error("x"))); } catch (...) { auto e = std::current_exception(); }
	std::set_terminate(on_terminate);
	stack_t ss{}; ss.ss_sp = bigalloc<char>(65536); ss.ss_size = 65536; sigaltstack(&ss, nullptr);
	struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGILL, &sa, nullptr);
	sa.sa_sigaction = on_vtalrm; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESTART; sigaction(SIGVTALRM, &sa, nullptr);
	struct itimerval it{}; it.it_interval.tv_sec = 5; it.it_value.tv_sec = 5; setitimer(ITIMER_VIRTUAL, &it, nullptr);
	data_snap = bigalloc<char>(GSZ + 8);
	rcopy(data_snap, (void*)G0, GSZ);
}
static void reset_exec() {
	for (u32 i = 0; i < ntouched; i++) { u32 g = touched[i]; if (g & 0x80000000u) { g &= 0x7fffffffu; g_rec[g] = 0; g_loc[g] = 0; } else { r_rec[g] = 0; r_loc[g] = 0; } }
	ntouched = 0;
	for (u32 i = 1; i <= nblocks; i++) if (blocks[i].kind == K_MM) syscall(SYS_madvise, blocks[i].addr, blocks[i].size, MADV_DONTNEED);
	for (int i = 0; i < nthreads; i++) { u64 a = HEAP_OFF + (u64)i * HEAP_ARENA, e = T[i].heap - BASE + 64; rset(&r_blk[a >> 3], 0, ((e - a) >> 3) * 4); }
	nrecs = 0; freerec = 0; nlocs = 0; nstores = 0; nblocks = 0;
	rcopy((void*)G0, data_snap, GSZ);
	rcopy(tls_cur, tls_pristine, tls_sz);
	rset(eh_ptr, 0, 16);
	nthreads = 0; nlive = 0; n_atexit = 0;
	now_ns = 1000ull * 1000000000ull; step = 0; ticket = 0; quiet = 0; salt = 0; allow_leaks = false; expect_term = false; eh_alloc = false;
	free_timeouts = spin_rounds = to_mask = 0; live_counter = 0;
	n_outc = 0; n_viol_pc = 0;
	pos = 0; used_dev = used_weak = 0; n_sb = 0;
}
static int run_one() {
	reset_exec();
	Thread* t = new_thread(nullptr, nullptr);
	t->h = 42;
	cur = t;
	rset(t->eh, 0, 16);
	exec_end = 0;
	n_exec++;
	// an execution may end inside of a fiber with a stack protector value of its own
	u64 guard; asm volatile("movq %%fs:0x28, %0" : "=r"(guard));
	model_on = true; on = true;
	mc_switch(&explorer_sp, t->sp);
	model_on = on = false;
	asm volatile("movq %0, %%fs:0x28" : : "r"(guard));
	rset(eh_ptr, 0, 16);
	if (step > max_depth) max_depth = step;
	if (exec_end == 1 && outcomes) for (int i = 0; i < n_outc; i++) { if (outcomes->size() < 200 || outcomes->count(outc[i])) (*outcomes)[outc[i]]++; }
	if (exec_end == 5) n_assume++;
	if (exec_end == 1) {
		n_complete++;
		u64 k = n_complete;
		if (k == 1 || k == 7 || k == 100 || k == 10000) { u32 i = n_samples < 4 ? n_samples++ : 3; snprintf(sample_buf[i], 700, "threads %.*s%s deviations %d stale %d outcome %s", (int)n_sb, sched_buf, n_sb == sizeof sched_buf ? "..." : "", used_dev, used_weak, n_outc ? outc[n_outc - 1] : "-"); }
	}
	return exec_end;
}
static bool backtrack() {
	while (ncstk) {
		Choice& c = cstk[ncstk - 1];
		int nx = c.cur + 1;
		for (; nx < c.n; nx++) {
			int d = c.n <= 28 ? c.dev[nx] : 0, w = c.n <= 28 ? c.weak[nx] : 0;
			if (c.dev_before + d > opt_bound) { pruned_dev = true; continue; }
			if (c.weak_before + w > opt_weak) { pruned_weak = true; continue; }
			break;
		}
		if (nx < c.n) { c.cur = (u16)nx; return true; }
		ncstk--;
	}
	return false;
}
static void jesc(FILE* f, const char* s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') { fputc('\\', f); fputc(*s, f); } else if ((u8)*s < 32) fprintf(f, "\\u%04x", *s); else fputc(*s, f); } fputc('"', f); }

extern "C" int mcrt_main(int argc, char** argv) {
	const char *name = nullptr, *out = nullptr, *replay = nullptr; int bound = -1, weak = -1; u64 maxexec = ~0ull; double maxtime = 1e18; bool list = false;
	std::vector<std::string> ignore;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nxt = [&]() { if (i + 1 >= argc) { fprintf(stderr, "missing argument\n"); _exit(3); } return argv[++i]; };
		if (a == "--list") list = true;
		else if (a == "--run") name = nxt();
		else if (a == "--bound") bound = atoi(nxt());
		else if (a == "--weak") weak = atoi(nxt());
		else if (a == "--tier") opt_tier_thorough = !strcmp(nxt(), "thorough");
		else if (a == "--max-exec") maxexec = strtoull(nxt(), 0, 10);
		else if (a == "--time") maxtime = atof(nxt());
		else if (a == "--out") out = nxt();
		else if (a == "--replay") replay = nxt();
		else if (a == "--trace") opt_trace = true;
		else if (a == "--nocache") opt_nocache = true;
		else if (a == "--noshare") opt_noshare = true;
		else if (a == "--finals") opt_finals = true;
		else if (a == "--ignore") ignore.push_back(nxt());
		else { fprintf(stderr, "unknown argument %s\n", a.c_str()); _exit(3); }
	}
	if (list) { for (int i = 0; i < n_scens; i++) printf("%s %d %d %d %d %d\n", scens[i]->name, scens[i]->bound_q, scens[i]->bound_t, scens[i]->weak_q, scens[i]->weak_t, scens[i]->flags); return 0; }
	for (int i = 0; i < n_scens; i++) if (name && !strcmp(scens[i]->name, name)) scen = scens[i];
	if (!scen) { fprintf(stderr, "no such scenario\n"); return 3; }
	opt_bound = bound >= 0 ? bound : opt_tier_thorough ? scen->bound_t : scen->bound_q;
	opt_weak = weak >= 0 ? weak : opt_tier_thorough ? scen->weak_t : scen->weak_q;
	int final_bound = opt_bound;
	if (getenv("MCRT_TRACE")) opt_trace = true;
	setup();
	outcomes = new std::map<std::string, u64>;
	if (opt_finals) finals = (u64*)__libc_calloc(1u << 22, 8);
	u64 t0 = wall_ns();
	if (replay) {
		opt_replay = true;
		FILE* f = fopen(replay, "r"); if (!f) { fprintf(stderr, "cannot open replay\n"); return 3; }
		char sn[200]; int n; if (fscanf(f, "%199s %d %d %d", sn, &n, &opt_bound, &opt_weak) != 4) return 3;
		std::vector<Choice> cs;
		for (int i = 0; i < n; i++) { Choice c{}; unsigned k, s, nn, cc; if (fscanf(f, "%u %u %u %u", &nn, &cc, &k, &s) != 4) return 3; c.n = (u16)nn; c.cur = (u16)cc; c.kind = (u8)k; c.sig = s; cs.push_back(c); }
		int thor = 0; if (fscanf(f, " thorough %d", &thor) == 1) opt_tier_thorough = thor;
		unsigned long long sa; 
		while (fscanf(f, " shared %llx", &sa) == 1) shared_add(sa);
		fclose(f);
		for (auto& c : cs) cstk[ncstk++] = c;
		int r = run_one();
		const char* res = r == 3 ? "violation" : r == 1 ? "ok" : "other";
		printf("REPLAY %s %s\n", res, r == 3 ? viol_msg : "");
		for (int i = 0; i < n_viol_pc; i++) printf("PC %s %llx\n", viol_pcname[i], (unsigned long long)viol_pc[i]);
		return r == 3 ? 1 : 0;
	}
	bool violated = false, capped = false, exhaustive = false; int completed = -1;
	u64 restarts = 0, states_total = 0, ignored = 0;
	std::map<std::string, u64> ign;
	for (int b = 0; b <= final_bound && !violated && !capped; b++) {
		opt_bound = b;
	again:
		ncstk = 0; visited_clear(); pruned_dev = pruned_weak = false; outcomes->clear();
		if (opt_finals) { memset(finals, 0, 8u << 22); n_finals = x_finals = 0; }
		u64 e0 = n_exec; (void)e0;
		for (;;) {
			if (opt_trace) fprintf(stdout, "---- execution %llu\n", (unsigned long long)n_exec);
			int r = run_one();
			if (r == 3) {
				bool ig = false;
				for (auto& s : ignore) if (strstr(viol_msg, s.c_str())) { ig = true; ign[s]++; }
				if (!ig) { violated = true; break; }
				ignored++;
			}
			if (r == 4) { restarts++; goto again; }
			if (pos < ncstk) fatal("execution ended before the end of the replayed prefix (%u of %u)", pos, ncstk);
			if (!backtrack()) break;
			if (n_exec >= maxexec) { capped = true; break; }
			if ((n_exec & 255) == 0 && (double)(wall_ns() - t0) > maxtime * 1e9) { capped = true; break; }
		}
		states_total = vcount;
		if (!violated && !capped) {
			completed = b;
			if (!pruned_dev) { exhaustive = !vfull; break; }
		}
	}
	double wall = (double)(wall_ns() - t0) / 1e9;
	FILE* f = out ? fopen(out, "w") : stdout;
	if (!f) return 3;
	fprintf(f, "{\"scenario\":\"%s\",\"tier\":\"%s\",\"bound\":%d,\"completed\":%d,\"weak\":%d,\"weak_pruned\":%s,\"exhaustive_schedules\":%s,\"capped\":%s,\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"pruned\":%llu,\"choice_points\":%llu,\"max_depth\":%llu,\"restarts\":%llu,\"assume_skipped\":%llu,\"shared\":%u,\"wall\":%.3f,\"ignored\":%llu,\"ignored_by\":{",
			scen->name, opt_tier_thorough ? "thorough" : "quick", final_bound, completed, opt_weak, pruned_weak ? "true" : "false", exhaustive ? "true" : "false", capped ? "true" : "false", (unsigned long long)n_exec, (unsigned long long)n_steps, (unsigned long long)(states_total), (unsigned long long)n_prune, (unsigned long long)n_choice_pts, (unsigned long long)max_depth, (unsigned long long)restarts, (unsigned long long)n_assume, nsh, wall, (unsigned long long)ignored);
	{ bool first = true; for (auto& [k, v] : ign) { if (!first) fputc(',', f); first = false; jesc(f, k.c_str()); fprintf(f, ":%llu", (unsigned long long)v); } }
	fprintf(f, "}");
	if (opt_finals) fprintf(f, ",\"finals\":%llu,\"finals_hash\":\"%llx\"", (unsigned long long)n_finals, (unsigned long long)x_finals);
	fprintf(f, ",\"complete\":%llu,\"samples\":[", (unsigned long long)n_complete);
	for (u32 i = 0; i < n_samples; i++) { if (i) fputc(',', f); jesc(f, sample_buf[i]); }
	fprintf(f, "],\"outcomes\":{");
	bool first = true;
	for (auto& [k, v] : *outcomes) { if (!first) fputc(',', f); first = false; jesc(f, k.c_str()); fprintf(f, ":%llu", (unsigned long long)v); }
	fprintf(f, "}");
	if (violated) {
		fprintf(f, ",\"violation\":{\"msg\":"); jesc(f, viol_msg);
		fprintf(f, ",\"deviations\":%d,\"pcs\":[", used_dev);
		for (int i = 0; i < n_viol_pc; i++) fprintf(f, "%s[\"%s\",\"%llx\"]", i ? "," : "", viol_pcname[i], (unsigned long long)viol_pc[i]);
		fprintf(f, "],\"replay\":\"%s %u %d %d", scen->name, ncstk, opt_bound, opt_weak);
		for (u32 i = 0; i < ncstk; i++) fprintf(f, " %u %u %u %u", cstk[i].n, cstk[i].cur, cstk[i].kind, cstk[i].sig);
		fprintf(f, " thorough %d", opt_tier_thorough);
		for (u32 i = 0; i < 65536; i++) if (shset[i]) fprintf(f, " shared %llx", (unsigned long long)shset[i]);
		fprintf(f, "\"}");
	}
	fprintf(f, "}\n");
	fflush(f);
	if (out) fclose(f);
	return violated ? 1 : 0;
}
