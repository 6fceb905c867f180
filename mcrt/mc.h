// Harness side API of the model checking runtime (see mcrt.cpp).
#pragma once
#ifndef MC_PREFIX
#define MC_PREFIX ""
#endif
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <string>
#include <utility>

extern "C" {
int mcrt_choose(int n, const char* what);
void mcrt_fail(const char* msg) __attribute__((noreturn));
void mcrt_quiet_enter(const void* key, int mode);
void mcrt_quiet_leave();
void mcrt_outcome(const char* txt);
void mcrt_note(const char* txt);
void mcrt_point(const void* key);
void mcrt_expect_terminate(int on);
void mcrt_allow_leaks(int on);
void mcrt_advance(long long ns);
long long mcrt_now();
int mcrt_tid();
void mcrt_salt(unsigned s);
void mcrt_mix(unsigned long long v);
void mcrt_fail_alloc(int nth);  // the nth allocation of this thread throws std::bad_alloc (0: none)
void mcrt_fail_thread(int nth); // the nth creation of a thread by this thread fails (0: none)
unsigned long long mcrt_live_blocks();
void mcrt_assume_fail() __attribute__((noreturn));
int mcrt_thorough();
struct mcrt_scenario {
	const char* name;
	void (*fn)();
	int bound_q, bound_t;   // deviation bound quick / thorough
	int weak_q, weak_t;     // stale loads per execution quick / thorough
	int flags;              // see below
};
void mcrt_register(const struct mcrt_scenario*);
int mcrt_main(int argc, char** argv);
}
namespace mc {
	enum { SPURIOUS = 1, CASFAIL = 2, THOROUGH_ONLY = 4 };
	struct reg { reg(mcrt_scenario s) { mcrt_register(&s); } };

	/// nondeterministic choice of 0..n-1, all explored
	inline int choose(int n, const char* what = "choose") { return mcrt_choose(n, what); }
	inline bool flip(const char* what = "flip") { return mcrt_choose(2, what) != 0; }
	inline bool thorough() { return mcrt_thorough() != 0; }
	inline int tid() { return mcrt_tid(); }
	/// skip this execution (the choices made are not of interest)
	inline void assume(bool b) { if (!b) mcrt_assume_fail(); }

	/// Oracle section: not instrumented, no scheduling. The order of sections with the same key matters.
	struct quiet {
		explicit quiet(const void* key = nullptr) { mcrt_quiet_enter(key, 1); }
		~quiet() { mcrt_quiet_leave(); }
		quiet(const quiet&) = delete;
	};
	/// Oracle section whose effect commutes with all other sections (or is private to the thread)
	struct quiet_local {
		quiet_local() { mcrt_quiet_enter(nullptr, 0); }
		~quiet_local() { mcrt_quiet_leave(); }
		quiet_local(const quiet_local&) = delete;
	};
	[[gnu::format(printf, 1, 2)]] inline std::string fmt(const char* f, ...) {
		char b[1024];
		va_list ap;
		va_start(ap, f);
		vsnprintf(b, sizeof b, f, ap);
		va_end(ap);
		return b;
	}
	[[gnu::format(printf, 2, 3)]] inline void check(bool ok, const char* f, ...) {
		if (ok) return;
		mcrt_quiet_enter(nullptr, 0);
		char b[1024];
		va_list ap;
		va_start(ap, f);
		vsnprintf(b, sizeof b, f, ap);
		va_end(ap);
		mcrt_fail(b);
	}
	[[gnu::format(printf, 1, 2)]] inline void outcome(const char* f, ...) {
		quiet_local q;
		char b[1024];
		va_list ap;
		va_start(ap, f);
		vsnprintf(b, sizeof b, f, ap);
		va_end(ap);
		mcrt_outcome(b);
	}
	[[gnu::format(printf, 1, 2)]] inline void note(const char* f, ...) {
		quiet_local q;
		char b[1024];
		va_list ap;
		va_start(ap, f);
		vsnprintf(b, sizeof b, f, ap);
		va_end(ap);
		mcrt_note(b);
	}
	/// explicit scheduling point (all threads that pass a point with the same key conflict)
	inline void point(const void* key = nullptr) { mcrt_point(key); }
	inline void expect_terminate(bool on = true) { mcrt_expect_terminate(on); }
	inline void allow_leaks(bool on = true) { mcrt_allow_leaks(on); }
	inline void advance(long long ns) { mcrt_advance(ns); }
	inline long long now() { return mcrt_now(); }
	inline void salt(unsigned s) { mcrt_salt(s); }
	/// mix a value into the state of the calling thread (for state that is not derived from its operations)
	inline void mix(unsigned long long v) { mcrt_mix(v); }

	/// counter/flag that is invisible to the checker (updates are oracle sections)
	struct counter {
		int v = 0;
		int inc() { quiet q(this); return ++v; }
		int dec() { quiet q(this); return --v; }
		int get() { quiet q(this); return v; }
		void set(int x) { quiet q(this); v = x; }
	};
	/// small event log, invisible to the checker
	struct log {
		int n = 0;
		int v[64];
		void add(int x) { quiet q(this); if (n < 64) v[n++] = x; }
		int size() { quiet q(this); return n; }
		int at(int i) { quiet_local q; return v[i]; }
		int count(int x) { quiet q(this); int c = 0; for (int i = 0; i < n; i++) c += v[i] == x; return c; }
		int index(int x) { quiet q(this); for (int i = 0; i < n; i++) if (v[i] == x) return i; return -1; }
		const char* str() { quiet_local q; static char b[512]; char* p = b; *p = 0; for (int i = 0; i < n && p < b + 480; i++) p += sprintf(p, "%s%d", i ? "," : "", v[i]); return b; }
	};
	/// object whose construction/destruction is tracked: reports double destruction, use after destruction
	struct tracked {
		counter* live;
		explicit tracked(counter* c) : live(c) { if (live) { quiet q(live); live->v++; } }
		tracked(const tracked& o) : live(o.live) { if (live) { quiet q(live); live->v++; } }
		tracked(tracked&& o) noexcept : live(o.live) { if (live) { quiet q(live); live->v++; } }
		tracked& operator=(const tracked&) = default;
		~tracked() { if (live) { quiet q(live); live->v--; if (live->v < 0) mcrt_fail("object destroyed more often than constructed"); } }
	};
}
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
/// MC_SCENARIO(name, bound_quick, bound_thorough, weak_quick, weak_thorough, flags) { body }
#define MC_SCENARIO(nm, bq, bt, wq, wt, fl)                                                                            \
	static void mcs_##nm();                                                                                            \
	static mc::reg MC_CAT(mcr_, nm){mcrt_scenario{MC_PREFIX #nm, mcs_##nm, bq, bt, wq, wt, fl}};                                 \
	static void mcs_##nm()
#define CHECK(c) mc::check((c), "%s:%d: CHECK(%s)", __FILE_NAME__, __LINE__, #c)
#define CHECKM(c, ...) mc::check((c), __VA_ARGS__)
