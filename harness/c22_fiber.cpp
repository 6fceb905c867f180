// C22: fibers
#ifndef MC_PREFIX
#define C22_UNITS
#endif
#include "common.h"
#include <asyncpp/fiber.h>
#include <asyncpp/event.h>
#include <asyncpp/launch.h>
#include <asyncpp/task.h>
#include <cfenv>
#ifdef C22_UNITS
#include "c22_unit.h"
namespace c22 { C22_UNIT(unit1); }
#endif
using namespace asyncpp;

namespace {
static constexpr size_t STACK = 32768;
// A value that depends on everything a fiber has to keep across a suspension: callee saved registers, a large
// buffer on the stack and local objects
struct frame_check {
	unsigned char buf[256];
	unsigned seed;
	mc::tracked t;
	frame_check(unsigned s, mc::counter* c) : seed(s), t(c) { mc::quiet_local q; for (unsigned i = 0; i < sizeof buf; i++) buf[i] = static_cast<unsigned char>(i * 7 + seed); }
	void verify() { mc::quiet_local q; for (unsigned i = 0; i < sizeof buf; i++) mc::check(buf[i] == static_cast<unsigned char>(i * 7 + seed), "the stack of the fiber changed while it was suspended"); }
};
struct world {
	std::coroutine_handle<> parked{};
	std::thread th[4];
	int nth = 0;
	mc::counter locals, aw, fns;
	hc::manual_dispatcher dp;
	int suspends = 0;
	void join() { for (int i = 0; i < nth; i++) th[i].join(); nth = 0; }
};
enum kind { READY, VOID_LATER, BOOL_FALSE, BOOL_LATER, INLINE_VOID, INLINE_BOOL, HANDLE_SELF, HANDLE_OTHER, HANDLE_NOOP, THROW_SUSPEND, THROW_RESUME, THREAD_VOID, THREAD_BOOL, NKIND };
static constexpr int NSEQ = THREAD_VOID;
// one awaiter per kind
struct aw_base {
	world& w; int v; int calls = 0; mc::tracked t;
	aw_base(world& w, int v) : w(w), v(v), t(&w.aw) {}
	bool await_ready() { CHECK(calls++ == 0); return false; }
	void suspended() { CHECKM(calls++ == 1, "await_suspend called %d times", calls); }
	int await_resume() { CHECKM(calls == 2, "await_resume after %d calls", calls); calls = 3; return v; }
};
struct aw_ready : aw_base { using aw_base::aw_base; bool await_ready() { calls = 2; return true; } void await_suspend(std::coroutine_handle<>) { mc::check(false, "suspended although ready"); } };
struct aw_void_later : aw_base { using aw_base::aw_base; void await_suspend(std::coroutine_handle<> h) { suspended(); w.parked = h; } };
struct aw_bool_false : aw_base { using aw_base::aw_base; bool await_suspend(std::coroutine_handle<>) { suspended(); return false; } };
struct aw_bool_later : aw_base { using aw_base::aw_base; bool await_suspend(std::coroutine_handle<> h) { suspended(); w.parked = h; return true; } };
struct aw_inline_void : aw_base { using aw_base::aw_base; void await_suspend(std::coroutine_handle<> h) { suspended(); h.resume(); } };
struct aw_inline_bool : aw_base { using aw_base::aw_base; bool await_suspend(std::coroutine_handle<> h) { suspended(); h.resume(); return true; } };
struct aw_handle_self : aw_base { using aw_base::aw_base; std::coroutine_handle<> await_suspend(std::coroutine_handle<> h) { suspended(); return h; } };
struct other_co { // a coroutine that resumes the fiber
	struct promise_type {
		other_co get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
		suspend_always initial_suspend() noexcept { return {}; }
		suspend_never final_suspend() noexcept { return {}; }
		void return_void() {}
		void unhandled_exception() { mc::check(false, "exception"); }
	};
	std::coroutine_handle<> h;
};
static other_co resumer(std::coroutine_handle<> h) { h.resume(); co_return; }
struct aw_handle_other : aw_base { using aw_base::aw_base; std::coroutine_handle<> await_suspend(std::coroutine_handle<> h) { suspended(); return resumer(h).h; } };
struct aw_handle_noop : aw_base { using aw_base::aw_base; std::coroutine_handle<> await_suspend(std::coroutine_handle<> h) { suspended(); w.parked = h; return std::noop_coroutine(); } };
struct aw_throw_suspend : aw_base { using aw_base::aw_base; void await_suspend(std::coroutine_handle<>) { suspended(); throw hc::exn{v}; } };
struct aw_throw_resume : aw_base { using aw_base::aw_base; bool await_suspend(std::coroutine_handle<>) { suspended(); return false; } int await_resume() { throw hc::exn{v}; } };
struct aw_thread_void : aw_base { using aw_base::aw_base; void await_suspend(std::coroutine_handle<> h) { suspended(); auto& t = w.th[w.nth++]; t = std::thread([h] { h.resume(); }); } };
struct aw_thread_bool : aw_base { using aw_base::aw_base; bool await_suspend(std::coroutine_handle<> h) { suspended(); auto& t = w.th[w.nth++]; t = std::thread([h] { h.resume(); }); return true; } };

template<class A> [[gnu::noinline]] static int await_one(world& w, int v) { return fib_await A(w, v); }
static int await_kind(world& w, int k, int v) {
	switch (k) {
	case READY: return await_one<aw_ready>(w, v);
	case VOID_LATER: return await_one<aw_void_later>(w, v);
	case BOOL_FALSE: return await_one<aw_bool_false>(w, v);
	case BOOL_LATER: return await_one<aw_bool_later>(w, v);
	case INLINE_VOID: return await_one<aw_inline_void>(w, v);
	case INLINE_BOOL: return await_one<aw_inline_bool>(w, v);
	case HANDLE_SELF: return await_one<aw_handle_self>(w, v);
	case HANDLE_OTHER: return await_one<aw_handle_other>(w, v);
	case HANDLE_NOOP: return await_one<aw_handle_noop>(w, v);
	case THROW_SUSPEND: return await_one<aw_throw_suspend>(w, v);
	case THROW_RESUME: return await_one<aw_throw_resume>(w, v);
	case THREAD_VOID: return await_one<aw_thread_void>(w, v);
	default: return await_one<aw_thread_bool>(w, v);
	}
}
static bool later(int k) { return k == VOID_LATER || k == BOOL_LATER || k == HANDLE_NOOP; }
static bool throws(int k) { return k == THROW_SUSPEND || k == THROW_RESUME; }
// values kept in registers and on the stack across the awaits
[[gnu::noinline]] static long body(world& w, const int* kinds, int n, int base) {
	frame_check f(static_cast<unsigned>(base), &w.locals);
	CHECKM(reinterpret_cast<uintptr_t>(__builtin_frame_address(0)) % 16 == 0, "misaligned stack");
	long a = base * 3 + 1, b = base * 5 + 2, c = base * 7 + 3, d = base * 11 + 4, e = base * 13 + 5, g = base * 17 + 6;
	for (int i = 0; i < n; i++) {
		mc::tracked t(&w.locals);
		bool caught = false;
		int r = -1;
		try { r = await_kind(w, kinds[i], base + i); } catch (hc::exn& ex) { caught = true; CHECKM(ex.v == base + i, "wrong exception"); }
		CHECKM(caught == throws(kinds[i]), "exception %s", caught ? "invented" : "lost");
		CHECKM(caught || r == base + i, "await %d returned %d instead of %d", i, r, base + i);
		a += 1; b += a; c ^= b; d += c; e -= d; g += e;
		f.verify();
	}
	long x[6] = {base * 3 + 1L, base * 5 + 2L, base * 7 + 3L, base * 11 + 4L, base * 13 + 5L, base * 17 + 6L};
	for (int i = 0; i < n; i++) { x[0] += 1; x[1] += x[0]; x[2] ^= x[1]; x[3] += x[2]; x[4] -= x[3]; x[5] += x[4]; }
	CHECKM(a == x[0] && b == x[1] && c == x[2] && d == x[3] && e == x[4] && g == x[5], "local variables changed across the suspension");
	return 1000 + base;
}
template<class T> struct fn_of {
	world* w; int k[4]; int n, base; mc::tracked t;
	mc::counter* runs;
	T operator()() const { runs->inc(); if constexpr (std::is_void_v<T>) body(*w, k, n, base); else return static_cast<T>(body(*w, k, n, base)); }
};
template<class T> static hc::co await_fiber(fiber<T>& f, mc::counter* done, bool rv) {
	mc::counter live;
	{
		mc::tracked t(&live);
		if constexpr (std::is_void_v<T>) co_await f;
		else { int r = rv ? co_await std::move(f) : co_await f; CHECKM(r == 1000 + 10, "fiber result is %d", r); }
		done->inc();
	}
	CHECK(live.get() == 0);
}
// awaits, then destroys the fiber right away
template<class T> static hc::co await_own_fiber(fiber<T> f, mc::counter* done) {
	if constexpr (std::is_void_v<T>) co_await f;
	else { int r = co_await f; CHECKM(r == 1000 + 10, "fiber result is %d", r); }
	{ fiber<T> gone(std::move(f)); }
	done->inc();
}
template<class T> static void programs(int n) {
	world w;
	mc::counter done, runs;
	int pending = 0;
	{
		fn_of<T> fn{&w, {}, n, 10, mc::tracked(&w.fns), &runs};
		for (int i = 0; i < n; i++) { fn.k[i] = mc::choose(NSEQ, "await"); pending += later(fn.k[i]); }
		int mode = mc::choose(4, "mode");
		std::unique_ptr<fiber<T>> f;
		f = std::make_unique<fiber<T>>(fn, STACK);
		if (mode == 3) { fiber<T> g; g = std::move(*f); *f = fiber<T>(std::move(g)); }
		CHECKM(runs.get() == 0, "the fiber ran before it was awaited");
		if (mode == 2) { await_own_fiber(std::move(*f), &done); f.reset(); }
		else await_fiber(*f, &done, mode == 1);
		for (int i = 0; i < pending; i++) {
			CHECKM(done.get() == 0, "the fiber was finished early");
			CHECKM(runs.get() == 1, "function ran %d times", runs.get());
			auto h = std::exchange(w.parked, nullptr);
			CHECKM(!!h, "the fiber is not suspended");
			h.resume();
		}
		CHECKM(done.get() == 1, "the awaiting coroutine continued %d times", done.get());
		CHECKM(runs.get() == 1, "function ran %d times", runs.get());
		if (f && mode == 0) await_fiber(*f, &done, false); // awaiting a finished fiber again
		CHECK(done.get() == (mode == 0 ? 2 : 1));
	}
	CHECKM(w.locals.get() == 0 && w.aw.get() == 0 && w.fns.get() == 0, "%d locals, %d awaiters, %d callables leaked", w.locals.get(), w.aw.get(), w.fns.get());
	mc::outcome("ok");
}
MC_SCENARIO(programs_int, 0, 0, 0, 0, 0) { programs<int>(mc::thorough() ? 4 : 3); }
MC_SCENARIO(programs_void, 0, 0, 0, 0, 0) { programs<void>(mc::thorough() ? 4 : 3); }

#ifndef C22_SINGLE
// resumed from other threads, possibly before await_suspend returned
template<class T> static void resumed_elsewhere(int n, bool own) {
	world w;
	mc::counter done, runs;
	{
		fn_of<T> fn{&w, {}, n, 10, mc::tracked(&w.fns), &runs};
		for (int i = 0; i < n; i++) { int k = mc::choose(4, "await"); fn.k[i] = k == 0 ? THREAD_VOID : k == 1 ? THREAD_BOOL : k == 2 ? INLINE_BOOL : THROW_SUSPEND; }
		fiber<T> f(fn, STACK);
		if (own) await_own_fiber(std::move(f), &done);
		else await_fiber(f, &done, false);
		for (int i = 0, t = 0; i < n; i++) if (fn.k[i] == THREAD_VOID || fn.k[i] == THREAD_BOOL) w.th[t++].join(); // started one after the other
	}
	CHECKM(done.get() == 1, "the awaiting coroutine continued %d times", done.get());
	CHECKM(runs.get() == 1, "function ran %d times", runs.get());
	CHECKM(w.locals.get() == 0 && w.aw.get() == 0 && w.fns.get() == 0, "leaked");
	mc::outcome("ok");
}
MC_SCENARIO(mt_one_own, 6, 8, 1, 2, 0) { resumed_elsewhere<int>(1, true); }
MC_SCENARIO(mt_two_own, 4, 6, 0, 1, 0) { resumed_elsewhere<void>(2, true); }
MC_SCENARIO(mt_two, 3, 5, 0, 1, 0) { resumed_elsewhere<int>(2, false); }
MC_SCENARIO(mt_three_own, 2, 4, 0, 0, mc::THOROUGH_ONLY) { resumed_elsewhere<int>(3, true); }

// two fibers that are resumed by each other's thread
MC_SCENARIO(mt_two_fibers, 3, 5, 0, 1, 0) {
	world w[2];
	mc::counter done, runs;
	{
		hc::threads th;
		for (int i = 0; i < 2; i++) {
			fn_of<int> fn{&w[i], {}, 1, 10, mc::tracked(&w[i].fns), &runs};
			fn.k[0] = mc::flip() ? THREAD_VOID : THREAD_BOOL;
			th.add([fn, &done] { await_own_fiber(fiber<int>(fn, STACK), &done); });
		}
		th.join();
		for (auto& x : w) x.join();
	}
	CHECK(done.get() == 2 && runs.get() == 2);
	CHECK(w[0].locals.get() + w[0].fns.get() + w[1].locals.get() + w[1].fns.get() == 0);
	mc::outcome("ok");
}
#endif

// destroyed at every suspension point: unwinds, does not continue
struct dtask { // lazily started coroutine owned by its handle
	struct promise_type {
		dtask get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
		suspend_always initial_suspend() noexcept { return {}; }
		suspend_always final_suspend() noexcept { return {}; }
		void return_void() {}
		void unhandled_exception() { mc::check(false, "exception"); }
	};
	std::coroutine_handle<promise_type> h;
};
template<class T> static void destroyed() {
	world w;
	mc::counter done, runs;
	{
		int n = 2, stop = mc::choose(3, "destroyed at");
		fn_of<T> fn{&w, {}, n, 10, mc::tracked(&w.fns), &runs};
		for (int i = 0; i < n; i++) { fn.k[i] = mc::choose(3, "await"); fn.k[i] = fn.k[i] == 0 ? VOID_LATER : fn.k[i] == 1 ? BOOL_LATER : HANDLE_NOOP; }
		int owner = mc::choose(3, "owner");
		if (owner == 0) { // the coroutine awaiting the fiber owns it and is destroyed
			auto t = [](fiber<T> f, mc::counter* done) -> dtask {
				if constexpr (std::is_void_v<T>) co_await f; else CHECK(co_await f == 1010);
				done->inc();
			}(fiber<T>(fn, STACK), &done);
			if (stop > 0) t.h.resume();
			for (int i = 1; i < stop; i++) std::exchange(w.parked, nullptr).resume();
			CHECK(w.locals.get() == (stop ? 2 : 0));
			t.h.destroy();
		} else if (owner == 1) { // owned by somebody else, the awaiter is destroyed afterwards
			auto f = std::make_unique<fiber<T>>(fn, STACK);
			auto t = [](fiber<T>& f, mc::counter* done) -> dtask {
				if constexpr (std::is_void_v<T>) co_await f; else CHECK(co_await f == 1010);
				done->inc();
			}(*f, &done);
			if (stop > 0) t.h.resume();
			for (int i = 1; i < stop; i++) std::exchange(w.parked, nullptr).resume();
			if (mc::flip("assign")) *f = fiber<T>(); else f.reset();
			CHECKM(done.get() == 0, "destroying the fiber resumed the coroutine waiting for it");
			t.h.destroy();
		} else { // owned by somebody else, the awaiter is destroyed first
			fiber<T> f(fn, STACK);
			auto t = [](fiber<T>& f, mc::counter* done) -> dtask {
				if constexpr (std::is_void_v<T>) co_await f; else CHECK(co_await f == 1010);
				done->inc();
			}(f, &done);
			if (stop > 0) t.h.resume();
			for (int i = 1; i < stop; i++) std::exchange(w.parked, nullptr).resume();
			t.h.destroy();
			CHECK(w.locals.get() == (stop ? 2 : 0));
		}
		CHECKM(done.get() == 0, "the awaiting coroutine continued");
		CHECK(runs.get() == (stop ? 1 : 0));
	}
	CHECKM(w.locals.get() == 0 && w.aw.get() == 0 && w.fns.get() == 0, "%d locals, %d awaiters, %d callables leaked", w.locals.get(), w.aw.get(), w.fns.get());
	mc::outcome("ok");
}
// a fiber which is destroyed may catch everything and return a value all the same
static void destroyed_returns() {
	mc::counter live, caught, done;
	struct never {
		bool await_ready() { return false; }
		void await_suspend(coroutine_handle<>) {}
		void await_resume() { mc::check(false, "a destroyed fiber continued"); }
	};
	struct result {
		mc::tracked t;
		int v;
	};
	{
		auto fn = [&](int v) {
			return [&live, &caught, v, suspend = v == 1, tr = mc::tracked(&live)] {
				try {
					if (suspend) fiber<void>::fiber_await(never{});
				} catch (...) { caught.inc(); }
				return result{mc::tracked(&live), v};
			};
		};
		auto wait = [](fiber<result>& f, mc::counter* done, int v) -> dtask {
			CHECK((co_await f).v == v);
			done->inc();
		};
		auto f = std::make_unique<fiber<result>>(fn(1), STACK);
		auto t = wait(*f, &done, 1);
		t.h.resume();
		CHECK(caught.get() == 0);
		switch (mc::choose(4, "how")) {
		case 0: f.reset(); break;
		case 1: *f = fiber<result>(); break;
		case 2: { // over a live fiber
			*f = fiber<result>(fn(2), STACK);
			auto t2 = wait(*f, &done, 2);
			t2.h.resume();
			CHECK(done.get() == 1);
			t2.h.destroy();
			break;
		}
		case 3: { // moved before
			auto g = std::move(*f);
			f.reset();
			CHECK(caught.get() == 0);
			break;
		}
		}
		CHECKM(caught.get() == 1, "the fiber was not unwound");
		t.h.destroy();
	}
	CHECKM(live.get() == 0, "%d objects leaked", live.get());
}
MC_SCENARIO(destroyed_returning, 0, 0, 0, 0, 0) { destroyed_returns(); }
MC_SCENARIO(destroyed_int, 0, 0, 0, 0, 0) { destroyed<int>(); }
MC_SCENARIO(destroyed_void, 0, 0, 0, 0, 0) { destroyed<void>(); }

// nesting: fibers await fibers, coroutines and coroutines await them
static task<int> nested_task(world& w, int depth, int kinds);
static fiber<int> nested_fiber(world& w, int depth, int kinds) {
	return fiber<int>([&w, depth, kinds]() -> int {
		frame_check f(static_cast<unsigned>(depth), &w.locals);
		int r = 0;
		if (depth > 0) {
			if (kinds & 1) { auto inner = nested_fiber(w, depth - 1, kinds >> 1); r = fib_await inner.await(); }
			else { auto t = nested_task(w, depth - 1, kinds >> 1); auto aw = std::move(t).operator co_await(); r = fib_await aw; }
		} else fib_await aw_void_later(w, 1);
		f.verify();
		r += fib_await aw_bool_later(w, 1);
		f.verify();
		return r;
	}, STACK);
}
static task<int> nested_task(world& w, int depth, int kinds) {
	int r = 0;
	if (depth > 0) {
		if (kinds & 1) { auto f = nested_fiber(w, depth - 1, kinds >> 1); r = co_await f; }
		else r = co_await nested_task(w, depth - 1, kinds >> 1);
	}
	r += co_await aw_void_later(w, 1);
	co_return r;
}
MC_SCENARIO(nested, 0, 0, 0, 0, 0) {
	world w;
	{
		int depth = mc::choose(mc::thorough() ? 5 : 4, "depth"), kinds = mc::choose(1 << depth, "kinds");
		int steps = mc::choose(depth + 3, "steps");
		auto f = nested_fiber(w, depth, kinds);
		int result = -1;
		auto t = [](fiber<int>& f, int* r) -> dtask { *r = co_await f; }(f, &result);
		t.h.resume();
		int n = 0;
		while (w.parked && n < steps) { n++; CHECK(result == -1); std::exchange(w.parked, nullptr).resume(); }
		if (!w.parked) CHECKM(result == depth + 1, "result %d", result);
		else CHECKM(result == -1, "finished early");
		t.h.destroy(); // the rest is destroyed while suspended
	}
	CHECKM(w.locals.get() == 0 && w.aw.get() == 0, "locals leaked");
	mc::outcome("ok");
}

// fibers that run each other: every step is taken by the main stack or by a running fiber, which starts or resumes
// another one on top of itself and goes on when that one suspends or ends
namespace woven {
struct state {
	int n, budget;
	struct one { world w; std::unique_ptr<fiber<int>> f; bool started = false, ended = false, running = false; int marks = 0, seen = -1; mc::counter done; } x[3];
};
static hc::co watch(state& s, int i) { s.x[i].seen = co_await *s.x[i].f; s.x[i].done.inc(); }
// starts or resumes one of the fibers that are not running, false if there is none
static bool step(state& s, int self) {
	int cand[3], n = 0;
	for (int i = 0; i < s.n; i++) if (i != self && !s.x[i].ended && !s.x[i].running && (!s.x[i].started || s.x[i].w.parked)) cand[n++] = i;
	if (n == 0) return false;
	auto& o = s.x[cand[n > 1 ? mc::choose(n, "fiber") : 0]];
	const int i = static_cast<int>(&o - s.x);
	if (!o.started) { o.started = true; o.running = true; watch(s, i); }
	else { o.running = true; std::exchange(o.w.parked, nullptr).resume(); }
	o.running = false;
	CHECKM(o.ended == (o.done.get() == 1), "the coroutine awaiting fiber %d %s", i, o.ended ? "did not continue" : "continued early");
	return true;
}
[[gnu::noinline]] static int run(state& s, int i) {
	auto& me = s.x[i];
	frame_check f(static_cast<unsigned>(i), &me.w.locals);
	for (;;) {
		int k = s.budget > 0 ? mc::choose(4, "does") : 0;
		if (k == 0) break;
		s.budget--;
		if (k == 1) { CHECK((fib_await aw_void_later(me.w, me.marks)) == me.marks); }
		else if (k == 2) { CHECK((fib_await aw_bool_false(me.w, me.marks)) == me.marks); }
		else step(s, i);
		me.marks++;
		CHECKM(me.running, "fiber %d runs although another one was resumed", i);
		f.verify();
	}
	me.ended = true;
	return 1000 + i;
}
}
MC_SCENARIO(woven_fibers, 0, 0, 0, 0, 0) {
	mc::counter locals;
	{
		woven::state s;
		s.n = mc::thorough() ? 3 : 2; s.budget = mc::thorough() ? 5 : 6;
		for (int i = 0; i < s.n; i++) s.x[i].f = std::make_unique<fiber<int>>([&s, i] { return woven::run(s, i); }, STACK);
		while (woven::step(s, -1)) {}
		for (int i = 0; i < s.n; i++) {
			CHECKM(s.x[i].ended && s.x[i].done.get() == 1 && s.x[i].seen == 1000 + i, "fiber %d: result %d", i, s.x[i].seen);
			CHECKM(s.x[i].w.locals.get() == 0 && s.x[i].w.aw.get() == 0, "locals leaked");
		}
	}
	mc::outcome("ok");
}

// callables: lvalues are copied, move only and stateful ones work, each is destroyed
MC_SCENARIO(callables, 0, 0, 0, 0, 0) {
	world w;
	int got = 0;
	{
		auto make = [&](auto& holder) {
			int what = mc::choose(4, "callable");
			if (what == 0) { auto fn = std::make_unique<std::function<void()>>([&got, t = mc::tracked(&w.fns)] { got++; }); auto& l = *fn; holder = fiber<void>(l, STACK); fn.reset(); }
			if (what == 1) { auto l = [&got, p = std::make_unique<int>(1), t = mc::tracked(&w.fns)] { got += *p; }; holder = fiber<void>(std::move(l), STACK); }
			if (what == 2) { auto fn = std::make_unique<const std::function<void()>>([&got, t = mc::tracked(&w.fns)] { got++; }); auto& l = *fn; holder = fiber<void>(l, STACK); fn.reset(); }
			if (what == 3) { holder = fiber<void>([&got, n = 0, t = mc::tracked(&w.fns)]() mutable { got += ++n; }, STACK); }
		};
		fiber<void> f;
		make(f);
		CHECK(w.fns.get() == 1);
		if (mc::flip("run")) { mc::counter done; await_fiber(f, &done, false); CHECK(done.get() == 1 && got == 1); }
		else CHECK(got == 0);
	}
	CHECK(w.fns.get() == 0);
	mc::outcome("got=%d", got);
}
MC_SCENARIO(result_types, 0, 0, 0, 0, 0) {
	mc::counter live;
	{
		int what = mc::choose(3);
		if (what == 0) {
			fiber<std::unique_ptr<mc::tracked>> f([&live] { return std::make_unique<mc::tracked>(&live); }, STACK);
			[](decltype(f)& f, mc::counter& live) -> hc::co { auto p = co_await std::move(f); CHECK(p && live.get() == 1); }(f, live);
			CHECK(live.get() == 0);
		} else if (what == 1) {
			fiber f([n = 4]() mutable { return ++n; });
			static_assert(std::is_same_v<decltype(f), fiber<int>>);
			[](decltype(f)& f) -> hc::co { CHECK(co_await f == 5); CHECK(co_await f == 5); }(f);
		} else {
			fiber<std::vector<mc::tracked>> f([&live] { return std::vector<mc::tracked>(2, mc::tracked(&live)); }, STACK);
			[](decltype(f)& f, mc::counter& live) -> hc::co { CHECK((co_await f).size() == 2); CHECK(live.get() == 2); auto v = co_await f; CHECK(live.get() == 4); auto m = co_await std::move(f); CHECK(live.get() == 4); }(f, live);
		}
	}
	CHECK(live.get() == 0);
	mc::outcome("ok");
}
// awaiters as lvalues
MC_SCENARIO(lvalue_awaiter, 0, 0, 0, 0, 0) {
	world w;
	int sum = 0;
	{
		int k = mc::choose(3, "kind");
		fiber<void> f([&] {
			if (k == 0) { aw_void_later a(w, 1); sum += fib_await a; CHECK(a.calls == 3); }
			if (k == 1) { aw_bool_false a(w, 2); sum += fib_await a; CHECK(a.calls == 3); }
			if (k == 2) { aw_handle_noop a(w, 3); sum += fiber<void>::fiber_await(a); CHECK(a.calls == 3); }
		}, STACK);
		mc::counter done;
		await_fiber(f, &done, false);
		if (k != 1) { CHECK(sum == 0); std::exchange(w.parked, nullptr).resume(); }
		CHECK(done.get() == 1 && sum == k + 1);
	}
	mc::outcome("ok");
}
// empty and already awaited fibers
MC_SCENARIO(misuse, 0, 0, 0, 0, 0) {
	world w;
	auto empty = [](auto& f) { try { (void)f.await(); } catch (std::logic_error&) { return true; } return false; };
	{
		fiber<void> a; fiber<int> b;
		CHECK(empty(a) && empty(b));
		fiber<void> c([] {}, STACK); fiber<int> d([] { return 1; }, STACK);
		fiber<void> e(std::move(c)); fiber<int> f; f = std::move(d);
		CHECK(empty(c) && empty(d) && !empty(e) && !empty(f));
		auto& self = e; e = std::move(self);
		CHECK(!empty(e));
		// a second awaiter is refused, the first one still completes
		fiber<int> g([&w] { fib_await aw_void_later(w, 0); return 1010; }, STACK);
		mc::counter done;
		await_fiber(g, &done, false);
		bool refused = false;
		[](fiber<int>& g, bool* refused) -> hc::co { try { co_await g; } catch (std::logic_error&) { *refused = true; } }(g, &refused);
		CHECK(refused && done.get() == 0);
		w.parked.resume();
		CHECK(done.get() == 1);
	}
	mc::outcome("ok");
}
// floating point environment: a fiber computes like its creator, changes stay with the fiber
MC_SCENARIO(floating_point, 0, 0, 0, 0, 0) {
	static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
	world w;
	volatile double one = 1, three = 3;
	volatile long double lone = 1, lthree = 3;
	double expect = one / three;
	long double lexpect = lone / lthree;
	double got = 0, got2 = 0;
	long double lgot = 0;
	{
		int change = mc::choose(4, "rounding in the fiber");
		fiber<void> f([&] {
			got = one / three;
			lgot = lone / lthree;
			fesetround(modes[change]);
			double before = one / three;
			fib_await aw_void_later(w, 0);
			got2 = one / three;
			CHECKM(got2 == before, "rounding mode lost");
			fesetround(FE_TONEAREST);
		}, STACK);
		mc::counter done;
		await_fiber(f, &done, false);
		CHECKM(one / three == expect && lone / lthree == lexpect, "the rounding mode of the fiber leaked");
		w.parked.resume();
		CHECK(done.get() == 1);
		CHECKM(got == expect && lgot == lexpect, "results differ inside the fiber");
		CHECK(one / three == expect);
	}
	mc::outcome("ok");
}
// out of memory
MC_SCENARIO(out_of_memory, 0, 0, 0, 0, 0) {
	int what = mc::choose(3);
	bool threw = false;
	try {
		if (what == 0) fiber<int> f([] { return 1; }, size_t{1} << 40);
		else { mcrt_fail_alloc(mc::choose(3) + 1); fiber<int> f([] { return 1; }, STACK); }
	} catch (std::bad_alloc&) { threw = true; }
	mcrt_fail_alloc(0);
	if (what == 0) CHECK(threw);
	mc::outcome("threw=%d", threw);
}
#if defined(C22_SINGLE) && defined(__x86_64__)
// the stack protector value belongs to the stack: a fiber that changes it gets its own back, everybody else keeps theirs
[[gnu::noinline, gnu::no_stack_protector]] static unsigned long guard() { unsigned long v; asm volatile("movq %%fs:0x28, %0" : "=r"(v)); return v; }
[[gnu::noinline, gnu::no_stack_protector]] static void guard(unsigned long v) { asm volatile("movq %0, %%fs:0x28" : : "r"(v)); }
static unsigned long original_guard = guard();
[[gnu::noinline, gnu::no_stack_protector]] static void guarded(world* w, unsigned long v, int n, mc::counter* bad) {
	const auto before = guard();
	guard(v);
	for (int i = 0; i < n; i++) { (void)await_one<aw_void_later>(*w, i); if (guard() != v) bad->inc(); }
	guard(before);
}
MC_SCENARIO(stack_guard, 0, 0, 0, 0, 0) {
	world w[2];
	mc::counter bad, done;
	const auto mine = guard();
	{
		int n = mc::choose(3, "n");
		fiber<int> a([&] { guarded(&w[0], 0x1111222233334444ul, 2, &bad); return 1010; }, STACK), b([&] { guarded(&w[1], 0x5555666677778888ul, n, &bad); return 1010; }, STACK);
		await_fiber(a, &done, false); CHECK(guard() == mine);
		await_fiber(b, &done, false); CHECK(guard() == mine);
		while (w[0].parked || w[1].parked) {
			int i = !w[0].parked ? 1 : !w[1].parked ? 0 : mc::choose(2, "who");
			std::exchange(w[i].parked, nullptr).resume();
			CHECKM(guard() == mine, "the stack protector value of a fiber leaked out");
		}
	}
	CHECK(done.get() == 2);
	CHECKM(bad.get() == 0, "a fiber lost its stack protector value");
	mc::outcome("ok");
}
} // namespace
extern "C" [[gnu::no_stack_protector]] void __stack_chk_fail() {
	guard(original_guard);
	mc::check(false, "stack protector: the value changed while a function was running");
	abort();
}
namespace {
#endif
#ifndef C22_SINGLE
// with the library's own primitives
MC_SCENARIO(mt_events, 3, 5, 0, 1, 0) {
	mc::counter done;
	{
		auto ev = std::make_unique<single_consumer_event>();
		hc::threads th;
		th.add([e = ev.get()] { e->set(); });
		await_own_fiber(fiber<int>([&ev] {
			if (mc::flip("resume on")) fib_await ev->wait(nullptr); else fib_await ev->operator co_await();
			return 1010;
		}, STACK), &done);
		th.join();
	}
	CHECK(done.get() == 1);
	mc::outcome("ok");
}
MC_SCENARIO(mt_scope, 3, 4, 0, 1, 0) {
	world w[2];
	int sum = 0;
	{
		async_launch_scope scope;
		for (int i = 0; i < 2; i++) scope.launch(fiber<int>([&w, i] { return fib_await aw_thread_bool(w[i], i); }, STACK));
		bool joined = false;
		[](async_launch_scope& s, world* w, bool* joined) -> hc::co { co_await s.join(); *joined = true; }(scope, w, &joined);
		for (auto& x : w) x.join();
		CHECKM(joined, "join did not return");
		CHECK(scope.all_done());
	}
	(void)sum;
	mc::outcome("ok");
}
#endif
#ifdef C22_UNITS
MC_SCENARIO(units_seq, 0, 0, 0, 0, 0) { c22::units(false); }
MC_SCENARIO(units_dispatcher, 3, 5, 0, 0, 0) { c22::units_dispatcher(); }
MC_SCENARIO(units_mt, 3, 5, 0, 1, 0) { c22::units(true); }
#endif
} // namespace
