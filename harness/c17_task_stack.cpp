// FLAGS: -O2 -fno-sanitize=thread
// C17: chains of tasks do not grow the stack. Separate file because instrumentation disables the tail calls of the compiler;
// everything here is single threaded. All task types are distinct from those of other files.
#include "common.h"
#include <asyncpp/task.h>
using namespace asyncpp;
namespace {
	struct val { int v; };
	char *lo, *hi;
	[[gnu::noinline]] void mark() {
		char* a = static_cast<char*>(__builtin_frame_address(0));
		if (!lo || a < lo) lo = a;
		if (!hi || a > hi) hi = a;
		asm volatile("" ::: "memory");
	}
	struct gate {
		static inline std::coroutine_handle<> waiting;
		bool stay;
		bool await_ready() const noexcept { return false; }
		bool await_suspend(std::coroutine_handle<> h) { if (stay) waiting = h; return stay; }
		void await_resume() noexcept {}
	};
	struct driver {
		struct promise_type {
			driver get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
			std::suspend_always initial_suspend() noexcept { return {}; }
			std::suspend_always final_suspend() noexcept { return {}; }
			void return_void() {}
			void unhandled_exception() { mc::check(false, "unexpected exception left a harness coroutine"); }
		};
		std::coroutine_handle<promise_type> h;
	};
	constexpr int N = 400;
	task<val> leaf(int i, bool wait) { mark(); if (wait) co_await gate{false}; co_return val{i}; }
	task<val> thrower(int i) { mark(); throw hc::exn{i}; co_return val{i}; }
	task<val> chain(int i, bool wait) {
		mark();
		if (i == 0) { if (wait) co_await gate{true}; mark(); co_return val{0}; }
		val v = co_await chain(i - 1, wait);
		mark();
		co_return val{v.v + 1};
	}
	driver loop(bool wait) { for (int i = 0; i < N; i++) { val v = co_await leaf(i, wait); mark(); CHECK(v.v == i); } }
	driver loop_throw() {
		for (int i = 0; i < N; i++) {
			bool ok = false;
			try { (void)co_await thrower(i); } catch (hc::exn& e) { ok = e.v == i; }
			mark();
			CHECK(ok);
		}
	}
	driver top_chain(bool wait) { val v = co_await chain(N, wait); mark(); CHECK(v.v == N); }
	driver top_mixed() { for (int i = 0; i < 20; i++) { val v = co_await chain(20, i & 1); mark(); CHECK(v.v == 20); } }
}
MC_SCENARIO(stack_use, 0, 0, 0, 0, 0) {
	int what = mc::choose(6);
	lo = hi = nullptr;
	gate::waiting = nullptr;
	driver d = what == 0 ? loop(false) : what == 1 ? loop(true) : what == 2 ? loop_throw() : what == 3 ? top_chain(false) : what == 4 ? top_chain(true) : top_mixed();
	d.h.resume();
	while (gate::waiting) std::exchange(gate::waiting, nullptr).resume();
	CHECKM(d.h.done(), "the chain got stuck");
	d.h.destroy();
	CHECKM(hi - lo < 4000, "the stack grew by %ld bytes", static_cast<long>(hi - lo));
	mc::outcome("%d", what);
}
