// C20: as_promise and async_main
#include "common.h"
#include <asyncpp/defer.h>
#include <asyncpp/event.h>
#include <asyncpp/promise.h>
#include <asyncpp/sync_wait.h>
#include <asyncpp/task.h>
#include <asyncpp/thread_pool.h>
#define main asyncpp_async_main
#include <asyncpp/async_main.h>
#undef main
using namespace asyncpp;

static bool ready(auto& f) { return f.wait_for(std::chrono::seconds(0)) == std::future_status::ready; }

// different kinds of awaitables
struct core {
	mc::counter* live_awaits;
	int mode; // 0: ready, 1: resumes inline, 2: suspends, 3: throws in await_ready 4: throws in await_suspend 5: throws in await_resume
	std::coroutine_handle<>* out;
	bool await_ready() const { if (mode == 3) throw hc::exn{3}; return mode == 0 || mode == 5; }
	bool await_suspend(std::coroutine_handle<> h) { if (mode == 4) throw hc::exn{4}; if (mode == 1) return false; *out = h; return true; }
};
template<class R> struct awaiter : core {
	R await_resume() {
		live_awaits->inc();
		if (mode == 5) throw hc::exn{5};
		if constexpr (std::is_void_v<R>) return;
		else if constexpr (std::is_same_v<R, int>) return 42;
		else return std::make_unique<int>(42);
	}
};
template<class R> struct member_op { awaiter<R> a; mc::tracked t; std::shared_ptr<int> keep = std::make_shared<int>(1); awaiter<R> operator co_await() { return a; } };
template<class R> struct free_op { awaiter<R> a; mc::tracked t; std::shared_ptr<int> keep = std::make_shared<int>(1); };
template<class R> awaiter<R> operator co_await(free_op<R> f) { return f.a; }
template<class R> task<R> as_task(awaiter<R> a, mc::tracked) { co_return co_await a; }

template<class R> static void kinds() {
	mc::counter awaits, live;
	std::coroutine_handle<> susp{};
	int mode = mc::choose(6), kind = mc::choose(4), typed = mc::choose(2), lval = mc::choose(2);
	core c{&awaits, mode, &susp};
	{
		std::future<R> f;
		auto go = [&](auto a) {
			constexpr bool copyable = std::is_copy_constructible_v<decltype(a)>;
			constexpr bool detectable = !std::is_same_v<decltype(a), free_op<R>>; // documented limitation
			if (lval && copyable) {
				if constexpr (copyable) {
					bool typ = typed;
					if constexpr (detectable) { if (!typ) f = as_promise(a); } else typ = true;
					if (typ) f = as_promise<R>(a);
					if constexpr (requires { a.keep; }) CHECKM(a.keep != nullptr, "the awaitable passed as lvalue was moved from");
				}
			} else { if constexpr (detectable) { if (!typed) { f = as_promise(std::move(a)); return; } } f = as_promise<R>(std::move(a)); }
		};
		if (kind == 0) go(awaiter<R>{c});
		if (kind == 1) go(member_op<R>{{c}, mc::tracked(&live)});
		if (kind == 2) go(free_op<R>{{c}, mc::tracked(&live)});
		if (kind == 3) go(as_task<R>(awaiter<R>{c}, mc::tracked(&live)));
		static_assert(std::is_same_v<decltype(as_promise(std::declval<awaiter<R>>())), std::future<R>>);
		CHECK(f.valid());
		if (mode == 2) {
			CHECKM(!!susp, "the awaitable was not started");
			CHECKM(!ready(f), "the future is ready before the awaitable finished");
			if (kind != 0) CHECKM(live.get() >= 1, "the awaitable is not kept alive (kind=%d typed=%d lval=%d live=%d)", kind, typed, lval, live.get());
			susp.resume();
		}
		CHECKM(ready(f), "the future is not ready though the awaitable finished");
		CHECKM(awaits.get() == (mode == 3 || mode == 4 ? 0 : 1), "the awaitable was awaited %d times", awaits.get());
		CHECKM(live.get() == 0, "the coroutine was not destroyed");
		bool threw = false;
		try {
			if constexpr (std::is_void_v<R>) f.get();
			else if constexpr (std::is_same_v<R, int>) CHECKM(f.get() == 42, "wrong value");
			else CHECKM(*f.get() == 42, "wrong value");
		} catch (hc::exn& e) { threw = true; CHECKM(e.v == mode, "wrong exception"); }
		CHECKM(threw == (mode >= 3), "%s", threw ? "unexpected exception" : "the exception was lost");
	}
	mc::outcome("%d", mode);
}
MC_SCENARIO(kinds_void, 0, 0, 0, 0, 0) { kinds<void>(); }
MC_SCENARIO(kinds_int, 0, 0, 0, 0, 0) { kinds<int>(); }
MC_SCENARIO(kinds_move_only, 0, 0, 0, 0, 0) { kinds<std::unique_ptr<int>>(); }

// storing the value may throw
struct fragile {
	static inline int fuse;
	explicit fragile(int) {}
	fragile(fragile&&) { if (fuse && --fuse == 0) throw hc::exn{9}; }
};
MC_SCENARIO(value_throws, 0, 0, 0, 0, 0) {
	fragile::fuse = mc::choose(5);
	auto f = as_promise([]() -> task<fragile> { co_return fragile(1); }());
	bool blown = fragile::fuse == 0;
	(void)blown;
	CHECKM(ready(f), "the future is not ready");
	try { auto v = f.get(); (void)v; } catch (hc::exn& e) { CHECK(e.v == 9); }
	fragile::fuse = 0;
	mc::outcome("ok");
}

// completion on another thread vs. the blocking get
template<class R> static void mt(int levels) {
	single_consumer_event ev;
	mc::counter params;
	bool throws = mc::flip("throws");
	int data = 0;
	hc::threads th;
	struct run {
		static task<R> chain(int n, single_consumer_event& ev, int& data, bool throws, mc::tracked t) {
			if (n > 0) {
				if constexpr (std::is_void_v<R>) { co_await chain(n - 1, ev, data, throws, t); co_return; }
				else co_return co_await chain(n - 1, ev, data, throws, t);
			}
			co_await ev.wait();
			data = 7;
			if (throws) throw hc::exn{1};
			if constexpr (!std::is_void_v<R>) co_return std::make_unique<int>(5);
		}
	};
	th.add([&] { ev.set(); });
	{
		auto f = as_promise(run::chain(levels, ev, data, throws, mc::tracked(&params)));
		bool threw = false;
		try {
			if constexpr (std::is_void_v<R>) f.get();
			else CHECK(*f.get() == 5);
		} catch (hc::exn& e) { threw = true; CHECK(e.v == 1); }
		CHECK(threw == throws);
		CHECKM(data == 7, "get returned before the coroutine finished");
	}
	th.join();
	CHECKM(params.get() == 0, "the coroutine was not destroyed");
	mc::outcome("ok");
}
MC_SCENARIO(mt_void, 8, 12, 2, 3, 0) { mt<void>(0); }
MC_SCENARIO(mt_value, 8, 12, 2, 3, 0) { mt<std::unique_ptr<int>>(0); }
MC_SCENARIO(mt_chain, 8, 12, 2, 3, 0) { mt<std::unique_ptr<int>>(1); }
// the future is dropped without waiting
MC_SCENARIO(mt_dropped, 8, 12, 2, 3, 0) {
	single_consumer_event ev;
	mc::counter params;
	hc::threads th;
	th.add([&] { ev.set(); });
	auto t = [](single_consumer_event& ev, mc::tracked) -> task<int> { co_await ev; co_return 1; }(ev, mc::tracked(&params));
	{ auto f = as_promise(std::move(t)); }
	th.join();
	CHECKM(params.get() == 0, "the coroutine was not destroyed");
	mc::outcome("ok");
}
// two waits, values cross over two threads
MC_SCENARIO(mt_two, 5, 7, 2, 2, 0) {
	single_consumer_event e[2];
	int v[2] = {};
	hc::threads th;
	auto t = [](single_consumer_event& ev, int& v, int n) -> task<int> { co_await ev; v = n; co_return n; };
	th.add([&] { e[0].set(); });
	th.add([&] {
		auto f = as_promise(t(e[1], v[1], 2));
		CHECK(f.get() == 2 && v[1] == 2);
	});
	auto f = as_promise(t(e[0], v[0], 1));
	e[1].set();
	CHECK(f.get() == 1 && v[0] == 1);
	th.join();
	mc::outcome("ok");
}
// a library promise fulfilled by a thread, awaited by as_promise
MC_SCENARIO(mt_promise, 6, 8, 2, 2, 0) {
	asyncpp::promise<int> p;
	hc::threads th;
	bool rej = mc::flip("reject");
	int data = 0;
	th.add([&, p]() mutable { data = 3; if (rej) p.reject(std::make_exception_ptr(hc::exn{2})); else p.fulfill(4); });
	auto f = as_promise([](asyncpp::promise<int> p) -> task<int> { co_return co_await p; }(p));
	try { int v = f.get(); CHECK(v == 4 && !rej); } catch (hc::exn& e) { CHECK(e.v == 2 && rej); }
	CHECK(data == 3);
	th.join();
	mc::outcome("ok");
}
MC_SCENARIO(mt_pool, 4, 5, 1, 1, 0) {
	int data = 0;
	{
		thread_pool pool(1);
		auto f = as_promise([](thread_pool& p, int& data) -> task<int> { co_await defer{p}; data = 1; co_return 6; }(pool, data));
		CHECK(f.get() == 6 && data == 1);
	}
	mc::outcome("ok");
}

// async_main: runs the task on a dispatcher, returns its value or rethrows its exception
static struct {
	int argc; const char** argv;
	int mode; // 0 return, 1 throw
	int how; // 0 inline, 1 wakes on the dispatcher by another thread, 2 finishes on another thread, 3 deferral to itself
	mc::counter* runs; mc::counter* after; mc::counter* locals;
	single_consumer_event* ev;
} am;
task<int> async_main(int argc, const char** argv) {
	mc::tracked l(am.locals);
	am.runs->inc();
	CHECK(argc == am.argc && argv == am.argv);
	auto disp = dispatcher::current();
	CHECKM(disp, "async_main does not run on a dispatcher");
	int t = mc::tid();
	if (am.how == 1) { co_await *am.ev; CHECKM(mc::tid() == t && dispatcher::current() == disp, "resumed on another thread"); }
	if (am.how == 2) co_await am.ev->wait();
	if (am.how == 3) { co_await defer{disp}; CHECK(mc::tid() == t); }
	if (am.mode == 1) throw hc::exn{1};
	co_return 17;
}
MC_SCENARIO(main_function, 6, 10, 1, 2, 0) {
	const char* args[] = {"a", "b", nullptr};
	mc::counter runs, after, locals;
	single_consumer_event ev;
	am = {2, args, mc::choose(2), mc::choose(4), &runs, &after, &locals, &ev};
	hc::threads th;
	if (am.how == 1 || am.how == 2) th.add([&] { ev.set(); });
	bool threw = false;
	try {
		int r = asyncpp_async_main(2, args);
		CHECKM(r == 17, "wrong result");
	} catch (hc::exn& e) { threw = true; CHECK(e.v == 1); }
	CHECKM(threw == (am.mode == 1), "exception lost");
	CHECKM(runs.get() == 1 && locals.get() == 0, "async_main did not run to the end");
	CHECK(dispatcher::current() == nullptr);
	th.join();
	mc::outcome("how=%d", am.how);
}
