// C28: failing operations, everything but the channel and the queues
#include "faults.h"
#include <asyncpp/async_generator.h>
#include <asyncpp/defer.h>
#include <asyncpp/fiber.h>
#include <asyncpp/fire_and_forget.h>
#include <asyncpp/generator.h>
#include <asyncpp/launch.h>
#include <asyncpp/promise.h>
#include <asyncpp/ref.h>
#include <asyncpp/signal.h>
#include <asyncpp/simple_dispatcher.h>
#include <asyncpp/stop_token.h>
#include <asyncpp/sync_wait.h>
#include <asyncpp/task.h>
#include <asyncpp/thread_pool.h>
#include <asyncpp/timer.h>
using namespace asyncpp;
using hc::cfval;
using hc::fault;
using hc::fval;
using hc::plan;

namespace {
	// Callable that is too big to be stored in place, copying it may fail
	struct callable {
		mc::counter* called;
		cfval v;
		long pad[4]{};
		explicit callable(mc::counter* c) : called(c), v(1, std::nothrow) {}
		callable(callable&&) = default;
		callable(const callable&) = default;
		template<class... A> void operator()(A&&...) const { called->inc(); }
	};
	struct world : hc::fault_world {
		bool threw = false;
		~world() { mc::outcome("threw=%d", threw); }
	};
}

// ---- promise -------------------------------------------------------------------------------------------------------
MC_SCENARIO(promise_observe, 0, 0, 0, 0, 0) {
	world w;
	{
		std::optional<promise<int>> p;
		w.threw = w.fails(plan(0, 2), [&] { p.emplace(); });
		if (!p) p.emplace(); // works the next time
		mc::counter before, ok, bad, after;
		p->on_settle(callable(&before));
		int kind = mc::choose(5, "observer");
		plan pl(6, 6);
		bool threw = w.fails(pl, [&] {
			switch (kind) {
			case 0: p->on_settle(callable(&ok)); break;
			case 1: p->then(callable(&ok), callable(&bad)); break;
			case 2: p->then(callable(&ok), nullptr); break;
			case 3: p->then(nullptr, callable(&bad)); break;
			case 4: p->then(callable(&ok), callable(&bad)); break;
			}
		});
		w.threw |= threw;
		p->on_settle(callable(&after));
		bool reject = mc::flip("reject");
		if (reject) p->reject<hc::exn>(1);
		else p->fulfill(7);
		CHECK(before.get() == 1 && after.get() == 1);
		if (threw) CHECKM(ok.get() == 0 && bad.get() == 0, "an observer was called although registering it failed");
		else switch (kind) {
		case 0: CHECK(ok.get() == 1); break;
		case 1: case 4: CHECK(ok.get() == !reject && bad.get() == reject); break;
		case 2: CHECK(ok.get() == !reject); break;
		case 3: CHECK(bad.get() == reject); break;
		}
	}
	CHECKM(w.live.get() == 0, "%d callables leaked", w.live.get());
}
// a settle attempt that fails changes nothing
MC_SCENARIO(promise_settle, 0, 0, 0, 0, 0) {
	world w;
	{
		promise<cfval> p;
		mc::counter settled, ok, bad, resumed;
		p.on_settle(callable(&settled));
		p.then([&](const cfval& v) { CHECK(v.v == 5); ok.inc(); }, callable(&bad));
		[](promise<cfval>& p, mc::counter& resumed) -> hc::co { auto& r = co_await p; CHECK(r.v == 5); resumed.inc(); }(p, resumed);
		int kind = mc::choose(3, "kind");
		cfval v(5, std::nothrow);
		plan pl(3, 3);
		auto settle = [&] {
			if (kind == 0) p.fulfill(v);
			else if (kind == 1) p.fulfill(std::move(v));
			else CHECK(p.try_fulfill(v));
		};
		if ((w.threw = w.fails(pl, settle))) {
			CHECK(p.is_pending() && !p.is_fulfilled() && !p.is_rejected());
			CHECK(!p.try_get());
			CHECK(settled.get() == 0 && ok.get() == 0 && bad.get() == 0 && resumed.get() == 0);
			settle();
		}
		CHECK(p.is_fulfilled());
		CHECK(settled.get() == 1 && ok.get() == 1 && bad.get() == 0 && resumed.get() == 1);
		CHECK(p.get().v == 5);
	}
	CHECKM(w.live.get() == 0, "%d objects leaked", w.live.get());
}
// somebody else settles the promise while an attempt fails
MC_SCENARIO(promise_settle_mt, 4, 8, 0, 1, 0) {
	world w;
	{
		promise<cfval> p;
		mc::counter ok, wins;
		p.then([&](const cfval& v) { CHECK(v.v == 5 || v.v == 6); ok.inc(); }, [](const std::exception_ptr&) { CHECK(false); });
		bool waiter = mc::flip("waiter");
		plan pl(1, 0);
		mc::assume(pl.kind != fault::NONE);
		hc::threads th;
		th.add([&] { cfval v(6, std::nothrow); if (p.try_fulfill(v)) wins.inc(); });
		if (waiter) th.add([&] { CHECK(p.get().v == 6); });
		cfval v(5, std::nothrow);
		bool mine = false;
		w.threw = w.fails(pl, [&] { mine = p.try_fulfill(v); });
		CHECK(!mine); // either it failed, or the other one was first
		th.join();
		CHECK(wins.get() == 1 && ok.get() == 1 && p.get().v == 6);
	}
	CHECKM(w.live.get() == 0, "%d objects leaked", w.live.get());
}
// combinators: whatever fails, the inputs remain usable
MC_SCENARIO(promise_combine, 0, 0, 0, 0, 0) {
	world w;
	{
		promise<int> a, b;
		mc::counter settled;
		a.on_settle(callable(&settled));
		if (mc::flip("a settled")) a.fulfill(1);
		std::optional<promise<int>> r;
		std::optional<promise<void>> all;
		int kind = mc::choose(3, "kind");
		w.threw = w.fails(plan(0, 12), [&] {
			if (kind == 0) r.emplace(promise_first<int>(a, b));
			else if (kind == 1) r.emplace(promise_first_successful<int>(a, b));
			else all.emplace(promise_all(a, b));
		});
		bool order = mc::flip("order");
		if (order) b.try_fulfill(2);
		a.try_fulfill(1);
		b.try_fulfill(2);
		CHECK(settled.get() == 1);
		if (!w.threw) {
			if (all) CHECK(all->is_fulfilled());
			else CHECK(r->is_fulfilled());
		}
	}
}

// ---- signal --------------------------------------------------------------------------------------------------------
template<class S> static void connect() {
	world w;
	{
		S s;
		mc::counter first, second, third;
		auto h = s.append(callable(&first));
		bool pre = mc::flip("prepend");
		signal_handle h2;
		callable c(&second);
		w.threw = w.fails(plan(2, 3), [&] { h2 = pre ? s.prepend(c) : s.append(c); });
		CHECK(s.size() == (w.threw ? 1u : 2u));
		CHECK(h2.valid() == !w.threw);
		auto h3 = pre ? s.append(callable(&third)) : s.prepend(callable(&third));
		CHECK(s(1) == (w.threw ? 2u : 3u));
		CHECK(first.get() == 1 && second.get() == !w.threw && third.get() == 1);
		CHECK(s.remove(h) && s.remove(h3) && s.size() == !w.threw);
	}
	CHECKM(w.live.get() == 0, "%d handlers leaked", w.live.get());
}
MC_SCENARIO(signal_connect_st, 0, 0, 0, 0, 0) { connect<signal_st<void(int)>>(); }
MC_SCENARIO(signal_connect_mt, 0, 0, 0, 0, 0) { connect<signal_mt<void(int)>>(); }
// a handler that throws leaves a signal that works
template<class S> static void invoke() {
	world w;
	{
		S s;
		mc::counter called[4];
		bool active = true;
		int thrower = mc::choose(4, "thrower"), n = 4;
		signal_handle h[4];
		bool off = mc::flip("disconnect");
		int victim = off ? mc::choose(4, "victim") : -1;
		int how = off ? mc::choose(2, "how") : 0;
		for (int i = 0; i < n; i++)
			h[i] = s.append([&, i](int) {
				called[i].inc();
				if (active && i == thrower) {
					if (off) { if (how) h[victim].disconnect(); else s.remove(h[victim]); }
					throw hc::exn{3};
				}
			});
		try { s(1); CHECK(false); } catch (const hc::exn& e) { CHECK(e.v == 3); }
		for (int i = 0; i < n; i++) CHECKM(called[i].get() == (i <= thrower), "handler %d called %d times", i, called[i].get());
		active = false;
		CHECK(s.size() == (off ? 3u : 4u));
		CHECK(s(2) == (off ? 3u : 4u));
		for (int i = 0; i < n; i++) CHECKM(called[i].get() == (i <= thrower) + (i != victim), "handler %d called %d times", i, called[i].get());
		w.threw = true;
	}
}
MC_SCENARIO(signal_throws_st, 0, 0, 0, 0, 0) { invoke<signal_st<void(int)>>(); }
MC_SCENARIO(signal_throws_mt, 0, 0, 0, 0, 0) { invoke<signal_mt<void(int)>>(); }
MC_SCENARIO(signal_manager_connect, 0, 0, 0, 0, 0) {
	world w;
	{
		signal_manager<int, void(int)> m;
		mc::counter first, second;
		auto h = m.append(1, callable(&first));
		int event = mc::choose(2, "event");
		signal_handle h2;
		int op = mc::choose(3, "op");
		if (op == 2) h.disconnect();
		w.threw = w.fails(plan(2, 8), [&] {
			if (op == 0) h2 = m.append(event, callable(&second));
			else if (op == 1) h2 = m.prepend(event, callable(&second));
			else m.shrink_to_fit();
		});
		bool expect = !w.threw && op < 2;
		CHECK(m.invoke(event, 1) == (size_t)(expect + (event == 1 && op < 2)));
		CHECK(second.get() == expect && first.get() == (event == 1 && op < 2));
		auto h3 = m.append(event, callable(&second));
		CHECK(m.owns_handle(event, h3));
		CHECK(m.invoke(event, 1) == (size_t)(expect + (event == 1 && op < 2)) + 1);
	}
	CHECKM(w.live.get() == 0, "%d handlers leaked", w.live.get());
}

// ---- dispatchers ---------------------------------------------------------------------------------------------------
MC_SCENARIO(pool_create, 1, 2, 0, 0, 0) {
	world w;
	plan pl(0, 10, 3);
	int n = 1 + mc::choose(2, "size");
	mc::counter ran;
	w.threw = w.fails(pl, [&] {
		thread_pool p(n);
		w.f.disarm();
		CHECK(p.size() == (size_t)n);
		p.push([&] { ran.inc(); });
	});
	CHECK(ran.get() == !w.threw);
}
static void pool_grow(bool busy) {
	world w;
	mc::counter ran;
	{
		int before = mc::choose(2, "before"), after = before + 1 + mc::choose(2, "more");
		if (busy) mc::assume(before > 0);
		plan pl(0, busy ? 4 : 6, 2);
		thread_pool p(before);
		int pushed = 0;
		hc::threads th;
		if (busy) th.add([&] { p.push([&] { ran.inc(); }); }), pushed++;
		w.threw = w.fails(pl, [&] { p.resize(after); });
		CHECKM(p.size() == (size_t)(w.threw ? before : after), "%zu threads after resizing from %d to %d (failed: %d)", p.size(), before, after, w.threw);
		if (p.size()) p.push([&] { ran.inc(); }), pushed++;
		if (!busy) {
			if (mc::flip("retry")) { p.resize(after); CHECK(p.size() == (size_t)after); p.push([&] { ran.inc(); }); pushed++; }
			else if (mc::flip("shrink")) p.resize(0);
		}
		th.join();
		w.live.set(pushed);
	}
	CHECKM(ran.get() == w.live.get(), "%d of %d tasks executed", ran.get(), w.live.get());
}
MC_SCENARIO(pool_grow, 0, 1, 0, 0, 0) { pool_grow(false); }
MC_SCENARIO(pool_grow_busy, 1, 2, 0, 0, 0) { pool_grow(true); }
MC_SCENARIO(pool_push, 1, 2, 0, 0, 0) {
	world w;
	mc::counter first, second, third;
	{
		thread_pool p(1);
		p.push(callable(&first));
		bool inside = mc::flip("from a task");
		// containers that allocate only every now and then
		if (int before = mc::choose(4, "earlier tasks")) {
			std::promise<void> done;
			p.push([&] { for (int i = 0; i < before + 11; i++) p.push([] {}); p.push([&] { done.set_value(); }); });
			done.get_future().wait();
		}
		plan pl(4, 4);
		if (inside) {
			p.push([&] {
				// A pool that is being destroyed takes no more tasks
				try { w.threw = w.fails(pl, [&] { p.push(callable(&second)); }); } catch (const std::runtime_error&) { w.threw = true; }
			});
		} else w.threw = w.fails(pl, [&] { p.push(callable(&second)); });
		p.push(callable(&third));
	}
	CHECK(first.get() == 1 && third.get() == 1 && second.get() == !w.threw);
	CHECKM(w.live.get() == 0, "%d callables leaked", w.live.get());
}
MC_SCENARIO(simple_push, 1, 2, 0, 0, 0) {
	world w;
	mc::counter first, second, third;
	{
		simple_dispatcher d;
		d.push(callable(&first));
		// containers that allocate only every now and then
		if (int before = mc::choose(4, "earlier callbacks"))
			for (int i = 0; i < before + 12; i++) d.push([] {});
		plan pl(4, 4);
		w.threw = w.fails(pl, [&] { d.push(callable(&second)); });
		d.push([&] { third.inc(); d.stop(); });
		d.run();
	}
	CHECK(first.get() == 1 && third.get() == 1 && second.get() == !w.threw);
	CHECKM(w.live.get() == 0, "%d callables leaked", w.live.get());
}
MC_SCENARIO(timer_schedule, 1, 2, 0, 0, 0) {
	world w;
	mc::counter first, second, third, stopped;
	bool late_stop = false;
	{
		stop_source src;
		stop_callback cb(src.get_token(), [&] { stopped.inc(); });
		int op = mc::choose(5, "op");
		bool stop = op >= 2 && mc::flip("stop first");
		if (stop) src.request_stop();
		plan pl(op == 4 ? 0 : 3, 5, op == 4);
		std::optional<timer> t;
		if (op == 4) {
			w.threw = w.fails(pl, [&] { t.emplace(); });
			if (!t) t.emplace();
		} else t.emplace();
		auto soon = std::chrono::steady_clock::now() + std::chrono::milliseconds(10);
		t->schedule(callable(&first), soon);
		// containers that allocate only every now and then
		if (int before = op == 0 ? mc::choose(4, "earlier callbacks") : 0)
			for (int i = 0; i < before + 12; i++) t->push([] {});
		if (op != 4) w.threw = w.fails(pl, [&] {
			if (op == 0) t->push(callable(&second));
			else if (op == 1) t->schedule(callable(&second), soon);
			else t->schedule(callable(&second), soon, src.get_token());
		});
		// cancelling something that was never scheduled
		late_stop = mc::flip("stop later");
		if (late_stop) src.request_stop();
		t->push(callable(&third));
		if (op == 4) second.inc(), w.threw = false;
	}
	CHECK(first.get() == 1 && third.get() == 1);
	CHECKM(second.get() == !w.threw, "failed=%d, but called %d times", w.threw, second.get());
	CHECKM(w.live.get() == 0, "%d callables leaked", w.live.get());
}
// coroutines waiting for a time learn about the failure
MC_SCENARIO(timer_wait, 1, 2, 0, 0, 0) {
	world w;
	mc::counter done, failed, stopped;
	{
		timer t;
		stop_source src;
		bool token = mc::flip("token");
		plan pl(0, 5);
		auto body = [&](bool token) -> hc::co {
			auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(1);
			try {
				bool r;
				if (token) r = co_await t.wait(until, src.get_token());
				else r = co_await t.wait(until);
				if (r) done.inc(); else stopped.inc();
			} catch (const std::bad_alloc&) { failed.inc(); }
		};
		w.threw = w.fails(pl, [&] { body(token); });
		if (failed.get()) w.threw = true;
		if (mc::flip("stop")) src.request_stop();
	}
	if (failed.get()) CHECK(done.get() + stopped.get() == 0 && failed.get() == 1);
	else CHECKM(done.get() + stopped.get() == !w.threw, "resumed %d times, failed: %d", done.get() + stopped.get(), w.threw);
}
// a dispatcher that refuses to take a coroutine
MC_SCENARIO(defer_refused, 0, 0, 0, 0, 0) {
	struct refusing : dispatcher {
		hc::manual_dispatcher d;
		bool refuse;
		explicit refusing(bool r) : refuse(r) {}
		void push(std::function<void()> fn) override { if (refuse) throw std::runtime_error("full"); d.push(std::move(fn)); }
	};
	int kind = mc::choose(2, "kind");
	bool refuse = mc::flip("refuse");
	int state = 0;
	auto body = [&](dispatcher* d) -> hc::co {
		try { co_await defer(d); state += 1; } catch (const std::runtime_error&) { state += 10; }
	};
	if (kind == 0) {
		refusing d(refuse);
		body(&d);
		CHECK(state == (refuse ? 10 : 0));
		CHECK(d.d.run_all() == !refuse);
	} else {
		thread_pool p(refuse ? 0 : 1);
		body(&p);
		if (refuse) CHECK(state == 10);
	}
	CHECKM(state == (refuse ? 10 : 1), "coroutine in state %d", state);
	mc::outcome("refused=%d", refuse);
}

// ---- coroutines ----------------------------------------------------------------------------------------------------
namespace {
	struct aw_value { // awaitable that owns a value
		cfval v;
		mc::counter* n;
		aw_value(int x, mc::counter* n) : v(x, std::nothrow), n(n) {}
		bool await_ready() const noexcept { return true; }
		void await_suspend(coroutine_handle<>) const noexcept {}
		int await_resume() const noexcept { n->inc(); return v.v; }
	};
	task<int> t_task(cfval v) { co_return v.v; }
	generator<int> t_gen(cfval v) { co_yield v.v; }
	async_generator<int> t_agen(cfval v) { co_yield v.v; }
	fire_and_forget_task<> t_ff(cfval v, mc::counter* n) { n->inc(); co_return; }
	eager_fire_and_forget_task<> t_eff(cfval v, mc::counter* n) { n->inc(); co_return; }
}
// creating a coroutine: frame or parameters fail
MC_SCENARIO(coroutine_create, 0, 0, 0, 0, 0) {
	world w;
	mc::counter ran;
	{
		cfval v(4, std::nothrow);
		int kind = mc::choose(6, "kind");
		auto make = [&] {
			switch (kind) {
			case 0: {
				auto t = t_task(v);
				w.f.disarm();
				[](task<int>& t, mc::counter& ran) -> hc::co { CHECK(co_await t == 4); ran.inc(); }(t, ran);
				break;
			}
			case 1: { auto g = t_gen(v); w.f.disarm(); for (int x : g) { CHECK(x == 4); ran.inc(); } break; }
			case 2: {
				auto g = t_agen(v);
				w.f.disarm();
				[](async_generator<int>& g, mc::counter& ran) -> hc::co { auto it = co_await g.begin(); CHECK(*it == 4); ran.inc(); co_await ++it; CHECK(it == g.end()); }(g, ran);
				break;
			}
			case 3: { auto f = t_ff(v, &ran); w.f.disarm(); f.start(); break; }
			case 4: t_eff(v, &ran); break;
			case 5: launch(aw_value(4, &ran)); break;
			}
		};
		w.threw = w.fails(plan(4, 4), make);
		CHECK(ran.get() == !w.threw);
		CHECKM(w.live.get() == 1, "%d values leaked", w.live.get() - 1);
		make();
		CHECK(ran.get() == !w.threw + 1);
	}
	CHECK(w.live.get() == 0);
}
MC_SCENARIO(launch_scope, 0, 0, 0, 0, 0) {
	world w;
	mc::counter ran, joined;
	{
		async_launch_scope scope;
		coroutine_handle<> parked;
		struct park { coroutine_handle<>& h; bool await_ready() { return false; } void await_suspend(coroutine_handle<> c) { h = c; } void await_resume() {} };
		if (mc::flip("busy")) scope.launch(park{parked});
		size_t before = scope.inflight_coroutines();
		int kind = mc::choose(3, "kind");
		auto op = [&] {
			if (kind == 0) scope.launch(aw_value(4, &ran));
			else if (kind == 1) scope.invoke([&ran](cfval v) { return aw_value(v.v, &ran); }, cfval(3, std::nothrow));
			else scope.invoke_tuple([&ran](int v) { return aw_value(v, &ran); }, std::tuple<int>(3));
		};
		// Only the creation of the task may fail, an exception inside of it terminates by contract
		plan pl(kind == 1 ? 0 : 1, 1);
		w.threw = w.fails(pl, op);
		CHECKM(scope.inflight_coroutines() == before, "%zu tasks are active, expected %zu", scope.inflight_coroutines(), before);
		CHECK(ran.get() == !w.threw);
		[](async_launch_scope& s, mc::counter& joined) -> hc::co { co_await s.join(); joined.inc(); }(scope, joined);
		CHECK(joined.get() == (before == 0));
		if (parked) parked.resume();
		CHECK(joined.get() == 1);
	}
	CHECKM(w.live.get() == 0, "%d values leaked", w.live.get());
}
MC_SCENARIO(bridge, 0, 0, 0, 0, 0) {
	world w;
	mc::counter ran;
	{
		std::future<int> f;
		w.threw = w.fails(plan(2, 5), [&] { f = as_promise(aw_value(4, &ran)); });
		CHECK(ran.get() == !w.threw && f.valid() == !w.threw);
		if (f.valid()) CHECK(f.get() == 4);
	}
	CHECKM(w.live.get() == 0, "%d values leaked", w.live.get());
}
MC_SCENARIO(fiber_create, 0, 0, 0, 0, 0) {
	world w;
	mc::counter ran;
	{
		cfval v(4, std::nothrow);
		auto fn = [v, &ran]() { ran.inc(); return v.v; };
		bool lvalue = mc::flip("lvalue"), big = mc::flip("huge stack");
		std::optional<fiber<int>> f;
		w.threw = w.fails(plan(3, 4), [&] {
			size_t size = big ? size_t{1} << 46 : 65536;
			if (lvalue) f.emplace(fn, size);
			else f.emplace([v, &ran] { ran.inc(); return v.v; }, size);
		});
		CHECK(f.has_value() == !w.threw);
		if (big) CHECK(w.threw);
		if (f) [](fiber<int>& f) -> hc::co { CHECK(co_await f == 4); }(*f);
		CHECK(ran.get() == !w.threw);
	}
	CHECKM(w.live.get() == 0, "%d values leaked", w.live.get());
}

// ---- the rest ------------------------------------------------------------------------------------------------------
namespace {
	struct counted : intrusive_refcount<counted> {
		cfval v;
		explicit counted(const cfval& x) : v(x) {}
	};
}
MC_SCENARIO(refs, 0, 0, 0, 0, 0) {
	world w;
	{
		cfval v(4, std::nothrow);
		ref<counted> r;
		w.threw = w.fails(plan(2, 2), [&] { r = make_ref<counted>(v); });
		CHECK(static_cast<bool>(r) == !w.threw);
		if (r) CHECK(r->v.v == 4);
	}
	CHECKM(w.live.get() == 0, "%d objects leaked", w.live.get());
}
// reference counting of the user that may refuse another reference
namespace {
	struct limited {
		std::atomic<int> refs{0};
		mc::tracked t;
		explicit limited(mc::counter* live) : t(live) {}
		friend void refcounted_add_ref(limited* p) { fault::hit(); p->refs++; }
		friend void refcounted_remove_ref(limited* p) noexcept { if (--p->refs == 0) delete p; }
	};
}
MC_SCENARIO(ref_refused, 0, 0, 0, 0, 0) {
	world w;
	{
		ref<limited> a(new limited(&w.live)), b(new limited(&w.live));
		atomic_ref<limited> at(a);
		int na = 2, nb = 1;
		auto check = [&] { CHECKM(a->refs.load() == na && b->refs.load() == nb, "%d and %d references", a->refs.load(), b->refs.load()); };
		check();
		ref<limited> x;
		std::optional<ref<limited>> o;
		std::optional<atomic_ref<limited>> o2;
		int op = mc::choose(9, "op");
		w.threw = w.fails(plan(1, 1), [&] {
			switch (op) {
			case 0: x = at.load(); na++; break;
			case 1: x = b; nb++; break;
			case 2: at = b; nb++; na--; break;
			case 3: at.store(b); nb++; na--; break;
			case 4: x = at.exchange(b); nb++; break;
			case 5: o.emplace(b); nb++; break;
			case 6: o2.emplace(b); nb++; break;
			case 7: x.reset(b.get()); nb++; break;
			default: (void)at->refs.load();
			}
		});
		check();
		CHECK(static_cast<bool>(x) == (!w.threw && (op == 0 || op == 1 || op == 4 || op == 7)));
		x.reset();
		bool same = !w.threw && op >= 2 && op <= 4;
		CHECK(at.load().get() == (same ? b.get() : a.get()));
		CHECK(at.exchange(ref<limited>()).get() == (same ? b.get() : a.get()));
		CHECK(!at);
	}
	CHECKM(w.live.get() == 0, "%d objects leaked", w.live.get());
}
MC_SCENARIO(ref_refused_mt, 3, 5, 0, 0, 0) {
	world w;
	{
		atomic_ref<limited> at{ref<limited>(new limited(&w.live))};
		hc::threads th;
		int op = mc::choose(2, "other");
		th.add([&] {
			if (op == 0) { auto r = at.load(); CHECK(r && r->refs.load() >= 1); }
			else { auto r = at.exchange(ref<limited>()); CHECK(r && r->refs.load() >= 1); }
		});
		ref<limited> r;
		w.threw = w.fails(plan(1, 0), [&] { r = at.load(); });
		th.join();
		if (w.threw) CHECK(!r);
		if (r) CHECK(r->refs.load() == (op == 0 ? 2 : 1));
	}
	CHECKM(w.live.get() == 0, "%d objects leaked", w.live.get());
}
MC_SCENARIO(stop_callbacks, 0, 0, 0, 0, 0) {
	world w;
	mc::counter first, second, third;
	{
		std::optional<stop_source> s;
		w.threw = w.fails(plan(0, 2), [&] { s.emplace(); });
		CHECK(s.has_value() == !w.threw);
		if (!s) s.emplace();
		bool early = mc::flip("stopped");
		if (early) s->request_stop();
		stop_callback<callable> a(s->get_token(), callable(&first));
		callable c(&second);
		std::optional<stop_callback<callable>> b;
		bool threw = w.fails(plan(2, 2), [&] { b.emplace(s->get_token(), c); });
		CHECK(b.has_value() == !threw);
		stop_callback<callable> d(s->get_token(), callable(&third));
		CHECK(s->request_stop() == !early);
		CHECK(first.get() == 1 && third.get() == 1 && second.get() == !threw);
		w.threw |= threw;
	}
	CHECKM(w.live.get() == 0, "%d callables leaked", w.live.get());
}
