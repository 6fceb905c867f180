// C16: where coroutines are resumed
#include "common.h"
#include <asyncpp/channel.h>
#include <asyncpp/defer.h>
#include <asyncpp/event.h>
#include <asyncpp/latch.h>
#include <asyncpp/queue.h>
#include <asyncpp/simple_dispatcher.h>
#include <asyncpp/thread_pool.h>
#include <asyncpp/timer.h>
using namespace asyncpp;
using hc::co;

// how the resume location is selected
enum sel { DEF, EXPLICIT, EXPLICIT_NULL };
static const char* sel_name[] = {"default", "explicit", "explicit null"};

// one waiting coroutine
struct waiter {
	sel how = DEF;
	dispatcher* target = nullptr; // for EXPLICIT
	mc::counter started, resumed;
	dispatcher* cur_at_suspend = nullptr;
	dispatcher* cur_at_resume = nullptr;
	int tid_at_resume = -1;
	void before() { started.inc(); cur_at_suspend = dispatcher::current(); }
	void after() {
		int n = resumed.inc();
		CHECKM(n == 1, "the coroutine was resumed %d times", n);
		cur_at_resume = dispatcher::current();
		tid_at_resume = mc::tid();
	}
	// the dispatcher selected by the waiter itself
	dispatcher* selected() const { return how == DEF ? cur_at_suspend : how == EXPLICIT ? target : nullptr; }
};

// adapters: one per way to suspend.  start(w) runs a coroutine which waits once.  wake(v, fallback) performs the v-th kind of wake up and
// reports if the fallback was applicable, ways: number of different ones
template<class E> struct event_adapter {
	static constexpr bool auto_reset = std::is_same_v<E, single_consumer_auto_reset_event> || std::is_same_v<E, multi_consumer_auto_reset_event>;
	static constexpr int max_waiters = std::is_same_v<E, multi_consumer_event> || std::is_same_v<E, multi_consumer_auto_reset_event> ? 2 : 1;
	static constexpr int ways = 1;
	static constexpr bool has_fallback = true, has_config = false;
	static constexpr bool wakes_all = true;
	E e;
	explicit event_adapter(dispatcher*) {}
	co start(waiter* w) {
		w->before();
		if (w->how == DEF) co_await e;
		else if (w->how == EXPLICIT) co_await e.wait(w->target);
		else if (mc::flip("spelling")) co_await e.wait(nullptr);
		else co_await e.wait();
		w->after();
	}
	void wake(int, dispatcher* fallback) { if (fallback) e.set(fallback); else e.set(); }
};
struct latch_adapter {
	static constexpr int max_waiters = 2, ways = 2;
	static constexpr bool has_fallback = false, has_config = false, wakes_all = true;
	latch l{2};
	explicit latch_adapter(dispatcher*) {}
	co start(waiter* w) {
		w->before();
		if (w->how == DEF) co_await l;
		else if (w->how == EXPLICIT) co_await l.wait(w->target);
		else co_await l.wait();
		w->after();
	}
	void wake(int v, dispatcher*) { if (v) l.decrement(2); else { l.decrement(); l.decrement(); } }
};
struct chan_read_adapter {
	static constexpr int max_waiters = 2, ways = 3;
	static constexpr bool has_fallback = false, has_config = false, wakes_all = false;
	channel<int> c;
	explicit chan_read_adapter(dispatcher*) {}
	~chan_read_adapter() { c.close(); }
	co start(waiter* w) {
		w->before();
		if (w->how == DEF) co_await c.read();
		else co_await c.read().resume_on(w->how == EXPLICIT ? w->target : nullptr);
		w->after();
	}
	static co write(channel<int>& c) { CHECK(co_await c.write(1)); }
	void wake(int v, dispatcher*) { if (v == 0) CHECK(c.try_write(1)); else if (v == 1) write(c); else c.close(); }
	static bool wakes_everyone(int v) { return v == 2; }
};
struct chan_write_adapter {
	static constexpr int max_waiters = 2, ways = 3;
	static constexpr bool has_fallback = false, has_config = false, wakes_all = false;
	channel<int> c;
	explicit chan_write_adapter(dispatcher*) {}
	~chan_write_adapter() { c.close(); }
	co start(waiter* w) {
		w->before();
		if (w->how == DEF) co_await c.write(7);
		else co_await c.write(7).resume_on(w->how == EXPLICIT ? w->target : nullptr);
		w->after();
	}
	static co read(channel<int>& c) { CHECK(co_await c.read() == 7); }
	void wake(int v, dispatcher*) { if (v == 0) CHECK(c.try_read() == 7); else if (v == 1) read(c); else c.close(); }
	static bool wakes_everyone(int v) { return v == 2; }
};
struct queue_pop_adapter {
	static constexpr int max_waiters = 2, ways = 4;
	static constexpr bool has_fallback = false, has_config = true, wakes_all = false;
	queue<int> q;
	explicit queue_pop_adapter(dispatcher* d) : q(1, d) {}
	co start(waiter* w) {
		w->before();
		if (w->how == DEF) co_await q.pop();
		else co_await q.pop().resume_on(w->how == EXPLICIT ? w->target : nullptr);
		w->after();
	}
	static co push(queue<int>& q) { co_await q.push(1); }
	void wake(int v, dispatcher*) {
		if (v == 0) CHECK(q.try_push(1));
		else if (v == 1) CHECK(q.try_emplace(1));
		else if (v == 2) push(q);
		else { queue<int> other; q = std::move(other); }
	}
	static bool wakes_everyone(int v) { return v == 3; }
};
struct queue_push_adapter {
	static constexpr int max_waiters = 2, ways = 4;
	static constexpr bool has_fallback = false, has_config = true, wakes_all = false;
	queue<int> q;
	explicit queue_push_adapter(dispatcher* d) : q(1, d) {}
	void prepare() { CHECK(q.try_push(0)); }
	co start(waiter* w) {
		w->before();
		if (w->how == DEF) co_await q.push(1);
		else co_await q.push(1).resume_on(w->how == EXPLICIT ? w->target : nullptr);
		w->after();
	}
	static co pop(queue<int>& q) { CHECK((co_await q.pop()).has_value()); }
	void wake(int v, dispatcher*) {
		if (v == 0) CHECK(q.try_pop().has_value());
		else if (v == 1) pop(q);
		else if (v == 2) q.clear();
		else { queue<int> other; q = std::move(other); }
	}
	static bool wakes_everyone(int v) { return v >= 2; }
};

// All combinations of: resume location selection x dispatcher current when suspending x dispatcher current when waking x fallback
// x configured default x way to wake x number of waiters
template<class A> void sequential() {
	hc::manual_dispatcher d_suspend, d_explicit, d_wake, d_fallback, d_config;
	hc::manual_dispatcher* all[] = {&d_suspend, &d_explicit, &d_wake, &d_fallback, &d_config};
	dispatcher* config = A::has_config && mc::flip("configured") ? &d_config : nullptr;
	A a(config);
	if constexpr (requires { a.prepare(); }) a.prepare();
	int nw = A::max_waiters == 1 ? 1 : 1 + mc::choose(A::max_waiters, "waiters");
	waiter w[2];
	int base[5] = {};
	auto run_on = [&](hc::manual_dispatcher* d, auto f) {
		if (!d) { f(); return; }
		d->push(f);
		CHECK(d->run_one());
	};
	for (int i = 0; i < nw; i++) {
		w[i].how = static_cast<sel>(mc::choose(3, "select"));
		w[i].target = &d_explicit;
		// An explicit "none" on a queue with a configured default is not specified
		if (config && w[i].how == EXPLICIT_NULL) mc::assume(false);
		bool on = mc::flip("suspend on dispatcher");
		run_on(on ? &d_suspend : nullptr, [&a, &w, i] { a.start(&w[i]); });
		CHECK(w[i].started.get() == 1);
		CHECKM(w[i].resumed.get() == 0, "the coroutine did not suspend");
		CHECK(w[i].cur_at_suspend == (on ? &d_suspend : nullptr));
	}
	CHECK(dispatcher::current() == nullptr);
	int way = mc::choose(A::ways, "way");
	hc::manual_dispatcher* wake_on = mc::flip("wake on dispatcher") ? &d_wake : nullptr;
	dispatcher* fallback = A::has_fallback && mc::flip("fallback") ? &d_fallback : nullptr;
	bool everyone = A::wakes_all;
	if constexpr (!A::wakes_all) everyone = A::wakes_everyone(way);
	int woken = 0;
	while (woken < nw) {
		int n = everyone ? nw : woken + 1;
		for (int k = 0; k < 5; k++) base[k] = all[k]->pushed.get();
		int expect[5] = {};
		bool resumed_in_wake[2] = {};
		run_on(wake_on, [&] {
			dispatcher* cur = dispatcher::current();
			a.wake(way, fallback);
			CHECKM(dispatcher::current() == cur, "the current dispatcher changed");
			for (int i = 0; i < nw; i++) resumed_in_wake[i] = w[i].resumed.get() == 1;
		});
		if (wake_on) base[2]++; // our own push
		for (int i = woken; i < nw; i++) {
			dispatcher* e = w[i].selected();
			if (!e) e = config;
			if (!e) e = fallback;
			if (i >= n) { CHECKM(!resumed_in_wake[i], "a coroutine was resumed that should still wait"); continue; }
			if (!e) {
				CHECKM(resumed_in_wake[i], "no dispatcher selected (%s), but the coroutine was not resumed inline", sel_name[w[i].how]);
				CHECKM(w[i].cur_at_resume == wake_on, "inline resumption with the wrong current dispatcher");
			} else {
				CHECKM(!resumed_in_wake[i], "the coroutine selected (%s) a dispatcher, but was resumed inline", sel_name[w[i].how]);
				for (int k = 0; k < 5; k++) if (e == all[k]) expect[k]++;
			}
		}
		for (int k = 0; k < 5; k++) {
			int got = all[k]->pushed.get() - base[k];
			CHECKM(got == expect[k], "%d resumptions pushed to dispatcher %d (0=current 1=explicit 2=waker's 3=fallback 4=configured), expected %d", got, k, expect[k]);
		}
		for (int k = 0; k < 5; k++) CHECKM(all[k]->run_all() == expect[k], "unexpected callable in a dispatcher");
		for (int i = woken; i < n; i++) {
			CHECKM(w[i].resumed.get() == 1, "the coroutine was not resumed");
			dispatcher* e = w[i].selected();
			if (!e) e = config;
			if (!e) e = fallback;
			if (e) CHECKM(w[i].cur_at_resume == e, "the coroutine runs on a different dispatcher than selected (%s)", sel_name[w[i].how]);
		}
		woken = n;
	}
	CHECK(dispatcher::current() == nullptr);
	mc::outcome("ok");
}
MC_SCENARIO(sc_event, 0, 0, 0, 0, 0) { sequential<event_adapter<single_consumer_event>>(); }
MC_SCENARIO(sc_auto_event, 0, 0, 0, 0, 0) { sequential<event_adapter<single_consumer_auto_reset_event>>(); }
MC_SCENARIO(mc_event, 0, 0, 0, 0, 0) { sequential<event_adapter<multi_consumer_event>>(); }
MC_SCENARIO(mc_auto_event, 0, 0, 0, 0, 0) { sequential<event_adapter<multi_consumer_auto_reset_event>>(); }
MC_SCENARIO(latch_wait, 0, 0, 0, 0, 0) { sequential<latch_adapter>(); }
MC_SCENARIO(channel_read, 0, 0, 0, 0, 0) { sequential<chan_read_adapter>(); }
MC_SCENARIO(channel_write, 0, 0, 0, 0, 0) { sequential<chan_write_adapter>(); }
MC_SCENARIO(queue_pop, 0, 0, 0, 0, 0) { sequential<queue_pop_adapter>(); }
MC_SCENARIO(queue_push, 0, 0, 0, 0, 0) { sequential<queue_push_adapter>(); }

// nothing to wait for: the coroutine continues right away, nothing is pushed anywhere
MC_SCENARIO(ready, 0, 0, 0, 0, 0) {
	hc::manual_dispatcher d_suspend, d_explicit, d_config;
	waiter w;
	w.how = static_cast<sel>(mc::choose(3, "select"));
	w.target = &d_explicit;
	bool on = mc::flip("on dispatcher"), config = mc::flip("configured");
	int kind = mc::choose(9);
	int pushes = 0;
	auto go = [&](auto start) {
		if (on) { d_suspend.push(start); pushes++; CHECK(d_suspend.run_one()); }
		else start();
		CHECKM(w.resumed.get() == 1, "the operation could complete, but the coroutine suspended");
		CHECKM(w.cur_at_resume == w.cur_at_suspend, "the current dispatcher changed");
		CHECKM(d_suspend.pushed.get() == pushes && d_explicit.pushed.get() == 0 && d_config.pushed.get() == 0, "a resumption was pushed though nothing suspended");
	};
	auto ev = [&](auto a) { a->wake(0, nullptr); go([&] { a->start(&w); }); };
	if (kind == 0) ev(std::make_unique<event_adapter<single_consumer_event>>(nullptr));
	if (kind == 1) ev(std::make_unique<event_adapter<single_consumer_auto_reset_event>>(nullptr));
	if (kind == 2) ev(std::make_unique<event_adapter<multi_consumer_event>>(nullptr));
	if (kind == 3) ev(std::make_unique<event_adapter<multi_consumer_auto_reset_event>>(nullptr));
	if (kind == 4) ev(std::make_unique<latch_adapter>(nullptr));
	if (kind == 5) { // a writer waits
		chan_read_adapter a(nullptr);
		waiter o; o.how = EXPLICIT_NULL;
		chan_write_adapter* p = nullptr; (void)p;
		auto wr = [](channel<int>& c, waiter* o) -> co { o->before(); CHECK(co_await c.write(3).resume_on(nullptr)); o->after(); };
		wr(a.c, &o);
		CHECK(o.resumed.get() == 0);
		go([&] { a.start(&w); });
		CHECK(o.resumed.get() == 1 && o.cur_at_resume == (on ? &d_suspend : nullptr));
	}
	if (kind == 6) { // a reader waits
		chan_write_adapter a(nullptr);
		waiter o;
		auto rd = [](channel<int>& c, waiter* o) -> co { o->before(); CHECK(co_await c.read().resume_on(nullptr) == 7); o->after(); };
		rd(a.c, &o);
		CHECK(o.resumed.get() == 0);
		go([&] { a.start(&w); });
		CHECK(o.resumed.get() == 1);
	}
	if (kind == 7) {
		queue_pop_adapter a(config ? &d_config : nullptr);
		CHECK(a.q.try_push(1));
		go([&] { a.start(&w); });
	}
	if (kind == 8) {
		queue_push_adapter a(config ? &d_config : nullptr);
		go([&] { a.start(&w); });
	}
	mc::outcome("ok");
}

// defer: sequences of hops between dispatchers, nullptr does not suspend
MC_SCENARIO(defer_hops, 0, 0, 0, 0, 0) {
	hc::manual_dispatcher d[2];
	mc::counter step;
	int target[4], n = mc::thorough() ? 4 : 3;
	dispatcher* seen[5];
	for (int i = 0; i < n; i++) target[i] = mc::choose(3); // 2: none
	bool on = mc::flip("start on dispatcher");
	auto body = [&]() -> co {
		for (int i = 0; i < n; i++) {
			dispatcher* t = target[i] == 2 ? nullptr : &d[target[i]];
			if (!t) co_await defer<dispatcher>{nullptr};
			else if (i & 1) co_await defer{*t};
			else co_await defer{&d[target[i]]};
			seen[i] = dispatcher::current();
			step.inc();
		}
	};
	int pushes[2] = {};
	dispatcher* where = nullptr;
	if (on) { d[0].push([&] { body(); }); pushes[0]++; d[0].run_one(); where = &d[0]; }
	else body();
	int done = 0;
	while (true) {
		while (done < n && target[done] == 2) {
			CHECKM(step.get() > done, "deferring to no dispatcher suspended");
			CHECK(seen[done] == where);
			done++;
		}
		CHECKM(step.get() == done, "the coroutine did not suspend on defer");
		if (done == n) break;
		pushes[target[done]]++;
		for (int k = 0; k < 2; k++) CHECKM(d[k].pushed.get() == pushes[k], "wrong number of callables on dispatcher %d", k);
		CHECK(!d[1 - target[done]].run_one());
		CHECK(d[target[done]].run_one());
		CHECKM(step.get() > done, "the coroutine was not resumed");
		CHECKM(seen[done] == &d[target[done]], "the coroutine runs on a different dispatcher");
		where = &d[target[done]];
		done++;
	}
	for (int k = 0; k < 2; k++) CHECK(!d[k].run_one());
	mc::outcome("ok");
}

// A coroutine that suspends several times while running on real dispatchers, woken up by the main thread
template<class D1, class D2> struct hopping {
	D1& da;
	D2& db;
	std::function<void()> stop;
	bool same_thread;
	single_consumer_event e1{};
	single_consumer_auto_reset_event e2{};
	channel<int> c{};
	mc::counter done{};
	co body() {
		dispatcher* a = &da;
		dispatcher* b = &db;
		co_await defer{a};
		CHECKM(dispatcher::current() == a, "after defer: wrong dispatcher");
		int t = mc::tid();
		co_await e1; // default: the current one
		CHECKM(dispatcher::current() == a, "event: resumed on a different dispatcher");
		if (same_thread) CHECKM(mc::tid() == t, "event: resumed on a different thread");
		co_await e2.wait(b);
		// if the event was already set this continues in place
		auto* cur = dispatcher::current();
		CHECKM(cur == a || cur == b, "event: resumed on a different dispatcher");
		co_await defer{b};
		CHECKM(dispatcher::current() == b, "after defer: wrong dispatcher");
		auto v = co_await c.read();
		CHECKM(v == 5, "wrong value");
		CHECKM(dispatcher::current() == b, "channel: resumed on a different dispatcher");
		CHECKM(done.inc() == 1, "ran twice");
		stop();
	}
	static co write(channel<int>& c) { CHECK(co_await c.write(5).resume_on(nullptr)); }
	void run() {
		body();
		e1.set();
		e2.set();
		write(c);
	}
};
MC_SCENARIO(mt_simple_dispatchers, 3, 4, 1, 2, 0) {
	simple_dispatcher a, b;
	hc::threads th;
	hopping<simple_dispatcher, simple_dispatcher> h{a, b, [&] { a.stop(); b.stop(); }, true};
	th.add([&] { a.run(); CHECK(dispatcher::current() == nullptr); });
	th.add([&] { b.run(); CHECK(dispatcher::current() == nullptr); });
	h.run();
	th.join();
	CHECKM(h.done.get() == 1, "the coroutine did not finish");
}
MC_SCENARIO(mt_pool, 2, 3, 0, 1, 0) {
	simple_dispatcher b;
	hc::threads th;
	std::unique_ptr<hopping<thread_pool, simple_dispatcher>> h;
	{
		thread_pool pool(2);
		h.reset(new hopping<thread_pool, simple_dispatcher>{pool, b, [&] { b.stop(); }, false});
		h->run();
		b.run();
		CHECK(dispatcher::current() == nullptr);
	}
	CHECKM(h->done.get() == 1, "the coroutine did not finish");
}
MC_SCENARIO(mt_timer, 3, 4, 1, 2, 0) {
	simple_dispatcher b;
	std::unique_ptr<hopping<timer, simple_dispatcher>> h;
	{
		timer t;
		h.reset(new hopping<timer, simple_dispatcher>{t, b, [&] { b.stop(); }, true});
		h->run();
		b.run();
	}
	CHECKM(h->done.get() == 1, "the coroutine did not finish");
}

// nested loops of dispatchers restore the outer one, also if a callable throws
MC_SCENARIO(nested, 0, 0, 0, 0, 0) {
	int depth = 1 + mc::choose(4);
	int thrower = mc::choose(5); // level that throws, 4: none
	simple_dispatcher d[4];
	mc::counter ran;
	std::function<void(int)> enter = [&](int i) {
		if (i == depth) return;
		d[i].push([&, i] {
			CHECKM(dispatcher::current() == &d[i], "wrong current dispatcher inside a callable");
			try { enter(i + 1); } catch (hc::exn& e) { CHECK(e.v == i + 1); }
			CHECKM(dispatcher::current() == &d[i], "nested loop did not restore the current dispatcher");
			ran.inc();
			d[i].stop();
			if (thrower == i) throw hc::exn{i};
		});
		if (mc::flip("extra")) d[i].push([] { mc::check(false, "ran after stop"); });
		d[i].run();
	};
	bool threw = false;
	try { enter(0); } catch (hc::exn& e) { threw = true; CHECK(e.v == 0); }
	CHECK(threw == (thrower == 0));
	CHECKM(dispatcher::current() == nullptr, "the loop did not restore the current dispatcher");
	CHECK(ran.get() == depth);
	// a different kind in between
	hc::manual_dispatcher m;
	simple_dispatcher s;
	m.push([&] { s.push([&] { CHECK(dispatcher::current() == &s); m.run_one(); CHECK(dispatcher::current() == &s); s.stop(); }); s.run(); CHECKM(dispatcher::current() == &m, "not restored"); });
	m.push([&] { CHECK(dispatcher::current() == &m); });
	m.run_all();
	CHECK(dispatcher::current() == nullptr);
	mc::outcome("ok");
}
// waking and suspending race: the coroutine either never suspends or resumes through the dispatcher, exactly once
template<class A> void race() {
	simple_dispatcher d;
	A a(nullptr);
	if constexpr (requires { a.prepare(); }) a.prepare();
	waiter w;
	w.how = static_cast<sel>(mc::choose(3, "select"));
	w.target = &d;
	int way = mc::choose(A::ways, "way");
	bool on = mc::flip("suspend on dispatcher");
	int main_tid = mc::tid();
	hc::threads th;
	int waker = -1;
	auto check = [&] {
		dispatcher* e = w.selected();
		if (!e) CHECKM(w.cur_at_resume == nullptr || w.tid_at_resume == main_tid, "resumed on a dispatcher that was not selected");
		else if (w.tid_at_resume == waker) CHECKM(false, "resumed inside the waking call although a dispatcher was selected");
	};
	mc::counter fin;
	if (on) d.push([&] { a.start(&w); });
	else a.start(&w);
	th.add([&] { waker = mc::tid(); a.wake(way, nullptr); fin.inc(); d.push([&] { d.stop(); }); });
	d.run();
	th.join();
	// if started on the dispatcher, waking may have happened before the start for ways that do not need a waiter
	CHECKM(w.resumed.get() == 1, "the coroutine was not resumed");
	check();
	mc::outcome("%d", w.tid_at_resume == waker);
}
MC_SCENARIO(race_sc_event, 4, 8, 2, 3, 0) { race<event_adapter<single_consumer_event>>(); }
MC_SCENARIO(race_sc_auto_event, 4, 8, 2, 3, 0) { race<event_adapter<single_consumer_auto_reset_event>>(); }
MC_SCENARIO(race_mc_event, 4, 8, 2, 3, 0) { race<event_adapter<multi_consumer_event>>(); }
MC_SCENARIO(race_mc_auto_event, 4, 8, 2, 3, 0) { race<event_adapter<multi_consumer_auto_reset_event>>(); }
MC_SCENARIO(race_latch, 4, 8, 2, 3, 0) { race<latch_adapter>(); }
