// C14: timer
#include "common.h"
#include <asyncpp/timer.h>
#include <asyncpp/stop_token.h>
using namespace asyncpp;
using namespace std::chrono_literals;
using tp = std::chrono::steady_clock::time_point;

static tp start() { return tp(std::chrono::nanoseconds(mc::now())); }
// Watches the callbacks
struct watch {
	static constexpr int MAX = 8;
	mc::counter calls[MAX], result[MAX], live;
	mc::log order;
	int data[MAX] = {};
	tp deadline[MAX];
	bool may_cancel[MAX] = {};
	mc::counter shutdown, cancelled[MAX];
	long long stopped[MAX] = {}; // when a cancellation of the callback was complete
	// cancel some callbacks
	void stop(stop_source& ss, std::initializer_list<int> ids) {
		ss.request_stop();
		mc::quiet q(this);
		for (int i : ids) stopped[i] = mc::now();
	}
	timer* t = nullptr;
	std::function<void(bool)> cb(int id, tp dl, std::function<void(bool)> body = {}) {
		deadline[id] = dl;
		data[id] = id + 1;
		return [this, id, body, tr = mc::tracked(&live)](bool ok) {
			CHECKM(mc::tid() != 0, "callback %d runs on the wrong thread", id);
			CHECKM(data[id] == id + 1, "callback does not see what was written before schedule");
			CHECKM(dispatcher::current() == t, "timer is not the current dispatcher in its callback");
			CHECKM(calls[id].get() == 0, "callback %d called twice", id);
			result[id].set(ok);
			if (ok) {
				CHECKM(std::chrono::steady_clock::now() >= deadline[id], "callback %d called too early", id);
				mc::quiet q(this);
				CHECKM(!stopped[id] || tp(std::chrono::nanoseconds(stopped[id])) >= deadline[id], "callback %d was cancelled before it expired, but got true", id);
			} else CHECKM(shutdown.get() || cancelled[id].get(), "callback %d reported cancellation", id);
			order.add(id);
			CHECKM(calls[id].inc() == 1, "callback %d called twice", id); // main waits for this
			if (body) body(ok);
		};
	}
	void once(int id) { CHECKM(calls[id].get() == 1, "callback %d was called %d times", id, calls[id].get()); }
	~watch() { CHECKM(live.get() == 0, "%d callables alive", live.get()); }
	// blocks until callback id was called (n: how often to poll)
	void wait(int id) { for (int i = 0; calls[id].get() == 0; i++) { CHECKM(i < 200, "callback %d was not called", id); std::this_thread::sleep_for(5ms); } }
};
static std::chrono::nanoseconds delays[] = {0ms, 10ms, 20ms, -5ms};
// one timer: schedule a few callbacks with all combinations of delays, wait for some, destroy
MC_SCENARIO(seq, 2, 3, 0, 0, 0) {
	watch w;
	int n = mc::choose(2) + 1;
	{
		timer t;
		w.t = &t;
		tp s = start();
		stop_source ss;
		for (int i = 0; i < n; i++) {
			auto d = delays[mc::choose(3)];
			switch (mc::choose(3)) {
			case 0: t.schedule(w.cb(i, s + d), s + d); break;
			case 1: t.schedule(w.cb(i, s + d), s + d, ss.get_token()); break;
			case 2: t.schedule(w.cb(i, s + d), d, ss.get_token()); break;
			}
		}
		if (mc::flip("wait")) for (int i = 0; i < n; i++) { w.wait(i); CHECK(w.result[i].get() == 1); }
		w.shutdown.set(1);
	}
	for (int i = 0; i < n; i++) w.once(i);
}
// order of due callbacks of one kind
static void order(bool cancellable, int n) {
	watch w;
	static const long long units[] = {10000000, 300000, 1};
	auto unit = units[mc::choose(3, "unit")];
	static const int mult[] = {0, 1, 2, -1};
	{
		timer t;
		w.t = &t;
		stop_source ss;
		tp s = start();
		tp dl[3];
		std::mutex m;
		std::condition_variable cv;
		bool go = false;
		// keep the timer thread busy until all are scheduled
		t.push([&] { std::unique_lock l{m}; while (!go) cv.wait(l); });
		for (int i = 0; i < n; i++) {
			dl[i] = s + std::chrono::nanoseconds(unit * mult[mc::choose(4)]);
			if (cancellable) t.schedule(w.cb(i, dl[i]), dl[i], ss.get_token());
			else t.schedule(w.cb(i, dl[i]), dl[i]);
		}
		{ std::lock_guard l{m}; go = true; cv.notify_all(); }
		for (int i = 0; i < n; i++) w.wait(i);
		for (int i = 0; i + 1 < n; i++) {
			int a = w.order.at(i), b = w.order.at(i + 1);
			CHECKM(dl[a] <= dl[b], "callbacks called in order %s", w.order.str());
		}
		w.shutdown.set(1);
	}
	for (int i = 0; i < n; i++) { w.once(i); CHECK(w.result[i].get() == 1); }
}
MC_SCENARIO(order_plain, 2, 3, 0, 0, 0) { order(false, 3); }
MC_SCENARIO(order_cancellable, 2, 3, 0, 0, 0) { order(true, 3); }
// cancellation before, while, after scheduling and around expiry and destruction
static void cancel(std::chrono::nanoseconds delay, bool before, bool late_destroy, bool second = false) {
	watch w;
	{
		stop_source ss;
		hc::threads th;
		{
			timer t;
			w.t = &t;
			tp s = start();
			w.cancelled[0].set(1); // it may be
			w.cancelled[1].set(1);
			if (before) w.stop(ss, {0, 1});
			else th.add([&] { w.stop(ss, {0, 1}); });
			if (second) t.schedule(w.cb(1, s + 10ms), s + 10ms, ss.get_token());
			t.schedule(w.cb(0, s + delay), s + delay, ss.get_token());
			if (late_destroy) { th.join(); w.wait(0); if (second) w.wait(1); }
			else w.shutdown.set(1);
		}
		w.once(0);
		if (second) w.once(1);
		if (before) CHECKM(w.result[0].get() == 0, "a callback cancelled before it was scheduled got true");
		th.join();
	}
	w.once(0);
}
MC_SCENARIO(cancel_before, 5, 7, 0, 0, 0) { cancel(mc::flip("due") ? 0ms : 10ms, true, mc::flip("wait")); }
MC_SCENARIO(cancel_far, 5, 7, 0, 0, 0) { cancel(1h, false, mc::flip("wait")); }
MC_SCENARIO(cancel_due, 5, 7, 0, 0, 0) { cancel(0ms, false, mc::flip("wait")); }
MC_SCENARIO(cancel_soon, 4, 5, 0, 0, 0) { cancel(10ms, false, mc::flip("wait")); }
MC_SCENARIO(cancel_two, 3, 5, 0, 0, 0) { cancel(20ms, false, mc::flip("wait"), true); }
MC_SCENARIO(cancel_weak, 3, 4, 2, 3, 0) { cancel(mc::flip("due") ? 0ms : 1h, false, mc::flip("wait")); }
// cancelling one entry does not touch the others, whether they have the same deadline or not
static void cancel_one_of(int n) {
	watch w;
	int pick = mc::choose(n, "cancel"), at = mc::choose(3, "at");
	bool all = mc::flip("then the others");
	std::vector<stop_source> ss(n);
	mc::counter done;
	{
		timer t;
		w.t = &t;
		tp s = start();
		for (int i = 0; i < n; i++) {
			auto d = mc::flip("later") ? 60ms : 50ms;
			t.schedule(w.cb(i, s + d), s + d, ss[i].get_token());
		}
		if (at == 1) std::this_thread::sleep_for(5ms); // timer thread sleeps
		w.cancelled[pick].set(1);
		if (at == 2) { // in the timer thread
			t.push([&] { w.stop(ss[pick], {pick}); done.set(1); });
			while (!done.get()) std::this_thread::sleep_for(1ms);
		} else w.stop(ss[pick], {pick});
		w.wait(pick);
		CHECKM(w.result[pick].get() == 0 || start() >= s + 50ms, "a cancelled callback got true");
		if (all) {
			for (int i = n; i-- > 0;)
				if (i != pick) { w.cancelled[i].set(1); w.stop(ss[i], {i}); }
		}
		for (int i = 0; i < n; i++) {
			w.wait(i);
			if (!all && i != pick) CHECKM(w.result[i].get() == 1, "callback %d was cancelled with %d", i, pick);
		}
		w.shutdown.set(1);
	}
	for (int i = 0; i < n; i++) w.once(i);
}
MC_SCENARIO(cancel_one_of_two, 2, 4, 0, 0, 0) { cancel_one_of(2); }
MC_SCENARIO(cancel_one_of_three, 0, 2, 0, 0, 0) { cancel_one_of(3); }
// a cancelled callback does not wait for its deadline, and is told
MC_SCENARIO(cancel_prompt, 4, 5, 0, 0, 0) {
	watch w;
	mc::counter late;
	{
		timer t;
		w.t = &t;
		stop_source ss;
		tp s = start();
		w.cancelled[0].set(1);
		t.schedule(w.cb(0, s + 1h, [&late, &w](bool) { mc::quiet q(&w); if (w.stopped[0] && mc::now() > w.stopped[0] + 1000000000) late.set(1); }), s + 1h, ss.get_token());
		if (mc::flip("idle")) std::this_thread::sleep_for(10ms);
		if (mc::flip("other")) t.schedule(w.cb(1, s + 30ms), s + 30ms, ss.get_token()), w.cancelled[1].set(1); else w.calls[1].inc();
		w.stop(ss, {0});
		w.wait(0);
		CHECK(w.result[0].get() == 0);
		w.wait(1);
		CHECKM(w.result[1].get() == 0 || std::chrono::steady_clock::now() >= s + 30ms, "wrong outcome");
		CHECKM(late.get() == 0, "the cancelled callback waited for its deadline");
	}
	w.once(0);
	w.once(1);
}
// cancellation requested by a timer callback, of itself or another entry
MC_SCENARIO(cancel_from_callback, 4, 5, 0, 0, 0) {
	watch w;
	stop_source s1, s2;
	{
		timer t;
		w.t = &t;
		tp s = start();
		int kind = mc::choose(4);
		bool slow = mc::flip("slow");
		w.cancelled[1].set(1);
		if (kind == 0) t.schedule(w.cb(0, s, [&](bool) { w.stop(s1, {}); if (slow) mc::advance(30000000); }), s, s1.get_token());
		if (kind == 1) t.schedule(w.cb(0, s, [&](bool) { w.stop(s2, {1}); if (slow) mc::advance(30000000); }), s);
		if (kind == 2) { t.push([&] { w.stop(s2, {1}); if (slow) mc::advance(30000000); }); w.calls[0].inc(); }
		if (kind == 3) { w.cancelled[0].set(1); t.schedule(w.cb(0, s + 1h, [&](bool) { w.stop(s2, {1}); if (slow) mc::advance(30000000); }), s + 1h, s1.get_token()); }
		t.schedule(w.cb(1, s + 20ms), s + 20ms, s2.get_token());
		if (kind == 3) s1.request_stop();
		if (mc::flip("wait")) { w.wait(0); w.wait(1); if (kind) CHECK(w.result[1].get() == 0 || start() >= s + 20ms); }
		else w.shutdown.set(1);
	}
	w.once(0);
	w.once(1);
}
// callbacks schedule and push more work
MC_SCENARIO(reschedule, 4, 5, 0, 0, 0) {
	watch w;
	{
		timer t;
		w.t = &t;
		tp s = start();
		stop_source ss;
		mc::counter pushed;
		int kind = mc::choose(4);
		t.schedule(w.cb(0, s, [&](bool ok) {
			if (!ok) { w.calls[1].inc(); return; }
			switch (kind) {
			case 0: t.push([&] { w.calls[1].inc(); }); break;
			case 1: t.schedule(w.cb(1, s + 10ms), s + 10ms); break;
			case 2: t.schedule(w.cb(1, s + 10ms), s + 10ms, ss.get_token()); break;
			case 3: t.schedule(w.cb(1, s), s); break;
			}
		}), s);
		w.wait(1);
		w.shutdown.set(1);
	}
	w.once(0);
	w.once(1);
}
// destroying a callable may use the timer
MC_SCENARIO(destructor_uses_timer, 4, 5, 0, 0, 0) {
	mc::counter ran;
	bool refused = false;
	{
		timer t;
		struct on_destroy {
			timer& t;
			mc::counter& ran;
			bool& refused;
			~on_destroy() { try { t.push([&r = ran] { r.inc(); }); } catch (std::logic_error&) { refused = true; } }
		};
		auto o = std::make_shared<on_destroy>(t, ran, refused);
		stop_source ss;
		switch (mc::choose(4)) {
		case 0: t.push([o = std::move(o)] {}); break;
		case 1: t.schedule([o = std::move(o)](bool) {}, 0ms); break;
		case 2: t.schedule([o = std::move(o)](bool) {}, 0ms, ss.get_token()); break;
		case 3: t.schedule([o = std::move(o)](bool) {}, 1h, ss.get_token()); ss.request_stop(); break;
		}
	}
	CHECKM(ran.get() + refused == 1, "the callable's destructor ran %d times, %d", ran.get(), refused);
}
// pushed callables
MC_SCENARIO(push, 4, 5, 0, 0, 0) {
	mc::counter n[3], live;
	mc::log l;
	{
		timer t;
		hc::threads th;
		auto push = [&](int id) {
			t.push([&, id, tr = mc::tracked(&live)] {
				CHECK(n[id].inc() == 1);
				CHECK(dispatcher::current() == &t);
				CHECK(mc::tid() != 0);
				l.add(id);
			});
		};
		th.add([&] { push(2); });
		push(0);
		push(1);
		t.push({});
		th.join();
	}
	for (int i = 0; i < 3; i++) CHECKM(n[i].get() == 1, "callable %d executed %d times", i, n[i].get());
	CHECK(l.index(0) < l.index(1));
	CHECK(live.get() == 0);
}
// the same with a timer that has been in use before: the queue's ends are somewhere else in its memory
MC_SCENARIO(push_aged, 2, 4, 0, 0, 0) {
	mc::counter early, n[3], live;
	mc::log l;
	{
		timer t;
		int before = 13 + mc::choose(4, "earlier callables");
		for (int i = 0; i < before; i++) t.push([&] { early.inc(); });
		// wait until all but a few were taken
		int left = mc::choose(2) ? 2 : 0;
		for (int i = 0; early.get() < before - left; i++) { CHECKM(i < 200, "callables not executed"); std::this_thread::sleep_for(5ms); }
		for (int id = 0; id < 3; id++)
			t.push([&, id, tr = mc::tracked(&live)] {
				CHECK(n[id].inc() == 1);
				l.add(id);
			});
	}
	for (int i = 0; i < 3; i++) CHECKM(n[i].get() == 1, "callable %d executed %d times", i, n[i].get());
	CHECK(l.index(0) < l.index(1) && l.index(1) < l.index(2));
	CHECK(live.get() == 0);
}
// scheduling without a callable is harmless
MC_SCENARIO(empty_callable, 4, 5, 0, 0, 0) {
	stop_source ss;
	timer t;
	switch (mc::choose(5)) {
	case 0: t.schedule(std::function<void(bool)>{}, 0ms); break;
	case 1: t.schedule(std::function<void(bool)>{}, 0ms, ss.get_token()); break;
	case 2: t.schedule(std::function<void(bool)>{}, 1h, ss.get_token()); ss.request_stop(); break;
	case 3: ss.request_stop(); t.schedule(std::function<void(bool)>{}, 1h, ss.get_token()); break;
	case 4: t.schedule(std::function<void(bool)>{}, 1h); break;
	}
	if (mc::flip("idle")) std::this_thread::sleep_for(10ms);
}
// coroutines
MC_SCENARIO(await, 4, 5, 0, 0, 0) {
	mc::counter done, res;
	{
		timer t;
		tp s = start();
		auto d = delays[mc::choose(4)];
		int kind = mc::choose(3);
		[](timer& t, tp s, std::chrono::nanoseconds d, int kind, mc::counter& done, mc::counter& res) -> hc::co {
			bool r;
			if (kind == 0) r = co_await t.wait(s + d);
			else if (kind == 1) r = co_await t.wait(d);
			else r = co_await t.wait(std::chrono::steady_clock::time_point(s + d), stop_token{});
			if (r) CHECKM(std::chrono::steady_clock::now() >= s + d, "resumed too early");
			res.set(r);
			CHECK(done.inc() == 1);
		}(t, s, d, kind, done, res);
		if (d <= 0ms) CHECK(done.get() == 1);
		if (mc::flip("wait")) { for (int i = 0; done.get() == 0; i++) { CHECK(i < 100); std::this_thread::sleep_for(5ms); } CHECK(res.get() == 1); }
	}
	CHECKM(done.get() == 1, "coroutine resumed %d times", done.get());
}
MC_SCENARIO(await_cancel, 4, 5, 0, 0, 0) {
	mc::counter done, res;
	{
		timer t;
		stop_source ss;
		hc::threads th;
		tp s = start();
		auto d = mc::flip("far") ? 1000000ms : 10ms;
		[](timer& t, stop_token st, std::chrono::nanoseconds d, mc::counter& done, mc::counter& res) -> hc::co {
			bool r = co_await t.wait(d, std::move(st));
			res.set(r);
			CHECK(done.inc() == 1);
		}(t, ss.get_token(), d, done, res);
		th.add([&] { ss.request_stop(); });
		th.join();
		for (int i = 0; done.get() == 0; i++) { CHECKM(i < 100, "coroutine does not continue"); std::this_thread::sleep_for(5ms); }
		if (res.get()) CHECK(std::chrono::steady_clock::now() >= s + d);
	}
	CHECKM(done.get() == 1, "coroutine resumed %d times", done.get());
}
// two threads schedule
MC_SCENARIO(two_schedulers, 4, 5, 0, 0, 0) {
	watch w;
	{
		timer t;
		w.t = &t;
		hc::threads th;
		tp s = start();
		stop_source ss;
		bool c = mc::flip("cancellable");
		auto d0 = delays[mc::choose(2)], d1 = delays[mc::choose(2)];
		th.add([&] { if (c) t.schedule(w.cb(0, s + d0), s + d0, ss.get_token()); else t.schedule(w.cb(0, s + d0), s + d0); });
		t.schedule(w.cb(1, s + d1), s + d1, ss.get_token());
		th.join();
		w.shutdown.set(1);
	}
	w.once(0);
	w.once(1);
}

// all ways to specify the time
template<class D> static void schedule_at(timer& t, watch& w, int id, D d, int how, stop_token st) {
	using namespace std::chrono;
	tp s = start();
	// a coarse time point is the deadline as it was passed
	tp dl = how == 3 ? tp(time_point_cast<D>(s) + d) : how == 7 ? s + (time_point_cast<D>(system_clock::now()) + d - system_clock::now()) : s + d;
	auto cb = w.cb(id, dl);
	switch (how) {
	case 0: t.schedule(cb, s + d); break;
	case 1: t.schedule(cb, d); break;
	case 2: t.schedule(cb, system_clock::now() + d); break;
	case 3: t.schedule(cb, time_point_cast<D>(s) + d); break;
	case 4: t.schedule(cb, s + d, st); break;
	case 5: t.schedule(cb, d, st); break;
	case 6: t.schedule(cb, system_clock::now() + d, st); break;
	case 7: t.schedule(cb, time_point_cast<D>(system_clock::now()) + d, st); break;
	}
}
MC_SCENARIO(overloads, 1, 2, 0, 0, 0) {
	watch w;
	{
		timer t;
		w.t = &t;
		stop_source ss;
		int how = mc::choose(8), d = mc::choose(8);
		switch (d) {
		case 0: schedule_at(t, w, 0, 1ns, how, ss.get_token()); break;
		case 1: schedule_at(t, w, 0, 999us, how, ss.get_token()); break;
		case 2: schedule_at(t, w, 0, 1999999ns, how, ss.get_token()); break;
		case 3: schedule_at(t, w, 0, 3ms, how, ss.get_token()); break;
		case 4: schedule_at(t, w, 0, 1s, how, ss.get_token()); break;
		case 5: schedule_at(t, w, 0, 2min, how, ss.get_token()); break;
		case 6: schedule_at(t, w, 0, -1ns, how, ss.get_token()); break;
		case 7: schedule_at(t, w, 0, -5s, how, ss.get_token()); break;
		}
		tp s = start();
		if (mc::flip("cancel")) {
			mc::assume(how >= 4 && d >= 3 && d <= 5);
			w.cancelled[0].set(1);
			w.stop(ss, {0});
			w.wait(0);
			CHECK(w.result[0].get() == 0);
		} else {
			if (d == 4 || d == 5) std::this_thread::sleep_for(w.deadline[0] - s - 1ms);
			w.wait(0);
			CHECKM(w.result[0].get() == 1, "a callback got false");
		}
	}
	w.once(0);
}
template<class D> static hc::co await_for(timer& t, D d, int how, stop_token st, mc::counter& done, mc::counter& res) {
	using namespace std::chrono;
	tp s = start(), dl = s + d;
	if (how == 3 || how == 7 || how == 10) dl = s + (time_point_cast<D>(system_clock::now()) + d - system_clock::now());
	bool r;
	switch (how) {
	case 0: r = co_await t.wait(s + d); break;
	case 1: r = co_await t.wait(d); break;
	case 2: r = co_await t.wait(system_clock::now() + d); break;
	case 3: r = co_await t.wait(time_point_cast<D>(system_clock::now()) + d); break;
	case 4: r = co_await t.wait(s + d, st); break;
	case 5: r = co_await t.wait(d, st); break;
	case 6: r = co_await t.wait(system_clock::now() + d, st); break;
	case 7: r = co_await t.wait(time_point_cast<D>(system_clock::now()) + d, st); break;
	case 8: r = co_await d; break;
	case 9: r = co_await (s + d); break;
	case 10: r = co_await (time_point_cast<D>(system_clock::now()) + d); break;
	}
	if (r) CHECKM(steady_clock::now() >= dl, "resumed too early");
	res.set(r);
	if (d > D(0)) CHECKM(mc::tid() != 0 && dispatcher::current() == (how >= 8 ? &timer::get_default() : &t), "not resumed on the timer");
	CHECKM(done.inc() == 1, "resumed twice");
}
MC_SCENARIO(await_overloads, 1, 2, 0, 0, 0) {
	mc::counter done, res;
	int how = mc::choose(11), d = mc::choose(6);
	bool cancel = how >= 4 && how < 8 && mc::flip("cancel");
	{
		timer t;
		stop_source ss;
		switch (d) {
		case 0: await_for(t, 1ns, how, ss.get_token(), done, res); break;
		case 1: await_for(t, 999us, how, ss.get_token(), done, res); break;
		case 2: await_for(t, 3ms, how, ss.get_token(), done, res); break;
		case 3: await_for(t, 1s, how, ss.get_token(), done, res); break;
		case 4: await_for(t, 0us, how, ss.get_token(), done, res); break;
		case 5: await_for(t, -5s, how, ss.get_token(), done, res); break;
		}
		if (d >= 4) CHECKM(done.get() == 1 && res.get() == 1, "waited for a time in the past");
		if (cancel) ss.request_stop();
		else if (d == 3) std::this_thread::sleep_for(999ms);
		for (int i = 0; done.get() == 0; i++) { CHECKM(i < 100, "coroutine does not continue"); std::this_thread::sleep_for(20ms); }
		CHECKM(res.get() == 1 || cancel, "a wait reports cancellation");
		if (cancel && d == 3) CHECKM(res.get() == 0, "a cancelled wait reports success");
	}
	CHECKM(done.get() == 1, "coroutine resumed %d times", done.get());
}
// "wait forever": timeouts that end beyond the range of the clock do not expire, they end with the timer or by cancellation
template<class A> static hc::co await_forever(A a, mc::counter& done, mc::counter& res) {
	bool r = co_await a;
	res.set(r);
	CHECKM(done.inc() == 1, "resumed twice");
}
MC_SCENARIO(forever, 1, 2, 0, 0, 0) {
	using namespace std::chrono;
	watch w;
	mc::counter done, res;
	int how = mc::choose(14);
	bool wait = how >= 4;
	{
		timer t;
		w.t = &t;
		stop_source ss;
		w.may_cancel[0] = true;
		auto cb = [&] { return w.cb(0, tp::max()); };
		switch (how) {
		case 0: t.schedule(cb(), nanoseconds::max()); break;
		case 1: t.schedule(cb(), tp::max()); break;
		case 2: t.schedule(cb(), nanoseconds::max(), ss.get_token()); break;
		case 3: t.schedule(cb(), tp::max(), ss.get_token()); break;
		case 4: await_forever(t.wait(nanoseconds::max()), done, res); break;
		case 5: await_forever(t.wait(tp::max()), done, res); break;
		case 6: await_forever(t.wait(hours::max()), done, res); break;
		case 7: await_forever(t.wait(milliseconds::max()), done, res); break;
		case 8: await_forever(t.wait(nanoseconds::max() - 1ms), done, res); break;
		case 9: await_forever(t.wait(nanoseconds::max(), ss.get_token()), done, res); break;
		case 10: await_forever(t.wait(tp::max(), ss.get_token()), done, res); break;
		case 11: await_forever(t.wait(hours::max(), ss.get_token()), done, res); break;
		case 12: await_forever(t.wait(seconds::max(), ss.get_token()), done, res); break;
		case 13: await_forever(t.wait(hours(24 * 365 * 100), ss.get_token()), done, res); break;
		}
		bool with = how == 2 || how == 3 || how >= 9;
		t.schedule(w.cb(1, start() + 10ms), start() + 10ms);
		w.wait(1);
		CHECKM(w.calls[0].get() == 0 && done.get() == 0, "a timeout that is far away expired");
		if (with && mc::flip("cancel")) {
			w.cancelled[0].set(1);
			ss.request_stop();
			for (int i = 0; (wait ? done.get() : w.calls[0].get()) == 0; i++) { CHECKM(i < 100, "cancelled, but never called"); std::this_thread::sleep_for(5ms); }
		}
		w.shutdown.set(1);
	}
	if (wait) CHECKM(done.get() == 1 && res.get() == 0, "the wait did not end with false");
	else { w.once(0); CHECK(w.result[0].get() == 0); }
}
// callbacks take some time, meanwhile others become due
MC_SCENARIO(slow, 2, 3, 0, 0, 0) {
	watch w;
	mc::counter pushed;
	int pos = 0;
	{
		timer t;
		w.t = &t;
		stop_source ss;
		tp s = start();
		int n = 3;
		bool c[3];
		for (int i = 0; i < n; i++) {
			auto dl = s + i * 10ms;
			auto f = w.cb(i, dl, [](bool) { mc::advance(15000000); });
			c[i] = mc::flip("cancellable");
			if (c[i]) t.schedule(f, dl, ss.get_token());
			else t.schedule(f, dl);
		}
		pos = mc::choose(2);
		if (pos) t.push([&] { mc::advance(15000000); pushed.inc(); });
		for (int i = 0; i < n; i++) w.wait(i);
		for (int i = 0; i < n; i++) {
			CHECK(w.result[i].get() == 1);
			for (int j = 0; j < i; j++) if (c[i] == c[j]) CHECKM(w.order.index(j) < w.order.index(i), "callbacks called in order %s", w.order.str());
		}
		w.shutdown.set(1);
	}
	CHECKM(pushed.get() == pos, "a pushed callable did not run");
	for (int i = 0; i < 3; i++) w.once(i);
}
// without preemptions time passes only while every thread is blocked: each callback is called when it is due, whatever else is outstanding
MC_SCENARIO(prompt, 0, 0, 0, 0, 0) {
	watch w;
	mc::counter late[3], pushed;
	{
		timer t;
		w.t = &t;
		stop_source ss;
		static const std::chrono::nanoseconds d[] = {20ms, 700ms, 3s, -1ms};
		int n = mc::thorough() ? 3 : 2;
		std::chrono::nanoseconds far = 0ms;
		for (int i = 0; i < n; i++) {
			tp now = std::chrono::steady_clock::now();
			auto by = d[mc::choose(4, "delay")];
			far = std::max(far, by);
			tp dl = now + by, due = std::max(dl, now) + 100ms;
			auto f = w.cb(i, dl, [&late, i, due](bool) { if (std::chrono::steady_clock::now() > due) late[i].set(1); });
			if (mc::flip("cancellable")) t.schedule(f, dl, ss.get_token());
			else t.schedule(f, dl);
			if (mc::flip("pause")) std::this_thread::sleep_for(1ms);
		}
		std::this_thread::sleep_for(1ms);
		if (mc::flip("push")) {
			tp due = std::chrono::steady_clock::now() + 100ms;
			t.push([&pushed, due] { pushed.set(std::chrono::steady_clock::now() <= due ? 1 : 2); });
			std::this_thread::sleep_for(200ms);
			CHECKM(pushed.get() != 0, "a pushed callable has to wait for a deadline");
			CHECKM(pushed.get() == 1, "a pushed callable was held up");
		}
		std::this_thread::sleep_for(far + 200ms);
		for (int i = 0; i < n; i++) {
			w.once(i);
			CHECKM(late[i].get() == 0, "callback %d was called too late", i);
			CHECK(w.result[i].get() == 1);
		}
		w.shutdown.set(1);
	}
	mc::outcome("ok");
}
