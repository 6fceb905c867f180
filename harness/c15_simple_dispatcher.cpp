// C15: simple_dispatcher
#include "common.h"
#include <asyncpp/simple_dispatcher.h>
using namespace asyncpp;

struct rec {
	mc::log l;
	mc::counter active, live;
	int runner = -1;
	simple_dispatcher* d;
	int data[16] = {};
	// the callable with number id
	template<class F> void push(int id, F f) {
		data[id] = id + 1;
		d->push([this, id, f, t = mc::tracked(&live)]() mutable {
			CHECKM(mc::tid() == runner, "callable runs on thread %d", mc::tid());
			CHECKM(dispatcher::current() == d, "the dispatcher is not current while it runs a callable");
			CHECK(data[id] == id + 1);
			CHECKM(active.inc() == 1, "two callables run at once");
			l.add(id);
			f();
			active.set(0);
		});
	}
	void push(int id) { push(id, [] {}); }
	void run() {
		runner = mc::tid();
		auto old = dispatcher::current();
		d->run();
		CHECKM(dispatcher::current() == old, "run() did not restore the previous dispatcher");
	}
};
// all sequences of pushes (possibly from callables) and a stop
MC_SCENARIO(seq, 0, 0, 0, 0, 0) {
	rec r;
	{
		simple_dispatcher d;
		r.d = &d;
		int budget = mc::thorough() ? 8 : 6, next = 0;
		std::deque<int> queue; // model
		bool stopped = false;
		std::vector<int> expect;
		std::function<void(int)> act = [&](int depth) {
			while (budget > 0) {
				budget--;
				int k = mc::choose(3);
				if (k == 0) { if (depth == 0) budget = 0; return; }
				if (k == 1) { if (next >= 8) mc::assume(false); int id = next++; queue.push_back(id); r.push(id, [&act] { act(1); }); d.push({}); }
				if (k == 2) { stopped = true; d.stop(); }
			}
			// nothing left to choose: stop, so that run ends
			if (!stopped) { stopped = true; d.stop(); }
		};
		act(0);
		if (!stopped) { int id = next++; queue.push_back(id); r.push(id, [&] { stopped = true; d.stop(); }); }
		bool was = stopped;
		// the model is only complete after the fact: callables ran in the order they were pushed, none after a stop
		r.run();
		CHECK(stopped);
		if (was) CHECKM(r.l.size() == 0, "callables were executed after stop");
		for (int i = 0; i < r.l.size(); i++) CHECKM(r.l.at(i) == i, "executed in order %s", r.l.str());
		int n = r.l.size();
		r.run(); // stays stopped
		CHECK(r.l.size() == n);
	}
	CHECKM(r.live.get() == 0, "%d callables alive", r.live.get());
}
// exactly the callables before the stop are executed
MC_SCENARIO(stop_from_callable, 0, 0, 0, 0, 0) {
	rec r;
	simple_dispatcher d;
	r.d = &d;
	int n = mc::choose(4) + 1, at = mc::choose(n);
	for (int i = 0; i < n; i++) r.push(i, [&, i] { if (i == at) { r.push(10); d.stop(); } });
	r.run();
	CHECKM(r.l.size() == at + 1, "%d callables executed, stop was requested by number %d", r.l.size(), at);
}
static void conc(int pushers, int each, bool stop_thread) {
	rec r;
	{
		simple_dispatcher d;
		r.d = &d;
		hc::threads th;
		mc::counter finished;
		for (int p = 0; p < pushers; p++)
			th.add([&, p] {
				for (int i = 0; i < each; i++) {
					int id = p * 4 + i;
					r.data[id] = id + 1;
					r.push(id);
				}
				if (!stop_thread && finished.inc() == pushers) r.push(15, [&] { d.stop(); });
			});
		if (stop_thread) th.add([&] { d.stop(); });
		r.run();
		th.join();
		for (int p = 0; p < pushers; p++) {
			int last = -1, n = 0;
			for (int i = 0; i < each; i++) {
				int x = r.l.index(p * 4 + i);
				CHECKM(r.l.count(p * 4 + i) <= 1, "callable executed twice");
				if (x < 0) continue;
				CHECKM(x > last, "callables executed out of order: %s", r.l.str());
				CHECKM(n == i, "callable skipped: %s", r.l.str());
				last = x;
				n++;
			}
			if (!stop_thread) CHECKM(n == each, "callables lost: %s", r.l.str());
		}
	}
	CHECKM(r.live.get() == 0, "%d callables alive", r.live.get());
}
MC_SCENARIO(stop_only, 99, 99, 0, 0, mc::SPURIOUS) { conc(0, 0, true); }
MC_SCENARIO(one_pusher, 6, 99, 0, 0, mc::SPURIOUS) { conc(1, 2, false); }
MC_SCENARIO(two_pushers, 6, 8, 0, 0, mc::SPURIOUS) { conc(2, 2, false); }
MC_SCENARIO(pusher_stop, 8, 99, 0, 0, mc::SPURIOUS) { conc(1, 2, true); }
MC_SCENARIO(two_pushers_stop, 5, 7, 0, 0, mc::SPURIOUS) { conc(2, 1, true); }
MC_SCENARIO(weak, 6, 99, 2, 4, 0) { conc(1, 1, true); }
MC_SCENARIO(weak_all, 5, 7, 2, 4, 0) { conc(2, 1, false); }
// the queue has been in use before: both ends are somewhere else in its memory
MC_SCENARIO(aged, 3, 5, 0, 0, 0) {
	rec r;
	mc::counter ran;
	std::function<void()> next;
	{
		simple_dispatcher d;
		r.d = &d;
		int before = 13 + mc::choose(4, "earlier callables");
		if (mc::flip("all of them at once")) {
			for (int i = 0; i < before; i++) d.push([&] { ran.inc(); });
		} else {
			next = [&] { if (ran.inc() < before) d.push(next); };
			d.push(next);
		}
		hc::threads th;
		th.add([&] { r.push(0); r.push(1); r.push(2, [&] { d.stop(); }); });
		r.run();
		th.join();
		CHECKM(ran.get() <= before && r.l.index(0) >= 0 && r.l.index(0) < r.l.index(1) && r.l.index(1) < r.l.index(2), "executed %s", r.l.str());
	}
	CHECKM(r.live.get() == 0, "%d callables alive", r.live.get());
}
// two stops at once
MC_SCENARIO(two_stops, 99, 99, 0, 0, mc::SPURIOUS) {
	rec r;
	simple_dispatcher d;
	r.d = &d;
	hc::threads th;
	th.add([&] { d.stop(); });
	th.add([&] { d.stop(); });
	r.run();
	th.join();
}
// order across threads: a push that finished before another one started is executed first
MC_SCENARIO(fifo_across, 5, 7, 0, 0, 0) {
	rec r;
	simple_dispatcher d;
	r.d = &d;
	mc::counter first;
	bool before = false;
	hc::threads th;
	th.add([&] { r.push(0); first.set(1); });
	th.add([&] { before = first.get() == 1; r.push(1); r.push(2, [&] { if (r.l.index(0) >= 0) d.stop(); else r.push(3, [&] {}); }); });
	std::thread st([&] { th.join(); d.stop(); });
	r.run();
	st.join();
	int a = r.l.index(0), b = r.l.index(1);
	if (before && b >= 0) CHECKM(a >= 0 && a < b, "executed in order %s", r.l.str());
}
// nested dispatchers restore the outer one
MC_SCENARIO(nested, 0, 0, 0, 0, 0) {
	rec r, r2;
	simple_dispatcher d, d2;
	r.d = &d;
	r2.d = &d2;
	r.push(0, [&] {
		r2.push(0, [&] { d2.stop(); });
		r2.run();
		CHECK(dispatcher::current() == &d);
	});
	r.push(1, [&] { CHECK(dispatcher::current() == &d); d.stop(); });
	r.run();
	CHECK(dispatcher::current() == nullptr);
	CHECK(r.l.size() == 2 && r2.l.size() == 1);
}
// an exception leaving a callable leaves run(), but the dispatcher is not current any more and still usable
MC_SCENARIO(exception, 0, 0, 0, 0, 0) {
	simple_dispatcher d;
	mc::log l;
	bool thrown = false;
	d.push([&] { l.add(0); throw hc::exn{7}; });
	d.push([&] { l.add(1); d.stop(); });
	try { d.run(); } catch (hc::exn& e) { thrown = e.v == 7; }
	CHECK(thrown);
	CHECKM(dispatcher::current() == nullptr, "run() did not restore the previous dispatcher");
	d.run();
	CHECKM(l.size() == 2 && l.at(1) == 1, "executed %s", l.str());
}
