// shared between C01 (manual reset) and C02 (auto reset)
#pragma once
#include "lin.h"
#include <asyncpp/event.h>
using namespace asyncpp;

enum { OP_SET, OP_RESET, OP_AWAIT, OP_IS_SET, OP_IS_AWAITED };
static const char* const op_names[] = {"set", "reset", "await", "is_set", "is_awaited"};

template<bool AUTO> struct event_spec {
	uint32_t done;
	uint32_t waiting;
	bool is_set;
	long ret[hc::lin_history::MAX];
	explicit event_spec(bool init) { memset((void*)this, 0, sizeof *this); is_set = init; }
	void fin(int id, long r) { done |= 1u << id; ret[id] = r; }
	void start(int id, int code, long) {
		switch (code) {
		case OP_SET: {
			long r = waiting != 0;
			done |= waiting; // await returns 0
			if (AUTO) { is_set = r ? false : true; }
			else is_set = true;
			waiting = 0;
			fin(id, r);
			break;
		}
		case OP_RESET: is_set = false; fin(id, 0); break;
		case OP_IS_SET: fin(id, is_set); break;
		case OP_IS_AWAITED: fin(id, waiting != 0); break;
		case OP_AWAIT:
			if (is_set) { if (AUTO) is_set = false; fin(id, 0); }
			else waiting |= 1u << id;
			break;
		}
	}
};

template<class E, bool AUTO> struct event_run {
	E ev;
	hc::lin_history h;
	bool init;
	hc::any_dispatcher d;
	bool by_set = false; // the dispatcher is passed to set() instead of wait()
	explicit event_run(bool i, int disp = hc::any_dispatcher::NONE) : ev(i), init(i), d(disp) {}
	void set() { int id = h.begin(OP_SET); bool r = by_set ? ev.set(d.get()) : ev.set(); h.end(id, r); }
	void reset() { int id = h.begin(OP_RESET); ev.reset(); h.end(id); }
	void is_set() { int id = h.begin(OP_IS_SET); bool r = ev.is_set(); h.end(id, r); }
	void is_awaited() { int id = h.begin(OP_IS_AWAITED); bool r = ev.is_awaited(); h.end(id, r); }
	/// coroutine awaiting n times
	hc::co awaiter(int n) {
		for (int i = 0; i < n; i++) {
			int id = h.begin(OP_AWAIT);
			if (d.kind == hc::any_dispatcher::NONE || by_set) co_await ev;
			else co_await ev.wait(d.get());
			h.end(id);
		}
	}
	void op(int c) {
		switch (c) {
		case OP_SET: set(); break;
		case OP_RESET: reset(); break;
		case OP_IS_SET: is_set(); break;
		case OP_IS_AWAITED: is_awaited(); break;
		case OP_AWAIT: awaiter(1); break;
		}
	}
	void check() { h.template check<event_spec<AUTO>>(event_spec<AUTO>(init), op_names, "event"); }
	/// Everything quiescent: verify, then release the suspended coroutines
	void finish(int max_left) {
		d.finish();
		check();
		for (int i = 0; i < max_left; i++) {
			is_awaited();
			set();
			d.drain();
		}
		check();
		for (int i = 0; i < h.nops; i++) CHECKM(!h.pending(i), "coroutine stays suspended after set()");
	}
};

// setter threads run a program of up to LEN operations; main starts the awaiting coroutines.
template<class E, bool AUTO> void ev_threads(int nthreads, int len, bool with_reset, int ncoro, int nawait, bool single, int disp = hc::any_dispatcher::NONE) {
	struct prog { int n; int op[5]; };
	event_run<E, AUTO> r(mc::flip("initially set"), disp);
	if (disp) r.by_set = mc::flip("dispatcher passed to set()");
	prog p[3] = {};
	for (int t = 0; t < nthreads; t++) {
		p[t].n = len;
		for (int i = 0; i < len; i++) p[t].op[i] = with_reset ? mc::choose(2, "set/reset") : 0;
		// symmetric threads: order the programs
		if (t && memcmp(&p[t - 1], &p[t], sizeof(prog)) > 0) mc::assume(false);
	}
	{
		hc::threads th;
		for (int t = 0; t < nthreads; t++)
			th.add([&r, &p, t] { for (int i = 0; i < p[t].n; i++) r.op(p[t].op[i]); });
		if (!single)
			for (int c = 1; c < ncoro; c++) th.add([&] { r.awaiter(nawait); });
		r.awaiter(nawait);
		th.join();
	}
	r.finish(nawait * ncoro + 1);
	mc::outcome("ok");
}
// all sequences of operations on one thread
template<class E, bool AUTO> void ev_seq(int depth, int maxwait) {
	event_run<E, AUTO> r(mc::flip("initially set"));
	for (int i = 0; i < depth; i++) {
		int c = mc::choose(5, "op");
		if (c == OP_AWAIT) {
			int w = 0;
			for (int k = 0; k < r.h.nops; k++) w += r.h.pending(k);
			if (w >= maxwait) mc::assume(false);
		}
		r.op(c);
	}
	r.finish(maxwait + 1);
}
// the same with coroutines resumed by a dispatcher, inside of push() or later
template<class E, bool AUTO> void ev_seq_dispatcher(int depth, int maxwait) {
	event_run<E, AUTO> r(mc::flip("initially set"), hc::any_dispatcher::INLINE + mc::choose(2, "dispatcher"));
	r.by_set = mc::flip("dispatcher passed to set()");
	for (int i = 0; i < depth; i++) {
		int c = mc::choose(4, "op");
		if (c == OP_AWAIT) {
			int w = 0;
			for (int k = 0; k < r.h.nops; k++) w += r.h.pending(k);
			if (w >= maxwait) mc::assume(false);
		}
		r.op(c);
		if (r.d.kind == hc::any_dispatcher::LATER && !r.d.later.q.empty() && mc::flip("dispatch")) r.d.drain();
	}
	r.finish(maxwait + 1);
}
// resumed coroutines operate on the event while set() is still running
template<class E, bool AUTO> void ev_reentrant(bool single) {
	event_run<E, AUTO> r(false);
	auto body = [&](int act) -> hc::co {
		int id = r.h.begin(OP_AWAIT);
		co_await r.ev;
		r.h.end(id);
		r.op(act);
	};
	int n = single ? 1 : 2;
	for (int i = 0; i < n; i++) body(mc::choose(3, "action after resume"));
	r.set();
	r.check();
	r.finish(4);
}
// memory written before set() is visible to the resumed coroutine
template<class E, bool AUTO = false> void ev_publish(int ncoro, int nset) {
	E ev(false);
	int data = 0;
	mc::counter done;
	auto body = [&]() -> hc::co {
		co_await ev;
		CHECKM(data == 1, "resumed without seeing the data written before set()");
		done.inc();
	};
	{
		hc::threads th;
		th.add([&] {
			data = 1;
			for (int i = 0; i < nset; i++) ev.set();
		});
		for (int i = 1; i < ncoro; i++) th.add([&] { body(); });
		body();
		th.join();
	}
	if (AUTO) {
		// auto reset: only some coroutines were released
		while (ev.is_awaited()) ev.set();
	}
	CHECKM(done.get() == ncoro, "%d of %d coroutines continued", done.get(), ncoro);
}
// the coroutine's own writes before suspending are visible to the thread that resumes it inline (frame handover)
template<class E> void ev_handover() {
	E ev(false);
	mc::counter done;
	auto body = [&](int arg) -> hc::co {
		int local = arg;
		co_await ev;
		CHECK(local == 7);
		done.inc();
	};
	std::thread t([&] { body(7); });
	ev.set();
	t.join();
	CHECK(done.get() == 1);
}
// resume through a dispatcher: exactly one push per suspended coroutine
template<class E> void ev_dispatch() {
	E ev(false);
	hc::manual_dispatcher d1, d2;
	mc::counter done;
	int mode = mc::choose(3, "who provides the dispatcher");
	auto body = [&]() -> hc::co { co_await ev.wait(mode != 1 ? &d1 : nullptr); done.inc(); };
	std::thread t([&] { CHECK(true); ev.set(mode != 0 ? &d2 : nullptr); });
	body();
	t.join();
	int susp = d1.pushed.get() + d2.pushed.get();
	CHECKM(susp <= 1, "coroutine was dispatched %d times", susp);
	CHECKM(done.get() == 1 - susp, "resumed on the wrong thread");
	if (susp) CHECKM((mode == 1 ? d2 : d1).pushed.get() == 1, "resumed on the wrong dispatcher");
	d1.run_all();
	d2.run_all();
	CHECK(done.get() == 1);
}
// the coroutine owns the event and destroys it as soon as it continues, set() may still be running
template<class E> void ev_owned() {
	hc::any_dispatcher d(mc::choose(4, "dispatcher"));
	bool by_set = d.kind && mc::flip("dispatcher passed to set()"), main = mc::flip("set by the main thread");
	mc::counter done;
	std::atomic<E*> ev{nullptr};
	auto owner = [&]() -> hc::co {
		{
			E e(false);
			ev.store(&e);
			if (by_set) co_await e.wait();
			else co_await e.wait(d.get());
			ev.store(nullptr);
		}
		done.inc();
	};
	hc::threads th;
	if (main) {
		owner();
		ev.load()->set(by_set ? d.get() : nullptr);
	} else {
		th.add([&] {
			E* e;
			while ((e = ev.load()) == nullptr) std::this_thread::yield();
			e->set(by_set ? d.get() : nullptr);
		});
		owner();
	}
	th.join();
	d.finish();
	CHECK(done.get() == 1);
}
