// C12: signals used from several threads
#include "common.h"
#include <asyncpp/signal.h>
using namespace asyncpp;

enum { APPEND, PREPEND, REMOVE0, REMOVE1, DISC0, DISC1, INVOKE, SIZE, OWNS, SHRINK, REMOVE_MINE };
static const char* const names[] = {"append", "prepend", "remove(0)", "remove(1)", "disconnect(0)", "disconnect(1)", "invoke", "size", "owns", "shrink", "remove(mine)"};

template<bool MANAGER> struct target;
template<> struct target<false> {
	signal<void(int)> s;
	template<class F> signal_handle append(F&& f) { return s.append(std::forward<F>(f)); }
	template<class F> signal_handle prepend(F&& f) { return s.prepend(std::forward<F>(f)); }
	bool remove(const signal_handle& h) { return s.remove(h); }
	size_t invoke(int i) { return s(i); }
	int size() { return (int)s.size(); }
	bool owns(const signal_handle& h) { return s.owns_handle(h); }
	void shrink() {}
};
template<> struct target<true> {
	signal_manager<int, void(int)> s;
	template<class F> signal_handle append(F&& f) { return s.append(5, std::forward<F>(f)); }
	template<class F> signal_handle prepend(F&& f) { return s.prepend(5, std::forward<F>(f)); }
	bool remove(const signal_handle& h) { return s.remove(5, h); }
	size_t invoke(int i) { return s(5, i); }
	int size() { return -1; }
	bool owns(const signal_handle& h) { return s.owns_handle(5, h); }
	void shrink() { s.shrink_to_fit(); }
};
// What a handler does when it is called
enum { H_NONE, H_REMOVE_SELF, H_DISCONNECT_SELF, H_REMOVE_OTHER, H_APPEND, H_INVOKE, H_NKIND };

template<bool MANAGER> struct world {
	static constexpr int MAXH = 10, MAXI = 8;
	mc::counter live;
	target<MANAGER> t;
	int ninit = 2;
	bool timed; // keep the order of all operations (not for scenarios with stale reads)
	signal_handle h[MAXH];
	int kind[2] = {};
	// oracle
	int clk = 0, nh = 0, ni = 0;
	struct hinfo { int cs = 0, ce = 1 << 20, rs = 1 << 20, re = 1 << 20; } hi[MAXH];
	struct iinfo { int s = 0, e = 1 << 20, calls = 0; int n[MAXH] = {}; int order[MAXH] = {}; } ii[MAXI];
	struct fn {
		world* w;
		int id;
		int payload; // plain, written by the connecting thread
		mc::tracked t;
		int canary = 0x5a5a;
		fn(world* w, int id) : w(w), id(id), payload(id + 100), t(&w->live) {}
		fn(const fn&) = default;
		fn(fn&&) = default;
		~fn() { canary = 0; }
		void operator()(int inv) {
			int me = id;
			CHECK(payload == me + 100);
			w->called(me, inv);
			if (me < 2) w->act(me);
			CHECKM(canary == 0x5a5a && id == me, "handler object destroyed while it runs");
		}
	};
	explicit world(bool timed) : timed(timed) {}
	int now() { return timed ? ++clk : 0; }
	void called(int id, int inv) {
		mc::quiet q(timed ? (void*)this : (void*)&ii[inv]);
		auto& i = ii[inv];
		i.order[i.calls++] = id;
		if (++i.n[id] > 1) mcrt_fail(mc::fmt("handler %d called twice by one invocation", id).c_str());
	}
	int begin_add() { mc::quiet q(this); if (nh == MAXH) mcrt_fail("harness: too many handlers"); hi[nh].cs = now(); return nh++; }
	void end_add(int id) { if (!timed) return; mc::quiet q(this); hi[id].ce = now(); }
	int mine_last[3] = {-1, -1, -1};
	void add(bool front, int thread = -1) {
		int id = begin_add();
		h[id] = front ? t.prepend(fn(this, id)) : t.append(fn(this, id));
		end_add(id);
		if (thread >= 0) mine_last[thread] = id;
	}
	void begin_rm(int id) { if (!timed) return; mc::quiet q(this); int n = now(); if (n < hi[id].rs) hi[id].rs = n; }
	void end_rm(int id) { if (!timed) return; mc::quiet q(this); int n = now(); if (n < hi[id].re) hi[id].re = n; }
	void remove(int id, signal_handle c) { begin_rm(id); t.remove(c); end_rm(id); c = signal_handle{}; }
	void disconnect(int id, signal_handle c) { begin_rm(id); c.disconnect(); end_rm(id); }
	void invoke() {
		int i;
		{ mc::quiet q(timed ? (void*)this : (void*)&ni); if (ni == MAXI) return; i = ni++; ii[i].s = now(); }
		size_t r = t.invoke(i);
		mc::quiet q(timed ? (void*)this : (void*)&ii[i]);
		ii[i].e = now();
		if (r != (size_t)ii[i].calls) mcrt_fail(mc::fmt("%d handlers called, %zu returned", ii[i].calls, r).c_str());
	}
	int acts = 0;
	void act(int id) {
		{ mc::quiet q(&acts); if (kind[id] == H_APPEND || kind[id] == H_INVOKE) { if (acts++ > 0) return; } }
		switch (kind[id]) {
		case H_REMOVE_SELF: remove(id, h[id]); break;
		case H_DISCONNECT_SELF: disconnect(id, h[id]); break;
		case H_REMOVE_OTHER: remove(1 - id, h[1 - id]); break;
		case H_APPEND: add(false); break;
		case H_INVOKE: invoke(); break;
		}
	}
	void op(int c, signal_handle* mine, int thread) {
		switch (c) {
		case APPEND: add(false, thread); break;
		case PREPEND: add(true, thread); break;
		case REMOVE_MINE: remove(mine_last[thread], h[mine_last[thread]]); break;
		case REMOVE0: case REMOVE1: remove(c - REMOVE0, std::move(mine[c - REMOVE0])); break;
		case DISC0: case DISC1: disconnect(c - DISC0, std::move(mine[c - DISC0])); break;
		case INVOKE: invoke(); break;
		case SIZE: { int n = t.size(); CHECK(n >= -1 && n <= MAXH); break; }
		case OWNS: (void)t.owns(mine[0]); break;
		case SHRINK: t.shrink(); break;
		}
	}
	// pos: list position, handlers prepended later come first
	void finish() {
		bool present[MAXH];
		int expect = 0;
		for (int i = 0; i < nh; i++) { present[i] = h[i].valid(); expect += present[i]; }
		for (int i = 0; i < nh; i++) CHECKM(t.owns(h[i]) == present[i], "ownership of handler %d does not match its validity", i);
		if (!MANAGER) CHECKM(t.size() == expect, "size() is %d, %d handlers are connected", t.size(), expect);
		if (timed)
			for (int i = 0; i < nh; i++) CHECKM(present[i] == (hi[i].rs == 1 << 20), "handler %d is %s", i, present[i] ? "still connected" : "lost");
		kind[0] = kind[1] = H_NONE;
		int last = ni;
		CHECK(last < MAXI);
		invoke();
		for (int i = 0; i < nh; i++) CHECKM(ii[last].n[i] == present[i], "handler %d called %d times at the end", i, ii[last].n[i]);
		if (!timed) return;
		for (int v = 0; v < ni; v++) {
			auto& x = ii[v];
			for (int i = 0; i < nh; i++) {
				auto& y = hi[i];
				if (y.ce < x.s && y.rs > x.e) CHECKM(x.n[i] == 1, "connected handler %d was not called by invocation %d", i, v);
				if (y.re < x.s || y.cs > x.e) CHECKM(x.n[i] == 0, "handler %d was called by invocation %d although it was not connected", i, v);
			}
			// order: the two initial handlers
			int p0 = -1, p1 = -1;
			for (int k = 0; k < x.calls; k++) { if (x.order[k] == 0) p0 = k; if (x.order[k] == 1) p1 = k; }
			if (ninit == 2 && p0 >= 0 && p1 >= 0) CHECKM(p0 < p1, "handlers called in the wrong order");
		}
	}
};
template<bool M> static void go(int nthreads, int len, const int* code, int ncode, const int* kinds, int nkinds, bool timed, int ninit = 2) {
	mc::counter* live;
	(void)live;
	world<M> w(timed);
	w.ninit = ninit;
	{
		if (nkinds) { w.kind[0] = kinds[mc::choose(nkinds, "kind")]; w.kind[1] = kinds[mc::choose(nkinds, "kind")]; }
		int ops[3][3] = {};
		for (int t = 0; t < nthreads; t++) {
			for (int i = 0; i < len; i++) {
				ops[t][i] = code[mc::choose(ncode, "op")];
				// a handle is given away once per thread
				if (ninit == 0 && ops[t][i] >= REMOVE0 && ops[t][i] <= DISC1) mc::assume(false);
				if (ninit == 1 && (ops[t][i] == REMOVE1 || ops[t][i] == DISC1)) mc::assume(false);
				if (ops[t][i] == REMOVE_MINE && (i == 0 || (ops[t][i - 1] != APPEND && ops[t][i - 1] != PREPEND))) mc::assume(false);
				for (int j = 0; j < i; j++) if (ops[t][j] == ops[t][i] && ops[t][i] >= REMOVE0 && ops[t][i] <= DISC1) mc::assume(false);
				for (int j = 0; j < i; j++) if (ops[t][i] >= REMOVE0 && ops[t][i] <= REMOVE1 && ops[t][j] == ops[t][i] + 2) mc::assume(false);
				for (int j = 0; j < i; j++) if (ops[t][i] >= DISC0 && ops[t][i] <= DISC1 && ops[t][j] == ops[t][i] - 2) mc::assume(false);
			}
			if (t > 0 && memcmp(ops[t - 1], ops[t], sizeof ops[t]) > 0) mc::assume(false);
		}
		for (int i = 0; i < ninit; i++) w.add(false);
		signal_handle mine[3][2] = {{w.h[0], w.h[1]}, {w.h[0], w.h[1]}, {w.h[0], w.h[1]}};
		hc::threads th;
		for (int t = 1; t < nthreads; t++) th.add([&, t] { for (int i = 0; i < len; i++) w.op(ops[t][i], mine[t], t); });
		for (int i = 0; i < len; i++) w.op(ops[0][i], mine[0], 0);
		th.join();
		w.finish();
	}
	for (auto& h : w.h) h = signal_handle{};
	w.invoke();
}
template<bool M> static void run(int nthreads, int len, const int* code, int ncode, const int* kinds, int nkinds, bool timed, int ninit = 2) {
	go<M>(nthreads, len, code, ncode, kinds, nkinds, timed, ninit);
}
static const int all_ops[] = {APPEND, REMOVE0, REMOVE1, DISC1, INVOKE, PREPEND, DISC0, SIZE, OWNS};
static const int mgr_ops[] = {APPEND, REMOVE0, REMOVE1, DISC1, INVOKE, PREPEND, DISC0, SHRINK, OWNS};
static const int main_ops[] = {INVOKE, APPEND, REMOVE1, DISC0, PREPEND};
static const int mine_ops[] = {APPEND, PREPEND, REMOVE_MINE, INVOKE, DISC0};
static const int inv_ops[] = {INVOKE};
static const int kinds[] = {H_NONE, H_REMOVE_SELF, H_DISCONNECT_SELF, H_REMOVE_OTHER, H_APPEND, H_INVOKE};
MC_SCENARIO(two_all, 5, 7, 0, 0, 0) { run<false>(2, 1, all_ops, 9, nullptr, 0, true); }
// starting without any, or with a single handler
MC_SCENARIO(two_empty, 5, 7, 0, 0, 0) { run<false>(2, 1, all_ops, 9, nullptr, 0, true, 0); }
MC_SCENARIO(two_single, 5, 7, 0, 0, 0) { run<false>(2, 1, all_ops, 9, nullptr, 0, true, 1); }
MC_SCENARIO(two_mine, 3, 4, 0, 0, 0) { run<false>(2, 2, mine_ops, 4, nullptr, 0, true, 0); }
MC_SCENARIO(two_mine_single, 3, 4, 0, 0, 0) { run<false>(2, 2, mine_ops, 5, nullptr, 0, true, 1); }
MC_SCENARIO(three_empty, 3, 4, 0, 0, 0) { run<false>(3, 1, main_ops, 5, nullptr, 0, true, 0); }
MC_SCENARIO(two_long, 3, 4, 0, 0, 0) { run<false>(2, 2, main_ops, 5, nullptr, 0, true); }
MC_SCENARIO(three, 3, 4, 0, 0, 0) { run<false>(3, 1, main_ops, 5, nullptr, 0, true); }
MC_SCENARIO(two_reentrant, 3, 5, 0, 0, 0) { run<false>(2, 1, main_ops, 4, kinds, 6, true); }
MC_SCENARIO(two_invoke, 3, 5, 0, 0, 0) { run<false>(2, 1, inv_ops, 1, kinds, 6, true); }
MC_SCENARIO(two_weak, 4, 5, 2, 3, 0) { run<false>(2, 1, all_ops, 9, nullptr, 0, false); }
MC_SCENARIO(manager_two, 4, 5, 0, 0, 0) { run<true>(2, 1, mgr_ops, 9, nullptr, 0, true); }
MC_SCENARIO(manager_three, 2, 3, 0, 0, 0) { run<true>(3, 1, mgr_ops, 5, nullptr, 0, true); }
MC_SCENARIO(manager_reentrant, 2, 3, 0, 0, 0) { run<true>(2, 1, main_ops, 3, kinds, 6, true); }
MC_SCENARIO(manager_weak, 3, 4, 1, 2, 0) { run<true>(2, 1, mgr_ops, 8, nullptr, 0, false); }
// the first handler of an event is connected while others use the manager
MC_SCENARIO(manager_create, 5, 7, 0, 0, 0) {
	signal_manager<int, void()> m;
	mc::counter a, b;
	hc::threads th;
	int second = mc::choose(4);
	th.add([&] {
		switch (second) {
		case 0: m.append(1, [&] { b.inc(); }); break;
		case 1: m.append(2, [&] { b.inc(); }); break;
		case 2: m.shrink_to_fit(); break;
		case 3: { auto n = m(1); CHECK(n == 0 || n == 1); break; }
		}
	});
	auto h = m.append(1, [&] { a.inc(); });
	th.join();
	a.set(0);
	b.set(0);
	CHECK(m.owns_handle(1, h));
	auto n = m(1) + m(2);
	CHECK(a.get() == 1 && b.get() == (second < 2) && n == 1u + (second < 2));
}
