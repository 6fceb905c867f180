#include "common.h"
#include <asyncpp/promise.h>
using namespace asyncpp;

struct exc { int v; };
enum { FIRST, SUCC, ALL };
static const int MAXN = 5;
static int what(const std::exception_ptr& p) {
	try { std::rethrow_exception(p); }
	catch (exc& e) { return e.v; }
	catch (...) { return -1; }
}
// Intervals of the settling calls and of the combinator, as positions in one global order
struct clock_ {
	int n = 0;
	int tick() { mc::quiet q(this); return ++n; }
};
struct run {
	int n, kind;
	promise<long> in[MAXN];
	std::optional<promise<long>> res;
	std::optional<promise<void>> res_all;
	bool rej[MAXN] = {};
	int inv[MAXN] = {}, resp[MAXN] = {}, cinv = 0, cresp = 0;
	clock_ c;
	mc::counter notified;
	bool created_before = false;
	void create() {
		cinv = c.tick();
		if (kind == FIRST) {
			if (n == 1) res = promise_first<long>(in[0]);
			else if (n == 2) res = promise_first<long>(in[0], in[1]);
			else if (n == 3) res = promise_first<long>(in[0], in[1], in[2]);
			else if (n == 4) res = promise_first<long>(in[0], in[1], in[2], in[3]);
			else res = promise_first<long>(in[0], in[1], in[2], in[3], in[4]);
		} else if (kind == SUCC) {
			if (n == 1) res = promise_first_successful<long>(in[0]);
			else if (n == 2) res = promise_first_successful<long>(in[0], in[1]);
			else if (n == 3) res = promise_first_successful<long>(in[0], in[1], in[2]);
			else if (n == 4) res = promise_first_successful<long>(in[0], in[1], in[2], in[3]);
			else res = promise_first_successful<long>(in[0], in[1], in[2], in[3], in[4]);
		} else {
			if (n == 1) res_all = promise_all(in[0]);
			else if (n == 2) res_all = promise_all(in[0], in[1]);
			else if (n == 3) res_all = promise_all(in[0], in[1], in[2]);
			else if (n == 4) res_all = promise_all(in[0], in[1], in[2], in[3]);
			else res_all = promise_all(in[0], in[1], in[2], in[3], in[4]);
		}
		cresp = c.tick();
		if (res) res->on_settle([this] { CHECKM(notified.inc() == 1, "combined promise settled twice"); });
		else res_all->on_settle([this] { CHECKM(notified.inc() == 1, "combined promise settled twice"); });
	}
	bool pending() { return res ? res->is_pending() : res_all->is_pending(); }
	void settle(int i) {
		{ mc::quiet q(&c); inv[i] = ++c.n; }
		if (rej[i]) CHECK(in[i].try_reject<exc>(i + 1));
		else CHECK(in[i].try_fulfill(long(i + 1)));
		{ mc::quiet q(&c); resp[i] = ++c.n; }
		if (created_before) {
			// the settlement which decides the result has to settle it before it returns
			bool must;
			if (kind == FIRST) must = true;
			else if (kind == SUCC) must = !rej[i];
			else must = false;
			if (must) CHECKM(!pending(), "combined promise is still pending after a deciding input was settled");
		}
	}
	/// a definitely settled before b; inputs settled until the combinator has been created are noticed while it is
	/// being created, in any order
	bool before(int a, int b) { return (resp[a] > cresp ? resp[a] : cresp) < inv[b]; }
	// expectation given the inputs settled so far (used when nothing runs concurrently)
	void check_quiescent() {
		int settled = 0, ok = 0;
		for (int i = 0; i < n; i++) if (resp[i]) { settled++; ok += !rej[i]; }
		bool expect = kind == FIRST ? settled > 0 : kind == SUCC ? ok > 0 || settled == n : settled == n;
		CHECKM(pending() == !expect, "%d of %d inputs settled (%d successful): combined promise is %s", settled, n, ok, expect ? "still pending" : "settled too early");
		CHECK(notified.get() == (expect ? 1 : 0));
		if (!expect) return;
		if (kind == ALL) { CHECK(res_all->is_fulfilled()); return; }
		auto [val, err] = res->try_get(std::nothrow);
		int w = (val ? *val : what(err)) - 1;
		CHECKM(w >= 0 && w < n, "unknown result %d", w);
		CHECKM(resp[w] != 0, "result of an input which is not settled");
		CHECKM(rej[w] == !val, "outcome of the winner was changed");
		if (kind == FIRST) {
			for (int i = 0; i < n; i++)
				if (resp[i]) CHECKM(!before(i, w), "input %d won although input %d settled before", w, i);
		} else if (ok) {
			CHECKM(val, "rejected although an input was fulfilled");
			for (int i = 0; i < n; i++)
				if (resp[i] && !rej[i]) CHECKM(!before(i, w), "input %d won although input %d was fulfilled before", w, i);
		} else {
			for (int i = 0; i < n; i++)
				CHECKM(!before(w, i), "rejected with the exception of input %d although input %d failed later", w, i);
		}
	}
};
// all orders, outcomes and creation times
MC_SCENARIO(orders, 0, 0, 0, 0, 0) {
	run r;
	r.kind = mc::choose(3, "combinator");
	r.n = 1 + mc::choose(mc::thorough() ? 5 : 4, "inputs");
	for (int i = 0; i < r.n; i++) r.rej[i] = mc::flip("reject");
	int at = mc::choose(r.n + 1, "created after");
	bool used[MAXN] = {};
	for (int k = 0; k <= r.n; k++) {
		if (k == at) { r.create(); r.created_before = true; r.check_quiescent(); }
		if (k == r.n) break;
		int i = mc::choose(r.n, "next");
		mc::assume(!used[i]);
		used[i] = true;
		r.settle(i);
		if (k >= at) r.check_quiescent();
	}
	r.check_quiescent();
}
static void conc(int n, bool create_concurrently) {
	run r;
	r.kind = mc::choose(3, "combinator");
	r.n = n;
	for (int i = 0; i < n; i++) r.rej[i] = mc::flip("reject");
	if (!create_concurrently) { r.create(); r.created_before = true; }
	hc::threads th;
	for (int i = 1; i < n; i++) th.add([&r, i] { r.settle(i); });
	if (create_concurrently) r.create();
	r.settle(0);
	th.join();
	r.check_quiescent();
	mc::outcome("ok");
}
MC_SCENARIO(two, 5, 99, 1, 2, 0) { conc(2, false); }
MC_SCENARIO(two_create, 4, 6, 1, 2, 0) { conc(2, true); }
MC_SCENARIO(three, 3, 4, 0, 1, 0) { conc(3, false); }
MC_SCENARIO(three_create, 2, 3, 0, 0, 0) { conc(3, true); }
// main only creates, every input is settled by its own thread
MC_SCENARIO(two_threads_create, 3, 5, 0, 1, 0) {
	run r;
	r.kind = mc::choose(3, "combinator");
	r.n = 2;
	for (int i = 0; i < 2; i++) r.rej[i] = mc::flip("reject");
	{
		hc::threads th;
		for (int i = 0; i < 2; i++) th.add([&r, i] { r.settle(i); });
		r.create();
		th.join();
	}
	r.check_quiescent();
}
// void inputs, conversions of the value, no inputs
MC_SCENARIO(kinds, 0, 0, 0, 0, 0) {
	promise<void> v;
	promise<int> i;
	auto all = promise_all(v, i);
	bool vfirst = mc::flip("order"), rej = mc::flip("reject");
	for (int k = 0; k < 2; k++) {
		CHECK(all.is_pending());
		if ((k == 0) == vfirst) { if (rej) CHECK(v.try_reject<exc>(1)); else CHECK(v.try_fulfill()); }
		else CHECK(i.try_fulfill(3));
	}
	CHECK(all.is_fulfilled());
	promise<short> s;
	promise<long> l;
	auto f = promise_first<long>(s, l);
	CHECK(s.try_fulfill(short(4)));
	CHECK(f.is_fulfilled() && f.get() == 4);
	auto g = promise_first_successful<long>(promise<short>::make_rejected<exc>(1), l);
	CHECK(g.is_pending());
	CHECK(l.try_fulfill(9l));
	CHECK(g.is_fulfilled() && g.get() == 9);
	CHECK(f.get() == 4);
}
MC_SCENARIO(all_of_nothing, 0, 0, 0, 0, 0) {
	CHECKM(promise_all().is_fulfilled(), "promise_all without inputs stays pending");
}
// what happened before the deciding settlement is visible to whoever sees the result
MC_SCENARIO(publish, 4, 6, 1, 3, 0) {
	promise<long> a, b;
	int kind = mc::choose(3), data[2] = {};
	std::optional<promise<long>> r;
	std::optional<promise<void>> ra;
	if (kind == FIRST) r = promise_first<long>(a, b);
	else if (kind == SUCC) r = promise_first_successful<long>(a, b);
	else ra = promise_all(a, b);
	std::thread t1([&] { data[0] = 1; CHECK(a.try_fulfill(0l)); });
	std::thread t2([&] { data[1] = 1; CHECK(b.try_fulfill(1l)); });
	if (r) { long w = r->get(); CHECK(data[w] == 1); }
	else { ra->get(); CHECK(data[0] == 1 && data[1] == 1); }
	t1.join();
	t2.join();
}
