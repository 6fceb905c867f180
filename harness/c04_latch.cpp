#include "common.h"
#include <asyncpp/latch.h>
using namespace asyncpp;

// Splits of the initial count into decrements, performed by main before/after the waiters suspend.
MC_SCENARIO(seq, 0, 0, 0, 0, 0) {
	const int max = mc::thorough() ? 5 : 4;
	int n = mc::choose(max + 1, "initial count");
	latch l(n);
	mc::counter done;
	auto waiter = [&]() -> hc::co { co_await l; done.inc(); };
	int left = n, started = 0, nw = mc::choose(3, "waiters");
	while (left > 0 || started < nw) {
		CHECK(l.is_ready() == (left == 0));
		CHECK(done.get() == (left == 0 ? started : 0));
		bool w = started < nw && (left == 0 || mc::flip("waiter next"));
		if (w) { waiter(); started++; }
		else {
			int d = 1 + mc::choose(left, "decrement");
			l.decrement(d);
			left -= d;
		}
	}
	CHECK(l.is_ready());
	CHECK(done.get() == nw);
	mc::outcome("n=%d nw=%d", n, nw);
}
// explicit and default decrement amount
MC_SCENARIO(single_steps, 0, 0, 0, 0, 0) {
	int n = mc::choose(4);
	latch l(n);
	mc::counter done;
	[](latch& l, mc::counter& done) -> hc::co { co_await l.wait(); done.inc(); }(l, done);
	for (int i = 0; i < n; i++) {
		CHECK(!l.is_ready());
		CHECK(done.get() == 0);
		l.decrement();
	}
	CHECK(l.is_ready());
	CHECK(done.get() == 1);
}
// counts and amounts of any size
MC_SCENARIO(large, 0, 0, 0, 0, 0) {
	const size_t one = 1, pieces[] = {1, 2, one << 15, one << 16, one << 31, one << 32, (one << 33) + 1, one << 62, one << 63};
	size_t part[4], n = 0;
	int k = 1 + mc::choose(4, "pieces");
	for (int i = 0; i < k; i++) {
		part[i] = pieces[mc::choose(9, "amount")];
		mc::assume(n + part[i] > n && n + part[i] <= latch::max);
		n += part[i];
	}
	latch l(n);
	mc::counter done;
	[](latch& l, mc::counter& done) -> hc::co { co_await l; done.inc(); }(l, done);
	for (int i = 0; i < k; i++) {
		CHECKM(!l.is_ready() && done.get() == 0, "open after %d of %d decrements", i, k);
		l.decrement(part[i]);
	}
	CHECK(l.is_ready());
	CHECK(done.get() == 1);
}
// concurrent decrements and waits; the data written before each decrement must be visible
template<int W, int D>
static void conc() {
	latch l(D);
	int data[4] = {};
	mc::counter done;
	auto waiter = [&]() -> hc::co {
		co_await l;
		int s = 0;
		for (int i = 0; i < D; i++) s += data[i];
		CHECKM(s == D, "released although only %d of %d decrements happened", s, D);
		CHECK(l.is_ready());
		done.inc();
	};
	hc::threads t;
	for (int i = 1; i < D; i++) t.add([&, i] { data[i] = 1; l.decrement(1); });
	for (int i = 1; i < W; i++) t.add([&] { waiter(); });
	if (mc::flip("main waits first")) { waiter(); data[0] = 1; l.decrement(1); }
	else { data[0] = 1; l.decrement(1); waiter(); }
	t.join();
	CHECKM(done.get() == W, "%d of %d waiters were released", done.get(), W);
	CHECK(l.is_ready());
	mc::outcome("released");
}
MC_SCENARIO(d2w1, 4, 99, 2, 3, 0) { conc<1, 2>(); }
MC_SCENARIO(d1w2, 4, 99, 2, 3, 0) { conc<2, 1>(); }
MC_SCENARIO(d2w2, 3, 5, 1, 2, 0) { conc<2, 2>(); }
MC_SCENARIO(d3w1, 3, 5, 1, 2, 0) { conc<1, 3>(); }
MC_SCENARIO(d3w2, 2, 4, 0, 1, mc::THOROUGH_ONLY) { conc<2, 3>(); }
// never opens when the decrements do not add up
MC_SCENARIO(not_enough, 4, 99, 1, 2, 0) {
	mc::allow_leaks(); // the waiter stays suspended
	auto& l = *new latch(3);
	mc::counter& done = *new mc::counter;
	auto waiter = [&]() -> hc::co { co_await l; done.inc(); };
	std::thread a([&] { l.decrement(1); });
	std::thread b([&] { l.decrement(1); });
	waiter();
	a.join();
	b.join();
	CHECK(done.get() == 0);
	CHECK(!l.is_ready());
}
// resume dispatcher
MC_SCENARIO(resume_on, 3, 99, 1, 2, 0) {
	latch l(1);
	hc::manual_dispatcher d;
	mc::counter done;
	auto waiter = [&]() -> hc::co { co_await l.wait(&d); done.inc(); };
	std::thread a([&] { l.decrement(1); });
	waiter();
	a.join();
	d.run_all();
	CHECK(done.get() == 1);
}
// the waiter owns the latch (fan-out/fan-in) and destroys it as soon as it continues
template<int D> static void owned() {
	hc::any_dispatcher d(mc::choose(4, "dispatcher"));
	mc::counter done;
	struct state { latch l{D}; int data[D] = {}; };
	auto st = std::make_unique<state>();
	state* p = st.get();
	hc::threads th;
	for (int i = 0; i < D; i++) th.add([p, i] { p->data[i] = 1; p->l.decrement(); });
	[](std::unique_ptr<state> st, dispatcher* d, mc::counter& done) -> hc::co {
		co_await st->l.wait(d);
		for (int i = 0; i < D; i++) CHECK(st->data[i] == 1);
		st.reset();
		done.inc();
	}(std::move(st), d.get(), done);
	th.join();
	d.finish();
	CHECK(done.get() == 1);
}
MC_SCENARIO(owned1, 3, 5, 1, 2, 0) { owned<1>(); }
MC_SCENARIO(owned2, 2, 3, 0, 1, 0) { owned<2>(); }
