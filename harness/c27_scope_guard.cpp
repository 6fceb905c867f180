// C27: scope_guard
#include "common.h"
#include <asyncpp/scope_guard.h>
using namespace asyncpp;

// all sequences of engage/disengage/queries, ended by reaching the end, return or an exception
MC_SCENARIO(sequences, 0, 0, 0, 0, 0) {
	mc::counter ran, live;
	int ops = mc::thorough() ? 8 : 6;
	bool engaged = mc::flip("initially engaged"), dflt = engaged && mc::flip("default argument");
	int end = 0;
	bool model = engaged, threw = false;
	auto body = [&](auto& g, const auto& cg) {
		for (int i = 0; i < ops; i++) {
			CHECKM(g.is_engaged() == model && cg.is_engaged() == model, "is_engaged() is wrong");
			CHECKM(ran.get() == 0, "the action ran before the end of the scope");
			int k = mc::choose(6, "op");
			if (k == 0) break;
			if (k == 1) { g.engage(); model = true; }
			if (k == 2) { g.disengage(); model = false; }
			if (k == 3) { end = 1; return; }
			if (k == 4) { end = 2; throw hc::exn{1}; }
			if (k == 5) { CHECK(&g.function() == &cg.function()); CHECKM(live.get() >= 1, "the action is gone"); }
		}
	};
	auto scope = [&] {
		auto f = [&ran, t = mc::tracked(&live)]() noexcept { ran.inc(); CHECKM(t.live->get() >= 1, "the action is gone"); };
		if (dflt) { scope_guard g{std::move(f)}; body(g, g); CHECKM(ran.get() == 0, "the action ran before the end of the scope"); }
		else { scope_guard g{f, engaged}; body(g, g); CHECKM(ran.get() == 0, "the action ran before the end of the scope"); }
		CHECKM(ran.get() == model, "the action ran %d times", ran.get());
	};
	try { scope(); } catch (hc::exn&) { threw = true; }
	CHECK(threw == (end == 2));
	CHECKM(ran.get() == model, "the action ran %d times, engaged=%d", ran.get(), model);
	CHECKM(live.get() == 0, "the action was not destroyed");
	mc::outcome("end=%d ran=%d", end, ran.get());
}
// several guards: reverse order, only the engaged ones; actions which disengage or engage other guards; function objects with state
MC_SCENARIO(nested, 0, 0, 0, 0, 0) {
	mc::log l;
	int init[3], act[3];
	for (int i = 0; i < 3; i++) { init[i] = mc::choose(2); act[i] = mc::choose(3); }
	bool exc = mc::flip("exception");
	bool state[3];
	for (int i = 0; i < 3; i++) state[i] = init[i];
	try {
		struct fn { mc::log* l; int id; int* calls; void operator()() noexcept { l->add(id); ++*calls; } };
		int calls = 0;
		scope_guard a{fn{&l, 0, &calls}, init[0] != 0};
		auto fb = [&]() noexcept { l.add(1); if (act[1] == 1) a.engage(); if (act[1] == 2) a.disengage(); };
		scope_guard b{fb, init[1] != 0};
		auto fc = [&]() noexcept { l.add(2); if (act[2] == 1) b.engage(); if (act[2] == 2) b.disengage(); };
		scope_guard c{fc, init[2] != 0};
		if (act[0] == 1) c.disengage();
		if (act[0] == 2) c.engage();
		if (exc) throw hc::exn{1};
	} catch (hc::exn&) { CHECK(exc); }
	// model
	std::vector<int> expect;
	if (act[0] == 1) state[2] = false;
	if (act[0] == 2) state[2] = true;
	if (state[2]) { expect.push_back(2); if (act[2] == 1) state[1] = true; if (act[2] == 2) state[1] = false; }
	if (state[1]) { expect.push_back(1); if (act[1] == 1) state[0] = true; if (act[1] == 2) state[0] = false; }
	if (state[0]) expect.push_back(0);
	CHECKM(l.size() == static_cast<int>(expect.size()), "%d actions ran instead of %zu", l.size(), expect.size());
	for (size_t i = 0; i < expect.size(); i++) CHECKM(l.at(static_cast<int>(i)) == expect[i], "actions ran in the wrong order");
	mc::outcome("%d", l.size());
}
// an action that may be replaced through function(), and constructing the guard may throw
MC_SCENARIO(function_access, 0, 0, 0, 0, 0) {
	struct fn {
		mc::counter* c; int add; bool boom;
		fn(mc::counter* c, int add, bool boom) : c(c), add(add), boom(boom) {}
		fn(const fn& o) = default;
		fn(fn&& o) : c(o.c), add(o.add), boom(o.boom) { if (boom) throw hc::exn{2}; }
		fn& operator=(const fn&) = default;
		void operator()() noexcept { for (int i = 0; i < add; i++) c->inc(); }
	};
	mc::counter ran;
	bool boom = mc::flip("construction throws"), change = mc::flip("change"), eng = mc::flip("engaged"), threw = false;
	try {
		fn f(&ran, 1, boom);
		scope_guard g{f, eng};
		CHECK(g.function().add == 1);
		if (change) g.function().add = 5;
		CHECK(ran.get() == 0);
	} catch (hc::exn& e) { threw = true; CHECK(e.v == 2); }
	CHECKM(threw == boom, "exception lost");
	CHECKM(ran.get() == (boom || !eng ? 0 : change ? 5 : 1), "the action ran %d times", ran.get());
	mc::outcome("ok");
}
