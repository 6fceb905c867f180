// C18: fire and forget coroutines, exception policies, launch
#include "common.h"
#include <asyncpp/event.h>
#include <asyncpp/fire_and_forget.h>
#include <asyncpp/launch.h>
#include <asyncpp/task.h>
using namespace asyncpp;

struct gate_t {
	std::coroutine_handle<> waiting{};
	struct aw {
		gate_t& g;
		bool await_ready() const noexcept { return false; }
		void await_suspend(std::coroutine_handle<> h) { CHECKM(!g.waiting, "body runs more than once"); g.waiting = h; }
		void await_resume() noexcept {}
	};
	aw wait() { return {*this}; }
	bool open() { if (!waiting) return false; std::exchange(waiting, nullptr).resume(); return true; }
};
// one coroutine under observation
struct subject {
	mc::counter starts, ends, locals, params;
	gate_t gate;
	int gates = 0;
	bool throws = false;
	std::function<void()> in_body;
};
template<class Task> static Task body(subject& s, mc::tracked) {
	int n = s.starts.inc();
	CHECKM(n == 1, "the body was started %d times", n);
	{
		mc::tracked local(&s.locals);
		if (s.throws) co_await exception_policy::ignore;
		if (s.in_body) s.in_body();
		for (int i = 0; i < s.gates; i++) co_await s.gate.wait();
		if (s.throws) { s.ends.inc(); throw hc::exn{1}; }
	}
	s.ends.inc();
}

// Sequences of operations on three handles of two coroutines
template<bool Eager> static void handles(int budget) {
	using Task = std::conditional_t<Eager, eager_fire_and_forget_task<>, fire_and_forget_task<>>;
	subject s[2];
	std::unique_ptr<Task> h[3];
	// model: which coroutines a handle object may refer to (bit set), which ones it certainly keeps alive
	int may[3] = {}, must[3] = {};
	bool started[2] = {}, created[2] = {};
	auto check = [&] {
		for (int c = 0; c < 2; c++) {
			if (!created[c]) continue;
			CHECKM(s[c].starts.get() == (started[c] ? 1 : 0), "the body %s", started[c] ? "did not start" : "started on its own");
			bool running = started[c] && s[c].ends.get() == 0;
			if (started[c]) CHECKM(!!s[c].gate.waiting == running, "the body did not run to completion");
			int all_may = 0, all_must = 0;
			for (int i = 0; i < 3; i++) { all_may |= may[i]; all_must |= must[i]; }
			bool alive = s[c].params.get() > 0;
			CHECKM(s[c].params.get() <= 1 && s[c].params.get() >= 0, "parameters copied");
			CHECKM(s[c].locals.get() == (running ? 1 : 0), "locals of the body destroyed at the wrong time");
			if (running) CHECKM(alive, "the frame was destroyed while the coroutine is running");
			else if (all_must >> c & 1) CHECKM(alive, "the frame was destroyed although a handle exists");
			else if (!(all_may >> c & 1)) CHECKM(!alive, "the frame was not destroyed although the coroutine is %s and no handle exists", started[c] ? "finished" : "not started");
		}
	};
	auto reset = [&](int i) { h[i].reset(); may[i] = must[i] = 0; };
	for (int c = 0; c < 2; c++) {
		s[c].gates = mc::choose(2, "gates");
		s[c].throws = c == 0 && mc::flip("throws");
		if (c == 1 && !mc::thorough()) s[c].gates = 1 - s[0].gates;
	}
	bool stop = false;
	while (budget-- > 0 && !stop) {
		int op = mc::choose(9, "op");
		if (op == 0) { stop = true; }
		else if (op == 1) { // create
			int c = created[0] ? 1 : 0;
			if (created[c]) mc::assume(false);
			int i = 0;
			while (i < 3 && h[i]) i++;
			if (i == 3) mc::assume(false);
			created[c] = true;
			started[c] = Eager;
			h[i] = std::make_unique<Task>(body<Task>(s[c], mc::tracked(&s[c].params)));
			may[i] = must[i] = 1 << c;
		} else if (op == 2) { // drop
			int i = mc::choose(3);
			if (!h[i]) mc::assume(false);
			reset(i);
		} else if (op == 3 || op == 4) { // copy construct, move construct
			int i = mc::choose(3), j = 0;
			if (!h[i]) mc::assume(false);
			while (j < 3 && h[j]) j++;
			if (j == 3) mc::assume(false);
			if (op == 3) h[j] = std::make_unique<Task>(std::as_const(*h[i]));
			else h[j] = std::make_unique<Task>(std::move(*h[i]));
			may[j] = may[i]; must[j] = must[i];
			if (op == 4) may[i] = must[i] = 0;
		} else if (op == 5 || op == 6) { // copy assign, move assign (including to itself)
			int i = mc::choose(3), j = mc::choose(3);
			if (!h[i] || !h[j]) mc::assume(false);
			if (op == 5) { *h[j] = std::as_const(*h[i]); may[j] = may[i]; must[j] = must[i]; }
			else {
				*h[j] = std::move(*h[i]);
				if (i != j) { int old = may[j]; may[j] = may[i]; must[j] = must[i]; may[i] = old; must[i] = 0; }
			}
		} else if (op == 7) { // start
			int i = mc::choose(3);
			if (!h[i]) mc::assume(false);
			if constexpr (Eager) mc::assume(false);
			else {
				if (may[i] != must[i]) mc::assume(false); // holds an unspecified value
				h[i]->start();
				if (must[i]) started[must[i] - 1] = true;
				must[i] = 0; // may or may not keep its reference
			}
		} else if (op == 8) {
			int c = mc::choose(2);
			if (!s[c].gate.open()) mc::assume(false);
		}
		check();
	}
	// end: finish, then drop or the other way around
	bool drop_first = mc::flip("drop first");
	for (int k = 0; k < 2; k++) {
		if (drop_first == (k == 0)) for (int i = 0; i < 3; i++) { reset(i); check(); }
		else for (auto& x : s) { while (x.gate.open()) {} check(); }
	}
	for (int c = 0; c < 2; c++) CHECKM(s[c].params.get() == 0 && s[c].locals.get() == 0, "the frame was not destroyed");
	mc::outcome("ok");
}
MC_SCENARIO(handles_lazy, 0, 0, 0, 0, 0) { handles<false>(mc::thorough() ? 6 : 5); }
MC_SCENARIO(handles_eager, 0, 0, 0, 0, 0) { handles<true>(mc::thorough() ? 6 : 5); }

// the body drops or starts handles of itself
MC_SCENARIO(self_handles, 0, 0, 0, 0, 0) {
	using Task = fire_and_forget_task<>;
	subject s;
	std::vector<Task> h;
	int extra = mc::choose(3, "copies");
	s.gates = mc::choose(2, "gates");
	int what = mc::choose(4);
	s.in_body = [&] {
		if (what == 1) for (auto& t : h) t.start();
		if (what == 2) h.clear();
		if (what == 3) { auto copy = h; for (auto& t : copy) t.start(); }
	};
	h.push_back(body<Task>(s, mc::tracked(&s.params)));
	for (int i = 0; i < extra; i++) h.push_back(h[0]);
	CHECK(s.starts.get() == 0 && s.params.get() == 1);
	h[0].start();
	CHECK(s.starts.get() == 1);
	while (s.gate.open()) {}
	CHECKM(s.ends.get() == 1, "the body did not finish");
	for (auto& t : h) t.start();
	h.clear();
	CHECKM(s.params.get() == 0 && s.locals.get() == 0, "the frame was not destroyed");
	mc::outcome("ok");
}

// exception policies: the last one selected decides
template<class Task> static void policies() {
	int n = mc::choose(3, "policies");
	int pol[2] = {};
	for (int i = 0; i < n; i++) pol[i] = mc::choose(6, "policy");
	bool throws = mc::flip("throws"), gated = mc::flip("gate");
	mc::counter handled[2], locals, params, outer;
	gate_t g;
	int effective = n ? pol[n - 1] : 0;
	auto mk = [&](mc::tracked) -> Task {
		mc::tracked l(&locals);
		for (int i = 0; i < n; i++) {
			if (pol[i] == 0) co_await exception_policy::terminate;
			if (pol[i] == 1) co_await exception_policy::ignore;
			if (pol[i] == 2 || pol[i] == 3) {
				auto p = exception_policy::handle([&handled, &locals, k = pol[i] - 2] {
					handled[k].inc();
					CHECKM(locals.get() == 0, "the handler runs before the locals are destroyed");
					bool ok = false;
					try { if (std::current_exception()) throw; } catch (hc::exn& e) { ok = e.v == 5; }
					CHECKM(ok, "the handler is not called with the exception being handled");
				});
				if (pol[i] == 2) co_await p; // lvalue
				else co_await std::move(p);
			}
			if (pol[i] == 4) co_await exception_policy::handle([&outer] { outer.inc(); });
			if (pol[i] == 5) co_await exception_policy{exception_policy::ignore};
		}
		if (gated) co_await g.wait();
		if (throws) throw hc::exn{5};
	};
	bool must_terminate = throws && effective == 0;
	if (must_terminate) mc::expect_terminate();
	{
		auto t = mk(mc::tracked(&params));
		if constexpr (requires { t.start(); }) t.start();
		while (g.open()) {}
	}
	CHECKM(!must_terminate, "an exception left the coroutine, but the program was not terminated");
	for (int k = 0; k < 2; k++) CHECKM(handled[k].get() == (throws && effective == 2 + k), "handler %d called %d times", k, handled[k].get());
	CHECKM(outer.get() == (throws && effective == 4), "handler called %d times", outer.get());
	CHECKM(params.get() == 0 && locals.get() == 0, "the frame was not destroyed");
	mc::outcome("throws=%d policy=%d", throws, effective);
}
MC_SCENARIO(policy_eager, 0, 0, 0, 0, 0) { policies<eager_fire_and_forget_task<>>(); }
MC_SCENARIO(policy_lazy, 0, 0, 0, 0, 0) { policies<fire_and_forget_task<>>(); }

// several threads: completion, handles being dropped, handles being started
template<bool Eager> static void mt_body(int nthreads) {
	using Task = std::conditional_t<Eager, eager_fire_and_forget_task<>, fire_and_forget_task<>>;
	struct shared {
		mc::counter starts, ends, params, locals;
		single_consumer_event ev;
		int data = 0;
	} s;
	bool gated = mc::flip("gate"), set_first = gated && mc::flip("set first");
	auto mk = [](shared& s, bool gated, mc::tracked p) -> Task {
		int n = s.starts.inc();
		CHECKM(n == 1, "the body was started %d times", n);
		{
			mc::tracked l(&s.locals);
			s.data++;
			if (gated) co_await s.ev;
			s.data++;
		}
		CHECK(p.live == &s.params);
		s.ends.inc();
	};
	{
		std::vector<Task> h;
		h.push_back(mk(s, gated, mc::tracked(&s.params)));
		for (int i = 1; i < nthreads; i++) h.push_back(h[0]);
		CHECKM(s.starts.get() == (Eager ? 1 : 0), "wrong start");
		bool any_start = Eager;
		if (set_first) s.ev.set();
		hc::threads th;
		if (gated && !set_first) th.add([&] { s.ev.set(); });
		for (int i = 0; i < nthreads; i++) {
			bool st = !Eager && mc::flip("start");
			any_start |= st;
			th.add([t = std::move(h[i]), st]() mutable {
				if constexpr (!Eager) if (st) t.start();
				{ Task drop(std::move(t)); }
			});
		}
		h.clear();
		th.join();
		CHECKM(s.starts.get() == (any_start ? 1 : 0), "the body ran %d times", s.starts.get());
		CHECKM(s.ends.get() == s.starts.get(), "the body did not run to completion");
	}
	CHECKM(s.params.get() == 0 && s.locals.get() == 0, "the frame was not destroyed");
	CHECK(s.data == 2 * s.starts.get());
	mc::outcome("%d", s.starts.get());
}
MC_SCENARIO(mt_eager1, 6, 10, 2, 3, 0) { mt_body<true>(1); }
MC_SCENARIO(mt_lazy1, 6, 10, 2, 3, 0) { mt_body<false>(1); }
MC_SCENARIO(mt_eager2, 4, 6, 1, 2, 0) { mt_body<true>(2); }
MC_SCENARIO(mt_lazy2, 6, 9, 2, 3, 0) { mt_body<false>(2); }
MC_SCENARIO(mt_lazy3, 3, 5, 1, 2, 0) { mt_body<false>(3); }

// launch: the awaitable is copied or moved into the launched coroutine
struct awaitable {
	mc::tracked t;
	gate_t* g;
	mc::counter* awaited;
	int magic = 77;
	int mode; // 0: ready, 1: suspends, 2: throws when resumed
	bool await_ready() const { CHECK(magic == 77); return mode == 0; }
	void await_suspend(std::coroutine_handle<> h) const { g->waiting = h; }
	void await_resume() const { CHECKM(magic == 77 && t.live->get() > 0, "the awaitable is gone"); awaited->inc(); if (mode == 2) throw hc::exn{1}; }
	awaitable(mc::counter* live, gate_t* g, mc::counter* awaited, int mode) : t(live), g(g), awaited(awaited), mode(mode) {}
	awaitable(const awaitable&) = default;
	awaitable(awaitable&& o) noexcept : t(std::move(o.t)), g(o.g), awaited(o.awaited), magic(std::exchange(o.magic, 0)), mode(o.mode) {}
	~awaitable() { magic = 0; }
};
MC_SCENARIO(launching, 0, 0, 0, 0, 0) {
	mc::counter live, awaited;
	gate_t g;
	int mode = mc::choose(3), how = mc::choose(7);
	async_launch_scope scope;
	if (mode == 2) mc::expect_terminate();
	{
		awaitable a(&live, &g, &awaited, mode);
		const awaitable& ca = a;
		if (how == 0) { launch(a); CHECKM(a.magic == 77, "an lvalue awaitable was moved"); }
		if (how == 1) { launch(ca); CHECKM(a.magic == 77, "an lvalue awaitable was moved"); }
		if (how == 2) launch(std::move(a));
		if (how == 3) launch(awaitable(&live, &g, &awaited, mode), default_allocator_type{});
		if (how == 4) { scope.launch(a); CHECKM(a.magic == 77, "an lvalue awaitable was moved"); }
		if (how == 5) { scope.launch(ca); CHECKM(a.magic == 77, "an lvalue awaitable was moved"); }
		if (how == 6) scope.launch(std::move(a), default_allocator_type{});
		CHECKM(awaited.get() == (mode == 0), "the launched awaitable was not started right away");
	}
	CHECKM(live.get() == (mode == 0 ? 0 : 1), "%d awaitables alive", live.get());
	g.open();
	CHECKM(mode != 2, "an exception left the launched coroutine, but the program was not terminated");
	CHECKM(awaited.get() == 1, "the awaitable was awaited %d times", awaited.get());
	CHECKM(live.get() == 0, "the launched coroutine was not destroyed");
	CHECK(scope.all_done());
	mc::outcome("%d", mode);
}
// launch of tasks, finished by another thread
MC_SCENARIO(launch_mt, 5, 8, 2, 3, 0) {
	mc::counter params, ends;
	single_consumer_event ev;
	int data = 0;
	hc::threads th;
	th.add([&] { ev.set(); });
	launch([](single_consumer_event& ev, int& data, mc::counter& ends, mc::tracked) -> task<> { data++; co_await ev; data++; ends.inc(); }(ev, data, ends, mc::tracked(&params)));
	th.join();
	CHECKM(ends.get() == 1, "the task ran %d times", ends.get());
	CHECKM(params.get() == 0, "the task was not destroyed");
	CHECK(data == 2);
	mc::outcome("ok");
}
