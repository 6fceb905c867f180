// C22: code that awaits and creates fibers, compiled in two translation units (UNIT is its namespace)
#pragma once
#include "common.h"
#include <asyncpp/fiber.h>
#include <asyncpp/simple_dispatcher.h>
namespace c22 {
	struct shared {
		std::coroutine_handle<> parked{};
		std::thread th[6];
		int nth = 0;
		mc::counter bodies;
		void join(int n) { for (int i = 0; i < n; i++) th[i].join(); } // each starts the next one
	};
	struct await_it { // 0: ready, 1: resumed right away, 2: parked, 3: by a thread
		shared& s; int kind, v;
		bool await_ready() { return kind == 0; }
		bool await_suspend(std::coroutine_handle<> h) {
			if (kind == 1) return false;
			if (kind == 2) { CHECK(!s.parked); s.parked = h; }
			else { auto& t = s.th[s.nth++]; t = std::thread([h] { h.resume(); }); }
			return true;
		}
		int await_resume() { return v; }
	};
	struct unit {
		int (*await)(shared&, int kind, int v);
		int (*await_fiber)(asyncpp::fiber<int>&);
		asyncpp::fiber<int> (*make)(std::function<int()>);
		asyncpp::dispatcher* (*current)();
	};
	extern const unit unit1, unit2;
#define C22_UNIT(NAME) const unit NAME{ \
		[](shared& s, int kind, int v) -> int { return fib_await await_it{s, kind, v}; }, \
		[](asyncpp::fiber<int>& f) -> int { return fib_await f.operator co_await(); }, \
		[](std::function<int()> fn) { return asyncpp::fiber<int>([fn = std::move(fn)] { return fn(); }, 32768); }, \
		[]() -> asyncpp::dispatcher* { return asyncpp::dispatcher::current(); }}

	// all units agree on the current dispatcher of a thread
	inline void units_dispatcher() {
		asyncpp::simple_dispatcher d;
		auto check = [](asyncpp::dispatcher* e) { CHECKM(unit1.current() == e && unit2.current() == e, "dispatcher::current() is wrong"); };
		check(nullptr);
		bool ran = false;
		std::thread th([&] { check(nullptr); d.push([&] { check(&d); ran = true; d.stop(); }); check(nullptr); });
		d.run();
		th.join();
		CHECK(ran);
		check(nullptr);
		mc::outcome("ok");
	}
	// the parts of a program with fibers may be compiled separately
	inline void units(bool threads) {
		shared s;
		mc::counter done;
		{
			auto u = [](const char* n) -> const unit& { return mc::choose(2, n) ? unit2 : unit1; };
			int kind[4], sum = 0, n = threads ? 2 : 3;
			const unit* in[4];
			for (int i = 0; i < n; i++) { kind[i] = threads ? mc::choose(2) * 2 + 1 : mc::choose(3, "await"); in[i] = &u("awaited in"); }
			bool nested = mc::flip("nested");
			auto& outer_in = u("created in");
			auto body = [&s, &kind, &in, n] { s.bodies.inc(); int r = 0; for (int i = 0; i < n; i++) r += in[i]->await(s, kind[i], 1 << i); return r; };
			int nth = threads && nested ? 1 : 0;
			for (int i = 0; i < n; i++) { sum += 1 << i; nth += kind[i] == 3; }
			std::optional<asyncpp::fiber<int>> f;
			if (nested) {
				auto& inner_in = u("inner created in");
				auto& wait_in = u("inner awaited in");
				f.emplace(outer_in.make([&, body] { auto g = inner_in.make(body); int r = wait_in.await_fiber(g); return r + wait_in.await(s, threads ? 3 : 2, 100); }));
				sum += 100;
			} else f.emplace(outer_in.make(body));
			[](asyncpp::fiber<int>& f, int sum, mc::counter* done) -> hc::co { int r = co_await f; CHECKM(r == sum, "fiber result is %d, not %d", r, sum); done->inc(); }(*f, sum, &done);
			while (s.parked) std::exchange(s.parked, nullptr).resume();
			s.join(nth);
			CHECKM(done.get() == 1, "the awaiting coroutine continued %d times", done.get());
		}
		CHECK(s.bodies.get() == 1);
		mc::outcome("ok");
	}
}
