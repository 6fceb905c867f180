// C21: generator, async_generator, fmap
#include "common.h"
#include <asyncpp/async_generator.h>
#include <asyncpp/event.h>
#include <asyncpp/generator.h>
#include <asyncpp/sync_wait.h>
#include <asyncpp/task.h>
using namespace asyncpp;

// item that is yielded; identity matters
struct item {
	int v;
	mc::tracked t;
	item(int v, mc::counter* c) : v(v), t(c) {}
	int magic = 77;
	item(item&&) = default;
	~item() { magic = 0; }
};
struct producer {
	mc::counter items, locals, params;
	int produced = 0;			 // yields that were reached
	int requested = 0;			 // values the consumer asked for
	std::vector<const void*> addr; // identity of the yielded objects, null: any
	std::vector<int> modified;	 // what the consumer wrote to element i, read back by the body
	bool ended = false, threw = false, abandoned = false;
	int budget;
	void step() {
		CHECKM(!abandoned, "the body continues after the generator was destroyed");
		CHECKM(requested == produced + 1, "the body runs ahead: %d values requested, %d produced", requested, produced);
	}
};
static item& make_lvalue(std::unique_ptr<item>& p, int v, mc::counter* c) { p = std::make_unique<item>(v, c); return *p; }

template<class G> constexpr bool rv = false;
template<class T> constexpr bool rv<generator<T&&>> = true;
template<class T> constexpr bool rv<async_generator<T&&>> = true;

// the body: any sequence of ways to yield, ends or throws
template<class G> static G body(producer& p, mc::tracked) {
	mc::tracked l(&p.locals);
	std::unique_ptr<item> keep;
	item own(-1, &p.items);
	p.step();
	while (p.budget > 0) {
		p.budget--;
		int k = mc::choose(5, "body");
		p.step();
		if (k == 0) break;
		if (k == 1) { p.threw = true; throw hc::exn{p.produced}; }
		int n = p.produced++;
		p.modified.push_back(n);
		if (k == 2) { p.addr.push_back(nullptr); co_yield item(n, &p.items); } // a temporary lives until the consumer continues
		else if (k == 3) { // new lvalue
			make_lvalue(keep, n, &p.items);
			p.addr.push_back(keep.get());
			if constexpr (rv<G>) co_yield std::move(*keep);
			else co_yield *keep;
			CHECKM(keep->v == p.modified[n], "the consumer did not see the yielded object itself");
		} else { // the same object again
			own.v = n;
			p.addr.push_back(&own);
			if constexpr (rv<G>) co_yield std::move(own);
			else co_yield own;
			CHECKM(own.v == p.modified[n], "the consumer did not see the yielded object itself");
		}
		p.step();
	}
	p.ended = true;
}

// consumer side checks of one value
template<class R> static void check_value(producer& p, R&& r, int n) {
	CHECKM(n < static_cast<int>(p.addr.size()), "more values than produced");
	CHECKM(p.produced == n + 1, "value %d observed after %d were produced", n, p.produced);
	CHECKM(r.v == n, "wrong value: %d instead of %d", r.v, n);
	if (p.addr[n]) CHECKM(std::addressof(r) == p.addr[n], "value %d is a different object than the yielded one", n);
	CHECKM(r.magic == 77 && r.t.live == &p.items && p.items.get() >= 1, "value %d is already destroyed", n);
	if constexpr (!std::is_const_v<std::remove_reference_t<R>>) { r.v = 1000 + n; p.modified[n] = 1000 + n; }
}
template<class T> static void sync_program(int budget) {
	producer p;
	p.budget = budget;
	{
		using G = generator<T>;
		static_assert(std::is_same_v<decltype(*std::declval<G>().begin()), std::conditional_t<std::is_reference_v<T>, T, T&>>);
		G g = body<G>(p, mc::tracked(&p.params));
		CHECKM(p.locals.get() == 0 && p.produced == 0, "the body started before a value was requested");
		int n = 0;
		bool threw = false, abandoned = false;
		auto move_gen = [&] {
			int k = mc::choose(4, "move");
			if (k == 1) { G o(std::move(g)); g = std::move(o); }
			if (k == 2) { G o; o = std::move(g); CHECK(p.params.get() == 1); G o2(std::move(o)); g = std::move(o2); }
			if (k == 3) { auto& r = g; g = std::move(r); }
			CHECKM(p.params.get() == 1, "moving the generator destroyed the body");
		};
		move_gen();
		try {
			p.requested = 1;
			auto it = g.begin();
			while (it != g.end()) {
				CHECK(!(it == g.end()) && g.end() != it && !(g.end() == it));
				// reading several times gives the same
				CHECK(std::addressof(*it.operator->()) == it.operator->());
				const void* a = it.operator->();
				auto&& r = *it;
				CHECK(a == std::addressof(r));
				check_value(p, r, n);
				n++;
				int k = mc::choose(3, "consumer");
				if (k == 1) move_gen();
				if (k == 2) { abandoned = true; break; }
				p.requested++;
				if (n & 1) ++it;
				else it++;
			}
			if (!abandoned) CHECK(it == g.end());
		} catch (hc::exn& e) {
			threw = true;
			CHECKM(e.v == n, "the exception was thrown after %d values, but seen after %d", e.v, n);
		}
		if (!abandoned) {
			CHECKM(threw == p.threw, threw ? "unexpected exception" : "the exception was lost");
			CHECKM(threw || p.ended, "the generator ended before its body");
			CHECKM(n == p.produced, "%d values observed, %d produced", n, p.produced);
			CHECKM(p.locals.get() == 0, "the body is finished, but its locals are not destroyed");
		}
		p.abandoned = true;
	}
	CHECKM(p.locals.get() == 0 && p.params.get() == 0 && p.items.get() == 0, "the generator was destroyed, but not its body");
	mc::outcome("n=%d ended=%d threw=%d", p.produced, p.ended, p.threw);
}
MC_SCENARIO(sync_value, 0, 0, 0, 0, 0) { sync_program<item>(mc::thorough() ? 5 : 4); }
MC_SCENARIO(sync_const, 0, 0, 0, 0, 0) { sync_program<const item>(mc::thorough() ? 5 : 4); }
MC_SCENARIO(sync_ref, 0, 0, 0, 0, 0) { sync_program<item&>(mc::thorough() ? 5 : 4); }
MC_SCENARIO(sync_const_ref, 0, 0, 0, 0, 0) { sync_program<const item&>(mc::thorough() ? 5 : 4); }
MC_SCENARIO(sync_rvalue_ref, 0, 0, 0, 0, 0) { sync_program<item&&>(mc::thorough() ? 5 : 4); }

// never iterated, empty, default constructed
MC_SCENARIO(sync_trivial, 0, 0, 0, 0, 0) {
	producer p;
	p.budget = 0;
	{
		generator<item> d;
		CHECK(d.begin() == d.end());
		generator<item> g = body<generator<item>>(p, mc::tracked(&p.params));
		int k = mc::choose(3);
		if (k == 1) { p.requested = 1; CHECK(g.begin() == g.end() && p.ended); }
		if (k == 2) { d = std::move(g); CHECK(p.params.get() == 1); p.requested = 1; CHECK(d.begin() == d.end() && p.ended); }
		CHECK(k == 0 || p.locals.get() == 0);
	}
	CHECK(p.params.get() == 0 && p.locals.get() == 0);
	mc::outcome("ok");
}
// range for over nested generators, recursion, and fmap
#include <utility>
static generator<int> count(mc::counter& computed, int n) { for (int i = 0; i < n; i++) { computed.inc(); co_yield i; } }
MC_SCENARIO(mapping, 0, 0, 0, 0, 0) {
	int n = mc::choose(4, "elements"), stop = mc::choose(5, "stop"), kind = mc::choose(9, "function");
	mc::counter computed, called;
	int fthrow = mc::choose(4, "function throws at");
	int seen = 0;
	bool threw = false;
	try {
		auto run = [&](auto g, auto check) {
			CHECKM(computed.get() == 0 && called.get() == 0, "fmap is not lazy");
			for (auto&& v : g) {
				check(v, seen);
				seen++;
				CHECKM(computed.get() == seen && called.get() == seen, "fmap computes ahead");
				if (seen == stop) break;
			}
		};
		auto pre = [&](int i) { if (i == fthrow) throw hc::exn{i}; called.inc(); };
		if (kind == 0) run(fmap([&](int i) { pre(i); return i * 3; }, count(computed, n)), [](int& v, int i) { CHECK(v == i * 3); });
		if (kind == 1) { // identity: modifications reach the source
			std::pair<int, int> arr[3] = {{0, 5}, {1, 6}, {2, 7}};
			auto refs = [](auto& arr, mc::counter& computed, int n) -> generator<std::pair<int, int>> { for (int i = 0; i < n; i++) { computed.inc(); co_yield arr[i]; } };
			run(fmap([&](std::pair<int, int>& i) -> int& { pre(i.first); return i.second; }, refs(arr, computed, n)), [&](int& v, int i) { CHECKM(&v == &arr[i].second, "not the object the function returned"); });
		}
		if (kind == 2) run(fmap([&](int i) { pre(i); return std::make_unique<int>(i); }, count(computed, n)), [](std::unique_ptr<int>& v, int i) { CHECK(*v == i); });
		if (kind == 3) run(fmap([t = std::make_unique<int>(2), &pre](int i) { pre(i); return i * *t; }, fmap([](int i) { return i + 1; }, fmap([](int i) { return i - 1; }, count(computed, n)))), [](int& v, int i) { CHECK(v == 2 * i); });
		// the function gets the elements as what they are, and the result is passed on as what it is
		struct how {
			decltype(pre)& f;
			int operator()(int& i) { f(i); return i * 10; }
			int operator()(const int& i) { f(i); return i * 10 + 1; }
			int operator()(int&& i) { f(i); return i * 10 + 2; }
			int operator()(const int&& i) { f(i); return i * 10 + 3; }
		};
		if (kind == 4) run(fmap(how{pre}, count(computed, n)), [](int& v, int i) { CHECKM(v == 10 * i, "elements passed as category %d", v % 10); });
		if (kind == 5) {
			auto source = [](mc::counter& computed, int n) -> generator<int&&> { for (int i = 0; i < n; i++) { computed.inc(); co_yield int(i); } };
			run(fmap(how{pre}, source(computed, n)), [](int& v, int i) { CHECKM(v == 10 * i + 2, "elements passed as category %d", v % 10); });
		}
		if (kind == 6) {
			const int arr[3] = {0, 1, 2};
			auto source = [](auto& arr, mc::counter& computed, int n) -> generator<const int&> { for (int i = 0; i < n; i++) { computed.inc(); co_yield arr[i]; } };
			auto g = fmap([&](const int& i) -> const int& { pre(i); return i; }, source(arr, computed, n));
			CHECK((std::is_same_v<decltype(*g.begin()), const int&>));
			run(std::move(g), [&](const int& v, int i) { CHECKM(&v == &arr[i], "not the object the function returned"); });
		}
		if (kind == 7) {
			std::unique_ptr<int> arr[3];
			auto source = [](auto& arr, mc::counter& computed, int n) -> generator<std::unique_ptr<int>&> { for (int i = 0; i < n; i++) { computed.inc(); arr[i] = std::make_unique<int>(i); co_yield arr[i]; } };
			auto g = fmap([&](std::unique_ptr<int>& i) -> std::unique_ptr<int>&& { pre(*i); return std::move(i); }, source(arr, computed, n));
			CHECKM((std::is_same_v<decltype(*g.begin()), std::unique_ptr<int>&&>), "the result is not an rvalue any more");
			run(std::move(g), [&](auto&& v, int i) { CHECKM(&v == &arr[i] && *arr[i] == i, "not the object the function returned"); });
		}
		if (kind == 8) {
			std::pair<int, int> arr[3] = {{0, 5}, {1, 6}, {2, 7}};
			auto refs = [&](auto& arr, mc::counter& computed, int n) -> generator<std::pair<int, int>&> { for (int i = 0; i < n; i++) { computed.inc(); pre(i); co_yield arr[i]; } };
			run(fmap(&std::pair<int, int>::second, refs(arr, computed, n)), [&](int& v, int i) { CHECKM(&v == &arr[i].second, "not the object the function returned"); });
		}
	} catch (hc::exn& e) { threw = true; CHECK(e.v == seen && e.v == fthrow); }
	int expect = n;
	if (stop > 0 && stop < expect) expect = stop;
	if (fthrow < expect) { expect = fthrow; CHECKM(threw, "exception lost"); }
	CHECKM(seen == expect, "%d elements instead of %d", seen, expect);
	mc::outcome("%d", seen);
}

// ---- asynchronous ----
struct gate_t {
	std::coroutine_handle<> waiting{};
	struct aw {
		gate_t& g;
		bool suspend;
		bool await_ready() const noexcept { return false; }
		bool await_suspend(std::coroutine_handle<> h) { if (suspend) g.waiting = h; return suspend; }
		void await_resume() noexcept {}
	};
	aw wait(bool suspend) { return {*this, suspend}; }
};
struct async_producer : producer {
	gate_t gate;
};
template<class G> static G async_body(async_producer& p, mc::tracked) {
	mc::tracked l(&p.locals);
	std::unique_ptr<item> keep;
	item own(-1, &p.items);
	p.step();
	while (p.budget > 0) {
		p.budget--;
		int k = mc::choose(6, "body");
		p.step();
		if (k == 0) break;
		if (k == 1) { p.threw = true; throw hc::exn{p.produced}; }
		if (k == 2) { co_await p.gate.wait(true); p.step(); continue; }
		int n = p.produced++;
		p.modified.push_back(n);
		if (k == 3) { p.addr.push_back(nullptr); co_yield item(n, &p.items); }
		else if (k == 4) {
			make_lvalue(keep, n, &p.items);
			p.addr.push_back(keep.get());
			if constexpr (rv<G>) co_yield std::move(*keep);
			else co_yield *keep;
			CHECKM(keep->v == p.modified[n], "the consumer did not see the yielded object itself");
		} else {
			co_await p.gate.wait(false);
			own.v = n;
			p.addr.push_back(&own);
			if constexpr (rv<G>) co_yield std::move(own);
			else co_yield own;
			CHECKM(own.v == p.modified[n], "the consumer did not see the yielded object itself");
		}
		p.step();
	}
	p.ended = true;
}
template<class T> static void async_program(int budget) {
	async_producer p;
	p.budget = budget;
	mc::counter finished;
	using G = async_generator<T>;
	// each value may be requested by a different coroutine
	bool helpers = mc::flip("values are requested by other coroutines");
	using I = decltype(std::declval<G&>().end());
	struct request {
		static task<I> first(G& g) { co_return co_await g.begin(); }
		static task<> next(I& it) { auto& r = co_await ++it; CHECK(&r == &it); }
	};
	auto consumer = [&]() -> hc::co {
		{
			G g = async_body<G>(p, mc::tracked(&p.params));
			CHECKM(p.locals.get() == 0 && p.produced == 0, "the body started before a value was requested");
			int n = 0;
			bool threw = false, abandoned = false;
			auto move_gen = [&] {
				int k = mc::choose(4, "move");
				if (k == 1) { G o(std::move(g)); g = std::move(o); }
				if (k == 2) { G o; swap(o, g); CHECK(p.params.get() == 1); g.swap(o); }
				if (k == 3) { auto& r = g; g = std::move(r); }
				CHECKM(p.params.get() == 1, "moving the generator destroyed the body");
			};
			move_gen();
			bool begun = false;
			auto it = g.end();
			try {
				p.requested = 1;
				if (helpers) it = co_await request::first(g);
				else it = co_await g.begin();
				begun = true;
				while (it != g.end()) {
					CHECK(!(it == g.end()));
					auto&& r = *it;
					CHECK(std::addressof(r) == std::addressof(*it));
					check_value(p, r, n);
					n++;
					int k = mc::choose(3, "consumer");
					if (k == 1) move_gen();
					if (k == 2) { abandoned = true; break; }
					p.requested++;
					if (helpers) co_await request::next(it);
					else {
						auto& it2 = co_await ++it;
						CHECK(&it2 == &it);
					}
				}
			} catch (hc::exn& e) {
				threw = true;
				CHECKM(e.v == n, "the exception was thrown after %d values, but seen after %d", e.v, n);
				if (begun) CHECKM(it == g.end(), "after an exception the iterator is not at the end");
			}
			if (!abandoned) {
				CHECKM(threw == p.threw, threw ? "unexpected exception" : "the exception was lost");
				CHECKM(threw || p.ended, "the generator ended before its body");
				CHECKM(n == p.produced, "%d values observed, %d produced", n, p.produced);
				CHECKM(p.locals.get() == 0, "the body is finished, but its locals are not destroyed");
			}
			p.abandoned = true;
		}
		finished.inc();
	};
	consumer();
	while (p.gate.waiting) {
		CHECKM(finished.get() == 0, "the consumer finished while the body waits");
		std::exchange(p.gate.waiting, nullptr).resume();
	}
	CHECKM(finished.get() == 1, "the consumer is stuck");
	CHECKM(p.locals.get() == 0 && p.params.get() == 0 && p.items.get() == 0, "the generator was destroyed, but not its body");
	mc::outcome("n=%d ended=%d threw=%d", p.produced, p.ended, p.threw);
}
MC_SCENARIO(async_value, 0, 0, 0, 0, 0) { async_program<item>(mc::thorough() ? 5 : 4); }
MC_SCENARIO(async_const, 0, 0, 0, 0, 0) { async_program<const item>(mc::thorough() ? 5 : 4); }
MC_SCENARIO(async_ref, 0, 0, 0, 0, 0) { async_program<item&>(mc::thorough() ? 5 : 4); }
MC_SCENARIO(async_rvalue_ref, 0, 0, 0, 0, 0) { async_program<item&&>(mc::thorough() ? 5 : 4); }
MC_SCENARIO(async_trivial, 0, 0, 0, 0, 0) {
	async_producer p;
	p.budget = 0;
	mc::counter fin;
	int k = mc::choose(4);
	auto c = [&]() -> hc::co {
		async_generator<item> d;
		CHECK(co_await d.begin() == d.end());
		auto g = async_body<async_generator<item>>(p, mc::tracked(&p.params));
		if (k == 1) { p.requested = 1; CHECK(co_await g.begin() == g.end()); CHECK(p.ended && p.locals.get() == 0); }
		if (k == 2) { d = std::move(g); CHECK(p.params.get() == 1); CHECK(co_await g.begin() == g.end()); p.requested = 1; CHECK(co_await d.begin() == d.end()); CHECK(p.ended); }
		if (k == 3) { g = std::move(d); CHECKM(p.params.get() == 0, "assigning over a generator did not destroy it"); }
		fin.inc();
	};
	c();
	CHECK(fin.get() == 1 && p.params.get() == 0 && p.locals.get() == 0);
	mc::outcome("ok");
}
// generators of generators
static async_generator<int> relay(async_generator<int> src, int add) { for (auto it = co_await src.begin(); it != src.end(); co_await ++it) co_yield *it + add; }

// values cross threads: the body waits for events set by other threads
static void mt(int n, int relays, bool abandon) {
	std::vector<std::unique_ptr<single_consumer_event>> ev;
	for (int i = 0; i < n; i++) ev.push_back(std::make_unique<single_consumer_event>());
	mc::counter locals, finished, seen;
	int data = 0;
	bool throws = mc::flip("throws");
	auto gen = [&](mc::tracked) -> async_generator<int> {
		mc::tracked l(&locals);
		for (int i = 0; i < n; i++) {
			data++;
			co_await *ev[i];
			data++;
			co_yield i;
		}
		if (throws) throw hc::exn{n};
	};
	auto consumer = [&]() -> hc::co {
		{
			auto g = gen(mc::tracked(&locals));
			for (int i = 0; i < relays; i++) g = relay(std::move(g), 10);
			int k = 0;
			bool threw = false;
			try {
				auto it = co_await g.begin();
				while (it != g.end()) {
					CHECKM(*it == k + 10 * relays, "value %d lost or duplicated", k);
					CHECKM(data == 2 * k + 2, "the body runs ahead");
					k++;
					if (abandon) break;
					co_await ++it;
				}
			} catch (hc::exn& e) { threw = true; CHECK(e.v == n && k == n); }
			CHECKM(k == (abandon ? 1 : n), "only %d values", k);
			CHECKM(threw == (throws && !abandon), "exception lost or invented");
		}
		CHECKM(locals.get() == 0, "the body is not destroyed");
		finished.inc();
	};
	hc::threads th;
	if (abandon) th.add([&] { ev[0]->set(); });
	else for (int i = 0; i < n; i++) th.add([&, i] { ev[i]->set(); });
	consumer();
	th.join();
	CHECKM(finished.get() == 1, "the consumer is stuck");
	mc::outcome("ok");
}
MC_SCENARIO(mt_one, 8, 10, 2, 3, 0) { mt(1, 0, false); }
MC_SCENARIO(mt_two, 8, 10, 2, 3, 0) { mt(2, 0, false); }
MC_SCENARIO(mt_three, 4, 6, 1, 2, 0) { mt(3, 0, false); }
MC_SCENARIO(mt_relay, 6, 10, 2, 3, 0) { mt(2, 1, false); }
MC_SCENARIO(mt_abandon, 8, 10, 2, 3, 0) { mt(2, 1, true); }
// joined by a thread
MC_SCENARIO(mt_joined, 6, 8, 1, 2, 0) {
	single_consumer_event ev;
	hc::threads th;
	th.add([&] { ev.set(); });
	auto gen = [](single_consumer_event& ev) -> async_generator<int> { co_yield 1; co_await ev; co_yield 2; };
	auto sum = [&]() -> task<int> { int s = 0; auto g = relay(gen(ev), 0); for (auto it = co_await g.begin(); it != g.end(); co_await ++it) s = s * 10 + *it; co_return s; };
	CHECK(as_promise(sum()).get() == 12);
	th.join();
	mc::outcome("ok");
}
