// C17: task
#include "common.h"
#include <asyncpp/event.h>
#include <asyncpp/sync_wait.h>
#include <asyncpp/task.h>
using namespace asyncpp;

// move only value
struct mo {
	int v;
	explicit mo(int x) : v(x) {}
	mo(mo&& o) noexcept : v(std::exchange(o.v, -1)) {}
	mo& operator=(mo&&) = delete;
};
// plain gate: suspends, the driver resumes
struct gate_t {
	std::coroutine_handle<> waiting{};
	struct aw {
		gate_t& g;
		bool inline_resume; // does not stay suspended
		bool await_ready() const noexcept { return false; }
		bool await_suspend(std::coroutine_handle<> h) { if (inline_resume) return false; CHECKM(!g.waiting, "two coroutines of one chain run at once"); g.waiting = h; return true; }
		void await_resume() noexcept {}
	};
	aw wait(bool inl = false) { return {*this, inl}; }
};
enum { START = 100, END = 200, CONT = 300 };

// Interprets nondeterministic programs of tasks awaiting tasks and compares with what a synchronous call tree does
struct world {
	gate_t gate;
	mc::counter locals, params, frames_started;
	mc::log log;
	int next = 0, budget;
	// stack of tasks that are running in the model
	std::vector<int> stack;

	void started(int id) {
		mc::quiet q(this);
		CHECKM(!stack.empty() && stack.back() == id, "task %d started without being awaited", id);
		log.add(START + id);
	}
	void ended(int id) {
		mc::quiet q(this);
		CHECKM(!stack.empty() && stack.back() == id, "task %d ended out of order", id);
		log.add(END + id);
	}
	struct scope { // locals of a task body
		world& w; int id;
		mc::tracked t;
		bool normal = true;
		scope(world& w, int id) : w(w), id(id), t(&w.locals) { w.started(id); }
		~scope() { w.ended_scope(id); }
	};
	bool tearing_down = false;
	void ended_scope(int id) { if (!tearing_down) ended(id); }

	// the action of one task: returns the value, throws
	static int result_of(int id) { return 1000 + id; }

	template<class T> static void check_value(T&& v, int id) {
		if constexpr (std::is_same_v<std::remove_cvref_t<T>, int>) CHECKM(v == result_of(id), "wrong result of task %d", id);
		else CHECKM(v.v == result_of(id), "wrong result of task %d", id);
	}
};

// the awaiting side is shared through this macro-like coroutine-less helper: model push/pop around co_await
#define AWAIT_CHILD(T, tsk, id)                                                                                        \
	do {                                                                                                               \
		int log0 = w.log.size(), loc0 = w.locals.get();                                                                \
		w.stack.push_back(id);                                                                                         \
		bool threw = false;                                                                                            \
		try {                                                                                                          \
			if constexpr (std::is_void_v<T>) { static_assert(std::is_void_v<decltype((co_await tsk))>); co_await tsk; }                          \
			else world::check_value(co_await tsk, id);                                                                 \
		} catch (hc::exn & e) {                                                                                        \
			threw = true;                                                                                              \
			CHECKM(e.v == id, "awaiter of task %d received the exception of task %d", id, e.v);                        \
		}                                                                                                              \
		CHECKM(w.stack.back() == id, "awaiter continues out of order");                                                \
		w.stack.pop_back();                                                                                            \
		CHECKM(w.log.size() > log0 + 1 && w.log.at(log0) == START + id && w.log.at(w.log.size() - 1) == END + id,      \
			   "awaiter of task %d did not continue right after the task ended: %s", id, w.log.str());                 \
		CHECKM(w.locals.get() == loc0, "awaiter continues before the locals of the task are gone");                    \
		CHECKM(threw == w.threw[id], "task %d %s, but the awaiter saw %s", id, w.threw[id] ? "threw" : "returned",     \
			   threw ? "an exception" : "a value");                                                                    \
	} while (0)

struct w2 : world {
	bool threw[32] = {};
	int newid() { CHECKM(next < 31, "harness: too many tasks"); return next++; }
};
template<class T> task<T> node(w2& w, int id, int depth, mc::tracked param);

// create a task of type T and use it in one of several ways
template<class T> task<> use_child(w2& w, int depth, int how) {
	// this helper is itself a task, its own laziness/ordering is checked through the log of its children
	int p0 = w.params.get(), n0 = w.log.size();
	int id = w.newid();
	{
		auto t = node<T>(w, id, depth, mc::tracked(&w.params));
		CHECKM(w.log.size() == n0, "the task started before it was awaited");
		CHECKM(!!t && !!static_cast<bool>(t), "task invalid");
		if (how == 0) { AWAIT_CHILD(T, t, id); }
		else if (how == 1) { // dropped
		} else if (how == 2) { // moved
			task<T> t2{std::move(t)};
			CHECK(!t && t2);
			CHECKM(w.log.size() == n0, "the task started before it was awaited");
			AWAIT_CHILD(T, t2, id);
			CHECKM(w.params.get() == p0 + 1, "frame released before the task object");
		} else if (how == 3) { // two tasks, awaited in the other order, one of them via move assignment
			int id2 = w.newid();
			task<T> t2(nullptr);
			CHECK(!t2);
			t2 = node<T>(w, id2, depth, mc::tracked(&w.params));
			CHECKM(w.log.size() == n0, "the task started before it was awaited");
			AWAIT_CHILD(T, t2, id2);
			CHECKM(w.params.get() == p0 + 2, "frame released before the task object");
			AWAIT_CHILD(T, t, id);
			t = std::move(t2);
			t2 = task<T>(nullptr);
		}
	}
	CHECKM(w.params.get() == p0, "parameters of a task were released %d times too few", w.params.get() - p0);
}
template<class T> task<T> node(w2& w, int id, int depth, mc::tracked param) {
	world::scope s(w, id);
	CHECK(param.live == &w.params);
	while (w.budget > 0) {
		w.budget--;
		int k = mc::choose(depth > 0 ? 7 : 3, "action");
		if (k == 0) break;
		if (k == 1) { w.threw[id] = true; throw hc::exn{id}; }
		if (k == 2) { co_await w.gate.wait(); continue; }
		int how = k - 3;
		// the type of the child alternates
		int ty = w.next % 3;
		// use_child is an additional task between: it is not part of the log
		if (ty == 0) co_await use_child<void>(w, depth - 1, how);
		else if (ty == 1) co_await use_child<int>(w, depth - 1, how);
		else co_await use_child<mo>(w, depth - 1, how);
	}
	if constexpr (std::is_same_v<T, int>) co_return world::result_of(id);
	else if constexpr (std::is_same_v<T, mo>) co_return mo(world::result_of(id));
	else co_return;
}
// the outermost coroutine, owned by the harness
struct driver {
	struct promise_type {
		driver get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
		std::suspend_always initial_suspend() noexcept { return {}; }
		std::suspend_always final_suspend() noexcept { return {}; }
		void return_void() {}
		void unhandled_exception() { mc::check(false, "unexpected exception left a harness coroutine"); }
	};
	std::coroutine_handle<promise_type> h;
};
static void program(int budget, int depth, int destroy_at) {
	w2 w;
	w.budget = budget;
	auto body = [](w2& w, int depth) -> driver { co_await use_child<int>(w, depth, 0); };
	auto d = body(w, depth);
	d.h.resume();
	int gates = 0;
	while (w.gate.waiting) {
		CHECKM(!d.h.done(), "finished while suspended");
		if (gates++ == destroy_at) {
			// destroy the whole chain while it is suspended
			w.tearing_down = true;
			break;
		}
		auto h = std::exchange(w.gate.waiting, nullptr);
		int n = w.log.size();
		h.resume();
		(void)n;
	}
	CHECKM(w.tearing_down || d.h.done(), "the chain of tasks got stuck: %s", w.log.str());
	bool torn = w.tearing_down;
	d.h.destroy();
	CHECKM(w.locals.get() == 0, "%d locals of task bodies were not destroyed", w.locals.get());
	CHECKM(w.params.get() == 0, "%d task parameters were not destroyed", w.params.get());
	mc::outcome("%s tasks=%d gates=%d", torn ? "destroyed" : "done", w.next, gates);
}
MC_SCENARIO(programs, 0, 0, 0, 0, 0) { program(mc::thorough() ? 7 : 6, 3, -1); }
MC_SCENARIO(programs_destroyed, 0, 0, 0, 0, 0) { program(mc::thorough() ? 7 : 6, 3, mc::choose(3)); }

// values: conversions, references in structs, large and throwing types
struct throwing_move {
	static inline int fuse = 0;
	int v;
	explicit throwing_move(int x) : v(x) {}
	throwing_move(throwing_move&& o) : v(o.v) { if (fuse && --fuse == 0) throw hc::exn{77}; }
	throwing_move(const throwing_move& o) : v(o.v) { if (fuse && --fuse == 0) throw hc::exn{77}; }
};
MC_SCENARIO(values, 0, 0, 0, 0, 0) {
	int k = mc::choose(6);
	auto top = [&]() -> driver {
		if (k == 0) { // conversion
			auto t = []() -> task<std::string> { co_return "a longer string than the small buffer"; }();
			CHECK(co_await t == "a longer string than the small buffer");
		} else if (k == 1) { // from a const lvalue / an lvalue which stays intact
			std::string s = "a longer string than the small buffer";
			auto t = [](std::string& s) -> task<std::string> { co_return s; }(s);
			CHECK(co_await t == s);
			CHECK(s == "a longer string than the small buffer");
			const std::string& cs = s;
			auto t2 = [](const std::string& s) -> task<std::string> { co_return s; }(cs);
			CHECK(co_await t2 == s);
		} else if (k == 2) { // shared ownership ends with the task object at the latest, value is moved out
			auto p = std::make_shared<int>(3);
			{
				auto t = [](std::shared_ptr<int> p) -> task<std::shared_ptr<int>> { co_return p; }(p);
				CHECK(p.use_count() == 2);
				auto r = co_await t;
				CHECK(r == p);
			}
			CHECK(p.use_count() == 1);
		} else if (k == 3) { // the constructor of the result throws: the awaiter gets that exception
			throwing_move::fuse = 1 + mc::choose(3, "fuse");
			int f = throwing_move::fuse;
			bool threw = false;
			try {
				auto t = []() -> task<throwing_move> { throwing_move r{5}; co_return r; }();
				auto v = co_await t;
				CHECK(v.v == 5);
			} catch (hc::exn& e) { threw = true; CHECK(e.v == 77); }
			CHECKM(threw == (throwing_move::fuse == 0 && f > 0), "exception lost");
			throwing_move::fuse = 0;
		} else if (k == 4) { // exceptions of other types, derived types
			auto t = []() -> task<int> { throw std::out_of_range("x"); co_return 1; }();
			bool ok = false;
			try { co_await t; } catch (std::out_of_range& e) { ok = std::string("x") == e.what(); }
			CHECKM(ok, "exception changed");
			auto t2 = []() -> task<> { throw 4; co_return; }();
			ok = false;
			try { co_await t2; } catch (int v) { ok = v == 4; }
			CHECKM(ok, "exception changed");
		} else { // exception propagates through several levels
			auto a = []() -> task<std::unique_ptr<int>> { throw hc::exn{1}; co_return nullptr; };
			auto b = [&]() -> task<int> { auto p = co_await a(); co_return *p; };
			auto c = [&]() -> task<> { (void)co_await b(); };
			bool ok = false;
			try { co_await c(); } catch (hc::exn& e) { ok = e.v == 1; }
			CHECKM(ok, "exception lost");
		}
	};
	auto d = top();
	d.h.resume();
	CHECKM(d.h.done(), "stuck");
	d.h.destroy();
	mc::outcome("%d", k);
}

// a chain that is finished by another thread while the thread that started it is still returning from doing so
template<class F> static void mt(F leaf_wait) {
	single_consumer_event ev;
	mc::counter finished, locals, params;
	bool throws = mc::flip("throws");
	int depth = 1 + mc::choose(2, "depth");
	int data = 0;
	hc::threads th;
	{
		std::function<task<mo>(int, mc::tracked)> level = [&](int i, mc::tracked p) -> task<mo> {
			mc::tracked l(&locals);
			if (i == 0) {
				co_await leaf_wait(ev);
				data++;
				if (throws) throw hc::exn{9};
				co_return mo(41);
			}
			mo r = co_await level(i - 1, p);
			data++;
			co_return mo(r.v + 1);
		};
		auto top = [&]() -> hc::co {
			mc::tracked p(&params);
			auto t = level(depth, p);
			try {
				auto r = co_await t;
				CHECK(!throws && r.v == 41 + depth && data == 1 + depth);
			} catch (hc::exn& e) { CHECK(throws && e.v == 9 && data == 1); }
			CHECKM(locals.get() == 0, "continues before the locals are gone");
			finished.inc();
		};
		th.add([&] { ev.set(); });
		top();
		th.join();
	}
	CHECKM(finished.get() == 1, "the awaiting coroutine continued %d times", finished.get());
	CHECKM(params.get() == 0, "parameters not released");
	mc::outcome("ok");
}
MC_SCENARIO(mt_other_thread, 6, 10, 2, 3, 0) { mt([](single_consumer_event& e) { return e.wait(); }); }
// two threads each running own chains sharing nothing but an event to hop over
MC_SCENARIO(mt_hop, 4, 8, 1, 2, 0) {
	single_consumer_event a, b;
	mc::counter finished;
	int data = 0;
	auto leaf = [&](single_consumer_event& mine, single_consumer_event& other) -> task<int> {
		co_await mine;
		int v = ++data;
		other.set(); // resumes the other one inline if it waits
		co_return v;
	};
	auto top = [&](single_consumer_event& m, single_consumer_event& o) -> hc::co {
		int v = co_await leaf(m, o);
		CHECK(v == 1 || v == 2);
		finished.inc();
	};
	hc::threads th;
	th.add([&] { top(a, b); });
	th.add([&] { a.set(); });
	top(b, a);
	th.join();
	CHECKM(finished.get() == 2, "%d of 2 chains finished", finished.get());
	mc::outcome("ok");
}
// joined synchronously
MC_SCENARIO(joined, 3, 6, 1, 2, 0) {
	single_consumer_event ev;
	mc::counter started, p;
	bool throws = mc::flip("throws");
	hc::threads th;
	{
		auto t = [](mc::counter& s, single_consumer_event& ev, bool throws, mc::tracked) -> task<int> {
			s.inc();
			co_await ev;
			if (throws) throw hc::exn{3};
			co_return 5;
		}(started, ev, throws, mc::tracked(&p));
		CHECK(started.get() == 0);
		th.add([&] { ev.set(); });
		auto f = as_promise(std::move(t));
		CHECK(started.get() == 1);
		try { int v = f.get(); CHECK(v == 5 && !throws); } catch (hc::exn& e) { CHECK(e.v == 3 && throws); }
	}
	th.join();
	CHECKM(p.get() == 0 && started.get() == 1, "parameters not released");
	mc::outcome("ok");
}
