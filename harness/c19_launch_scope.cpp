// C19: async_launch_scope
#include "common.h"
#include <asyncpp/event.h>
#include <asyncpp/launch.h>
#include <asyncpp/task.h>
using namespace asyncpp;

struct gate_t {
	std::coroutine_handle<> waiting{};
	struct aw {
		gate_t& g;
		bool await_ready() const noexcept { return false; }
		void await_suspend(std::coroutine_handle<> h) { g.waiting = h; }
		void await_resume() noexcept {}
	};
	aw wait() { return {*this}; }
};

// Programs of launches, joins and completions on a single thread
MC_SCENARIO(programs, 0, 0, 0, 0, 0) {
	struct state {
		async_launch_scope scope;
		int launched = 0, finished = 0, joins = 0, joined = 0, refused = 0, futures = 0;
		std::vector<int> pending_joins;
		std::vector<gate_t*> gates;
		int budget;
		mc::counter params, locals;
		bool future_waiting = false;
		std::future<void> fut;
		int active() { return launched - finished; }
	} s;
	s.budget = mc::thorough() ? 6 : 5;
	struct ops {
		// the task: may launch others, then finishes right away or waits at a gate
		static task<> child(state& s, int depth, mc::tracked) {
			mc::tracked l(&s.locals);
			gate_t g;
			int wait = mc::choose(3, "task");
			if (wait == 2) { // launch another one from inside
				if (depth > 1 || s.budget <= 0) mc::assume(false);
				s.budget--;
				launch(s, depth + 1);
			}
			if (wait >= 1) { s.gates.push_back(&g); co_await g.wait(); }
			check_count(s);
			s.finished++;
		}
		static void check_count(state& s) {
			CHECKM(s.scope.inflight_coroutines() == static_cast<size_t>(s.active()), "inflight_coroutines() is %zu, %d tasks are active", s.scope.inflight_coroutines(), s.active());
			CHECKM(s.scope.all_done() == (s.active() == 0), "all_done() is wrong");
		}
		static void launch(state& s, int depth) {
			s.launched++;
			int how = mc::choose(3, "launch");
			if (how == 0) s.scope.launch(child(s, depth, mc::tracked(&s.params)));
			else if (how == 1) s.scope.invoke([&s, t = mc::tracked(&s.params)](int d) { check_count(s); return child(s, d, t); }, depth);
			else s.scope.invoke_tuple([&s, t = mc::tracked(&s.params)](int d) { check_count(s); return child(s, d, t); }, std::tuple<int>(depth), std::allocator<std::byte>{});
		}
		static hc::co join(state& s, int id) {
			int pend = static_cast<int>(s.pending_joins.size());
			s.pending_joins.push_back(id);
			bool threw = false;
			try { co_await s.scope.join(); } catch (std::logic_error&) { threw = true; }
			auto it = std::find(s.pending_joins.begin(), s.pending_joins.end(), id);
			CHECKM(it != s.pending_joins.end(), "join returned twice");
			s.pending_joins.erase(it);
			if (threw) { CHECKM(pend > 0 || s.future_waiting, "the only join was refused"); s.refused++; }
			else {
				CHECKM(s.active() == 0, "join returned with %d active tasks", s.active());
				CHECKM(pend == 0 && !s.future_waiting, "a second concurrent join was not refused");
				s.joined++;
			}
		}
	};
	bool stop = false;
	while (s.budget-- > 0 && !stop) {
		int op = mc::choose(5, "op");
		if (op == 0) stop = true;
		if (op == 1) ops::launch(s, 0);
		if (op == 2) { // let a task finish
			if (s.gates.empty()) mc::assume(false);
			int i = mc::choose(static_cast<int>(s.gates.size()));
			auto g = s.gates[i];
			s.gates.erase(s.gates.begin() + i);
			std::exchange(g->waiting, nullptr).resume();
		}
		if (op == 3) ops::join(s, s.joins++);
		if (op == 4) {
			bool busy = s.future_waiting || !s.pending_joins.empty();
			auto f = s.scope.join_future();
			bool ready = f.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
			if (s.active() == 0) { CHECKM(ready, "the join future is not ready though there is no task"); f.get(); }
			else if (busy) {
				CHECKM(ready, "a second concurrent join was not refused");
				bool threw = false;
				try { f.get(); } catch (std::logic_error&) { threw = true; }
				CHECKM(threw, "a second concurrent join was not refused");
			} else { CHECKM(!ready, "the join future is ready with active tasks"); s.future_waiting = true; s.fut = std::move(f); }
		}
		ops::check_count(s);
		if (s.active() > 0) {
			if (s.future_waiting) CHECKM(s.fut.wait_for(std::chrono::seconds(0)) != std::future_status::ready, "the join future is ready with active tasks");
		} else {
			CHECKM(s.pending_joins.empty(), "all tasks are finished, but join did not return");
			if (s.future_waiting) {
				CHECKM(s.fut.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "all tasks are finished, but the join future is not ready");
				s.fut.get();
				s.future_waiting = false;
			}
		}
		CHECKM(s.locals.get() == s.active(), "tasks are not destroyed when they finished");
		CHECKM(s.params.get() >= s.active(), "parameters destroyed too early");
		if (s.active() == 0) CHECKM(s.params.get() == 0, "tasks are not destroyed when they finished");
	}
	while (!s.gates.empty()) {
		auto g = s.gates.back();
		s.gates.pop_back();
		std::exchange(g->waiting, nullptr).resume();
		ops::check_count(s);
	}
	CHECKM(s.active() == 0, "tasks not finished");
	CHECKM(s.pending_joins.empty(), "all tasks are finished, but join did not return");
	if (s.future_waiting) { CHECK(s.fut.wait_for(std::chrono::seconds(0)) == std::future_status::ready); s.fut.get(); }
	CHECK(s.params.get() == 0 && s.locals.get() == 0);
	mc::outcome("launched=%d joined=%d refused=%d", s.launched, s.joined, s.refused);
}

// callables are stored with their captures
MC_SCENARIO(callables, 0, 0, 0, 0, 0) {
	mc::counter live, ran;
	gate_t g;
	async_launch_scope scope;
	int how = mc::choose(6), arg = 5;
	struct functor {
		mc::tracked t;
		gate_t* g;
		mc::counter* ran;
		int magic = 77;
		functor(mc::counter* l, gate_t* g, mc::counter* r) : t(l), g(g), ran(r) {}
		functor(const functor&) = default;
		functor(functor&& o) noexcept : t(std::move(o.t)), g(o.g), ran(o.ran), magic(std::exchange(o.magic, 0)) {}
		~functor() { magic = 0; }
		// a coroutine of a functor refers to the functor
		task<> operator()(int& x, std::unique_ptr<int> p) const {
			CHECKM(x == 5 && *p == 6, "wrong arguments");
			x = 8;
			co_await g->wait();
			CHECKM(t.live->get() > 0 && magic == 77, "the callable does not exist any more");
			CHECK(*p == 6);
			ran->inc();
		}
	};
	{
		functor f(&live, &g, &ran);
		const functor& cf = f;
		if (how == 0) scope.invoke(f, arg, std::make_unique<int>(6));
		if (how == 1) scope.invoke(cf, arg, std::make_unique<int>(6));
		if (how == 2) scope.invoke(std::move(f), arg, std::make_unique<int>(6));
		if (how == 3) scope.invoke_tuple(f, std::tuple<int&, std::unique_ptr<int>>(arg, std::make_unique<int>(6)));
		if (how == 4) scope.invoke_tuple(cf, std::tuple<int&, std::unique_ptr<int>>(arg, std::make_unique<int>(6)), std::allocator<std::byte>{});
		if (how == 5) scope.invoke_tuple(std::move(f), std::tuple<int&, std::unique_ptr<int>>(arg, std::make_unique<int>(6)), std::allocator<std::byte>{});
		if (how != 2 && how != 5) CHECKM(f.magic == 77, "an lvalue callable was moved");
	}
	CHECKM(arg == 8, "argument was copied");
	CHECKM(live.get() == 1, "the callable is not stored in the task (%d copies alive)", live.get());
	CHECK(scope.inflight_coroutines() == 1);
	std::exchange(g.waiting, nullptr).resume();
	CHECKM(ran.get() == 1 && live.get() == 0, "the callable was not destroyed");
	CHECK(scope.all_done());
	mc::outcome("ok");
}

// several threads finish the tasks while another one joins, then destroys the scope
struct shared {
	std::unique_ptr<async_launch_scope> scope = std::make_unique<async_launch_scope>();
	single_consumer_event ev[3];
	int data[3] = {};
	mc::counter active, joined;
};
static task<> worker(shared& s, int i) {
	co_await s.ev[i];
	s.data[i] = i + 1;
	s.active.dec();
}
static hc::co join_and(shared& s, int n, std::function<void()> then) {
	co_await s.scope->join();
	CHECKM(s.joined.inc() == 1, "join returned twice");
	CHECKM(s.active.get() == 0, "join returned with %d active tasks", s.active.get());
	CHECKM(s.scope->inflight_coroutines() == 0, "inflight_coroutines() is not 0 after join");
	for (int i = 0; i < n; i++) CHECK(s.data[i] == i + 1);
	then();
}
template<int N> static void mt_join() {
	shared s;
	s.active.set(N);
	for (int i = 0; i < N; i++) s.scope->launch(worker(s, i));
	hc::threads th;
	for (int i = 0; i < N; i++) th.add([&s, i] { s.ev[i].set(); });
	join_and(s, N, [&s] { s.scope.reset(); });
	th.join();
	CHECKM(s.joined.get() == 1, "join did not return");
	mc::outcome("ok");
}
MC_SCENARIO(mt_join1, 8, 12, 2, 3, 0) { mt_join<1>(); }
MC_SCENARIO(mt_join2, 8, 10, 2, 3, 0) { mt_join<2>(); }
MC_SCENARIO(mt_join3, 4, 5, 1, 2, 0) { mt_join<3>(); }

// the future of a join
template<int N> static void mt_future() {
	shared s;
	s.active.set(N);
	for (int i = 0; i < N; i++) s.scope->launch(worker(s, i));
	hc::threads th;
	for (int i = 0; i < N; i++) th.add([&s, i] { s.ev[i].set(); });
	auto f = s.scope->join_future();
	f.get();
	CHECKM(s.active.get() == 0, "the join future is ready with %d active tasks", s.active.get());
	for (int i = 0; i < N; i++) CHECK(s.data[i] == i + 1);
	s.scope.reset();
	th.join();
	mc::outcome("ok");
}
MC_SCENARIO(mt_future1, 10, 14, 3, 4, 0) { mt_future<1>(); }
MC_SCENARIO(mt_future2, 4, 6, 2, 2, 0) { mt_future<2>(); }

// the scope is used again right after join
MC_SCENARIO(mt_reuse, 7, 9, 2, 3, 0) {
	shared s;
	s.active.set(2);
	s.scope->launch(worker(s, 0));
	mc::counter joined2;
	struct run {
		static hc::co go(shared& s, mc::counter& joined2) {
			co_await s.scope->join();
			CHECKM(s.active.get() == 1, "join returned early");
			CHECKM(s.joined.inc() == 1, "join returned twice");
			CHECK(s.data[0] == 1);
			s.scope->launch(worker(s, 1));
			co_await s.scope->join();
			CHECKM(s.active.get() == 0, "second join returned early");
			CHECKM(joined2.inc() == 1, "second join returned twice");
			CHECK(s.data[1] == 2);
			s.scope.reset();
		}
	};
	hc::threads th;
	th.add([&s] { s.ev[0].set(); });
	th.add([&s] { s.ev[1].set(); });
	run::go(s, joined2);
	th.join();
	CHECKM(s.joined.get() == 1 && joined2.get() == 1, "join did not return");
	mc::outcome("ok");
}
// tasks launch further tasks on other threads
MC_SCENARIO(mt_nested, 7, 9, 2, 3, 0) {
	shared s;
	s.active.set(2);
	struct run {
		static task<> outer(shared& s) {
			co_await s.ev[0];
			s.scope->launch(worker(s, 1));
			s.data[0] = 1;
			s.active.dec();
		}
	};
	s.scope->launch(run::outer(s));
	hc::threads th;
	th.add([&s] { s.ev[0].set(); });
	th.add([&s] { s.ev[1].set(); });
	join_and(s, 2, [&s] { s.scope.reset(); });
	th.join();
	CHECKM(s.joined.get() == 1, "join did not return");
	mc::outcome("ok");
}
// two joins at once: at most one of them waits, the other one is refused (or finds nothing to wait for)
MC_SCENARIO(mt_two_joins, 7, 9, 2, 3, 0) {
	shared s;
	s.active.set(1);
	s.scope->launch(worker(s, 0));
	mc::counter done[2], refused;
	struct run {
		static hc::co go(shared& s, mc::counter& done, mc::counter& refused) {
			bool threw = false;
			try { co_await s.scope->join(); } catch (std::logic_error&) { threw = true; }
			CHECKM(done.inc() == 1, "join returned twice");
			if (threw) refused.inc();
			else {
				CHECKM(s.active.get() == 0, "join returned with active tasks");
				CHECK(s.data[0] == 1);
			}
		}
	};
	hc::threads th;
	bool finish_late = mc::flip("finish late");
	if (!finish_late) th.add([&s] { s.ev[0].set(); });
	th.add([&] { run::go(s, done[0], refused); });
	run::go(s, done[1], refused);
	if (finish_late) {
		for (auto& t : th.v) t.join();
		th.v.clear();
		CHECKM(refused.get() == 1 && done[0].get() + done[1].get() == 1, "of two concurrent joins %d were refused", refused.get());
		s.ev[0].set();
	}
	th.join();
	CHECKM(done[0].get() == 1 && done[1].get() == 1, "join did not return");
	CHECKM(refused.get() <= 1, "both joins were refused");
	mc::outcome("refused=%d", refused.get());
}
// launching from another thread while a join waits for a first task
MC_SCENARIO(mt_launch_during_join, 7, 9, 2, 3, 0) {
	shared s;
	s.active.set(2);
	mc::counter launched;
	s.scope->launch(worker(s, 0));
	s.scope->launch(worker(s, 2));
	hc::threads th;
	// the launching thread owns task 2, so the scope is not finished before it launched
	th.add([&s] {
		s.active.inc();
		s.scope->launch(worker(s, 1));
		s.ev[1].set();
		s.ev[2].set();
	});
	th.add([&s] { s.ev[0].set(); });
	join_and(s, 3, [&s] { s.scope.reset(); });
	th.join();
	CHECKM(s.joined.get() == 1, "join did not return");
	mc::outcome("ok");
}
