// C13: thread pool
#include "common.h"
#include <random>
// The pool picks a queue at random: explore every pick instead
static int rand_choices = 2;
namespace std {
	struct mc_rand {
		using result_type = uint_fast32_t;
		static constexpr result_type min() { return 0; }
		static constexpr result_type max() { return 0xffffffffu; }
		mc_rand() = default;
		template<typename... T>
		explicit mc_rand(T&&...) {}
		template<typename... T>
		void seed(T&&...) {}
		void discard(unsigned long long) {}
		// choice c of n is a value whose remainder by n and whose position in the range are both c
		result_type operator()() {
			unsigned n = (unsigned)rand_choices, c = (unsigned)mc::choose(rand_choices, "queue");
			uint64_t v = (((uint64_t)c << 32) + n - 1) / n;
			while (v % n != c) v++;
			return (result_type)v;
		}
	};
}
#define minstd_rand mc_rand
#define minstd_rand0 mc_rand
#define mt19937 mc_rand
#define mt19937_64 mc_rand
#define default_random_engine mc_rand
#include <asyncpp/thread_pool.h>
#undef minstd_rand
#undef minstd_rand0
#undef mt19937
#undef mt19937_64
#undef default_random_engine
using namespace asyncpp;

// Callables are tracked: executed at most once, on a thread of the right pool
struct task_set {
	static constexpr int MAX = 12;
	mc::counter runs[MAX], live;
	int data[MAX] = {}; // plain, written before the push
	thread_pool* pool[MAX] = {};
	int n = 0;
	struct fn {
		task_set* s;
		int id;
		mc::tracked t;
		std::shared_ptr<std::function<void()>> body;
		void operator()() const {
			CHECKM(s->data[id] == id + 1, "task does not see what was written before the push");
			CHECKM(dispatcher::current() == s->pool[id], "task %d runs on the wrong dispatcher", id);
			CHECKM(mc::tid() != 0, "task %d runs on the main thread", id);
			CHECKM(s->runs[id].inc() == 1, "task %d was executed twice", id);
			if (*body) (*body)();
		}
	};
	// returns -1 if refused
	int push(thread_pool& p, std::function<void()> body = {}, int id = -1) {
		if (id < 0) { mc::quiet q(this); id = n++; }
		data[id] = id + 1;
		pool[id] = &p;
		try {
			p.push(fn{this, id, mc::tracked(&live), std::make_shared<std::function<void()>>(std::move(body))});
			return id;
		} catch (std::runtime_error&) { return -1; }
	}
	void done(int id, int expect = 1) { CHECKM(runs[id].get() == expect, "task %d was executed %d times", id, runs[id].get()); }
	~task_set() { CHECKM(live.get() == 0, "%d callables alive at the end", live.get()); }
};
#define B(q, t) (mc::thorough() ? (t) : (q))
// plain use: pushes from outside, destruction executes everything
MC_SCENARIO(basic, 2, 3, 0, 0, 0) {
	task_set s;
	int threads = mc::choose(2) + 1;
	rand_choices = threads;
	int n = mc::choose(3) + 1, acc[3];
	{
		thread_pool p(threads);
		CHECK(p.size() == size_t(threads));
		p.push({});
		for (int i = 0; i < n; i++) acc[i] = s.push(p);
	}
	for (int i = 0; i < n; i++) { CHECK(acc[i] >= 0); s.done(i); }
}
MC_SCENARIO(basic_weak, 2, 3, 2, 3, 0) {
	task_set s;
	rand_choices = 2;
	{
		thread_pool p(2);
		CHECK(s.push(p) >= 0);
		CHECK(s.push(p) >= 0);
	}
	s.done(0);
	s.done(1);
}
// two outside threads push
MC_SCENARIO(two_pushers, 2, 3, 0, 0, 0) {
	task_set s;
	rand_choices = 2;
	{
		thread_pool p(2);
		hc::threads th;
		th.add([&] { CHECK(s.push(p, {}, 5) == 5); });
		CHECK(s.push(p, {}, 6) == 6);
		th.join();
	}
	s.done(5);
	s.done(6);
}
// tasks push tasks, also while the pool is destroyed
MC_SCENARIO(own_push, 3, 4, 0, 0, 0) {
	task_set s;
	int threads = mc::choose(2) + 1;
	rand_choices = threads;
	int r1 = -2, r2 = -2;
	{
		thread_pool p(threads);
		CHECK(s.push(p, [&] {
			r1 = s.push(p, [&] { r2 = s.push(p, {}, 3); if (r2 < 0) CHECKM(p.size() == 0, "push refused by a pool with threads"); }, 2);
			if (r1 < 0) CHECKM(p.size() == 0, "push refused by a pool with threads");
		}, 1) == 1);
	}
	s.done(1);
	CHECK(r1 != -2);
	s.done(2, r1 >= 0);
	s.done(3, r2 >= 0);
}
// a task of one pool pushes to another pool
MC_SCENARIO(cross_pool, 2, 3, 0, 0, 0) {
	task_set s;
	rand_choices = 1;
	{
		thread_pool b(1);
		{
			thread_pool a(1);
			CHECK(s.push(a, [&] { CHECK(s.push(b, {}, 2) == 2); }, 1) == 1);
		}
		s.done(1);
	}
	s.done(2);
}
MC_SCENARIO(cross_pool_empty, 2, 3, 0, 0, 0) {
	task_set s;
	rand_choices = 1;
	{
		thread_pool b(0);
		thread_pool a(1);
		CHECK(s.push(a, [&] { CHECKM(s.push(b, {}, 2) == -1, "a pool without threads accepted a task"); }, 1) == 1);
	}
	s.done(1);
	s.done(2, 0);
}
// pushing while the pool shrinks
MC_SCENARIO(shrink, 2, 3, 0, 0, 0) {
	task_set s;
	rand_choices = 2;
	{
		thread_pool p(2);
		hc::threads th;
		th.add([&] { CHECK(s.push(p, {}, 5) == 5); });
		if (mc::flip("queued")) CHECK(s.push(p, {}, 6) == 6); else s.runs[6].inc();
		p.resize(1);
		CHECK(p.size() == 1);
		th.join();
	}
	s.done(5);
	s.done(6);
}
// tasks push to their own thread while the pool shrinks
MC_SCENARIO(shrink_own, 2, 3, 0, 0, 0) {
	task_set s;
	bool acc[8] = {};
	rand_choices = 2;
	{
		thread_pool p(2);
		CHECK(s.push(p, [&] {
			for (int i = 6; i < 8; i++) {
				acc[i] = s.push(p, {}, i) == i;
				if (!acc[i]) CHECKM(p.size() == 0, "push refused by a pool with threads");
			}
		}, 5) == 5);
		p.resize(1);
	}
	s.done(5);
	for (int i = 6; i < 8; i++) s.done(i, acc[i]);
}
// shrinking to zero: accepted tasks are executed, others refused
MC_SCENARIO(shrink_zero, 2, 4, 0, 0, 0) {
	task_set s;
	int threads = mc::choose(2) + 1, r = -2;
	rand_choices = 2;
	{
		thread_pool p(threads);
		hc::threads th;
		th.add([&] { r = s.push(p, {}, 5); });
		if (mc::flip("queued")) CHECK(s.push(p, {}, 6) == 6); else s.runs[6].inc();
		p.resize(0);
		CHECK(p.size() == 0);
		s.done(6);
		CHECKM(s.push(p, {}, 7) == -1, "a pool without threads accepted a task");
		th.join();
		s.done(5, r >= 0);
		if (mc::flip("reuse")) {
			p.resize(1);
			CHECK(s.push(p, {}, 8) == 8);
		} else s.runs[8].inc();
	}
	s.done(8);
}
// pushing and stealing while the pool grows
static void grow_impl(bool push_before) {
	task_set s;
	rand_choices = 2;
	{
		thread_pool p(1);
		hc::threads th;
		th.add([&] { CHECK(s.push(p, {}, 5) == 5); });
		if (push_before) CHECK(s.push(p, {}, 6) == 6);
		p.resize(2);
		CHECK(p.size() == 2);
		CHECK(s.push(p, {}, 7) == 7);
		th.join();
	}
	for (int i = 5; i < 8; i++) if (i != 6 || push_before) s.done(i);
}
MC_SCENARIO(grow, 2, 3, 0, 0, 0) { grow_impl(false); }
MC_SCENARIO(grow_busy, 1, 2, 0, 0, 0) { grow_impl(true); }
MC_SCENARIO(grow_from_task, 2, 3, 0, 0, 0) {
	task_set s;
	rand_choices = 2;
	{
		thread_pool p(1);
		CHECK(s.push(p, [&] { if (p.size() == 1) { p.resize(2); CHECK(s.push(p, {}, 7) == 7); } }, 5) == 5);
		while (s.runs[7].get() == 0) std::this_thread::sleep_for(std::chrono::milliseconds(150));
		CHECK(s.push(p, {}, 6) == 6);
	}
	for (int i = 5; i < 8; i++) s.done(i);
}
MC_SCENARIO(two_resizers, 2, 3, 0, 0, 0) {
	task_set s;
	rand_choices = 2;
	{
		thread_pool p(1);
		hc::threads th;
		th.add([&] { p.resize(2); });
		if (mc::flip("push")) CHECK(s.push(p, {}, 6) == 6); else s.runs[6].inc();
		p.resize(1);
		th.join();
		CHECK(p.size() == 1 || p.size() == 2);
	}
	s.done(6);
}
// progress: a task waits for a task it pushed (another thread has to steal it), outside threads wait for tasks
MC_SCENARIO(steal, 2, 3, 0, 0, 0) {
	task_set s;
	rand_choices = 2;
	{
		thread_pool p(2);
		std::mutex m;
		std::condition_variable cv;
		bool inner = false, outer = false;
		CHECK(s.push(p, [&] {
			CHECK(s.push(p, [&] { std::lock_guard l{m}; inner = true; cv.notify_all(); }, 6) == 6);
			std::unique_lock l{m};
			while (!inner) cv.wait(l);
			outer = true;
			cv.notify_all();
		}, 5) == 5);
		std::unique_lock l{m};
		while (!outer) cv.wait(l);
	}
	s.done(5);
	s.done(6);
}
MC_SCENARIO(progress, 3, 4, 0, 0, 0) {
	task_set s;
	rand_choices = 1;
	thread_pool p(1);
	std::mutex m;
	std::condition_variable cv;
	int n = 0;
	for (int i = 0; i < 2; i++) CHECK(s.push(p, [&] { std::lock_guard l{m}; n++; cv.notify_all(); }, 5 + i) == 5 + i);
	{
		std::unique_lock l{m};
		while (n < 2) cv.wait(l);
	}
	p.resize(0);
	s.done(5);
	s.done(6);
}
// a single thread executes the tasks of one pusher in order
MC_SCENARIO(fifo, 2, 3, 0, 0, 0) {
	task_set s;
	rand_choices = 1;
	mc::log l;
	{
		thread_pool p(1);
		for (int i = 0; i < 3; i++) CHECK(s.push(p, [&, i] { l.add(i); }) == i);
	}
	for (int i = 0; i < 3; i++) { s.done(i); CHECK(l.at(i) == i); }
}
// a pool that has been in use before: the ends of the queues are somewhere else in their memory
MC_SCENARIO(aged, 1, 2, 0, 0, 0) {
	task_set s;
	int threads = mc::choose(2) + 1;
	rand_choices = 1;
	mc::counter early;
	mc::log l;
	{
		thread_pool p(threads);
		int before = 13 + mc::choose(4, "earlier callables");
		for (int i = 0; i < before; i++) p.push([&] { early.inc(); });
		for (int i = 0; early.get() < before; i++) { CHECKM(i < 200, "tasks not executed"); std::this_thread::sleep_for(std::chrono::milliseconds(50)); }
		for (int i = 0; i < 3; i++) CHECK(s.push(p, [&, i] { l.add(i); }) == i);
	}
	for (int i = 0; i < 3; i++) { s.done(i); if (threads == 1) CHECK(l.at(i) == i); }
}
// destroying a callable pushes
MC_SCENARIO(destructor_pushes, 2, 3, 0, 0, 0) {
	task_set s;
	rand_choices = 1;
	int r = -2;
	{
		thread_pool p(1);
		struct on_destroy {
			task_set& s;
			thread_pool& p;
			int& r;
			~on_destroy() { r = s.push(p, {}, 6); }
		};
		auto obj = std::make_shared<on_destroy>(s, p, r);
		CHECK(s.push(p, [obj = std::move(obj)]() {}, 5) == 5);
	}
	CHECK(r != -2);
	s.done(5);
	s.done(6, r >= 0);
}
