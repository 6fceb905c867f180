// C26: coroutine frame allocators
#include "common.h"
#include <asyncpp/async_generator.h>
#include <asyncpp/fire_and_forget.h>
#include <asyncpp/generator.h>
#include <asyncpp/launch.h>
#include <asyncpp/task.h>
using namespace asyncpp;

namespace {
	// Memory resources of the harness. Every block remembers the resource it came from.
	struct resource {
		struct block { void* p; size_t n; };
		std::vector<block> blocks; // live blocks
		int allocs = 0, frees = 0;
		bool fail = false;
		mc::counter handles; // live allocator objects using this resource
		std::byte* allocate(size_t n) {
			if (fail) throw std::bad_alloc();
			allocs++;
			auto p = static_cast<std::byte*>(::operator new(n));
			mc::quiet_local q;
			blocks.push_back({p, n});
			return p;
		}
		void deallocate(std::byte* p, size_t n) {
			frees++;
			bool found = false;
			for (auto it = blocks.begin(); it != blocks.end(); ++it) {
				if (it->p != p) continue;
				CHECKM(it->n == n, "a block of %zu bytes is returned with a size of %zu", it->n, n);
				blocks.erase(it);
				found = true;
				break;
			}
			CHECKM(found, "a block is returned to a resource it does not come from (or was returned already)");
			::operator delete(p);
		}
		// everything allocated so far has been returned
		bool balanced() const { return blocks.empty() && allocs == frees; }
	};
	resource* global; // resource of the stateless allocators
	resource* current[2];

	// stateless
	struct empty_alloc {
		using value_type = std::byte;
		std::byte* allocate(size_t n) { return global->allocate(n); }
		void deallocate(std::byte* p, size_t n) { global->deallocate(p, n); }
		static constexpr bool tracked = false;
		static empty_alloc make(int) { return {}; }
	};
	// plain reference, like the one of the tests
	struct ref_alloc {
		using value_type = std::byte;
		resource& r;
		std::byte* allocate(size_t n) { return r.allocate(n); }
		void deallocate(std::byte* p, size_t n) { r.deallocate(p, n); }
		static constexpr bool tracked = false;
		static ref_alloc make(int i) { return {*current[i]}; }
	};
	// 1 byte of state
	struct tiny_alloc {
		using value_type = std::byte;
		unsigned char idx;
		std::byte* allocate(size_t n) { return current[idx]->allocate(n); }
		void deallocate(std::byte* p, size_t n) { current[idx]->deallocate(p, n); }
		static constexpr bool tracked = false;
		// for copies of containers; the allocator given to a coroutine is always used itself
		tiny_alloc select_on_container_copy_construction() const { return {static_cast<unsigned char>(idx ^ 1)}; }
		static tiny_alloc make(int i) { return {static_cast<unsigned char>(i)}; }
	};
	// allocator with a life time, of any size and alignment
	template<size_t Extra, size_t Align = 8>
	struct alignas(Align) handle_alloc {
		using value_type = std::byte;
		using is_always_equal = std::false_type;
		resource* r;
		unsigned char extra[Extra];
		explicit handle_alloc(resource* r) : r(r) { r->handles.inc(); fill(); }
		handle_alloc(const handle_alloc& o) : r(o.r) { o.check(); r->handles.inc(); fill(); }
		handle_alloc(handle_alloc&& o) noexcept : r(o.r) { o.check(); r->handles.inc(); fill(); }
		handle_alloc& operator=(const handle_alloc&) = delete;
		~handle_alloc() { check(); r->handles.dec(); extra[0] = 0; }
		void fill() { for (auto& e : extra) e = 0x5a; }
		void check() const {
			CHECKM(reinterpret_cast<uintptr_t>(this) % Align == 0, "the allocator object is misaligned");
			for (auto e : extra) CHECKM(e == 0x5a, "the allocator object is destroyed or overwritten");
		}
		std::byte* allocate(size_t n) { check(); return r->allocate(n); }
		void deallocate(std::byte* p, size_t n) { check(); r->deallocate(p, n); }
		static constexpr bool tracked = true;
		handle_alloc select_on_container_copy_construction() const { return handle_alloc(current[r == current[0]]); }
		static handle_alloc make(int i) { return handle_alloc(current[i]); }
	};
	// allocator that is empty, but whose objects are not interchangeable by their own account is covered by tiny_alloc;
	// this one has state that does not matter
	struct equal_alloc {
		using value_type = std::byte;
		using is_always_equal = std::true_type;
		int unused[3];
		std::byte* allocate(size_t n) { return global->allocate(n); }
		void deallocate(std::byte* p, size_t n) { global->deallocate(p, n); }
		static constexpr bool tracked = false;
		static equal_alloc make(int) { return {}; }
	};

	struct gate_t {
		std::coroutine_handle<> waiting{};
		bool await_ready() const noexcept { return false; }
		void await_suspend(std::coroutine_handle<> h) { waiting = h; }
		void await_resume() noexcept { waiting = {}; }
		void open() { std::exchange(waiting, nullptr).resume(); }
	};
	struct ctx {
		gate_t gate;
		mc::counter params, locals;
		bool suspends, throws, exn = false;
		int ran = 0, finished = 0;
	};
	// alignment sensitive locals
	struct wide {
		alignas(16) unsigned char data[48];
		wide() { for (auto& e : data) e = 0xa5; }
		void check() const {
			CHECKM(reinterpret_cast<uintptr_t>(data) % 16 == 0, "the frame is misaligned");
			for (auto e : data) CHECKM(e == 0xa5, "the frame was overwritten");
		}
	};
	template<class A, class V = int> task<V, A> make_task(ctx& c, mc::tracked, std::decay_t<const A&>) {
		c.ran++;
		wide w;
		mc::tracked l(&c.locals);
		if (c.suspends) co_await c.gate;
		w.check();
		if (c.throws) throw hc::exn{1};
		c.finished++;
		static int global = 42;
		if constexpr (std::is_void_v<V>) co_return;
		else co_return global;
	}
	// values, references and rvalue references have promises of their own
	template<class A, class V = int> generator<V, A> make_gen(ctx& c, mc::tracked, const A&) {
		c.ran++;
		wide w;
		mc::tracked l(&c.locals);
		int one = 1, two = 2;
		co_yield std::move(one);
		w.check();
		co_yield std::move(two);
		w.check();
		if (c.throws) throw hc::exn{1};
		c.finished++;
	}
	template<class A, class V = int> async_generator<V, A> make_agen(ctx& c, mc::tracked, A&&) {
		c.ran++;
		wide w;
		mc::tracked l(&c.locals);
		int one = 1, two = 2;
		co_yield std::move(one);
		w.check();
		if (c.suspends) co_await c.gate;
		w.check();
		co_yield std::move(two);
		w.check();
		if (c.throws) throw hc::exn{1};
		c.finished++;
	}
	template<class A> fire_and_forget_task<A> make_faf(ctx& c, mc::tracked, const A&) {
		c.ran++;
		if (c.throws) co_await exception_policy::handle([&c] { try { throw; } catch (hc::exn&) { c.exn = true; } });
		wide w;
		mc::tracked l(&c.locals);
		if (c.suspends) co_await c.gate;
		w.check();
		if (c.throws) throw hc::exn{1};
		c.finished++;
	}
	template<class A> eager_fire_and_forget_task<A> make_eager(ctx& c, mc::tracked, A) {
		c.ran++;
		if (c.throws) co_await exception_policy::handle([&c] { try { throw; } catch (hc::exn&) { c.exn = true; } });
		wide w;
		mc::tracked l(&c.locals);
		if (c.suspends) co_await c.gate;
		w.check();
		if (c.throws) throw hc::exn{1};
		c.finished++;
	}
	// member functions: the object comes first, the allocator is still last
	template<class A> struct object {
		int v = 7;
		task<int, A> member(ctx& c, const A&) {
			c.ran++;
			wide w;
			if (c.suspends) co_await c.gate;
			w.check();
			if (c.throws) throw hc::exn{1};
			c.finished++;
			co_return v;
		}
	};
	// plain awaitable used with launch
	struct body {
		ctx* c;
		mc::tracked t;
		bool await_ready() const noexcept { c->ran++; return !c->suspends; }
		void await_suspend(std::coroutine_handle<> h) { c->gate.waiting = h; }
		void await_resume() { c->gate.waiting = {}; c->finished++; }
	};

	enum { K_TASK, K_TASK_VOID, K_MEMBER, K_GEN, K_GEN_REF, K_GEN_RV, K_AGEN, K_AGEN_REF, K_AGEN_RV, K_FAF, K_EAGER, K_LAUNCH, K_SLAUNCH, K_SINVOKE, K_SJOIN, K_MAX };
	template<class A> void use(resource& res, int idx) {
		// the frame must have been taken from res, in one piece
		ctx c;
		int kind = mc::choose(K_MAX, "kind");
		c.throws = mc::flip("throws");
		c.suspends = mc::flip("suspends");
		int drop = mc::choose(3, "drop"); // 0: runs to the end; 1: dropped unstarted; 2: dropped while suspended
		if (kind >= K_LAUNCH && (c.throws || drop)) mc::assume(false);
		if ((kind == K_EAGER && drop) || (kind == K_FAF && drop == 2)) mc::assume(false);
		if (drop && c.throws) mc::assume(false);
		if (drop == 2 && !c.suspends && (kind < K_GEN || kind > K_AGEN_RV)) mc::assume(false);
		bool fails = kind != K_SJOIN && mc::flip("out of memory");
		if (fails && (drop || c.throws)) mc::assume(false);
		int allocs0 = res.allocs, handles0 = res.handles.get();
		bool failed = false, got_exn = false;
		int expect_frames = 1;
		res.fail = fails;
		async_launch_scope scope;
		auto created = [&] {
			res.fail = false;
			CHECKM(res.allocs == allocs0 + expect_frames, "%d allocations instead of %d", res.allocs - allocs0, expect_frames);
		};
		auto use_make_gen = [&]<class V>(std::type_identity<V>) {
			auto g = make_gen<A, V>(c, mc::tracked(&c.params), A::make(idx));
			created();
			if (drop == 1) return;
			int sum = 0;
			try {
				for (auto&& v : g) {
					sum += v;
					if (drop == 2 && v == 1 + c.suspends) break;
				}
			} catch (hc::exn&) { got_exn = true; }
			CHECK(got_exn == c.throws);
			CHECK(drop || sum == 3);
		};
		auto use_make_agen = [&]<class V>(std::type_identity<V>) {
			auto g = make_agen<A, V>(c, mc::tracked(&c.params), A::make(idx));
			created();
			if (drop == 1) return;
			int sum = 0;
			bool done = false;
			auto run = [](async_generator<V, A> g, int& sum, bool& exn, bool& done, int stop) -> task<> {
				try {
					auto it = co_await g.begin();
					while (it != g.end()) {
						sum += *it;
						if (*it == stop) { done = true; co_return; }
						co_await ++it;
					}
				} catch (hc::exn&) { exn = true; }
				done = true;
			};
			// stop: 1 or 2: the consumer ends while the generator is suspended at a value
			// (or with a pending value: it is destroyed from outside)
			int stop = drop == 2 ? 1 + mc::choose(2, "stop") : 0;
			bool inner = drop == 2 && c.suspends && stop == 2;
			auto t = run(std::move(g), sum, got_exn, done, stop);
			auto aw = std::move(t).operator co_await();
			aw.await_suspend(std::noop_coroutine()).resume();
			if (inner) {
				CHECK(!done && bool(c.gate.waiting));
				return; // everything is destroyed with the generator waiting inside
			}
			if (c.suspends && stop != 1) c.gate.open();
			CHECK(done);
			CHECK(got_exn == c.throws);
			CHECK(drop || sum == 3);
		};
		try {
			switch (kind) {
			case K_TASK:
			case K_MEMBER: {
				object<A> obj;
				auto t = kind == K_TASK ? make_task<A>(c, mc::tracked(&c.params), A::make(idx)) : obj.member(c, A::make(idx));
				created();
				if (drop == 1) break;
				int got = 0;
				auto run = [](task<int, A>& t, int& got, bool& exn) -> hc::co {
					try { got = co_await std::move(t); } catch (hc::exn&) { exn = true; }
				};
				if (drop == 2) {
					// suspended inside of an outer frame that is destroyed
					auto outer = [](task<int, A> t) -> task<> { co_await std::move(t); }(std::move(t));
					auto aw = std::move(outer).operator co_await();
					aw.await_suspend(std::noop_coroutine()).resume();
					CHECKM(bool(c.gate.waiting), "the task did not reach its suspension");
					break;
				}
				run(t, got, got_exn);
				if (c.suspends) c.gate.open();
				CHECK(c.throws ? got_exn : got == (kind == K_TASK ? 42 : 7));
				break;
			}
			case K_GEN: use_make_gen(std::type_identity<int>{}); break;
			case K_GEN_REF: use_make_gen(std::type_identity<int&>{}); break;
			case K_GEN_RV: use_make_gen(std::type_identity<int&&>{}); break;
			case K_AGEN: use_make_agen(std::type_identity<int>{}); break;
			case K_AGEN_REF: use_make_agen(std::type_identity<int&>{}); break;
			case K_AGEN_RV: use_make_agen(std::type_identity<int&&>{}); break;
			case K_TASK_VOID: {
				auto go = [&]<class V>(std::type_identity<V>) {
					auto t = make_task<A, V>(c, mc::tracked(&c.params), A::make(idx));
					created();
					if (drop == 1) return;
					bool done = false;
					if (drop == 2) {
						auto outer = [](task<V, A> t) -> task<> { co_await std::move(t); }(std::move(t));
						auto aw = std::move(outer).operator co_await();
						aw.await_suspend(std::noop_coroutine()).resume();
						CHECKM(bool(c.gate.waiting), "the task did not reach its suspension");
						return;
					}
					auto run = [](task<V, A>& t, bool& done, bool& exn) -> hc::co {
						try { co_await std::move(t); done = true; } catch (hc::exn&) { exn = true; }
					};
					run(t, done, got_exn);
					if (c.suspends) c.gate.open();
					CHECK(c.throws ? got_exn : done);
				};
				go(std::type_identity<void>{});
				break;
			}
			case K_FAF: {
				auto t = make_faf<A>(c, mc::tracked(&c.params), A::make(idx));
				created();
				if (drop == 1) break;
				t.start();
				if (c.suspends) c.gate.open();
				CHECK(c.exn == c.throws);
				break;
			}
			case K_EAGER: {
				auto t = make_eager<A>(c, mc::tracked(&c.params), A::make(idx));
				created();
				if (c.suspends) c.gate.open();
				CHECK(c.exn == c.throws);
				break;
			}
			case K_LAUNCH:
				launch(body{&c, mc::tracked(&c.params)}, A::make(idx));
				created();
				if (c.suspends) c.gate.open();
				CHECK(c.finished == 1);
				break;
			case K_SLAUNCH:
				scope.launch(body{&c, mc::tracked(&c.params)}, A::make(idx));
				created();
				CHECK(scope.inflight_coroutines() == size_t(c.suspends));
				if (c.suspends) c.gate.open();
				CHECK(c.finished == 1);
				break;
			case K_SINVOKE:
				scope.invoke_tuple([&c, t = mc::tracked(&c.params)](int v) { CHECK(v == 3); return body{&c, t}; }, std::tuple<int>(3), A::make(idx));
				created();
				CHECK(scope.inflight_coroutines() == size_t(c.suspends));
				if (c.suspends) c.gate.open();
				CHECK(c.finished == 1);
				break;
			case K_SJOIN: {
				scope.launch(body{&c, mc::tracked(&c.params)});
				allocs0 = res.allocs;
				auto f = scope.join_future(A::make(idx));
				created();
				if (c.suspends) c.gate.open();
				CHECK(f.wait_for(std::chrono::seconds(0)) == std::future_status::ready);
				f.get();
				break;
			}
			}
		} catch (std::bad_alloc&) {
			failed = true;
			res.fail = false;
		}
		CHECKM(failed == fails, failed ? "unexpected bad_alloc" : "the allocation failure was not reported");
		if (failed) CHECKM(c.ran == 0 && res.allocs == allocs0, "the coroutine runs without a frame");
		CHECKM(scope.all_done(), "the scope still counts a task");
		CHECKM(res.balanced(), "%zu blocks were not returned", res.blocks.size());
		CHECKM(c.params.get() == 0 && c.locals.get() == 0, "%d parameters and %d locals are alive at the end", c.params.get(), c.locals.get());
		CHECKM(res.handles.get() == handles0, "%d allocator objects were not destroyed", res.handles.get() - handles0);
		if (!drop && !failed) CHECK(c.ran == 1 && c.finished == !c.throws);
	}
	template<class A> void all(bool shared) {
		resource r0, r1;
		current[0] = &r0;
		current[1] = &r1;
		int idx = shared ? 0 : mc::choose(2, "resource");
		resource g;
		global = &g;
		use<A>(shared ? g : *current[idx], idx);
		CHECK(r0.balanced() && r1.balanced() && g.balanced());
		for (resource* r : {&r0, &r1, &g}) CHECKM(r->allocs == 0 || r == (shared ? &g : current[idx]), "memory was taken from the wrong allocator");
		CHECK(r0.handles.get() == 0 && r1.handles.get() == 0);
	}
	MC_SCENARIO(stateless, 0, 0, 0, 0, 0) { all<empty_alloc>(true); }
	MC_SCENARIO(always_equal, 0, 0, 0, 0, 0) { all<equal_alloc>(true); }
	MC_SCENARIO(reference, 0, 0, 0, 0, 0) { all<ref_alloc>(false); }
	MC_SCENARIO(one_byte, 0, 0, 0, 0, 0) { all<tiny_alloc>(false); }
	MC_SCENARIO(size16, 0, 0, 0, 0, 0) { all<handle_alloc<8>>(false); }
	MC_SCENARIO(size24, 0, 0, 0, 0, 0) { all<handle_alloc<16>>(false); }
	MC_SCENARIO(size40, 0, 0, 0, 0, 0) { all<handle_alloc<32>>(false); }
	MC_SCENARIO(size32_align16, 0, 0, 0, 0, 0) { all<handle_alloc<16, 16>>(false); }

	// Two frames of different allocators alive at once, released in both orders, also on other threads
	template<class A> void two_frames() {
		resource r0, r1;
		current[0] = &r0;
		current[1] = &r1;
		ctx c0, c1;
		c0.suspends = c1.suspends = false;
		c0.throws = c1.throws = false;
		int a = mc::choose(2), b = mc::choose(2), swap = mc::choose(2), order = mc::choose(3);
		{
			std::optional<task<int, A>> t0(make_task<A>(c0, mc::tracked(&c0.params), A::make(a)));
			std::optional<task<int, A>> t1(make_task<A>(c1, mc::tracked(&c1.params), A::make(b)));
			CHECK(current[a]->blocks.size() + (a != b ? current[b]->blocks.size() : 0) == 2);
			if (swap) std::swap(t0, t1);
			if (order == 0) { t0.reset(); t1.reset(); }
			else if (order == 1) { t1.reset(); t0.reset(); }
			else {
				std::thread th([&] { t0.reset(); });
				th.join();
				*t1 = make_task<A>(c0, mc::tracked(&c0.params), A::make(0)); // replaces the frame
				CHECK(r0.blocks.size() == 1 && r1.blocks.empty());
			}
		}
		CHECK(r0.balanced() && r1.balanced() && r0.handles.get() == 0 && r1.handles.get() == 0);
		CHECK(c0.params.get() == 0 && c1.params.get() == 0);
	}
	MC_SCENARIO(two_frames_reference, 1, 1, 0, 0, 0) { two_frames<ref_alloc>(); }
	MC_SCENARIO(two_frames_size24, 1, 1, 0, 0, 0) { two_frames<handle_alloc<16>>(); }
	MC_SCENARIO(two_frames_one_byte, 1, 1, 0, 0, 0) { two_frames<tiny_alloc>(); }

	// Default allocator: any failing allocation is reported, nothing leaks
	MC_SCENARIO(default_allocator, 0, 0, 0, 0, 0) {
		using A = std::allocator<std::byte>;
		ctx c;
		c.suspends = mc::flip();
		c.throws = false;
		int kind = mc::choose(7);
		bool fails = mc::flip();
		bool failed = false;
		async_launch_scope scope;
		long blocks = mcrt_live_blocks();
		auto arm = [&] { if (fails) mcrt_fail_alloc(1); };
		A al;
		try {
			switch (kind) {
			case 0: { mc::tracked p(&c.params); arm(); auto t = make_task<A>(c, p, al); break; }
			case 1: { mc::tracked p(&c.params); arm(); auto t = make_gen<A>(c, p, al); break; }
			case 2: { mc::tracked p(&c.params); arm(); auto t = make_agen<A>(c, p, A(al)); break; }
			case 3: { mc::tracked p(&c.params); arm(); auto t = make_faf<A>(c, p, al); break; }
			case 4: { c.suspends = false; mc::tracked p(&c.params); arm(); auto t = make_eager<A>(c, p, al); break; }
			case 5: { arm(); scope.launch(body{&c, mc::tracked(&c.params)}); break; }
			case 6: { arm(); scope.invoke([&c](mc::tracked t) { return body{&c, t}; }, mc::tracked(&c.params)); break; }
			}
		} catch (std::bad_alloc&) { failed = true; }
		mcrt_fail_alloc(0);
		CHECK(failed == fails);
		if (failed) CHECKM(c.ran == 0 && scope.all_done(), "the coroutine runs without a frame");
		else if (c.gate.waiting) c.gate.open();
		CHECK(scope.all_done() && c.params.get() == 0);
		CHECKM(mcrt_live_blocks() == blocks, "memory leaked");
	}
} // namespace
