// Helpers shared by the harnesses.
#pragma once
#include <mc.h>
#include <asyncpp/dispatcher.h>
#include <asyncpp/detail/std_import.h>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <exception>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <thread>
#include <utility>
#include <vector>

namespace hc {
	/// Detached coroutine: starts eagerly, frees its frame at the end. Independent of asyncpp.
	struct co {
		struct promise_type {
			co get_return_object() noexcept { return {}; }
			asyncpp::suspend_never initial_suspend() noexcept { return {}; }
			asyncpp::suspend_never final_suspend() noexcept { return {}; }
			void return_void() noexcept {}
			void unhandled_exception() { mc::check(false, "unexpected exception left a harness coroutine"); }
		};
	};
	/// A deque all of whose operations touch one memory location: using it without a lock is a data race even if the
	/// operations happen to be at different ends
	template<class T>
	struct touchy_deque {
		using value_type = T;
		using size_type = std::size_t;
		using reference = T&;
		using const_reference = const T&;
		std::deque<T> d;
		int changes = 0;
		int look() const { return *const_cast<volatile const int*>(&changes); }
		reference front() { look(); return d.front(); }
		const_reference front() const { look(); return d.front(); }
		reference back() { look(); return d.back(); }
		const_reference back() const { look(); return d.back(); }
		void push_back(const T& v) { changes++; d.push_back(v); }
		void push_back(T&& v) { changes++; d.push_back(std::move(v)); }
		template<class... A> decltype(auto) emplace_back(A&&... a) { changes++; return d.emplace_back(std::forward<A>(a)...); }
		void pop_front() { changes++; d.pop_front(); }
		bool empty() const { look(); return d.empty(); }
		size_type size() const { look(); return d.size(); }
		bool operator==(const touchy_deque&) const = default;
	};
	/// Thread helper
	struct threads {
		std::vector<std::thread> v;
		template<class F> void add(F&& f) { v.emplace_back(std::forward<F>(f)); }
		void join() { for (auto& t : v) t.join(); v.clear(); }
		~threads() { join(); }
	};
	/// Dispatcher of the harness: a FIFO that only runs when told to.
	struct manual_dispatcher : asyncpp::dispatcher {
		std::mutex mtx;
		std::deque<std::function<void()>> q;
		mc::counter pushed;
		void push(std::function<void()> fn) override {
			pushed.inc();
			std::lock_guard lck{mtx};
			q.push_back(std::move(fn));
		}
		/// run one entry as this dispatcher, returns false if empty
		bool run_one() {
			std::function<void()> fn;
			{
				std::lock_guard lck{mtx};
				if (q.empty()) return false;
				fn = std::move(q.front());
				q.pop_front();
			}
			auto old = asyncpp::dispatcher::current(this);
			fn();
			asyncpp::dispatcher::current(old);
			return true;
		}
		int run_all() { int n = 0; while (run_one()) n++; return n; }
	};
	/// Runs everything inside of push()
	struct inline_dispatcher : asyncpp::dispatcher {
		mc::counter pushed;
		void push(std::function<void()> fn) override {
			pushed.inc();
			auto old = asyncpp::dispatcher::current(this);
			fn();
			fn = {};
			asyncpp::dispatcher::current(old);
		}
	};
	/// One of: no dispatcher, one that runs inside push(), one that runs later, one with an own thread
	struct any_dispatcher {
		enum { NONE, INLINE, LATER, THREAD };
		int kind;
		inline_dispatcher in;
		manual_dispatcher later;
		std::mutex mtx;
		std::condition_variable cv;
		bool stop = false;
		struct thread_dispatcher : asyncpp::dispatcher {
			any_dispatcher& p;
			explicit thread_dispatcher(any_dispatcher& p) : p(p) {}
			void enter() { current(this); }
			void push(std::function<void()> fn) override {
				{
					std::lock_guard lck{p.mtx};
					p.later.q.push_back(std::move(fn));
				}
				p.cv.notify_one();
			}
		} thr{*this};
		std::thread worker;
		explicit any_dispatcher(int k) : kind(k) {
			if (kind == THREAD) worker = std::thread([this] {
				thr.enter();
				std::unique_lock lck{mtx};
				while (true) {
					while (later.q.empty() && !stop) cv.wait(lck);
					if (later.q.empty()) return;
					auto fn = std::move(later.q.front());
					later.q.pop_front();
					lck.unlock();
					fn();
					fn = {};
					lck.lock();
				}
			});
		}
		asyncpp::dispatcher* get() {
			switch (kind) {
			case INLINE: return &in;
			case LATER: return &later;
			case THREAD: return &thr;
			default: return nullptr;
			}
		}
		/// run everything that was pushed
		void drain() { if (kind == LATER) later.run_all(); }
		/// end the thread after it executed everything; push() is no longer allowed (except for LATER)
		void finish() {
			drain();
			if (worker.joinable()) {
				{ std::lock_guard lck{mtx}; stop = true; }
				cv.notify_one();
				worker.join();
				kind = LATER; // what comes now is run by drain()
			}
		}
		~any_dispatcher() { finish(); }
	};
	/// sequence of choices on a single thread: for (int i...) switch (mc::choose(n))
	struct exn { int v; };
}
