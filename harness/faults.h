// Fault injection of C28: every allocation, thread creation or use of a value may be the one that fails.
#pragma once
#include "common.h"

namespace hc {
	struct boom {};
	/// what fails inside of the armed region of the arming thread
	struct fault {
		enum { NONE, VALUE, ALLOC, THREAD };
		int left = 0, tid = -1, fired = 0;
		static inline fault* cur;
		fault() { cur = this; }
		fault(const fault&) = delete;
		~fault() { cur = nullptr; }
		/// the n-th event of this kind fails
		void arm(int kind, int n) {
			quiet_arm(kind == VALUE ? n : 0);
			mcrt_fail_alloc(kind == ALLOC ? n : 0);
			mcrt_fail_thread(kind == THREAD ? n : 0);
		}
		void disarm() { arm(NONE, 0); }
		static void hit() {
			bool f = false;
			if (cur) {
				mc::quiet_local q;
				if (cur->left && cur->tid == mc::tid()) { f = --cur->left == 0; cur->fired += f; }
			}
			if (f) throw boom{};
		}
	private:
		void quiet_arm(int n) { mc::quiet_local q; left = n; tid = mc::tid(); }
	};
	/// one of the failure points: nothing, up to `values` uses of a value, up to `allocs` allocations, up to `threads` thread creations
	struct plan {
		int kind, n;
		plan(int values, int allocs, int threads = 0) : kind(fault::NONE), n(0) {
			int c = mc::choose(1 + values + allocs + threads, "failure");
			if (c == 0) return;
			if (c <= values) { kind = fault::VALUE; n = c; return; }
			c -= values;
			if (c <= allocs) { kind = fault::ALLOC; n = c; return; }
			kind = fault::THREAD; n = c - allocs;
		}
	};
	/// Value whose copies and moves may fail. A failing one leaves the source as it was.
	struct fval {
		int v;
		mc::tracked t;
		static inline mc::counter* live;
		explicit fval(int x) : v(x), t(live) { fault::hit(); }
		fval(int x, std::nothrow_t) noexcept : v(x), t(live) {}
		fval(fval&& o) : v(o.v), t(live) { fault::hit(); o.v = -7; }
		fval& operator=(fval&& o) { fault::hit(); v = o.v; o.v = -7; return *this; }
	};
	struct cfval : fval {
		using fval::fval;
		cfval(cfval&&) = default;
		cfval& operator=(cfval&&) = default;
		cfval(const cfval& o) : fval(o.v, std::nothrow) { fault::hit(); }
		cfval& operator=(const cfval& o) { fault::hit(); v = o.v; return *this; }
	};
	/// world of a scenario with failures
	struct fault_world {
		mc::counter live;
		fault f;
		fault_world() { fval::live = &live; }
		~fault_world() { fval::live = nullptr; }
		/// run fn with the failure armed; true if it threw
		template<class F> bool fails(const plan& p, F&& fn) {
			bool threw = false;
			f.arm(p.kind, p.n);
			try { fn(); }
			catch (const boom&) { threw = true; }
			catch (const std::bad_alloc&) { threw = true; }
			catch (const std::system_error&) { threw = true; }
			f.disarm();
			return threw;
		}
	};
}
