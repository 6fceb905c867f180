// Linearizability oracle: records the operations of one execution and searches for a sequential order
// which is consistent with the real time order and explained by a sequential specification.
//
// A Spec is a small copyable struct with
//   void start(int id, int code, long arg);   // operation `id` takes effect
//   uint32_t done;                            // bit i: operation i may return, with ret[i]
//   long ret[MAX];
// Operations that can block are `started` when they take effect (e.g. enqueue themselves) and become `done`
// in that step or in the step of another operation.
#pragma once
#include "common.h"
#include <set>

namespace hc {
	struct lin_history {
		static constexpr int MAX = 24;
		struct op { int code; long arg; long ret; bool returned; };
		struct ev { int id; bool is_ret; };
		op ops[MAX];
		ev evs[2 * MAX];
		int nops = 0, nevs = 0;
		int begin(int code, long arg = 0) {
			mc::quiet q(this);
			if (nops >= MAX) mcrt_fail("harness: too many operations in history");
			ops[nops] = {code, arg, 0, false};
			evs[nevs++] = {nops, false};
			return nops++;
		}
		void end(int id, long ret = 0) {
			mc::quiet q(this);
			if (ops[id].returned) mcrt_fail("an operation continued twice");
			ops[id].ret = ret;
			ops[id].returned = true;
			evs[nevs++] = {id, true};
		}
		template<class F> long run(int code, long arg, F&& f) {
			int id = begin(code, arg);
			long r = f();
			end(id, r);
			return r;
		}
		/// is operation id still running?
		bool pending(int id) { mc::quiet q(this); return !ops[id].returned; }
		int returned() { mc::quiet q(this); int n = 0; for (int i = 0; i < nops; i++) n += ops[i].returned; return n; }

		template<class Spec> struct search {
			lin_history& h;
			std::set<std::pair<uint64_t, std::string>> seen;
			bool dfs(int pos, uint32_t started, const Spec& s) {
				// a returned operation must be explained; a done operation that never returned at the end is a hang
				if (pos == h.nevs) {
					bool all = true;
					for (int i = 0; i < h.nops; i++) all = all && (started >> i & 1);
					if (all) {
						for (int i = 0; i < h.nops; i++)
							if ((s.done >> i & 1) && !h.ops[i].returned) return false;
						return true;
					}
				} else {
					auto e = h.evs[pos];
					if (!e.is_ret) {
						return dfs(pos + 1, started, s); // invocation: nothing to decide
					}
					if ((started >> e.id & 1) && (s.done >> e.id & 1)) {
						// returning as early as possible is never worse: it does not change the spec state
						if (s.ret[e.id] != h.ops[e.id].ret) return false;
						return dfs(pos + 1, started, s);
					}
				}
				std::string key(reinterpret_cast<const char*>(&s), sizeof s);
				if (!seen.emplace((uint64_t)pos << 32 | started, std::move(key)).second) return false;
				uint32_t invoked = 0;
				for (int i = 0; i < pos; i++)
					if (!h.evs[i].is_ret) invoked |= 1u << h.evs[i].id;
				for (int i = 0; i < h.nops; i++)
					if ((invoked >> i & 1) && !(started >> i & 1)) {
						Spec t = s;
						if constexpr (requires { t.start(i, 0, 0L, true, 0L); })
							t.start(i, h.ops[i].code, h.ops[i].arg, h.ops[i].returned, h.ops[i].ret); // may use the actual result to resolve nondeterminism
						else
							t.start(i, h.ops[i].code, h.ops[i].arg);
						// result already wrong?
						bool ok = true;
						for (int j = 0; j < h.nops; j++)
							if ((t.done >> j & 1) && h.ops[j].returned && t.ret[j] != h.ops[j].ret) ok = false;
						if (ok && dfs(pos, started | 1u << i, t)) return true;
					}
				return false;
			}
		};
		/// names: printable name of each operation code
		template<class Spec> void check(const Spec& init, const char* const* names, const char* what) {
			mc::quiet q(this);
			static_assert(std::is_trivially_copyable_v<Spec>);
			search<Spec> s{*this, {}};
			if (s.dfs(0, 0, init)) return;
			std::string t = std::string(what) + ": no sequential order explains the history:";
			for (int i = 0; i < nevs; i++) {
				auto& o = ops[evs[i].id];
				t += evs[i].is_ret ? mc::fmt(" <%d %s=%ld", evs[i].id, names[o.code], o.ret)
								   : mc::fmt(" >%d %s(%ld)", evs[i].id, names[o.code], o.arg);
			}
			for (int i = 0; i < nops; i++)
				if (!ops[i].returned) t += mc::fmt(" [%d %s did not return]", i, names[ops[i].code]);
			mcrt_fail(t.c_str());
		}
	};
} // namespace hc
