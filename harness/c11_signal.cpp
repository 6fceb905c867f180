// C11: signals, sequential and re-entrant use: every sequence of operations, also from inside handlers
#include "common.h"
#include <asyncpp/signal.h>
#include <algorithm>
using namespace asyncpp;

// Reference model: per signal the ordered list of connected handler ids
struct model {
	static constexpr int MAXH = 12;
	std::vector<int> list[2];
	int where[MAXH]; // signal a handler is connected to, -1 if not connected
	int n = 0;
	struct frame { int sig; std::vector<int> todo; size_t pos = 0; size_t calls = 0; };
	std::vector<frame> frames;
	bool connected(int id) const { return where[id] >= 0; }
	void drop(int id) {
		if (where[id] < 0) return;
		auto& l = list[where[id]];
		l.erase(std::find(l.begin(), l.end(), id));
		where[id] = -1;
	}
	int add(int sig, bool front) {
		list[sig].insert(front ? list[sig].begin() : list[sig].end(), n);
		where[n] = sig;
		return n++;
	}
	void skip(frame& f) { while (f.pos < f.todo.size() && !connected(f.todo[f.pos])) f.pos++; }
};
template<class T> struct two_signals {
	using handle = signal_handle;
	std::unique_ptr<signal<void(int), T>> p[2] = {std::make_unique<signal<void(int), T>>(), std::make_unique<signal<void(int), T>>()};
	struct at {
		two_signals* t;
		signal<void(int), T>& operator[](int e) { return *t->p[e]; }
	} s{this};
	template<class F> handle append(int e, F&& f) { if (mc::flip("+=")) return s[e] += std::forward<F>(f); return s[e].append(std::forward<F>(f)); }
	template<class F> handle prepend(int e, F&& f) { return s[e].prepend(std::forward<F>(f)); }
	bool remove(int e, const handle& h) { return s[e].remove(h); }
	bool owns(int e, const handle& h) { return s[e].owns_handle(h); }
	size_t invoke(int e, int p) { return s[e](p); }
	int size(int e) { CHECK(s[e].empty() == (s[e].size() == 0)); return (int)s[e].size(); }
	static constexpr bool can_move = true;
	void move_construct(int e) {
		auto x = std::make_unique<signal<void(int), T>>(std::move(s[e]));
		CHECK(s[e].empty() && s[e](0) == 0);
		if (mc::flip("and back")) s[e] = std::move(*x);
		else p[e] = std::move(x);
	}
	void move_assign() { s[0] = std::move(s[1]); }
};
template<class T> struct manager {
	using handle = signal_handle;
	signal_manager<int, void(int), T> s;
	template<class F> handle append(int e, F&& f) { return s.append(e, std::forward<F>(f)); }
	template<class F> handle prepend(int e, F&& f) { return s.prepend(e, std::forward<F>(f)); }
	bool remove(int e, const handle& h) { return s.remove(e, h); }
	bool owns(int e, const handle& h) { return s.owns_handle(e, h); }
	size_t invoke(int e, int p) { if (mc::flip("()")) return s(e, p); return s.invoke(e, p); }
	int size(int) { return -1; }
	static constexpr bool can_move = false;
	void shrink() { s.shrink_to_fit(); }
};
template<class A> struct world {
	mc::counter live;
	model m;
	signal_handle h[model::MAXH];
	int budget, max_handlers, max_depth = 2;
	std::optional<A> a{std::in_place};
	struct fn {
		world* w;
		int id;
		mc::tracked t;
		int canary = 0x5a5a;
		fn(world* w, int id) : w(w), id(id), t(&w->live) {}
		fn(const fn&) = default;
		fn(fn&&) = default;
		~fn() { canary = 0; }
		void operator()(int p) {
			int me = id;
			w->called(me, p);
			w->action(false);
			CHECKM(canary == 0x5a5a && id == me, "handler object destroyed while it runs");
		}
	};
	void called(int id, int p) {
		CHECK(p == (int)m.frames.size());
		CHECKM(!m.frames.empty(), "handler called without an invocation");
		auto& f = m.frames.back();
		m.skip(f);
		CHECKM(f.pos < f.todo.size(), "handler %d called, no more handlers expected", id);
		CHECKM(f.todo[f.pos] == id, "handler %d called, expected %d", id, f.todo[f.pos]);
		f.pos++;
		f.calls++;
	}
	void verify() {
		for (int e = 0; e < 2; e++) {
			int n = a->size(e);
			if (n >= 0) CHECKM(n == (int)m.list[e].size(), "size() of signal %d is %d, %zu handlers are connected", e, n, m.list[e].size());
		}
		for (int i = 0; i < m.n; i++) {
			if (!h[i].valid() && !m.connected(i)) continue;
			CHECKM(h[i].valid() == m.connected(i) && bool(h[i]) == m.connected(i) && !h[i] == !m.connected(i), "handle %d is %s", i, m.connected(i) ? "invalid but connected" : "valid but not connected");
			for (int j = 0; j <= i; j++)
				if (m.connected(i) && m.connected(j)) CHECKM((h[i] == h[j]) == (i == j) && (h[i] != h[j]) == (i != j) && ((h[i] <=> h[j]) == 0) == (i == j), "comparing the handles %d and %d is wrong", i, j);
			for (int e = 0; e < 2; e++) CHECKM(a->owns(e, h[i]) == (m.where[i] == e), "signal %d %s handler %d", e, m.where[i] == e ? "does not own" : "owns", i);
		}
	}
	int nsig = 1; // signals in use
	int sig() { return nsig > 1 ? mc::choose(nsig, "signal") : 0; }
	void add(int e, bool front) {
		if (m.n == max_handlers) mc::assume(false);
		int id = m.add(e, front);
		h[id] = front ? a->prepend(e, fn(this, id)) : a->append(e, fn(this, id));
	}
	void invoke(int e) {
		m.frames.push_back({e, m.list[e]});
		size_t r = a->invoke(e, (int)m.frames.size());
		auto& f = m.frames.back();
		m.skip(f);
		CHECKM(f.pos == f.todo.size(), "handler %d was not called", f.pos < f.todo.size() ? f.todo[f.pos] : -1);
		CHECKM(r == f.calls, "%zu handlers called, invocation returned %zu", f.calls, r);
		m.frames.pop_back();
	}
	bool with_move = false;
	enum { NONE, APPEND, REMOVE, DISCONNECT, INVOKE, PREPEND, SCOPED, MOVEC, MOVEA, SHRINK };
	void action(bool top) {
		if (budget == 0) return;
		bool shrink = !A::can_move;
		int k = mc::choose(top && with_move && A::can_move ? 9 : shrink ? 8 : 7, "action");
		if (k == NONE) { if (top) budget = 0; return; }
		if (shrink && k == 7) k = SHRINK;
		budget--;
		switch (k) {
		case APPEND: add(sig(), false); break;
		case PREPEND: add(sig(), true); break;
		case REMOVE: {
			if (!m.n) mc::assume(false);
			int e = sig(), i = mc::choose(m.n, "handler");
			bool was = m.where[i] == e;
			auto copy = h[i];
			bool r = a->remove(e, copy);
			if (was) CHECKM(r, "remove() of a connected handler returned false");
			CHECK(!a->remove(e, signal_handle{}));
			if (was) m.drop(i);
			break;
		}
		case DISCONNECT: {
			if (!m.n) mc::assume(false);
			int i = mc::choose(m.n, "handler");
			auto copy = h[i];
			copy.disconnect();
			CHECK(!copy.valid());
			m.drop(i);
			break;
		}
		case INVOKE:
			if ((int)m.frames.size() == max_depth) mc::assume(false);
			invoke(sig());
			break;
		case SCOPED: { // connected for a scope only, or kept
			if (m.n + 2 > max_handlers) mc::assume(false);
			int e = sig(), v = mc::choose(with_move ? 4 : 5, "scoped");
			int id = m.add(e, false);
			{
				scoped_signal_handle s = h[id] = a->append(e, fn(this, id));
				CHECK(s.valid() && bool(s) && !!s && a->owns(e, s));
				switch (v) {
				case 0: break;
				case 1: s.release(); CHECK(!s.valid()); break;
				case 2: {
					int id2 = m.add(e, false);
					s = h[id2] = a->append(e, fn(this, id2));
					m.drop(id);
					CHECKM(s.valid(), "a scoped handle is not valid after assigning a new handler");
					verify();
					id = id2;
					break;
				}
				case 3: {
					scoped_signal_handle s2 = std::move(s);
					CHECK(s2.valid());
					verify();
					s = std::move(s2);
					verify();
					break;
				}
				case 4: { // assigned over by a handle that stays around
					int id2 = m.add(e, false);
					scoped_signal_handle s2 = h[id2] = a->append(e, fn(this, id2));
					CHECK(!(s == s2) && s != s2 && s == s && !(s != s));
					auto& self = s;
					s = std::move(self);
					CHECKM(s.valid(), "assigning a scoped handle to itself disconnects");
					s = std::move(s2);
					m.drop(id);
					verify();
					CHECK(s.valid());
					s.disconnect();
					m.drop(id2);
					verify();
					id = id2;
					break;
				}
				}
				verify();
			}
			if (v != 1) m.drop(id);
			break;
		}
		case MOVEC:
			if constexpr (A::can_move) a->move_construct(sig());
			break;
		case MOVEA:
			if constexpr (A::can_move) {
				while (!m.list[0].empty()) m.drop(m.list[0].front());
				m.list[0] = m.list[1];
				for (auto i : m.list[0]) m.where[i] = 0;
				m.list[1].clear();
				a->move_assign();
			}
			break;
		case SHRINK:
			if constexpr (!A::can_move) a->shrink();
			break;
		}
		verify();
	}
	void run(int init, int b, int handlers, int depth) {
		max_handlers = handlers;
		max_depth = depth;
		budget = 0;
		for (int i = 0; i < init; i++) add(nsig > 1 ? i % 2 : 0, false);
		budget = b;
		while (budget) action(true);
		if (mc::flip("keep handles")) {
			invoke(0);
			if (nsig > 1) invoke(1);
			verify();
			a.reset();
			for (int i = 0; i < m.n; i++) CHECKM(!h[i].valid(), "handle %d is valid, its signal is gone", i);
			for (int i = 0; i < m.n; i++) h[i] = signal_handle{};
		} else {
			for (int i = 0; i < m.n; i++) h[i] = signal_handle{};
			invoke(0);
			if (nsig > 1) invoke(1);
			a.reset();
		}
		CHECKM(live.get() == 0, "%d handler objects alive at the end", live.get());
	}
};
template<class A> static void go(int nsig, bool mv, int init, int budget, int handlers, int depth) {
	world<A> w;
	w.nsig = nsig;
	w.with_move = mv;
	w.run(init, budget, handlers, depth);
}
#define B(q, t) (mc::thorough() ? (t) : (q))
MC_SCENARIO(st_one, 0, 0, 0, 0, 0) { go<two_signals<signal_traits_st>>(1, false, mc::choose(4), B(3, 4), 8, 2); }
MC_SCENARIO(mt_one, 0, 0, 0, 0, 0) { go<two_signals<signal_traits_mt>>(1, false, 2, B(3, 4), 8, 2); }
MC_SCENARIO(st_two, 0, 0, 0, 0, 0) { go<two_signals<signal_traits_st>>(2, true, 2, B(3, 4), 8, 2); }
MC_SCENARIO(mt_two, 0, 0, 0, 0, 0) { go<two_signals<signal_traits_mt>>(2, true, B(1, 3), 3, 8, 2); }
MC_SCENARIO(manager_st, 0, 0, 0, 0, 0) { go<manager<signal_traits_st>>(2, false, mc::choose(3), B(3, 4), 8, 2); }
MC_SCENARIO(manager_mt, 0, 0, 0, 0, 0) { go<manager<signal_traits_mt>>(2, false, 2, B(3, 4), 8, 2); }
// several arguments, references and values are passed unchanged to every handler
MC_SCENARIO(arguments, 0, 0, 0, 0, 0) {
	signal<void(int, const std::string&, std::string)> s;
	std::string ref = "reference argument that does not fit";
	int calls = 0, n = mc::choose(3) + 1;
	for (int i = 0; i < n; i++)
		s += [&](int v, const std::string& r, std::string c) {
			CHECK(v == 7 && &r == &ref && c == "a by value argument, long enough to be allocated");
			c.clear();
			calls++;
		};
	CHECK(s(7, ref, "a by value argument, long enough to be allocated") == size_t(n));
	CHECK(calls == n);
}
// destroying a handler may use the signal
// A handler passed as an lvalue is copied, the signal and the caller do not share it
template<class S> static void lvalue_handlers() {
	mc::counter live;
	{
		std::vector<int> seen;
		struct fn {
			mc::tracked t;
			std::vector<int>* out;
			int n = 0;
			void operator()(int p) { out->push_back(p * 10 + ++n); }
		};
		S s;
		fn f{mc::tracked(&live), &seen};
		const fn& cf = f;
		auto add = [&](int how) {
			switch (how) {
			case 0: return s.append(f);
			case 1: return s.prepend(f);
			case 2: return s += f;
			case 3: return s.append(cf);
			default: return s.prepend(cf);
			}
		};
		int first = mc::choose(5, "first"), second = mc::choose(5, "second");
		auto h1 = add(first);
		f(0); // n is 1 from here on
		auto h2 = add(second);
		CHECKM(live.get() == 3, "%d callables", live.get());
		seen.clear();
		CHECK(s(7) == 2);
		bool front = second == 1 || second == 4;
		CHECKM((seen == (front ? std::vector<int>{72, 71} : std::vector<int>{71, 72})), "handlers saw %d %d", seen.at(0), seen.at(1));
		CHECKM(f.n == 1, "the callers object was changed: %d", f.n);
		CHECK(s.remove(h1));
		CHECK(s(7) == 1 && seen.back() == 73 && f.n == 1);
		(void)h2;
	}
	CHECKM(live.get() == 0, "%d handlers leaked", live.get());
}
MC_SCENARIO(lvalue_st, 0, 0, 0, 0, 0) { lvalue_handlers<signal<void(int), signal_traits_st>>(); }
MC_SCENARIO(lvalue_mt, 0, 0, 0, 0, 0) { lvalue_handlers<signal<void(int), signal_traits_mt>>(); }
MC_SCENARIO(destructor_uses_signal, 0, 0, 0, 0, 0) {
	using sig_t = signal<void()>;
	sig_t s;
	mc::counter dtors;
	struct handler {
		sig_t* s;
		mc::counter* dtors;
		handler(sig_t* s, mc::counter* d) : s(s), dtors(d) {}
		handler(handler&& o) : s(std::exchange(o.s, nullptr)), dtors(o.dtors) {}
		~handler() { if (s) { (void)s->size(); dtors->inc(); } }
		void operator()() {}
	};
	auto h1 = s.append([] {});
	auto h2 = s.append(handler(&s, &dtors));
	auto h3 = s.append([] {});
	int how = mc::choose(4);
	if (how == 0) { s.remove(h2); CHECK(dtors.get() == 0); h2 = signal_handle{}; }
	else if (how == 1) { h2.disconnect(); }
	else if (how == 2) { auto h = std::move(h2); s += [&, n = 0]() mutable { if (n++ == 0) { s.remove(h); h = signal_handle{}; } }; CHECK(s() == 4); }
	else {
		if (mc::flip("drop handle")) h2 = signal_handle{};
		s = sig_t{};
		CHECK(!h2.valid());
		h2 = signal_handle{};
	}
	CHECK(s() == (how == 3 ? 0 : how == 2 ? 3 : 2));
	CHECKM(dtors.get() == 1, "handler destroyed %d times", dtors.get());
}
