// C24: threadsafe_queue
#include "common.h"
#include "lin.h"
#include <asyncpp/threadsafe_queue.h>
#include <list>
using namespace asyncpp;

struct val { // move leaves -1 behind
	int v;
	mc::tracked t;
	val(int x, mc::counter* c) : v(x), t(c) {}
	val(const val&) = default;
	val(val&& o) noexcept : v(std::exchange(o.v, -1)), t(std::move(o.t)) {}
	val& operator=(const val&) = default;
	val& operator=(val&& o) noexcept { v = std::exchange(o.v, -1); t.live = o.t.live; return *this; }
};
// all sequences of operations on two queues
template<class C> static void sequential(int budget) {
	mc::counter live;
	{
		using Q = threadsafe_queue<val, C>;
		std::unique_ptr<Q> q[2];
		std::deque<int> m[2];
		int next = 0;
		bool seeded = mc::flip("initial contents");
		if (seeded) {
			C init;
			for (int i = 0; i < 2; i++) { m[0].push_back(next); init.push_back(val(next++, &live)); }
			q[0] = std::make_unique<Q>(std::as_const(init));
		} else q[0] = std::make_unique<Q>();
		q[1] = std::make_unique<Q>();
		while (budget-- > 0) {
			int op = mc::choose(10, "op");
			if (op == 0) break;
			int a = mc::choose(2, "queue"), b = 1 - a;
			if (op == 1) { q[a]->push(val(next, &live)); m[a].push_back(next++); }
			if (op == 2) { val x(next, &live); q[a]->push(x); CHECK(x.v == next); m[a].push_back(next++); }
			if (op == 3) { q[a]->emplace(next, &live); m[a].push_back(next++); }
			if (op == 4) {
				auto r = q[a]->pop();
				CHECKM(r.has_value() == !m[a].empty(), "pop returned %s", r ? "a value from an empty queue" : "nothing from a filled queue");
				if (r) { CHECKM(r->v == m[a].front(), "pop returned %d instead of %d", r->v, m[a].front()); m[a].pop_front(); }
			}
			if (op == 5) { *q[a] = std::as_const(*q[b]); m[a] = m[b]; }
			if (op == 6) { *q[a] = std::move(*q[b]); m[a] = std::move(m[b]); m[b].clear(); }
			if (op == 7) { auto& self = *q[a]; if (mc::flip("move")) *q[a] = std::move(self); else *q[a] = self; }
			if (op == 8) {
				auto n = mc::flip("const") ? std::make_unique<Q>(std::as_const(*q[b])) : std::make_unique<Q>(*q[b]);
				q[a] = std::move(n);
				m[a] = m[b];
			}
			if (op == 9) { auto n = std::make_unique<Q>(std::move(*q[b])); q[a] = std::move(n); m[a] = std::move(m[b]); m[b].clear(); }
			CHECKM(live.get() == static_cast<int>(m[0].size() + m[1].size()), "%d items exist, %zu in the queues", live.get(), m[0].size() + m[1].size());
		}
		for (int a = 0; a < 2; a++) {
			for (int v : m[a]) { auto r = q[a]->pop(); CHECKM(r && r->v == v, "contents differ"); }
			CHECKM(!q[a]->pop(), "additional contents");
		}
	}
	CHECKM(live.get() == 0, "%d items leaked", live.get());
	mc::outcome("ok");
}
MC_SCENARIO(seq_deque, 0, 0, 0, 0, 0) { sequential<std::deque<val>>(mc::thorough() ? 5 : 4); }
MC_SCENARIO(seq_list, 0, 0, 0, 0, 0) { sequential<std::list<val>>(mc::thorough() ? 5 : 4); }

// a constructor that throws leaves the queue as it was and unlocked
MC_SCENARIO(throwing_items, 0, 0, 0, 0, 0) {
	static int fuse;
	struct item { int v; explicit item(int x) : v(x) { if (fuse && --fuse == 0) throw hc::exn{1}; } item(item&& o) : v(o.v) { if (fuse && --fuse == 0) throw hc::exn{1}; } };
	threadsafe_queue<item> q;
	fuse = 0;
	q.emplace(0);
	int in = 1, what = mc::choose(3);
	fuse = 1 + mc::choose(4);
	bool threw = false;
	try { if (what == 0) { q.emplace(1); in++; } else if (what == 1) { q.push(item(1)); in++; } else { auto r = q.pop(); CHECK(r->v == 0); } } catch (hc::exn&) { threw = true; }
	fuse = 0;
	if (what < 2) {
		CHECK(q.pop()->v == 0);
		auto r = q.pop();
		CHECKM(r.has_value() == (in == 2), "item lost or invented");
		if (r) CHECK(r->v == 1);
	} else if (threw) { q.emplace(2); auto r = q.pop(); CHECK(r && (r->v == 0 || r->v == 2)); }
	q.emplace(5);
	mc::outcome("threw=%d", threw);
}
MC_SCENARIO(move_only, 0, 0, 0, 0, 0) {
	threadsafe_queue<std::unique_ptr<int>> q;
	q.push(std::make_unique<int>(1));
	q.emplace(std::make_unique<int>(2));
	threadsafe_queue<std::unique_ptr<int>> r(std::move(q));
	CHECK(**r.pop() == 1);
	threadsafe_queue<std::unique_ptr<int>> s;
	s = std::move(r);
	CHECK(**s.pop() == 2 && !s.pop() && !r.pop() && !q.pop());
	mc::outcome("ok");
}

// ---- concurrency: linearizability of programs on two queues ----
enum { PUSH, POP, EMPLACE, COPY, MOVE, ASSIGN, MOVE_ASSIGN };
static const char* const names[] = {"push", "pop", "emplace", "copy", "move", "assign", "move_assign"};
struct spec {
	uint32_t done = 0;
	long ret[hc::lin_history::MAX] = {};
	int8_t n[2] = {}, v[2][8] = {};
	long enc(int q) const { long r = 1; for (int i = 0; i < n[q]; i++) r = r * 10 + v[q][i]; return r; }
	void start(int id, int code, long arg) {
		int q = arg & 1, x = static_cast<int>(arg >> 1);
		done |= 1u << id;
		long r = 0;
		switch (code) {
		case PUSH: case EMPLACE: v[q][n[q]++] = static_cast<int8_t>(x); break;
		case POP:
			if (n[q] == 0) r = -1;
			else { r = v[q][0]; for (int i = 1; i < n[q]; i++) v[q][i - 1] = v[q][i]; n[q]--; v[q][n[q]] = 0; }
			break;
		case COPY: r = enc(q); break;
		case MOVE: r = enc(q); clear(q); break;
		case ASSIGN: case MOVE_ASSIGN:
			clear(q);
			n[q] = n[1 - q];
			for (int i = 0; i < n[q]; i++) v[q][i] = v[1 - q][i];
			if (code == MOVE_ASSIGN) clear(1 - q);
			break;
		}
		ret[id] = r;
	}
	void clear(int q) { for (auto& x : v[q]) x = 0; n[q] = 0; }
};
struct mtq {
	using Q = threadsafe_queue<int, hc::touchy_deque<int>>;
	Q q[2];
	hc::lin_history h;
	static long drain(Q& q) { long r = 1; while (auto v = q.pop()) r = r * 10 + *v; return r; }
	void op(int code, int qi, int x = 0) {
		h.run(code, qi | x << 1, [&]() -> long {
			switch (code) {
			case PUSH: q[qi].push(x); return 0;
			case EMPLACE: q[qi].emplace(x); return 0;
			case POP: { auto v = q[qi].pop(); return v ? *v : -1; }
			case COPY: { Q c(std::as_const(q[qi])); return drain(c); }
			case MOVE: { Q c(std::move(q[qi])); return drain(c); }
			case ASSIGN: q[qi] = std::as_const(q[1 - qi]); return 0;
			case MOVE_ASSIGN: q[qi] = std::move(q[1 - qi]); return 0;
			}
			return 0;
		});
	}
	void finish() {
		for (int i = 0; i < 2; i++) {
			op(COPY, i);
			op(MOVE, i);
		}
		h.check(spec{}, names, "threadsafe_queue");
	}
};
// programs: each thread runs a sequence of chosen operations
static void mt_fifo(int threads, int ops, int initial) {
	mtq t;
	int prog[3][3], val = 1;
	for (int i = 0; i < initial; i++) t.op(PUSH, 0, val++);
	for (int i = 0; i < threads; i++) for (int j = 0; j < ops; j++) prog[i][j] = mc::choose(3, "op");
	hc::threads th;
	for (int i = 1; i < threads; i++) th.add([&t, &prog, i, ops] { for (int j = 0; j < ops; j++) t.op(prog[i][j], 0, 3 + i * 2 + j); });
	for (int j = 0; j < ops; j++) t.op(prog[0][j], 0, 3 + j);
	th.join();
	t.finish();
	mc::outcome("ok");
}
MC_SCENARIO(mt_2x2, 3, 6, 0, 1, 0) { mt_fifo(2, 2, mc::choose(3, "initial")); }
MC_SCENARIO(mt_3x1, 4, 6, 1, 1, 0) { mt_fifo(3, 1, mc::choose(3, "initial")); }
MC_SCENARIO(mt_3x2, 2, 3, 0, 0, mc::THOROUGH_ONLY) { mt_fifo(3, 2, mc::choose(2, "initial")); }
// copies, moves and assignments against other operations
static void mt_transfer(int others) {
	mtq t;
	int n = mc::choose(3, "initial");
	for (int i = 0; i < n; i++) t.op(PUSH, i & 1, 1 + i);
	int code = COPY + mc::choose(4, "transfer");
	int qi = code >= ASSIGN ? 1 : 0; // q[1] = q[0]
	hc::threads th;
	for (int i = 0; i < others; i++) {
		int c = mc::choose(6, "other");
		if (c < 2) { int tq = mc::choose(2, "queue"); th.add([&t, c, tq, i] { t.op(c, tq, 5 + i); }); }
		else th.add([&t, c] { t.op(c == 2 ? COPY : c == 3 ? MOVE : c == 4 ? ASSIGN : MOVE_ASSIGN, 0); }); // q[0] = q[1]: opposite direction
	}
	t.op(code, qi);
	t.op(PUSH, 0, 9);
	th.join();
	t.finish();
	mc::outcome("ok");
}
MC_SCENARIO(mt_transfer1, 6, 8, 1, 2, 0) { mt_transfer(1); }
MC_SCENARIO(mt_transfer2, 2, 4, 0, 1, 0) { mt_transfer(2); }
