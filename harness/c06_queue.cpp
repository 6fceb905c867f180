#include "lin.h"
#include <asyncpp/queue.h>
using namespace asyncpp;

enum { PUSH, POP, TRY_PUSH, TRY_POP, SIZE, EMPTY, CLEAR, TRY_EMPLACE, MOVE_ASSIGN, MOVE_CONSTRUCT, NOPS };
static const char* const op_names[] = {"push", "pop", "try_push", "try_pop", "size", "empty", "clear", "try_emplace", "move_assign", "move_construct"};
// operands: value + 1000 * index of the queue
struct one {
	int max;
	int8_t ni, nu, no;
	int8_t items[12], pu[12], po[12];
};
struct queue_spec {
	uint32_t done;
	one q[2];
	int8_t val[hc::lin_history::MAX];
	long ret[hc::lin_history::MAX];
	queue_spec(int m0, int m1 = 0) { memset((void*)this, 0, sizeof *this); q[0].max = m0; q[1].max = m1; }
	void fin(int id, long v) { done |= 1u << id; ret[id] = v; }
	static int pop(int8_t* q, int8_t& n) {
		int x = q[0];
		for (int i = 1; i < n; i++) q[i - 1] = q[i];
		q[--n] = 0;
		return x;
	}
	void start(int id, int code, long arg, bool returned, long actual) {
		int qi = arg / 1000, v = arg % 1000;
		one& o = q[qi];
		switch (code) {
		case PUSH:
		case TRY_PUSH:
		case TRY_EMPLACE:
			// With a maximum of zero and a waiting consumer both answers of try_push are reasonable
			if (code != PUSH && o.no && o.max == 0 && returned && actual == 0) { fin(id, 0); break; }
			if (o.no) { fin(pop(o.po, o.no), v); fin(id, 1); }
			else if (o.ni < o.max) { o.items[o.ni++] = v; fin(id, 1); }
			else if (code != PUSH) fin(id, 0);
			else { val[id] = v; o.pu[o.nu++] = id; }
			break;
		case POP:
		case TRY_POP:
			if (o.ni) {
				fin(id, pop(o.items, o.ni));
				if (o.nu) { int w = pop(o.pu, o.nu); o.items[o.ni++] = val[w]; fin(w, 1); }
			} else if (o.nu) { int w = pop(o.pu, o.nu); fin(id, val[w]); fin(w, 1); }
			else if (code == TRY_POP) fin(id, -1);
			else o.po[o.no++] = id;
			break;
		case SIZE: fin(id, o.ni + o.nu); break;
		case EMPTY: fin(id, o.ni + o.nu == 0); break;
		case CLEAR:
			o.ni = 0;
			memset(o.items, 0, sizeof o.items);
			while (o.nu) fin(pop(o.pu, o.nu), 0);
			fin(id, 0);
			break;
		case MOVE_CONSTRUCT: // the target is empty
		case MOVE_ASSIGN: { // q[qi] = std::move(q[!qi])
			one& s = q[!qi];
			while (o.no) fin(pop(o.po, o.no), -1);
			while (o.nu) fin(pop(o.pu, o.nu), 0);
			int m = s.max;
			o = s;
			memset((void*)&s, 0, sizeof s);
			s.max = m;
			fin(id, 0);
			break;
		}
		}
	}
};
static mc::counter* g_live;
struct val;
using Q = queue<val, hc::touchy_deque<val>>;
struct val {
	int v;
	mc::tracked t;
	explicit val(int x) : v(x), t(g_live) {}
	val(val&& o) noexcept : v(o.v), t(std::move(o.t)) { o.v = -7; }
	val& operator=(val&& o) noexcept { v = o.v; o.v = -7; return *this; }
};
static const int BIG = 100;
struct run {
	Q q[2];
	int max[2];
	hc::lin_history h;
	hc::any_dispatcher d;
	static size_t sz(int m) { return m == BIG ? std::numeric_limits<size_t>::max() : m; }
	explicit run(int m0, int m1 = 0, int disp = hc::any_dispatcher::NONE) : q{Q(sz(m0)), Q(sz(m1))}, max{m0, m1}, d(disp) {}
	hc::co op(int c, int v, int qi = 0) {
		int id = h.begin(c, v + 1000 * qi);
		switch (c) {
		case PUSH: { bool r = co_await q[qi].push(val(v)).resume_on(d.get()); h.end(id, r); break; }
		case POP: { auto x = co_await q[qi].pop().resume_on(d.get()); h.end(id, x ? x->v : -1); break; }
		default: sync(c, v, qi, id);
		}
	}
	void sync(int c, int v, int qi, int id) {
		switch (c) {
		case TRY_PUSH: h.end(id, q[qi].try_push(val(v))); break;
		case TRY_EMPLACE: h.end(id, q[qi].try_emplace(v)); break;
		case TRY_POP: { auto x = q[qi].try_pop(); h.end(id, x ? x->v : -1); break; }
		case SIZE: h.end(id, q[qi].size()); break;
		case EMPTY: h.end(id, q[qi].empty()); break;
		case CLEAR: q[qi].clear(); h.end(id, 0); break;
		case MOVE_ASSIGN: q[qi] = std::move(q[!qi]); h.end(id, 0); break;
		case MOVE_CONSTRUCT: // the target has to be unused
			std::destroy_at(&q[qi]);
			new (&q[qi]) Q(std::move(q[!qi]));
			h.end(id, 0);
			break;
		}
	}
	hc::co prog(const int* ops, int n, int base, int qi = 0) {
		for (int i = 0; i < n; i++) {
			int c = ops[i], v = base + i, id = h.begin(c, v + 1000 * qi);
			if (c == PUSH) { bool r = co_await q[qi].push(val(v)).resume_on(d.get()); h.end(id, r); }
			else if (c == POP) { auto x = co_await q[qi].pop().resume_on(d.get()); h.end(id, x ? x->v : -1); }
			else sync(c, v, qi, id);
		}
	}
	void check() { h.check<queue_spec>(queue_spec(max[0], max[1]), op_names, "queue"); }
	int waiting(int c) { mc::quiet q(&h); int n = 0; for (int i = 0; i < h.nops; i++) n += h.ops[i].code == c && !h.ops[i].returned; return n; }
	/// release everything that is still suspended
	void finish(int nq = 1) {
		d.finish();
		for (int i = 0; i < nq; i++) { op(SIZE, 0, i); op(EMPTY, 0, i); }
		check();
		// a resumed program may suspend again in its next operation
		for (int k = 0; k < 10 && waiting(POP) + waiting(PUSH); k++)
			for (int i = 0; i < nq; i++) {
				if (waiting(PUSH)) q[i].clear();
				if (waiting(POP)) [](Q& q) -> hc::co { (void)co_await q.push(val(99)); }(q[i]);
				d.drain();
			}
		CHECKM(waiting(POP) == 0, "pop stays suspended");
		CHECKM(waiting(PUSH) == 0, "push stays suspended");
		for (int i = 0; i < nq; i++) q[i].clear();
	}
};
static int pick_max() {
	static const int m[] = {0, 1, 2, BIG};
	return m[mc::choose(4, "maximum size")];
}
#define LIVE_BEGIN mc::counter live; g_live = &live; {
#define LIVE_END } CHECKM(live.get() == 0, "%d values leaked", live.get());

MC_SCENARIO(seq, 0, 0, 0, 0, 0) {
	LIVE_BEGIN
	run r(pick_max());
	int depth = mc::thorough() ? 7 : 6;
	for (int i = 0; i < depth; i++) {
		int c = mc::choose(6, "op"); // SIZE stands for size+empty
		if (c == SIZE) { r.op(SIZE, 0); r.op(EMPTY, 0); }
		else r.op(c == EMPTY ? CLEAR : c, i + 1);
	}
	r.finish();
	LIVE_END
}
MC_SCENARIO(seq_programs, 0, 0, 0, 0, 0) {
	LIVE_BEGIN
	run r(pick_max());
	int ops[3][2];
	static const int code[] = {PUSH, POP, TRY_EMPLACE, TRY_POP, CLEAR};
	for (auto& o : ops)
		for (int& x : o) x = code[mc::choose(5, "op")];
	for (int i = 0; i < 3; i++) r.prog(ops[i], 2, 10 * (i + 1));
	r.finish();
	LIVE_END
}
// coroutines resumed by a dispatcher, inside of push() or later
MC_SCENARIO(seq_dispatcher, 0, 0, 0, 0, 0) {
	LIVE_BEGIN
	run r(mc::choose(3, "maximum size"), 1, hc::any_dispatcher::INLINE + mc::choose(2, "dispatcher"));
	int depth = mc::thorough() ? 6 : 5;
	static const int code[] = {PUSH, POP, TRY_PUSH, TRY_POP, CLEAR, MOVE_ASSIGN};
	for (int i = 0; i < depth; i++) {
		int c = code[mc::choose(6, "op")];
		r.op(c, i + 1, c == MOVE_ASSIGN ? mc::choose(2, "queue") : 0);
		if (r.d.kind == hc::any_dispatcher::LATER && !r.d.later.q.empty() && mc::flip("dispatch")) r.d.drain();
	}
	r.finish(2);
	LIVE_END
}
static void conc(int nthreads, int len, int nops, int m, int disp = hc::any_dispatcher::NONE) {
	LIVE_BEGIN
	run r(m, 0, disp);
	static const int code[] = {PUSH, POP, TRY_PUSH, TRY_POP, CLEAR, SIZE, EMPTY, TRY_EMPLACE};
	int ops[4][4] = {};
	for (int i = 0; i < nthreads; i++) {
		for (int k = 0; k < len; k++) ops[i][k] = code[mc::choose(nops, "op")];
		if (i > 1 && memcmp(ops[i - 1], ops[i], sizeof ops[i]) > 0) mc::assume(false);
	}
	{
		hc::threads th;
		for (int i = 1; i < nthreads; i++) th.add([&, i] { r.prog(ops[i], len, 10 * (i + 1)); });
		r.prog(ops[0], len, 10);
		th.join();
	}
	r.finish();
	LIVE_END
	mc::outcome("ok");
}
MC_SCENARIO(two, 4, 6, 0, 0, 0) { conc(2, 2, 6, mc::choose(3, "maximum size")); }
MC_SCENARIO(two_inline, 3, 5, 0, 0, 0) { conc(2, 2, 5, mc::choose(2, "maximum size"), hc::any_dispatcher::INLINE); }
MC_SCENARIO(two_dispatcher, 2, 3, 0, 0, 0) { conc(2, 1, 5, mc::choose(2, "maximum size"), hc::any_dispatcher::THREAD); }
MC_SCENARIO(two_dispatcher_long, 1, 2, 0, 0, 0) { conc(2, 2, 5, mc::choose(2, "maximum size"), hc::any_dispatcher::THREAD); }
MC_SCENARIO(two_long, 2, 4, 0, 0, 0) { conc(2, 3, 4, 1); }
MC_SCENARIO(three, 3, 4, 0, 0, 0) { conc(3, 1, 8, mc::choose(2, "maximum size")); }
MC_SCENARIO(three_pp, 2, 3, 0, 0, 0) { conc(3, 2, 2, mc::choose(3, "maximum size")); }
MC_SCENARIO(four, 2, 3, 0, 0, 0) { conc(4, 1, 4, mc::choose(2, "maximum size")); }

// two queues with moves between them
MC_SCENARIO(moves_seq, 0, 0, 0, 0, 0) {
	LIVE_BEGIN
	run r(1, 2);
	int depth = mc::thorough() ? 6 : 5;
	for (int i = 0; i < depth; i++) {
		static const int code[] = {PUSH, POP, TRY_POP, MOVE_ASSIGN};
		int c = code[mc::choose(4, "op")], qi = mc::choose(2, "queue");
		r.op(c, i + 1, qi);
	}
	r.finish(2);
	LIVE_END
}
MC_SCENARIO(moves_conc, 3, 4, 0, 0, 0) {
	LIVE_BEGIN
	run r(1, 1);
	static const int code[] = {PUSH, POP, TRY_POP, CLEAR};
	int pre = mc::choose(4, "suspended before"), c = code[mc::choose(4, "op")], qi = mc::choose(2, "queue");
	for (int i = 0; i < 2; i++) {
		if (pre & 1) { r.op(PUSH, 1 + i, i); r.op(PUSH, 3 + i, i); }
		if (pre == 2) r.op(POP, 1 + i, i);
	}
	std::thread t([&] { r.op(c, 20, qi); });
	r.op(MOVE_ASSIGN, 0, 0);
	t.join();
	r.finish(2);
	LIVE_END
}
MC_SCENARIO(moves_conc_construct, 4, 6, 0, 0, 0) {
	LIVE_BEGIN
	run r(1, 1);
	static const int code[] = {PUSH, POP, TRY_PUSH, TRY_POP, CLEAR, SIZE, EMPTY, TRY_EMPLACE};
	int pre = mc::choose(4, "before"), c = code[mc::choose(8, "op")];
	if (pre == 1) r.op(TRY_PUSH, 1);
	if (pre == 2) { r.op(PUSH, 1); r.op(PUSH, 2); }
	if (pre == 3) r.op(POP, 1);
	std::thread t([&] { r.op(c, 20, 0); });
	r.op(MOVE_CONSTRUCT, 0, 1);
	t.join();
	r.finish(2);
	LIVE_END
}
// the move constructor carries items and suspended operations along
MC_SCENARIO(move_construct, 0, 0, 0, 0, 0) {
	LIVE_BEGIN
	int max = mc::choose(3, "maximum size");
	Q a(max);
	int ni = mc::choose(4, "pushes"), no = mc::choose(3, "pops");
	mc::counter pushed;
	mc::log popped;
	auto push = [&](Q& q, int v) -> hc::co { CHECK(co_await q.push(val(v))); pushed.inc(); };
	auto pop = [&](Q& q) -> hc::co { auto x = co_await q.pop(); CHECK(x.has_value()); popped.add(x->v); };
	int total = 0;
	for (int i = 0; i < no; i++) pop(a);
	for (int i = 0; i < ni; i++) push(a, ++total);
	Q b(std::move(a));
	CHECK(a.empty() && a.size() == 0);
	CHECK(b.size() == size_t(ni > no ? ni - no : 0));
	CHECK(!a.try_pop());
	while (total < no) push(b, ++total);
	while (popped.size() < total) { int n = popped.size(); pop(b); CHECK(popped.size() == n + 1); }
	CHECK(pushed.get() == total);
	for (int i = 0; i < total; i++) CHECKM(popped.at(i) == i + 1, "popped %s", popped.str());
	CHECK(b.empty());
	// capacity moved along
	for (int i = 0; i < max; i++) CHECK(b.try_push(val(i)));
	CHECK(!b.try_push(val(9)));
	LIVE_END
}
// exceptions of the item's constructor neither lose a waiting consumer nor an item
struct thrower {
	int v;
	explicit thrower(int x) : v(x) { if (x < 0) throw hc::exn{x}; }
	thrower(thrower&&) = default;
	thrower& operator=(thrower&&) = default;
};
MC_SCENARIO(emplace_throws, 0, 0, 0, 0, 0) {
	queue<thrower> q(2);
	mc::log popped;
	auto pop = [&]() -> hc::co { auto x = co_await q.pop(); CHECK(x.has_value()); popped.add(x->v); };
	bool first = mc::flip("consumer waits before");
	if (first) pop();
	bool thrown = false;
	try { (void)q.try_emplace(-1); } catch (hc::exn& e) { thrown = e.v == -1; }
	CHECK(thrown);
	if (!first) pop();
	CHECK(popped.size() == 0);
	CHECK(q.try_emplace(5));
	CHECKM(popped.size() == 1, "waiting consumer was lost when the constructor of the item threw");
	CHECK(popped.at(0) == 5);
}
// the value is the same whether or not a consumer is waiting
MC_SCENARIO(emplace_value, 0, 0, 0, 0, 0) {
	queue<std::vector<int>> q(2);
	mc::counter n;
	auto pop = [&]() -> hc::co { auto x = co_await q.pop(); CHECK(x.has_value()); n.set(int(x->size())); };
	bool first = mc::flip("consumer waits before");
	if (first) pop();
	CHECK(q.try_emplace(3, 7));
	if (!first) pop();
	CHECKM(n.get() == 3, "item constructed from (3, 7) has %d elements", n.get());
}
MC_SCENARIO(publish, 4, 6, 2, 3, 0) {
	queue<std::unique_ptr<int>> q(mc::choose(2));
	int data = 0;
	mc::counter got, sent;
	int rd = mc::choose(2);
	auto reader = [&]() -> hc::co {
		auto x = rd == 0 ? co_await q.pop() : q.try_pop();
		if (rd == 0) CHECK(x.has_value());
		if (x) { CHECK(**x == 5); CHECK(data == 1); got.inc(); }
	};
	auto writer = [&]() -> hc::co {
		data = 1;
		CHECK(co_await q.push(std::make_unique<int>(5)));
		sent.inc();
	};
	std::thread t([&] { writer(); });
	reader();
	t.join();
	if (got.get() == 0) { auto x = q.try_pop(); CHECK(x.has_value()); }
	CHECK(sent.get() == 1);
	CHECK(q.empty());
}
// explicit dispatcher, else the one current at suspension, else the queue's, else inline
MC_SCENARIO(dispatch, 3, 5, 0, 1, 0) {
	hc::manual_dispatcher dq, dc, dr;
	bool has_q = mc::flip("queue has dispatcher"), cur = mc::flip("has current");
	queue<int> orig(1, has_q ? &dq : nullptr), other(7, &dr);
	int move = mc::choose(3, "moved");
	if (move == 1) other = std::move(orig);
	queue<int> constructed(move == 2 ? std::move(orig) : queue<int>());
	queue<int>& q = move == 0 ? orig : move == 1 ? other : constructed;
	int op = mc::choose(2, "push/pop");
	bool expl = mc::flip("explicit");
	mc::counter done;
	hc::manual_dispatcher* expect = expl ? &dr : cur ? &dc : has_q ? &dq : nullptr;
	auto body = [&]() -> hc::co {
		if (op == 0) {
			auto a = q.push(8);
			if (expl) a.resume_on(&dr);
			CHECK(co_await a);
		} else {
			auto a = q.pop();
			if (expl) a.resume_on(&dr);
			CHECK((co_await a).has_value());
		}
		CHECKM(dispatcher::current() == expect, "resumed on the wrong dispatcher");
		done.inc();
	};
	if (op == 0) CHECK(q.try_push(1));
	if (cur) { dc.push([&] { body(); }); dc.run_one(); }
	else body();
	CHECK(done.get() == 0);
	std::thread t([&] { if (op == 0) CHECK(q.try_pop().has_value()); else CHECK(q.try_push(2)); });
	t.join();
	CHECK(done.get() == (expect == nullptr));
	int n = dq.run_all() + dc.run_all() + dr.run_all();
	CHECK(done.get() == 1);
	CHECKM(n == (expect != nullptr), "dispatched %d times", n);
}
// a coroutine owns the queue and destroys it as soon as it continues, the call that resumed it may still be running
MC_SCENARIO(owned, 3, 5, 1, 2, 0) {
	hc::any_dispatcher d(mc::choose(4, "dispatcher"));
	int op = mc::choose(2, "pop/push"), how = mc::choose(3, "resumed by");
	size_t size = mc::choose(2, "maximum size");
	if (op == 0 && how != 1 && size == 0) mc::assume(false); // refused
	bool thread = mc::flip("resumed by another thread");
	mc::counter done;
	auto* q = new queue<int>(size);
	if (op == 1 && size) CHECK(q->try_push(1));
	auto body = [&]() -> hc::co {
		if (op == 0) { auto x = co_await q->pop().resume_on(d.get()); CHECK(x == 4); }
		else { bool r = co_await q->push(4).resume_on(d.get()); CHECK(r == (how != 2)); }
		delete q;
		done.inc();
	};
	body();
	auto act = [&, q] {
		if (op == 0) {
			if (how == 0) CHECK(q->try_push(4));
			else if (how == 1) [](queue<int>* q) -> hc::co { CHECK(co_await q->push(4)); }(q);
			else CHECK(q->try_emplace(4));
		} else {
			if (how == 0) CHECK(q->try_pop() == (size ? 1 : 4));
			else if (how == 1) [](queue<int>* q, int x) -> hc::co { CHECK(co_await q->pop() == x); }(q, size ? 1 : 4);
			else q->clear();
		}
	};
	if (thread) std::thread(act).join();
	else act();
	d.finish();
	CHECK(done.get() == 1);
}

// items which use the queue they were stored in when they are destroyed
MC_SCENARIO(item_owner, 0, 0, 0, 0, 0) {
	struct item {
		queue<item>* q = nullptr;
		int use = 0;
		int* dead = nullptr;
		item() = default;
		item(queue<item>* q, int use, int* dead) : q(q), use(use), dead(dead) {}
		item(item&& o) noexcept : q(std::exchange(o.q, nullptr)), use(o.use), dead(o.dead) {}
		item& operator=(item&& o) noexcept { std::swap(q, o.q); std::swap(use, o.use); std::swap(dead, o.dead); return *this; }
		~item() {
			if (!q) return;
			++*dead;
			switch (use) {
			case 0: (void)q->size(); break;
			case 1: (void)q->empty(); break;
			case 2: q->clear(); break;
			case 3: (void)q->try_pop(); break;
			}
		}
	};
	int n = mc::choose(4, "items"), use = mc::choose(4, "the destructor of an item uses the queue"), how = mc::choose(3, "drop by clear, move assignment, pop");
	int dead = 0;
	queue<item> a(10), b(10);
	for (int i = 0; i < n; i++) CHECK(a.try_emplace(&a, use, &dead));
	if (how == 0) a.clear();
	else if (how == 1) a = std::move(b);
	else while (a.try_pop()) {}
	CHECKM(dead == n, "%d of %d items destroyed", dead, n);
	CHECK(a.empty() && a.size() == 0);
}
