#include "lin.h"
#include <asyncpp/channel.h>
using namespace asyncpp;

enum { READ, WRITE, TRY_READ, TRY_WRITE, CLOSE, IS_CLOSED, NOPS };
static const char* const op_names[] = {"read", "write", "try_read", "try_write", "close", "is_closed"};
struct chan_spec {
	uint32_t done;
	bool closed;
	int8_t nr, nw;
	int8_t r[hc::lin_history::MAX], w[hc::lin_history::MAX];
	int8_t val[hc::lin_history::MAX];
	long ret[hc::lin_history::MAX];
	chan_spec() { memset((void*)this, 0, sizeof *this); }
	void fin(int id, long v) { done |= 1u << id; ret[id] = v; }
	static int pop(int8_t* q, int8_t& n) {
		int x = q[0];
		for (int i = 1; i < n; i++) q[i - 1] = q[i];
		q[--n] = 0;
		return x;
	}
	void start(int id, int code, long arg) {
		switch (code) {
		case READ:
		case TRY_READ:
			if (closed) fin(id, -1);
			else if (nw) { int x = pop(w, nw); fin(id, val[x]); fin(x, 1); }
			else if (code == TRY_READ) fin(id, -1);
			else r[nr++] = id;
			break;
		case WRITE:
		case TRY_WRITE:
			if (closed) fin(id, 0);
			else if (nr) { int x = pop(r, nr); fin(x, arg); fin(id, 1); }
			else if (code == TRY_WRITE) fin(id, 0);
			else { val[id] = arg; w[nw++] = id; }
			break;
		case CLOSE:
			closed = true;
			while (nr) fin(pop(r, nr), -1);
			while (nw) fin(pop(w, nw), 0);
			fin(id, 0);
			break;
		case IS_CLOSED: fin(id, closed); break;
		}
	}
};
static mc::counter* g_live;
struct val {
	int v;
	mc::tracked t;
	explicit val(int x) : v(x), t(g_live) {}
	val(val&& o) noexcept : v(o.v), t(std::move(o.t)) { o.v = -7; }
	val& operator=(val&& o) noexcept { v = o.v; o.v = -7; return *this; }
};
struct run {
	channel<val> ch;
	hc::lin_history h;
	bool lin = true;
	hc::any_dispatcher d;
	explicit run(int disp = hc::any_dispatcher::NONE) : d(disp) {}
	hc::co op(int c, int v) {
		int id = h.begin(c, v);
		switch (c) {
		case READ: {
			auto x = co_await ch.read().resume_on(d.get());
			h.end(id, x ? x->v : -1);
			break;
		}
		case WRITE: {
			bool r = co_await ch.write(val(v)).resume_on(d.get());
			h.end(id, r);
			break;
		}
		default: sync(c, v, id);
		}
	}
	void sync(int c, int v, int id) {
		switch (c) {
		case TRY_READ: { auto x = ch.try_read(); h.end(id, x ? x->v : -1); break; }
		case TRY_WRITE: { bool r = ch.try_write(val(v)); h.end(id, r); break; }
		case CLOSE: ch.close(); h.end(id, 0); break;
		case IS_CLOSED: h.end(id, ch.is_closed()); break;
		}
	}
	/// one coroutine running a program
	hc::co prog(const int* ops, int n, int base) {
		for (int i = 0; i < n; i++) {
			int c = ops[i], v = base + i, id = h.begin(c, v);
			if (c == READ) {
				auto x = co_await ch.read().resume_on(d.get());
				h.end(id, x ? x->v : -1);
			} else if (c == WRITE) {
				bool r = co_await ch.write(val(v)).resume_on(d.get());
				h.end(id, r);
			} else sync(c, v, id);
		}
	}
	void check() { h.check<chan_spec>(chan_spec{}, op_names, "channel"); }
	void finish() {
		d.finish();
		check();
		op(IS_CLOSED, 0);
		op(CLOSE, 0);
		d.drain();
		for (int i = 0; i < h.nops; i++) CHECKM(!h.pending(i), "%s (operation %d) stays suspended after close", op_names[h.ops[i].code], i);
		op(READ, 0);
		op(WRITE, 99);
		op(IS_CLOSED, 0);
		check();
	}
};
// every sequence of operations, every operation its own coroutine
MC_SCENARIO(seq, 0, 0, 0, 0, 0) {
	mc::counter live;
	g_live = &live;
	{
		run r;
		int depth = mc::thorough() ? 7 : 6;
		for (int i = 0; i < depth; i++) r.op(mc::choose(NOPS, "op"), i + 1);
		r.finish();
	}
	CHECKM(live.get() == 0, "%d values leaked", live.get());
}
// sequences of operations within coroutines which continue with another operation (re-entrancy)
MC_SCENARIO(seq_programs, 0, 0, 0, 0, 0) {
	mc::counter live;
	g_live = &live;
	{
		run r;
		int nco = 3, len = 2;
		int ops[3][2];
		for (int i = 0; i < nco; i++)
			for (int k = 0; k < len; k++) ops[i][k] = mc::choose(5, "op");
		for (int i = 0; i < nco; i++) r.prog(ops[i], len, 10 * (i + 1));
		r.finish();
	}
	CHECKM(live.get() == 0, "%d values leaked", live.get());
}
// coroutines resumed by a dispatcher, inside of push() or later
MC_SCENARIO(seq_dispatcher, 0, 0, 0, 0, 0) {
	mc::counter live;
	g_live = &live;
	{
		run r(hc::any_dispatcher::INLINE + mc::choose(2, "dispatcher"));
		int depth = mc::thorough() ? 6 : 5;
		for (int i = 0; i < depth; i++) {
			r.op(mc::choose(NOPS - 1, "op"), i + 1);
			if (r.d.kind == hc::any_dispatcher::LATER && !r.d.later.q.empty() && mc::flip("dispatch")) r.d.drain();
		}
		r.finish();
	}
	CHECKM(live.get() == 0, "%d values leaked", live.get());
}
static void conc(int nthreads, int len, int nops, int disp = hc::any_dispatcher::NONE) {
	mc::counter live;
	g_live = &live;
	{
		run r(disp);
		int ops[4][4] = {};
		for (int i = 0; i < nthreads; i++) {
			for (int k = 0; k < len; k++) ops[i][k] = mc::choose(nops, "op");
			if (i > 1 && memcmp(ops[i - 1], ops[i], sizeof ops[i]) > 0) mc::assume(false);
		}
		{
			hc::threads th;
			for (int i = 1; i < nthreads; i++) th.add([&, i] { r.prog(ops[i], len, 10 * (i + 1)); });
			r.prog(ops[0], len, 10);
			th.join();
		}
		r.finish();
	}
	CHECKM(live.get() == 0, "%d values leaked", live.get());
	mc::outcome("ok");
}
MC_SCENARIO(two, 4, 6, 0, 0, 0) { conc(2, 2, NOPS); }
MC_SCENARIO(two_inline, 3, 5, 0, 0, 0) { conc(2, 2, 5, hc::any_dispatcher::INLINE); }
MC_SCENARIO(two_dispatcher, 2, 3, 0, 0, 0) { conc(2, 1, 5, hc::any_dispatcher::THREAD); }
MC_SCENARIO(two_dispatcher_long, 1, 2, 0, 0, 0) { conc(2, 2, 5, hc::any_dispatcher::THREAD); }
MC_SCENARIO(two_long, 2, 4, 0, 0, 0) { conc(2, 3, 5); }
MC_SCENARIO(three, 3, 4, 0, 0, 0) { conc(3, 1, NOPS); }
MC_SCENARIO(three_rw, 2, 3, 0, 0, 0) { conc(3, 2, 2); }
MC_SCENARIO(four, 2, 3, 0, 0, 0) { conc(4, 1, 5); }

// close() against an operation, with stale reads of the flag
MC_SCENARIO(close_weak, 5, 99, 2, 4, 0) {
	channel<int> ch;
	mc::counter done;
	int c = mc::choose(4, "operation"), res = -5;
	std::thread t([&] { ch.close(); });
	[](channel<int>& ch, mc::counter& done, int c, int& res) -> hc::co {
		switch (c) {
		case READ: { auto x = co_await ch.read(); res = x ? *x : -1; break; }
		case WRITE: res = co_await ch.write(3) ? 1 : -1; break;
		case TRY_READ: { auto x = ch.try_read(); res = x ? *x : -1; break; }
		case TRY_WRITE: res = ch.try_write(3) ? 1 : -1; break;
		}
		done.inc();
	}(ch, done, c, res);
	t.join();
	CHECKM(done.get() == 1, "%s stays suspended although the channel was closed", op_names[c]);
	CHECKM(res == -1, "%s returned a result from a closed channel", op_names[c]);
	CHECK(ch.is_closed());
}
// values and everything written before the write are visible to the reader, under stale reads
MC_SCENARIO(publish, 4, 6, 2, 3, 0) {
	channel<std::unique_ptr<int>> ch;
	int data[2] = {};
	mc::counter got, sent;
	int rd = mc::choose(2), wr = mc::choose(2);
	auto reader = [&]() -> hc::co {
		if (rd == 0) {
			auto x = co_await ch.read();
			CHECK(x.has_value() && **x == 5);
			CHECK(data[0] == 1);
			got.inc();
		} else if (auto x = ch.try_read()) {
			CHECK(**x == 5);
			CHECK(data[0] == 1);
			got.inc();
		}
	};
	auto writer = [&]() -> hc::co {
		data[0] = 1;
		bool r = wr == 0 ? co_await ch.write(std::make_unique<int>(5)) : ch.try_write(std::make_unique<int>(5));
		CHECK(r || wr == 1);
		if (r) sent.inc();
	};
	mc::assume(rd == 0 || wr == 0);
	std::thread t([&] { writer(); });
	reader();
	t.join();
	if (wr == 0 && sent.get() == 0) { auto x = ch.try_read(); CHECK(x.has_value()); got.inc(); }
	if (rd == 0 && got.get() == 0) { CHECK(ch.try_write(std::make_unique<int>(5))); data[0] = 1; sent.inc(); }
	ch.close();
	CHECK(got.get() == sent.get());
}
// default dispatcher: the one current at suspension
MC_SCENARIO(dispatch, 3, 5, 0, 1, 0) {
	channel<int> ch;
	hc::manual_dispatcher d;
	int op = mc::choose(2, "read/write"), how = mc::choose(3, "resumed by try, close, counterpart");
	bool deflt = mc::flip("default dispatcher");
	mc::counter done;
	auto body = [&]() -> hc::co {
		if (op == 0) { auto a = ch.read(); if (!deflt) a.resume_on(&d); auto x = co_await a; CHECK(x.has_value() == (how != 1)); }
		else { auto a = ch.write(4); if (!deflt) a.resume_on(&d); bool r = co_await a; CHECK(r == (how != 1)); }
		CHECK(dispatcher::current() == &d);
		done.inc();
	};
	if (deflt) { d.push([&] { body(); }); d.run_one(); }
	else body();
	std::thread t([&] {
		if (how == 1) ch.close();
		else if (how == 0) { if (op == 0) CHECK(ch.try_write(4)); else CHECK(ch.try_read().has_value()); }
		else [](channel<int>& ch, int op) -> hc::co { if (op == 0) CHECK(co_await ch.write(4)); else CHECK((co_await ch.read()).has_value()); }(ch, op);
	});
	t.join();
	CHECK(done.get() == 0);
	CHECKM(d.run_all() == 1, "coroutine was not dispatched exactly once");
	CHECK(done.get() == 1);
}
// a coroutine owns the channel and destroys it as soon as it continues, the call that resumed it may still be running
MC_SCENARIO(owned, 3, 5, 1, 2, 0) {
	hc::any_dispatcher d(mc::choose(4, "dispatcher"));
	int op = mc::choose(2, "read/write"), how = mc::choose(3, "resumed by close, counterpart, try"), n = how == 0 ? 1 + mc::choose(2, "waiting coroutines") : 1;
	bool thread = mc::flip("resumed by another thread");
	mc::counter done;
	channel<int>* ch = new channel<int>;
	int left = n;
	std::mutex mtx;
	auto body = [&](int k) -> hc::co {
		if ((op == 0) == (k == 0)) { auto x = co_await ch->read().resume_on(d.get()); CHECK(x.has_value() == (how != 0)); }
		else { bool r = co_await ch->write(4).resume_on(d.get()); CHECK(r == (how != 0)); }
		bool last;
		{ std::lock_guard lck{mtx}; last = --left == 0; }
		if (last) delete ch;
		done.inc();
	};
	body(0);
	if (n == 2) [](channel<int>* ch, int& left, std::mutex& mtx, int op, dispatcher* d, mc::counter& done) -> hc::co {
		// of the same kind, two different ones would meet
		if (op == 0) CHECK(!(co_await ch->read().resume_on(d)).has_value());
		else CHECK(!co_await ch->write(5).resume_on(d));
		bool last;
		{ std::lock_guard lck{mtx}; last = --left == 0; }
		if (last) delete ch;
		done.inc();
	}(ch, left, mtx, op, d.get(), done);
	auto act = [&, ch] {
		if (how == 0) ch->close();
		else if (how == 1) [](channel<int>* ch, int op) -> hc::co {
			if (op == 0) CHECK(co_await ch->write(4));
			else CHECK((co_await ch->read()).has_value());
		}(ch, op);
		else if (op == 0) CHECK(ch->try_write(4));
		else CHECK(ch->try_read().has_value());
	};
	if (thread) std::thread(act).join();
	else act();
	d.finish();
	CHECKM(done.get() == n, "%d of %d coroutines continued", done.get(), n);
}
// consumer with a local channel: reads until it is closed, then returns (within close())
MC_SCENARIO(owned_stream, 0, 0, 0, 0, 0) {
	int n = mc::choose(4, "values");
	hc::any_dispatcher d(mc::choose(3, "dispatcher"));
	mc::counter done;
	channel<int>* chan = nullptr;
	[](int n, dispatcher* d, mc::counter& done, channel<int>*& chan) -> hc::co {
		int got = 0;
		{
			channel<int> ch;
			chan = &ch;
			while (auto x = co_await ch.read().resume_on(d)) { CHECK(*x == got); got++; }
		}
		CHECKM(got == n, "%d of %d values were received", got, n);
		done.inc();
	}(n, d.get(), done, chan);
	[](int n, hc::any_dispatcher& d, channel<int>* ch) -> hc::co {
		for (int i = 0; i < n; i++) { CHECK(co_await ch->write(i)); d.drain(); }
		ch->close();
		d.drain();
	}(n, d, chan);
	CHECK(done.get() == 1);
}
