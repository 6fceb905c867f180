// C28: failing operations, channel and queues
#include "faults.h"
#include <asyncpp/channel.h>
#include <asyncpp/queue.h>
#include <asyncpp/threadsafe_queue.h>
#include <list>
using namespace asyncpp;
using hc::fval;
using hc::plan;

namespace {
	// Everything producers and consumers reported.
	struct ledger {
		enum { PENDING, OK, NO, FAILED };
		struct rec { bool producer; int value; int st; };
		rec r[16];
		int n = 0;
		int got[16], ngot = 0; // values in the order they were received
		int add(bool producer, int value = 0) { mc::quiet q(this); r[n] = {producer, value, PENDING}; return n++; }
		void fin(int id, int st, int value = -1) {
			mc::quiet q(this);
			if (r[id].st != PENDING) mcrt_fail("operation completed twice");
			r[id].st = st;
			if (!r[id].producer) { r[id].value = value; if (st == OK) got[ngot++] = value; }
		}
		int st(int id) { mc::quiet q(this); return r[id].st; }
		int pending(bool producer) { mc::quiet q(this); int c = 0; for (int i = 0; i < n; i++) c += r[i].producer == producer && r[i].st == PENDING; return c; }
		// Everybody has been served, nothing is lost silently or was received without having been accepted.
		// With dropped, accepted values might have been thrown away on request.
		void check(bool ordered) {
			mc::quiet_local q;
			int lost = 0, told = 0;
			for (int i = 0; i < n; i++) {
				if (r[i].st == PENDING) { mc::check(false, "%s %d was never resumed", r[i].producer ? "producer" : "consumer", i); }
				if (!r[i].producer) { told += r[i].st == FAILED; continue; }
				int c = 0;
				for (int j = 0; j < ngot; j++) c += got[j] == r[i].value;
				mc::check(c <= 1, "value %d received %d times", r[i].value, c);
				if (r[i].st == OK) lost += c == 0;
				else mc::check(c == 0, "value %d was received although its producer failed", r[i].value);
			}
			for (int j = 0; j < ngot; j++) {
				bool known = false;
				for (int i = 0; i < n; i++) known |= r[i].producer && r[i].value == got[j];
				mc::check(known, "received %d, which nobody produced", got[j]);
				if (ordered && j) mc::check(got[j - 1] < got[j], "value %d received before %d", got[j - 1], got[j]);
			}
			mc::check(lost <= told, "%d values accepted but never received, only %d consumers failed", lost, told);
		}
	};
	enum { TRY_PUT, PUT, TRY_TAKE, TAKE, TRY_EMPLACE };

	struct chan_ops {
		static constexpr int NOPS = 4;
		static constexpr bool KEEPS = false; // a refused value stays with the caller
		channel<fval> c;
		explicit chan_ops(int) {}
		bool try_put(fval&& v) { return c.try_write(std::move(v)); }
		bool try_emplace(int) { return false; }
		auto try_take() { return c.try_read(); }
		auto put(fval&& v) { return c.write(std::move(v)); }
		auto take() { return c.read(); }
		void close() { c.close(); }
		void check_empty() {}
	};
	template<class C> struct queue_ops {
		static constexpr int NOPS = 5;
		static constexpr bool KEEPS = true;
		std::optional<queue<fval, C>> c;
		explicit queue_ops(int cap) { c.emplace(static_cast<size_t>(cap)); }
		/// containers that allocate only every now and then
		void age(int items) { while (items-- > 0) { (void)c->try_emplace(0, std::nothrow); (void)c->try_pop(); } }
		bool try_put(fval&& v) { return c->try_push(std::move(v)); }
		bool try_emplace(int v) { return c->try_emplace(v); }
		auto try_take() { return c->try_pop(); }
		auto put(fval&& v) { return c->push(std::move(v)); }
		auto take() { return c->pop(); }
		void close() { *c = queue<fval, C>(); } // fails everyone
		void check_empty() { CHECK(c->empty() && c->size() == 0); }
	};
	template<class Q> struct world {
		hc::fault_world w;
		ledger l;
		Q q;
		hc::any_dispatcher d;
		mc::counter next, skipped;
		explicit world(int cap, int disp = 0) : q(cap), d(disp) {}

		hc::co put(int id, int v) {
			try {
				fval x(v, std::nothrow);
				auto aw = q.put(std::move(x));
				aw.resume_on(d.get());
				bool ok = co_await aw;
				l.fin(id, ok ? ledger::OK : ledger::NO);
			} catch (const hc::boom&) { l.fin(id, ledger::FAILED); }
			catch (const std::bad_alloc&) { l.fin(id, ledger::FAILED); }
		}
		hc::co take(int id) {
			try {
				auto aw = q.take();
				aw.resume_on(d.get());
				auto v = co_await aw;
				l.fin(id, v ? ledger::OK : ledger::NO, v ? v->v : -1);
			} catch (const hc::boom&) { l.fin(id, ledger::FAILED); }
			catch (const std::bad_alloc&) { l.fin(id, ledger::FAILED); }
		}
		int op(int code, plan p = {0, 0}) {
			if (code == TRY_TAKE || code == TAKE) {
				// The item of a waiting producer could not be stored: it keeps waiting while others find space
				if (p.kind != hc::fault::NONE && l.pending(true)) skipped.inc();
				int id = l.add(false), val = -1;
				if (code == TAKE) {
					if (w.fails(p, [&] { take(id); })) l.fin(id, ledger::FAILED);
				} else {
					if (w.fails(p, [&] { auto x = q.try_take(); if (x) val = x->v; })) l.fin(id, ledger::FAILED);
					else l.fin(id, val < 0 ? ledger::NO : ledger::OK, val);
				}
				return id;
			}
			int v = next.inc();
			int id = l.add(true, v);
			if (code == PUT) {
				if (w.fails(p, [&] { put(id, v); })) l.fin(id, ledger::FAILED);
				return id;
			}
			fval x(v, std::nothrow);
			bool ok = false;
			if (w.fails(p, [&] { ok = code == TRY_PUT ? q.try_put(std::move(x)) : q.try_emplace(v); })) l.fin(id, ledger::FAILED);
			else {
				l.fin(id, ok ? ledger::OK : ledger::NO);
				if (!ok && Q::KEEPS) CHECKM(x.v == v, "the value was taken although it was not accepted");
			}
			return id;
		}
		// serve everyone who still waits, receive all that is stored, refuse the rest
		void finish(bool ordered) {
			d.drain();
			for (int c = l.pending(false); c > 0; c--) {
				int id = op(PUT);
				d.drain();
				CHECKM(l.st(id) == ledger::OK, "%d consumers should wait, but nobody accepts a value", c);
			}
			CHECKM(l.pending(false) == 0, "a value was accepted, but the waiting consumer was not resumed");
			while (true) {
				int before = l.pending(true), st = l.st(op(TRY_TAKE));
				d.drain();
				if (st == ledger::NO) { CHECKM(before == 0, "%d producers wait, but their values can not be received", before); break; }
			}
			CHECKM(l.pending(true) == 0, "a waiting producer was not resumed");
			q.check_empty();
			l.check(ordered && !skipped.get());
			q.close();
			d.finish();
			mc::outcome("ok");
		}
	};
	// nothing failed silently: a failing operation left the others as they were
	template<class Q> void one_failure(int cap, int allocs, int disp, int age = 0) {
		world<Q> x(cap, disp);
		if constexpr (requires { x.q.age(0); }) x.q.age(age);
		int n = mc::choose(4, "waiting"); // consumers or producers (stored or waiting)
		bool cons = n && mc::flip("consumers");
		for (int i = 0; i < n; i++) x.op(cons ? TAKE : PUT);
		int code = mc::choose(Q::NOPS, "op");
		x.op(code, plan(4, allocs));
		x.finish(true);
	}
	// sequences of operations with two failures
	template<class Q> void sequences(int cap, int allocs, int depth) {
		world<Q> x(cap);
		for (int i = 0; i < depth; i++) {
			int code = mc::choose(Q::NOPS, "op");
			x.op(code, plan(3, allocs));
		}
		x.finish(true);
	}
	// the failing operation runs concurrently with others
	template<class Q> void concurrent(int cap, int allocs, int others, bool close) {
		world<Q> x(cap);
		int n = mc::choose(3, "waiting");
		bool cons = n && mc::flip("consumers");
		for (int i = 0; i < n; i++) x.op(cons ? TAKE : PUT);
		int code = mc::choose(4, "op");
		plan p(2, allocs);
		mc::assume(p.kind != hc::fault::NONE);
		int oc[2];
		for (int i = 0; i < others; i++) oc[i] = mc::choose(close ? 5 : 4, "other");
		hc::threads th;
		for (int i = 0; i < others; i++) th.add([&x, c = oc[i]] { if (c == 4) x.q.close(); else x.op(c); });
		x.op(code, p);
		th.join();
		if (close) {
			x.q.close();
			x.l.check(false);
			mc::outcome("ok");
		} else x.finish(false);
	}
	using list_queue = queue_ops<std::list<fval>>;
	using deque_queue = queue_ops<std::deque<fval>>;
}
MC_SCENARIO(channel_one, 0, 0, 0, 0, 0) { one_failure<chan_ops>(0, 1, mc::choose(3, "dispatcher")); }
MC_SCENARIO(channel_seq, 0, 0, 0, 0, 0) { sequences<chan_ops>(0, 0, mc::thorough() ? 5 : 4); }
MC_SCENARIO(channel_mt, 4, 8, 0, 0, 0) { concurrent<chan_ops>(0, 0, 1, false); }
MC_SCENARIO(channel_close_mt, 4, 8, 0, 0, 0) { concurrent<chan_ops>(0, 0, 1, true); }
MC_SCENARIO(queue_one, 0, 0, 0, 0, 0) { one_failure<list_queue>(mc::choose(4, "max_size"), 3, mc::choose(3, "dispatcher")); }
MC_SCENARIO(queue_deque_one, 0, 0, 0, 0, 0) { one_failure<deque_queue>(mc::choose(4, "max_size"), 2, 0, mc::choose(512 / sizeof(fval) + 2, "earlier items")); }
MC_SCENARIO(queue_seq, 0, 0, 0, 0, 0) { sequences<list_queue>(mc::choose(3, "max_size"), 2, mc::thorough() ? 4 : 3); }
MC_SCENARIO(queue_mt, 3, 5, 0, 0, 0) { concurrent<list_queue>(mc::choose(2, "max_size"), 2, 1, false); }
MC_SCENARIO(queue_mt3, 1, 2, 0, 0, mc::THOROUGH_ONLY) { concurrent<list_queue>(mc::choose(2, "max_size"), 2, 2, false); }
MC_SCENARIO(channel_mt3, 1, 2, 0, 0, mc::THOROUGH_ONLY) { concurrent<chan_ops>(0, 0, 2, false); }

// threadsafe_queue: a failing operation does nothing
template<class C> static void tsq() {
	hc::fault_world w;
	{
		threadsafe_queue<hc::cfval, C> q, other;
		int n = mc::choose(3, "initial");
		// containers that allocate only every now and then
		for (int i = mc::choose(512 / sizeof(hc::cfval) + 2, "earlier items"); i > 0; i--) { q.emplace(0, std::nothrow); (void)q.pop(); }
		for (int i = 1; i <= n; i++) q.emplace(i, std::nothrow);
		other.emplace(8, std::nothrow);
		std::vector<int> expect;
		for (int i = 1; i <= n; i++) expect.push_back(i);
		int code = mc::choose(5, "op");
		plan p(4, 4);
		bool threw, any = false;
		switch (code) {
		case 0: { hc::cfval v(5, std::nothrow); threw = w.fails(p, [&] { q.push(std::move(v)); }); if (!threw) expect.push_back(5); break; }
		case 1: threw = w.fails(p, [&] { q.emplace(6); }); if (!threw) expect.push_back(6); break;
		case 2: {
			int got = -1;
			threw = w.fails(p, [&] { auto v = q.pop(); if (v) got = v->v; });
			if (!threw) { CHECK(got == (n ? 1 : -1)); if (n) expect.erase(expect.begin()); }
			else {
				// the caller knows about the item it failed to receive, all the others are still there
				CHECK(got == -1);
				auto v = q.pop();
				if (v) { if (v->v == 1) expect.erase(expect.begin()); else { CHECKM(v->v == 2, "received %d", v->v); expect.clear(); } }
				else { CHECKM(n <= 1, "items are missing after a failed operation"); expect.clear(); }
			}
			break;
		}
		// copies: the source is untouched, the target is usable
		case 3: threw = w.fails(p, [&] { auto c = std::as_const(q); }); break;
		case 4: threw = w.fails(p, [&] { other = std::as_const(q); }); any = threw; break;
		}
		for (int e : expect) { auto v = q.pop(); CHECKM(v && v->v == e, "item %d is missing after a failed operation", e); }
		CHECK(!q.pop());
		if (!any) { for (int i = 0; i < (code == 4 ? (int)expect.size() : 1); i++) CHECK(other.pop().has_value()); CHECK(!other.pop()); }
		else { while (other.pop()) {} other.emplace(9, std::nothrow); CHECK(other.pop()->v == 9); }
		mc::outcome("threw=%d", threw);
	}
	CHECKM(w.live.get() == 0, "%d items leaked", w.live.get());
}
MC_SCENARIO(tsq_list, 0, 0, 0, 0, 0) { tsq<std::list<hc::cfval>>(); }
MC_SCENARIO(tsq_deque, 0, 0, 0, 0, 0) { tsq<std::deque<hc::cfval>>(); }
