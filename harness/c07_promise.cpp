#include "lin.h"
#include <asyncpp/promise.h>
using namespace asyncpp;

// results: fulfilled with v => v (positive), rejected with e => -e
enum { FULFILL, TRY_FULFILL, REJECT, TRY_REJECT, THEN, SETTLE, AWAIT, GET, TIMED_GET, TRY_GET, TRY_GET_NT, STATE, NOPS };
static const char* const op_names[] = {"fulfill", "try_fulfill", "reject", "try_reject", "then", "on_settle", "co_await", "get", "timed get", "try_get", "try_get(nothrow)", "is_*"};
struct prom_spec {
	uint32_t done, waiting, settle_wait;
	long result;
	long ret[hc::lin_history::MAX];
	prom_spec() { memset((void*)this, 0, sizeof *this); }
	void fin(int id, long v) { done |= 1u << id; ret[id] = v; }
	void start(int id, int code, long arg, bool returned, long actual) {
		switch (code) {
		case FULFILL:
		case TRY_FULFILL:
		case REJECT:
		case TRY_REJECT:
			fin(id, result == 0);
			if (result) break;
			result = code <= TRY_FULFILL ? arg : -arg;
			for (int i = 0; i < hc::lin_history::MAX; i++)
				if (waiting >> i & 1) fin(i, (settle_wait >> i & 1) ? 1 : result);
			waiting = settle_wait = 0;
			break;
		case TIMED_GET:
			if (!result && returned && actual == 0) { fin(id, 0); break; }
			[[fallthrough]];
		case THEN:
		case AWAIT:
		case GET:
		case SETTLE:
			if (result) fin(id, code == SETTLE ? 1 : result);
			else { waiting |= 1u << id; if (code == SETTLE) settle_wait |= 1u << id; }
			break;
		case TRY_GET:
		case TRY_GET_NT:
			fin(id, result);
			break;
		case STATE: // arg: which question
			fin(id, arg == 0 ? result == 0 : arg == 1 ? result > 0 : result < 0);
			break;
		}
	}
};
struct exc { int v; };
static long what(std::exception_ptr p) {
	try { std::rethrow_exception(p); }
	catch (exc& e) { return -e.v; }
	catch (...) { mc::check(false, "wrong exception"); }
	return 0;
}
// one operation on a promise<long> or promise<void>; for void a fulfilled result is 1
template<class P> struct ops {
	static constexpr bool VOID = std::is_void_v<typename P::result_type>;
	P p;
	hc::lin_history h;
	long long settled_at = -1;
	struct payload { long v; };
	static long val(const long& x) { return x; }
	bool settle(int c, long v) {
		bool r = false;
		if constexpr (VOID) {
			if (c == TRY_FULFILL) r = p.try_fulfill();
			else if (c == FULFILL) { try { p.fulfill(); r = true; } catch (std::logic_error&) {} }
		} else {
			if (c == TRY_FULFILL) r = p.try_fulfill(v);
			else if (c == FULFILL) { try { p.fulfill(v); r = true; } catch (std::logic_error&) {} }
		}
		if (c == TRY_REJECT) r = p.template try_reject<exc>(int(v));
		else if (c == REJECT) { try { p.reject(std::make_exception_ptr(exc{int(v)})); r = true; } catch (std::logic_error&) {} }
		return r;
	}
	hc::co await(int id) {
		long r = 0;
		try {
			if constexpr (VOID) { co_await p; r = 1; }
			else r = co_await p;
		} catch (exc& e) { r = -e.v; }
		h.end(id, r);
	}
	void run(int c, long v) {
		if (VOID && c <= TRY_FULFILL) v = 1;
		int id = h.begin(c, v);
		switch (c) {
		case FULFILL:
		case TRY_FULFILL:
		case REJECT:
		case TRY_REJECT: {
			bool r = settle(c, v);
			if (r) settled_at = mc::now();
			h.end(id, r);
			break;
		}
		case THEN:
			if constexpr (VOID) p.then([this, id] { h.end(id, 1); }, [this, id](const std::exception_ptr& e) { h.end(id, what(e)); });
			else p.then([this, id](const long& x) { h.end(id, x); }, [this, id](const std::exception_ptr& e) { h.end(id, what(e)); });
			break;
		case SETTLE: p.on_settle([this, id] { h.end(id, 1); }); break;
		case AWAIT: await(id); break;
		case GET: {
			long r = 0;
			try { if constexpr (VOID) { p.get(); r = 1; } else r = p.get(); } catch (exc& e) { r = -e.v; }
			h.end(id, r);
			break;
		}
		case TIMED_GET: {
			long r = 0;
			long long deadline = mc::now() + v * 1000;
			try {
				if constexpr (VOID) r = p.get(std::chrono::microseconds(v));
				else { long* x = p.get(std::chrono::microseconds(v)); r = x ? *x : 0; }
			} catch (exc& e) { r = -e.v; }
			if (r == 0) {
				CHECKM(mc::now() >= deadline, "timed get gave up %lld ns before its timeout", deadline - mc::now());
				mc::quiet q(&h);
				CHECKM(settled_at < 0 || settled_at >= deadline, "timed get reported a timeout although the promise was settled before");
			}
			h.end(id, r);
			break;
		}
		case TRY_GET: {
			long r = 0;
			try { if constexpr (VOID) r = p.try_get(); else { long* x = p.try_get(); r = x ? *x : 0; } } catch (exc& e) { r = -e.v; }
			h.end(id, r);
			break;
		}
		case TRY_GET_NT: {
			long r = 0;
			if constexpr (VOID) { auto x = p.try_get(std::nothrow); CHECK(x.first || !x.second); r = x.second ? what(x.second) : x.first ? 1 : 0; }
			else { auto x = p.try_get(std::nothrow); CHECK(!x.first || !x.second); r = x.second ? what(x.second) : x.first ? *x.first : 0; }
			h.end(id, r);
			break;
		}
		case STATE: h.end(id, v == 0 ? p.is_pending() : v == 1 ? p.is_fulfilled() : p.is_rejected()); break;
		}
	}
	void finish() {
		h.template check<prom_spec>(prom_spec{}, op_names, "promise");
		run(TRY_REJECT, 77);
		run(TRY_GET, 0);
		for (int i = 0; i < 3; i++) run(STATE, i);
		run(AWAIT, 0);
		run(THEN, 0);
		run(SETTLE, 0);
		run(GET, 0);
		run(TIMED_GET, 0);
		for (int i = 0; i < h.nops; i++) CHECKM(!h.pending(i), "%s (operation %d) did not continue after the promise was settled", op_names[h.ops[i].code], i);
		h.template check<prom_spec>(prom_spec{}, op_names, "promise");
	}
};
typedef ops<promise<long>> L;
typedef ops<promise<void>> V;

// all sequences on one thread (blocking operations only after settlement)
template<class O> static void seq() {
	O o;
	static const int code[] = {TRY_FULFILL, TRY_REJECT, FULFILL, REJECT, THEN, SETTLE, AWAIT, TRY_GET, TRY_GET_NT, TIMED_GET};
	int depth = mc::thorough() ? 5 : 4;
	for (int i = 0; i < depth; i++) o.run(code[mc::choose(10, "op")], i + 1);
	o.finish();
}
MC_SCENARIO(seq_value, 0, 0, 0, 0, 0) { seq<L>(); }
MC_SCENARIO(seq_void, 0, 0, 0, 0, 0) { seq<V>(); }

// two settlers and an observer which registers before, during or after
template<class O> static void race(int nobs, int nset) {
	static const int scode[] = {TRY_FULFILL, TRY_REJECT, FULFILL, REJECT};
	static const int ocode[] = {THEN, SETTLE, AWAIT, GET, TRY_GET, STATE, TIMED_GET};
	O o;
	int s[3], ob[3], st = 0;
	for (int i = 0; i < nset; i++) { s[i] = mc::choose(2, "settle op"); if (i && s[i] < s[i - 1]) mc::assume(false); }
	if (mc::flip("throwing variant")) s[0] += 2;
	for (int i = 0; i < nobs; i++) { ob[i] = mc::choose(7, "observer"); if (i && ob[i] < ob[i - 1]) mc::assume(false); if (ocode[ob[i]] == STATE) st = mc::choose(3, "state"); }
	{
		hc::threads th;
		for (int i = 0; i < nset; i++) th.add([&, i] { o.run(scode[s[i]], i + 1); });
		for (int i = 1; i < nobs; i++) th.add([&, i] { o.run(ocode[ob[i]], ocode[ob[i]] == STATE ? st : 5); });
		o.run(ocode[ob[0]], ocode[ob[0]] == STATE ? st : 5);
		th.join();
	}
	o.finish();
	mc::outcome("ok");
}
MC_SCENARIO(race_value, 3, 5, 0, 0, mc::SPURIOUS) { race<L>(1, 2); }
MC_SCENARIO(race_void, 3, 5, 0, 0, mc::SPURIOUS) { race<V>(1, 2); }
MC_SCENARIO(race_single, 4, 99, 1, 2, mc::SPURIOUS) { race<L>(2, 1); }
MC_SCENARIO(race_obs2, 2, 3, 0, 0, 0) { race<L>(2, 2); }
MC_SCENARIO(race_set3, 2, 4, 0, 0, 0) { race<L>(1, 3); }

// same thread registers several observers while another settles
MC_SCENARIO(register_many, 3, 5, 0, 0, 0) {
	L o;
	static const int ocode[] = {THEN, SETTLE, AWAIT};
	int c[3];
	for (int& x : c) x = ocode[mc::choose(3, "observer")];
	bool rej = mc::flip("reject");
	std::thread t([&] { o.run(rej ? TRY_REJECT : TRY_FULFILL, 4); });
	for (int x : c) o.run(x, 0);
	t.join();
	o.finish();
}
// callbacks which use the promise they are registered on
MC_SCENARIO(reentrant, 0, 0, 0, 0, 0) {
	L o;
	static const int code[] = {TRY_FULFILL, TRY_REJECT, THEN, SETTLE, AWAIT, TRY_GET, GET, STATE};
	int reg = mc::choose(3, "registration"), inner = code[mc::choose(8, "op in callback")];
	bool rej = mc::flip("reject"), late = mc::flip("registered late");
	mc::counter n;
	auto act = [&] { n.inc(); o.run(inner, inner == STATE ? 1 : 6); };
	auto doreg = [&] {
		if (reg == 0) o.p.on_settle(act);
		else if (reg == 1) o.p.then([&](const long&) { act(); }, [&](const std::exception_ptr&) { act(); });
		else [](L& o, decltype(act)& act) -> hc::co { try { (void)co_await o.p; } catch (exc&) {} act(); }(o, act);
	};
	if (!late) doreg();
	o.run(rej ? TRY_REJECT : TRY_FULFILL, 3);
	if (late) doreg();
	CHECK(n.get() == 1);
	o.finish();
}
// data written before settling is visible to every observer; the value is a single object
MC_SCENARIO(publish, 5, 99, 2, 3, mc::SPURIOUS) {
	promise<std::unique_ptr<int>> p;
	int data = 0;
	mc::counter n;
	int how = mc::choose(6, "observer");
	std::thread t([&] {
		data = 1;
		CHECK(p.try_fulfill(std::make_unique<int>(5)));
	});
	switch (how) {
	case 0: CHECK(*p.get() == 5); CHECK(data == 1); n.inc(); break;
	case 1: if (auto x = p.get(std::chrono::microseconds(10))) { CHECK(**x == 5); CHECK(data == 1); } n.inc(); break;
	case 2: if (auto x = p.try_get()) { CHECK(**x == 5); CHECK(data == 1); } n.inc(); break;
	case 3: [](auto& p, auto& n, int& data) -> hc::co { auto& x = co_await p; CHECK(*x == 5); CHECK(data == 1); n.inc(); }(p, n, data); break;
	case 4: p.then([&](const std::unique_ptr<int>& x) { CHECK(*x == 5); CHECK(data == 1); n.inc(); }, [&](const std::exception_ptr&) { CHECK(false); }); break;
	case 5: p.on_settle([&] { CHECK(data == 1); CHECK(*p.get() == 5); n.inc(); }); break;
	}
	t.join();
	CHECK(n.get() == 1);
}
// copies of a promise share the state, which is released exactly once
MC_SCENARIO(copies, 3, 99, 1, 2, 0) {
	mc::counter live, n;
	{
		auto p = std::make_unique<promise<mc::tracked>>();
		std::thread t([q = *p] { promise<mc::tracked> r = q; (void)r.get(); });
		std::thread s([q = *p, &live]() mutable { CHECK(q.try_fulfill(mc::tracked(&live))); });
		p->on_settle([&] { n.inc(); });
		p.reset();
		t.join();
		s.join();
	}
	CHECK(n.get() == 1);
	CHECKM(live.get() == 0, "value leaked");
}
// A value whose construction throws does not settle the promise
struct thrower {
	int v;
	std::string nontrivial = "text which does not fit into the small buffer";
	explicit thrower(int x) : v(x) { if (x < 0) throw exc{x}; }
};
MC_SCENARIO(value_throws, 0, 0, 0, 0, 0) {
	promise<thrower> p;
	mc::counter n;
	p.on_settle([&] { n.inc(); });
	bool thrown = false;
	try { (void)p.try_fulfill(-1); } catch (exc&) { thrown = true; }
	CHECK(thrown);
	CHECK(n.get() == 0);
	CHECKM(p.is_pending(), "promise is not pending after constructing the value failed");
	CHECK(p.try_fulfill(3));
	CHECK(p.get().v == 3);
	CHECK(n.get() == 1);
}
// a null callback for the outcome that does not happen (or does) is ignored
template<class T> static void null_callbacks_impl() {
	constexpr bool VOID = std::is_void_v<T>;
	promise<T> p;
	mc::counter a, b;
	bool rej = mc::flip("reject"), late = mc::flip("late"), n1 = mc::flip("null success"), n2 = mc::flip("null failure");
	auto reg = [&] {
		std::function<void(const std::exception_ptr&)> f;
		if (!n2) f = [&](const std::exception_ptr& e) { CHECK(what(e) == -4); b.inc(); };
		if constexpr (VOID) {
			std::function<void()> t;
			if (!n1) t = [&] { a.inc(); };
			p.then(t, f);
		} else {
			std::function<void(const int&)> t;
			if (!n1) t = [&](const int& v) { CHECK(v == 3); a.inc(); };
			p.then(t, f);
		}
		p.on_settle({});
	};
	if (!late) reg();
	if (rej) CHECK(p.template try_reject<exc>(4));
	else if constexpr (VOID) CHECK(p.try_fulfill());
	else CHECK(p.try_fulfill(3));
	if (late) reg();
	CHECK(a.get() == (!rej && !n1));
	CHECK(b.get() == (rej && !n2));
}
MC_SCENARIO(null_callbacks, 0, 0, 0, 0, 0) { if (mc::flip("void")) null_callbacks_impl<void>(); else null_callbacks_impl<int>(); }
// copies share the outcome; assignment gives up the old state (and what was registered there) and shares the other
MC_SCENARIO(assign, 0, 0, 0, 0, 0) {
	mc::counter live;
	int calls[2] = {};
	{
		promise<int> p[3];
		int st[3] = {0, 1, 2}, out[3] = {}; // state each of them refers to; outcome of the states
		for (int i = 0; i < 2; i++) p[i].then([&calls, i, t = mc::tracked(&live)](const int& v) { CHECK(v == 7 + i); calls[i]++; }, [](const std::exception_ptr&) { CHECK(false); });
		for (int k = 0; k < 3; k++) {
			int op = mc::choose(10, "op");
			if (op < 9) { int a = op / 3, b = op % 3; auto& r = (p[a] = p[b]); CHECK(&r == &p[a]); st[a] = st[b]; }
			else {
				int a = mc::choose(3, "settle");
				bool ok = p[a].try_fulfill(7 + st[a]);
				CHECK(ok == !out[st[a]]);
				out[st[a]] = 7 + st[a];
			}
			for (int i = 0; i < 3; i++) {
				int* v = p[i].try_get();
				CHECKM((v ? *v : 0) == out[st[i]], "promise %d refers to the wrong state", i);
			}
			for (int i = 0; i < 2; i++) CHECK(calls[i] == (out[i] != 0));
			int refd = 0;
			for (int i = 0; i < 2; i++) refd += st[0] == i || st[1] == i || st[2] == i;
			CHECKM(live.get() <= refd, "%d callbacks alive for %d states", live.get(), refd);
		}
	}
	CHECK(live.get() == 0);
}
MC_SCENARIO(make, 0, 0, 0, 0, 0) {
	auto f = promise<int>::make_fulfilled(3);
	CHECK(f.is_fulfilled() && f.get() == 3 && !f.try_fulfill(4) && f.get() == 3);
	auto r = promise<int>::make_rejected(std::make_exception_ptr(exc{5}));
	CHECK(r.is_rejected() && what(r.try_get(std::nothrow).second) == -5);
	auto v = promise<void>::make_fulfilled();
	CHECK(v.is_fulfilled());
	auto w = promise<void>::make_rejected(std::make_exception_ptr(exc{5}));
	CHECK(w.is_rejected());
}
// all kinds of timeouts; the promise is settled before or after the deadline
using namespace std::chrono_literals;
template<class D> static void timed(D d, bool before, bool rej) {
	using namespace std::chrono;
	promise<int> p;
	auto ns = duration_cast<nanoseconds>(d);
	auto at = before ? ns / 2 : std::max(nanoseconds(0), ns) + 5ms;
	long long begin = mc::now();
	// a waiter that only gets to run after its timeout still has to see that the promise was settled in time
	bool late = before && mc::flip("the waiter runs late");
	long long settled = -1;
	std::thread t([p, at, rej, late, ns, &settled]() mutable {
		if (at > nanoseconds(0)) std::this_thread::sleep_for(at);
		if (rej) (void)p.try_reject<exc>(3); else (void)p.try_fulfill(3);
		{ mc::quiet q(&settled); settled = mc::now(); }
		if (late) mc::advance(ns.count() + 1000);
	});
	int r = 0;
	try { if (int* x = p.get(d)) r = *x; } catch (exc& e) { r = -e.v; }
	if (r == 0) {
		CHECKM(mc::now() - begin >= ns.count(), "timed get gave up %lld ns before its timeout", (long long)(begin + ns.count() - mc::now()));
		mc::quiet q(&settled);
		CHECKM(settled < 0 || settled >= begin + ns.count(), "timed get reported a timeout although the promise was settled in time");
	} else CHECKM(r == (rej ? -3 : 3), "wrong outcome %d", r);
	if (!before) CHECKM(r == 0 || mc::now() - begin >= at.count(), "the outcome was seen before it existed");
	mc::outcome("%s", r ? "settled" : "timeout");
	t.join();
	try { CHECK(p.get() == 3 && !rej); } catch (exc& e) { CHECK(rej && e.v == 3); }
	try { CHECK(p.get(D(0)) != nullptr && !rej); } catch (exc& e) { CHECK(rej && e.v == 3); }
}
MC_SCENARIO(timeouts, 1, 3, 0, 1, 0) {
	using namespace std::chrono;
	bool before = mc::flip("before"), rej = mc::flip("reject");
	switch (mc::choose(9)) {
	case 0: timed(2ns, before, rej); break;
	case 1: timed(999ns, before, rej); break;
	case 2: timed(300us, before, rej); break;
	case 3: timed(7ms, before, rej); break;
	case 4: timed(2s, before, rej); break;
	case 5: timed(3min, before, rej); break;
	case 6: timed(duration<double>(0.25), before, rej); break;
	case 7: timed(0ms, before, rej); break;
	case 8: timed(-1s, before, rej); break;
	}
}
// "wait forever": a timeout beyond the range of the clock is not reached
template<class D> static void forever(D d) {
	promise<int> p;
	int rej = mc::flip("reject");
	std::thread t([p, rej]() mutable {
		if (mc::flip("slow")) std::this_thread::sleep_for(1h);
		if (rej) (void)p.try_reject<exc>(3); else (void)p.try_fulfill(3);
	});
	try {
		int* x = p.get(d);
		CHECKM(x != nullptr, "a timeout that is far away was reached");
		CHECK(*x == 3 && !rej);
	} catch (exc& e) { CHECK(rej && e.v == 3); }
	t.join();
}
MC_SCENARIO(timeouts_forever, 1, 3, 0, 1, 0) {
	using namespace std::chrono;
	switch (mc::choose(7)) {
	case 0: forever(nanoseconds::max()); break;
	case 1: forever(milliseconds::max()); break;
	case 2: forever(hours::max()); break;
	case 3: forever(duration<double>(1e300)); break;
	case 4: forever(duration<double>(std::numeric_limits<double>::infinity())); break;
	case 5: forever(hours(24 * 365 * 100)); break;
	case 6: forever(nanoseconds::max() - 1h); break;
	}
}
// the observer destroys the promise that was settled through a reference
MC_SCENARIO(destroyed_by_observer, 3, 6, 1, 2, 0) {
	mc::counter live, ends, calls;
	promise<mc::tracked>* ptr = nullptr;
	int others = mc::choose(4, "other observers");
	bool rej = mc::flip("reject"), threaded = mc::flip("settled by another thread");
	{
		auto waiter = [&]() -> hc::co {
			promise<mc::tracked> p;
			ptr = &p;
			if (others & 1) p.then([&](const mc::tracked& v) { CHECKM(v.live == &live && live.get() > 0, "the value is gone"); calls.inc(); }, [&](const std::exception_ptr& e) { CHECKM(what(e) == -4, "the exception is gone"); calls.inc(); });
			if (others & 2) p.on_settle([&] { calls.inc(); });
			try { (void)co_await p; CHECK(!rej); } catch (exc& e) { CHECK(rej && e.v == 4); }
			ends.inc();
		};
		waiter();
		auto settle = [&] { CHECK(rej ? ptr->try_reject<exc>(4) : ptr->try_fulfill(mc::tracked(&live))); };
		if (threaded) { std::thread t(settle); t.join(); }
		else settle();
	}
	CHECKM(ends.get() == 1 && calls.get() == (others & 1) + (others >> 1), "not every observer was called");
	CHECK(live.get() == 0);
	mc::outcome("ok");
}

// callbacks own objects that use the promise when they are destroyed (typically to make sure that it is settled at all)
template<class P> static void callback_owner() {
	constexpr bool VOID = std::is_void_v<typename P::result_type>;
	struct guard {
		P p;
		int use;
		bool ok; // the outcome
		int* dead;
		int* late;
		~guard() {
			++*dead;
			CHECKM(!p.is_pending(), "callbacks are destroyed before the promise is settled");
			switch (use) {
			case 0: CHECK(!p.try_reject(std::make_exception_ptr(exc{9}))); break;
			case 1:
				if constexpr (VOID) CHECK(!p.try_fulfill());
				else CHECK(!p.try_fulfill(9L));
				break;
			case 2: CHECK(p.is_fulfilled() == ok && p.is_rejected() == !ok); break;
			case 3: p.on_settle([late = late] { ++*late; }); break;
			case 4: CHECK((p.try_get(std::nothrow).second != nullptr) == !ok); break;
			}
		}
	};
	bool ok = mc::choose(2, "rejected/fulfilled");
	int use = mc::choose(5, "the destructor of a callback uses the promise"), reg = mc::choose(3, "registered with then, on_settle, both");
	int dead = 0, late = 0, called = 0;
	{
		P p;
		auto g = std::shared_ptr<guard>(new guard{p, use, ok, &dead, &late});
		if (reg != 1) {
			if constexpr (VOID) p.then([g, &called] { called++; }, [g2 = std::shared_ptr<guard>(new guard{p, use, ok, &dead, &late}), &called](const std::exception_ptr&) { called++; });
			else p.then([g, &called](long) { called++; }, [g2 = std::shared_ptr<guard>(new guard{p, use, ok, &dead, &late}), &called](const std::exception_ptr&) { called++; });
		}
		if (reg != 0) p.on_settle([g = std::move(g), &called] { called++; });
		g.reset();
		if (ok) {
			if constexpr (VOID) p.fulfill();
			else p.fulfill(7L);
		} else p.reject(std::make_exception_ptr(exc{1}));
		int objs = reg == 1 ? 1 : 2, calls = reg == 2 ? 2 : 1;
		CHECKM(called == calls, "%d callbacks called instead of %d", called, calls);
		CHECKM(dead == objs, "%d of %d callbacks destroyed after the promise was settled", dead, objs);
		CHECK(late == (use == 3 ? objs : 0));
	}
}
MC_SCENARIO(callback_owner_value, 0, 0, 0, 0, 0) { callback_owner<promise<long>>(); }
MC_SCENARIO(callback_owner_void, 0, 0, 0, 0, 0) { callback_owner<promise<void>>(); }
