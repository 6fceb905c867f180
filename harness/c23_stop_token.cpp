// FLAGS: -DASYNCPP_FORCE_CUSTOM_STOP_TOKEN=1
// C23: stop_source / stop_token / stop_callback replacement
#include "common.h"
#include <asyncpp/stop_token.h>
using asyncpp::stop_source; using asyncpp::stop_token; using asyncpp::stop_callback; using asyncpp::nostopstate;
static_assert(!std::is_same_v<stop_source, void>);

// ---- all sequences of operations against a reference
namespace {
struct cb_state; 
struct ref_state { int sources = 0; bool requested = false; std::vector<struct cb_slot*> cbs; };
struct seq;
struct cb_fn { struct cb_slot* s; mc::tracked t; cb_fn(cb_slot* s, mc::counter* c) : s(s), t(c) {} void operator()() const; };
struct cb_slot {
	seq* q = nullptr;
	std::unique_ptr<stop_callback<cb_fn>> cb;
	int ref = -1;      // state registered with
	bool registered = false, exists = false;
	int runs = 0, expected = 0, action = 0;
};
struct seq {
	static constexpr int NS = 2, NT = 2, NC = 2;
	mc::counter fns;
	std::deque<ref_state> st;
	std::unique_ptr<stop_source> src[NS]; int rs[NS];   // -1: no state, -2: object does not exist
	std::unique_ptr<stop_token> tok[NT]; int rt[NT];
	cb_slot cb[NC];
	int requesting = -1;
	seq() { for (auto& r : rs) r = -2; for (auto& r : rt) r = -2; for (auto& c : cb) c.q = this; }
	void drop(int r) { if (r >= 0) st[static_cast<size_t>(r)].sources--; }
	void use(int r) { if (r >= 0) st[static_cast<size_t>(r)].sources++; }
	bool requested(int r) { return r >= 0 && st[static_cast<size_t>(r)].requested; }
	bool possible(int r) { return r >= 0 && (st[static_cast<size_t>(r)].requested || st[static_cast<size_t>(r)].sources > 0); }
	void set_src(int i, std::unique_ptr<stop_source> s, int r) { src[i] = std::move(s); int old = rs[i]; rs[i] = r; drop(old); }
	void destroy_cb(cb_slot& c) {
		if (!c.exists) return;
		c.exists = false;
		if (c.registered) { auto& v = st[static_cast<size_t>(c.ref)].cbs; std::erase(v, &c); }
		c.registered = false;
		auto p = std::move(c.cb);
		p.reset();
	}
	void request(int i) {
		int r = rs[i];
		bool expect = r >= 0 && !st[static_cast<size_t>(r)].requested;
		if (expect) st[static_cast<size_t>(r)].requested = true;
		bool got = src[i]->request_stop();
		CHECKM(got == expect, "request_stop() returned %d", got);
		if (expect) {
			for (auto* c : st[static_cast<size_t>(r)].cbs) CHECKM(c->runs == 1, "a registered callback ran %d times", c->runs);
			st[static_cast<size_t>(r)].cbs.clear();
		}
	}
	void make_cb(cb_slot& c, int t, bool rvalue) {
		destroy_cb(c);
		c.runs = 0; c.ref = rt[t]; c.exists = true;
		c.action = 0;
		bool now = requested(c.ref);
		if (!now) c.action = mc::choose(5, "action");
		c.registered = !now && possible(c.ref);
		if (c.registered) st[static_cast<size_t>(c.ref)].cbs.push_back(&c);
		if (rvalue) {
			auto tk = std::make_unique<stop_token>(*tok[t]);
			c.cb = std::make_unique<stop_callback<cb_fn>>(std::move(*tk), cb_fn(&c, &fns));
		} else c.cb = std::make_unique<stop_callback<cb_fn>>(std::as_const(*tok[t]), cb_fn(&c, &fns));
		CHECKM(c.runs == (now ? 1 : 0), "callback ran %d times in its constructor", c.runs);
	}
	void verify() {
		for (int i = 0; i < NS; i++) if (src[i]) {
			CHECKM(src[i]->stop_possible() == (rs[i] >= 0), "source: stop_possible() is %d", src[i]->stop_possible());
			CHECKM(src[i]->stop_requested() == requested(rs[i]), "source: stop_requested() is %d", src[i]->stop_requested());
			for (int k = 0; k < NS; k++) if (src[k]) CHECKM((*src[i] == *src[k]) == (rs[i] == rs[k]), "sources compare wrong");
		}
		for (int i = 0; i < NT; i++) if (tok[i]) {
			CHECKM(tok[i]->stop_possible() == possible(rt[i]), "token: stop_possible() is %d", tok[i]->stop_possible());
			CHECKM(tok[i]->stop_requested() == requested(rt[i]), "token: stop_requested() is %d", tok[i]->stop_requested());
			for (int k = 0; k < NT; k++) if (tok[k]) CHECKM((*tok[i] == *tok[k]) == (rt[i] == rt[k]), "tokens compare wrong");
			for (int k = 0; k < NS; k++) if (src[k]) CHECKM((*tok[i] == src[k]->get_token()) == (rt[i] == rs[k]), "token of the source compares wrong");
		}
		int n = 0;
		for (auto& c : cb) { n += c.exists; if (c.exists && c.registered) CHECKM(c.runs == (requested(c.ref) ? 1 : 0), "registered callback ran %d times", c.runs); }
		CHECKM(fns.get() == n, "%d callables exist for %d callbacks", fns.get(), n);
	}
	void step(int op) {
		int i = op & 1, k = 1 - i;
		switch (op >> 1) {
		case 0: { auto s = std::make_unique<stop_source>(); int r = static_cast<int>(st.size()); st.emplace_back(); use(r); set_src(i, std::move(s), r); break; }
		case 1: set_src(i, std::make_unique<stop_source>(nostopstate), -1); break;
		case 2: mc::assume(!!src[k]); { auto s = std::make_unique<stop_source>(*src[k]); use(rs[k]); set_src(i, std::move(s), rs[k]); } break;
		case 3: mc::assume(!!src[k]); { auto s = std::make_unique<stop_source>(std::move(*src[k])); int r = rs[k]; rs[k] = -1; set_src(i, std::move(s), r); } break;
		case 4: mc::assume(src[0] && src[1]); *src[i] = *src[k]; use(rs[k]); drop(rs[i]); rs[i] = rs[k]; break;
		case 5: mc::assume(src[0] && src[1]); { *src[i] = std::move(*src[k]); drop(rs[i]); rs[i] = rs[k]; rs[k] = -1; } break;
		case 6: mc::assume(src[0] && src[1]); if (i) swap(*src[0], *src[1]); else src[0]->swap(*src[1]); std::swap(rs[0], rs[1]); break;
		case 7: mc::assume(!!src[i]); { auto& self = *src[i]; *src[i] = self; if (mc::flip()) *src[i] = std::move(self); } break;
		case 8: mc::assume(!!src[i]); set_src(i, nullptr, -2); break;
		case 9: mc::assume(!!src[i]); request(i); break;
		case 10: { int s = mc::choose(2, "source"); mc::assume(!!src[s]); if (mc::flip("new")) { tok[i] = std::make_unique<stop_token>(src[s]->get_token()); } else { mc::assume(!!tok[i]); *tok[i] = src[s]->get_token(); } rt[i] = rs[s]; break; }
		case 11: mc::assume(!!tok[k]); if (mc::flip("move")) { tok[i] = std::make_unique<stop_token>(std::move(*tok[k])); rt[i] = rt[k]; rt[k] = -1; } else { tok[i] = std::make_unique<stop_token>(*tok[k]); rt[i] = rt[k]; } break;
		case 12: mc::assume(tok[0] && tok[1]); if (i) swap(*tok[0], *tok[1]); else if (mc::flip("move")) { *tok[0] = std::move(*tok[1]); rt[0] = rt[1]; rt[1] = -1; break; } else { *tok[0] = *tok[1]; rt[0] = rt[1]; break; } std::swap(rt[0], rt[1]); break;
		case 13: if (tok[i]) { tok[i].reset(); rt[i] = -2; } else { tok[i] = std::make_unique<stop_token>(); rt[i] = -1; } break;
		case 14: { int t = mc::choose(2, "token"); mc::assume(!!tok[t]); make_cb(cb[i], t, mc::flip("rvalue")); break; }
		case 15: mc::assume(cb[i].exists); destroy_cb(cb[i]); break;
		}
	}
	void run(int n, const std::vector<int>& ops) {
		int m = static_cast<int>(ops.size());
		while (n-- > 0) {
			int op = mc::choose(2 * m + 1, "op");
			if (op == 2 * m) break;
			step(ops[static_cast<size_t>(op / 2)] * 2 + op % 2);
			verify();
		}
	}
	void end() {
		for (auto& c : cb) destroy_cb(c);
		for (auto& s : src) s.reset();
		for (int i = 0; i < NT; i++) if (tok[i]) { CHECKM(tok[i]->stop_possible() == requested(rt[i]), "stop is possible without a source"); tok[i].reset(); }
	}
};
void cb_fn::operator()() const {
	auto* c = s; auto* q = c->q;
	CHECKM(c->runs++ == 0, "callback ran again");
	CHECKM(q->requested(c->ref), "callback ran without a stop request");
	for (int i = 0; i < seq::NS; i++) if (q->src[i] && q->rs[i] == c->ref) { CHECK(q->src[i]->stop_requested()); CHECKM(!q->src[i]->request_stop(), "a second stop request succeeded"); }
	switch (c->action) {
	case 1: q->destroy_cb(*c); break; // itself
	case 2: q->destroy_cb(q->cb[c == &q->cb[0]]); break; // the other one
	case 3: for (int i = 0; i < seq::NT; i++) { q->tok[i].reset(); q->rt[i] = -2; } break;
	case 4: { // registers another one on the same state
		int ran = 0;
		for (int i = 0; i < seq::NS; i++) if (q->src[i] && q->rs[i] == c->ref) { auto f = [&ran] { ran++; }; stop_callback x(q->src[i]->get_token(), f); CHECK(ran == 1); break; }
		break;
	}
	}
}
void sequences(int n, std::initializer_list<int> ops) {
	seq q;
	switch (mc::choose(3, "start")) {
	case 0: break;
	case 1: q.step(0); q.step(1); q.tok[0] = std::make_unique<stop_token>(q.src[0]->get_token()); q.rt[0] = q.rs[0]; q.tok[1] = std::make_unique<stop_token>(q.src[1]->get_token()); q.rt[1] = q.rs[1]; break;
	case 2: q.step(0); q.step(2 * 2 + 1); q.tok[0] = std::make_unique<stop_token>(q.src[0]->get_token()); q.rt[0] = q.rs[0]; q.make_cb(q.cb[0], 0, false); q.make_cb(q.cb[1], 0, true); break;
	}
	q.verify();
	q.run(n, ops);
	q.end();
	CHECK(q.fns.get() == 0);
	mc::outcome("ok");
}
}
MC_SCENARIO(sequences2, 0, 0, 0, 0, 0) { sequences(2, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}); }
MC_SCENARIO(sequences_state, 0, 0, 0, 0, 0) { sequences(3, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}); }
MC_SCENARIO(sequences_callbacks, 0, 0, 0, 0, 0) { sequences(3, {4, 5, 8, 9, 14, 15}); }
MC_SCENARIO(sequences_callbacks4, 0, 0, 0, 0, mc::THOROUGH_ONLY) { sequences(4, {8, 9, 14, 15}); }
MC_SCENARIO(sequences3, 0, 0, 0, 0, mc::THOROUGH_ONLY) { sequences(3, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}); }

// ---- concurrency
namespace {
struct shared {
	std::atomic<bool> alive{false}; // only used from quiet sections
	mc::counter runs, running, destroyed, wins, bad;
};
struct hit { shared* s; void operator()() const noexcept { s->running.inc(); s->runs.inc(); s->running.dec(); } };
}
// several requests
MC_SCENARIO(mt_request, 4, 8, 1, 2, 0) {
	mc::counter wins;
	stop_source src;
	shared sh;
	stop_callback cb(src.get_token(), hit{&sh});
	int before = mc::choose(2);
	hc::threads th;
	for (int i = 0; i < 2; i++) th.add([s = src, &wins, &sh] { if (s.request_stop()) { wins.inc(); CHECKM(sh.runs.get() == 1, "the winning request returned before the callback ran"); } CHECK(s.stop_requested() && s.get_token().stop_requested()); });
	if (before) { if (src.request_stop()) wins.inc(); }
	th.join();
	CHECKM(wins.get() == 1, "%d requests succeeded", wins.get());
	CHECKM(sh.runs.get() == 1, "callback ran %d times", sh.runs.get());
	mc::outcome("ok");
}
// registration against the request
static void reg_vs_request(int regs) {
	shared sh[3];
	{
		stop_source src;
		hc::threads th;
		mc::counter done;
		for (int i = 0; i < regs; i++) th.add([t = src.get_token(), s = &sh[i]]() mutable {
			{
				bool req = t.stop_requested();
				bool rv = mc::flip("rvalue");
				std::optional<stop_callback<hit>> c;
				if (rv) c.emplace(std::move(t), hit{s}); else c.emplace(t, hit{s});
				if (req) CHECKM(s->runs.get() == 1, "registered after the request but not run");
			}
			CHECKM(s->running.get() == 0, "the callback runs after its destruction");
			s->destroyed.set(s->runs.get());
		});
		CHECK(src.request_stop());
		th.join();
		for (int i = 0; i < regs; i++) {
			CHECKM(sh[i].runs.get() <= 1, "callback ran %d times", sh[i].runs.get());
			CHECKM(sh[i].destroyed.get() == sh[i].runs.get(), "the callback ran after its destruction");
		}
	}
	mc::outcome("ran %d %d", sh[0].runs.get(), sh[1].runs.get());
}
MC_SCENARIO(mt_register1, 5, 9, 1, 2, 0) { reg_vs_request(1); }
MC_SCENARIO(mt_register2, 3, 4, 0, 1, 0) { reg_vs_request(2); }
// callbacks that exist before the request and stay until after it always run
MC_SCENARIO(mt_stays, 3, 4, 0, 1, 0) {
	shared sh[2];
	stop_source src;
	stop_callback a(src.get_token(), hit{&sh[0]});
	hc::threads th;
	th.add([t = src.get_token(), s = &sh[1]] { stop_callback b(t, hit{s}); while (!t.stop_requested()) std::this_thread::yield(); });
	th.add([t = src.get_token()] { mc::counter ran; int n = 0; { auto f = [&n] { n++; }; stop_callback c(t, f); } CHECK(n <= 1); });
	CHECK(src.request_stop());
	CHECKM(sh[0].runs.get() == 1, "not run before request_stop() returned");
	th.join();
	CHECKM(sh[1].runs.get() <= 1, "ran %d times", sh[1].runs.get());
	mc::outcome("b ran %d", sh[1].runs.get());
}
// destruction against the request: never runs afterwards, waits while it runs
namespace {
struct busy { // a callback that owns something
	shared* s; std::unique_ptr<int> data;
	void operator()() const { s->running.inc(); mc::check(*data == 7, "callable is damaged"); std::this_thread::yield(); mc::check(*data == 7, "callable is damaged"); s->runs.inc(); s->running.dec(); }
};
}
static void destroy_vs_request(int cbs, int destroyed) {
	shared sh[3];
	{
		stop_source src;
		std::optional<stop_callback<busy>> c[3];
		for (int i = 0; i < cbs; i++) c[i].emplace(src.get_token(), busy{&sh[i], std::make_unique<int>(7)});
		hc::threads th;
		th.add([s = std::move(src)] { CHECK(s.request_stop()); });
		for (int i = 0; i < destroyed; i++) {
			int k = (i + mc::choose(cbs, "first")) % cbs;
			if (!c[k]) continue;
			c[k].reset();
			CHECKM(sh[k].running.get() == 0, "the callback is running after its destruction");
			sh[k].destroyed.set(sh[k].runs.get() + 1);
		}
		th.join();
		for (int i = 0; i < cbs; i++) {
			CHECKM(sh[i].runs.get() <= 1, "callback ran %d times", sh[i].runs.get());
			if (sh[i].destroyed.get()) CHECKM(sh[i].destroyed.get() == sh[i].runs.get() + 1, "callback ran after its destruction");
			else CHECKM(sh[i].runs.get() == 1, "callback %d did not run", i);
		}
	}
	mc::outcome("%d%d%d", sh[0].runs.get(), sh[1].runs.get(), sh[2].runs.get());
}
MC_SCENARIO(mt_destroy1, 6, 10, 1, 2, 0) { destroy_vs_request(1, 1); }
MC_SCENARIO(mt_destroy2, 4, 6, 0, 1, 0) { destroy_vs_request(2, 2); }
MC_SCENARIO(mt_destroy3, 3, 4, 0, 1, 0) { destroy_vs_request(3, 2); }
// callbacks destroying themselves or each other while another thread does so, too
MC_SCENARIO(mt_self_destroy, 4, 6, 1, 1, 0) {
	shared sh[2];
	{
		stop_source src;
		struct other { shared* s; std::function<void()> f; void operator()() const { auto fn = f; s->runs.inc(); fn(); } };
		using S = stop_callback<other>;
		std::unique_ptr<S> a, b;
		int what = mc::choose(3, "what");
		int order = mc::choose(2, "order");
		auto mk_a = [&] { a = std::make_unique<S>(src.get_token(), other{&sh[0], [&a, &b, what] {
			if (what == 0) a.reset();
			if (what == 1) b.reset();
			if (what == 2) { b.reset(); a.reset(); }
		}}); };
		auto mk_b = [&] { b = std::make_unique<S>(src.get_token(), other{&sh[1], [] {}}); };
		if (order) { mk_a(); mk_b(); } else { mk_b(); mk_a(); }
		hc::threads th;
		th.add([t = src.get_token(), &sh] { // an unrelated callback comes and goes
			int n = 0;
			{ auto f = [&n] { n++; }; stop_callback c(t, f); }
			CHECK(n <= 1);
		});
		CHECK(src.request_stop());
		th.join();
		CHECK(sh[0].runs.get() == 1 && sh[1].runs.get() <= 1);
		if (what == 0) CHECK(!a && b && sh[1].runs.get() == 1);
		if (what == 1) CHECK(a && !b);
		if (what == 2) CHECK(!a && !b);
	}
	mc::outcome("ok %d", sh[1].runs.get());
}
// the last source goes away while tokens are used; the state is freed exactly once
MC_SCENARIO(mt_last_source, 5, 8, 1, 2, 0) {
	shared sh;
	{
		hc::threads th;
		stop_token tok;
		{
			stop_source src;
			tok = src.get_token();
			int what = mc::choose(3, "other");
			if (what == 0) th.add([t = src.get_token()] { bool p = t.stop_possible(); if (!p) CHECK(!t.stop_possible()); CHECK(!t.stop_requested()); });
			if (what == 1) th.add([t = src.get_token(), &sh]() mutable { stop_callback c(std::move(t), hit{&sh}); });
			if (what == 2) th.add([s = src]() mutable { stop_source x; x = std::move(s); stop_source y(x); x = y; });
			if (mc::flip("drop token")) tok = stop_token();
		}
		th.join();
		CHECKM(!tok.stop_possible(), "stop is possible without a source");
	}
	CHECKM(sh.runs.get() == 0, "callback ran without a request");
	mc::outcome("ok");
}
// everything written before the request is visible to whoever sees it
MC_SCENARIO(mt_visibility, 4, 8, 2, 3, 0) {
	int data = 0;
	stop_source src;
	hc::threads th;
	th.add([t = src.get_token(), &data] { if (t.stop_requested()) CHECK(data == 1); });
	th.add([t = src.get_token(), &data] { int seen = -1; { auto f = [&] { seen = data; }; stop_callback c(t, f); } CHECK(seen == -1 || seen == 1); });
	data = 1;
	src.request_stop();
	th.join();
	mc::outcome("ok");
}
MC_SCENARIO(callback_throws, 0, 0, 0, 0, 0) {
	stop_source src;
	stop_callback c(src.get_token(), [] { throw hc::exn{1}; });
	mcrt_expect_terminate(1);
	if (mc::flip()) src.request_stop();
	else { stop_source s2; s2.request_stop(); stop_callback d(s2.get_token(), [] { throw hc::exn{1}; }); }
	mc::check(false, "the exception was swallowed");
}
// Nothing on the stack of a request is touched once it has returned: the request is made deep down in the call chain,
// the callbacks are destroyed (and the state is used) further up, by the same or by another thread.
[[gnu::noinline]] static bool deep(stop_source& s, int depth) {
	volatile char pad[512];
	pad[0] = static_cast<char>(depth);
	bool r = depth ? deep(s, depth - 1) : s.request_stop();
	return pad[0] == static_cast<char>(depth) && r;
}
MC_SCENARIO(finished_request, 3, 6, 0, 1, 0) {
	shared sh[3];
	{
		stop_source src;
		int n = 1 + mc::choose(3, "callbacks"), other = mc::choose(3, "thread");
		std::vector<std::unique_ptr<stop_callback<hit>>> v;
		for (int i = 0; i < n; i++) v.push_back(std::make_unique<stop_callback<hit>>(src.get_token(), hit{&sh[i]}));
		hc::threads th;
		if (other == 1) { std::thread t([&] { CHECK(deep(src, 4)); }); t.join(); } // destroyed by another thread than the requester
		else CHECK(deep(src, 4));
		if (other == 2) th.add([&] { CHECK(!src.request_stop()); CHECK(src.get_token().stop_requested()); });
		if (mc::flip("backwards")) while (!v.empty()) v.pop_back();
		else while (!v.empty()) v.erase(v.begin());
		CHECK(!src.request_stop());
		th.join();
		for (int i = 0; i < n; i++) CHECK(sh[i].runs.get() == 1);
	}
	mc::outcome("ok");
}
