#include "lin.h"
#include <asyncpp/mutex.h>
using namespace asyncpp;

enum { OP_LOCK, OP_UNLOCK, OP_TRY };
static const char* const op_names[] = {"lock", "unlock", "try_lock"};
struct mutex_spec {
	uint32_t done;
	bool locked;
	int8_t n;
	int8_t q[hc::lin_history::MAX];
	long ret[hc::lin_history::MAX];
	mutex_spec() { memset((void*)this, 0, sizeof *this); }
	void fin(int id, long r) { done |= 1u << id; ret[id] = r; }
	void start(int id, int code, long) {
		switch (code) {
		case OP_LOCK:
			if (!locked) { locked = true; fin(id, 0); }
			else q[n++] = id;
			break;
		case OP_TRY: fin(id, !locked); locked = true; break;
		case OP_UNLOCK:
			if (n) {
				fin(q[0], 0);
				for (int i = 1; i < n; i++) q[i - 1] = q[i];
				q[--n] = 0;
			} else locked = false;
			fin(id, 0);
			break;
		}
	}
};
struct run {
	asyncpp::mutex m;
	hc::lin_history h;
	bool lin; // record a history (only meaningful without stale loads)
	int data = 0;
	mc::counter inside, entered;
	explicit run(bool l) : lin(l) {}
	int beg(int c) { return lin ? h.begin(c) : 0; }
	void fin(int id, long r = 0) { if (lin) h.end(id, r); }
	void crit() {
		CHECKM(inside.inc() == 1, "two parties hold the mutex");
		CHECK(m.is_locked());
		data++; // checked for races
		entered.inc();
		{ mc::quiet q(&inside); inside.v--; }
	}
	void unlock() { int id = beg(OP_UNLOCK); m.unlock(); fin(id); }
	hc::co user(int mode, int n) {
		for (int i = 0; i < n; i++) switch (mode) {
			case 0: {
				int id = beg(OP_LOCK);
				co_await m.lock();
				fin(id);
				crit();
				unlock();
				break;
			}
			case 1: {
				int id = beg(OP_LOCK);
				auto lk = co_await m.lock_scoped();
				fin(id);
				CHECK(lk.is_locked());
				crit();
				int u = beg(OP_UNLOCK);
				if (i == 0) lk = mutex_lock(m); // assigning over unlocks
				else lk.unlock();
				fin(u);
				CHECK(!lk.is_locked());
				break;
			}
			case 2: {
				mutex_lock lk(m);
				CHECK(!lk.is_locked());
				int id = beg(OP_LOCK);
				co_await lk.lock();
				fin(id);
				CHECK(lk.is_locked());
				crit();
				mutex_lock lk2(std::move(lk));
				CHECK(lk2.is_locked() && !lk.is_locked());
				int u = beg(OP_UNLOCK);
				{ mutex_lock lk3(std::move(lk2)); }
				fin(u);
				break;
			}
			case 3: {
				int id = beg(OP_TRY);
				bool r = m.try_lock();
				fin(id, r);
				if (r) { crit(); unlock(); }
				break;
			}
			case 4: {
				mutex_lock lk(m);
				int id = beg(OP_TRY);
				bool r = lk.try_lock();
				fin(id, r);
				CHECK(lk.is_locked() == r);
				if (r) crit();
				int u = r ? beg(OP_UNLOCK) : 0;
				lk = mutex_lock(m);
				if (r) fin(u);
				break;
			}
		}
	}
	void check() {
		if (lin) h.check<mutex_spec>(mutex_spec{}, op_names, "mutex");
		CHECK(!m.is_locked());
		CHECK(data == entered.get());
	}
};
static void conc(int nthreads, int nlock, int nmodes, bool lin) {
	run r(lin);
	int mode[4], locks = 0;
	for (int t = 0; t < nthreads; t++) {
		mode[t] = mc::choose(nmodes, "mode");
		if (t > 1 && mode[t] < mode[t - 1]) mc::assume(false); // main is thread 0, others are symmetric
		if (mode[t] < 3) locks += nlock;
	}
	{
		hc::threads th;
		for (int t = 1; t < nthreads; t++) th.add([&r, &mode, t, nlock] { r.user(mode[t], nlock); });
		r.user(mode[0], nlock);
		th.join();
	}
	CHECKM(r.entered.get() >= locks, "%d lock() calls but only %d acquired the mutex", locks, r.entered.get());
	r.check();
	mc::outcome("entered=%d", r.entered.get());
}
MC_SCENARIO(two, 5, 8, 0, 0, mc::CASFAIL) { conc(2, 2, 5, true); }
MC_SCENARIO(three, 3, 4, 0, 0, mc::CASFAIL) { conc(3, 1, 5, true); }
MC_SCENARIO(three_locks, 3, 4, 0, 0, 0) { conc(3, 2, 1, true); }
MC_SCENARIO(four, 2, 3, 0, 0, 0) { conc(4, 1, 1, true); }
MC_SCENARIO(two_weak, 4, 6, 2, 4, mc::CASFAIL) { conc(2, 2, 5, false); }
MC_SCENARIO(three_weak, 3, 4, 1, 2, 0) { conc(3, 1, 4, false); }

// A holder that hands over while others queue: order of the waiters is the order in which they queued.
MC_SCENARIO(fifo, 0, 0, 0, 0, 0) {
	run r(true);
	mc::log order;
	int n = 2 + mc::choose(mc::thorough() ? 5 : 3, "waiters");
	CHECK(r.m.try_lock());
	// hold: the coroutine keeps the mutex until released from outside
	auto user = [&](int i, bool keep) -> hc::co {
		co_await r.m.lock();
		order.add(i);
		if (!keep) r.m.unlock();
	};
	bool keep[8];
	int queued = 0, held = 1;
	for (int i = 0; i < n; i++) {
		keep[i] = mc::flip("keeps the mutex");
		user(i, keep[i]);
		queued++;
		CHECK(!r.m.try_lock());
		CHECK(order.size() == queued - (held ? queued - order.size() : 0));
		if (mc::flip("unlock now")) {
			bool was = order.size() < queued;
			if (r.m.is_locked()) r.m.unlock();
			CHECK(!was || order.size() > 0);
		}
		if (!r.m.is_locked()) {
			CHECKM(order.size() == queued, "mutex free while coroutines wait");
			CHECK(r.m.try_lock());
		}
	}
	while (r.m.is_locked()) r.m.unlock();
	CHECKM(order.size() == n, "%d of %d waiters got the mutex", order.size(), n);
	for (int i = 0; i < n; i++) CHECKM(order.at(i) == i, "waiters acquired in order %s", order.str());
}
// lock objects: all sequences of operations on two lock objects and two mutexes, against a model
MC_SCENARIO(lock_objects, 0, 0, 0, 0, 0) {
	asyncpp::mutex m[2];
	bool locked[2] = {};
	struct obj { bool init; int mtx; bool own; } o[2] = {{true, 0, false}, {true, 1, false}};
	std::optional<mutex_lock> l[2];
	l[0].emplace(m[0]);
	l[1].emplace(m[1]);
	auto rel = [&](int i) { if (o[i].init && o[i].own) locked[o[i].mtx] = false; o[i].own = false; };
	int depth = mc::thorough() ? 6 : 5;
	for (int s = 0; s < depth; s++) {
		int i = mc::choose(2, "object");
		switch (mc::choose(7, "op")) {
		case 0: // unlock
			mc::assume(o[i].init && o[i].mtx >= 0 && o[i].own);
			l[i]->unlock();
			rel(i);
			break;
		case 1: { // try_lock
			mc::assume(o[i].init && o[i].mtx >= 0 && !o[i].own);
			bool r = l[i]->try_lock();
			CHECK(r == !locked[o[i].mtx]);
			if (r) { o[i].own = true; locked[o[i].mtx] = true; }
			break;
		}
		case 2: // move construct into the other
			mc::assume(o[i].init && !o[!i].init);
			l[!i].emplace(std::move(*l[i]));
			o[!i] = o[i];
			o[i].own = false;
			o[i].mtx = -1;
			break;
		case 3: // move assign
			mc::assume(o[i].init && o[!i].init);
			*l[!i] = std::move(*l[i]);
			rel(!i);
			o[!i] = o[i];
			o[i].own = false;
			o[i].mtx = -1;
			break;
		case 4: // destroy
			mc::assume(o[i].init);
			l[i].reset();
			rel(i);
			o[i].init = false;
			break;
		case 5: { // new, adopting
			mc::assume(!o[i].init);
			int k = mc::choose(2);
			mc::assume(!locked[k]);
			CHECK(m[k].try_lock());
			l[i].emplace(m[k], std::adopt_lock);
			locked[k] = true;
			o[i] = {true, k, true};
			break;
		}
		case 6: { // coroutine locks it (free)
			// a lock object that already holds the mutex does not acquire it again
			mc::assume(o[i].init && o[i].mtx >= 0 && (o[i].own || !locked[o[i].mtx]));
			bool done = false;
			[](mutex_lock& l, bool& done) -> hc::co { co_await l.lock(); done = true; }(*l[i], done);
			CHECK(done);
			o[i].own = locked[o[i].mtx] = true;
			break;
		}
		}
		for (int k = 0; k < 2; k++) {
			CHECKM(m[k].is_locked() == locked[k], "mutex %d: locked is %d, expected %d", k, m[k].is_locked(), locked[k]);
			if (o[k].init) CHECK(l[k]->is_locked() == o[k].own);
			if (o[k].init && o[k].mtx >= 0) CHECK(&l[k]->mutex() == &m[o[k].mtx]);
		}
	}
	l[0].reset();
	l[1].reset();
	rel(0);
	rel(1);
	for (int k = 0; k < 2; k++) CHECK(!m[k].is_locked());
}
MC_SCENARIO(construct_locked, 0, 0, 0, 0, 0) {
	asyncpp::mutex m(asyncpp::mutex::construct_locked);
	CHECK(m.is_locked());
	CHECK(!m.try_lock());
	mc::counter n;
	auto user = [&]() -> hc::co { auto l = co_await m.lock_scoped(); n.inc(); };
	user();
	user();
	CHECK(n.get() == 0);
	m.unlock();
	CHECK(n.get() == 2);
	CHECK(!m.is_locked());
}
// the last holder destroys the mutex, the unlock() that resumed it may still be running
template<int W> static void owned() {
	struct state { asyncpp::mutex m{asyncpp::mutex::construct_locked}; int left = W; };
	auto* st = new state;
	mc::counter done;
	int how = mc::choose(3, "lock/lock_scoped/lock object");
	auto user = [&](state* st) -> hc::co {
		// whoever comes last deletes it
		if (how == 0) {
			co_await st->m.lock();
			bool last = --st->left == 0;
			if (!last) st->m.unlock();
			else { st->m.unlock(); delete st; }
		} else if (how == 1) {
			bool last;
			{
				auto l = co_await st->m.lock_scoped();
				last = --st->left == 0;
			}
			if (last) delete st;
		} else {
			bool last;
			{
				mutex_lock l{st->m};
				co_await l.lock();
				last = --st->left == 0;
				l.unlock();
				CHECK(!l.is_locked());
			}
			if (last) delete st;
		}
		done.inc();
	};
	hc::threads th;
	for (int i = 1; i < W; i++) th.add([&] { user(st); });
	if (W == 1) th.add([&] { user(st); });
	else user(st);
	st->m.unlock();
	th.join();
	CHECK(done.get() == W);
}
MC_SCENARIO(owned1, 5, 99, 1, 2, 0) { owned<1>(); }
MC_SCENARIO(owned2, 4, 6, 1, 2, 0) { owned<2>(); }
// The coroutine resumed by unlocking a lock object uses, replaces or destroys that object
MC_SCENARIO(lock_object_reentrant, 0, 0, 0, 0, 0) {
	asyncpp::mutex m, m2;
	std::optional<mutex_lock> l;
	int hold = mc::choose(3, "adopted/try_lock/lock"), how = mc::choose(2, "unlock/move assign"), use = mc::choose(6, "use");
	if (hold == 0) {
		CHECK(m.try_lock());
		l.emplace(m, std::adopt_lock);
	} else {
		l.emplace(m);
		if (hold == 1) CHECK(l->try_lock());
		else [](mutex_lock& l) -> hc::co { co_await l.lock(); }(*l);
	}
	CHECK(l->is_locked());
	bool resumed = false, kept = false;
	auto waiter = [&]() -> hc::co {
		co_await m.lock();
		resumed = true;
		CHECK(m.is_locked());
		CHECKM(!l->is_locked(), "the lock object still claims to hold the mutex");
		switch (use) {
		case 0: break;
		case 1: l.reset(); break;
		case 2: *l = mutex_lock{m}; break;
		case 3: {
			mutex_lock other = std::move(*l);
			CHECK(!other.is_locked());
			break;
		}
		case 4:
			if (how == 0) CHECK(!l->try_lock()); // we hold it
			break;
		case 5: // hand our own hold over to the object
			if (how == 0) {
				*l = mutex_lock{m, std::adopt_lock};
				kept = true;
			}
			break;
		}
		CHECK(m.is_locked());
		if (!kept) m.unlock();
	};
	waiter();
	CHECK(!resumed);
	if (how == 0) l->unlock();
	else *l = mutex_lock{m2};
	CHECK(resumed);
	CHECKM(m.is_locked() == kept, "mutex locked is %d, expected %d", m.is_locked(), kept);
	if (l) CHECK(l->is_locked() == kept);
	l.reset();
	CHECK(!m.is_locked() && !m2.is_locked());
}
