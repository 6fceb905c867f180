#include "lin.h"
#include <asyncpp/ref.h>
using namespace asyncpp;

enum { LOAD, STORE, EXCH, RESET, RELEASE, BOOL, ARROW, ASSIGN, MASSIGN, ASTORE, AEXCH, AASSIGN, AMASSIGN, COPY, SCOPY, XCOPY, TAKE, NOPS };
static const char* const op_names[] = {"load", "store", "exchange", "reset", "release", "bool", "operator->", "operator=(ref)", "operator=(ref&&)",
	"store(atomic)", "exchange(atomic)", "operator=(atomic)", "operator=(atomic&&)", "copy assigned from", "stored to another", "exchanged into another", "move assigned from", "==", "!=", "hash", "<=>"};
// arg: id of the object (0 = null)
struct cell_spec {
	uint32_t done;
	int v;
	long ret[hc::lin_history::MAX];
	explicit cell_spec(int x) { memset((void*)this, 0, sizeof *this); v = x; }
	void start(int id, int code, long arg) {
		done |= 1u << id;
		switch (code) {
		case LOAD:
		case COPY:
		case SCOPY:
		case XCOPY:
		case ARROW: ret[id] = v; break;
		case BOOL: ret[id] = v != 0; break;
		case EXCH:
		case AEXCH: ret[id] = v; v = arg; break;
		case RESET: v = 0; break;
		case TAKE:
		case RELEASE: ret[id] = v; v = 0; break;
		default: v = arg; break;
		}
	}
};
struct obj : intrusive_refcount<obj> {
	int id; // plain: checked for races between publication and use
	mc::tracked t;
	obj(int i, mc::counter* c) : id(i), t(c) {}
	~obj() noexcept { id = -5; }
	static int of(const ref<obj>& r) {
		if (!r) return 0;
		CHECKM(r->id > 0, "loaded a destroyed object");
		return r->id;
	}
};
struct run {
	mc::counter live;
	atomic_ref<obj> a;
	hc::lin_history h;
	bool lin;
	explicit run(bool l) : lin(l) {}
	ref<obj> mk(int id) { return id ? make_ref<obj>(id, &live) : ref<obj>(); }
	void op(int c, int id) {
		int o = lin ? h.begin(c, id) : 0;
		long r = 0;
		switch (c) {
		case LOAD: r = obj::of(a.load()); break;
		case STORE: a.store(mk(id)); break;
		case EXCH: r = obj::of(a.exchange(mk(id))); break;
		case RESET: a.reset(); break;
		case RELEASE: { ref<obj> x(a.release(), adopt_ref); r = obj::of(x); break; }
		case BOOL: r = bool(a); if (mc::flip("use !")) r = !!a; break;
		case ARROW: { auto x = a.operator->(); r = obj::of(x); break; }
		case ASSIGN: { auto x = mk(id); a = x; CHECK(obj::of(x) == id); break; }
		case MASSIGN: { auto x = mk(id); a = std::move(x); CHECK(!x); break; }
		case ASTORE: { atomic_ref<obj> b(mk(id)); a.store(b); CHECK(obj::of(b.load()) == id); break; }
		case AEXCH: { atomic_ref<obj> b(mk(id)); r = obj::of(a.exchange(b)); CHECK(obj::of(b.load()) == id); break; }
		case AASSIGN: { atomic_ref<obj> b(mk(id)); a = b; CHECK(obj::of(b.load()) == id); break; }
		case AMASSIGN: { atomic_ref<obj> b(mk(id)); a = std::move(b); CHECK(!b); break; }
		case COPY: { atomic_ref<obj> b(mk(id)); b = a; r = obj::of(b.load()); break; }
		case SCOPY: { atomic_ref<obj> b(mk(id)); b.store(a); r = obj::of(b.load()); break; }
		case XCOPY: { atomic_ref<obj> b(mk(id)); CHECK(obj::of(b.exchange(a)) == id); r = obj::of(b.load()); break; }
		case TAKE: { atomic_ref<obj> b(mk(id)); b = std::move(a); r = obj::of(b.load()); break; }
		}
		if (lin) h.end(o, r);
	}
	void check(int init) { if (lin) h.check<cell_spec>(cell_spec(init), op_names, "atomic_ref"); }
};
MC_SCENARIO(seq, 0, 0, 0, 0, 0) {
	mc::counter* live;
	{
		run r(true);
		live = &r.live;
		int depth = mc::thorough() ? 5 : 4, init = mc::choose(2);
		if (init) r.a.store(r.mk(90));
		int stored = init ? 90 : 0;
		for (int i = 0; i < depth; i++) {
			int c = mc::choose(NOPS, "op");
			r.op(c, i + 1);
			switch (c) { case LOAD: case ARROW: case BOOL: case COPY: case SCOPY: case XCOPY: break; case RESET: case RELEASE: case TAKE: stored = 0; break; default: stored = i + 1; }
			CHECKM(live->get() == (stored != 0), "%d objects alive", live->get());
		}
		r.check(init ? 90 : 0);
		auto& x = r.a;
		x = x; // self assignment
		CHECK(obj::of(r.a.load()) == stored);
		r.a.reset();
		CHECK(live->get() == 0);
		CHECK(!r.a);
	}
}
static void conc(int nthreads, int len, const int* code, int ncode, bool lin) {
	run r(lin);
	{
		int init = mc::choose(2, "initially null");
		if (!init) r.a.store(r.mk(90));
		int ops[4][4] = {};
		for (int t = 0; t < nthreads; t++) {
			for (int i = 0; i < len; i++) ops[t][i] = code[mc::choose(ncode, "op")];
			if (t > 1 && memcmp(ops[t - 1], ops[t], sizeof ops[t]) > 0) mc::assume(false);
		}
		hc::threads th;
		for (int t = 1; t < nthreads; t++) th.add([&, t] { for (int i = 0; i < len; i++) r.op(ops[t][i], 10 * (t + 1) + i); });
		for (int i = 0; i < len; i++) r.op(ops[0][i], 10 + i);
		th.join();
		r.check(init ? 0 : 90);
		if (lin) { r.op(LOAD, 0); r.check(init ? 0 : 90); }
		CHECKM(r.live.get() == (bool(r.a) ? 1 : 0), "%d objects alive", r.live.get());
		r.a.reset();
		CHECKM(r.live.get() == 0, "%d objects leaked", r.live.get());
	}
}
static const int all_ops[] = {LOAD, STORE, EXCH, RESET, RELEASE, BOOL, AASSIGN, AMASSIGN, COPY, TAKE, SCOPY, XCOPY};
static const int main_ops[] = {LOAD, STORE, EXCH, RESET};
static const int from_ops[] = {TAKE, STORE, COPY};
MC_SCENARIO(source, 3, 5, 0, 0, 0) { conc(2, 2, from_ops, 3, true); }
MC_SCENARIO(two, 4, 6, 0, 0, 0) { conc(2, 2, main_ops, 4, true); }
MC_SCENARIO(two_all, 4, 6, 0, 0, 0) { conc(2, 1, all_ops, 12, true); }
MC_SCENARIO(three, 3, 4, 0, 0, 0) { conc(3, 1, all_ops, 6, true); }
MC_SCENARIO(three_long, 2, 3, 0, 0, 0) { conc(3, 2, main_ops, 3, true); }
MC_SCENARIO(two_weak, 4, 5, 2, 3, 0) { conc(2, 2, main_ops, 3, false); }
MC_SCENARIO(three_weak, 3, 4, 1, 2, 0) { conc(3, 1, main_ops, 4, false); }

// comparisons and hashes are those of the object stored at that moment, whatever other operations are under way
enum { EQ = NOPS, NE, HASH, ORDER };
struct cmp_spec : cell_spec {
	using cell_spec::cell_spec;
	void start(int id, int code, long arg) {
		if (code < EQ) return cell_spec::start(id, code, arg);
		done |= 1u << id;
		ret[id] = v == arg;
	}
};
MC_SCENARIO(compare, 4, 6, 0, 0, 0) {
	mc::counter live;
	{
		hc::lin_history h;
		atomic_ref<obj> a, b;
		ref<obj> o[3] = {ref<obj>(), make_ref<obj>(1, &live), make_ref<obj>(2, &live)};
		b.store(o[1]);
		int init = mc::choose(3, "initial"), op = mc::choose(4, "operation"), n = 1 + mc::choose(2, "object"), c = mc::choose(4, "comparison"), m = mc::choose(3, "with");
		a.store(o[init]);
		hc::threads th;
		th.add([&] {
			static const int code[] = {LOAD, STORE, EXCH, RESET};
			int id = h.begin(code[op], n);
			long r = 0;
			switch (op) {
			case 0: r = obj::of(a.load()); break;
			case 1: a.store(o[n]); break;
			case 2: r = obj::of(a.exchange(o[n])); break;
			case 3: a.reset(); break;
			}
			h.end(id, r);
		});
		obj* p = o[m].get();
		int id = h.begin(EQ + c, m);
		long r = 0;
		switch (c) {
		case 0: r = mc::flip("swapped") ? p == a : a == p; break;
		case 1: r = !(mc::flip("swapped") ? p != a : a != p); break;
		case 2: { atomic_ref<obj> x; x.store(o[m]); r = std::hash<atomic_ref<obj>>{}(a) == std::hash<atomic_ref<obj>>{}(x); break; }
		case 3: r = m == 1 && mc::flip("atomic") ? (a <=> b) == 0 : mc::flip("swapped") ? (p <=> a) == 0 : (a <=> p) == 0; break;
		}
		h.end(id, r);
		th.join();
		h.check<cmp_spec>(cmp_spec(init), op_names, "atomic_ref");
		obj* q = a.load().get();
		for (int i = 0; i < 3; i++) {
			obj* x = o[i].get();
			auto less = [](const obj* l, const obj* r) { return reinterpret_cast<uintptr_t>(l) < reinterpret_cast<uintptr_t>(r); };
			CHECK((a == x) == (q == x) && (a < x) == less(q, x) && (x < a) == less(x, q) && (a > x) == less(x, q));
		}
		CHECK((a == b) == (q == o[1].get()) && (a < b) == (reinterpret_cast<uintptr_t>(q) < reinterpret_cast<uintptr_t>(o[1].get())));
	}
	CHECK(live.get() == 0);
}

// a pointer that collides with the lock bit is refused without losing its reference
struct fake { };
static int fake_refs;
inline void refcounted_add_ref(const fake*) noexcept { fake_refs++; }
inline void refcounted_remove_ref(const fake*) noexcept { fake_refs--; }
MC_SCENARIO(invalid_pointer, 0, 0, 0, 0, 0) {
	fake_refs = 0;
	auto bad = reinterpret_cast<fake*>(uintptr_t(1) << 63 | 64);
	auto good = reinterpret_cast<fake*>(uintptr_t(64));
	{
		atomic_ref<fake> a{ref<fake>(good)};
		CHECK(fake_refs == 1);
		bool thrown = false;
		try {
			switch (mc::choose(4)) {
			case 0: a.store(ref<fake>(bad)); break;
			case 1: (void)a.exchange(ref<fake>(bad)); break;
			case 2: { ref<fake> r(bad); a = r; break; }
			case 3: { atomic_ref<fake> b{ref<fake>(bad)}; break; }
			}
		} catch (std::logic_error&) { thrown = true; }
		CHECK(thrown);
		CHECKM(fake_refs == 1, "%d references left", fake_refs);
		CHECK(a.load().get() == good);
	}
	CHECKM(fake_refs == 0, "%d references left", fake_refs);
}
