#include "lin.h"
#include <asyncpp/ref.h>
using namespace asyncpp;

// Object graph: nodes 0 -> 1 -> 2 (links only to higher numbers, so no cycles), two handles.
static const int N = 3;
struct world {
	bool alive[N];
	bool dead[N]; // was alive before
};
static world* W;
template<class C> struct base : intrusive_refcount<base<C>, C> {
	int idx;
	explicit base(int i) : idx(i) { mc::quiet q(W); W->alive[i] = true; }
	virtual ~base() noexcept {
		mc::quiet q(W);
		if (!W->alive[idx]) mcrt_fail("object destroyed twice");
		W->alive[idx] = false;
		W->dead[idx] = true;
	}
	size_t count() const { return this->use_count(); }
};
template<class C> struct node : base<C> {
	ref<node<C>> next;
	int data = 0;
	explicit node(int i) : base<C>(i) {}
	~node() noexcept override {}
};
template<class C> struct other : base<C> { explicit other(int i) : base<C>(i) {} };

// all sequences of handle operations against a model of the handles
template<class C> static void seq(int depth) {
	world w{};
	W = &w;
	typedef node<C> nd;
	nd* ptr[N];
	int model[3 + N];  // handles h[0], h[1], temp; next of node i: value = node index or -1
	for (int& m : model) m = -1;
	{
		ref<nd> h[2];
		for (int i = 0; i < N; i++) ptr[i] = nullptr;
		auto create = [&](int k, int i) { h[k] = make_ref<nd>(i); ptr[i] = h[k].get(); model[k] = i; };
		// node i alive in the model?
		auto verify = [&] {
			int cnt[N] = {};
			bool reach[N] = {};
			for (int k = 0; k < 2; k++) if (model[k] >= 0) { reach[model[k]] = true; cnt[model[k]]++; }
			for (int i = 0; i < N; i++) // links go upwards, so one pass is enough
				if (reach[i] && model[3 + i] >= 0) { reach[model[3 + i]] = true; cnt[model[3 + i]]++; }
			for (int i = 0; i < N; i++) {
				CHECKM(!reach[i] || w.alive[i], "object %d was destroyed although it is referenced", i);
				CHECKM(reach[i] || !w.alive[i], "object %d is still alive although nothing references it", i);
				if (!reach[i]) model[3 + i] = -1;
				if (w.alive[i]) CHECKM(ptr[i]->count() == size_t(cnt[i]), "object %d has %d references but counts %d", i, cnt[i], int(ptr[i]->count()));
			}
			for (int k = 0; k < 2; k++) CHECK(h[k].get() == (model[k] < 0 ? nullptr : ptr[model[k]]));
			for (int k = 0; k < 2; k++) CHECK(bool(h[k]) == (model[k] >= 0) && !h[k] == (model[k] < 0));
			// handles compare and hash like the pointers they hold
			nd *p = h[0].get(), *q = h[1].get();
			CHECK((h[0] == h[1]) == (p == q) && (h[0] != h[1]) == (p != q) && (h[0] <=> h[1]) == (p <=> q));
			CHECK((h[0] == q) == (p == q) && (h[0] != q) == (p != q) && (h[0] <=> q) == (p <=> q));
			CHECK((q == h[0]) == (p == q) && (q != h[0]) == (p != q) && (q <=> h[0]) == (q <=> p));
			CHECK((h[0] < h[1]) == (p < q) && (h[0] <= q) == (p <= q) && (q > h[0]) == (q > p));
			if (p == q) CHECK(std::hash<ref<nd>>{}(h[0]) == std::hash<ref<nd>>{}(h[1]));
		};
		create(0, 0);
		for (int s = 0; s < depth; s++) {
			int k = mc::choose(2, "handle"), m = model[k];
			switch (mc::choose(15, "op")) {
			case 0: // new object
			{
				int i = 0;
				while (i < N && (w.alive[i] || w.dead[i])) i++;
				mc::assume(i < N);
				create(k, i);
				break;
			}
			case 1: h[k].reset(); model[k] = -1; break;
			case 2: h[k] = h[!k]; model[k] = model[!k]; break;
			case 3: h[k] = std::move(h[!k]); model[k] = model[!k]; model[!k] = -1; break;
			case 4: { auto& r = h[k]; h[k] = r; break; }
			case 5: { // self move: may keep the object or drop it
				mc::assume(m >= 0);
				auto& r = h[k];
				h[k] = std::move(r);
				if (h[k].get() == nullptr) model[k] = -1;
				break;
			}
			case 6: mc::assume(m >= 0); h[k].reset(h[k].get()); break;
			case 7: mc::assume(model[!k] >= 0); h[k].reset(h[!k].get()); model[k] = model[!k]; break;
			case 8: { // release and adopt
				nd* p = h[!k].release();
				CHECK(!h[!k]);
				if (mc::flip("adopt via reset")) h[k].reset(p, adopt_ref);
				else { ref<nd> t(p, adopt_ref); h[k] = std::move(t); }
				model[k] = model[!k];
				model[!k] = -1;
				break;
			}
			case 9: mc::assume(m >= 0); h[k] = h[k]->next; model[k] = model[3 + m]; break;
			case 10: mc::assume(m >= 0); h[k] = std::move(h[k]->next); model[k] = model[3 + m]; model[3 + m] = -1; break;
			case 11: mc::assume(m >= 0 && model[!k] > m); h[k]->next = h[!k]; model[3 + m] = model[!k]; break;
			case 12: mc::assume(m >= 0 && model[!k] > m); h[k]->next = std::move(h[!k]); model[3 + m] = model[!k]; model[!k] = -1; break;
			case 13: { // copy / move construct
				ref<nd> t(h[k]);
				CHECK(t == h[k]);
				ref<nd> u(std::move(t));
				CHECK(!t && u == h[k]);
				h[!k] = u;
				model[!k] = m;
				break;
			}
			case 14: { // casts there and back
				ref<base<C>> b;
				bool mv = mc::flip("move");
				if (mv) { b = static_ref_cast<base<C>>(std::move(h[k])); CHECK(!h[k]); } else b = static_ref_cast<base<C>>(h[k]);
				auto wrong = mv ? dynamic_ref_cast<other<C>>(std::move(b)) : dynamic_ref_cast<other<C>>(b);
				CHECK(!wrong);
				CHECK(bool(b) == (m >= 0));
				ref<nd> r = mv ? dynamic_ref_cast<nd>(std::move(b)) : dynamic_ref_cast<nd>(b);
				if (mv) CHECK(!b);
				ref<const nd> c = mv ? const_ref_cast<const nd>(std::move(r)) : const_ref_cast<const nd>(r);
				h[k] = mv ? const_ref_cast<nd>(std::move(c)) : const_ref_cast<nd>(c);
				break;
			}
			}
			verify();
		}
	}
	for (int i = 0; i < N; i++) CHECKM(!w.alive[i], "object %d leaked", i);
}
MC_SCENARIO(seq_safe, 0, 0, 0, 0, 0) { seq<thread_safe_refcount>(mc::thorough() ? 5 : 4); }
MC_SCENARIO(seq_unsafe, 0, 0, 0, 0, 0) { seq<thread_unsafe_refcount>(mc::thorough() ? 5 : 4); }

// the destructor of the object uses the handle it is dropped from
struct selfref : intrusive_refcount<selfref> {
	ref<selfref>* back = nullptr;
	int act = 0;
	static inline int destroyed = 0;
	~selfref() noexcept {
		{ mc::quiet q; destroyed++; if (destroyed > 1) mcrt_fail("object destroyed twice"); }
		if (act == 1) back->reset();
		else if (act == 2) { ref<selfref> t(*back); }
	}
};
MC_SCENARIO(dtor_uses_handle, 0, 0, 0, 0, 0) {
	ref<selfref> h = make_ref<selfref>();
	selfref::destroyed = 0;
	h->back = &h;
	h->act = mc::choose(3, "destructor");
	switch (mc::choose(4, "drop")) {
	case 0: h.reset(); break;
	case 1: h = ref<selfref>(); break;
	case 2: { ref<selfref> e; h = e; break; }
	case 3: h.reset(nullptr); break;
	}
	CHECK(!h);
	CHECK(selfref::destroyed == 1);
}
// several threads copy and drop handles of one object
struct shared : intrusive_refcount<shared> {
	int slot[4] = {};
	int expect;
	mc::counter* dead;
	shared(int e, mc::counter* d) : expect(e), dead(d) {}
	~shared() noexcept {
		int s = 0;
		for (int x : slot) s += x; // checked for races with the last accesses
		CHECKM(s == expect, "object destroyed before all accesses through handles were done (%d of %d)", s, expect);
		CHECKM(dead->inc() == 1, "object destroyed twice");
	}
};
static void threads_drop(int nthreads, bool main_drops_first) {
	mc::counter dead;
	{
		ref<shared> h = make_ref<shared>(nthreads, &dead);
		hc::threads th;
		int mode = mc::choose(3, "mode");
		for (int t = 1; t < nthreads; t++)
			th.add([mode, t, h]() mutable {
				if (mode == 0) { h->slot[t] = 1; h.reset(); }
				else if (mode == 1) { ref<shared> c(h); h.reset(); c->slot[t] = 1; }
				else { ref<shared> c; c = h; c->slot[t] = 1; c = ref<shared>(); h = std::move(c); }
			});
		h->slot[0] = 1;
		if (main_drops_first) h.reset();
		th.join();
		CHECK(dead.get() == main_drops_first);
	}
	CHECK(dead.get() == 1);
}
MC_SCENARIO(drop2, 99, 99, 3, 6, 0) { threads_drop(2, true); }
MC_SCENARIO(drop3, 4, 6, 1, 3, 0) { threads_drop(3, true); }
MC_SCENARIO(drop4, 2, 4, 0, 1, 0) { threads_drop(4, true); }
MC_SCENARIO(drop_late, 4, 99, 1, 2, 0) { threads_drop(3, false); }
