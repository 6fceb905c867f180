// FLAGS: -O0 -fno-sanitize=thread
// C25: pointer tags. Exhaustive over alignments, tags, and pointer values with every single address bit
#include "common.h"
#include <asyncpp/ptr_tag.h>
using namespace asyncpp;

template<size_t A> struct alignas(A) obj { char c[A]; };
enum class sc : size_t {};
enum class sc8 : unsigned char {};
enum class sci : int {};

template<class T> static void check_ptr(T* p, void* tagged, size_t tag) {
	auto [a, b] = ptr_untag<T>(tagged);
	static_assert(std::is_same_v<decltype(ptr_untag<T>(tagged)), std::pair<T*, size_t>>);
	CHECKM(a == p, "untag returned %p instead of %p (tag %zu)", (void*)a, (void*)p, tag);
	CHECKM(b == tag, "untag returned tag %zu instead of %zu", b, tag);
	const void* ct = tagged;
	auto [c, d] = ptr_untag<T>(ct);
	static_assert(std::is_same_v<decltype(ptr_untag<T>(ct)), std::pair<const T*, size_t>>);
	CHECKM(c == p && d == tag, "untag of a const pointer is wrong");
	auto [e, f] = ptr_untag<const T>(tagged);
	CHECKM(e == p && f == tag, "untag to a const pointer is wrong");
	CHECKM(ptr_get_tag<T>(tagged) == tag && ptr_get_tag<const T>(ct) == tag, "get_tag returned %zu instead of %zu", ptr_get_tag<T>(tagged), tag);
	auto [g, h] = ptr_untag<T, sc>(tagged);
	CHECKM(g == p && h == static_cast<sc>(tag), "enum untag is wrong");
	auto [i, j] = ptr_untag<T, sc>(ct);
	CHECKM(i == p && j == static_cast<sc>(tag), "enum untag of a const pointer is wrong");
}
template<size_t A, size_t ID> static void check_tag(obj<A>* p) {
	using T = obj<A>;
	void* t = ptr_tag<ID>(p);
	CHECKM(reinterpret_cast<uintptr_t>(t) == (reinterpret_cast<uintptr_t>(p) | ID), "tagging changed the address");
	check_ptr<T>(p, t, ID);
	const T* cp = p;
	const void* ct = ptr_tag<ID>(cp);
	static_assert(std::is_same_v<decltype(ptr_tag<ID>(cp)), const void*> && std::is_same_v<decltype(ptr_tag<ID>(p)), void*>);
	CHECKM(ct == t, "tagging a pointer to const gives something else");
	CHECKM((ptr_tag<static_cast<sc>(ID)>(p) == t && ptr_tag<static_cast<sc>(ID)>(cp) == ct), "tagging with an enumerator gives something else");
	if constexpr (ID < 256) {
		CHECKM((ptr_tag<static_cast<sc8>(ID)>(p) == t), "tagging with an enumerator gives something else");
		CHECKM((ptr_untag<T, sc8>(t).second == static_cast<sc8>(ID)), "enum untag is wrong");
		CHECKM((ptr_tag<static_cast<sci>(ID)>(cp) == ct), "tagging with an enumerator gives something else");
	}
	// tags that do not fit are refused, they would change the address
	CHECKM((!requires { ptr_tag<A>(p); } && !requires { ptr_tag<A>(cp); } && !requires { ptr_tag<2 * A + 1>(p); }), "a tag that does not fit is accepted");
	// several types: every tag that fits the smallest alignment
	if constexpr (A >= 2) {
		auto several = [&]<size_t... M>(std::index_sequence<M...>) {
			auto one = [&]<size_t B>(std::integral_constant<size_t, B>) {
				if constexpr (B >= 1 && ID < B) {
					CHECKM((ptr_get_tag<obj<A>, obj<B>>(t) == ID), "get_tag of several types is wrong");
					CHECKM((ptr_get_tag<obj<B>, obj<A>>(ct) == ID), "get_tag of several types is wrong");
					CHECKM((ptr_get_tag<obj<A>, obj<B>, obj<1024>>(t) == ID), "get_tag of several types is wrong");
					CHECKM((ptr_get_tag<obj<1024>, obj<A>, obj<B>, obj<A>>(t) == ID), "get_tag of several types is wrong");
					if constexpr (B <= A) CHECKM((ptr_get_tag<obj<A>, obj<1024>, obj<A>, obj<B>>(t) == ID && ptr_get_tag<obj<1024>, obj<1024>, obj<B>>(ct) == ID && ptr_get_tag<obj<B>, obj<1024>, obj<1024>>(ct) == ID), "get_tag of several types is wrong");
				}
			};
			(one(std::integral_constant<size_t, (size_t(1) << M)>{}), ...);
		};
		several(std::make_index_sequence<8>{});
	}
}
template<size_t A, size_t Base, size_t... ID> static void chunk(obj<A>* p, std::index_sequence<ID...>) { (check_tag<A, Base + ID>(p), ...); }
template<size_t A> static void alignment() {
	// addresses: null, real objects, every single bit, all bits
	int k = mc::choose(4 + 64);
	static obj<A> arr[2];
	auto heap = std::make_unique<obj<A>>();
	uintptr_t u = 0;
	if (k == 1) u = reinterpret_cast<uintptr_t>(&arr[1]);
	if (k == 2) u = reinterpret_cast<uintptr_t>(heap.get());
	if (k == 3) u = ~static_cast<uintptr_t>(A - 1);
	if (k >= 4) { u = uintptr_t(1) << (k - 4); if (u < A) mc::assume(false); }
	auto p = reinterpret_cast<obj<A>*>(u);
	chunk<A, 0>(p, std::make_index_sequence<(A < 64 ? A : 64)>{});
	if constexpr (A > 64) { // the last tags of large alignments
		chunk<A, A - 8>(p, std::make_index_sequence<8>{});
		chunk<A, A / 2 - 4>(p, std::make_index_sequence<8>{});
	}
	mc::outcome("ok");
}
MC_SCENARIO(align1, 0, 0, 0, 0, 0) { alignment<1>(); }
MC_SCENARIO(align2, 0, 0, 0, 0, 0) { alignment<2>(); }
MC_SCENARIO(align4, 0, 0, 0, 0, 0) { alignment<4>(); }
MC_SCENARIO(align8, 0, 0, 0, 0, 0) { alignment<8>(); }
MC_SCENARIO(align16, 0, 0, 0, 0, 0) { alignment<16>(); }
MC_SCENARIO(align32, 0, 0, 0, 0, 0) { alignment<32>(); }
MC_SCENARIO(align64, 0, 0, 0, 0, 0) { alignment<64>(); }
MC_SCENARIO(align128, 0, 0, 0, 0, 0) { alignment<128>(); }
MC_SCENARIO(align1024, 0, 0, 0, 0, 0) { alignment<1024>(); }
