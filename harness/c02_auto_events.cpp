#include "events_common.h"
typedef single_consumer_auto_reset_event S;
typedef multi_consumer_auto_reset_event M;

MC_SCENARIO(single_seq, 0, 0, 0, 0, 0) { ev_seq<S, true>(mc::thorough() ? 7 : 6, 1); }
MC_SCENARIO(multi_seq, 0, 0, 0, 0, 0) { ev_seq<M, true>(mc::thorough() ? 7 : 6, 3); }
MC_SCENARIO(single_seq_dispatcher, 0, 0, 0, 0, 0) { ev_seq_dispatcher<S, true>(mc::thorough() ? 7 : 6, 1); }
MC_SCENARIO(multi_seq_dispatcher, 0, 0, 0, 0, 0) { ev_seq_dispatcher<M, true>(mc::thorough() ? 7 : 6, 3); }
MC_SCENARIO(single_t2_inline, 3, 4, 0, 0, 0) { ev_threads<S, true>(2, 2, true, 1, 2, true, hc::any_dispatcher::INLINE); }
MC_SCENARIO(multi_t2_inline, 2, 3, 0, 0, 0) { ev_threads<M, true>(2, 1, true, 2, 2, false, hc::any_dispatcher::INLINE); }
MC_SCENARIO(single_t1_dispatcher, 2, 3, 0, 0, 0) { ev_threads<S, true>(1, 2, true, 1, 2, true, hc::any_dispatcher::THREAD); }
MC_SCENARIO(multi_t1_dispatcher, 2, 3, 0, 0, 0) { ev_threads<M, true>(1, 2, true, 2, 1, false, hc::any_dispatcher::THREAD); }
MC_SCENARIO(single_reentrant, 0, 0, 0, 0, 0) { ev_reentrant<S, true>(true); }
MC_SCENARIO(multi_reentrant, 0, 0, 0, 0, 0) { ev_reentrant<M, true>(false); }
MC_SCENARIO(single_t1, 5, 99, 0, 0, mc::CASFAIL) { ev_threads<S, true>(1, 3, true, 1, 2, true); }
MC_SCENARIO(single_t2, 4, 6, 0, 0, 0) { ev_threads<S, true>(2, 2, true, 1, 2, true); }
MC_SCENARIO(single_t3, 3, 5, 0, 0, 0) { ev_threads<S, true>(3, 1, true, 1, 3, true); }
MC_SCENARIO(multi_t1, 4, 6, 0, 0, mc::CASFAIL) { ev_threads<M, true>(1, 2, true, 2, 1, false); }
MC_SCENARIO(multi_t1_two_awaits, 3, 5, 0, 0, 0) { ev_threads<M, true>(1, 3, true, 2, 2, false); }
MC_SCENARIO(multi_t2, 3, 4, 0, 0, 0) { ev_threads<M, true>(2, 2, true, 2, 1, false); }
MC_SCENARIO(multi_t2_casfail, 2, 4, 0, 0, mc::CASFAIL) { ev_threads<M, true>(2, 1, false, 2, 1, false); }
MC_SCENARIO(multi_c3, 3, 4, 0, 0, mc::CASFAIL) { ev_threads<M, true>(1, 2, true, 3, 1, false); }
MC_SCENARIO(single_publish, 5, 99, 3, 6, mc::CASFAIL) { ev_publish<S, true>(1, 1 + mc::choose(2)); }
MC_SCENARIO(multi_publish, 3, 5, 2, 3, mc::CASFAIL) { ev_publish<M, true>(2, 1 + mc::choose(2)); }
MC_SCENARIO(single_handover, 5, 8, 3, 6, mc::CASFAIL) { ev_handover<S>(); }
MC_SCENARIO(multi_handover, 5, 8, 3, 6, mc::CASFAIL) { ev_handover<M>(); }
MC_SCENARIO(single_dispatch, 3, 5, 1, 2, 0) { ev_dispatch<S>(); }
MC_SCENARIO(multi_dispatch, 3, 5, 1, 2, 0) { ev_dispatch<M>(); }

// Two producers announce work and signal; the consumer processes announced work each time it wakes up.
// If a signal (and what was written before it) is lost between the producers, the consumer sleeps forever
// although work was announced.
template<class E> static void merge() {
	E ev(false);
	std::atomic<int> work[2] = {};
	bool done = false;
	auto consumer = [&]() -> hc::co {
		int got[2] = {};
		while (!got[0] || !got[1]) {
			co_await ev;
			for (int i = 0; i < 2; i++) got[i] |= work[i].load(std::memory_order_relaxed);
		}
		done = true;
	};
	std::thread a([&] { work[0].store(1, std::memory_order_relaxed); ev.set(); });
	if (mc::flip("consumer thread")) {
		std::thread b([&] { work[1].store(1, std::memory_order_relaxed); ev.set(); });
		consumer();
		a.join();
		b.join();
	} else {
		// consumer runs before, then main is the second producer
		consumer();
		work[1].store(1, std::memory_order_relaxed);
		ev.set();
		a.join();
	}
	CHECKM(done, "consumer sleeps although both producers signalled (lost signal)");
}
MC_SCENARIO(single_merge, 5, 99, 2, 4, 0) { merge<S>(); }
MC_SCENARIO(multi_merge, 5, 99, 2, 4, mc::CASFAIL) { merge<M>(); }
MC_SCENARIO(single_owned, 3, 5, 1, 2, 0) { ev_owned<S>(); }
MC_SCENARIO(multi_owned, 3, 5, 1, 2, 0) { ev_owned<M>(); }
// one awaiter against a long sequence of operations, without a bound
MC_SCENARIO(single_long, 99, 99, 0, 0, 0) { ev_threads<S, true>(1, 5, true, 1, 1, true); }
MC_SCENARIO(multi_long, 99, 99, 0, 0, 0) { ev_threads<M, true>(1, mc::thorough() ? 5 : 4, true, 1, 1, false); }
