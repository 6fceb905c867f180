#include "events_common.h"
typedef single_consumer_event S;
typedef multi_consumer_event M;

MC_SCENARIO(single_seq, 0, 0, 0, 0, 0) { ev_seq<S, false>(mc::thorough() ? 7 : 6, 1); }
MC_SCENARIO(multi_seq, 0, 0, 0, 0, 0) { ev_seq<M, false>(mc::thorough() ? 7 : 6, 3); }
MC_SCENARIO(single_seq_dispatcher, 0, 0, 0, 0, 0) { ev_seq_dispatcher<S, false>(mc::thorough() ? 7 : 6, 1); }
MC_SCENARIO(multi_seq_dispatcher, 0, 0, 0, 0, 0) { ev_seq_dispatcher<M, false>(mc::thorough() ? 7 : 6, 3); }
MC_SCENARIO(single_t2_inline, 3, 4, 0, 0, 0) { ev_threads<S, false>(2, 2, true, 1, 2, true, hc::any_dispatcher::INLINE); }
MC_SCENARIO(multi_t2_inline, 2, 3, 0, 0, 0) { ev_threads<M, false>(2, 1, true, 2, 2, false, hc::any_dispatcher::INLINE); }
MC_SCENARIO(single_t1_dispatcher, 2, 3, 0, 0, 0) { ev_threads<S, false>(1, 2, true, 1, 2, true, hc::any_dispatcher::THREAD); }
MC_SCENARIO(multi_t1_dispatcher, 2, 3, 0, 0, 0) { ev_threads<M, false>(1, 2, true, 2, 1, false, hc::any_dispatcher::THREAD); }
MC_SCENARIO(single_reentrant, 0, 0, 0, 0, 0) { ev_reentrant<S, false>(true); }
MC_SCENARIO(multi_reentrant, 0, 0, 0, 0, 0) { ev_reentrant<M, false>(false); }
MC_SCENARIO(single_t1, 5, 99, 0, 0, mc::CASFAIL) { ev_threads<S, false>(1, 3, true, 1, 2, true); }
MC_SCENARIO(single_t2, 3, 5, 0, 0, 0) { ev_threads<S, false>(2, 2, true, 1, 2, true); }
MC_SCENARIO(single_t3, 2, 4, 0, 0, 0) { ev_threads<S, false>(3, 1, true, 1, 2, true); }
MC_SCENARIO(multi_t1, 3, 5, 0, 0, mc::CASFAIL) { ev_threads<M, false>(1, 2, true, 2, 1, false); }
MC_SCENARIO(multi_t1_two_awaits, 3, 4, 0, 0, 0) { ev_threads<M, false>(1, 3, true, 2, 2, false); }
MC_SCENARIO(multi_t2, 2, 4, 0, 0, 0) { ev_threads<M, false>(2, 2, true, 2, 1, false); }
MC_SCENARIO(multi_c3, 3, 4, 0, 0, mc::CASFAIL) { ev_threads<M, false>(1, 1, true, 3, 1, false); }
MC_SCENARIO(single_publish, 5, 99, 3, 6, mc::CASFAIL) { ev_publish<S>(1, 1 + mc::choose(2)); }
MC_SCENARIO(multi_publish, 3, 5, 2, 3, mc::CASFAIL) { ev_publish<M>(2, 1 + mc::choose(2)); }
MC_SCENARIO(single_handover, 99, 99, 3, 6, mc::CASFAIL) { ev_handover<S>(); }
MC_SCENARIO(multi_handover, 99, 99, 3, 6, mc::CASFAIL) { ev_handover<M>(); }
MC_SCENARIO(single_dispatch, 3, 5, 1, 2, 0) { ev_dispatch<S>(); }
MC_SCENARIO(multi_dispatch, 3, 5, 1, 2, 0) { ev_dispatch<M>(); }
MC_SCENARIO(single_owned, 3, 5, 1, 2, 0) { ev_owned<S>(); }
MC_SCENARIO(multi_owned, 3, 5, 1, 2, 0) { ev_owned<M>(); }
// one awaiter against a long sequence of operations, without a bound
MC_SCENARIO(single_long, 99, 99, 0, 0, mc::CASFAIL) { ev_threads<S, false>(1, 5, true, 1, 1, true); }
MC_SCENARIO(multi_long, 99, 99, 0, 0, 0) { ev_threads<M, false>(1, mc::thorough() ? 5 : 4, true, 1, 1, false); }
