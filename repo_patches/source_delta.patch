From 7058c03680c28577848a9b394499bcf8f15866c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 01/68] fix: latch never opens (compare the previous count with
 the decrement)

---
 include/asyncpp/latch.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/latch.h b/include/asyncpp/latch.h
index 2099ddd..b8fe44e 100644
--- a/include/asyncpp/latch.h
+++ b/include/asyncpp/latch.h
@@ -39,7 +39,7 @@ namespace asyncpp {
          * \note It is undefined if the sum of all decrement calls exceeds the counter value.
          */
 		void decrement(std::size_t n = 1) noexcept {
-			if (m_count.fetch_sub(n, std::memory_order::acq_rel) == 0) { m_event.set(); }
+			if (m_count.fetch_sub(n, std::memory_order::acq_rel) == n) { m_event.set(); }
 		}
 
 		/**
-- 
2.43.0


From 87b7038e3981fc0a33f30b8c3fb2a7a3d1564de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:42 +0000
Subject: [PATCH 02/68] fix: multi_consumer_event::set() returned true without
 a waiting coroutine

---
 include/asyncpp/event.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index e6092e3..ab793c4 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -340,6 +340,8 @@ namespace asyncpp {
 		bool set(dispatcher* resume_dispatcher = nullptr) noexcept {
 			auto state = m_state.exchange(this, std::memory_order::acq_rel);
 			if (state == this) return false;
+			// Without a waiting coroutine there is nothing to resume
+			if (state == nullptr) return false;
 			auto await = static_cast<awaiter*>(state);
 			while (await != nullptr) {
 				auto next = await->m_next;
-- 
2.43.0


From 96938fd584bf265254248a7c0e33a62cc3a7bd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:53 +0000
Subject: [PATCH 03/68] fix: auto reset events lost concurrent signals and
 waiters

single_consumer_auto_reset_event::set() consumed a signal set concurrently by another thread,
multi_consumer_auto_reset_event dropped waiters (or linked stale ones) when a set event was
consumed concurrently, and its orderings did not publish the data written before set().
---
 include/asyncpp/event.h | 60 ++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index ab793c4..2c69c44 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -197,14 +197,17 @@ namespace asyncpp {
          * \return true if a coroutine has been waiting and was resumed
          */
 		bool set(dispatcher* resume_dispatcher = nullptr) noexcept {
-			auto state = m_state.exchange(this, std::memory_order::release);
+			void* state = m_state.load(std::memory_order::acquire);
+			void* new_state;
+			do {
+				// If a coroutine is waiting it consumes this signal and the event becomes unset, otherwise it stays set.
+				// This needs to be a single step, to not lose a concurrent set().
+				new_state = (state == nullptr || state == this) ? this : nullptr;
+			} while (!m_state.compare_exchange_weak(state, new_state, std::memory_order::acq_rel,
+													std::memory_order::acquire));
 			if (state != nullptr && state != this) {
 				auto await = static_cast<awaiter*>(state);
 
-				// Only modify the state if it has not been changed in between
-				state = this;
-				m_state.compare_exchange_strong(state, nullptr, std::memory_order::acq_rel);
-
 				assert(await->m_parent == this);
 				assert(await->m_handle);
 				if (await->m_dispatcher != nullptr) {
@@ -480,22 +483,19 @@ namespace asyncpp {
          * \return true if a coroutine has been waiting and was resumed
          */
 		bool set(dispatcher* resume_dispatcher = nullptr) noexcept {
-			// We assume the event is
-			awaiter* await = nullptr;
 			void* old_state = m_state.load(std::memory_order::acquire);
 			void* new_state;
 			do {
-				// If the state is already set we can just return
-				if (old_state == this) return false;
-				// Otherwise store the state as an awaiter
-				await = static_cast<awaiter*>(old_state);
-				// if the event had awaiters we update the state to "unset", if it was previously unset we transition to set
-				new_state = (old_state == nullptr) ? this : nullptr;
-			} while (!m_state.compare_exchange_weak(old_state, new_state, std::memory_order::release,
+				// If the event had awaiters we update the state to "unset", otherwise it is set (or stays set).
+				// An already set event is written as well, so the coroutine consuming it sees everything that
+				// happened before this call.
+				new_state = (old_state == nullptr || old_state == this) ? this : nullptr;
+			} while (!m_state.compare_exchange_weak(old_state, new_state, std::memory_order::acq_rel,
 													std::memory_order::acquire));
 
 			// Execute the awaiters (if any)
-			if (await == nullptr) return false;
+			if (old_state == nullptr || old_state == this) return false;
+			auto await = static_cast<awaiter*>(old_state);
 			do {
 				auto next = await->m_next;
 				assert(await->m_parent == this);
@@ -562,26 +562,24 @@ namespace asyncpp {
 				//       because in that case we just enter the main loop in await_suspend
 				// Returns true if the value was updated (i.e. old_state equalled m_parent and cas succeeded)
 				return m_parent->m_state.compare_exchange_weak( //
-					old_state, nullptr, std::memory_order::release, std::memory_order::acquire);
+					old_state, nullptr, std::memory_order::acq_rel, std::memory_order::acquire);
 			}
 			[[nodiscard]] bool await_suspend(coroutine_handle<> hdl) noexcept {
 				m_handle = hdl;
-				void* old_state = m_parent->m_state.load(std::memory_order::acquire);
+				// Once m_state refers to this awaiter it might be resumed (and destroyed), so don't touch members afterwards
+				auto* const parent = m_parent;
+				void* old_state = parent->m_state.load(std::memory_order::acquire);
+				void* new_state;
 				do {
-					// If the event is set, reset it and resume the coroutine
-					if (old_state == m_parent) {
-						if (m_parent->m_state.compare_exchange_weak( //
-								old_state, nullptr, std::memory_order::release, std::memory_order::acquire))
-							return false;
-						// the state changed between load and compare (either because another coroutine was faster or the event was reset).
-						// Retry from the start
-						continue;
-					}
-					// The event is unset, add the existing awaiter (if any) to the list and suspend the coroutine
-					m_next = static_cast<awaiter*>(old_state);
-				} while (!m_parent->m_state.compare_exchange_weak( //
-					old_state, this, std::memory_order::release, std::memory_order::acquire));
-				return true;
+					// If the event is set, reset it and resume the coroutine, otherwise
+					// add the existing awaiter (if any) to the list and suspend the coroutine
+					const bool was_set = old_state == parent;
+					m_next = was_set ? nullptr : static_cast<awaiter*>(old_state);
+					new_state = was_set ? nullptr : this;
+				} while (!parent->m_state.compare_exchange_weak( //
+					old_state, new_state, std::memory_order::acq_rel, std::memory_order::acquire));
+				// old_state is the state we replaced
+				return old_state != parent;
 			}
 			constexpr void await_resume() const noexcept {}
 
-- 
2.43.0


From ad626907b0053523838eb28553acc72a43c04e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:51 +0000
Subject: [PATCH 04/68] fix: channel write() reported failure when handing the
 value to a waiting reader

---
 include/asyncpp/channel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index 6757539..41bbbda 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -281,6 +281,7 @@ namespace asyncpp {
 			lck.unlock();
 			// Copy the value over
 			rdr->m_result = std::move(m_value);
+			m_result = true;
 			// Resume reader
 			if (rdr->m_dispatcher != nullptr)
 				rdr->m_dispatcher->push([rdr]() { rdr->m_handle.resume(); });
-- 
2.43.0


From b998e6bbb43e96e0a7ed041fcd3756e2b142d6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:55 +0000
Subject: [PATCH 05/68] fix: channel read() racing with close() stayed
 suspended forever

---
 include/asyncpp/channel.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index 41bbbda..825f9d3 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -229,6 +229,8 @@ namespace asyncpp {
 		m_handle = hndl;
 		m_next = nullptr;
 		std::unique_lock lck{m_parent->m_mtx};
+		// The channel might have been closed since await_ready, nobody would ever resume us in that case
+		if (m_parent->m_closed.load(std::memory_order::relaxed)) return false;
 		// Check if there is a writer waiting
 		if (auto wrt = m_parent->m_writer_list; wrt != nullptr) {
 			// Unhook writer
-- 
2.43.0


From 4bb232f0e373cfec489b43f08ad57a5152c183b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 06/68] fix: queue without capacity never matched a pop with a
 suspended push

---
 include/asyncpp/queue.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index 547588d..19cb8c7 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -265,7 +265,16 @@ namespace asyncpp {
 	inline std::optional<T> queue<T, TContainer>::try_pop() {
 		std::unique_lock lck{m_mtx};
 		// Early out if the queue is empty
-		if (m_queue.empty()) return std::nullopt;
+		if (m_queue.empty()) {
+			// A queue without capacity stores nothing, so take the value right from a suspended push
+			auto awaiter = m_push_list;
+			if (awaiter == nullptr) return std::nullopt;
+			m_push_list = awaiter->m_next;
+			std::optional<T> res{std::move(awaiter->m_value)};
+			lck.unlock();
+			awaiter->resume();
+			return res;
+		}
 		// Pop the first value
 		std::optional<T> res{std::move(m_queue.front())};
 		m_queue.pop();
@@ -326,6 +335,14 @@ namespace asyncpp {
 	inline bool queue<T, TContainer>::pop_awaiter::await_ready() {
 		std::unique_lock lck{m_parent->m_mtx};
 		if (m_parent->m_queue.empty()) {
+			// A queue without capacity stores nothing, so take the value right from a suspended push
+			if (auto awaiter = m_parent->m_push_list; awaiter != nullptr) {
+				m_parent->m_push_list = awaiter->m_next;
+				m_result.emplace(std::move(awaiter->m_value));
+				lck.unlock();
+				awaiter->resume();
+				return true;
+			}
 			lck.release(); // We unlock inside suspend
 			return false;
 		}
-- 
2.43.0


From 52384d3cf3eb190442c43c0f6e21a6e0ae4a376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:24 +0000
Subject: [PATCH 07/68] fix: queue::try_emplace lost a waiting consumer if
 constructing the item threw

It also used list initialization if (and only if) a consumer was waiting, which constructs a different value.
---
 include/asyncpp/queue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index 19cb8c7..57e4f31 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -249,11 +249,13 @@ namespace asyncpp {
 		if (m_queue.size() >= m_max_size) return false;
 		// Check if there is an task waiting in pop
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
+			// Construct the item first (the same way the container does), as its constructor might throw
+			T value(std::forward<Args>(args)...);
 			m_pop_list = awaiter->m_next;
 			// There should never be a task waiting in pop with a non empty queue
 			assert(m_queue.empty());
 			lck.unlock();
-			awaiter->resume(T{std::forward<Args>(args)...});
+			awaiter->resume(std::move(value));
 		} else {
 			// There is noone waiting for the data (yet), so we just queue it
 			m_queue.emplace(std::forward<Args>(args)...);
-- 
2.43.0


From a8f297cdc70da998f1e9356e18226fbb9cf828fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:56 +0000
Subject: [PATCH 08/68] fix: thread_safe_refcount did not order accesses before
 the destruction of the object

---
 include/asyncpp/ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index 6ca7a8a..626606d 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -31,7 +31,7 @@ namespace asyncpp {
 		thread_safe_refcount& operator=(const thread_safe_refcount& other) = delete;
 
 		size_t fetch_increment() noexcept { return m_count.fetch_add(1, std::memory_order::acquire); }
-		[[nodiscard]] size_t fetch_decrement() noexcept { return m_count.fetch_sub(1, std::memory_order::release); }
+		[[nodiscard]] size_t fetch_decrement() noexcept { return m_count.fetch_sub(1, std::memory_order::acq_rel); }
 		[[nodiscard]] size_t count() const noexcept { return m_count.load(std::memory_order::relaxed); }
 	};
 	/**
-- 
2.43.0


From 8a4bec59e7ef498c8f8f37e4ff8de6979c6da97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:25 +0000
Subject: [PATCH 09/68] fix: ref released the old object before taking over the
 new one

Assigning from a handle stored inside the managed object, resetting to the own pointer and
self move assignment used the destroyed object; a destructor using the handle saw a dangling pointer.
---
 include/asyncpp/ref.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index 626606d..1bbff11 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -169,8 +169,9 @@ namespace asyncpp {
 		/// \brief Move assignment operator
 		//NOLINTNEXTLINE(hicpp-noexcept-move,performance-noexcept-move-constructor)
 		ref& operator=(ref&& other) noexcept(noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = std::exchange(other.m_ptr, nullptr);
+			// other might be stored inside the object we release (or be this), so take its pointer first
+			auto ptr = std::exchange(other.m_ptr, nullptr);
+			reset(ptr, adopt_ref);
 			return *this;
 		}
 		/**
@@ -180,9 +181,9 @@ namespace asyncpp {
 		 */
 		void reset(T* ptr) noexcept(noexcept(refcounted_add_ref(std::declval<T*>())) &&
 									noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = ptr;
-			if (m_ptr) refcounted_add_ref(m_ptr);
+			// Add the new reference first, the old object might hold the last other reference to ptr (or be ptr)
+			if (ptr) refcounted_add_ref(ptr);
+			reset(ptr, adopt_ref);
 		}
 		/**
 		 * \brief Reset the handle with a new value
@@ -190,8 +191,9 @@ namespace asyncpp {
 		 * \param adopt_ref the reference count is already incremented, keep it as is
 		 */
 		void reset(T* ptr, decltype(adopt_ref)) noexcept(noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = ptr;
+			// Releasing the old object might access this handle
+			auto old = std::exchange(m_ptr, ptr);
+			if (old) refcounted_remove_ref(old);
 		}
 		/**
 		 * \brief Reset the handle to nullptr
-- 
2.43.0


From 15024597132edba12244f16cfedd3dc139983234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:04 +0000
Subject: [PATCH 10/68] fix: promise was neither pending nor settled after
 constructing its value threw

---
 include/asyncpp/promise.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 0360c71..9b03cf3 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -33,7 +33,13 @@ namespace asyncpp {
 			bool try_fulfill(auto&& value) {
 				std::unique_lock lck{m_mtx};
 				if (m_value.index() != pending_index) return false;
-				m_value.template emplace<fulfilled_index>(std::forward<decltype(value)>(value));
+				try {
+					m_value.template emplace<fulfilled_index>(std::forward<decltype(value)>(value));
+				} catch (...) {
+					// The variant might be valueless now, the promise is still pending
+					m_value.template emplace<pending_index>();
+					throw;
+				}
 				m_cv.notify_all();
 				auto settle_cbs = std::move(m_on_settle);
 				auto fulfill_cbs = std::move(m_on_fulfill);
-- 
2.43.0


From ebf28758aa47a5a90015232f747892cdb6450c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:00 +0000
Subject: [PATCH 11/68] fix: promise_first_successful could be rejected
 although an input was fulfilled concurrently

---
 include/asyncpp/promise.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 9b03cf3..0f66658 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -500,8 +500,8 @@ namespace asyncpp {
 		promise<T> result_promise;
 		auto finished = std::make_shared<std::atomic<size_t>>(0);
 		(args.then(
-			 [result_promise, finished](const typename promise<TArgs>::result_type& res) mutable {
-				 finished->fetch_add(1);
+			 // NOTE: Only failures are counted, otherwise a concurrent failure could reject the result before we fulfill it
+			 [result_promise](const typename promise<TArgs>::result_type& res) mutable {
 				 result_promise.try_fulfill(res);
 			 },
 			 [result_promise, finished](const std::exception_ptr& exception) mutable {
-- 
2.43.0


From 48f94f1c5186552645109cdefaebbfd9c491234a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 12/68] fix: promise_all without promises stayed pending
 forever

---
 include/asyncpp/promise.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 0f66658..278495f 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -525,6 +525,8 @@ namespace asyncpp {
 			promise<void> result;
 		};
 		auto shared = std::make_shared<state>();
+		// Without promises there is nothing to wait for
+		if constexpr (sizeof...(args) == 0) shared->result.fulfill();
 		(args.on_settle([shared]() mutable {
 			auto curid = shared->count.fetch_add(1);
 			if (curid + 1 == sizeof...(args)) { shared->result.fulfill(); }
-- 
2.43.0


From 967eb21890424bd416b9b910efc853ea36b9bae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:44 +0000
Subject: [PATCH 13/68] fix: atomic_ref could only be instantiated for one type
 per translation unit

---
 include/asyncpp/ref.h | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index 1bbff11..d7210d0 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -239,20 +239,17 @@ namespace asyncpp {
 	template<RefCountable T>
 	class atomic_ref {
 		friend struct std::hash<asyncpp::atomic_ref<T>>;
-		template<RefCountable T2>
-		friend constexpr auto operator<=>(const atomic_ref<T2>& lhs, const atomic_ref<T2>& rhs) noexcept {
-			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T2>::lock_mask) <=>
-				   (rhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T2>::lock_mask);
+		friend constexpr auto operator<=>(const atomic_ref<T>& lhs, const atomic_ref<T>& rhs) noexcept {
+			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~lock_mask) <=>
+				   (rhs.m_ptr.load(std::memory_order::relaxed) & ~lock_mask);
 		}
-		template<RefCountable T2>
-		friend constexpr auto operator<=>(const atomic_ref<T2>& lhs, const T2* rhs) noexcept {
-			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T>::lock_mask) <=>
+		friend constexpr auto operator<=>(const atomic_ref<T>& lhs, const T* rhs) noexcept {
+			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~lock_mask) <=>
 				   reinterpret_cast<uintptr_t>(rhs);
 		}
-		template<RefCountable T2>
-		friend constexpr auto operator<=>(const T2* lhs, const atomic_ref<T2>& rhs) noexcept {
+		friend constexpr auto operator<=>(const T* lhs, const atomic_ref<T>& rhs) noexcept {
 			return reinterpret_cast<uintptr_t>(lhs) <=>
-				   (rhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T>::lock_mask);
+				   (rhs.m_ptr.load(std::memory_order::relaxed) & ~lock_mask);
 		}
 		mutable std::atomic<uintptr_t> m_ptr;
 
-- 
2.43.0


From 5ee852997d10aa8119013eb0741a68ebae4a217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:53 +0000
Subject: [PATCH 14/68] fix: atomic_ref::exchange leaked the reference when it
 refused a pointer

---
 include/asyncpp/ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index d7210d0..a644c61 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -374,8 +374,8 @@ namespace asyncpp {
 		 * \throw std::logic_error if the pointer value collides with the lock_mask
 		 */
 		ref<T> exchange(ref<T> hdl) {
+			if ((reinterpret_cast<uintptr_t>(hdl.get()) & lock_mask) != 0) throw std::logic_error("invalid pointer");
 			auto ptr = hdl.release();
-			if ((reinterpret_cast<uintptr_t>(ptr) & lock_mask) != 0) throw std::logic_error("invalid pointer");
 
 			// Lock the current pointer value
 			auto val = lock();
-- 
2.43.0


From f5709d7d02198dc0ac5af303b0a1e23c209c6e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:21 +0000
Subject: [PATCH 15/68] fix: signal::prepend did not compile

---
 include/asyncpp/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 68b3b77..d3317ab 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -345,7 +345,7 @@ namespace asyncpp {
 			m_head = new_node;
 		} else {
 			m_head = new_node;
-			m_tail = new_node;
+			m_tail = new_node.get();
 		}
 		return handle(static_ref_cast<detail::signal_node_base>(new_node));
 	}
-- 
2.43.0


From 5f90b9c201d229b8ed71da4eb31fd8446625edfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:08 +0000
Subject: [PATCH 16/68] fix: signal move assignment returned no value and
 deadlocked on self assignment

---
 include/asyncpp/signal.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index d3317ab..3ca147f 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -278,6 +278,7 @@ namespace asyncpp {
 	template<typename... TParams, typename TTraits>
 	//NOLINTNEXTLINE(performance-noexcept-move-constructor)
 	inline signal<void(TParams...), TTraits>& signal<void(TParams...), TTraits>::operator=(signal&& other) {
+		if (this == &other) return *this;
 		std::scoped_lock lck{m_mutex, other.m_mutex};
 		auto node = m_head;
 		m_head.reset();
@@ -291,6 +292,7 @@ namespace asyncpp {
 		m_head = std::exchange(other.m_head, nullptr);
 		m_tail = std::exchange(other.m_tail, nullptr);
 		m_current_counter.store(other.m_current_counter.exchange(1));
+		return *this;
 	}
 
 	template<typename... TParams, typename TTraits>
-- 
2.43.0


From b623b1c7882f11abdd0b038d6752e2690cbfd4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:25 +0000
Subject: [PATCH 17/68] fix: removing a handler that was unlinked already
 corrupted the handler list

---
 include/asyncpp/signal.h | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 3ca147f..69bdad2 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -31,6 +31,8 @@ namespace asyncpp {
 		struct signal_node_base : intrusive_refcount<signal_node_base> {
 			virtual ~signal_node_base() noexcept = default;
 			std::atomic<size_t> counter;
+			// The signal that has this node in its list, or nullptr. Only changed with the lock of that signal held.
+			std::atomic<const void*> owner{};
 		};
 		static constexpr size_t signal_removed_counter = 0;
 	} // namespace detail
@@ -169,6 +171,9 @@ namespace asyncpp {
 		}
 
 		void free_node(ref<node>& node) const noexcept {
+			// Might be unlinked already, e.g. if it was removed while being invoked
+			if (node->owner != this) return;
+			node->owner = nullptr;
 			if (node->next) { node->next->previous = node->previous; }
 			if (node->previous) { node->previous->next = node->next; }
 			node->counter = detail::signal_removed_counter;
@@ -272,6 +277,8 @@ namespace asyncpp {
 		std::scoped_lock lck{m_mutex, other.m_mutex};
 		m_head = std::exchange(other.m_head, nullptr);
 		m_tail = std::exchange(other.m_tail, nullptr);
+		for (auto node = m_head.get(); node; node = node->next.get())
+			node->owner = this;
 		m_current_counter.store(other.m_current_counter.exchange(1));
 	}
 
@@ -284,6 +291,7 @@ namespace asyncpp {
 		m_head.reset();
 		while (node) {
 			auto next = node->next;
+			node->owner = nullptr;
 			node->previous = nullptr;
 			node->next.reset();
 			node = next;
@@ -291,6 +299,8 @@ namespace asyncpp {
 		assert(!node);
 		m_head = std::exchange(other.m_head, nullptr);
 		m_tail = std::exchange(other.m_tail, nullptr);
+		for (auto node = m_head.get(); node; node = node->next.get())
+			node->owner = this;
 		m_current_counter.store(other.m_current_counter.exchange(1));
 		return *this;
 	}
@@ -301,6 +311,7 @@ namespace asyncpp {
 		m_head.reset();
 		while (node) {
 			auto next = node->next;
+			node->owner = nullptr;
 			node->previous = nullptr;
 			node->next.reset();
 			node = next;
@@ -325,6 +336,7 @@ namespace asyncpp {
 	inline typename signal<void(TParams...), TTraits>::handle signal<void(TParams...), TTraits>::append(FN&& fncb) {
 		ref<node> new_node(new node_impl<FN>(std::forward<decltype(fncb)>(fncb)));
 		new_node->counter = get_next_counter();
+		new_node->owner = this;
 		if (std::lock_guard lck{m_mutex}; m_head) {
 			new_node->previous = m_tail;
 			m_tail->next = new_node;
@@ -341,6 +353,7 @@ namespace asyncpp {
 	inline typename signal<void(TParams...), TTraits>::handle signal<void(TParams...), TTraits>::prepend(FN&& fncb) {
 		ref<node> new_node(new node_impl<FN>(std::forward<decltype(fncb)>(fncb)));
 		new_node->counter = get_next_counter();
+		new_node->owner = this;
 		if (std::lock_guard lck{m_mutex}; m_head) {
 			new_node->next = m_head;
 			m_head->previous = new_node.get();
@@ -354,23 +367,20 @@ namespace asyncpp {
 
 	template<typename... TParams, typename TTraits>
 	inline bool signal<void(TParams...), TTraits>::remove(const handle& hdl) {
-		auto node = static_ref_cast<signal::node>(hdl.m_node);
-		if (!node) return false;
+		if (!hdl.m_node) return false;
+		ref<node> node{};
 		std::lock_guard lck{m_mutex};
+		if (hdl.m_node->owner != this) return false;
+		node = static_ref_cast<signal::node>(hdl.m_node);
+		const bool connected = node->counter != detail::signal_removed_counter;
 		free_node(node);
-		return true;
+		return connected;
 	}
 
 	template<typename... TParams, typename TTraits>
 	inline bool signal<void(TParams...), TTraits>::owns_handle(const handle& hdl) const {
-		auto node = static_ref_cast<signal::node>(hdl.m_node);
-		if (!node || node->counter == detail::signal_removed_counter) return false;
-		std::lock_guard lck{m_mutex};
-		auto handle = m_head;
-		while (handle && handle != node) {
-			handle = handle->next;
-		}
-		return node == handle;
+		if (!hdl.m_node || hdl.m_node->counter == detail::signal_removed_counter) return false;
+		return hdl.m_node->owner == this;
 	}
 
 	template<typename... TParams, typename TTraits>
-- 
2.43.0


From f155735e02aded7029e7c4ec93ba63dd53308377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:39 +0000
Subject: [PATCH 18/68] fix: handles of a destroyed or replaced signal reported
 to be valid

---
 include/asyncpp/signal.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 69bdad2..ef3a3be 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -291,6 +291,7 @@ namespace asyncpp {
 		m_head.reset();
 		while (node) {
 			auto next = node->next;
+			node->counter = detail::signal_removed_counter;
 			node->owner = nullptr;
 			node->previous = nullptr;
 			node->next.reset();
@@ -311,6 +312,7 @@ namespace asyncpp {
 		m_head.reset();
 		while (node) {
 			auto next = node->next;
+			node->counter = detail::signal_removed_counter;
 			node->owner = nullptr;
 			node->previous = nullptr;
 			node->next.reset();
-- 
2.43.0


From 5bc73afa8b3188a28cd283c3707c140c9bcede70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:05 +0000
Subject: [PATCH 19/68] fix: scoped_signal_handle disconnected the handler when
 it was moved or assigned

---
 include/asyncpp/signal.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index ef3a3be..92bf7c4 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -73,6 +73,14 @@ namespace asyncpp {
 		scoped_signal_handle(ref<detail::signal_node_base> hdl = {}) : m_handle(std::move(hdl)) {}
 		//NOLINTNEXTLINE(google-explicit-constructor)
 		scoped_signal_handle(signal_handle hdl) : m_handle(std::move(hdl)) {}
+		scoped_signal_handle(scoped_signal_handle&& other) noexcept : m_handle(std::move(other.m_handle)) {}
+		scoped_signal_handle(const scoped_signal_handle&) = delete;
+		scoped_signal_handle& operator=(scoped_signal_handle&& other) noexcept {
+			std::swap(m_handle, other.m_handle);
+			if (this != &other) other.disconnect();
+			return *this;
+		}
+		scoped_signal_handle& operator=(const scoped_signal_handle&) = delete;
 		~scoped_signal_handle() noexcept { m_handle.disconnect(); }
 		explicit operator bool() const noexcept { return valid(); }
 		[[nodiscard]] bool operator!() const noexcept { return !valid(); }
-- 
2.43.0


From db78d668cc2b32d3c4a158549968b0f5f6dd81bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:31 +0000
Subject: [PATCH 20/68] fix: signal invoked a handler that was connected during
 the invocation

---
 include/asyncpp/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 92bf7c4..737982f 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -407,7 +407,7 @@ namespace asyncpp {
 
 		const auto counter = m_current_counter.load(std::memory_order_acquire);
 		do {
-			if (node->counter != detail::signal_removed_counter && counter >= node->counter) {
+			if (node->counter != detail::signal_removed_counter && counter > node->counter) {
 				node->invoke(params...);
 				++ninvoked;
 			}
-- 
2.43.0


From 0dc88746eac8e613ada1fb4fd6cf48c14f164437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:22 +0000
Subject: [PATCH 21/68] fix: signal destroyed handlers with its lock held

---
 include/asyncpp/signal.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 737982f..75ea47d 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -412,6 +412,8 @@ namespace asyncpp {
 				++ninvoked;
 			}
 
+			// Release the node after the lock, destroying a handler might use the signal
+			auto current = node;
 			std::lock_guard lck(m_mutex);
 			if (node->counter == detail::signal_removed_counter) { free_node(node); }
 			node = node->next;
-- 
2.43.0


From 414df993ea75425648dba12781e1a5e609bf749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 22/68] fix: signal_manager deadlocked if a handler used it and
 could lose or destroy slots in use

---
 include/asyncpp/signal.h | 61 +++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 75ea47d..c510bbf 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -4,10 +4,12 @@
 #include <atomic>
 #include <cassert>
 #include <cstddef>
+#include <memory>
 #include <mutex>
 #include <shared_mutex>
 #include <unordered_map>
 #include <utility>
+#include <vector>
 
 namespace asyncpp {
 	struct signal_traits_mt {
@@ -216,66 +218,67 @@ namespace asyncpp {
 
 		template<typename FN>
 		handle append(event_type event, FN&& fncb) {
-			auto iter = find_or_create_slot(event);
-			assert(iter != m_mapping.end());
-			return iter->second.append(std::forward<decltype(fncb)>(fncb));
+			return with_slot(event, [&](signal_type& sig) { return sig.append(std::forward<decltype(fncb)>(fncb)); });
 		}
 		template<typename FN>
 		handle prepend(event_type event, FN&& fncb) {
-			auto iter = find_or_create_slot(event);
-			assert(iter != m_mapping.end());
-			return iter->second.prepend(std::forward<decltype(fncb)>(fncb));
+			return with_slot(event, [&](signal_type& sig) { return sig.prepend(std::forward<decltype(fncb)>(fncb)); });
 		}
 
 		bool remove(event_type event, const handle& hdl) {
-			std::shared_lock lck{m_mutex};
-			auto iter = m_mapping.find(event);
-			return iter != m_mapping.end() && iter->second.remove(hdl);
+			auto sig = find_slot(event);
+			return sig && sig->remove(hdl);
 		}
 
 		bool owns_handle(event_type event, const handle& hdl) const {
-			std::shared_lock lck{m_mutex};
-			auto iter = m_mapping.find(event);
-			return iter != m_mapping.end() && iter->second.owns_handle(hdl);
+			auto sig = find_slot(event);
+			return sig && sig->owns_handle(hdl);
 		}
 
 		size_t invoke(event_type event, const TParams&... params) const {
-			std::shared_lock lck{m_mutex};
-			auto iter = m_mapping.find(event);
-			if (iter == m_mapping.end()) return 0;
-			return iter->second(params...);
+			auto sig = find_slot(event);
+			if (!sig) return 0;
+			return (*sig)(params...);
 		}
 
 		size_t operator()(event_type event, const TParams&... params) const { return invoke(event, params...); }
 
 		size_t shrink_to_fit() {
+			// Destroyed after the lock is released, they might contain disconnected handlers
+			std::vector<std::shared_ptr<signal_type>> removed;
 			std::unique_lock lck{m_mutex};
-			size_t res = 0;
 			for (auto it = m_mapping.begin(); it != m_mapping.end();) {
-				if (it->second.empty()) {
-					res++;
+				if (it->second->empty()) {
+					removed.push_back(std::move(it->second));
 					it = m_mapping.erase(it);
 				} else
 					it++;
 			}
-			return res;
+			return removed.size();
 		}
 
 	private:
 		mutable std::shared_mutex m_mutex{};
-		std::unordered_map<event_type, signal_type> m_mapping;
+		std::unordered_map<event_type, std::shared_ptr<signal_type>> m_mapping;
 
-		auto find_or_create_slot(event_type evt) {
+		// Handlers are allowed to use the manager, so they are only called (and destroyed) without the lock
+		std::shared_ptr<signal_type> find_slot(const event_type& evt) const {
 			std::shared_lock lck{m_mutex};
 			auto iter = m_mapping.find(evt);
-			if (iter == m_mapping.end()) {
-				lck.unlock();
-				std::unique_lock unique{m_mutex};
-				iter = m_mapping.find(evt);
-				if (iter != m_mapping.end()) return iter;
-				iter = m_mapping.emplace(evt, signal_type{}).first;
+			return iter != m_mapping.end() ? iter->second : nullptr;
+		}
+
+		// Connecting needs to hold the lock, shrink_to_fit() might remove the slot otherwise
+		template<typename FN>
+		handle with_slot(const event_type& evt, FN&& connect) {
+			{
+				std::shared_lock lck{m_mutex};
+				if (auto iter = m_mapping.find(evt); iter != m_mapping.end()) return connect(*iter->second);
 			}
-			return iter;
+			std::unique_lock lck{m_mutex};
+			auto iter = m_mapping.find(evt);
+			if (iter == m_mapping.end()) iter = m_mapping.emplace(evt, std::make_shared<signal_type>()).first;
+			return connect(*iter->second);
 		}
 	};
 
-- 
2.43.0


From 2411d297dc620de8d5866a32e50619bb34af851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:27 +0000
Subject: [PATCH 23/68] fix: thread_pool::push from a thread of another pool
 queued the task on that pool

---
 include/asyncpp/thread_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index ea81125..38273d9 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -40,7 +40,7 @@ namespace asyncpp {
 		 */
 		void push(std::function<void()> cbfn) override {
 			if (!cbfn) return;
-			if (g_current_thread != nullptr) {
+			if (g_current_thread != nullptr && g_current_thread->pool == this) {
 				std::unique_lock lck{g_current_thread->mutex};
 				g_current_thread->queue.emplace(std::move(cbfn));
 			} else {
-- 
2.43.0


From 0c74be38d8c83bd586065b0965c5a556f9e4a843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:14 +0000
Subject: [PATCH 24/68] fix: thread_pool lost tasks pushed while it was
 shrinking

---
 include/asyncpp/thread_pool.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index 38273d9..edf0046 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -62,8 +62,12 @@ namespace asyncpp {
 			std::unique_lock lck{m_resize_mtx};
 			auto old = m_target_size.load();
 			if (old > target_size) {
-				// Prevent new tasks from being scheduled on those threads
-				m_valid_size = target_size;
+				// Prevent new tasks from being scheduled on those threads, the lock makes sure that nobody is still pushing
+				// to (or stealing from) a thread we are about to stop.
+				{
+					std::unique_lock threads_lck{m_threads_mtx};
+					m_valid_size = target_size;
+				}
 				m_target_size = target_size;
 				// Notify all and join threads, if the threads index is greater or equal to m_target_size,
 				// it will invoke its remaining tasks and exit.
-- 
2.43.0


From 06926ec4b72e7e55c3495b17aa39b9d7be939cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:02 +0000
Subject: [PATCH 25/68] fix: thread_pool destroyed callbacks with the queue
 locked

---
 include/asyncpp/thread_pool.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index edf0046..4788174 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -148,6 +148,8 @@ namespace asyncpp {
 							queue.pop();
 							lck.unlock();
 							cbfn();
+							// Destroying the callback might push again, so do it without the lock
+							cbfn = nullptr;
 							lck.lock();
 						}
 					}
@@ -164,11 +166,12 @@ namespace asyncpp {
 				std::unique_lock lck{mutex};
 				g_current_thread = nullptr;
 				while (!queue.empty()) {
-					auto& cbfn = queue.front();
+					auto cbfn = std::move(queue.front());
+					queue.pop();
 					lck.unlock();
 					cbfn();
+					cbfn = nullptr;
 					lck.lock();
-					queue.pop();
 				}
 				dispatcher::current(nullptr);
 			}
-- 
2.43.0


From 3b19df92c2f2460c52a4e2322dce1b59d7ac1d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:00 +0000
Subject: [PATCH 26/68] fix: simple_dispatcher::run missed a concurrent stop

---
 include/asyncpp/simple_dispatcher.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/simple_dispatcher.h b/include/asyncpp/simple_dispatcher.h
index 9f51937..245ff40 100644
--- a/include/asyncpp/simple_dispatcher.h
+++ b/include/asyncpp/simple_dispatcher.h
@@ -43,8 +43,10 @@ namespace asyncpp {
          */
 		void run() {
 			dispatcher* const old_dispatcher = dispatcher::current(this);
-			while (!m_done) {
+			while (true) {
 				std::unique_lock lck{m_mtx};
+				// Needs to be checked with the lock held, otherwise we might miss the notification by stop()
+				if (m_done) break;
 				if (m_queue.empty()) {
 					m_cv.wait(lck);
 					continue;
-- 
2.43.0


From b09212515ac9a773247ccffed47e02a7370eda34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:22 +0000
Subject: [PATCH 27/68] fix: simple_dispatcher::run left itself as current
 dispatcher if a callback throws

---
 include/asyncpp/simple_dispatcher.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/simple_dispatcher.h b/include/asyncpp/simple_dispatcher.h
index 245ff40..69b6cb4 100644
--- a/include/asyncpp/simple_dispatcher.h
+++ b/include/asyncpp/simple_dispatcher.h
@@ -1,5 +1,6 @@
 #pragma once
 #include <asyncpp/dispatcher.h>
+#include <asyncpp/scope_guard.h>
 
 #include <atomic>
 #include <condition_variable>
@@ -43,6 +44,8 @@ namespace asyncpp {
          */
 		void run() {
 			dispatcher* const old_dispatcher = dispatcher::current(this);
+			// Restore it if a callback throws as well
+			const scope_guard restore{[old_dispatcher]() noexcept { dispatcher::current(old_dispatcher); }};
 			while (true) {
 				std::unique_lock lck{m_mtx};
 				// Needs to be checked with the lock held, otherwise we might miss the notification by stop()
@@ -56,7 +59,6 @@ namespace asyncpp {
 				lck.unlock();
 				if (cbfn) cbfn();
 			}
-			dispatcher::current(old_dispatcher);
 		}
 	};
 } // namespace asyncpp
-- 
2.43.0


From ac15b0ed29e1b444e2fbc4038d907a257eb7f13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:04 +0000
Subject: [PATCH 28/68] fix: timer was not the current dispatcher in its
 callbacks

---
 include/asyncpp/timer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index 3724245..da6dd9d 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -292,6 +292,7 @@ namespace asyncpp {
 #ifdef __linux__
 			pthread_setname_np(pthread_self(), "asyncpp_timer");
 #endif
+			dispatcher::current(this);
 			while (true) {
 				std::unique_lock lck(m_mtx);
 				while (!m_pushed.empty()) {
-- 
2.43.0


From 3b3eacdf868cbb538285ee689cd93a76d56d02bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:16 +0000
Subject: [PATCH 29/68] fix: cancelling a scheduled timer callback could
 deadlock, corrupt the timer or be lost

---
 include/asyncpp/timer.h | 131 +++++++++++++++++++++++++---------------
 1 file changed, 82 insertions(+), 49 deletions(-)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index da6dd9d..8a7ac4e 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -6,6 +6,7 @@
 #include <cassert>
 #include <chrono>
 #include <condition_variable>
+#include <memory>
 #include <mutex>
 #include <optional>
 #include <queue>
@@ -33,44 +34,39 @@ namespace asyncpp {
 			};
 		};
 		struct cancellable_scheduled_entry : public scheduled_entry {
+			/// \brief Comparator struct that compares the timepoints
+			struct time_less {
+				/// \brief Compare two entries
+				bool operator()(const std::shared_ptr<cancellable_scheduled_entry>& lhs,
+								const std::shared_ptr<cancellable_scheduled_entry>& rhs) const noexcept {
+					return lhs->timepoint < rhs->timepoint;
+				}
+			};
+			/// \brief Set of entries ordered by timepoint
+			using set = std::multiset<std::shared_ptr<cancellable_scheduled_entry>, time_less>;
 			/// \brief Callback type used with stop_tokens
 			struct cancel_callback {
-				/// \brief Pointer to the timer containing this node
+				/// \brief Pointer to the timer containing this entry
 				timer* parent;
-				/// \brief Iterator to this node in the entry set
-				std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less>::const_iterator it;
+				/// \brief Pointer to the entry
+				cancellable_scheduled_entry* entry;
 				/// \brief Invocation operator called on cancellation
 				void operator()() const {
-					// We have to distinguish between cancellation while in the process of construction and
-					// cancellation afterwards. If the stop_token is signalled at the time of construction it directly
-					// invokes the callback, however if we would lock at that point we would cause a deadlock with the
-					// outside lock in schedule(). We also can't directly delete the node in this case because
-					// std::optional<>::emplace tries to set a flag after construction which would cause use after free.
-					// Thus we set a flag in schedule() and postpone both the invoke and deletion until after emplace is done.
-					// If we are not in construction we need to lock and can directly destroy the node once we are done.
-					if (it->in_construction) {
-						auto entry =
-							new std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less>::node_type(
-								parent->m_scheduled_cancellable_set.extract(it));
-						if (entry->value().invokable) {
-							parent->m_pushed.emplace([entry]() {
-								entry->value().invokable(false);
-								delete entry;
-							});
-						}
-					} else {
-						std::unique_lock lck{parent->m_mtx};
-						auto entry = parent->m_scheduled_cancellable_set.extract(it);
-						lck.unlock();
-						if (entry.value().invokable) {
-							parent->m_pushed.emplace([cbfn = std::move(entry.value().invokable)]() { cbfn(false); });
-							parent->m_cv.notify_all();
-						}
-					}
+					// This might be called while the entry is not in the set yet (token was signalled before schedule()
+					// is done), in the set, or not in the set any more (it expired and is about to be invoked).
+					std::unique_lock lck{parent->m_mtx};
+					entry->cancelled = true;
+					if (!entry->position) return;
+					parent->push_cancelled(parent->extract(*entry));
 				}
 			};
-			mutable std::optional<asyncpp::stop_callback<cancel_callback>> cancel_token;
-			mutable bool in_construction{true};
+			/// \brief Registration with the stop_token. Has to be reset without holding the lock, because it waits for
+			///        a running cancel_callback to finish, which needs the lock.
+			std::optional<asyncpp::stop_callback<cancel_callback>> cancel_token;
+			/// \brief Position in the set, if it's part of it. Protected by the timers lock.
+			std::optional<set::iterator> position;
+			/// \brief True once cancellation was requested. Protected by the timers lock.
+			bool cancelled{false};
 
 			cancellable_scheduled_entry(std::chrono::steady_clock::time_point time,
 										std::function<void(bool)> cbfn) noexcept
@@ -145,11 +141,18 @@ namespace asyncpp {
 		void schedule(std::function<void(bool)> cbfn, std::chrono::steady_clock::time_point timeout,
 					  asyncpp::stop_token stoken) {
 			if (m_exit) throw std::logic_error("shutting down");
+			auto entry = std::make_shared<cancellable_scheduled_entry>(timeout, std::move(cbfn));
+			// Register without the lock, if the token is already signalled the callback is invoked right away
+			entry->cancel_token.emplace(std::move(stoken),
+										cancellable_scheduled_entry::cancel_callback{this, entry.get()});
 			std::unique_lock lck(m_mtx);
-			auto iter = m_scheduled_cancellable_set.emplace(timeout, std::move(cbfn));
-			iter->cancel_token.emplace(std::move(stoken), cancellable_scheduled_entry::cancel_callback{this, iter});
-			iter->in_construction = false;
-			m_cv.notify_all();
+			if (entry->cancelled) {
+				push_cancelled(std::move(entry));
+			} else {
+				auto iter = m_scheduled_cancellable_set.insert(std::move(entry));
+				(*iter)->position = iter;
+				m_cv.notify_all();
+			}
 		}
 		/**
 		 * \brief Schedule a callback to be executed after a certain duration expires with a stop_token
@@ -284,10 +287,26 @@ namespace asyncpp {
 		std::condition_variable m_cv{};
 		std::queue<std::function<void()>> m_pushed{};
 		std::multiset<scheduled_entry, scheduled_entry::time_less> m_scheduled_set{};
-		std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less> m_scheduled_cancellable_set{};
+		cancellable_scheduled_entry::set m_scheduled_cancellable_set{};
 		std::atomic<bool> m_exit{};
 		std::thread m_thread{};
 
+		/// \brief Remove the entry from the set, needs to be called with the lock held.
+		std::shared_ptr<cancellable_scheduled_entry> extract(cancellable_scheduled_entry& entry) {
+			auto node = m_scheduled_cancellable_set.extract(*entry.position);
+			entry.position.reset();
+			return std::move(node.value());
+		}
+
+		/// \brief Invoke a cancelled entry in the timer thread, needs to be called with the lock held.
+		void push_cancelled(std::shared_ptr<cancellable_scheduled_entry> entry) {
+			m_pushed.emplace([entry = std::move(entry)]() {
+				entry->cancel_token.reset();
+				if (entry->invokable) entry->invokable(false);
+			});
+			m_cv.notify_all();
+		}
+
 		void run() noexcept {
 #ifdef __linux__
 			pthread_setname_np(pthread_self(), "asyncpp_timer");
@@ -321,22 +340,22 @@ namespace asyncpp {
 				}
 				while (!m_scheduled_cancellable_set.empty()) {
 					auto elem = m_scheduled_cancellable_set.begin();
-					if (elem->timepoint > now) break;
-					auto handle = m_scheduled_cancellable_set.extract(elem);
-					if (handle.value().invokable) {
-						handle.value().cancel_token.reset();
-						lck.unlock();
+					if ((*elem)->timepoint > now) break;
+					auto entry = extract(**elem);
+					lck.unlock();
+					entry->cancel_token.reset();
+					if (entry->invokable) {
 						try {
-							handle.value().invokable(true);
+							entry->invokable(true);
 						} catch (...) { std::terminate(); }
-						lck.lock();
 					}
+					lck.lock();
 				}
 				now = std::chrono::steady_clock::now();
 				std::chrono::nanoseconds timeout{500 * 1000 * 1000};
 				if (!m_scheduled_set.empty()) timeout = (std::min)(m_scheduled_set.begin()->timepoint - now, timeout);
 				if (!m_scheduled_cancellable_set.empty())
-					timeout = (std::min)(m_scheduled_cancellable_set.begin()->timepoint - now, timeout);
+					timeout = (std::min)((*m_scheduled_cancellable_set.begin())->timepoint - now, timeout);
 				if (m_pushed.empty() && timeout.count() > 0) {
 					if (m_exit) break;
 					m_cv.wait_for(lck, timeout);
@@ -344,8 +363,24 @@ namespace asyncpp {
 			}
 			std::unique_lock lck(m_mtx);
 			auto set = std::move(m_scheduled_set);
+			m_scheduled_set.clear();
 			auto cset = std::move(m_scheduled_cancellable_set);
+			m_scheduled_cancellable_set.clear();
+			for (const auto& entry : cset)
+				entry->position.reset();
+			// Entries that got cancelled since we decided to exit
+			auto pushed = std::move(m_pushed);
+			m_pushed = {};
 			lck.unlock();
+			while (!pushed.empty()) {
+				auto entry = std::move(pushed.front());
+				pushed.pop();
+				if (entry) {
+					try {
+						entry();
+					} catch (...) { std::terminate(); }
+				}
+			}
 			for (const auto& entry : set) {
 				if (entry.invokable) {
 					try {
@@ -354,15 +389,13 @@ namespace asyncpp {
 				}
 			}
 			for (const auto& entry : cset) {
-				if (entry.invokable) {
+				entry->cancel_token.reset();
+				if (entry->invokable) {
 					try {
-						entry.invokable(false);
+						entry->invokable(false);
 					} catch (...) { std::terminate(); }
 				}
 			}
-			lck.lock();
-			m_scheduled_set.clear();
-			m_scheduled_cancellable_set.clear();
 		}
 	};
 
-- 
2.43.0


From 38411ea61b9707e1f8d43ac6a7ff89aea53e0a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:40 +0000
Subject: [PATCH 30/68] fix: timer destroyed callbacks with its lock held

---
 include/asyncpp/timer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index 8a7ac4e..c471c77 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -322,6 +322,8 @@ namespace asyncpp {
 						try {
 							entry();
 						} catch (...) { std::terminate(); }
+						// Destroying the callback might use the timer, so do it without the lock
+						entry = nullptr;
 						lck.lock();
 					}
 				}
@@ -335,6 +337,7 @@ namespace asyncpp {
 						try {
 							handle.value().invokable(true);
 						} catch (...) { std::terminate(); }
+						handle.value().invokable = nullptr;
 						lck.lock();
 					}
 				}
@@ -349,6 +352,7 @@ namespace asyncpp {
 							entry->invokable(true);
 						} catch (...) { std::terminate(); }
 					}
+					entry.reset();
 					lck.lock();
 				}
 				now = std::chrono::steady_clock::now();
-- 
2.43.0


From 5d90ca6a5ddea328cb14b14441a6302112a1b7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:31 +0000
Subject: [PATCH 31/68] fix: exception_policy::ignore ignores the exception

---
 include/asyncpp/policy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/policy.h b/include/asyncpp/policy.h
index 74d4519..aa84ccb 100644
--- a/include/asyncpp/policy.h
+++ b/include/asyncpp/policy.h
@@ -25,5 +25,5 @@ namespace asyncpp {
 		static exception_policy handle(std::function<void()> cbfn) { return exception_policy{std::move(cbfn)}; }
 	};
 	inline const exception_policy exception_policy::terminate = {[]() { std::terminate(); }};
-	inline const exception_policy exception_policy::ignore = {};
+	inline const exception_policy exception_policy::ignore = {[]() noexcept {}};
 } // namespace asyncpp
-- 
2.43.0


From 306dd4dd370efa63f4f07f6a864407fe5498a2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:47 +0000
Subject: [PATCH 32/68] fix: fire_and_forget_task drops its reference only
 after it is suspended

---
 include/asyncpp/fire_and_forget.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/fire_and_forget.h b/include/asyncpp/fire_and_forget.h
index fd93659..2d64565 100644
--- a/include/asyncpp/fire_and_forget.h
+++ b/include/asyncpp/fire_and_forget.h
@@ -44,10 +44,12 @@ namespace asyncpp {
 				auto final_suspend() noexcept {
 					struct awaiter {
 						promise_type* self;
-						[[nodiscard]] constexpr bool await_ready() const noexcept {
-							return self->m_ref_count.fetch_sub(1) == 1;
+						[[nodiscard]] constexpr bool await_ready() const noexcept { return false; }
+						// The reference may only be dropped once the coroutine is suspended, because the
+						// last handle (maybe on another thread) destroys the frame right afterwards.
+						[[nodiscard]] bool await_suspend(coroutine_handle<>) const noexcept {
+							return self->m_ref_count.fetch_sub(1) != 1;
 						}
-						void await_suspend(coroutine_handle<>) const noexcept {}
 						constexpr void await_resume() const noexcept {}
 					};
 					return awaiter{this};
-- 
2.43.0


From 14fa2588c9c0bf5e1674b67b8e47fbcb2b6b8504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:05 +0000
Subject: [PATCH 33/68] fix: fire_and_forget_task starts only once even if the
 handle was copied

---
 include/asyncpp/fire_and_forget.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/asyncpp/fire_and_forget.h b/include/asyncpp/fire_and_forget.h
index 2d64565..348b95e 100644
--- a/include/asyncpp/fire_and_forget.h
+++ b/include/asyncpp/fire_and_forget.h
@@ -23,6 +23,7 @@ namespace asyncpp {
 			// Promise type of this task
 			class promise_type : public promise_allocator_base<Allocator> {
 				std::atomic<size_t> m_ref_count{1};
+				std::atomic<bool> m_started{false};
 				std::function<void()> m_exception_handler{};
 
 			public:
@@ -75,6 +76,8 @@ namespace asyncpp {
 					if (m_ref_count.fetch_sub(1) == 1) coroutine_handle<promise_type>::from_promise(*this).destroy();
 				}
 				void ref() noexcept { m_ref_count.fetch_add(1); }
+				/// \brief Mark the coroutine as started. Returns true only for the first call.
+				[[nodiscard]] bool try_start() noexcept { return !m_started.exchange(true); }
 			};
 
 			/// \brief Construct from a handle
@@ -112,11 +115,11 @@ namespace asyncpp {
 			void start() noexcept
 				requires(!Eager)
 			{
-				if (m_coro && !m_coro.done()) {
-					m_coro.resume();
-					// Make sure it is only started once
-					m_coro.promise().unref();
-					m_coro = nullptr;
+				// The coroutine might destroy this handle, so we can not touch it afterwards
+				if (auto coro = std::exchange(m_coro, {}); coro) {
+					// Make sure it is only started once, even if there are multiple copies of the handle
+					if (coro.promise().try_start()) coro.resume();
+					coro.promise().unref();
 				}
 			}
 
-- 
2.43.0


From 2ddbc8f3846429a624898350c78b419fffe75ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:52 +0000
Subject: [PATCH 34/68] fix: async_launch_scope::join could be resumed twice or
 touch a destroyed scope

---
 include/asyncpp/launch.h | 72 +++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 37 deletions(-)

diff --git a/include/asyncpp/launch.h b/include/asyncpp/launch.h
index 5cc02b2..c21b717 100644
--- a/include/asyncpp/launch.h
+++ b/include/asyncpp/launch.h
@@ -49,14 +49,27 @@ namespace asyncpp {
 	 * \brief Holder class for spawning child tasks. Allows waiting for all of them to finish.
 	 */
 	class async_launch_scope {
-		std::atomic<size_t> m_count{0U};
+		// Twice the number of active tasks, plus one if m_continuation waits for the last of them.
+		// Both are part of a single value to make sure exactly one side resumes the continuation.
+		std::atomic<size_t> m_state{0U};
 		std::atomic<void*> m_continuation{nullptr};
 
+		void task_started() noexcept { m_state.fetch_add(2); }
+		void task_finished() noexcept {
+			size_t state = m_state.load();
+			// If this is the last task (and we are being awaited) it leaves the scope without tasks and awaiter.
+			while (!m_state.compare_exchange_weak(state, state == 3 ? 0 : state - 2)) {}
+			// If we are not being awaited the scope might already be gone by now
+			if (state != 3) return;
+			// Resume the awaiter
+			coroutine_handle<>::from_address(m_continuation.exchange(nullptr)).resume();
+		}
+
 	public:
 		constexpr async_launch_scope() noexcept = default;
 		async_launch_scope(const async_launch_scope&) = delete;
 		async_launch_scope& operator=(const async_launch_scope&) = delete;
-		~async_launch_scope() { assert(m_count.load() == 0); }
+		~async_launch_scope() { assert(m_state.load() == 0); }
 
 		/**
 		 * \brief Spawn a new task for the given awaitable.
@@ -67,16 +80,8 @@ namespace asyncpp {
 		void launch(Awaitable&& awaitable, const Allocator& allocator = {}) {
 			[](async_launch_scope* scope, std::decay_t<Awaitable> awaitable,
 			   const Allocator&) -> detail::launch_task<Allocator> {
-				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope->task_started();
+				scope_guard guard{[scope]() noexcept { scope->task_finished(); }};
 				co_await awaitable;
 			}(this, std::forward<decltype(awaitable)>(awaitable), allocator);
 		}
@@ -93,16 +98,8 @@ namespace asyncpp {
 		void invoke_tuple(Callable&& callable, std::tuple<Args...>&& args, const Allocator& allocator = {}) {
 			[](async_launch_scope* scope, Callable callable, std::tuple<Args...>&& args,
 			   const Allocator&) -> detail::launch_task<Allocator> {
-				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope->task_started();
+				scope_guard guard{[scope]() noexcept { scope->task_finished(); }};
 				co_await std::apply(callable, std::move(args));
 			}(this, std::forward<Callable>(callable), std::move(args), allocator);
 		}
@@ -118,16 +115,8 @@ namespace asyncpp {
 			requires(std::is_invocable_v<Callable, Args...>)
 		void invoke(Callable&& callable, Args&&... args) {
 			[](async_launch_scope* scope, Callable callable, Args&&... args) -> detail::launch_task<> {
-				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope->task_started();
+				scope_guard guard{[scope]() noexcept { scope->task_finished(); }};
 				co_await std::invoke(callable, std::forward<Args>(args)...);
 			}(this, std::forward<Callable>(callable), std::forward<Args>(args)...);
 		}
@@ -141,15 +130,24 @@ namespace asyncpp {
 				async_launch_scope* m_scope;
 				[[nodiscard]] bool await_ready() const noexcept {
 					// Dont wait if theres nothing to await
-					return m_scope->m_count.load() == 0;
+					return m_scope->m_state.load() == 0;
 				}
 				[[nodiscard]] bool await_suspend(coroutine_handle<> hdl) const {
 					// Set our coroutine if there is noone waiting
+					auto const scope = m_scope;
 					void* expected = nullptr;
-					if (!m_scope->m_continuation.compare_exchange_strong(expected, hdl.address()))
+					if (!scope->m_continuation.compare_exchange_strong(expected, hdl.address()))
 						throw std::logic_error("duplicate join");
-					// We might have nothing left to wait on if the last coroutine finished in the meantime
-					return m_scope->m_count.load() != 0;
+					size_t state = scope->m_state.load();
+					do {
+						// We might have nothing left to wait on if the last coroutine finished in the meantime
+						if (state == 0) {
+							scope->m_continuation.store(nullptr);
+							return false;
+						}
+					} while (!scope->m_state.compare_exchange_weak(state, state | 1U));
+					// From here on the last task resumes us, maybe before we return
+					return true;
 				}
 				constexpr void await_resume() const noexcept {}
 			};
@@ -178,7 +176,7 @@ namespace asyncpp {
 		 * \brief Returns the number of active task on this scope
 		 * \warning Only use this value for informational purposes, it might change at any time.
 		 */
-		[[nodiscard]] size_t inflight_coroutines() const noexcept { return m_count.load(std::memory_order::relaxed); }
+		[[nodiscard]] size_t inflight_coroutines() const noexcept { return m_state.load(std::memory_order::relaxed) / 2; }
 
 		/**
 		 * \brief Returns true if there is no active task currently running on this scope
-- 
2.43.0


From 47ca78bf42e31bbec942d9f30beb3968f19509fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:57 +0000
Subject: [PATCH 35/68] fix: async_launch_scope::invoke copies lvalue callables
 into the task

---
 include/asyncpp/launch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/launch.h b/include/asyncpp/launch.h
index c21b717..194d369 100644
--- a/include/asyncpp/launch.h
+++ b/include/asyncpp/launch.h
@@ -96,7 +96,7 @@ namespace asyncpp {
 		template<typename Callable, typename... Args, ByteAllocator Allocator = default_allocator_type>
 			requires(std::is_invocable_v<Callable, Args...>)
 		void invoke_tuple(Callable&& callable, std::tuple<Args...>&& args, const Allocator& allocator = {}) {
-			[](async_launch_scope* scope, Callable callable, std::tuple<Args...>&& args,
+			[](async_launch_scope* scope, std::decay_t<Callable> callable, std::tuple<Args...>&& args,
 			   const Allocator&) -> detail::launch_task<Allocator> {
 				scope->task_started();
 				scope_guard guard{[scope]() noexcept { scope->task_finished(); }};
@@ -114,7 +114,7 @@ namespace asyncpp {
 		template<typename Callable, typename... Args>
 			requires(std::is_invocable_v<Callable, Args...>)
 		void invoke(Callable&& callable, Args&&... args) {
-			[](async_launch_scope* scope, Callable callable, Args&&... args) -> detail::launch_task<> {
+			[](async_launch_scope* scope, std::decay_t<Callable> callable, Args&&... args) -> detail::launch_task<> {
 				scope->task_started();
 				scope_guard guard{[scope]() noexcept { scope->task_finished(); }};
 				co_await std::invoke(callable, std::forward<Args>(args)...);
-- 
2.43.0


From 77ba364b673cb7189d8966d99b83bea81307936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:12 +0000
Subject: [PATCH 36/68] fix: generator of references did not compile

---
 include/asyncpp/generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/generator.h b/include/asyncpp/generator.h
index 7f94e89..4b0818f 100644
--- a/include/asyncpp/generator.h
+++ b/include/asyncpp/generator.h
@@ -51,7 +51,7 @@ namespace asyncpp {
 			suspend_never await_transform(U&& value) = delete;
 
 		private:
-			T* m_value{nullptr};
+			pointer_type m_value{nullptr};
 			std::exception_ptr m_exception{nullptr};
 		};
 
-- 
2.43.0


From 4f6596dc434b3652ca95feb1584352a27b09cec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:21 +0000
Subject: [PATCH 37/68] fix: async_generator of references did not compile

---
 include/asyncpp/async_generator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/asyncpp/async_generator.h b/include/asyncpp/async_generator.h
index 698ded6..e0acd9a 100644
--- a/include/asyncpp/async_generator.h
+++ b/include/asyncpp/async_generator.h
@@ -45,7 +45,7 @@ namespace asyncpp {
 			void rethrow_if_unhandled_exception() {
 				if (m_exception) { std::rethrow_exception(std::move(m_exception)); }
 			}
-			[[nodiscard]] T* value() const noexcept { return m_value; }
+			[[nodiscard]] std::remove_reference_t<T>* value() const noexcept { return m_value; }
 
 		protected:
 			[[nodiscard]] async_generator_yield_operation internal_yield_value() noexcept {
@@ -62,7 +62,7 @@ namespace asyncpp {
 			coroutine_handle<> m_consumer;
 
 		protected:
-			T* m_value;
+			std::remove_reference_t<T>* m_value;
 		};
 
 		template<typename T, ByteAllocator Allocator>
@@ -85,7 +85,7 @@ namespace asyncpp {
 		};
 
 		template<typename T, ByteAllocator Allocator>
-		class async_generator_promise<T&&, Allocator> final : public async_generator_promise_base<T>,
+		class async_generator_promise<T&&, Allocator> final : public async_generator_promise_base<T&&>,
 															  public promise_allocator_base<Allocator> {
 		public:
 			async_generator_promise() noexcept = default;
@@ -135,7 +135,7 @@ namespace asyncpp {
 				};
 				return increment_op{*this};
 			}
-			[[nodiscard]] reference operator*() const noexcept { return *static_cast<T*>(m_promise->value()); }
+			[[nodiscard]] reference operator*() const noexcept { return *m_promise->value(); }
 			[[nodiscard]] bool operator==(const async_generator_iterator& other) const noexcept {
 				return m_promise == other.m_promise;
 			}
-- 
2.43.0


From 5fcd8dcf8b58565289a8ad69029d1f628c4a431a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:56 +0000
Subject: [PATCH 38/68] fix: threadsafe_queue can be copied and copy assigned
 from a const queue

---
 include/asyncpp/threadsafe_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/threadsafe_queue.h b/include/asyncpp/threadsafe_queue.h
index 3244203..8ae49cd 100644
--- a/include/asyncpp/threadsafe_queue.h
+++ b/include/asyncpp/threadsafe_queue.h
@@ -14,7 +14,7 @@ namespace asyncpp {
 	 */
 	template<typename T, typename Container = std::deque<T>>
 	class threadsafe_queue {
-		std::mutex m_mutex{};
+		mutable std::mutex m_mutex{};
 		std::queue<T, Container> m_queue{};
 
 	public:
-- 
2.43.0


From bff9ab30fe04daf315383cf54e5fe0bb8fe9a787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:58 +0000
Subject: [PATCH 39/68] fix: copying a non-const threadsafe_queue selects the
 copy constructor

---
 include/asyncpp/threadsafe_queue.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/threadsafe_queue.h b/include/asyncpp/threadsafe_queue.h
index 8ae49cd..b8c9ce4 100644
--- a/include/asyncpp/threadsafe_queue.h
+++ b/include/asyncpp/threadsafe_queue.h
@@ -3,6 +3,7 @@
 #include <mutex>
 #include <optional>
 #include <queue>
+#include <type_traits>
 #include <utility>
 
 namespace asyncpp {
@@ -23,7 +24,9 @@ namespace asyncpp {
 		* \param args Arguments to forward to the container constructor
 		*/
 		template<typename... Args>
-		explicit threadsafe_queue(Args&&... args) : m_queue(std::forward<Args>(args)...) {}
+		explicit threadsafe_queue(Args&&... args)
+			requires(!(std::is_same_v<std::remove_cvref_t<Args>, threadsafe_queue> || ...))
+			: m_queue(std::forward<Args>(args)...) {}
 
 		threadsafe_queue(const threadsafe_queue& other) {
 			std::scoped_lock lck{other.m_mutex};
-- 
2.43.0


From 8c8311dadfed7b7d5eefb82cc0a7e6bdec9b6e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:31 +0000
Subject: [PATCH 40/68] fix: a fiber can await an awaiter that is an lvalue

---
 include/asyncpp/fiber.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 5e84505..5f4b3b5 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -849,15 +849,16 @@ namespace asyncpp::detail {
 			assert(__builtin_frame_address(0) <
 				   (static_cast<uint8_t*>(hndl->fiber_stack.mmap_base) + hndl->fiber_stack.mmap_size));
 #endif
+			using Awaiter = std::remove_reference_t<T>;
 			using AwaitResult = decltype(awaiter.await_suspend(std::declval<coroutine_handle<>>()));
 			hndl->suspend_handler = [](void* ptr, coroutine_handle<> hndl) {
 				if constexpr (std::is_same_v<AwaitResult, void>) {
-					static_cast<T*>(ptr)->await_suspend(hndl);
+					static_cast<Awaiter*>(ptr)->await_suspend(hndl);
 					return true;
 				} else if constexpr (std::is_same_v<AwaitResult, bool>) {
-					return static_cast<T*>(ptr)->await_suspend(hndl);
+					return static_cast<Awaiter*>(ptr)->await_suspend(hndl);
 				} else { // Treat everything else as a coroutine_handle to resume
-					static_cast<T*>(ptr)->await_suspend(hndl).resume();
+					static_cast<Awaiter*>(ptr)->await_suspend(hndl).resume();
 					return true;
 				}
 			};
-- 
2.43.0


From 499f232050785487b32264cc85543cd98ab49dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:54 +0000
Subject: [PATCH 41/68] fix: awaiting an rvalue fiber moves the result out

---
 include/asyncpp/fiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 5f4b3b5..075212a 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -1083,7 +1083,7 @@ namespace asyncpp {
 		 * \brief Get an awaitable for this fiber.
 		 * \return auto An awaiter that is resumed once the fiber finishes
 		 */
-		auto operator co_await() && { return await(); }
+		auto operator co_await() && { return std::move(*this).await(); }
 	};
 
 	template<typename FN>
-- 
2.43.0


From d057ce1576f3faa2834dff86e51817cece8e3981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:00 +0000
Subject: [PATCH 42/68] fix: fibers with a result accept mutable callables

---
 include/asyncpp/fiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 075212a..2889417 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -1003,7 +1003,7 @@ namespace asyncpp {
 		explicit fiber(FN&& function, size_t stack_size = 262144)
 			requires(!std::is_same_v<FN, fiber>)
 			: m_result(std::make_unique<std::optional<TReturn>>()),
-			  m_base([function = std::forward<FN>(function), res = m_result.get()]() { res->emplace(function()); },
+			  m_base([function = std::forward<FN>(function), res = m_result.get()]() mutable { res->emplace(function()); },
 					 stack_size) {}
 		/// \brief Construct an empty fiber handle
 		constexpr fiber() noexcept = default;
-- 
2.43.0


From 71efbe8bb91c7555786048cb17bd8d294343a5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 43/68] fix: do not touch a fiber after it was handed to its
 awaiter

---
 include/asyncpp/fiber.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 2889417..0772296 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -754,7 +754,11 @@ namespace asyncpp::detail {
 					auto handler = std::exchange(hndl->suspend_handler, nullptr);
 					auto ptr = std::exchange(hndl->suspend_handler_ptr, nullptr);
 					try {
-						if (handler(ptr, coroutine_handle<>::from_address(static_cast<void*>(hndl)))) break;
+						if (handler(ptr, coroutine_handle<>::from_address(static_cast<void*>(hndl)))) {
+							// The fiber might have been resumed already, possibly on a different thread, or even be gone
+							g_current_fiber = old;
+							return;
+						}
 					} catch (...) { hndl->suspend_exception = std::current_exception(); }
 				}
 			}
-- 
2.43.0


From a787b0dc7855ce25e66d64e9f878968a37fc650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 44/68] fix: destroying a suspended fiber does not resume the
 coroutine awaiting it

---
 include/asyncpp/fiber.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 0772296..81ec4e4 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -769,6 +769,8 @@ namespace asyncpp::detail {
 			// Signal destruction and resume, then delete self
 			if (hndl->resume_cb != nullptr && hndl->was_started) {
 				hndl->want_destroy = true;
+				// Whoever awaited the fiber gets no result and might be the one destroying us
+				hndl->continuation = nullptr;
 				hndl->resume_cb(hndl);
 				assert(hndl->resume_cb == nullptr);
 			}
-- 
2.43.0


From 9376d03446b1a892d0e9bb5062b0bc8903d96e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 45/68] fix: fibers own a copy of callables passed as lvalue

---
 include/asyncpp/fiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 81ec4e4..c8eb062 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -723,7 +723,7 @@ namespace asyncpp::detail {
 	template<typename FN>
 	static coroutine_handle<> make_fiber_handle(size_t stack_size, FN&& cbfn) {
 		struct handle : fiber_handle_base {
-			FN function;
+			std::decay_t<FN> function;
 			explicit handle(FN&& cbfn) : function(std::forward<FN>(cbfn)) {}
 		};
 
-- 
2.43.0


From 55b96a6eda45afca2cf95ecba9c873ab2e6c9ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 46/68] fix: fibers start with a valid floating point
 environment on x86

---
 include/asyncpp/fiber.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index c8eb062..e7e5487 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -155,6 +155,9 @@ namespace asyncpp::detail {
 		auto frame = reinterpret_cast<stack_frame*>(sp);
 		frame->ret_addr = reinterpret_cast<uintptr_t>(entry_fn);
 		frame->param = reinterpret_cast<uintptr_t>(arg);
+		// The fiber starts with the floating point environment of its creator
+		//NOLINTNEXTLINE(hicpp-no-assembler)
+		asm("stmxcsr %0\nfnstcw %1\n" : "=m"(frame->mmx_cw), "=m"(frame->x87_cw));
 		assert((reinterpret_cast<uintptr_t>(sp) % 16) == 0xc);
 #elif defined(__x86_64__)
 		// The restore code adds 72 byte and ret another 8. Since we want
@@ -183,6 +186,9 @@ namespace asyncpp::detail {
 		auto frame = reinterpret_cast<stack_frame*>(sp);
 		frame->ret_addr = reinterpret_cast<uintptr_t>(entry_fn);
 		frame->param = reinterpret_cast<uintptr_t>(arg);
+		// The fiber starts with the floating point environment of its creator
+		//NOLINTNEXTLINE(hicpp-no-assembler)
+		asm("stmxcsr %0\nfnstcw %1\n" : "=m"(frame->mmx_cw), "=m"(frame->x87_cw));
 #elif defined(__arm__)
 		// Stack needs to be 64bit aligned for vstmia
 		sp -= 16;
-- 
2.43.0


From ab3ae8ef25ed454e0843ef8fbb2b82098f4559d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:44 +0000
Subject: [PATCH 47/68] fix: move assigning a stop_source gives up the old
 state

---
 include/asyncpp/stop_token.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/stop_token.h b/include/asyncpp/stop_token.h
index a38a46c..8f1ea3b 100644
--- a/include/asyncpp/stop_token.h
+++ b/include/asyncpp/stop_token.h
@@ -305,7 +305,11 @@ namespace asyncpp {
 			return *this;
 		}
 
-		stop_source& operator=(stop_source&&) noexcept = default;
+		stop_source& operator=(stop_source&& other) noexcept {
+			// Assigning the state alone would leak our part of the source counter
+			stop_source(std::move(other)).swap(*this);
+			return *this;
+		}
 
 		~stop_source() {
 			if (m_state) m_state->sub_ssrc();
-- 
2.43.0


From 34d0fcfac08ebad637f7da2c4b41f8a554bcb554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 48/68] fix: align coroutine frames allocated by a stateful
 allocator

---
 .../asyncpp/detail/promise_allocator_base.h   | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/asyncpp/detail/promise_allocator_base.h b/include/asyncpp/detail/promise_allocator_base.h
index 66939c0..12bb10e 100644
--- a/include/asyncpp/detail/promise_allocator_base.h
+++ b/include/asyncpp/detail/promise_allocator_base.h
@@ -2,7 +2,10 @@
 #include <asyncpp/detail/concepts.h>
 #include <asyncpp/detail/parameter_pack.h>
 #include <asyncpp/detail/std_import.h>
+#include <cstddef>
+#include <new>
 #include <type_traits>
+#include <utility>
 
 namespace asyncpp {
 #ifndef ASYNCPP_DEFAULT_ALLOCATOR
@@ -15,6 +18,11 @@ namespace asyncpp {
 namespace asyncpp::detail {
 	template<ByteAllocator Allocator>
 	class promise_allocator_base {
+		// A statefull allocator is stored behind the frame, to not disturb the alignment of the frame itself
+		static constexpr size_t allocator_offset(size_t size) noexcept {
+			return (size + alignof(allocator_type) - 1) / alignof(allocator_type) * alignof(allocator_type);
+		}
+
 	public:
 		using allocator_type = Allocator;
 
@@ -29,9 +37,11 @@ namespace asyncpp::detail {
 				static_assert(std::is_convertible_v<std::remove_cvref_t<decltype(alloc)>&, allocator_type> ||
 								  std::is_constructible_v<allocator_type, decltype(alloc)>,
 							  "last argument is not of allocator type");
-				auto ptr = std::allocator_traits<allocator_type>::allocate(alloc, size + sizeof(allocator_type));
-				auto aptr = new (ptr) allocator_type{std::move(alloc)};
-				return aptr + 1;
+				auto const offset = allocator_offset(size);
+				std::byte* const ptr =
+					std::allocator_traits<allocator_type>::allocate(alloc, offset + sizeof(allocator_type));
+				new (ptr + offset) allocator_type{std::move(alloc)};
+				return ptr;
 			}
 		}
 		void operator delete(void* ptr, size_t size) {
@@ -40,10 +50,12 @@ namespace asyncpp::detail {
 				allocator_type alloc{};
 				std::allocator_traits<allocator_type>::deallocate(alloc, static_cast<std::byte*>(ptr), size);
 			} else {
-				allocator_type* info = static_cast<allocator_type*>(ptr) - 1;
+				auto const offset = allocator_offset(size);
+				auto const info =
+					std::launder(reinterpret_cast<allocator_type*>(static_cast<std::byte*>(ptr) + offset));
 				auto alloc = std::move(*info);
-				std::allocator_traits<allocator_type>::deallocate(
-					alloc, static_cast<std::byte*>(static_cast<void*>(info)), size + sizeof(Allocator));
+				std::allocator_traits<allocator_type>::deallocate(alloc, static_cast<std::byte*>(ptr),
+																  offset + sizeof(allocator_type));
 			}
 		}
 	};
-- 
2.43.0


From 8a7f71d63c8c4a2e059e3d20bc8b6b725714eb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 49/68] fix: destroy the allocator stored with a coroutine
 frame

---
 include/asyncpp/detail/promise_allocator_base.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/detail/promise_allocator_base.h b/include/asyncpp/detail/promise_allocator_base.h
index 12bb10e..bd3bb22 100644
--- a/include/asyncpp/detail/promise_allocator_base.h
+++ b/include/asyncpp/detail/promise_allocator_base.h
@@ -54,6 +54,7 @@ namespace asyncpp::detail {
 				auto const info =
 					std::launder(reinterpret_cast<allocator_type*>(static_cast<std::byte*>(ptr) + offset));
 				auto alloc = std::move(*info);
+				info->~allocator_type();
 				std::allocator_traits<allocator_type>::deallocate(alloc, static_cast<std::byte*>(ptr),
 																  offset + sizeof(allocator_type));
 			}
-- 
2.43.0


From a4573648c919021f5fda117291b038aabd1163dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:00 +0000
Subject: [PATCH 50/68] fix: keep the promise state alive while notifying its
 observers

---
 include/asyncpp/promise.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 278495f..b3e64a7 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -31,6 +31,8 @@ namespace asyncpp {
 			std::vector<std::function<void(const TError&)>> m_on_reject{};
 
 			bool try_fulfill(auto&& value) {
+				// An observer might drop the last handle while others still need to be notified
+				const ref<promise_state> keep_alive{this};
 				std::unique_lock lck{m_mtx};
 				if (m_value.index() != pending_index) return false;
 				try {
@@ -62,6 +64,8 @@ namespace asyncpp {
 			}
 
 			bool try_reject(auto&& value) {
+				// An observer might drop the last handle while others still need to be notified
+				const ref<promise_state> keep_alive{this};
 				std::unique_lock lck{m_mtx};
 				if (m_value.index() != pending_index) return false;
 				m_value.template emplace<rejected_index>(std::forward<decltype(value)>(value));
-- 
2.43.0


From cac11043109d2360425de6aa1ca5e376f073b2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:56 +0000
Subject: [PATCH 51/68] fix: do not access the channel after resuming
 coroutines in close()

---
 include/asyncpp/channel.h | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index 825f9d3..113f97f 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -191,12 +191,17 @@ namespace asyncpp {
 		if (m_closed.load(std::memory_order::relaxed)) return;
 		std::unique_lock lck{m_mtx};
 		if (!m_closed.exchange(true)) {
-			// This is the first close, so cancel all waiting awaiters
-			while (m_reader_list != nullptr) {
-				auto rdr = m_reader_list;
-				m_reader_list = rdr->m_next;
-				// We do not need to unlock, because all further attempts to access this
-				// cannel will get refused.
+			// This is the first close, so cancel all waiting awaiters. All further attempts to access this
+			// channel will get refused, so the lists do not change anymore. The channel is not accessed after
+			// unlocking, because a resumed coroutine might destroy it.
+			auto readers = m_reader_list;
+			auto writers = m_writer_list;
+			m_reader_list = nullptr;
+			m_writer_list = nullptr;
+			lck.unlock();
+			while (readers != nullptr) {
+				auto rdr = readers;
+				readers = rdr->m_next;
 				rdr->m_result.reset();
 				// Resume reader
 				if (rdr->m_dispatcher != nullptr)
@@ -204,13 +209,11 @@ namespace asyncpp {
 				else
 					rdr->m_handle.resume();
 			}
-			while (m_writer_list != nullptr) {
-				auto wrt = m_writer_list;
-				m_writer_list = wrt->m_next;
-				// We do not need to unlock, because all further attempts to access this
-				// cannel will get refused.
+			while (writers != nullptr) {
+				auto wrt = writers;
+				writers = wrt->m_next;
 				wrt->m_result = false;
-				// Resume reader
+				// Resume writer
 				if (wrt->m_dispatcher != nullptr)
 					wrt->m_dispatcher->push([wrt]() { wrt->m_handle.resume(); });
 				else
-- 
2.43.0


From 252ed3da48d9a046401c758f22a08a04705cce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 52/68] fix: promise destroys callbacks of the other outcome
 without its lock

---
 include/asyncpp/promise.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index b3e64a7..0077c8d 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -45,6 +45,8 @@ namespace asyncpp {
 				m_cv.notify_all();
 				auto settle_cbs = std::move(m_on_settle);
 				auto fulfill_cbs = std::move(m_on_fulfill);
+				// Not called, but might own something that uses the promise when it is destroyed
+				auto const reject_cbs = std::move(m_on_reject);
 				m_on_settle.clear();
 				m_on_fulfill.clear();
 				m_on_reject.clear();
@@ -72,6 +74,8 @@ namespace asyncpp {
 				m_cv.notify_all();
 				auto settle_cbs = std::move(m_on_settle);
 				auto reject_cbs = std::move(m_on_reject);
+				// Not called, but might own something that uses the promise when it is destroyed
+				auto const fulfill_cbs = std::move(m_on_fulfill);
 				m_on_settle.clear();
 				m_on_fulfill.clear();
 				m_on_reject.clear();
-- 
2.43.0


From 7fa79872669d04077e04ec708f7545087e1bd8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 53/68] fix: queue drops items without its lock

---
 include/asyncpp/queue.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index 57e4f31..770742f 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -173,8 +173,11 @@ namespace asyncpp {
 	inline queue<T, TContainer>& queue<T, TContainer>::operator=(queue&& other) noexcept {
 		pop_awaiter* old_pop = nullptr;
 		push_awaiter* old_push = nullptr;
+		// Items might use the queue when they are destroyed, so drop them without the lock
+		decltype(m_queue) old_items{};
 		{
 			std::scoped_lock lck(m_mtx, other.m_mtx);
+			std::swap(m_queue, old_items);
 			m_queue = std::move(other.m_queue);
 			m_max_size = other.m_max_size;
 			m_dispatcher = other.m_dispatcher;
@@ -305,9 +308,10 @@ namespace asyncpp {
 
 	template<typename T, typename TContainer>
 	inline void queue<T, TContainer>::clear() {
+		// Items might use the queue when they are destroyed, so drop them without the lock
+		decltype(m_queue) old_items{};
 		std::unique_lock lck{m_mtx};
-		while (!m_queue.empty())
-			m_queue.pop();
+		std::swap(m_queue, old_items);
 		// Check if there is someone waiting in push
 		auto push_list = m_push_list;
 		m_push_list = nullptr;
-- 
2.43.0


From 13613eea1a2281c8a1e4b9b63e4aa68194ba2b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 54/68] fix: restore the stack guard of a fiber to the right
 TLS slot on x86-64

---
 include/asyncpp/fiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index e7e5487..6fdd9db 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -367,7 +367,7 @@ namespace asyncpp::detail {
 			"fldcw   0x4(%rsp)\n" // Restore x87 control-word
 #ifdef SAVE_TLS_STACK_PROTECTOR
 			"movq 0x8(%rsp), %rcx\n" // Restore stack guard to TLS record
-			"movq %rcx, %fs:28\n"
+			"movq %rcx, %fs:0x28\n"
 #endif
 			// Restore callee saved registers
 			"movq  0x10(%rsp), %r12\n"
-- 
2.43.0


From ea0ac63da520b9ff907d976f5fd9c2f49eca76f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 55/68] fix: channel lost the waiting counterpart when moving
 the value threw

---
 include/asyncpp/channel.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index 113f97f..dc14bb6 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -144,11 +144,11 @@ namespace asyncpp {
 		std::unique_lock lck{m_mtx};
 		// Check if there is a writer waiting
 		if (auto wrt = m_writer_list; wrt != nullptr && !m_closed.load(std::memory_order::relaxed)) {
+			// Take the value out first, if moving it throws the writer keeps waiting
+			std::optional<T> res = std::move(wrt->m_value);
 			// Unhook writer
 			m_writer_list = wrt->m_next;
 			lck.unlock();
-			// Take the value out
-			std::optional<T> res = std::move(wrt->m_value);
 			wrt->m_result = true;
 			// Resume writer
 			if (wrt->m_dispatcher != nullptr)
@@ -171,11 +171,11 @@ namespace asyncpp {
 		std::unique_lock lck{m_mtx};
 		// Check if there is a reader waiting
 		if (auto rdr = m_reader_list; rdr != nullptr && !m_closed.load(std::memory_order::relaxed)) {
+			// Hand over the value first, if moving it throws the reader keeps waiting
+			rdr->m_result = std::move(value);
 			// Unhook reader
 			m_reader_list = rdr->m_next;
 			lck.unlock();
-			// Take the value out
-			rdr->m_result = std::move(value);
 			// Resume writer
 			if (rdr->m_dispatcher != nullptr)
 				rdr->m_dispatcher->push([rdr]() { rdr->m_handle.resume(); });
@@ -236,11 +236,11 @@ namespace asyncpp {
 		if (m_parent->m_closed.load(std::memory_order::relaxed)) return false;
 		// Check if there is a writer waiting
 		if (auto wrt = m_parent->m_writer_list; wrt != nullptr) {
+			// Take the value out first, if moving it throws the writer keeps waiting
+			m_result = std::move(wrt->m_value);
 			// Unhook writer
 			m_parent->m_writer_list = wrt->m_next;
 			lck.unlock();
-			// Take the value out
-			m_result = std::move(wrt->m_value);
 			wrt->m_result = true;
 			// Resume writer
 			if (wrt->m_dispatcher != nullptr)
@@ -281,11 +281,11 @@ namespace asyncpp {
 		if (m_parent->m_closed.load(std::memory_order::relaxed)) return false;
 		// Check if there is a reader waiting
 		if (auto rdr = m_parent->m_reader_list; rdr != nullptr) {
+			// Hand over the value first, if moving it throws the reader keeps waiting
+			rdr->m_result = std::move(m_value);
 			// Unhook reader
 			m_parent->m_reader_list = rdr->m_next;
 			lck.unlock();
-			// Copy the value over
-			rdr->m_result = std::move(m_value);
 			m_result = true;
 			// Resume reader
 			if (rdr->m_dispatcher != nullptr)
-- 
2.43.0


From 70a0c765c718c677be0eefcbb470a945852c4b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 56/68] fix: queue push terminated when moving the value threw

---
 include/asyncpp/queue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index 770742f..182ee07 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -139,7 +139,8 @@ namespace asyncpp {
 		void resume();
 
 	public:
-		explicit push_awaiter(queue* parent, T&& value) noexcept : m_parent(parent), m_value(std::forward<T>(value)) {}
+		explicit push_awaiter(queue* parent, T&& value) noexcept(std::is_nothrow_move_constructible_v<T>)
+			: m_parent(parent), m_value(std::forward<T>(value)) {}
 
 		/**
 		 * \brief Set a different dispatcher to resume this operation on.
-- 
2.43.0


From 8e2fafedfabc34111401e9a84ec579d6c492e938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 57/68] fix: queue lost the waiting counterpart when moving the
 value threw

---
 include/asyncpp/queue.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index 182ee07..03b176e 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -104,7 +104,7 @@ namespace asyncpp {
 		friend class queue<T, TContainer>::push_awaiter;
 		friend class queue<T, TContainer>;
 
-		void resume(T&& value);
+		void resume();
 
 	public:
 		explicit pop_awaiter(queue* parent) noexcept : m_parent(parent) {}
@@ -233,11 +233,13 @@ namespace asyncpp {
 		if (m_queue.size() >= m_max_size) return false;
 		// Check if there is an task waiting in pop
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
+			// Move the value right to the awaiter, if that throws it keeps waiting
+			awaiter->m_result.emplace(std::forward<T>(value));
 			m_pop_list = awaiter->m_next;
 			// There should never be a task waiting in pop with a non empty queue
 			assert(m_queue.empty());
 			lck.unlock();
-			awaiter->resume(std::forward<T>(value));
+			awaiter->resume();
 		} else {
 			// There is noone waiting for the data (yet), so we just queue it
 			m_queue.push(std::forward<T>(value));
@@ -255,11 +257,13 @@ namespace asyncpp {
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
 			// Construct the item first (the same way the container does), as its constructor might throw
 			T value(std::forward<Args>(args)...);
+			// Move the value right to the awaiter, if that throws it keeps waiting
+			awaiter->m_result.emplace(std::move(value));
 			m_pop_list = awaiter->m_next;
 			// There should never be a task waiting in pop with a non empty queue
 			assert(m_queue.empty());
 			lck.unlock();
-			awaiter->resume(std::move(value));
+			awaiter->resume();
 		} else {
 			// There is noone waiting for the data (yet), so we just queue it
 			m_queue.emplace(std::forward<Args>(args)...);
@@ -275,8 +279,8 @@ namespace asyncpp {
 			// A queue without capacity stores nothing, so take the value right from a suspended push
 			auto awaiter = m_push_list;
 			if (awaiter == nullptr) return std::nullopt;
-			m_push_list = awaiter->m_next;
 			std::optional<T> res{std::move(awaiter->m_value)};
+			m_push_list = awaiter->m_next;
 			lck.unlock();
 			awaiter->resume();
 			return res;
@@ -327,11 +331,8 @@ namespace asyncpp {
 	}
 
 	template<typename T, typename TContainer>
-	inline void queue<T, TContainer>::pop_awaiter::resume(T&& value) {
+	inline void queue<T, TContainer>::pop_awaiter::resume() {
 		// NOTE: Because we do not update the m_parent variable in move constructors we can not use it here
-		// Move the value right to this awaiter
-		m_result.emplace(std::forward<T>(value));
-		// And resume
 		if (m_dispatcher != nullptr)
 			m_dispatcher->push([this]() { m_handle.resume(); });
 		else
@@ -344,8 +345,8 @@ namespace asyncpp {
 		if (m_parent->m_queue.empty()) {
 			// A queue without capacity stores nothing, so take the value right from a suspended push
 			if (auto awaiter = m_parent->m_push_list; awaiter != nullptr) {
-				m_parent->m_push_list = awaiter->m_next;
 				m_result.emplace(std::move(awaiter->m_value));
+				m_parent->m_push_list = awaiter->m_next;
 				lck.unlock();
 				awaiter->resume();
 				return true;
@@ -408,9 +409,11 @@ namespace asyncpp {
 		if (m_parent->m_pop_list != nullptr) {
 			assert(m_parent->m_queue.empty());
 			auto awaiter = m_parent->m_pop_list;
+			// Move the value right to the awaiter, if that throws it keeps waiting
+			awaiter->m_result.emplace(std::move(m_value));
 			m_parent->m_pop_list = awaiter->m_next;
 			lck.unlock();
-			awaiter->resume(std::move(m_value));
+			awaiter->resume();
 			return true;
 		}
 		// If there is space in the queue push to it
-- 
2.43.0


From da08c9cb127975b5b544fb42d12408e8a271392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:02 +0000
Subject: [PATCH 58/68] fix: queue lost an item and its producer when storing
 the item of a waiting push failed

---
 include/asyncpp/queue.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index 03b176e..de10f60 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -290,10 +290,15 @@ namespace asyncpp {
 		m_queue.pop();
 		// Check if there is someone waiting in push
 		if (auto awaiter = m_push_list; awaiter != nullptr) {
+			// There is space for its item now
+			assert(m_queue.size() < m_max_size);
+			try {
+				m_queue.push(std::move(awaiter->m_value));
+			} catch (...) {
+				// The item could not be stored, so its task keeps waiting for the next pop
+				return res;
+			}
 			m_push_list = awaiter->m_next;
-			// This can only happen if the queue used to be full
-			assert(m_queue.size() == m_max_size - 1);
-			m_queue.push(std::move(awaiter->m_value));
 			lck.unlock();
 			// Resume the first task waiting to push a value
 			awaiter->resume();
@@ -359,10 +364,15 @@ namespace asyncpp {
 		// Check if there is someone waiting in push
 		auto awaiter = m_parent->m_push_list;
 		if (awaiter != nullptr) {
+			// There is space for its item now
+			assert(m_parent->m_queue.size() < m_parent->m_max_size);
+			try {
+				m_parent->m_queue.push(std::move(awaiter->m_value));
+			} catch (...) {
+				// The item could not be stored, so its task keeps waiting for the next pop
+				return true;
+			}
 			m_parent->m_push_list = awaiter->m_next;
-			// This can only happen if the queue used to be full
-			assert(m_parent->m_queue.size() == m_parent->m_max_size - 1);
-			m_parent->m_queue.push(std::move(awaiter->m_value));
 			lck.unlock();
 			// Resume the first task waiting to push a value
 			awaiter->resume();
-- 
2.43.0


From e34fa4359f82bea50641a054406b4a4f93c1b13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:53 +0000
Subject: [PATCH 59/68] fix: signal handlers could not be connected from
 lvalues

---
 include/asyncpp/signal.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index c510bbf..4ab06b6 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -122,7 +122,8 @@ namespace asyncpp {
 			~node_impl() noexcept = default;
 			void invoke(const TParams&... params) override { m_fn(params...); }
 			[[no_unique_address]] FN m_fn;
-			explicit node_impl(FN&& fncb) : m_fn(std::move(fncb)) {}
+			template<typename F>
+			explicit node_impl(F&& fncb) : m_fn(std::forward<F>(fncb)) {}
 		};
 
 	public:
@@ -347,7 +348,7 @@ namespace asyncpp {
 	template<typename... TParams, typename TTraits>
 	template<typename FN>
 	inline typename signal<void(TParams...), TTraits>::handle signal<void(TParams...), TTraits>::append(FN&& fncb) {
-		ref<node> new_node(new node_impl<FN>(std::forward<decltype(fncb)>(fncb)));
+		ref<node> new_node(new node_impl<std::decay_t<FN>>(std::forward<decltype(fncb)>(fncb)));
 		new_node->counter = get_next_counter();
 		new_node->owner = this;
 		if (std::lock_guard lck{m_mutex}; m_head) {
@@ -364,7 +365,7 @@ namespace asyncpp {
 	template<typename... TParams, typename TTraits>
 	template<typename FN>
 	inline typename signal<void(TParams...), TTraits>::handle signal<void(TParams...), TTraits>::prepend(FN&& fncb) {
-		ref<node> new_node(new node_impl<FN>(std::forward<decltype(fncb)>(fncb)));
+		ref<node> new_node(new node_impl<std::decay_t<FN>>(std::forward<decltype(fncb)>(fncb)));
 		new_node->counter = get_next_counter();
 		new_node->owner = this;
 		if (std::lock_guard lck{m_mutex}; m_head) {
-- 
2.43.0


From 444671dc0d7ba3a1c69e517f1e8610ec0043f3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 60/68] fix: promise kept one of two callbacks when registering
 the other one failed

---
 include/asyncpp/promise.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 0077c8d..fa0def9 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -95,11 +95,21 @@ namespace asyncpp {
 			}
 
 			void then(std::function<void(const T&)> then_cb, std::function<void(const TError&)> catch_cb) {
+				const bool has_catch = static_cast<bool>(catch_cb);
 				std::unique_lock lck{m_mtx};
 				switch (m_value.index()) {
 				case pending_index:
-					if (then_cb) m_on_fulfill.emplace_back(std::move(then_cb));
 					if (catch_cb) m_on_reject.emplace_back(std::move(catch_cb));
+					try {
+						if (then_cb) m_on_fulfill.emplace_back(std::move(then_cb));
+					} catch (...) {
+						// Register either both or none of the callbacks, catch_cb was the last one
+						if (has_catch) {
+							catch_cb = std::move(m_on_reject.back());
+							m_on_reject.pop_back();
+						}
+						throw;
+					}
 					break;
 				case fulfilled_index:
 					lck.unlock();
-- 
2.43.0


From a18b9c79d2ffffcec5fea38320dc211e89079b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 61/68] fix: thread_pool was broken if a new thread could not
 be started

---
 include/asyncpp/thread_pool.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index 4788174..723792f 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -80,12 +80,24 @@ namespace asyncpp {
 				m_threads.resize(target_size);
 			} else if (old < target_size) {
 				m_target_size = target_size;
-				std::unique_lock threads_lck{m_threads_mtx};
-				m_threads.resize(target_size);
-				threads_lck.unlock();
-				// We need some new threads, spawn them with the relevant indexes
-				for (size_t i = old; i < target_size; i++) {
-					m_threads[i] = std::make_unique<thread_state>(this, i);
+				try {
+					std::unique_lock threads_lck{m_threads_mtx};
+					m_threads.resize(target_size);
+					threads_lck.unlock();
+					// We need some new threads, spawn them with the relevant indexes
+					for (size_t i = old; i < target_size; i++) {
+						m_threads[i] = std::make_unique<thread_state>(this, i);
+					}
+				} catch (...) {
+					// Not all of them could be started, stop the others again
+					m_target_size = old;
+					for (size_t i = old; i < m_threads.size() && m_threads[i] != nullptr; i++) {
+						m_threads[i]->cv.notify_all();
+						m_threads[i]->thread.join();
+					}
+					std::unique_lock threads_lck{m_threads_mtx};
+					m_threads.resize(old);
+					throw;
 				}
 				// Allow pushing work to our new threads
 				m_valid_size = target_size;
-- 
2.43.0


From e7a82f8995fca73ff6fd2551827301b71276bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:35 +0000
Subject: [PATCH 62/68] fix: signal move assignment destroyed handlers while
 holding its lock

---
 include/asyncpp/signal.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 4ab06b6..312ad3b 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -298,18 +298,18 @@ namespace asyncpp {
 	//NOLINTNEXTLINE(performance-noexcept-move-constructor)
 	inline signal<void(TParams...), TTraits>& signal<void(TParams...), TTraits>::operator=(signal&& other) {
 		if (this == &other) return *this;
+		// Released after the lock, destroying a handler might use the signal
+		std::vector<ref<node>> removed;
 		std::scoped_lock lck{m_mutex, other.m_mutex};
-		auto node = m_head;
+		for (auto node = m_head; node; node = node->next)
+			removed.push_back(node);
 		m_head.reset();
-		while (node) {
-			auto next = node->next;
+		for (auto& node : removed) {
 			node->counter = detail::signal_removed_counter;
 			node->owner = nullptr;
 			node->previous = nullptr;
 			node->next.reset();
-			node = next;
 		}
-		assert(!node);
 		m_head = std::exchange(other.m_head, nullptr);
 		m_tail = std::exchange(other.m_tail, nullptr);
 		for (auto node = m_head.get(); node; node = node->next.get())
-- 
2.43.0


From e2b46888afb5910843ce7a630f75e7fcb2f30c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:00 +0000
Subject: [PATCH 63/68] fix: mutex_lock changed its state after unlocking the
 mutex

---
 include/asyncpp/mutex.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/asyncpp/mutex.h b/include/asyncpp/mutex.h
index 7e32960..3977bf7 100644
--- a/include/asyncpp/mutex.h
+++ b/include/asyncpp/mutex.h
@@ -5,6 +5,7 @@
 #include <cassert>
 #include <cstdint>
 #include <mutex>
+#include <utility>
 
 namespace asyncpp {
 	class mutex_lock;
@@ -143,11 +144,10 @@ namespace asyncpp {
 			other.m_locked = false;
 		}
 		mutex_lock& operator=(mutex_lock&& other) noexcept {
-			if (m_mtx != nullptr && m_locked) m_mtx->unlock();
-			m_mtx = other.m_mtx;
-			other.m_mtx = nullptr;
-			m_locked = other.m_locked;
-			other.m_locked = false;
+			auto* const old_mtx = std::exchange(m_mtx, std::exchange(other.m_mtx, nullptr));
+			const bool was_locked = std::exchange(m_locked, std::exchange(other.m_locked, false));
+			// Unlocking might resume a coroutine that uses or destroys this lock
+			if (old_mtx != nullptr && was_locked) old_mtx->unlock();
 			return *this;
 		}
 		~mutex_lock() {
@@ -160,8 +160,9 @@ namespace asyncpp {
          */
 		void unlock() noexcept {
 			assert(m_locked);
-			m_mtx->unlock();
+			// Unlocking might resume a coroutine that uses or destroys this lock
 			m_locked = false;
+			m_mtx->unlock();
 		}
 
 		/**
-- 
2.43.0


From f3a458821043f70fcef7b9e22dd0af004fa6f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:00 +0000
Subject: [PATCH 64/68] fix: atomic_ref stayed locked if adding a reference
 threw

---
 include/asyncpp/ref.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index a644c61..3865f8e 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -1,4 +1,6 @@
 #pragma once
+#include <asyncpp/scope_guard.h>
+
 #include <atomic>
 #include <cassert>
 #include <compare>
@@ -350,10 +352,10 @@ namespace asyncpp {
 			auto val = lock();
 			// Get original pointer
 			auto ptr = reinterpret_cast<T*>(val);
+			// Unlock again, even if adding the reference throws
+			const scope_guard unlock{[this, val]() noexcept { unlock_with(val); }};
 			// Add reference
 			if (ptr) refcounted_add_ref(ptr);
-			// Unlock again
-			unlock_with(val);
 			return ref<T>(ptr, adopt_ref);
 		}
 		/**
-- 
2.43.0


From 37026f2fa832a988e1dc9122f9d7e8589eea8ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:05 +0000
Subject: [PATCH 65/68] fix: timer timeouts beyond the range of the clock
 expired immediately

---
 include/asyncpp/timer.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index c471c77..f1d01cc 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -120,7 +120,7 @@ namespace asyncpp {
 		 * \param timeout The duration to wait before executing the callback
 		 */
 		void schedule(std::function<void(bool)> cbfn, std::chrono::nanoseconds timeout) {
-			schedule(std::move(cbfn), std::chrono::steady_clock::now() + timeout);
+			schedule(std::move(cbfn), after(timeout));
 		}
 		/**
 		 * \brief Schedule a callback to be executed after a certain duration expires.
@@ -161,7 +161,7 @@ namespace asyncpp {
 		 * \param stoken stop_token allowing to cancel the callback
 		 */
 		void schedule(std::function<void(bool)> cbfn, std::chrono::nanoseconds timeout, asyncpp::stop_token stoken) {
-			schedule(std::move(cbfn), std::chrono::steady_clock::now() + timeout, std::move(stoken));
+			schedule(std::move(cbfn), after(timeout), std::move(stoken));
 		}
 		/**
 		 * \brief Schedule a callback to be executed after a certain duration expires with a stop_token
@@ -209,7 +209,7 @@ namespace asyncpp {
 		 */
 		template<typename Rep, typename Period>
 		auto wait(std::chrono::duration<Rep, Period> timeout) noexcept {
-			return wait(std::chrono::steady_clock::now() + timeout);
+			return wait(after(timeout));
 		}
 		/**
 		 * \brief Get an awaitable that pauses the current coroutine until the specified duration is elapsed.
@@ -261,7 +261,7 @@ namespace asyncpp {
 		 */
 		template<typename Rep, typename Period>
 		auto wait(std::chrono::duration<Rep, Period> timeout, asyncpp::stop_token stoken) noexcept {
-			return wait(std::chrono::steady_clock::now() + timeout, std::move(stoken));
+			return wait(after(timeout), std::move(stoken));
 		}
 		/**
 		 * \brief Get an awaitable that pauses the current coroutine until the specified duration is elapsed, allows cancellation.
@@ -291,6 +291,16 @@ namespace asyncpp {
 		std::atomic<bool> m_exit{};
 		std::thread m_thread{};
 
+		/// \brief Get the time when the timeout has passed, the last one possible if that is out of range.
+		template<typename Rep, typename Period>
+		static std::chrono::steady_clock::time_point after(std::chrono::duration<Rep, Period> timeout) noexcept {
+			using time_point = std::chrono::steady_clock::time_point;
+			using seconds = std::chrono::duration<double>;
+			auto const now = std::chrono::steady_clock::now();
+			if (seconds{timeout} >= seconds{(time_point::max)() - now}) return (time_point::max)();
+			return now + timeout;
+		}
+
 		/// \brief Remove the entry from the set, needs to be called with the lock held.
 		std::shared_ptr<cancellable_scheduled_entry> extract(cancellable_scheduled_entry& entry) {
 			auto node = m_scheduled_cancellable_set.extract(*entry.position);
-- 
2.43.0


From 0e9f95c12edc7273f1a0225c466bd9a5694ff795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:15 +0000
Subject: [PATCH 66/68] fix: promise::get with a timeout beyond the range of
 the clock timed out immediately

---
 include/asyncpp/promise.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index fa0def9..608d847 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -289,7 +289,13 @@ namespace asyncpp {
          */
 		template<class Rep, class Period>
 		[[nodiscard]] TResult* get(std::chrono::duration<Rep, Period> timeout) const {
-			auto until = std::chrono::steady_clock::now() + timeout;
+			using time_point = std::chrono::steady_clock::time_point;
+			using seconds = std::chrono::duration<double>;
+			auto const now = std::chrono::steady_clock::now();
+			// Timeouts that are out of range end with the last possible time
+			auto const until = seconds{timeout} >= seconds{(time_point::max)() - now}
+								   ? (time_point::max)()
+								   : now + std::chrono::ceil<time_point::duration>(timeout);
 			state& info = *m_state;
 			std::unique_lock lck{info.m_mtx};
 			if (!info.m_cv.wait_until(lck, until, [&info]() { return info.m_value.index() != state::pending_index; }))
-- 
2.43.0


From 0ee4f4354efc854b9fb6753830728edbbbd5f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:59 +0000
Subject: [PATCH 67/68] fix: fiber_await did not find the current fiber if it
 was created in another translation unit

---
 include/asyncpp/fiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 6fdd9db..469cb05 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -717,7 +717,7 @@ namespace asyncpp::detail {
 #if defined(ASYNCPP_SO_COMPAT)
 	extern thread_local fiber_handle_base* g_current_fiber;
 #else
-	inline static thread_local fiber_handle_base* g_current_fiber = nullptr;
+	inline thread_local fiber_handle_base* g_current_fiber = nullptr;
 #endif
 
 #if defined(ASYNCPP_SO_COMPAT_IMPL)
-- 
2.43.0


From 23cf83e2813675fe17eb3c640060558295bf16a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:23 +0000
Subject: [PATCH 68/68] fix: fiber_swap_stack overwrote its caller's stack with
 -fstack-protector-all

---
 include/asyncpp/fiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 469cb05..79f9015 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -300,7 +300,7 @@ namespace asyncpp::detail {
 		return true;
 	}
 
-	__attribute__((naked, noinline)) inline void fiber_swap_stack(void** current_pointer_out, void* dest_pointer) {
+	__attribute__((naked, noinline, no_stack_protector)) inline void fiber_swap_stack(void** current_pointer_out, void* dest_pointer) {
 #if defined(__i386__)
 		/* `current_pointer_out` is in `4(%ebp)`. `dest_pointer` is in `8(%ebp)`. */
 		//NOLINTNEXTLINE(hicpp-no-assembler)
-- 
2.43.0

