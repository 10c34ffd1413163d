From 15024fe0f4809f51be27f902f6b13fb0874373f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:50 +0000
Subject: [PATCH 01/45] fix: barrier can be awaited from any coroutine type
 (qualify get_traceable)

---
 macoro/barrier.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/barrier.h b/macoro/barrier.h
index 2698b5d..9cbab36 100644
--- a/macoro/barrier.h
+++ b/macoro/barrier.h
@@ -128,7 +128,7 @@ namespace macoro
 		coroutine_handle<> ret = continuation;
 		if (m_barrier.increment() > 1)
 		{
-			set_parent(get_traceable(continuation), loc);
+			set_parent(detail::get_traceable(continuation), loc);
 			assert(m_barrier.m_continuation == nullptr);
 			m_barrier.m_continuation = std::exchange(ret, noop_coroutine());
 		}
-- 
2.43.0


From c779c811c10ea21c3f3f2198050b678bb81e1542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:04 +0000
Subject: [PATCH 02/45] fix: barrier decides who releases the waiter in the
 count itself

---
 macoro/barrier.h | 54 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/macoro/barrier.h b/macoro/barrier.h
index 9cbab36..0c2d66f 100644
--- a/macoro/barrier.h
+++ b/macoro/barrier.h
@@ -65,20 +65,22 @@ namespace macoro
 		// the coro that is awaiting the barrier
 		coroutine_handle<> m_continuation;
 
-		// the current count, once it decrements to 0, 
-		// m_continuation is called if set.
+		// twice the current count, plus one if m_continuation is 
+		// waiting. Both live in one word so that only the decrement
+		// that releases a waiter ever looks at m_continuation. Any 
+		// other thread must not touch the barrier after its decrement.
 		std::atomic<std::size_t> m_count;
 	public:
 
 		// construct a new barrier with the given initial value.
 		explicit barrier(std::size_t initial_count = 0) noexcept
-			: m_count(initial_count)
+			: m_count(initial_count * 2)
 		{}
 
 		// increament the count by amount and return the new count.
 		std::size_t add(size_t amount) noexcept
 		{
-			auto old = m_count.fetch_add(amount, std::memory_order_relaxed);
+			auto old = m_count.fetch_add(amount * 2, std::memory_order_relaxed) / 2;
 			auto ret = old + amount;
 			assert(ret >= old);
 			return ret;
@@ -93,21 +95,30 @@ namespace macoro
 		// returns the current count.
 		std::size_t count() const noexcept 
 		{
-			return m_count.load(std::memory_order_acquire);
+			return m_count.load(std::memory_order_acquire) / 2;
 		}
 
 		// decrease the count by 1. Returns the new count.
 		std::size_t decrement() noexcept
 		{
-			const std::size_t old_count = m_count.fetch_sub(1, std::memory_order_acq_rel);
+			auto old = m_count.load(std::memory_order_relaxed);
+			std::size_t next;
+			do
+			{
+				assert(old >= 2);
+
+				// the last decrement also takes the waiter, if there is one.
+				next = old == 3 ? 0 : old - 2;
 
-			assert(old_count);
+			} while (!m_count.compare_exchange_weak(old, next,
+				std::memory_order_acq_rel,
+				std::memory_order_relaxed));
 
-			if (old_count == 1 && m_continuation)
+			if (old == 3)
 			{
 				std::exchange(m_continuation, nullptr).resume();
 			}
-			return old_count - 1;
+			return next / 2;
 		}
 		
 		// suspend until the count reached zero. Only
@@ -125,16 +136,27 @@ namespace macoro
 		coroutine_handle<Promise> continuation,
 		std::source_location loc) noexcept
 	{
-		coroutine_handle<> ret = continuation;
-		if (m_barrier.increment() > 1)
+		auto old = m_barrier.m_count.load(std::memory_order_acquire);
+		if (old / 2 == 0)
+			return continuation;
+
+		assert((old & 1) == 0);
+		set_parent(detail::get_traceable(continuation), loc);
+		m_barrier.m_continuation = continuation;
+
+		// announce the waiter unless the count reached zero first.
+		while (!m_barrier.m_count.compare_exchange_weak(old, old | 1,
+			std::memory_order_acq_rel,
+			std::memory_order_acquire))
 		{
-			set_parent(detail::get_traceable(continuation), loc);
-			assert(m_barrier.m_continuation == nullptr);
-			m_barrier.m_continuation = std::exchange(ret, noop_coroutine());
+			if (old / 2 == 0)
+			{
+				m_barrier.m_continuation = nullptr;
+				return continuation;
+			}
 		}
-		m_barrier.decrement();
 
-		return ret;
+		return noop_coroutine();
 	}
 
 }
\ No newline at end of file
-- 
2.43.0


From e012afeb76d054279355fab2ff04de2c4b81d1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 03/45] fix: a named when_all_ready awaitable can be awaited

---
 macoro/detail/when_all_awaitable.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macoro/detail/when_all_awaitable.h b/macoro/detail/when_all_awaitable.h
index cac1a29..511bb67 100644
--- a/macoro/detail/when_all_awaitable.h
+++ b/macoro/detail/when_all_awaitable.h
@@ -131,14 +131,14 @@ namespace macoro
 				bool await_suspend(std::coroutine_handle<Promise> awaitingCoroutine, std::source_location loc = std::source_location::current()) noexcept
 				{
 					m_awaitable.set_parent(get_traceable(awaitingCoroutine), loc);
-					return await_suspend(coroutine_handle<>(awaitingCoroutine), loc);
+					return m_awaitable.try_await(coroutine_handle<>(awaitingCoroutine));
 				}
 #endif
 				template<typename Promise>
 				bool await_suspend(coroutine_handle<Promise> awaitingCoroutine, std::source_location loc = std::source_location::current()) noexcept
 				{
 					m_awaitable.set_parent(get_traceable(awaitingCoroutine), loc);
-					return m_awaitable.try_await(awaitingCoroutine, loc);
+					return m_awaitable.try_await(awaitingCoroutine);
 				}
 
 				TASK_CONTAINER& await_resume() noexcept
-- 
2.43.0


From 34dd1a09483c6a1f1cbbfc70b65f3a322d7529ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:18 +0000
Subject: [PATCH 04/45] fix: asking an eager task whether it is ready no longer
 inspects a running frame

---
 macoro/task.h | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/macoro/task.h b/macoro/task.h
index b553067..683a088 100644
--- a/macoro/task.h
+++ b/macoro/task.h
@@ -154,7 +154,7 @@ namespace macoro
 				{
 					auto& promise = coro.promise();
 					// release our result. acquire their continuation (if they beat us).
-					auto b = promise.has_completed_or_continutation.exchange(true, std::memory_order_acq_rel);
+					auto b = promise.m_state.fetch_or(has_completed, std::memory_order_acq_rel) & has_continuation;
 
 					// if b, then we have finished after the continuation was set. 
 					if (b)
@@ -171,7 +171,7 @@ namespace macoro
 		public:
 
 			task_promise_base() noexcept
-				: has_completed_or_continutation(false)
+				: m_state(0)
 			{
 				//std::cout << "eager" << std::endl;
 			}
@@ -200,12 +200,21 @@ namespace macoro
 			{
 				assert(!m_continuation);
 				m_continuation = continuation;
-				return has_completed_or_continutation.exchange(true, std::memory_order_acq_rel);
+				return m_state.fetch_or(has_continuation, std::memory_order_acq_rel) & has_completed;
+			}
+
+			// true once the coroutine is suspended at its final suspend point. Unlike
+			// coroutine_handle::done(), this can be called while the coroutine is running.
+			bool is_completed() const noexcept
+			{
+				return m_state.load(std::memory_order_acquire) & has_completed;
 			}
 
 		private:
-			std::atomic<bool> has_completed_or_continutation;
-			
+			enum : std::uint8_t { has_continuation = 1, has_completed = 2 };
+
+			std::atomic<std::uint8_t> m_state;
+
 			coroutine_handle<> m_continuation;
 		};
 
@@ -477,7 +486,7 @@ namespace macoro
 
 			bool await_ready() const noexcept
 			{
-				return !m_coroutine || m_coroutine.done();
+				return !m_coroutine || m_coroutine.promise().is_completed();
 			}
 
 #ifdef MACORO_CPP_20
@@ -584,7 +593,10 @@ namespace macoro
 		/// Awaiting a task that is ready is guaranteed not to block/suspend.
 		bool is_ready() const noexcept
 		{
-			return m_coroutine && m_coroutine.done();
+			if constexpr (lazy)
+				return m_coroutine && m_coroutine.done();
+			else
+				return m_coroutine && m_coroutine.promise().is_completed();
 		}
 
 		struct ref_awaitable : detail::task_awaitable_base<T,lazy>
-- 
2.43.0


From bea5493ce32b53203b4f34ba9b3724f00a0836e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 05/45] fix: a scoped task announces its completion only once
 it is suspended

---
 macoro/async_scope.h                | 21 ++++++++++----------
 macoro/detail/scoped_task_promise.h | 30 +++++++----------------------
 2 files changed, 17 insertions(+), 34 deletions(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index ebb5732..cf374a9 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -259,11 +259,12 @@ namespace macoro
 
 
 		template<typename T>
-		bool scoped_task_promise<T>::final_awaitable::await_ready() noexcept
+		coroutine_handle<> scoped_task_promise<T>::final_awaitable::await_suspend(
+			coroutine_handle<scoped_task_promise> coro) noexcept
 		{
-			scoped_task_promise& promise = m_promise;
+			scoped_task_promise& promise = coro.promise();
 			async_scope* scope = promise.m_scope;
-			bool done = false;
+			coroutine_handle<> next = noop_coroutine();
 
 			// race to see if we need to call the completion handle
 			// it might not have been set yet (or ever).
@@ -285,8 +286,7 @@ namespace macoro
 				// the return value. 
 				if (promise.m_continuation)
 				{
-					m_run_continutation = true;
-					done = false;
+					next = promise.m_continuation;
 				}
 				else
 				{
@@ -299,10 +299,7 @@ namespace macoro
 						promise.m_scope->m_exceptions.push_back(std::move(promise.m_exception));
 					}
 
-					// destroy the coro.
-					// this is the same as coro.destroy()
-					// but there is a msvc bug if you do that.
-					done = true;
+					coro.destroy();
 				}
 			}
 			else
@@ -314,13 +311,15 @@ namespace macoro
 				// 
 				// If a continuation is never set, then the scoped_task
 				// will destroy the coro in its distructor. 
+				// 
+				// Either might have happened already, do not touch the 
+				// promise from here on.
 				assert(b == completion_state::inprogress);
-				done = false;
 			}
 
 			// notify the scope that we are done.
 			scope->m_barrier.decrement();
-			return done;
+			return next;
 		}
 	}
 
diff --git a/macoro/detail/scoped_task_promise.h b/macoro/detail/scoped_task_promise.h
index 76e27cd..da7eb9f 100644
--- a/macoro/detail/scoped_task_promise.h
+++ b/macoro/detail/scoped_task_promise.h
@@ -262,39 +262,23 @@ namespace macoro
 			// the status of the value/exception storage.
 			result_type m_result_type = result_type::empty;
 
-			// this final awaiter runs the suspend logic in await_ready
-			// due to a bug un msvc. Using symetric transfer and called
-			// destroy when done = true causes a segfault. This alternative
-			// implementation implicitly destroys the coro by returning
-			// true from await_ready.
+			// announces that the coro has completed. This happens once the
+			// coro is suspended as the other side might then destroy it.
 			struct final_awaitable
 			{
-				scoped_task_promise& m_promise;
-
-				// a variable used to remember if we need to call the continuation.
-				bool m_run_continutation = false;
-
-				bool await_ready() noexcept;
+				bool await_ready() const noexcept { return false; }
 
 #ifdef MACORO_CPP_20
 				std::coroutine_handle<> await_suspend(
 					std::coroutine_handle<scoped_task_promise> coro) noexcept
 				{
-					if (m_run_continutation)
-						return m_promise.m_continuation.std_cast();
-					else
-						return std::noop_coroutine();
+					return await_suspend(
+						coroutine_handle<scoped_task_promise>(coro)).std_cast();
 				}
 #endif
 
 				coroutine_handle<> await_suspend(
-					coroutine_handle<scoped_task_promise> coro) noexcept
-				{
-					if (m_run_continutation)
-						return m_promise.m_continuation;
-					else
-						return noop_coroutine();
-				}
+					coroutine_handle<scoped_task_promise> coro) noexcept;
 
 				void await_resume() noexcept {
 				}
@@ -311,7 +295,7 @@ namespace macoro
 			}
 
 			suspend_never initial_suspend() noexcept { return {}; }
-			final_awaitable final_suspend() noexcept { return { *this }; }
+			final_awaitable final_suspend() noexcept { return {}; }
 
 #ifdef MACORO_CPP_20
 			completion_state try_set_continuation(std::coroutine_handle<> continuation) noexcept
-- 
2.43.0


From 743aa14a33397b8e7907aafe8609dfc39fc7e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 06/45] fix: joining a scope reports the exceptions thrown
 after the join began

---
 macoro/async_scope.h    | 13 +++++++++----
 macoro/when_all_scope.h |  3 ++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index cf374a9..bf1d5be 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -189,7 +189,7 @@ namespace macoro
 		struct join_awaiter
 		{
 			barrier_awaiter m_barrier;
-			std::vector<std::exception_ptr> m_exceptions;
+			async_scope& m_scope;
 
 			bool await_ready() const noexcept { return m_barrier.await_ready(); }
 
@@ -212,8 +212,13 @@ namespace macoro
 			void await_resume()
 			{
 				m_barrier.await_resume();
-				if (m_exceptions.size())
-					throw async_scope_exception(std::move(m_exceptions));
+				std::vector<std::exception_ptr> exceptions;
+				{
+					std::lock_guard<std::mutex> lock(m_scope.m_exception_mutex);
+					exceptions.swap(m_scope.m_exceptions);
+				}
+				if (exceptions.size())
+					throw async_scope_exception(std::move(exceptions));
 			}
 		};
 
@@ -229,7 +234,7 @@ namespace macoro
 		// until all added awaitables have been completed.
 		join_awaiter MACORO_OPERATOR_COAWAIT() & noexcept
 		{
-			return { m_barrier.MACORO_OPERATOR_COAWAIT(), std::move(m_exceptions) };
+			return { m_barrier.MACORO_OPERATOR_COAWAIT(), *this };
 		}
 
 	private:
diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index f36bb3d..3085125 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -151,7 +151,8 @@ namespace macoro
 
 			void await_resume()
 			{
-				m_join.await_resume();
+				// exceptions are not reported here.
+				m_join.m_barrier.await_resume();
 			}
 		};
 
-- 
2.43.0


From 72f70c17b437c9e78cb360b6bc5245cbe3e32b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 07/45] fix: awaiting an empty scoped_task throws
 broken_promise

---
 macoro/detail/scoped_task_promise.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/macoro/detail/scoped_task_promise.h b/macoro/detail/scoped_task_promise.h
index da7eb9f..6c83f6e 100644
--- a/macoro/detail/scoped_task_promise.h
+++ b/macoro/detail/scoped_task_promise.h
@@ -335,16 +335,19 @@ namespace macoro
 
 			coroutine_handle<promise_type> m_coroutine;
 
-			bool await_ready() const noexcept { return false; }
+			bool await_ready() const noexcept { return !m_coroutine; }
 
 			scoped_task_awaiter(coroutine_handle<promise_type> c)
 				:m_coroutine(c)
 			{}
 
+			scoped_task_awaiter(const scoped_task_awaiter&) = delete;
+			scoped_task_awaiter& operator=(const scoped_task_awaiter&) = delete;
+
 			~scoped_task_awaiter()
 			{
-				assert(m_coroutine);
-				m_coroutine.destroy();
+				if (m_coroutine)
+					m_coroutine.destroy();
 			}
 
 #ifdef MACORO_CPP_20
-- 
2.43.0


From df21b4a980c9c0b6039ce1a7d38f54edfff2f663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 08/45] fix: when_all_scope destroys its coroutine

---
 macoro/when_all_scope.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index 3085125..3e5e3a4 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -132,6 +132,27 @@ namespace macoro
 			: m_handle(h)
 		{}
 
+		when_all_scope(when_all_scope&& other) noexcept
+			: m_handle(std::exchange(other.m_handle, nullptr))
+		{}
+
+		when_all_scope& operator=(when_all_scope&& other) noexcept
+		{
+			if (std::addressof(other) != this)
+			{
+				if (m_handle)
+					m_handle.destroy();
+				m_handle = std::exchange(other.m_handle, nullptr);
+			}
+			return *this;
+		}
+
+		~when_all_scope()
+		{
+			if (m_handle)
+				m_handle.destroy();
+		}
+
 		struct awaiter
 		{
 			coroutine_handle<promise_type> m_handle;
@@ -144,7 +165,7 @@ namespace macoro
 				std::coroutine_handle<promise> p, 
 				std::source_location loc = std::source_location::current())
 			{
-				m_handle.promise().m_scope.set_parent(get_traceable(p.promise()), loc);
+				m_handle.promise().m_scope.set_parent(detail::get_traceable(p), loc);
 				m_handle.resume();
 				return m_join.await_suspend(p);
 			}
-- 
2.43.0


From 63a094350db9c79f8d5eea71e554ea8e1a04d189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 09/45] fix: an lvalue awaitable can be added to an async scope

---
 macoro/async_scope.h | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index bf1d5be..cc96bba 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -165,27 +165,34 @@ namespace macoro
 		// awaitables can be joined by calling join().
 		// exceptions 
 		template<typename Awaitable>
-		scoped_task<macoro::remove_rvalue_reference_t<macoro::awaitable_result_t<Awaitable>>>
-			add(Awaitable a, std::source_location loc = std::source_location::current()) noexcept
+		auto add(Awaitable&& a, std::source_location loc = std::source_location::current()) noexcept
 		{
-			co_return co_await std::move(a);
+			if constexpr (std::is_lvalue_reference_v<Awaitable>)
+				return add_ref(a, loc);
+			else
+				return add_value(std::move(a), loc);
 		}
 
+	private:
 
-		// add an awaitable to the scope. The awaitable
-		// will be executed immediately. A scoped_task
-		// is returned. The caller may await the scoped_task
-		// or may let it get destroyed. The underlying 
-		// awaitable will continued to be executed. All 
-		// awaitables can be joined by calling join().
-		// exceptions 
+		// the coroutine owns the awaitable.
 		template<typename Awaitable>
 		scoped_task<macoro::remove_rvalue_reference_t<macoro::awaitable_result_t<Awaitable>>>
-			add(Awaitable& a, std::source_location loc = std::source_location::current()) noexcept
+			add_value(Awaitable a, std::source_location loc) noexcept
+		{
+			co_return co_await std::move(a);
+		}
+
+		// the coroutine refers to the caller's awaitable.
+		template<typename Awaitable>
+		scoped_task<macoro::remove_rvalue_reference_t<macoro::awaitable_result_t<Awaitable&>>>
+			add_ref(Awaitable& a, std::source_location loc) noexcept
 		{
 			co_return co_await a;
 		}
 
+	public:
+
 		struct join_awaiter
 		{
 			barrier_awaiter m_barrier;
-- 
2.43.0


From a7f94920d9e652dded90a0463a1c97a064994aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 10/45] fix: the exceptions of an async_scope_exception can be
 asked for

---
 macoro/async_scope.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index cc96bba..f24c090 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -113,6 +113,7 @@ namespace macoro
 			return "";
 		}
 
+	public:
 		// get the list of exceptions.
 		auto& exceptions() { return m_exceptions; }
 
-- 
2.43.0


From 75a1a0cc960289c503f1f205f281414a5063e82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:47 +0000
Subject: [PATCH 11/45] fix: compare each waiter's own target when a
 multi-producer sequencer re-sorts its waiters

add_awaiter compared the (possibly stale) target it last computed with the
last known published number for every waiter in the list, so a waiter whose
number was not published could be resumed, and due ones put back.
---
 macoro/sequence_mpsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 4833646..691cd90 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -686,7 +686,7 @@ namespace macoro
 
 				while (awaiters != nullptr)
 				{
-					diff_t diff = TRAITS::difference(targetSequence, lastKnownPublished);
+					diff_t diff = TRAITS::difference(awaiters->m_targetSequence, lastKnownPublished);
 					if (diff > 0)
 					{
 						// Not yet ready.
-- 
2.43.0


From dfa26c59f1658a34139aea323323257b3ccd5ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:24 +0000
Subject: [PATCH 12/45] fix: count the available slots in the sequence type

With an 8 or 16 bit sequence the subtraction was done in int, so around the
wrap the number of available slots became huge and claim_up_to handed out
slots the consumers had not released.
---
 macoro/sequence_spsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_spsc.h b/macoro/sequence_spsc.h
index e282cf6..6f9c367 100644
--- a/macoro/sequence_spsc.h
+++ b/macoro/sequence_spsc.h
@@ -242,7 +242,7 @@ namespace macoro
 			const SEQUENCE lastAvailableSequence =
 				static_cast<SEQUENCE>(m_consumerWaitOperation.await_resume() + m_sequencer.m_bufferSize);
 			const SEQUENCE begin = m_sequencer.m_nextToClaim;
-			const std::size_t availableCount = static_cast<std::size_t>(lastAvailableSequence - begin) + 1;
+			const std::size_t availableCount = static_cast<std::size_t>(static_cast<SEQUENCE>(lastAvailableSequence - begin)) + 1;
 			const std::size_t countToClaim = std::min(m_count, availableCount);
 			const SEQUENCE end = static_cast<SEQUENCE>(begin + countToClaim);
 			m_sequencer.m_nextToClaim = end;
-- 
2.43.0


From 20058a5479f2fc1a1e0eac0737404a9f7358e71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:24 +0000
Subject: [PATCH 13/45] fix: any_available reports the last free slot

---
 macoro/sequence_mpsc.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 691cd90..207a24c 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -453,9 +453,10 @@ namespace macoro
 	template<typename SEQUENCE, typename TRAITS>
 	bool sequence_mpsc<SEQUENCE, TRAITS>::any_available() const noexcept
 	{
-		return TRAITS::precedes(
-			m_nextToClaim.load(std::memory_order_relaxed),
-			m_consumerBarrier.last_published() + buffer_size());
+		// The slot is free once the number one buffer before it was released.
+		return !TRAITS::precedes(
+			m_consumerBarrier.last_published() + buffer_size(),
+			m_nextToClaim.load(std::memory_order_relaxed));
 	}
 
 	template<typename SEQUENCE, typename TRAITS>
-- 
2.43.0


From d1918812bfd92ea42b9d94814318d71e31a69852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:24 +0000
Subject: [PATCH 14/45] fix: narrowing in sequence_range::skip and
 sequence_mpsc::claim_up_to

Neither compiled for sequence types narrower than std::size_t / int.
---
 macoro/sequence_mpsc.h  | 2 +-
 macoro/sequence_range.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 207a24c..bb84ee6 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -240,7 +240,7 @@ namespace macoro
 			return sequence_mpsc_claim_awaiter<SEQUENCE, TRAITS>{
 				m_sequencer.m_consumerBarrier,
 				m_sequencer.buffer_size(),
-				sequence_range<SEQUENCE, TRAITS>{ first, first + m_count }
+				sequence_range<SEQUENCE, TRAITS>{ first, static_cast<SEQUENCE>(first + m_count) }
 			};
 		}
 
diff --git a/macoro/sequence_range.h b/macoro/sequence_range.h
index 8b4fd5e..b6eb583 100644
--- a/macoro/sequence_range.h
+++ b/macoro/sequence_range.h
@@ -92,7 +92,7 @@ namespace macoro
 
 		constexpr sequence_range skip(size_type count) const noexcept
 		{
-			return sequence_range{ m_begin + std::min(size(), count), m_end };
+			return sequence_range{ static_cast<SEQUENCE>(m_begin + std::min(size(), count)), m_end };
 		}
 
 	private:
-- 
2.43.0


From 8afeeea381797a78503b1047fb9cfdd39d88765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:24 +0000
Subject: [PATCH 15/45] fix: look for the next published number in the sequence
 type

With an 8 or 16 bit sequence the sum was an int and never equal to the
published number when it wrapped, so a registering waiter was lost.
---
 macoro/sequence_mpsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index bb84ee6..480cb31 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -670,7 +670,7 @@ namespace macoro
 			//
 			// TODO: Check whether we can weaken the memory order here to just use 'seq_cst' on the
 			// first .load() and then use 'acquire' on subsequent .load().
-			while (m_published[(lastKnownPublished + 1) & sequenceMask].load(std::memory_order_seq_cst) == (lastKnownPublished + 1))
+			while (m_published[(lastKnownPublished + 1) & sequenceMask].load(std::memory_order_seq_cst) == static_cast<SEQUENCE>(lastKnownPublished + 1))
 			{
 				++lastKnownPublished;
 			}
-- 
2.43.0


From e25daebaaef56ce37526c1e33879b7763a34508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:57 +0000
Subject: [PATCH 16/45] fix: headers that did not compile alone or twice name
 what they use

---
 macoro/async_scope.h            | 4 ++++
 macoro/detail/manual_lifetime.h | 2 +-
 macoro/inline_scheduler.h       | 1 +
 macoro/sync_wait.h              | 1 +
 macoro/trace.h                  | 1 +
 macoro/when_all.h               | 1 +
 6 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index f24c090..0325f77 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -5,6 +5,10 @@
 #include "macoro/barrier.h"
 #include "macoro/awaiter.h"
 #include <iostream>
+#include <mutex>
+#include <sstream>
+#include <string>
+#include <vector>
 #include "macoro/detail/scoped_task_promise.h"
 
 namespace macoro
diff --git a/macoro/detail/manual_lifetime.h b/macoro/detail/manual_lifetime.h
index a44bff3..4b88056 100644
--- a/macoro/detail/manual_lifetime.h
+++ b/macoro/detail/manual_lifetime.h
@@ -23,7 +23,7 @@ namespace macoro
 			manual_lifetime& operator=(manual_lifetime&&) = delete;
 
 			template<typename... Args>
-			enable_if_t<std::is_constructible<T, Args&&...>::value> construct(Args&&... args)
+			std::enable_if_t<std::is_constructible<T, Args&&...>::value> construct(Args&&... args)
 				noexcept(std::is_nothrow_constructible<T, Args&&...>::value)
 			{
 				::new (static_cast<void*>(std::addressof(m_value))) T(static_cast<Args&&>(args)...);
diff --git a/macoro/inline_scheduler.h b/macoro/inline_scheduler.h
index f1b3df1..e940ab7 100644
--- a/macoro/inline_scheduler.h
+++ b/macoro/inline_scheduler.h
@@ -1,3 +1,4 @@
+#pragma once
 
 #include "macoro/coroutine_handle.h"
 
diff --git a/macoro/sync_wait.h b/macoro/sync_wait.h
index 2c48cbf..40abc92 100644
--- a/macoro/sync_wait.h
+++ b/macoro/sync_wait.h
@@ -4,6 +4,7 @@
 #include "macoro/coro_frame.h"
 #include "macoro/optional.h"
 #include "macoro/coroutine_handle.h"
+#include "macoro/trace.h"
 #include <future>
 #include "macros.h"
 #include <mutex>
diff --git a/macoro/trace.h b/macoro/trace.h
index dacedda..984685c 100644
--- a/macoro/trace.h
+++ b/macoro/trace.h
@@ -3,6 +3,7 @@
 
 #include "macoro/config.h"
 #include <string>
+#include <vector>
 #include <sstream>
 #include "macoro/coroutine_handle.h"
 #include <source_location>
diff --git a/macoro/when_all.h b/macoro/when_all.h
index 8cf9cd0..923e3ac 100644
--- a/macoro/when_all.h
+++ b/macoro/when_all.h
@@ -6,6 +6,7 @@
 
 #include "macoro/type_traits.h"
 #include <tuple>
+#include <vector>
 #include <atomic>
 #include "macoro/coroutine_handle.h"
 #include "macoro/detail/when_all_awaitable.h"
-- 
2.43.0


From bf13e0486ba0a0d997b0adf30b1c93fc919c80fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:57 +0000
Subject: [PATCH 17/45] fix: blocking_get compiles, and waits like sync_wait

The header did not compile (misspelt macoro), clashed with sync_wait.h and,
once those were repaired, returned a reference into a dead stack frame and
announced completion before the driving coroutine was suspended.
---
 macoro/blocking.h | 213 ++--------------------------------------------
 1 file changed, 8 insertions(+), 205 deletions(-)

diff --git a/macoro/blocking.h b/macoro/blocking.h
index 0a56be0..5538f49 100644
--- a/macoro/blocking.h
+++ b/macoro/blocking.h
@@ -1,212 +1,15 @@
 #pragma once
 #include "macoro/type_traits.h"
-#include "macoro/coro_frame.h"
-#include "macoro/optional.h"
-#include "macoro/coroutine_handle.h"
-#include <future>
-#include "macros.h"
+#include "macoro/sync_wait.h"
+#include <utility>
+
 namespace macoro
 {
-
-	namespace detail
-	{
-		template<typename T>
-		struct blocking_task;
-
-		template<typename T>
-		struct blocking_promise_base
-		{
-
-			std::exception_ptr exception;
-			std::mutex mutex;
-			std::condition_variable cv;
-			bool is_set = false;
-
-			void wait()
-			{
-				std::unique_lock<std::mutex> lock(mutex);
-				cv.wait(lock, [this] { return is_set; });
-			}
-
-			void set()
-			{
-				assert(is_set == false);
-				std::lock_guard<std::mutex> lock(this->mutex);
-				this->is_set = true;
-				this->cv.notify_all();
-			}
-
-
-			suspend_always initial_suspend() noexcept { return{}; }
-			suspend_always final_suspend() noexcept {
-				set();
-				return { };
-			}
-
-			void return_void() {}
-
-
-			void unhandled_exception() noexcept
-			{
-				exception = std::current_exception();
-			}
-		};
-
-		template<typename T>
-		struct blocking_promise : public blocking_promise_base<T>
-		{
-			typename std::remove_reference<T>::type* mVal = nullptr;
-
-			blocking_task<T> get_return_object() noexcept;
-			blocking_task<T> macoro_get_return_object() noexcept;
-
-			using reference_type = T&&;
-			suspend_always yield_value(reference_type v) noexcept
-			{
-				mVal = std::addressof(v);
-				this->set();
-				return { };
-			}
-
-			reference_type value()
-			{
-				if (this->exception)
-					std::rethrow_exception(this->exception);
-				return static_cast<reference_type>(*mVal);
-			}
-
-
-
-			template<typename TT>
-			decltype(auto) await_transform(TT&& mTask)
-			{
-				return static_cast<TT&&>(mTask);
-			}
-
-			struct get_promise
-			{
-				blocking_promise<T>* promise = nullptr;
-				bool await_ready() { return true; }
-				template<typename TT>
-				void await_suspend(TT&&) {}
-				blocking_promise<T>* await_resume()
-				{
-					return promise;
-				}
-			};
-
-			get_promise await_transform(get_promise)
-			{
-				return { this };
-			}
-		};
-
-		template<>
-		struct blocking_promise<void> : public blocking_promise_base<void>
-		{
-			blocking_task<void> get_return_object() noexcept;
-			blocking_task<void> macoro_get_return_object() noexcept;
-
-			void value()
-			{
-				if (this->exception)
-					std::rethrow_exception(this->exception);
-			}
-		};
-
-
-		template<typename T>
-		struct blocking_task
-		{
-			using promise_type = blocking_promise<T>;
-			coroutine_handle<promise_type> handle;
-			blocking_task(coroutine_handle<promise_type> h)
-				: handle(h)
-			{}
-
-			blocking_task() = delete;
-			blocking_task(blocking_task&& h) noexcept :handle(std::exchange(h.handle, std::nullptr_t{})) {}
-			blocking_task& operator=(blocking_task&& h) { handle = std::exchange(h.handle, std::nullptr_t{}); }
-
-			~blocking_task()
-			{
-				if (handle)
-					handle.destroy();
-			}
-
-			void start()
-			{
-				handle.resume();
-			}
-
-			decltype(auto) get()
-			{
-				handle.promise().wait();
-				return handle.promise().value();
-			}
-		};
-
-
-
-		template<typename T>
-		inline blocking_task<T> blocking_promise<T>::get_return_object() noexcept { return { coroutine_handle<blocking_promise<T>>::from_promise(*this, coroutine_handle_type::std) }; }
-		template<typename T>
-		inline blocking_task<T> blocking_promise<T>::macoro_get_return_object() noexcept { return { coroutine_handle<blocking_promise<T>>::from_promise(*this, coroutine_handle_type::mocoro) }; }
-		inline blocking_task<void> blocking_promise<void>::get_return_object() noexcept { return { coroutine_handle<blocking_promise<void>>::from_promise(*this, coroutine_handle_type::std) }; }
-		inline blocking_task<void> blocking_promise<void>::macoro_get_return_object() noexcept { return { coroutine_handle<blocking_promise<void>>::from_promise(*this, coroutine_handle_type::mocoro) }; }
-
-		template<
-			typename Awaitable,
-			typename ResultType = typename awaitable_traits<Awaitable&&>::await_result>
-			enable_if_t<!std::is_void<ResultType>::value,
-			blocking_task<ResultType>
-			>
-			make_blocking_task(Awaitable&& awaitable)
-		{
-#if 0
-
-			auto promise = co_await typename blocking_promise<ResultType>::get_promise{};
-			auto awaiter = promise->yield_value(co_await std::forward<Awaitable>(a));
-			co_await awaiter;
-#elif 1
-			MC_BEGIN(blocking_task<ResultType>, &awaitable);
-
-			// co_yield co_await static_cast<Awaitable&&>(awaitable)
-			MC_YIELD_AWAIT(static_cast<Awaitable&&>(awaitable));
-			MC_END();
-
-#endif
-		}
-
-		template<
-			typename Awaitable,
-			typename ResultType = typename awaitable_traits<Awaitable&&>::await_result>
-			enable_if_t<std::is_void<ResultType>::value,
-			blocking_task<ResultType>
-			>
-			make_blocking_task(Awaitable&& awaitable)
-		{
-#if 0
-			co_await std::forward<Awaitable>(awaitable);
-#else
-			MC_BEGIN(blocking_task<ResultType>, &awaitable);
-			MC_AWAIT(static_cast<Awaitable&&>(awaitable));
-			MC_END();
-#endif
-		}
-
-	}
-
-
+	/// Block the calling thread until the awaitable has completed and
+	/// return its result.
 	template<typename Awaitable>
-	typename awaitable_traits<Awaitable&&>::await_result
-		blocking_get(Awaitable&& awaitable)
+	decltype(auto) blocking_get(Awaitable&& awaitable)
 	{
-		auto task = detail::make_blocking_task<Awaitable&&>(std::forward<Awaitable>(awaitable));
-		task.start();
-
-		return task.get();
+		return sync_wait(std::forward<Awaitable>(awaitable));
 	}
-
-
-}
\ No newline at end of file
+}
-- 
2.43.0


From ec218b4c251647718de95919f9ee53b2985fc454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:19 +0000
Subject: [PATCH 18/45] fix: reading the value of a const result terminates

---
 macoro/result.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/result.h b/macoro/result.h
index 8afac5f..9d28b0c 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -327,7 +327,7 @@ namespace macoro
 			if (has_error())
 				result_rethrow(error());
 
-			return value();
+			return MACORO_VARIANT_NAMESPACE::get<0>(var());
 		}
 
 		const value_type& operator*() const { return value(); }
-- 
2.43.0


From af9355593abf3ffb6a11d25f53300e137a16d719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:19 +0000
Subject: [PATCH 19/45] fix: results can be compared for inequality

---
 macoro/result.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index 9d28b0c..a14fdd7 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -445,24 +445,24 @@ namespace macoro
 		template<typename T2>
 		bool operator!=(detail::OkTag<T2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		template<typename T2>
 		bool operator!=(detail::OkMvTag<T2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		template<typename E2>
 		bool operator!=(detail::ErrorTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 		template<typename E2>
 		bool operator!=(detail::ErrorMvTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 
@@ -600,12 +600,12 @@ namespace macoro
 		template<typename E2>
 		bool operator!=(detail::ErrorTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 		template<typename E2>
 		bool operator!=(detail::ErrorMvTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		detail::result_awaiter<void, Error> MACORO_OPERATOR_COAWAIT()
-- 
2.43.0


From 4583507e499cffc6b1ce0953a4f2a3669e4da709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:03 +0000
Subject: [PATCH 20/45] fix: a result built from an lvalue copies it

Ok(x) and Err(x) moved from a named x, and so did awaiting a wrapped
operation that yields a reference to its own stored value.
---
 macoro/result.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index a14fdd7..2f703ee 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -19,7 +19,7 @@ namespace macoro
 		struct OkTag {
 			const T& mV;
 
-			OkTag(T& e)
+			OkTag(const T& e)
 				:mV(e)
 			{}
 
@@ -53,7 +53,7 @@ namespace macoro
 		struct ErrorTag {
 			const E& mE;
 
-			ErrorTag(E& e)
+			ErrorTag(const E& e)
 				:mE(e)
 			{}
 
@@ -100,7 +100,7 @@ namespace macoro
 		return detail::ErrorTag<remove_cvref_t<T>>(t);
 	}
 
-	template<typename T>
+	template<typename T, typename = enable_if_t<!std::is_reference<T>::value>>
 	detail::ErrorMvTag<remove_cvref_t<T>> Err(T&& t)
 	{
 		return detail::ErrorMvTag<remove_cvref_t<T>>(t);
@@ -118,7 +118,7 @@ namespace macoro
 		return detail::OkTag<remove_cvref_t<T>>(t);
 	}
 
-	template<typename T>
+	template<typename T, typename = enable_if_t<!std::is_reference<T>::value>>
 	detail::OkMvTag<remove_cvref_t<T>> Ok(T&& t)
 	{
 		return detail::OkMvTag<remove_cvref_t<T>>(t);
-- 
2.43.0


From d553cc2104e992fa1b4d6e391d630463919279ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:18 +0000
Subject: [PATCH 21/45] fix: a named wrapped operation can be awaited

---
 macoro/wrap.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/macoro/wrap.h b/macoro/wrap.h
index 21028c6..9fbe439 100644
--- a/macoro/wrap.h
+++ b/macoro/wrap.h
@@ -76,9 +76,11 @@ namespace macoro
 
 		awaitable_storage m_awaitable;
 
-		awaiter operator co_await()&
+		// the awaiter of a named operation can differ from that of a temporary one.
+		template<typename A = std::remove_reference_t<awaitable>&>
+		typename wrapped_awaitable<A>::awaiter operator co_await()&
 		{
-			return awaiter{ get_awaiter(m_awaitable) };
+			return { get_awaiter(m_awaitable) };
 		}
 
 		awaiter operator co_await()&&
-- 
2.43.0


From 78ca21cdc33e01a4cdb9bbc45edb98b410bdf98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:45 +0000
Subject: [PATCH 22/45] fix: take_until returns references and move-only values

---
 macoro/take_until.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/macoro/take_until.h b/macoro/take_until.h
index 2ff14eb..bc7614d 100644
--- a/macoro/take_until.h
+++ b/macoro/take_until.h
@@ -3,6 +3,8 @@
 #include "stop.h"
 #include "task.h"
 #include <chrono>
+#include <functional>
+#include <optional>
 #include "type_traits.h"
 #include "result.h"
 #include "macoro/macros.h"
@@ -20,9 +22,12 @@ namespace macoro
 	template<typename AWAITABLE, typename UNTIL>
 	task<remove_rvalue_reference_t<awaitable_result_t<AWAITABLE>>> take_until(AWAITABLE awaitable, UNTIL until)
 	{
-		using return_type = awaitable_result_t<AWAITABLE>;
+		using return_type = remove_rvalue_reference_t<awaitable_result_t<AWAITABLE>>;
+		// references are held by address.
+		using stored_type = std::conditional_t<std::is_reference<return_type>::value,
+			std::reference_wrapper<std::remove_reference_t<return_type>>, return_type>;
 		constexpr bool is_void = std::is_void<awaitable_result_t<AWAITABLE>>::value;
-		using storage = std::conditional_t< is_void, int, std::optional<return_type>>;
+		using storage = std::conditional_t< is_void, int, std::optional<stored_type>>;
 		storage v;
 		std::exception_ptr ex;
 		try {
@@ -48,6 +53,6 @@ namespace macoro
 			std::rethrow_exception(ex);
 
 		if constexpr (is_void == false)
-			co_return static_cast<awaitable_result_t<AWAITABLE>>(v.value());
+			co_return static_cast<return_type&&>(v.value());
 	}
 }
-- 
2.43.0


From cc119fb711831415e5ff74329d95385d82fe08b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:02 +0000
Subject: [PATCH 23/45] fix: start_on accepts named operations

---
 macoro/start_on.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/macoro/start_on.h b/macoro/start_on.h
index 850f33a..7b3448c 100644
--- a/macoro/start_on.h
+++ b/macoro/start_on.h
@@ -5,20 +5,33 @@
 
 namespace macoro
 {
+	namespace detail
+	{
 	template<typename scheduler, typename awaitable>
-		auto start_on(scheduler& s, awaitable& a)
-		-> eager_task<remove_rvalue_reference_t<awaitable_result_t<awaitable>>>
+		auto start_on_ref(scheduler& s, awaitable& a)
+		-> eager_task<remove_rvalue_reference_t<awaitable_result_t<awaitable&>>>
 	{
 		co_await transfer_to(s);
 		co_return co_await a;
 	}
 	template<typename scheduler, typename awaitable>
-		auto start_on(scheduler& s, awaitable a)
+		auto start_on_val(scheduler& s, awaitable a)
 		-> eager_task<remove_rvalue_reference_t<awaitable_result_t<awaitable>>>
 	{
 		co_await transfer_to(s);
 		co_return co_await std::move(a);
 	}
+	}
+
+	// named operations are referred to, temporary ones are kept.
+	template<typename scheduler, typename awaitable>
+	auto start_on(scheduler& s, awaitable&& a)
+	{
+		if constexpr (std::is_lvalue_reference<awaitable>::value)
+			return detail::start_on_ref(s, a);
+		else
+			return detail::start_on_val(s, std::move(a));
+	}
 
 	template<typename Scheduler>
 	struct start_on_t
-- 
2.43.0


From bc6270a5c13a40f6605862ff57bc26b3c0451152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:48 +0000
Subject: [PATCH 24/45] fix: a result whose value and error have the same type
 can be built

---
 macoro/result.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index 2f703ee..a5b0c5a 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -287,10 +287,10 @@ namespace macoro
 		result& operator=(const result&) = default;
 		result& operator=(result&&) = default;
 
-		result(detail::OkTag<value_type>&& v) :mVar(v.mV) {}
-		result(detail::OkMvTag<value_type>&& v) : mVar(std::move(v.mV)) {}
-		result(detail::ErrorTag<error_type>&& e) : mVar(e.mE) {}
-		result(detail::ErrorMvTag<error_type>&& e) :mVar(std::move(e.mE)) {}
+		result(detail::OkTag<value_type>&& v) :mVar(in_place_index<0>, v.mV) {}
+		result(detail::OkMvTag<value_type>&& v) : mVar(in_place_index<0>, std::move(v.mV)) {}
+		result(detail::ErrorTag<error_type>&& e) : mVar(in_place_index<1>, e.mE) {}
+		result(detail::ErrorMvTag<error_type>&& e) :mVar(in_place_index<1>, std::move(e.mE)) {}
 
 
 		variant<value_type, error_type> mVar;
-- 
2.43.0


From 40f077a4b7d47742e67acc3e42038229217000b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 25/45] fix: the pool is notified before its lock is released

Once the lock is released the operation may run, the last worker may leave
and the pool may be destroyed.
---
 macoro/thread_pool.h | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 8bf9478..0c48983 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -76,10 +76,9 @@ namespace macoro
             {
                 //log("post");
                 assert(fn);
-                {
-                    std::lock_guard<std::mutex> lock(mMutex);
-                    mDeque.push_back(std::move(fn));
-                }
+                // once unlocked fn may run and the pool may be gone.
+                std::lock_guard<std::mutex> lock(mMutex);
+                mDeque.push_back(std::move(fn));
                 mCondition.notify_one();
             }
 
@@ -91,11 +90,8 @@ namespace macoro
                     return true;
                 else
                 {
-                    {
-                        std::lock_guard<std::mutex> lock(mMutex);
-                        mDeque.push_back(std::move(fn));
-                    }
-
+                    std::lock_guard<std::mutex> lock(mMutex);
+                    mDeque.push_back(std::move(fn));
                     mCondition.notify_one();
                     return false;
                 }
@@ -243,14 +239,10 @@ namespace macoro
                 if (mEx)
                 {
 
-                    std::size_t v = 0;
                     {
                         std::lock_guard<std::mutex> lock(mEx->mMutex);
-                        v = --mEx->mWork;
-                    }
-                    if (v == 0)
-                    {
-                        mEx->mCondition.notify_all();
+                        if (--mEx->mWork == 0)
+                            mEx->mCondition.notify_all();
                     }
                     mEx = nullptr;
                 }
-- 
2.43.0


From 1be08ecf9589b5758215e3e2a11fa81c19ec19f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 26/45] fix: cancelling a delayed operation wakes every worker

Workers that slept until the deadline of the cancelled operation kept
sleeping after the last work was done, and join() with them.
---
 macoro/thread_pool.h | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 0c48983..5f0d930 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -132,22 +132,19 @@ namespace macoro
             void cancel_delay_op(std::size_t idx)
             {
                 //log("cancel_delay_op");
-                bool notify = false;
+                std::unique_lock<std::mutex> lock(mMutex);
+                for (std::size_t i = 0; i < mDelayHeap.size(); ++i)
                 {
-                    std::unique_lock<std::mutex> lock(mMutex);
-                    for (std::size_t i = 0; i < mDelayHeap.size(); ++i)
+                    if (mDelayHeap[i].idx == idx)
                     {
-                        if (mDelayHeap[i].idx == idx)
-                        {
-                            mDelayHeap[i].deadline = thread_pool_clock::now();
-                            std::make_heap(mDelayHeap.begin(), mDelayHeap.end());
-                            notify = true;
-                            break;
-                        }
+                        mDelayHeap[i].deadline = thread_pool_clock::now();
+                        std::make_heap(mDelayHeap.begin(), mDelayHeap.end());
+
+                        // other workers may be sleeping until the old deadline.
+                        mCondition.notify_all();
+                        break;
                     }
                 }
-                if (notify)
-                    mCondition.notify_one();
             }
 
         };
-- 
2.43.0


From d18a3767cd416f568bb8515463a908149ae4fa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 27/45] fix: a worker does not wait on a reference into the
 heap of delayed operations

---
 macoro/thread_pool.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 5f0d930..442d862 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -390,7 +390,9 @@ namespace macoro
 
                         if (state->mDelayHeap.size())
                         {
-                            state->mCondition.wait_until(lock, state->mDelayHeap.front().deadline);
+                            // the heap may change while waiting.
+                            auto deadline = state->mDelayHeap.front().deadline;
+                            state->mCondition.wait_until(lock, deadline);
                         }
                         else
                         {
-- 
2.43.0


From 53b9f89b49af4c8c2ceeec0e8ab88018432acef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 28/45] fix: a delayed operation is registered for cancellation
 before it can run

The worker that resumed it could destroy the registration while the
posting thread was still constructing it.
---
 macoro/thread_pool.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 442d862..647b86c 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -110,16 +110,25 @@ namespace macoro
                     {
                         std::unique_lock<std::mutex> lock(mMutex);
                         idx = mDelayOpIdx++;
-                        mDelayHeap.emplace_back(idx, h, deadline);
-                        std::push_heap(mDelayHeap.begin(), mDelayHeap.end());
                     }
 
+                    // once the operation is in the heap it may run and destroy
+                    // token and reg. So register first.
                     if (token.stop_possible())
                     {
-                        reg.emplace(std::move(token), [idx, this] {
+                        reg.emplace(token, [idx, this] {
                             cancel_delay_op(idx);
                             });
                     }
+
+                    std::unique_lock<std::mutex> lock(mMutex);
+
+                    // the callback may have run before the operation was there.
+                    if (token.stop_requested())
+                        deadline = thread_pool_clock::now();
+
+                    mDelayHeap.emplace_back(idx, h, deadline);
+                    std::push_heap(mDelayHeap.begin(), mDelayHeap.end());
                     mCondition.notify_one();
                 }
                 else
-- 
2.43.0


From e9d207db924a35da33ae0095301f21c4487056f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 29/45] fix: threads of a pool do not refer to the movable pool
 object

---
 macoro/thread_pool.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 647b86c..299929e 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -334,7 +334,7 @@ namespace macoro
                 mState->mThreads.reserve(mState->mThreads.size() + n);
                 for (std::size_t i = 0; i < n; ++i)
                 {
-                    mState->mThreads.emplace_back([this] {run(); });
+                    mState->mThreads.emplace_back([state = mState.get()] { run(state); });
                 }
             }
         }
@@ -375,7 +375,14 @@ namespace macoro
 
         void run()
         {
-            auto state = mState.get();
+            run(mState.get());
+        }
+
+    private:
+
+        // the pool can be moved while its threads are running.
+        static void run(detail::thread_pool_state* state)
+        {
             //state->log("run");
 
             if (detail::thread_pool_state::mCurrentExecutor != nullptr)
-- 
2.43.0


From 3f954ad3a2cef2c786cd3db9acff092657299ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 30/45] fix: assigning to a pool joins the threads of the old
 one

---
 macoro/thread_pool.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 299929e..2193e86 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -264,7 +264,15 @@ namespace macoro
             :mState(new detail::thread_pool_state)
         {}
         thread_pool(thread_pool&&) = default;
-        thread_pool& operator=(thread_pool&&) = default;
+        thread_pool& operator=(thread_pool&& o)
+        {
+            if (this != &o)
+            {
+                join();
+                mState = std::move(o.mState);
+            }
+            return *this;
+        }
 
         thread_pool(std::size_t number_of_threads, work& w)
             : mState(new detail::thread_pool_state)
-- 
2.43.0


From 94a0b1e2a30cf05f865a07063b78197ee88f7df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 31/45] fix: a blocking task survives being assigned to itself

---
 macoro/sync_wait.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/macoro/sync_wait.h b/macoro/sync_wait.h
index 40abc92..c6aa5c4 100644
--- a/macoro/sync_wait.h
+++ b/macoro/sync_wait.h
@@ -156,8 +156,12 @@ namespace macoro
 			: m_handle(std::exchange(other.m_handle, nullptr))
 		{}
 		blocking_task& operator=(blocking_task&& h) {
-			this->~blocking_task();
-			m_handle = std::exchange(h.m_handle, std::nullptr_t{});
+			if (this != &h)
+			{
+				if (m_handle)
+					m_handle.destroy();
+				m_handle = std::exchange(h.m_handle, std::nullptr_t{});
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 4acf53b105efa3383bb88ca8c804a5f774606c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:02 +0000
Subject: [PATCH 32/45] fix: an erased no-op coroutine handle can be queried
 and destroyed

---
 macoro/coro_frame.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 26a1772..ce28955 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -810,6 +810,8 @@ namespace macoro
 
 	inline bool _macoro_coro_done(void* _address)noexcept
 	{
+		if (_address == noop_coroutine().address())
+			return false;
 #ifdef MACORO_CPP_20
 		if (!_macoro_coro_is_std(_address))
 		{
@@ -909,6 +911,8 @@ namespace macoro
 
 	inline void _macoro_coro_destroy(void* _address)noexcept
 	{
+		if (_address == noop_coroutine().address())
+			return;
 #ifdef MACORO_CPP_20
 		if (!_macoro_coro_is_std(_address))
 		{
-- 
2.43.0


From 28e8afe17cdd5ca3bb074fcd4f7185d17f2794af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 33/45] fix: awaiting a stop token could resume while its
 callback was still being registered

---
 macoro/stop.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/macoro/stop.h b/macoro/stop.h
index e603d6e..2c463f9 100644
--- a/macoro/stop.h
+++ b/macoro/stop.h
@@ -1,6 +1,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <functional>
 #include <optional>
 #include "macoro/coroutine_handle.h"
@@ -35,6 +36,9 @@ namespace macoro
 
 		stop_token mtoken;
 		optional_stop_callback mReg;
+		// set by the registration when it is complete and by the callback,
+		// whoever comes second continues the coroutine.
+		std::atomic<bool> mHandOver{ false };
 		bool await_ready() { return false; }
 
 		std::coroutine_handle<> await_suspend(std::coroutine_handle<> h)
@@ -45,11 +49,13 @@ namespace macoro
 		{
 			if (mtoken.stop_possible() && !mtoken.stop_requested())
 			{
-				mReg.emplace(mtoken, [h] {
-					h.resume();
+				mReg.emplace(mtoken, [this, h] {
+					if (mHandOver.exchange(true, std::memory_order_acq_rel))
+						h.resume();
 					});
 
-				return noop_coroutine();
+				if (mHandOver.exchange(true, std::memory_order_acq_rel) == false)
+					return noop_coroutine();
 			}
 			return h;
 		}
-- 
2.43.0


From f7755f67355a8bf8839c22920445d8d6718bc526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 34/45] fix: moving an empty channel wrapper read indeterminate
 members

---
 macoro/channel.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macoro/channel.h b/macoro/channel.h
index 598efa3..ca080ea 100644
--- a/macoro/channel.h
+++ b/macoro/channel.h
@@ -39,8 +39,8 @@ namespace macoro
         {
         protected:
             channel* mChl = nullptr;
-            std::size_t mIndex;
-            bool mPop;
+            std::size_t mIndex = 0;
+            bool mPop = false;
         public:
 
             wrapper_base() = default;
-- 
2.43.0


From 46b009a0bdcebd011917a317137adc66a5a5d57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 35/45] fix: a push whose value throws while it is moved left
 its position claimed forever

---
 macoro/channel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macoro/channel.h b/macoro/channel.h
index ca080ea..e1f7437 100644
--- a/macoro/channel.h
+++ b/macoro/channel.h
@@ -190,9 +190,10 @@ namespace macoro
                     return mInner.await_suspend(coroutine_handle<>(h));
                 }
                 auto await_resume() {
+                    // the wrapper announces the claimed position, also if moving the value throws.
                     auto idx = mInner.await_resume();
+                    push_wrapper position(mChl, idx);
                     mChl->mData[idx & mChl->mIndexMask].emplace(std::forward<T>(mT));
-                    mChl->mSequence.publish(idx);
                 }
             };
             return push_awaitable(mSequence.claim_one().MACORO_OPERATOR_COAWAIT(), this, std::forward<T>(t));
-- 
2.43.0


From 002235c0171fc48878dff9ec13d67d905dbb3c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 36/45] fix: popping from a closed channel made up an item and
 consumed the end marker

---
 macoro/channel.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macoro/channel.h b/macoro/channel.h
index e1f7437..f040ea2 100644
--- a/macoro/channel.h
+++ b/macoro/channel.h
@@ -105,8 +105,6 @@ namespace macoro
             {
                 assert(this->mChl);
                 auto& slot = this->mChl->mData[this->mChl->mIndexMask & this->mIndex];
-                if (!slot)
-                    slot.emplace();
                 return std::move(slot.value());
             }
 
@@ -325,6 +323,8 @@ namespace macoro
                 pop_wrapper await_resume() {
                     this->mChl->mLastKnown = this->mInner.await_resume();
                     assert(this->mChl->mLastKnown >= this->mChl->mFrontIndex);
+                    if (!this->mChl->mData[this->mChl->mFrontIndex & this->mChl->mIndexMask])
+                        throw channel_closed_exception{};
                     return pop_wrapper(this->mChl, this->mChl->mFrontIndex);
                 }
             };
-- 
2.43.0


From 5ea62e9cf00f8e4ff0d8e3168be9ec960412ac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 37/45] fix: a channel's capacity was checked only after the
 storage was made with it

---
 macoro/channel.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/macoro/channel.h b/macoro/channel.h
index f040ea2..68a1e96 100644
--- a/macoro/channel.h
+++ b/macoro/channel.h
@@ -35,6 +35,14 @@ namespace macoro
         std::size_t mIndexMask = 0, mFrontIndex = 0, mLastKnown = sequence_traits<std::size_t>::initial_sequence;
         std::vector<optional<T>> mData;
 
+        static std::size_t checked_capacity(std::size_t capacity)
+        {
+            auto powOf2 = (capacity > 0 && (capacity & (capacity - 1)) == 0);
+            if (!powOf2)
+                throw std::runtime_error("capacity must be a power of 2");
+            return capacity;
+        }
+
         class wrapper_base
         {
         protected:
@@ -153,12 +161,9 @@ namespace macoro
         // Initialize the channel with an internal max storage of capacity.
         // capacity must be a power of two.
         channel(std::size_t capacity)
-            : mSequence(mBarrier, capacity)
+            : mSequence(mBarrier, checked_capacity(capacity))
             , mData(capacity)
         {
-            auto powOf2 = (capacity > 0 && (capacity & (capacity - 1)) == 0);
-            if (!powOf2)
-                throw std::runtime_error("capacity must be a power of 2");
             mIndexMask = capacity - 1;
         }
 
-- 
2.43.0


From 4a833096978534bf2d99ad70621e5c09d876a356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 38/45] fix: a push whose value throws on its way into the
 awaitable left a position claimed forever

---
 macoro/channel.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/macoro/channel.h b/macoro/channel.h
index 68a1e96..d31d170 100644
--- a/macoro/channel.h
+++ b/macoro/channel.h
@@ -175,13 +175,14 @@ namespace macoro
             struct push_awaitable
             {
                 using inner = decltype(mSequence.claim_one().MACORO_OPERATOR_COAWAIT());
+                T mT;
                 inner mInner;
                 channel* mChl;
-                T mT;
-                push_awaitable(inner&& in, channel* chl, T&& t)
-                    : mInner(std::move(in))
+                // the position is claimed once the value has been moved, which may throw.
+                push_awaitable(channel* chl, T&& t)
+                    : mT(std::forward<T>(t))
+                    , mInner(chl->mSequence.claim_one().MACORO_OPERATOR_COAWAIT())
                     , mChl(chl)
-                    , mT(std::forward<T>(t))
                 {}
 
                 bool await_ready() { return mInner.await_ready(); }
@@ -199,7 +200,7 @@ namespace macoro
                     mChl->mData[idx & mChl->mIndexMask].emplace(std::forward<T>(mT));
                 }
             };
-            return push_awaitable(mSequence.claim_one().MACORO_OPERATOR_COAWAIT(), this, std::forward<T>(t));
+            return push_awaitable(this, std::forward<T>(t));
         }
 
         // Request a position in the queue. Once awaited, the caller can assign to the
-- 
2.43.0


From d734113bbfad80376b9c85fe6ee4b3b2def57e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 39/45] fix: numbers of a signed type compare across the
 wrap-around

---
 macoro/sequence_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_traits.h b/macoro/sequence_traits.h
index b39ae9f..4250775 100644
--- a/macoro/sequence_traits.h
+++ b/macoro/sequence_traits.h
@@ -20,7 +20,7 @@ namespace macoro
 
 		static constexpr difference_type difference(value_type a, value_type b)
 		{
-			return static_cast<difference_type>(a - b);
+			return static_cast<difference_type>(static_cast<size_type>(a) - static_cast<size_type>(b));
 		}
 
 		static constexpr bool precedes(value_type a, value_type b)
-- 
2.43.0


From 3aefd739680b817c1eb2f3711a04f71bd7bcc0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 40/45] fix: an exception thrown after a task returned its
 value does not leak the value

---
 macoro/detail/scoped_task_promise.h | 7 +++++++
 macoro/task.h                       | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/macoro/detail/scoped_task_promise.h b/macoro/detail/scoped_task_promise.h
index 6c83f6e..ddcf993 100644
--- a/macoro/detail/scoped_task_promise.h
+++ b/macoro/detail/scoped_task_promise.h
@@ -321,6 +321,13 @@ namespace macoro
 
 			void unhandled_exception() noexcept
 			{
+				// something can throw while being destroyed after the value was returned.
+				if constexpr (!std::is_void_v<T> && !std::is_reference_v<T>)
+				{
+					if (m_result_type == result_type::value)
+						this->m_value.~T();
+				}
+
 				::new (static_cast<void*>(std::addressof(this->m_exception))) std::exception_ptr(
 					std::current_exception());
 				m_result_type = result_type::exception;
diff --git a/macoro/task.h b/macoro/task.h
index 683a088..21b8341 100644
--- a/macoro/task.h
+++ b/macoro/task.h
@@ -245,6 +245,10 @@ namespace macoro
 
 			void unhandled_exception() noexcept
 			{
+				// a local of the body can throw in its destructor after the value was returned.
+				if (m_resultType == result_type::value)
+					m_value.~T();
+
 				::new (static_cast<void*>(std::addressof(m_exception))) std::exception_ptr(
 					std::current_exception());
 				m_resultType = result_type::exception;
-- 
2.43.0


From 6c99d94e54a61e2fd69b0775a000b92ccacb1ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 41/45] fix: macro coroutines can await awaiters with void or
 bool await_suspend(std::coroutine_handle<>)

---
 macoro/coro_frame.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index ce28955..64820bf 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -93,6 +93,20 @@ namespace macoro
 	}
 #endif
 
+	template<typename Awaiter, typename T>
+	constexpr bool noexcept_await_suspend()
+	{
+
+		if constexpr (requires(Awaiter a, coroutine_handle<T> h) { a.await_suspend(h); })
+		{
+			return noexcept(std::declval<Awaiter>().await_suspend(coroutine_handle<T>{}));
+		}
+		else
+		{
+			return noexcept(std::declval<Awaiter>().await_suspend(std::coroutine_handle<void>{}));
+		}
+	}
+
 	template<typename Awaiter, typename T>
 	await_suspend_t<bool> await_suspend(Awaiter& a, coroutine_handle<T> h,
 		enable_if_t<
@@ -101,7 +115,7 @@ namespace macoro
 		||
 		has_void_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept(a.await_suspend(h)))
+		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 		auto h2 = implicit_cast<has_void_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
 		a.await_suspend(h2);
@@ -116,7 +130,7 @@ namespace macoro
 		||
 		has_bool_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept(await_suspend_t<bool>{ a.await_suspend(h) }))
+		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 
 		auto h2 = implicit_cast<has_bool_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
@@ -124,20 +138,6 @@ namespace macoro
 	}
 
 
-	template<typename Awaiter, typename T>
-	constexpr bool noexcept_await_suspend()
-	{
-
-		if constexpr (requires(Awaiter a, coroutine_handle<T> h) { a.await_suspend(h); })
-		{
-			return noexcept(std::declval<Awaiter>().await_suspend(coroutine_handle<T>{}));
-		}
-		else
-		{
-			return noexcept(std::declval<Awaiter>().await_suspend(std::coroutine_handle<void>{}));
-		}
-	}
-
 	template<typename Awaiter, typename T>
 	auto await_suspend(Awaiter& a, coroutine_handle<T> h,
 		enable_if_t<
-- 
2.43.0


From adc2bfd851bc935df22016cfcb5efd8f1b328dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 42/45] fix: the standard handle of a macro coroutine without
 captures resumes it (clang)

---
 macoro/coro_frame.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 64820bf..d87fcc6 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -540,6 +540,9 @@ namespace macoro
 
 			struct promise_type
 			{
+				// not an aggregate, the frame is not to initialize mDone.
+				promise_type() = default;
+
 				suspend_always initial_suspend() noexcept { return {}; }
 				suspend_always final_suspend() const noexcept { return {}; }
 
-- 
2.43.0


From 56f8d346ad419fa536fa1a6b61036b135b698d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 43/45] fix: a macro coroutine whose await runs out of memory
 does not call a null deleter

---
 macoro/coro_frame.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index d87fcc6..a6d3e3b 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -380,6 +380,9 @@ namespace macoro
 				assert(aa.suspend_index != CTX::suspend_index);
 #endif
 
+			// might throw, in which case there is nothing to be destroyed.
+			auto owner = std::unique_ptr<CTX>(new CTX);
+
 			awaiters.emplace_back();
 			auto& d = awaiters.back();
 #ifndef NDEBUG
@@ -387,7 +390,7 @@ namespace macoro
 #endif
 			d.suspend_index = CTX::suspend_index;
 
-			auto ctx = new CTX;
+			auto ctx = owner.release();
 			d._ctx_ptr = ctx;
 
 			d._awaiter_deleter = [](void* ptr)
-- 
2.43.0


From 5592b8a9136c03f37a2241c70f11ff9beaaf7e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 44/45] fix: a macro coroutine keeps the value it yields until
 it continues

---
 macoro/macros.h      | 13 +++++++++----
 macoro/type_traits.h | 27 +++++++++++++++++++++++++--
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/macoro/macros.h b/macoro/macros.h
index 9f5ee5e..762f470 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -82,12 +82,17 @@
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();	\
 				} while(0)
 
+// The operand of a yield. It is awaited as promise.yield_value(EXPRESSION). A value is 
+// kept in the AwaitContext so that the promise can refer to it while we are suspended.
+#define IMPL_MC_YIELD_OPERAND(EXPRESSION)																		\
+	(::macoro::yield_operand<::macoro::store_as_t<decltype(::macoro::as_reference(EXPRESSION)), decltype(EXPRESSION)>>{ EXPRESSION })
+
 // A helper macro that implements the MC_YIELD_AWAIT. We first perform a normal co_await
 // and then we call another co_await on the result of promise.yield_value(awaiter.await_resume()).
 #define IMPL_MC_YIELD_AWAIT(EXPRESSION, SUSPEND_IDX)															\
 				do {	IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)												\
 					/*<resume-point>*/																			\
-					IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume()), ,__COUNTER__);\
+					IMPL_MC_AWAIT(IMPL_MC_YIELD_OPERAND(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume()), ,__COUNTER__);\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
 				} while(0)
 
@@ -179,16 +184,16 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 
 // perform a basic co_yeild expression. This is equivalent to
 // `co_yeild EXPRESSION`
-#define MC_YIELD(EXPRESSION)				MC_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION));
+#define MC_YIELD(EXPRESSION)				MC_AWAIT(IMPL_MC_YIELD_OPERAND(EXPRESSION));
 
 
 // perform a basic co_yeild expression and set VARIABLE to the result. This is equivalent to
 // `VARIABLE = co_yeild EXPRESSION`
-#define MC_YIELD_SET(VARIABLE, EXPRESSION)	MC_AWAIT_SET(VARIABLE , _macoro_frame_->promise.yield_value(EXPRESSION));
+#define MC_YIELD_SET(VARIABLE, EXPRESSION)	MC_AWAIT_SET(VARIABLE , IMPL_MC_YIELD_OPERAND(EXPRESSION));
 
 // perform a basic co_yeild expression and return to the result. This is equivalent to
 // `co_return co_yeild EXPRESSION`
-#define MC_RETURN_YIELD(EXPRESSION)			MC_RETURN_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION));
+#define MC_RETURN_YIELD(EXPRESSION)			MC_RETURN_AWAIT(IMPL_MC_YIELD_OPERAND(EXPRESSION));
 
 #define MC_UNHANDLED_EXCEPTION _macoro_frame_->promise.unhandled_exception()
 
diff --git a/macoro/type_traits.h b/macoro/type_traits.h
index 0e2258a..8b690ef 100644
--- a/macoro/type_traits.h
+++ b/macoro/type_traits.h
@@ -139,16 +139,39 @@ namespace macoro
 
 	struct empty_state {};
 
+	// the operand of a yield. The frame keeps it, and with it the 
+	// value given to the promise, until the coroutine continues.
+	template<typename T>
+	struct yield_operand
+	{
+		T value;
+	};
+
+	template<typename T>
+	struct is_yield_operand : std::false_type {};
+	template<typename T>
+	struct is_yield_operand<yield_operand<T>> : std::true_type {};
+
+	template<typename P, typename T>
+	inline decltype(auto) get_awaitable(P& promise, yield_operand<T>&& expr)
+	{
+		return promise.yield_value(static_cast<T&&>(expr.value));
+	}
+
 	template<typename P, typename T>
 	inline decltype(auto) get_awaitable(
-		P& promise, T&& expr, enable_if_t<has_await_transform_member<P,T&&>::value, empty_state> m = {})
+		P& promise, T&& expr, enable_if_t<std::conjunction<
+			std::negation<is_yield_operand<T>>, 
+			has_await_transform_member<P,T&&>>::value, empty_state> m = {})
 	{
 		return promise.await_transform(static_cast<T&&>(expr));
 	}
 
 	template<typename P, typename T>
 	inline decltype(auto) get_awaitable(
-		P& promise, T&& expr, enable_if_t<!has_await_transform_member<P,T&&>::value, empty_state> = {})
+		P& promise, T&& expr, enable_if_t<std::conjunction<
+			std::negation<is_yield_operand<T>>, 
+			std::negation<has_await_transform_member<P,T&&>>>::value, empty_state> = {})
 	{
 		return static_cast<T&&>(expr);
 	}
-- 
2.43.0


From 20381cca89e79c4c44cfbf1d98e6b19d4818dbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 45/45] fix: when_all_ready accepts named operations and
 reference wrappers

---
 macoro/when_all.h | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/macoro/when_all.h b/macoro/when_all.h
index 923e3ac..0c745ee 100644
--- a/macoro/when_all.h
+++ b/macoro/when_all.h
@@ -6,6 +6,7 @@
 
 #include "macoro/type_traits.h"
 #include <tuple>
+#include <functional>
 #include <vector>
 #include <atomic>
 #include "macoro/coroutine_handle.h"
@@ -15,6 +16,28 @@
 
 namespace macoro
 {
+	namespace detail
+	{
+		// how an operation is given to its task: temporary ones are kept, 
+		// named ones and those of a reference_wrapper are referred to.
+		template<typename T>
+		struct when_all_argument
+		{
+			using type = remove_rvalue_reference_t<T>;
+		};
+		template<typename T>
+		struct when_all_argument<std::reference_wrapper<T>>
+		{
+			using type = T&;
+		};
+		template<typename T>
+		struct when_all_argument<std::reference_wrapper<T>&> : when_all_argument<std::reference_wrapper<T>> {};
+		template<typename T>
+		struct when_all_argument<const std::reference_wrapper<T>&> : when_all_argument<std::reference_wrapper<T>> {};
+
+		template<typename T>
+		using when_all_argument_t = typename when_all_argument<T>::type;
+	}
 
 	template<typename... Awaitables,
 		enable_if_t<
@@ -31,13 +54,13 @@ namespace macoro
 				std::tuple<
 					detail::when_all_task<
 						awaitable_result_t<
-							remove_reference_and_wrapper_t<Awaitables>
+							detail::when_all_argument_t<Awaitables>
 						>
 					>...
 				>
 			>
 			(std::make_tuple(
-				detail::make_when_all_task<remove_rvalue_reference_t<Awaitables>>(
+				detail::make_when_all_task<detail::when_all_argument_t<Awaitables>>(
 					std::forward<Awaitables>(awaitables)
 				)...
 			)
@@ -50,7 +73,7 @@ namespace macoro
 
 	template<
 		typename AWAITABLE,
-		typename RESULT = awaitable_result_t<remove_reference_wrapper_t<AWAITABLE>>>
+		typename RESULT = awaitable_result_t<detail::when_all_argument_t<AWAITABLE>>>
 	MACORO_NODISCARD
 	auto when_all_ready(std::vector<AWAITABLE> awaitables)
 	{
@@ -60,7 +83,7 @@ namespace macoro
 
 		for (auto& awaitable : awaitables)
 		{
-			tasks.emplace_back(detail::make_when_all_task(std::move(awaitable)));
+			tasks.emplace_back(detail::make_when_all_task<detail::when_all_argument_t<AWAITABLE>>(std::move(awaitable)));
 		}
 
 		return detail::when_all_ready_awaitable<std::vector<detail::when_all_task<RESULT>>>(
-- 
2.43.0

