From 0a79184d0135952f292db25c0ea6b429e1dc7fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 01/36] fix: ucontext: take the injected function out of the
 record before running it

resume()/resume_with() cleared 'ontop' only after the function returned, so a
function that throws or suspends was executed again on the next resume.
---
 include/boost/context/continuation_ucontext.hpp | 10 ++++++++--
 include/boost/context/fiber_ucontext.hpp        | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 09fd311..1f62623 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -436,8 +436,11 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // take the function out of the record before it runs: it might
+            // throw or suspend and must not be executed a second time
+            auto ontop = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
@@ -459,8 +462,11 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // take the function out of the record before it runs: it might
+            // throw or suspend and must not be executed a second time
+            auto ontop = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 927a139..3f4381f 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -490,8 +490,11 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // take the function out of the record before it runs: it might
+            // throw or suspend and must not be executed a second time
+            auto ontop = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
@@ -509,8 +512,11 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // take the function out of the record before it runs: it might
+            // throw or suspend and must not be executed a second time
+            auto ontop = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
-- 
2.43.0


From dcf5862ffb42000598a58112a95d6d9872177b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 02/36] fix: ucontext fiber: honour drop and resume_with of a
 never-started fiber

Destroying a fiber that was never resumed executed its context-function, and
resume_with() on such a fiber started the context-function without executing
the injected function first.
---
 include/boost/context/fiber_ucontext.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 3f4381f..a24834e 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -284,12 +284,24 @@ public:
 #endif
         Ctx c{ from };
         try {
-            // invoke context-function
+            if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                // started by resume_with(): execute the function first
+                auto fn = std::move( ontop);
+                ontop = nullptr;
+                fiber_activation_record * ptr = c.ptr_;
+                c.ptr_ = nullptr;
+                c.ptr_ = fn( ptr);
+            }
+            // a context that is destroyed before it was started has nothing
+            // to unwind, its context-function must not be executed
+            if ( BOOST_LIKELY( ! force_unwind) ) {
+                // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
-            c = boost::context::detail::invoke( fn_, std::move( c) );
+                c = boost::context::detail::invoke( fn_, std::move( c) );
 #else
-            c = std::invoke( fn_, std::move( c) );
-#endif  
+                c = std::invoke( fn_, std::move( c) );
+#endif
+            }
         } catch ( forced_unwind const& ex) {
             c = Ctx{ ex.from };
         }
-- 
2.43.0


From 817a3dae82d5cca71fea43f43f84d9ca95506324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 03/36] fix: ucontext: contexts can be resumed from destructors
 during forced unwinding

'force_unwind' stayed set while the stack of a destroyed context was unwound,
so a destructor that resumed another context got a second forced_unwind
exception as soon as that context switched back.
---
 include/boost/context/continuation_ucontext.hpp | 4 ++++
 include/boost/context/fiber_ucontext.hpp        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 1f62623..9b4ca01 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -434,6 +434,8 @@ public:
         detail::activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // destructors might switch contexts while the stack is unwound
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // take the function out of the record before it runs: it might
@@ -460,6 +462,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // destructors might switch contexts while the stack is unwound
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // take the function out of the record before it runs: it might
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index a24834e..1b297bf 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -500,6 +500,8 @@ public:
         detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // destructors might switch contexts while the stack is unwound
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // take the function out of the record before it runs: it might
@@ -522,6 +524,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // destructors might switch contexts while the stack is unwound
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // take the function out of the record before it runs: it might
-- 
2.43.0


From 49a9ae1987c67973ba45b72f08346f4627d79d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 04/36] fix: ucontext: resume_with has no effect if the
 function can not be stored

The handle was emptied and current() was already changed when copying the
function object or allocating memory for it threw an exception; the context
was lost and the calling context was mistaken for the target.
---
 .../boost/context/continuation_ucontext.hpp   | 26 +++++++++----------
 include/boost/context/fiber_ucontext.hpp      | 26 +++++++++----------
 2 files changed, 24 insertions(+), 28 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 9b4ca01..8ae54b7 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -149,14 +149,10 @@ struct BOOST_CONTEXT_DECL activation_record {
     }
 
     template< typename Ctx, typename Fn >
-    activation_record * resume_with( Fn && fn) {
-		from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by continuation::current()
-        current() = this;
+    activation_record * resume_with( activation_record *& handle, Fn && fn) {
+        // might throw: nothing else has been changed yet
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -172,7 +168,7 @@ struct BOOST_CONTEXT_DECL activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -185,6 +181,13 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
         };
 #endif
+        // the caller's handle gives up this context
+        handle = nullptr;
+		from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by continuation::current()
+        current() = this;
 #if defined(BOOST_USE_SEGMENTED_STACKS)
         // adjust segmented stack properties
         __splitstack_getcontext( from->sctx.segments_ctx);
@@ -454,13 +457,8 @@ public:
 
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
-#if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
-#else
-        detail::activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
-#endif
+            ptr_->resume_with< continuation >( ptr_, std::forward< Fn >( fn) );
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             // destructors might switch contexts while the stack is unwound
             detail::activation_record::current()->force_unwind = false;
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 1b297bf..a592319 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -171,14 +171,10 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     }
 
     template< typename Ctx, typename Fn >
-    fiber_activation_record * resume_with( Fn && fn) {
-		from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by fiber::current()
-        current() = this;
+    fiber_activation_record * resume_with( fiber_activation_record *& handle, Fn && fn) {
+        // might throw: nothing else has been changed yet
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -194,7 +190,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -207,6 +203,13 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
         };
 #endif
+        // the caller's handle gives up this context
+        handle = nullptr;
+		from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by fiber::current()
+        current() = this;
 #if defined(BOOST_USE_SEGMENTED_STACKS)
         // adjust segmented stack properties
         __splitstack_getcontext( from->sctx.segments_ctx);
@@ -516,13 +519,8 @@ public:
     template< typename Fn >
     fiber resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != ptr_);
-#if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::fiber_activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
-#else
-        detail::fiber_activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
-#endif
+            ptr_->resume_with< fiber >( ptr_, std::forward< Fn >( fn) );
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             // destructors might switch contexts while the stack is unwound
             detail::fiber_activation_record::current()->force_unwind = false;
-- 
2.43.0


From 1bf397aeef354748d7671997bf2d8b5c605c6ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 05/36] fix: ucontext: give the stack back correctly if
 getcontext() fails

The stack was released through the caller's allocator after it had been moved
into the record, and the error code was read after destructors and the
allocator could have overwritten errno.
---
 include/boost/context/continuation_ucontext.hpp | 16 ++++++++++------
 include/boost/context/fiber_ucontext.hpp        | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 8ae54b7..6280132 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -298,10 +298,12 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( sctx);
+        const int err = errno;
+        // `salloc` might be moved-from, the record owns the allocator
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                std::error_code( err, std::system_category() ),
                 "getcontext() failed");
     }
     record->uctx.uc_stack.ss_sp = stack_bottom;
@@ -341,10 +343,12 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
             reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( palloc.sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( palloc.sctx);
+        const int err = errno;
+        // `salloc` might be moved-from, the record owns the allocator
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                std::error_code( err, std::system_category() ),
                 "getcontext() failed");
     }
     record->uctx.uc_stack.ss_sp = stack_bottom;
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index a592319..aa8a5ee 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -335,10 +335,12 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( sctx);
+        const int err = errno;
+        // `salloc` might be moved-from, the record owns the allocator
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                std::error_code( err, std::system_category() ),
                 "getcontext() failed");
     }
 #if BOOST_OS_BSD_FREE
@@ -386,10 +388,12 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
             reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( palloc.sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( palloc.sctx);
+        const int err = errno;
+        // `salloc` might be moved-from, the record owns the allocator
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                std::error_code( err, std::system_category() ),
                 "getcontext() failed");
     }
 #if BOOST_OS_BSD_FREE
-- 
2.43.0


From fd32e5d4fb45b2c5ac7a1ba89d4f237886e89173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 06/36] fix: fcontext continuation: resume_with() with an
 lvalue function

The function was stored as std::tuple<Fn> but read as std::tuple<Fn&>.
---
 include/boost/context/continuation_fcontext.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 0977e0f..9735f94 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -106,7 +106,7 @@ void context_entry( transfer_t t) noexcept {
 
 template< typename Ctx, typename Fn >
 transfer_t context_ontop( transfer_t t) {
-    auto p = static_cast< std::tuple< Fn > * >( t.data);
+    auto p = static_cast< std::tuple< typename std::decay< Fn >::type > * >( t.data);
     BOOST_ASSERT( nullptr != p);
     typename std::decay< Fn >::type fn = std::get< 0 >( * p);
     t.data = nullptr;
@@ -330,7 +330,7 @@ public:
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != fctx_);
-        auto p = std::make_tuple( std::forward< Fn >( fn) );
+        std::tuple< typename std::decay< Fn >::type > p{ std::forward< Fn >( fn) };
         return { detail::ontop_fcontext(
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
                     detail::exchange( fctx_, nullptr),
-- 
2.43.0


From fd27e5a209203cb4e10eafaff8bfd07e66dbb027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 07/36] fix: fcontext: do not copy the injected function on the
 target context

The caller's copy is moved instead: an exception thrown by the copy
constructor would have surfaced in the target context.
---
 include/boost/context/continuation_fcontext.hpp | 2 +-
 include/boost/context/fiber_fcontext.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 9735f94..24e7885 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -108,7 +108,7 @@ template< typename Ctx, typename Fn >
 transfer_t context_ontop( transfer_t t) {
     auto p = static_cast< std::tuple< typename std::decay< Fn >::type > * >( t.data);
     BOOST_ASSERT( nullptr != p);
-    typename std::decay< Fn >::type fn = std::get< 0 >( * p);
+    typename std::decay< Fn >::type fn = std::move( std::get< 0 >( * p) );
     t.data = nullptr;
     Ctx c{ t.fctx };
     // execute function, pass continuation via reference
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index a2760cb..7e8587a 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -107,7 +107,7 @@ void fiber_entry( transfer_t t) noexcept {
 template< typename Ctx, typename Fn >
 transfer_t fiber_ontop( transfer_t t) {
     BOOST_ASSERT( nullptr != t.data);
-    auto p = *static_cast< Fn * >( t.data);
+    auto p = std::move( * static_cast< Fn * >( t.data) );
     t.data = nullptr;
     // execute function, pass fiber via reference
     Ctx c = p( Ctx{ t.fctx } );
-- 
2.43.0


From 963330406b48ea4b95f90672bde973e5212c0f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 08/36] fix: protected_fixedsize_stack: fail if the guard page
 can not be protected

The result of mprotect() was only checked by an assertion: with NDEBUG a stack
without guard page was handed out.
---
 include/boost/context/posix/protected_fixedsize_stack.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/context/posix/protected_fixedsize_stack.hpp b/include/boost/context/posix/protected_fixedsize_stack.hpp
index cc77d7d..fa921c4 100644
--- a/include/boost/context/posix/protected_fixedsize_stack.hpp
+++ b/include/boost/context/posix/protected_fixedsize_stack.hpp
@@ -65,9 +65,11 @@ public:
         if ( MAP_FAILED == vp) throw std::bad_alloc();
 
         // conforming to POSIX.1-2001
-        const int result( ::mprotect( vp, traits_type::page_size(), PROT_NONE) );
-        boost::ignore_unused(result);
-        BOOST_ASSERT( 0 == result);
+        if ( 0 != ::mprotect( vp, traits_type::page_size(), PROT_NONE) ) {
+            // never hand out a stack without its guard-page
+            ::munmap( vp, size__);
+            throw std::bad_alloc();
+        }
 
         stack_context sctx;
         sctx.size = size__;
-- 
2.43.0


From cd7d4f05612725fc0a605a602a8d7b45e232071f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 09/36] fix: x86_64 sysv elf: store the stack guard in the new
 context's data

With BOOST_CONTEXT_TLS_STACK_PROTECTOR make_fcontext() wrote the guard above
its own return address, into the caller's frame, and left the slot that
jump_fcontext() loads the guard from uninitialized.
---
 src/asm/make_x86_64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_x86_64_sysv_elf_gas.S b/src/asm/make_x86_64_sysv_elf_gas.S
index 7561c08..9336210 100644
--- a/src/asm/make_x86_64_sysv_elf_gas.S
+++ b/src/asm/make_x86_64_sysv_elf_gas.S
@@ -77,7 +77,7 @@ make_fcontext:
 #if defined(BOOST_CONTEXT_TLS_STACK_PROTECTOR)
     /* save stack guard */
     movq  %fs:0x28, %rcx    /* read stack guard from TLS record */
-    movq  %rcx, 0x8(%rsp)   /* save stack guard */
+    movq  %rcx, 0x8(%rax)   /* save stack guard */
 #endif
 
     /* compute abs address of label trampoline */
-- 
2.43.0


From 1fff9c125f92bc4aeb0377cb6afa7d1c70c78f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 10/36] fix: protected_fixedsize_stack: reject sizes whose page
 count overflows

A stack size within two pages of SIZE_MAX wrapped around, so that allocate()
returned a tiny mapping (possibly only the guard page) instead of failing.
---
 include/boost/context/posix/protected_fixedsize_stack.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/context/posix/protected_fixedsize_stack.hpp b/include/boost/context/posix/protected_fixedsize_stack.hpp
index fa921c4..bbd3f25 100644
--- a/include/boost/context/posix/protected_fixedsize_stack.hpp
+++ b/include/boost/context/posix/protected_fixedsize_stack.hpp
@@ -16,6 +16,7 @@ extern "C" {
 
 #include <cmath>
 #include <cstddef>
+#include <limits>
 #include <new>
 
 #include <boost/assert.hpp>
@@ -50,6 +51,8 @@ public:
     }
 
     stack_context allocate() {
+        // a size that can not be rounded up to whole pages plus guard-page can not be allocated
+        if ( size_ > (std::numeric_limits< std::size_t >::max)() - 2 * traits_type::page_size() ) throw std::bad_alloc();
         // calculate how many pages are required
         const std::size_t pages = (size_ + traits_type::page_size() - 1) / traits_type::page_size();
         // add one page at bottom that will be used as guard-page
-- 
2.43.0


From d209d8d63c9a1c86e0950c20e717ec3e698703fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 11/36] fix: pooled_fixedsize_stack: constructor may throw

It allocates the shared storage; declared noexcept, a failing allocation
terminated the program instead of throwing std::bad_alloc.
---
 include/boost/context/pooled_fixedsize_stack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/context/pooled_fixedsize_stack.hpp b/include/boost/context/pooled_fixedsize_stack.hpp
index c115c86..26f5b94 100644
--- a/include/boost/context/pooled_fixedsize_stack.hpp
+++ b/include/boost/context/pooled_fixedsize_stack.hpp
@@ -128,7 +128,7 @@ public:
 
     basic_pooled_fixedsize_stack( std::size_t stack_size = traits_type::default_size(),
                            std::size_t next_size = 32,
-                           std::size_t max_size = 0) BOOST_NOEXCEPT_OR_NOTHROW :
+                           std::size_t max_size = 0) :
         storage_( new storage( stack_size, next_size, max_size) ) {
     }
 
-- 
2.43.0


From af551be6deb9974f4ec7762645a614c0434850ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 12/36] fix: pooled_fixedsize_stack: do not map over memory
 behind the block

With BOOST_CONTEXT_USE_MAP_STACK the pool's block was mapped with MAP_FIXED;
its size is not a multiple of the page size, so the rest of the last page,
owned by the heap, was replaced with zeros.
---
 include/boost/context/pooled_fixedsize_stack.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/pooled_fixedsize_stack.hpp b/include/boost/context/pooled_fixedsize_stack.hpp
index 26f5b94..b5c9dd5 100644
--- a/include/boost/context/pooled_fixedsize_stack.hpp
+++ b/include/boost/context/pooled_fixedsize_stack.hpp
@@ -48,10 +48,13 @@ struct map_stack_allocator {
 
     static char * malloc( const size_type bytes) {
         void * block;
-        if ( ::posix_memalign( &block, traitsT::page_size(), bytes) != 0) {
+        // MAP_FIXED replaces whole pages: the block must not share its last page
+        const size_type page_size = traitsT::page_size();
+        const size_type size = ( bytes + page_size - 1) / page_size * page_size;
+        if ( size < bytes || ::posix_memalign( &block, page_size, size) != 0) {
             return 0;
         }
-        if ( mmap( block, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_FIXED | MAP_STACK, -1, 0) == MAP_FAILED) {
+        if ( mmap( block, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_FIXED | MAP_STACK, -1, 0) == MAP_FAILED) {
             std::free( block);
             return 0;
         }
-- 
2.43.0


From d5b9fc9c1c85fd599a500e494ab7a9a1e2fa2e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 13/36] fix: ucontext: announce the final switch of a
 terminated context to ASAN

A context that has terminated must release its fake stack, that is the
context that is left, not the one that is entered.
---
 include/boost/context/continuation_ucontext.hpp | 2 +-
 include/boost/context/fiber_ucontext.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 6280132..49a623f 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -128,7 +128,7 @@ struct BOOST_CONTEXT_DECL activation_record {
         __splitstack_setcontext( sctx.segments_ctx);
 #endif
 #if defined(BOOST_USE_ASAN)
-        if ( terminated) {
+        if ( from->terminated) {
             __sanitizer_start_switch_fiber( nullptr, stack_bottom, stack_size);
         } else {
             __sanitizer_start_switch_fiber( & from->fake_stack, stack_bottom, stack_size);
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index aa8a5ee..8ee5a71 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -147,7 +147,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
         __splitstack_setcontext( sctx.segments_ctx);
 #endif
 #if defined(BOOST_USE_ASAN)
-        if ( terminated) {
+        if ( from->terminated) {
             __sanitizer_start_switch_fiber( nullptr, stack_bottom, stack_size);
         } else {
             __sanitizer_start_switch_fiber( & from->fake_stack, stack_bottom, stack_size);
-- 
2.43.0


From 14faa83d4866646e5bf4a5cac60cf198330149cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 14/36] fix: ucontext fiber: no TSAN context to destroy if the
 construction failed

---
 include/boost/context/fiber_ucontext.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 8ee5a71..1b97382 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -124,7 +124,8 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 
     virtual ~fiber_activation_record() {
 #if defined(BOOST_USE_TSAN)
-        if (destroy_tsan_fiber)
+        // not set if the construction of the context has failed
+        if (destroy_tsan_fiber && nullptr != tsan_fiber)
             __tsan_destroy_fiber(tsan_fiber);
 #endif
 	}
-- 
2.43.0


From a8737e5081b60cb2edc62c56b5b3aff8631f0358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 15/36] fix: ucontext: stream a handle of a terminated context
 as not-a-context

operator bool() and operator!() report the handle of a terminated context
as invalid, but operator<< printed the pointer of its record.
---
 include/boost/context/continuation_ucontext.hpp | 4 ++--
 include/boost/context/fiber_ucontext.hpp        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 49a623f..51ca298 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -494,7 +494,7 @@ public:
     template< typename charT, class traitsT >
     friend std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, continuation const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
@@ -519,7 +519,7 @@ public:
     template< typename charT, class traitsT >
     inline std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, continuation const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 1b97382..ce9a250 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -557,7 +557,7 @@ public:
     template< typename charT, class traitsT >
     friend std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, fiber const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
@@ -582,7 +582,7 @@ public:
     template< typename charT, class traitsT >
     inline std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, fiber const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
-- 
2.43.0


From e4ed8f459815b14a9bba6330ff70fc974ecdfa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:06 +0000
Subject: [PATCH 16/36] fix: ucontext: keep the toplevel record usable until
 the thread has ended

The record of the thread's own context was deleted by the destructor of a
thread-local object. Contexts that were switched afterwards (handles owned
by thread-local or static objects that are destroyed later) used the
deleted record. exit() called by another context deleted the record of
that context, which lives on its stack.
---
 src/continuation.cpp | 15 +++++++++++++++
 src/fiber.cpp        | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/continuation.cpp b/src/continuation.cpp
index 2d77696..d700248 100644
--- a/src/continuation.cpp
+++ b/src/continuation.cpp
@@ -10,6 +10,9 @@
 #include "boost/context/continuation_winfib.hpp"
 #endif
 
+#include <new>
+#include <type_traits>
+
 #include <boost/config.hpp>
 
 #ifdef BOOST_HAS_ABI_HEADERS
@@ -27,14 +30,26 @@ thread_local static std::size_t counter;
 // schwarz counter
 activation_record_initializer::activation_record_initializer() noexcept {
     if ( 0 == counter++) {
+#if defined(BOOST_USE_WINFIB)
         current_rec = new activation_record();
+#else
+        // lasts as long as the thread: destructors of thread-local and static
+        // objects might switch contexts after `initializer` was destroyed,
+        // exit() might be called by another context
+        thread_local static std::aligned_storage<
+            sizeof( activation_record), alignof( activation_record)
+        >::type storage;
+        current_rec = new ( & storage) activation_record();
+#endif
     }
 }
 
 activation_record_initializer::~activation_record_initializer() {
     if ( 0 == --counter) {
+#if defined(BOOST_USE_WINFIB)
         BOOST_ASSERT( current_rec->is_main_context() );
         delete current_rec;
+#endif
     }
 }
 
diff --git a/src/fiber.cpp b/src/fiber.cpp
index b6b790d..719bda4 100644
--- a/src/fiber.cpp
+++ b/src/fiber.cpp
@@ -10,6 +10,9 @@
 #include "boost/context/fiber_winfib.hpp"
 #endif
 
+#include <new>
+#include <type_traits>
+
 #include <boost/config.hpp>
 
 #ifdef BOOST_HAS_ABI_HEADERS
@@ -27,14 +30,26 @@ thread_local static std::size_t counter;
 // schwarz counter
 fiber_activation_record_initializer::fiber_activation_record_initializer() noexcept {
     if ( 0 == counter++) {
+#if defined(BOOST_USE_WINFIB)
         fib_current_rec = new fiber_activation_record();
+#else
+        // lasts as long as the thread: destructors of thread-local and static
+        // objects might switch contexts after `initializer` was destroyed,
+        // exit() might be called by another context
+        thread_local static std::aligned_storage<
+            sizeof( fiber_activation_record), alignof( fiber_activation_record)
+        >::type storage;
+        fib_current_rec = new ( & storage) fiber_activation_record();
+#endif
     }
 }
 
 fiber_activation_record_initializer::~fiber_activation_record_initializer() {
     if ( 0 == --counter) {
+#if defined(BOOST_USE_WINFIB)
         BOOST_ASSERT( fib_current_rec->is_main_context() );
         delete fib_current_rec;
+#endif
     }
 }
 
-- 
2.43.0


From fe7c40d5c32283efe5992e4e360eed788de03348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:23 +0000
Subject: [PATCH 17/36] fix: winfib: take the injected function out of the
 record before running it

---
 include/boost/context/continuation_winfib.hpp | 10 ++++++++--
 include/boost/context/fiber_winfib.hpp        | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 856c868..703c16d 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -347,8 +347,11 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // take the function out of the record before it runs: it might
+            // throw or suspend and must not be executed a second time
+            auto ontop = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
@@ -370,8 +373,11 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // take the function out of the record before it runs: it might
+            // throw or suspend and must not be executed a second time
+            auto ontop = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index cd496d1..21dde77 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -354,8 +354,11 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // take the function out of the record before it runs: it might
+            // throw or suspend and must not be executed a second time
+            auto ontop = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
@@ -373,8 +376,11 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // take the function out of the record before it runs: it might
+            // throw or suspend and must not be executed a second time
+            auto ontop = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
-- 
2.43.0


From fc428c1280e6ad3ca52c7e655b2d0bb5a94d5fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:23 +0000
Subject: [PATCH 18/36] fix: winfib fiber: honour drop and resume_with of a
 never-started fiber

---
 include/boost/context/fiber_winfib.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 21dde77..60baa4b 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -221,12 +221,24 @@ public:
     void run() {
         Ctx c{ from };
         try {
-            // invoke context-function
+            if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                // started by resume_with(): execute the function first
+                auto fn = std::move( ontop);
+                ontop = nullptr;
+                fiber_activation_record * ptr = c.ptr_;
+                c.ptr_ = nullptr;
+                c.ptr_ = fn( ptr);
+            }
+            // a context that is destroyed before it was started has nothing
+            // to unwind, its context-function must not be executed
+            if ( BOOST_LIKELY( ! force_unwind) ) {
+                // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
-            c = boost::context::detail::invoke( fn_, std::move( c) );
+                c = boost::context::detail::invoke( fn_, std::move( c) );
 #else
-            c = std::invoke( fn_, std::move( c) );
-#endif  
+                c = std::invoke( fn_, std::move( c) );
+#endif
+            }
         } catch ( forced_unwind const& ex) {
             c = Ctx{ ex.from };
         }
-- 
2.43.0


From cad6e301c0d1319eb06ce1e0ef901a52ac603138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:23 +0000
Subject: [PATCH 19/36] fix: winfib: contexts can be resumed from destructors
 during forced unwinding

---
 include/boost/context/continuation_winfib.hpp | 4 ++++
 include/boost/context/fiber_winfib.hpp        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 703c16d..89057e8 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -345,6 +345,8 @@ public:
         detail::activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // destructors might switch contexts while the stack is unwound
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // take the function out of the record before it runs: it might
@@ -371,6 +373,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // destructors might switch contexts while the stack is unwound
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // take the function out of the record before it runs: it might
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 60baa4b..bf447de 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -364,6 +364,8 @@ public:
         detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // destructors might switch contexts while the stack is unwound
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // take the function out of the record before it runs: it might
@@ -386,6 +388,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // destructors might switch contexts while the stack is unwound
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // take the function out of the record before it runs: it might
-- 
2.43.0


From 73810caec767dbdc69b6c68de33a7790c152b880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:23 +0000
Subject: [PATCH 20/36] fix: winfib: resume_with has no effect if the function
 can not be stored

---
 include/boost/context/continuation_winfib.hpp | 26 +++++++++----------
 include/boost/context/fiber_winfib.hpp        | 26 +++++++++----------
 2 files changed, 24 insertions(+), 28 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 89057e8..6f29fcb 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -130,14 +130,10 @@ struct BOOST_CONTEXT_DECL activation_record {
     }
 
     template< typename Ctx, typename Fn >
-    activation_record * resume_with( Fn && fn) {
-        from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by continuation::current()
-        current() = this;
+    activation_record * resume_with( activation_record *& handle, Fn && fn) {
+        // might throw: nothing else has been changed yet
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -153,7 +149,7 @@ struct BOOST_CONTEXT_DECL activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -166,6 +162,13 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
         };
 #endif
+        // the caller's handle gives up this context
+        handle = nullptr;
+        from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by continuation::current()
+        current() = this;
         // context switch
         ::SwitchToFiber( fiber);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
@@ -365,13 +368,8 @@ public:
 
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
-#if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
-#else
-        detail::activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
-#endif
+            ptr_->resume_with< continuation >( ptr_, std::forward< Fn >( fn) );
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             // destructors might switch contexts while the stack is unwound
             detail::activation_record::current()->force_unwind = false;
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index bf447de..fcccbc8 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -129,14 +129,10 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     }
 
     template< typename Ctx, typename Fn >
-    fiber_activation_record * resume_with( Fn && fn) {
-        from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by fiber::current()
-        current() = this;
+    fiber_activation_record * resume_with( fiber_activation_record *& handle, Fn && fn) {
+        // might throw: nothing else has been changed yet
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -152,7 +148,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -165,6 +161,13 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
         };
 #endif
+        // the caller's handle gives up this context
+        handle = nullptr;
+        from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by fiber::current()
+        current() = this;
         // context switch
         ::SwitchToFiber( fiber);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
@@ -380,13 +383,8 @@ public:
     template< typename Fn >
     fiber resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != ptr_);
-#if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::fiber_activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
-#else
-        detail::fiber_activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
-#endif
+            ptr_->resume_with< fiber >( ptr_, std::forward< Fn >( fn) );
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             // destructors might switch contexts while the stack is unwound
             detail::fiber_activation_record::current()->force_unwind = false;
-- 
2.43.0


From 64f606e9b2466e70bb527b9f52f71cd884c0d751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:23 +0000
Subject: [PATCH 21/36] fix: winfib: stream a handle of a terminated context as
 not-a-context

---
 include/boost/context/continuation_winfib.hpp | 4 ++--
 include/boost/context/fiber_winfib.hpp        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 6f29fcb..fb890d3 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -401,7 +401,7 @@ public:
     template< typename charT, class traitsT >
     friend std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, continuation const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
@@ -426,7 +426,7 @@ public:
     template< typename charT, class traitsT >
     inline std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, continuation const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index fcccbc8..a10ddb7 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -416,7 +416,7 @@ public:
     template< typename charT, class traitsT >
     friend std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, fiber const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
@@ -441,7 +441,7 @@ public:
     template< typename charT, class traitsT >
     inline std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, fiber const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
-- 
2.43.0


From 83a7e467fb06daeb439e079ee47d664c47f92eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:23 +0000
Subject: [PATCH 22/36] fix: winfib: report a failure of CreateFiber()

---
 include/boost/context/continuation_winfib.hpp | 21 ++++++++++++++++++-
 include/boost/context/fiber_winfib.hpp        | 21 ++++++++++++++++++-
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index fb890d3..8e7306c 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -102,7 +102,8 @@ struct BOOST_CONTEXT_DECL activation_record {
     virtual ~activation_record() {
         if ( BOOST_UNLIKELY( main_ctx) ) {
             ::ConvertFiberToThread();
-        } else {
+        } else if ( BOOST_LIKELY( nullptr != fiber) ) {
+            // not set if the construction of the context has failed
             ::DeleteFiber( fiber);
         }
     }
@@ -259,6 +260,15 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( sctx.size, & detail::entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD err = ::GetLastError();
+        // `salloc` might be moved-from, the record owns the allocator
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( err), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
@@ -276,6 +286,15 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( palloc.sctx.size, & detail::entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD err = ::GetLastError();
+        // `salloc` might be moved-from, the record owns the allocator
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( err), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index a10ddb7..ef829ad 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -101,7 +101,8 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     virtual ~fiber_activation_record() {
         if ( BOOST_UNLIKELY( main_ctx) ) {
             ::ConvertFiberToThread();
-        } else {
+        } else if ( BOOST_LIKELY( nullptr != fiber) ) {
+            // not set if the construction of the context has failed
             ::DeleteFiber( fiber);
         }
     }
@@ -270,6 +271,15 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( sctx.size, & detail::fiber_entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD err = ::GetLastError();
+        // `salloc` might be moved-from, the record owns the allocator
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( err), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
@@ -287,6 +297,15 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( palloc.sctx.size, & detail::fiber_entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD err = ::GetLastError();
+        // `salloc` might be moved-from, the record owns the allocator
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( err), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
-- 
2.43.0


From 3ce9b9087ce07f1c1b52e630c08edee964de9221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:15 +0000
Subject: [PATCH 23/36] fix: windows protected_fixedsize_stack: fail if the
 guard page can not be protected

---
 .../boost/context/windows/protected_fixedsize_stack.hpp   | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/context/windows/protected_fixedsize_stack.hpp b/include/boost/context/windows/protected_fixedsize_stack.hpp
index 30f74c2..5f05a46 100644
--- a/include/boost/context/windows/protected_fixedsize_stack.hpp
+++ b/include/boost/context/windows/protected_fixedsize_stack.hpp
@@ -17,7 +17,6 @@ extern "C" {
 
 #include <boost/assert.hpp>
 #include <boost/config.hpp>
-#include <boost/core/ignore_unused.hpp>
 
 #include <boost/context/detail/config.hpp>
 #include <boost/context/stack_context.hpp>
@@ -54,8 +53,11 @@ public:
         DWORD old_options;
         const BOOL result = ::VirtualProtect(
             vp, traits_type::page_size(), PAGE_READWRITE | PAGE_GUARD /*PAGE_NOACCESS*/, & old_options);
-        boost::ignore_unused(result);
-        BOOST_ASSERT( FALSE != result);
+        if ( FALSE == result) {
+            // never hand out a stack without its guard-page
+            ::VirtualFree( vp, 0, MEM_RELEASE);
+            throw std::bad_alloc();
+        }
 
         stack_context sctx;
         sctx.size = size__;
-- 
2.43.0


From 5e7f9efd6d926de3f6f0666a591cfb803f63203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:15 +0000
Subject: [PATCH 24/36] fix: windows protected_fixedsize_stack: reject sizes
 whose page count overflows

---
 include/boost/context/windows/protected_fixedsize_stack.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/context/windows/protected_fixedsize_stack.hpp b/include/boost/context/windows/protected_fixedsize_stack.hpp
index 5f05a46..f17a8d1 100644
--- a/include/boost/context/windows/protected_fixedsize_stack.hpp
+++ b/include/boost/context/windows/protected_fixedsize_stack.hpp
@@ -13,6 +13,7 @@ extern "C" {
 
 #include <cmath>
 #include <cstddef>
+#include <limits>
 #include <new>
 
 #include <boost/assert.hpp>
@@ -42,6 +43,8 @@ public:
     }
 
     stack_context allocate() {
+        // a size that can not be rounded up to whole pages plus guard-page can not be allocated
+        if ( size_ > (std::numeric_limits< std::size_t >::max)() - 2 * traits_type::page_size() ) throw std::bad_alloc();
         // calculate how many pages are required
         const std::size_t pages = (size_ + traits_type::page_size() - 1) / traits_type::page_size();
         // add one page at bottom that will be used as guard-page
-- 
2.43.0


From c1ca17355c1b93e0ad6fe9bc581e5f881844b651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:16 +0000
Subject: [PATCH 25/36] fix: winfib: keep the toplevel record usable until the
 thread has ended

---
 src/continuation.cpp | 14 +++-----------
 src/fiber.cpp        | 14 +++-----------
 2 files changed, 6 insertions(+), 22 deletions(-)

diff --git a/src/continuation.cpp b/src/continuation.cpp
index d700248..cccf8ec 100644
--- a/src/continuation.cpp
+++ b/src/continuation.cpp
@@ -30,27 +30,19 @@ thread_local static std::size_t counter;
 // schwarz counter
 activation_record_initializer::activation_record_initializer() noexcept {
     if ( 0 == counter++) {
-#if defined(BOOST_USE_WINFIB)
-        current_rec = new activation_record();
-#else
         // lasts as long as the thread: destructors of thread-local and static
         // objects might switch contexts after `initializer` was destroyed,
-        // exit() might be called by another context
+        // exit() might be called by another context (Windows: the operating
+        // system frees the data of the thread's fiber when the thread ends)
         thread_local static std::aligned_storage<
             sizeof( activation_record), alignof( activation_record)
         >::type storage;
         current_rec = new ( & storage) activation_record();
-#endif
     }
 }
 
 activation_record_initializer::~activation_record_initializer() {
-    if ( 0 == --counter) {
-#if defined(BOOST_USE_WINFIB)
-        BOOST_ASSERT( current_rec->is_main_context() );
-        delete current_rec;
-#endif
-    }
+    --counter;
 }
 
 }
diff --git a/src/fiber.cpp b/src/fiber.cpp
index 719bda4..d3134a4 100644
--- a/src/fiber.cpp
+++ b/src/fiber.cpp
@@ -30,27 +30,19 @@ thread_local static std::size_t counter;
 // schwarz counter
 fiber_activation_record_initializer::fiber_activation_record_initializer() noexcept {
     if ( 0 == counter++) {
-#if defined(BOOST_USE_WINFIB)
-        fib_current_rec = new fiber_activation_record();
-#else
         // lasts as long as the thread: destructors of thread-local and static
         // objects might switch contexts after `initializer` was destroyed,
-        // exit() might be called by another context
+        // exit() might be called by another context (Windows: the operating
+        // system frees the data of the thread's fiber when the thread ends)
         thread_local static std::aligned_storage<
             sizeof( fiber_activation_record), alignof( fiber_activation_record)
         >::type storage;
         fib_current_rec = new ( & storage) fiber_activation_record();
-#endif
     }
 }
 
 fiber_activation_record_initializer::~fiber_activation_record_initializer() {
-    if ( 0 == --counter) {
-#if defined(BOOST_USE_WINFIB)
-        BOOST_ASSERT( fib_current_rec->is_main_context() );
-        delete fib_current_rec;
-#endif
-    }
+    --counter;
 }
 
 }
-- 
2.43.0


From 852c0fd448e9f39860cbc0f40f6acfe57e4a936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:26 +0000
Subject: [PATCH 26/36] fix: sparc64: align the stack of a new context to 16
 bytes

---
 src/asm/make_sparc64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_sparc64_sysv_elf_gas.S b/src/asm/make_sparc64_sysv_elf_gas.S
index 3e7ee80..8049779 100644
--- a/src/asm/make_sparc64_sysv_elf_gas.S
+++ b/src/asm/make_sparc64_sysv_elf_gas.S
@@ -23,7 +23,7 @@ make_fcontext:
 	save	%sp, -CC64FSZ, %sp
 
 	# shift address in %i0 (allocated stack) to lower 16 byte boundary
-	and	%i0, -0xf, %i0
+	and	%i0, -0x10, %i0
 
 	# reserve space for two frames on the stack
 	# the first frame is for the call the second one holds the data
-- 
2.43.0


From dc1b510a834c92365e907bdd866d36078dce128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:26 +0000
Subject: [PATCH 27/36] fix: mips64: keep the global pointer for _exit() inside
 the stack frame

---
 src/asm/make_mips64_n64_elf_gas.S | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/asm/make_mips64_n64_elf_gas.S b/src/asm/make_mips64_n64_elf_gas.S
index 40f29a5..12c2259 100644
--- a/src/asm/make_mips64_n64_elf_gas.S
+++ b/src/asm/make_mips64_n64_elf_gas.S
@@ -63,12 +63,15 @@ make_fcontext:
     and $v0, $v1, $a0
 
     # reserve space for context-data on context-stack
-    daddiu $v0, $v0, -160
+    #  - 160 bytes of context-data
+    #  - 8 bytes to save our GP register used in finish
+    #  - 8 bytes for alignment
+    daddiu $v0, $v0, -176
 
     # third arg of make_fcontext() == address of context-function
     sd  $a2, 152($v0)
-    # save global pointer in context-data
-    sd  $gp, 136($v0)
+    # save global pointer above the frame of the context-function
+    sd  $gp, 160($v0)
 
     # psudo instruction compute abs address of label finish based on GP
     dla  $t9, finish
@@ -81,12 +84,9 @@ make_fcontext:
 
 finish:
     # reload our gp register (needed for la)
-    daddiu $t0, $sp, -160
-    ld $gp, 136($t0)
+    ld $gp, 0($sp)
 
     # call _exit(0)
-    #  the previous function should have left the 16 bytes incoming argument
-    #  area on the stack which we reuse for calling _exit
     dla $t9, _exit
     move $a0, $zero
     jr $t9
-- 
2.43.0


From f180ffd298cffecd32d987157a12180a2e080b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:26 +0000
Subject: [PATCH 28/36] fix: ppc64: preserve the non-volatile floating-point
 and vector registers

---
 src/asm/jump_ppc64_sysv_elf_gas.S  | 119 ++++++++++++++++++++++++++---
 src/asm/make_ppc64_sysv_elf_gas.S  |  29 ++++---
 src/asm/ontop_ppc64_sysv_elf_gas.S | 119 ++++++++++++++++++++++++++---
 3 files changed, 234 insertions(+), 33 deletions(-)

diff --git a/src/asm/jump_ppc64_sysv_elf_gas.S b/src/asm/jump_ppc64_sysv_elf_gas.S
index fc3c6d6..1566666 100644
--- a/src/asm/jump_ppc64_sysv_elf_gas.S
+++ b/src/asm/jump_ppc64_sysv_elf_gas.S
@@ -47,25 +47,32 @@
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    | F14 - F31 |  *
  *  -------------------------------------------------  *
+ *                                                     *
+ *  F14 - F31 are saved at 184 - 327, with AltiVec also *
+ *  V20 - V31 at 328 - 519; CONTEXT_SIZE bytes above   *
+ *  the context-data is the frame of the context:      *
+ *                                                     *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
- *  -------------------------------------------------  *
- *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
- *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |  0  |  4  |  8  |  12 |  16 |  20 |  24 |  28 |  *
  *  -------------------------------------------------  *
+ *  | back-chain|  cr saved |  lr saved |  compiler |  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
  *  -------------------------------------------------  *
- *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
+ *  |  32 |  36 |  40 |  44 |  48 |  52 |  56 |  60 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |   linker  | TOC saved |    FCTX   |    DATA   |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
 
+#ifdef __ALTIVEC__
+# define CONTEXT_SIZE 520
+#else
+# define CONTEXT_SIZE 328
+#endif
+
 .file "jump_ppc64_sysv_elf_gas.S"
 .globl jump_fcontext
 .hidden jump_fcontext
@@ -98,7 +105,7 @@ jump_fcontext:
 # endif
 #endif
     # reserve space on stack
-    subi  %r1, %r1, 184
+    subi  %r1, %r1, CONTEXT_SIZE
 
 #if _CALL_ELF != 2
     std  %r2,  0(%r1)  # save TOC
@@ -121,6 +128,51 @@ jump_fcontext:
     std  %r29, 128(%r1)  # save R29
     std  %r30, 136(%r1)  # save R30
     std  %r31, 144(%r1)  # save R31
+
+    stfd  %f14, 184(%r1)  # save F14
+    stfd  %f15, 192(%r1)  # save F15
+    stfd  %f16, 200(%r1)  # save F16
+    stfd  %f17, 208(%r1)  # save F17
+    stfd  %f18, 216(%r1)  # save F18
+    stfd  %f19, 224(%r1)  # save F19
+    stfd  %f20, 232(%r1)  # save F20
+    stfd  %f21, 240(%r1)  # save F21
+    stfd  %f22, 248(%r1)  # save F22
+    stfd  %f23, 256(%r1)  # save F23
+    stfd  %f24, 264(%r1)  # save F24
+    stfd  %f25, 272(%r1)  # save F25
+    stfd  %f26, 280(%r1)  # save F26
+    stfd  %f27, 288(%r1)  # save F27
+    stfd  %f28, 296(%r1)  # save F28
+    stfd  %f29, 304(%r1)  # save F29
+    stfd  %f30, 312(%r1)  # save F30
+    stfd  %f31, 320(%r1)  # save F31
+#ifdef __ALTIVEC__
+    li  %r0, 328
+    stvx  %v20, %r1, %r0  # save V20
+    li  %r0, 344
+    stvx  %v21, %r1, %r0  # save V21
+    li  %r0, 360
+    stvx  %v22, %r1, %r0  # save V22
+    li  %r0, 376
+    stvx  %v23, %r1, %r0  # save V23
+    li  %r0, 392
+    stvx  %v24, %r1, %r0  # save V24
+    li  %r0, 408
+    stvx  %v25, %r1, %r0  # save V25
+    li  %r0, 424
+    stvx  %v26, %r1, %r0  # save V26
+    li  %r0, 440
+    stvx  %v27, %r1, %r0  # save V27
+    li  %r0, 456
+    stvx  %v28, %r1, %r0  # save V28
+    li  %r0, 472
+    stvx  %v29, %r1, %r0  # save V29
+    li  %r0, 488
+    stvx  %v30, %r1, %r0  # save V30
+    li  %r0, 504
+    stvx  %v31, %r1, %r0  # save V31
+#endif
 #if _CALL_ELF != 2
     std  %r3,  152(%r1)  # save hidden
 #endif
@@ -164,6 +216,51 @@ jump_fcontext:
     ld  %r29, 128(%r1)  # restore R29
     ld  %r30, 136(%r1)  # restore R30
     ld  %r31, 144(%r1)  # restore R31
+
+    lfd  %f14, 184(%r1)  # restore F14
+    lfd  %f15, 192(%r1)  # restore F15
+    lfd  %f16, 200(%r1)  # restore F16
+    lfd  %f17, 208(%r1)  # restore F17
+    lfd  %f18, 216(%r1)  # restore F18
+    lfd  %f19, 224(%r1)  # restore F19
+    lfd  %f20, 232(%r1)  # restore F20
+    lfd  %f21, 240(%r1)  # restore F21
+    lfd  %f22, 248(%r1)  # restore F22
+    lfd  %f23, 256(%r1)  # restore F23
+    lfd  %f24, 264(%r1)  # restore F24
+    lfd  %f25, 272(%r1)  # restore F25
+    lfd  %f26, 280(%r1)  # restore F26
+    lfd  %f27, 288(%r1)  # restore F27
+    lfd  %f28, 296(%r1)  # restore F28
+    lfd  %f29, 304(%r1)  # restore F29
+    lfd  %f30, 312(%r1)  # restore F30
+    lfd  %f31, 320(%r1)  # restore F31
+#ifdef __ALTIVEC__
+    li  %r0, 328
+    lvx  %v20, %r1, %r0  # restore V20
+    li  %r0, 344
+    lvx  %v21, %r1, %r0  # restore V21
+    li  %r0, 360
+    lvx  %v22, %r1, %r0  # restore V22
+    li  %r0, 376
+    lvx  %v23, %r1, %r0  # restore V23
+    li  %r0, 392
+    lvx  %v24, %r1, %r0  # restore V24
+    li  %r0, 408
+    lvx  %v25, %r1, %r0  # restore V25
+    li  %r0, 424
+    lvx  %v26, %r1, %r0  # restore V26
+    li  %r0, 440
+    lvx  %v27, %r1, %r0  # restore V27
+    li  %r0, 456
+    lvx  %v28, %r1, %r0  # restore V28
+    li  %r0, 472
+    lvx  %v29, %r1, %r0  # restore V29
+    li  %r0, 488
+    lvx  %v30, %r1, %r0  # restore V30
+    li  %r0, 504
+    lvx  %v31, %r1, %r0  # restore V31
+#endif
 #if _CALL_ELF != 2
     ld  %r3,  152(%r1)  # restore hidden
 #endif
@@ -181,7 +278,7 @@ jump_fcontext:
     mtctr  %r12
 
     # adjust stack
-    addi  %r1, %r1, 184
+    addi  %r1, %r1, CONTEXT_SIZE
 
 #if _CALL_ELF == 2
     # copy transfer_t into transfer_fn arg registers
diff --git a/src/asm/make_ppc64_sysv_elf_gas.S b/src/asm/make_ppc64_sysv_elf_gas.S
index f513d36..8e623bc 100644
--- a/src/asm/make_ppc64_sysv_elf_gas.S
+++ b/src/asm/make_ppc64_sysv_elf_gas.S
@@ -47,25 +47,32 @@
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    | F14 - F31 |  *
  *  -------------------------------------------------  *
+ *                                                     *
+ *  F14 - F31 are saved at 184 - 327, with AltiVec also *
+ *  V20 - V31 at 328 - 519; CONTEXT_SIZE bytes above   *
+ *  the context-data is the frame of the context:      *
+ *                                                     *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
- *  -------------------------------------------------  *
- *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
- *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |  0  |  4  |  8  |  12 |  16 |  20 |  24 |  28 |  *
  *  -------------------------------------------------  *
+ *  | back-chain|  cr saved |  lr saved |  compiler |  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
  *  -------------------------------------------------  *
- *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
+ *  |  32 |  36 |  40 |  44 |  48 |  52 |  56 |  60 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |   linker  | TOC saved |    FCTX   |    DATA   |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
 
+#ifdef __ALTIVEC__
+# define CONTEXT_SIZE 520
+#else
+# define CONTEXT_SIZE 328
+#endif
+
 .file "make_ppc64_sysv_elf_gas.S"
 .globl make_fcontext
 .hidden make_fcontext
@@ -106,7 +113,7 @@ make_fcontext:
 
     # reserve space for context-data on context-stack
     # including 64 byte of linkage + parameter area (R1 % 16 == 0)
-    subi  %r3, %r3, 248
+    subi  %r3, %r3, CONTEXT_SIZE + 64
 
     # third arg of make_fcontext() == address of context-function
     # entry point (ELFv2) or descriptor (ELFv1)
@@ -124,7 +131,7 @@ make_fcontext:
 
     # set back-chain to zero
     li   %r0, 0
-    std  %r0, 184(%r3)
+    std  %r0, CONTEXT_SIZE(%r3)
 
 #if _CALL_ELF != 2
     # zero in r3 indicates first jump to context-function
diff --git a/src/asm/ontop_ppc64_sysv_elf_gas.S b/src/asm/ontop_ppc64_sysv_elf_gas.S
index 46cf30d..4289a37 100644
--- a/src/asm/ontop_ppc64_sysv_elf_gas.S
+++ b/src/asm/ontop_ppc64_sysv_elf_gas.S
@@ -47,25 +47,32 @@
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    | F14 - F31 |  *
  *  -------------------------------------------------  *
+ *                                                     *
+ *  F14 - F31 are saved at 184 - 327, with AltiVec also *
+ *  V20 - V31 at 328 - 519; CONTEXT_SIZE bytes above   *
+ *  the context-data is the frame of the context:      *
+ *                                                     *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
- *  -------------------------------------------------  *
- *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
- *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |  0  |  4  |  8  |  12 |  16 |  20 |  24 |  28 |  *
  *  -------------------------------------------------  *
+ *  | back-chain|  cr saved |  lr saved |  compiler |  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
  *  -------------------------------------------------  *
- *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
+ *  |  32 |  36 |  40 |  44 |  48 |  52 |  56 |  60 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |   linker  | TOC saved |    FCTX   |    DATA   |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
 
+#ifdef __ALTIVEC__
+# define CONTEXT_SIZE 520
+#else
+# define CONTEXT_SIZE 328
+#endif
+
 .file "ontop_ppc64_sysv_elf_gas.S"
 .globl ontop_fcontext
 .hidden ontop_fcontext
@@ -98,7 +105,7 @@ ontop_fcontext:
 # endif
 #endif
     # reserve space on stack
-    subi  %r1, %r1, 184
+    subi  %r1, %r1, CONTEXT_SIZE
 
 #if _CALL_ELF != 2
     std  %r2,  0(%r1)  # save TOC
@@ -121,6 +128,51 @@ ontop_fcontext:
     std  %r29, 128(%r1)  # save R29
     std  %r30, 136(%r1)  # save R30
     std  %r31, 144(%r1)  # save R31
+
+    stfd  %f14, 184(%r1)  # save F14
+    stfd  %f15, 192(%r1)  # save F15
+    stfd  %f16, 200(%r1)  # save F16
+    stfd  %f17, 208(%r1)  # save F17
+    stfd  %f18, 216(%r1)  # save F18
+    stfd  %f19, 224(%r1)  # save F19
+    stfd  %f20, 232(%r1)  # save F20
+    stfd  %f21, 240(%r1)  # save F21
+    stfd  %f22, 248(%r1)  # save F22
+    stfd  %f23, 256(%r1)  # save F23
+    stfd  %f24, 264(%r1)  # save F24
+    stfd  %f25, 272(%r1)  # save F25
+    stfd  %f26, 280(%r1)  # save F26
+    stfd  %f27, 288(%r1)  # save F27
+    stfd  %f28, 296(%r1)  # save F28
+    stfd  %f29, 304(%r1)  # save F29
+    stfd  %f30, 312(%r1)  # save F30
+    stfd  %f31, 320(%r1)  # save F31
+#ifdef __ALTIVEC__
+    li  %r0, 328
+    stvx  %v20, %r1, %r0  # save V20
+    li  %r0, 344
+    stvx  %v21, %r1, %r0  # save V21
+    li  %r0, 360
+    stvx  %v22, %r1, %r0  # save V22
+    li  %r0, 376
+    stvx  %v23, %r1, %r0  # save V23
+    li  %r0, 392
+    stvx  %v24, %r1, %r0  # save V24
+    li  %r0, 408
+    stvx  %v25, %r1, %r0  # save V25
+    li  %r0, 424
+    stvx  %v26, %r1, %r0  # save V26
+    li  %r0, 440
+    stvx  %v27, %r1, %r0  # save V27
+    li  %r0, 456
+    stvx  %v28, %r1, %r0  # save V28
+    li  %r0, 472
+    stvx  %v29, %r1, %r0  # save V29
+    li  %r0, 488
+    stvx  %v30, %r1, %r0  # save V30
+    li  %r0, 504
+    stvx  %v31, %r1, %r0  # save V31
+#endif
 #if _CALL_ELF != 2
     std  %r3,  152(%r1)  # save hidden
 #endif
@@ -163,6 +215,51 @@ ontop_fcontext:
     ld  %r29, 128(%r1)  # restore R29
     ld  %r30, 136(%r1)  # restore R30
     ld  %r31, 144(%r1)  # restore R31
+
+    lfd  %f14, 184(%r1)  # restore F14
+    lfd  %f15, 192(%r1)  # restore F15
+    lfd  %f16, 200(%r1)  # restore F16
+    lfd  %f17, 208(%r1)  # restore F17
+    lfd  %f18, 216(%r1)  # restore F18
+    lfd  %f19, 224(%r1)  # restore F19
+    lfd  %f20, 232(%r1)  # restore F20
+    lfd  %f21, 240(%r1)  # restore F21
+    lfd  %f22, 248(%r1)  # restore F22
+    lfd  %f23, 256(%r1)  # restore F23
+    lfd  %f24, 264(%r1)  # restore F24
+    lfd  %f25, 272(%r1)  # restore F25
+    lfd  %f26, 280(%r1)  # restore F26
+    lfd  %f27, 288(%r1)  # restore F27
+    lfd  %f28, 296(%r1)  # restore F28
+    lfd  %f29, 304(%r1)  # restore F29
+    lfd  %f30, 312(%r1)  # restore F30
+    lfd  %f31, 320(%r1)  # restore F31
+#ifdef __ALTIVEC__
+    li  %r0, 328
+    lvx  %v20, %r1, %r0  # restore V20
+    li  %r0, 344
+    lvx  %v21, %r1, %r0  # restore V21
+    li  %r0, 360
+    lvx  %v22, %r1, %r0  # restore V22
+    li  %r0, 376
+    lvx  %v23, %r1, %r0  # restore V23
+    li  %r0, 392
+    lvx  %v24, %r1, %r0  # restore V24
+    li  %r0, 408
+    lvx  %v25, %r1, %r0  # restore V25
+    li  %r0, 424
+    lvx  %v26, %r1, %r0  # restore V26
+    li  %r0, 440
+    lvx  %v27, %r1, %r0  # restore V27
+    li  %r0, 456
+    lvx  %v28, %r1, %r0  # restore V28
+    li  %r0, 472
+    lvx  %v29, %r1, %r0  # restore V29
+    li  %r0, 488
+    lvx  %v30, %r1, %r0  # restore V30
+    li  %r0, 504
+    lvx  %v31, %r1, %r0  # restore V31
+#endif
 #if _CALL_ELF != 2
     ld  %r3,  152(%r1)  # restore hidden
 #endif
@@ -204,7 +301,7 @@ return_to_ctx:
     mtlr  %r0
 
     # adjust stack
-    addi  %r1, %r1, 184
+    addi  %r1, %r1, CONTEXT_SIZE
 
     # jump to context
     bctr
-- 
2.43.0


From 85ab632cd256bd0e0302c7622917de4f1035c889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:26 +0000
Subject: [PATCH 29/36] fix: arm64 pe: restore the stack pointer completely in
 ontop_fcontext

---
 src/asm/ontop_arm64_aapcs_pe_armasm.asm | 2 +-
 src/asm/ontop_arm64_aapcs_pe_armclang.S | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asm/ontop_arm64_aapcs_pe_armasm.asm b/src/asm/ontop_arm64_aapcs_pe_armasm.asm
index dc522c0..78885a7 100644
--- a/src/asm/ontop_arm64_aapcs_pe_armasm.asm
+++ b/src/asm/ontop_arm64_aapcs_pe_armasm.asm
@@ -124,7 +124,7 @@ ontop_fcontext proc BOOST_CONTEXT_EXPORT
 
     ; skip pc
     ; restore stack from GP + FPU
-    add  sp, sp, #0xc0
+    add  sp, sp, #0xd0
 
     ; jump to ontop-function
     ret x2
diff --git a/src/asm/ontop_arm64_aapcs_pe_armclang.S b/src/asm/ontop_arm64_aapcs_pe_armclang.S
index bdf097b..427b458 100644
--- a/src/asm/ontop_arm64_aapcs_pe_armclang.S
+++ b/src/asm/ontop_arm64_aapcs_pe_armclang.S
@@ -130,7 +130,7 @@ ontop_fcontext:
 
     // skip pc
     // restore stack from GP + FPU
-    add  sp, sp, #0xc0
+    add  sp, sp, #0xd0
 
     // jump to ontop-function
     ret x2
-- 
2.43.0


From 3b9dabbe5f1d18b703d939e2397dc49143eef1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:26 +0000
Subject: [PATCH 30/36] fix: i386 macho: align the stack of a new context

---
 src/asm/make_i386_sysv_macho_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_i386_sysv_macho_gas.S b/src/asm/make_i386_sysv_macho_gas.S
index a5890d7..0457abc 100644
--- a/src/asm/make_i386_sysv_macho_gas.S
+++ b/src/asm/make_i386_sysv_macho_gas.S
@@ -40,7 +40,7 @@ _make_fcontext:
     andl  $-16, %eax
 
     /* reserve space for context-data on context-stack, and align the stack */
-    leal  -0x34(%eax), %eax
+    leal  -0x2c(%eax), %eax
 
     /* third arg of make_fcontext() == address of context-function */
     /* stored in EBX */
-- 
2.43.0


From a16c9948426903614c38af7a1ab5c8dc3e02d248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:03 +0000
Subject: [PATCH 31/36] fix: x86_64 sysv elf: with a shadow stack, let a
 context function return to finish

make_fcontext() stores the address the context starts at in the slot of the
return address, 0x40(%rax); with the shadow stack it overwrote the slot below
it, RBP, instead, which holds the address of finish: a context function that
returned was entered again instead of ending the process, and the start
address did not agree with the shadow stack.
---
 src/asm/make_x86_64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_x86_64_sysv_elf_gas.S b/src/asm/make_x86_64_sysv_elf_gas.S
index 9336210..b364035 100644
--- a/src/asm/make_x86_64_sysv_elf_gas.S
+++ b/src/asm/make_x86_64_sysv_elf_gas.S
@@ -108,7 +108,7 @@ make_fcontext:
 1:
     /* save address of "jmp trampoline" as return-address */
     /* for context-function */
-    pop 0x38(%rax)
+    pop 0x40(%rax)
     /* Get the new SSP.  */
     rdsspq  %r9
     /* restore original shadow stack */
-- 
2.43.0


From c2628b7197e8cb62f55acdb9541337f0e032ea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:17 +0000
Subject: [PATCH 32/36] fix: fcontext: report a failure to map a shadow stack

The check compared a pointer with an integer, which does not compile unless
assertions are disabled, and a failure went unnoticed if they are: the new
context was given the error value as its shadow stack. Release the record and
the stack and throw std::bad_alloc, as for a stack that can not be allocated.
---
 include/boost/context/continuation_fcontext.hpp | 14 ++++++++++++--
 include/boost/context/fiber_fcontext.hpp        | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 24e7885..44241c4 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -16,6 +16,7 @@
 #include <exception>
 #include <functional>
 #include <memory>
+#include <new>
 #include <ostream>
 #include <tuple>
 #include <utility>
@@ -47,6 +48,7 @@
 #if defined(__CET__) && defined(__unix__)
 #  include <cet.h>
 #  include <sys/mman.h>
+#  include <unistd.h>
 #  define SHSTK_ENABLED (__CET__ & 0x2)
 #  define BOOST_CONTEXT_SHADOW_STACK (SHSTK_ENABLED && SHADOW_STACK_SYSCALL)
 #  define __NR_map_shadow_stack 451
@@ -194,7 +196,11 @@ fcontext_t create_context1( StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( MAP_FAILED == ss_base) ) {
+        // `salloc` might be moved-from, the record owns the allocator
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
@@ -235,7 +241,11 @@ fcontext_t create_context2( preallocated palloc, StackAlloc && salloc, Fn && fn)
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( MAP_FAILED == ss_base) ) {
+        // `salloc` might be moved-from, the record owns the allocator
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index 7e8587a..aa5b68d 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -16,6 +16,7 @@
 #include <exception>
 #include <functional>
 #include <memory>
+#include <new>
 #include <ostream>
 #include <tuple>
 #include <utility>
@@ -47,6 +48,7 @@
 #if defined(__CET__) && defined(__unix__)
 #  include <cet.h>
 #  include <sys/mman.h>
+#  include <unistd.h>
 #  define SHSTK_ENABLED (__CET__ & 0x2)
 #  define BOOST_CONTEXT_SHADOW_STACK (SHSTK_ENABLED && SHADOW_STACK_SYSCALL)
 #  define __NR_map_shadow_stack 451
@@ -191,7 +193,11 @@ fcontext_t create_fiber1( StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( MAP_FAILED == ss_base) ) {
+        // `salloc` might be moved-from, the record owns the allocator
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
@@ -232,7 +238,11 @@ fcontext_t create_fiber2( preallocated palloc, StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( MAP_FAILED == ss_base) ) {
+        // `salloc` might be moved-from, the record owns the allocator
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
-- 
2.43.0


From 4af7c5c7a201be956db7588115b02f3656a1de66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:17 +0000
Subject: [PATCH 33/36] fix: fcontext: align the size of large shadow stacks to
 8 bytes

The size was aligned, but then replaced by the size of the stack, which
needs not be a multiple of 8, and map_shadow_stack() refuses such a size.
---
 include/boost/context/continuation_fcontext.hpp | 4 ++--
 include/boost/context/fiber_fcontext.hpp        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 44241c4..9ce3dec 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -193,7 +193,7 @@ fcontext_t create_context1( StackAlloc && salloc, Fn && fn) {
     // align shadow stack to 8 bytes.
 	ss_size = (ss_size + 7) & ~7;
     // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    ss_size = (ss_size > 4096) ? (size + 7) & ~static_cast< std::size_t >( 7) : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     if ( BOOST_UNLIKELY( MAP_FAILED == ss_base) ) {
@@ -238,7 +238,7 @@ fcontext_t create_context2( preallocated palloc, StackAlloc && salloc, Fn && fn)
     // align shadow stack to 8 bytes.
 	ss_size = (ss_size + 7) & ~7;
     // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    ss_size = (ss_size > 4096) ? (size + 7) & ~static_cast< std::size_t >( 7) : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     if ( BOOST_UNLIKELY( MAP_FAILED == ss_base) ) {
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index aa5b68d..07e1d81 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -190,7 +190,7 @@ fcontext_t create_fiber1( StackAlloc && salloc, Fn && fn) {
     // align shadow stack to 8 bytes.
 	ss_size = (ss_size + 7) & ~7;
     // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    ss_size = (ss_size > 4096) ? (size + 7) & ~static_cast< std::size_t >( 7) : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     if ( BOOST_UNLIKELY( MAP_FAILED == ss_base) ) {
@@ -235,7 +235,7 @@ fcontext_t create_fiber2( preallocated palloc, StackAlloc && salloc, Fn && fn) {
     // align shadow stack to 8 bytes.
 	ss_size = (ss_size + 7) & ~7;
     // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    ss_size = (ss_size > 4096) ? (size + 7) & ~static_cast< std::size_t >( 7) : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     if ( BOOST_UNLIKELY( MAP_FAILED == ss_base) ) {
-- 
2.43.0


From 2fc5ffcb7ad4112201e37fca1fe4f0a8f94aa369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:50 +0000
Subject: [PATCH 34/36] fix: a context function that cannot be copied ended the
 program instead of failing the creation

The constructors of the control structures are noexcept but copy the
function (and the stack allocator): an exception thrown by the copy, e.g.
std::bad_alloc from an lvalue std::function, called std::terminate(). Let it
propagate and give the stack back; the function is constructed before the
allocator, so that the latter was not moved from when the copy fails.
---
 .../boost/context/continuation_fcontext.hpp   | 31 ++++++++++++++-----
 .../boost/context/continuation_ucontext.hpp   | 31 ++++++++++++++-----
 include/boost/context/continuation_winfib.hpp | 31 ++++++++++++++-----
 include/boost/context/fiber_fcontext.hpp      | 31 ++++++++++++++-----
 include/boost/context/fiber_ucontext.hpp      | 31 ++++++++++++++-----
 include/boost/context/fiber_winfib.hpp        | 31 ++++++++++++++-----
 6 files changed, 138 insertions(+), 48 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 9ce3dec..f871a64 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -126,8 +126,9 @@ template< typename Ctx, typename StackAlloc, typename Fn >
 class record {
 private:
     stack_context                                       sctx_;
-    typename std::decay< StackAlloc >::type             salloc_;
+    // constructed first: if it throws, the allocator was not moved from
     typename std::decay< Fn >::type                     fn_;
+    typename std::decay< StackAlloc >::type             salloc_;
 
     static void destroy( record * p) noexcept {
         typename std::decay< StackAlloc >::type salloc = std::move( p->salloc_);
@@ -140,10 +141,10 @@ private:
 
 public:
     record( stack_context sctx, StackAlloc && salloc,
-            Fn && fn) noexcept :
+            Fn && fn) :
         sctx_( sctx),
-        salloc_( std::forward< StackAlloc >( salloc)),
-        fn_( std::forward< Fn >( fn) ) {
+        fn_( std::forward< Fn >( fn) ),
+        salloc_( std::forward< StackAlloc >( salloc)) {
     }
 
     record( record const&) = delete;
@@ -177,8 +178,15 @@ fcontext_t create_context1( StackAlloc && salloc, Fn && fn) {
 			( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( Record) ) )
             & ~static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context stack
-    Record * record = new ( storage) Record{
-            sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    Record * record = nullptr;
+    try {
+        record = new ( storage) Record{
+                sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // the context-function or the allocator could not be copied
+        salloc.deallocate( sctx);
+        throw;
+    }
     // 64byte gab between control structure and stack top
     // should be 16byte aligned
     void * stack_top = reinterpret_cast< void * >(
@@ -223,8 +231,15 @@ fcontext_t create_context2( preallocated palloc, StackAlloc && salloc, Fn && fn)
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( Record) ) )
             & ~ static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context-stack
-    Record * record = new ( storage) Record{
-            palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    Record * record = nullptr;
+    try {
+        record = new ( storage) Record{
+                palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // the context-function or the allocator could not be copied
+        salloc.deallocate( palloc.sctx);
+        throw;
+    }
     // 64byte gab between control structure and stack top
     void * stack_top = reinterpret_cast< void * >(
             reinterpret_cast< uintptr_t >( storage) - static_cast< uintptr_t >( 64) );
diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 51ca298..f52557b 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -230,8 +230,9 @@ struct forced_unwind {
 template< typename Ctx, typename StackAlloc, typename Fn >
 class capture_record : public activation_record {
 private:
-    typename std::decay< StackAlloc >::type             salloc_;
+    // constructed first: if it throws, the allocator was not moved from
     typename std::decay< Fn >::type                     fn_;
+    typename std::decay< StackAlloc >::type             salloc_;
 
     static void destroy( capture_record * p) noexcept {
         typename std::decay< StackAlloc >::type salloc = std::move( p->salloc_);
@@ -243,10 +244,10 @@ private:
     }
 
 public:
-    capture_record( stack_context sctx, StackAlloc && salloc, Fn && fn) noexcept :
+    capture_record( stack_context sctx, StackAlloc && salloc, Fn && fn) :
         activation_record{ sctx },
-        salloc_{ std::forward< StackAlloc >( salloc) },
-        fn_( std::forward< Fn >( fn) ) {
+        fn_( std::forward< Fn >( fn) ),
+        salloc_{ std::forward< StackAlloc >( salloc) } {
     }
 
     void deallocate() noexcept override final {
@@ -291,8 +292,15 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
             ( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
             & ~ static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context stack
-    capture_t * record = new ( storage) capture_t{
-            sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    capture_t * record = nullptr;
+    try {
+        record = new ( storage) capture_t{
+                sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // the context-function or the allocator could not be copied
+        salloc.deallocate( sctx);
+        throw;
+    }
     // stack bottom
     void * stack_bottom = reinterpret_cast< void * >(
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
@@ -336,8 +344,15 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
             & ~ static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context stack
-    capture_t * record = new ( storage) capture_t{
-            palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    capture_t * record = nullptr;
+    try {
+        record = new ( storage) capture_t{
+                palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // the context-function or the allocator could not be copied
+        salloc.deallocate( palloc.sctx);
+        throw;
+    }
     // stack bottom
     void * stack_bottom = reinterpret_cast< void * >(
             reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( palloc.sctx.size) );
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 8e7306c..bb4e114 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -199,8 +199,9 @@ struct forced_unwind {
 template< typename Ctx, typename StackAlloc, typename Fn >
 class capture_record : public activation_record {
 private:
-    typename std::decay< StackAlloc >::type             salloc_;
+    // constructed first: if it throws, the allocator was not moved from
     typename std::decay< Fn >::type                     fn_;
+    typename std::decay< StackAlloc >::type             salloc_;
 
     static void destroy( capture_record * p) noexcept {
         typename std::decay< StackAlloc >::type salloc = std::move( p->salloc_);
@@ -212,10 +213,10 @@ private:
     }
 
 public:
-    capture_record( stack_context sctx, StackAlloc && salloc, Fn && fn) noexcept :
+    capture_record( stack_context sctx, StackAlloc && salloc, Fn && fn) :
         activation_record( sctx),
-        salloc_( std::forward< StackAlloc >( salloc)),
-        fn_( std::forward< Fn >( fn) ) {
+        fn_( std::forward< Fn >( fn) ),
+        salloc_( std::forward< StackAlloc >( salloc)) {
     }
 
     void deallocate() noexcept override final {
@@ -256,8 +257,15 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
             ( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
             & ~ static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context stack
-    capture_t * record = new ( storage) capture_t{
-            sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    capture_t * record = nullptr;
+    try {
+        record = new ( storage) capture_t{
+                sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // the context-function or the allocator could not be copied
+        salloc.deallocate( sctx);
+        throw;
+    }
     // create user-context
     record->fiber = ::CreateFiber( sctx.size, & detail::entry_func< capture_t >, record);
     if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
@@ -282,8 +290,15 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
             & ~ static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context stack
-    capture_t * record = new ( storage) capture_t{
-            palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    capture_t * record = nullptr;
+    try {
+        record = new ( storage) capture_t{
+                palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // the context-function or the allocator could not be copied
+        salloc.deallocate( palloc.sctx);
+        throw;
+    }
     // create user-context
     record->fiber = ::CreateFiber( palloc.sctx.size, & detail::entry_func< capture_t >, record);
     if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index 07e1d81..fce153e 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -124,8 +124,9 @@ template< typename Ctx, typename StackAlloc, typename Fn >
 class fiber_record {
 private:
     stack_context                                       sctx_;
-    typename std::decay< StackAlloc >::type             salloc_;
+    // constructed first: if it throws, the allocator was not moved from
     typename std::decay< Fn >::type                     fn_;
+    typename std::decay< StackAlloc >::type             salloc_;
 
     static void destroy( fiber_record * p) noexcept {
         typename std::decay< StackAlloc >::type salloc = std::move( p->salloc_);
@@ -138,10 +139,10 @@ private:
 
 public:
     fiber_record( stack_context sctx, StackAlloc && salloc,
-            Fn && fn) noexcept :
+            Fn && fn) :
         sctx_( sctx),
-        salloc_( std::forward< StackAlloc >( salloc)),
-        fn_( std::forward< Fn >( fn) ) {
+        fn_( std::forward< Fn >( fn) ),
+        salloc_( std::forward< StackAlloc >( salloc)) {
     }
 
     fiber_record( fiber_record const&) = delete;
@@ -174,8 +175,15 @@ fcontext_t create_fiber1( StackAlloc && salloc, Fn && fn) {
 			( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( Record) ) )
             & ~static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context stack
-    Record * record = new ( storage) Record{
-            sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    Record * record = nullptr;
+    try {
+        record = new ( storage) Record{
+                sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // the context-function or the allocator could not be copied
+        salloc.deallocate( sctx);
+        throw;
+    }
     // 64byte gab between control structure and stack top
     // should be 16byte aligned
     void * stack_top = reinterpret_cast< void * >(
@@ -220,8 +228,15 @@ fcontext_t create_fiber2( preallocated palloc, StackAlloc && salloc, Fn && fn) {
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( Record) ) )
             & ~ static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context-stack
-    Record * record = new ( storage) Record{
-            palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    Record * record = nullptr;
+    try {
+        record = new ( storage) Record{
+                palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // the context-function or the allocator could not be copied
+        salloc.deallocate( palloc.sctx);
+        throw;
+    }
     // 64byte gab between control structure and stack top
     void * stack_top = reinterpret_cast< void * >(
             reinterpret_cast< uintptr_t >( storage) - static_cast< uintptr_t >( 64) );
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index ce9a250..62d5689 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -256,8 +256,9 @@ struct forced_unwind {
 template< typename Ctx, typename StackAlloc, typename Fn >
 class fiber_capture_record : public fiber_activation_record {
 private:
-    typename std::decay< StackAlloc >::type             salloc_;
+    // constructed first: if it throws, the allocator was not moved from
     typename std::decay< Fn >::type                     fn_;
+    typename std::decay< StackAlloc >::type             salloc_;
 
     static void destroy( fiber_capture_record * p) noexcept {
         typename std::decay< StackAlloc >::type salloc = std::move( p->salloc_);
@@ -269,10 +270,10 @@ private:
     }
 
 public:
-    fiber_capture_record( stack_context sctx, StackAlloc && salloc, Fn && fn) noexcept :
+    fiber_capture_record( stack_context sctx, StackAlloc && salloc, Fn && fn) :
         fiber_activation_record{ sctx },
-        salloc_{ std::forward< StackAlloc >( salloc) },
-        fn_( std::forward< Fn >( fn) ) {
+        fn_( std::forward< Fn >( fn) ),
+        salloc_{ std::forward< StackAlloc >( salloc) } {
     }
 
     void deallocate() noexcept override final {
@@ -329,8 +330,15 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
             ( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
             & ~ static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context stack
-    capture_t * record = new ( storage) capture_t{
-            sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    capture_t * record = nullptr;
+    try {
+        record = new ( storage) capture_t{
+                sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // the context-function or the allocator could not be copied
+        salloc.deallocate( sctx);
+        throw;
+    }
     // stack bottom
     void * stack_bottom = reinterpret_cast< void * >(
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
@@ -382,8 +390,15 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
             & ~ static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context stack
-    capture_t * record = new ( storage) capture_t{
-            palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    capture_t * record = nullptr;
+    try {
+        record = new ( storage) capture_t{
+                palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // the context-function or the allocator could not be copied
+        salloc.deallocate( palloc.sctx);
+        throw;
+    }
     // stack bottom
     void * stack_bottom = reinterpret_cast< void * >(
             reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( palloc.sctx.size) );
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index ef829ad..cb4faaf 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -198,8 +198,9 @@ struct forced_unwind {
 template< typename Ctx, typename StackAlloc, typename Fn >
 class fiber_capture_record : public fiber_activation_record {
 private:
-    typename std::decay< StackAlloc >::type             salloc_;
+    // constructed first: if it throws, the allocator was not moved from
     typename std::decay< Fn >::type                     fn_;
+    typename std::decay< StackAlloc >::type             salloc_;
 
     static void destroy( fiber_capture_record * p) noexcept {
         typename std::decay< StackAlloc >::type salloc = std::move( p->salloc_);
@@ -211,10 +212,10 @@ private:
     }
 
 public:
-    fiber_capture_record( stack_context sctx, StackAlloc && salloc, Fn && fn) noexcept :
+    fiber_capture_record( stack_context sctx, StackAlloc && salloc, Fn && fn) :
         fiber_activation_record( sctx),
-        salloc_( std::forward< StackAlloc >( salloc)),
-        fn_( std::forward< Fn >( fn) ) {
+        fn_( std::forward< Fn >( fn) ),
+        salloc_( std::forward< StackAlloc >( salloc)) {
     }
 
     void deallocate() noexcept override final {
@@ -267,8 +268,15 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
             ( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
             & ~ static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context stack
-    capture_t * record = new ( storage) capture_t{
-            sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    capture_t * record = nullptr;
+    try {
+        record = new ( storage) capture_t{
+                sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // the context-function or the allocator could not be copied
+        salloc.deallocate( sctx);
+        throw;
+    }
     // create user-context
     record->fiber = ::CreateFiber( sctx.size, & detail::fiber_entry_func< capture_t >, record);
     if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
@@ -293,8 +301,15 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
             & ~ static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context stack
-    capture_t * record = new ( storage) capture_t{
-            palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    capture_t * record = nullptr;
+    try {
+        record = new ( storage) capture_t{
+                palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // the context-function or the allocator could not be copied
+        salloc.deallocate( palloc.sctx);
+        throw;
+    }
     // create user-context
     record->fiber = ::CreateFiber( palloc.sctx.size, & detail::fiber_entry_func< capture_t >, record);
     if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
-- 
2.43.0


From 59cbf6ef0edb29fd021f9adb3ea7868f485718e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:48 +0000
Subject: [PATCH 35/36] fix: an injected function that changes its own state
 did not compile with ucontext and winfib

---
 include/boost/context/continuation_ucontext.hpp | 2 +-
 include/boost/context/continuation_winfib.hpp   | 2 +-
 include/boost/context/fiber_ucontext.hpp        | 2 +-
 include/boost/context/fiber_winfib.hpp          | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index f52557b..35ece26 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -168,7 +168,7 @@ struct BOOST_CONTEXT_DECL activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index bb4e114..56881ff 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -150,7 +150,7 @@ struct BOOST_CONTEXT_DECL activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 62d5689..92650fb 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -191,7 +191,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index cb4faaf..3fd2d2c 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -149,7 +149,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
-- 
2.43.0


From 70c2160cc4d5655b89eda5032909bcd785538395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:12 +0000
Subject: [PATCH 36/36] fix: a context unwound with a handle left in its
 parameter dropped it inside the exception handler

---
 include/boost/context/continuation_ucontext.hpp | 7 ++++++-
 include/boost/context/continuation_winfib.hpp   | 7 ++++++-
 include/boost/context/fiber_ucontext.hpp        | 7 ++++++-
 include/boost/context/fiber_winfib.hpp          | 7 ++++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 35ece26..a438504 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -262,6 +262,7 @@ public:
                                          & from->stack_size);
 #endif
         Ctx c{ from };
+        activation_record * unwound = nullptr;
         try {
             // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
@@ -270,7 +271,11 @@ public:
             c = std::invoke( fn_, std::move( c) );
 #endif  
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            unwound = ex.from;
+        }
+        // might drop a context: not while the exception is being handled
+        if ( nullptr != unwound) {
+            c = Ctx{ unwound };
         }
         // this context has finished its task
 		from = nullptr;
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 56881ff..6c424e0 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -226,6 +226,7 @@ public:
 
     void run() {
         Ctx c{ from };
+        activation_record * unwound = nullptr;
         try {
             // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
@@ -234,7 +235,11 @@ public:
             c = std::invoke( fn_, std::move( c) );
 #endif  
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            unwound = ex.from;
+        }
+        // might drop a context: not while the exception is being handled
+        if ( nullptr != unwound) {
+            c = Ctx{ unwound };
         }
         // this context has finished its task
         from = nullptr;
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 92650fb..a8ab202 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -288,6 +288,7 @@ public:
                                          & from->stack_size);
 #endif
         Ctx c{ from };
+        fiber_activation_record * unwound = nullptr;
         try {
             if ( BOOST_UNLIKELY( nullptr != ontop) ) {
                 // started by resume_with(): execute the function first
@@ -308,7 +309,11 @@ public:
 #endif
             }
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            unwound = ex.from;
+        }
+        // might drop a context: not while the exception is being handled
+        if ( nullptr != unwound) {
+            c = Ctx{ unwound };
         }
         // this context has finished its task
 		from = nullptr;
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 3fd2d2c..734fbc2 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -225,6 +225,7 @@ public:
 
     void run() {
         Ctx c{ from };
+        fiber_activation_record * unwound = nullptr;
         try {
             if ( BOOST_UNLIKELY( nullptr != ontop) ) {
                 // started by resume_with(): execute the function first
@@ -245,7 +246,11 @@ public:
 #endif
             }
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            unwound = ex.from;
+        }
+        // might drop a context: not while the exception is being handled
+        if ( nullptr != unwound) {
+            c = Ctx{ unwound };
         }
         // this context has finished its task
         from = nullptr;
-- 
2.43.0

