From aebde6f838b8e88c2fc9467f739b88d3293952c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 1/5] fix: don't drop the initial object twice if its
 destructor panics

Drop the coroutine's stack pointer before running the destructor of the
initial object in force_unwind so that a panic in that destructor doesn't
cause it to be run again when the coroutine itself is dropped.
---
 src/coroutine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coroutine.rs b/src/coroutine.rs
index 9982cab..982685a 100644
--- a/src/coroutine.rs
+++ b/src/coroutine.rs
@@ -347,10 +347,12 @@ impl<Input, Yield, Return, Stack: stack::Stack> Coroutine<Input, Yield, Return,
         // If the coroutine has not started yet then we just need to drop the
         // initial object.
         if !self.started() {
+            // Mark the coroutine as completed first: if dropping the initial
+            // object panics then it must not be dropped again later.
+            self.stack_ptr = None;
             unsafe {
                 arch::drop_initial_obj(self.stack.base(), stack_ptr, self.drop_fn);
             }
-            self.stack_ptr = None;
             return;
         }
 
-- 
2.43.0


From 2a8c1e62875e68aa86ed1ac75bc239197526ea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 2/5] fix: reject initial objects with an alignment larger than
 the stack allows

A zero-sized closure passes the size check regardless of its alignment, but
rounding the stack pointer down to a huge alignment moved it below the stack
limit.
---
 src/arch/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arch/mod.rs b/src/arch/mod.rs
index a5c7d56..e85ac12 100644
--- a/src/arch/mod.rs
+++ b/src/arch/mod.rs
@@ -117,6 +117,12 @@ cfg_if::cfg_if! {
 unsafe fn allocate_obj_on_stack<T>(sp: &mut usize, sp_offset: usize, obj: T) {
     // Sanity check to avoid stack overflows.
     assert!(mem::size_of::<T>() <= 1024, "type is too big to transfer");
+    // A zero-sized type can have any alignment, and rounding the stack pointer
+    // down to it must not take us past the end of the stack either.
+    assert!(
+        mem::align_of::<T>() <= 1024,
+        "type alignment is too big to transfer"
+    );
 
     if mem::align_of::<T>() > STACK_ALIGNMENT {
         *sp -= mem::size_of::<T>();
-- 
2.43.0


From 55a6ba5f5bc448a162aec6fc6a5080dd44eb9566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 3/5] fix: never inline stack switches that may unwind with
 "asm-unwind"

The compiler loses the exception table entry of such a block, or restores
registers too late for its landing pad, when it is inlined into a function
with landing pads: panics aborted the process or corrupted their host.
---
 src/arch/aarch64.rs        | 11 +++++++----
 src/arch/arm.rs            | 11 +++++++----
 src/arch/loongarch64.rs    | 11 +++++++----
 src/arch/riscv.rs          | 11 +++++++----
 src/arch/x86.rs            | 11 +++++++----
 src/arch/x86_64.rs         | 11 +++++++----
 src/arch/x86_64_windows.rs |  8 +++++---
 src/arch/x86_windows.rs    |  8 +++++---
 src/unwind.rs              |  7 +++++++
 9 files changed, 59 insertions(+), 30 deletions(-)

diff --git a/src/arch/aarch64.rs b/src/arch/aarch64.rs
index 7a8662e..3378ed4 100644
--- a/src/arch/aarch64.rs
+++ b/src/arch/aarch64.rs
@@ -216,7 +216,8 @@ pub unsafe fn init_stack<T>(stack: &impl Stack, func: InitialFunc<T>, obj: T) ->
     StackPointer::new_unchecked(sp)
 }
 
-#[inline]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
 pub unsafe fn switch_and_link(
     arg: EncodedValue,
     sp: StackPointer,
@@ -269,7 +270,8 @@ pub unsafe fn switch_and_link(
     (ret_val, StackPointer::new(ret_sp))
 }
 
-#[inline(always)]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline(always))]
 pub unsafe fn switch_yield(arg: EncodedValue, parent_link: *mut StackPointer) -> EncodedValue {
     let ret_val;
 
@@ -376,7 +378,7 @@ pub unsafe fn switch_and_reset(arg: EncodedValue, parent_link: *mut StackPointer
     );
 }
 
-#[inline]
+#[inline(never)]
 #[cfg(feature = "asm-unwind")]
 pub unsafe fn switch_and_throw(
     forced_unwind: crate::unwind::ForcedUnwind,
@@ -518,7 +520,8 @@ pub unsafe fn setup_trap_trampoline<T>(
 
 /// This function executes a function on the given stack. The argument is passed
 /// through to the called function.
-#[inline]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
 pub unsafe fn on_stack(arg: *mut u8, stack: impl Stack, f: StackCallFunc) {
     // This is a bit subtle: because we use .cfi_signal_frame in the trampoline,
     // the unwinder will look for unwinding information at the instruction
diff --git a/src/arch/arm.rs b/src/arch/arm.rs
index 02420d8..27c1c61 100644
--- a/src/arch/arm.rs
+++ b/src/arch/arm.rs
@@ -431,7 +431,8 @@ pub unsafe fn init_stack<T>(stack: &impl Stack, func: InitialFunc<T>, obj: T) ->
     StackPointer::new_unchecked(sp)
 }
 
-#[inline]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
 pub unsafe fn switch_and_link(
     arg: EncodedValue,
     sp: StackPointer,
@@ -473,7 +474,8 @@ pub unsafe fn switch_and_link(
     (ret_val, StackPointer::new(ret_sp))
 }
 
-#[inline(always)]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline(always))]
 pub unsafe fn switch_yield(arg: EncodedValue, parent_link: *mut StackPointer) -> EncodedValue {
     let ret_val;
 
@@ -562,7 +564,7 @@ pub unsafe fn switch_and_reset(arg: EncodedValue, parent_link: *mut StackPointer
     );
 }
 
-#[inline]
+#[inline(never)]
 #[cfg(feature = "asm-unwind")]
 pub unsafe fn switch_and_throw(
     forced_unwind: crate::unwind::ForcedUnwind,
@@ -706,7 +708,8 @@ pub unsafe fn setup_trap_trampoline<T>(
 
 /// This function executes a function on the given stack. The argument is passed
 /// through to the called function.
-#[inline]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
 pub unsafe fn on_stack(arg: *mut u8, stack: impl Stack, f: StackCallFunc) {
     // This is a bit subtle: because we use .cfi_signal_frame in the trampoline,
     // the unwinder will look for unwinding information at the instruction
diff --git a/src/arch/loongarch64.rs b/src/arch/loongarch64.rs
index 8985693..65e47d1 100644
--- a/src/arch/loongarch64.rs
+++ b/src/arch/loongarch64.rs
@@ -223,7 +223,8 @@ pub unsafe fn init_stack<T>(stack: &impl Stack, func: InitialFunc<T>, obj: T) ->
     StackPointer::new_unchecked(sp)
 }
 
-#[inline]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
 pub unsafe fn switch_and_link(
     arg: EncodedValue,
     sp: StackPointer,
@@ -276,7 +277,8 @@ pub unsafe fn switch_and_link(
     (ret_val, StackPointer::new(ret_sp))
 }
 
-#[inline(always)]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline(always))]
 pub unsafe fn switch_yield(arg: EncodedValue, parent_link: *mut StackPointer) -> EncodedValue {
     let ret_val;
 
@@ -392,7 +394,7 @@ pub unsafe fn switch_and_reset(arg: EncodedValue, parent_link: *mut StackPointer
     );
 }
 
-#[inline]
+#[inline(never)]
 #[cfg(feature = "asm-unwind")]
 pub unsafe fn switch_and_throw(
     forced_unwind: crate::unwind::ForcedUnwind,
@@ -538,7 +540,8 @@ pub unsafe fn setup_trap_trampoline<T>(
 
 /// This function executes a function on the given stack. The argument is passed
 /// through to the called function.
-#[inline]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
 pub unsafe fn on_stack(arg: *mut u8, stack: impl Stack, f: StackCallFunc) {
     // This is a bit subtle: because we use .cfi_signal_frame in the trampoline,
     // the unwinder will look for unwinding information at the instruction
diff --git a/src/arch/riscv.rs b/src/arch/riscv.rs
index 153937a..6dba139 100644
--- a/src/arch/riscv.rs
+++ b/src/arch/riscv.rs
@@ -286,7 +286,8 @@ pub unsafe fn init_stack<T>(stack: &impl Stack, func: InitialFunc<T>, obj: T) ->
     StackPointer::new_unchecked(sp)
 }
 
-#[inline]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
 pub unsafe fn switch_and_link(
     arg: EncodedValue,
     sp: StackPointer,
@@ -341,7 +342,8 @@ pub unsafe fn switch_and_link(
     (ret_val, StackPointer::new(ret_sp))
 }
 
-#[inline(always)]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline(always))]
 pub unsafe fn switch_yield(arg: EncodedValue, parent_link: *mut StackPointer) -> EncodedValue {
     let ret_val;
 
@@ -459,7 +461,7 @@ pub unsafe fn switch_and_reset(arg: EncodedValue, parent_link: *mut StackPointer
     );
 }
 
-#[inline]
+#[inline(never)]
 #[cfg(feature = "asm-unwind")]
 pub unsafe fn switch_and_throw(
     forced_unwind: crate::unwind::ForcedUnwind,
@@ -602,7 +604,8 @@ pub unsafe fn setup_trap_trampoline<T>(
 
 /// This function executes a function on the given stack. The argument is passed
 /// through to the called function.
-#[inline]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
 pub unsafe fn on_stack(arg: *mut u8, stack: impl Stack, f: StackCallFunc) {
     // This is a bit subtle: because we use .cfi_signal_frame in the trampoline,
     // the unwinder will look for unwinding information at the instruction
diff --git a/src/arch/x86.rs b/src/arch/x86.rs
index f819156..b8cbb93 100644
--- a/src/arch/x86.rs
+++ b/src/arch/x86.rs
@@ -213,7 +213,8 @@ pub unsafe fn init_stack<T>(stack: &impl Stack, func: InitialFunc<T>, obj: T) ->
     StackPointer::new_unchecked(sp)
 }
 
-#[inline]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
 pub unsafe fn switch_and_link(
     arg: EncodedValue,
     sp: StackPointer,
@@ -269,7 +270,8 @@ pub unsafe fn switch_and_link(
     (ret_val, StackPointer::new(ret_sp))
 }
 
-#[inline(always)]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline(always))]
 pub unsafe fn switch_yield(arg: EncodedValue, parent_link: *mut StackPointer) -> EncodedValue {
     let ret_val;
 
@@ -379,7 +381,7 @@ pub unsafe fn switch_and_reset(arg: EncodedValue, parent_link: *mut StackPointer
     );
 }
 
-#[inline]
+#[inline(never)]
 #[cfg(feature = "asm-unwind")]
 pub unsafe fn switch_and_throw(
     forced_unwind: crate::unwind::ForcedUnwind,
@@ -533,7 +535,8 @@ pub unsafe fn setup_trap_trampoline<T>(
 
 /// This function executes a function on the given stack. The argument is passed
 /// through to the called function.
-#[inline]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
 pub unsafe fn on_stack(arg: *mut u8, stack: impl Stack, f: StackCallFunc) {
     // This is a bit subtle: because we use .cfi_signal_frame in the trampoline,
     // the unwinder will look for unwinding information at the instruction
diff --git a/src/arch/x86_64.rs b/src/arch/x86_64.rs
index b84a7c5..42d06e3 100644
--- a/src/arch/x86_64.rs
+++ b/src/arch/x86_64.rs
@@ -318,7 +318,8 @@ pub unsafe fn init_stack<T>(stack: &impl Stack, func: InitialFunc<T>, obj: T) ->
 /// When another context switches back to us, we receive the argument they sent
 /// as well as the stack pointer of the originating context. This can be `None`
 /// if the caller used `switch_and_reset` and can't be returned to.
-#[inline]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
 pub unsafe fn switch_and_link(
     arg: EncodedValue,
     sp: StackPointer,
@@ -410,7 +411,8 @@ pub unsafe fn switch_and_link(
 /// context is available in the parent link on the stack.
 // This function must always be inlined because it is very sensitive to the
 // CPU's return address predictor. See stack_init_trampoline for more details.
-#[inline(always)]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline(always))]
 pub unsafe fn switch_yield(arg: EncodedValue, parent_link: *mut StackPointer) -> EncodedValue {
     let ret_val;
 
@@ -534,7 +536,7 @@ pub unsafe fn switch_and_reset(arg: EncodedValue, parent_link: *mut StackPointer
 /// Variant of `switch_and_link` which runs a function on the coroutine stack
 /// instead of resuming the coroutine. This function will throw an exception
 /// which will unwind the coroutine stack to its root.
-#[inline]
+#[inline(never)]
 #[cfg(feature = "asm-unwind")]
 pub unsafe fn switch_and_throw(
     forced_unwind: crate::unwind::ForcedUnwind,
@@ -689,7 +691,8 @@ pub unsafe fn setup_trap_trampoline<T>(
 
 /// This function executes a function on the given stack. The argument is passed
 /// through to the called function.
-#[inline]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
 pub unsafe fn on_stack(arg: *mut u8, stack: impl Stack, f: StackCallFunc) {
     // This is a bit subtle: because we use .cfi_signal_frame in the trampoline,
     // the unwinder will look for unwinding information at the instruction
diff --git a/src/arch/x86_64_windows.rs b/src/arch/x86_64_windows.rs
index 3133047..d2b6803 100644
--- a/src/arch/x86_64_windows.rs
+++ b/src/arch/x86_64_windows.rs
@@ -319,7 +319,8 @@ pub unsafe fn init_stack<T>(stack: &impl Stack, func: InitialFunc<T>, obj: T) ->
     StackPointer::new_unchecked(sp)
 }
 
-#[inline]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
 pub unsafe fn switch_and_link(
     arg: EncodedValue,
     sp: StackPointer,
@@ -388,7 +389,8 @@ pub unsafe fn switch_and_link(
     (ret_val, StackPointer::new(ret_sp))
 }
 
-#[inline(always)]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline(always))]
 pub unsafe fn switch_yield(arg: EncodedValue, parent_link: *mut StackPointer) -> EncodedValue {
     let ret_val;
 
@@ -496,7 +498,7 @@ pub unsafe fn switch_and_reset(arg: EncodedValue, parent_link: *mut StackPointer
     );
 }
 
-#[inline]
+#[inline(never)]
 #[cfg(feature = "asm-unwind")]
 pub unsafe fn switch_and_throw(
     forced_unwind: crate::unwind::ForcedUnwind,
diff --git a/src/arch/x86_windows.rs b/src/arch/x86_windows.rs
index 4404164..e97f91f 100644
--- a/src/arch/x86_windows.rs
+++ b/src/arch/x86_windows.rs
@@ -418,7 +418,8 @@ pub unsafe fn init_stack<T>(stack: &impl Stack, func: InitialFunc<T>, obj: T) ->
     StackPointer::new_unchecked(sp)
 }
 
-#[inline]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
 pub unsafe fn switch_and_link(
     arg: EncodedValue,
     sp: StackPointer,
@@ -478,7 +479,8 @@ pub unsafe fn switch_and_link(
     (ret_val, StackPointer::new(ret_sp))
 }
 
-#[inline(always)]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
+#[cfg_attr(not(feature = "asm-unwind"), inline(always))]
 pub unsafe fn switch_yield(arg: EncodedValue, parent_link: *mut StackPointer) -> EncodedValue {
     let ret_val;
 
@@ -609,7 +611,7 @@ pub unsafe fn switch_and_reset(arg: EncodedValue, parent_link: *mut StackPointer
     );
 }
 
-#[inline]
+#[inline(never)]
 #[cfg(feature = "asm-unwind")]
 pub unsafe fn switch_and_throw(
     forced_unwind: crate::unwind::ForcedUnwind,
diff --git a/src/unwind.rs b/src/unwind.rs
index e40e16f..d3d1b01 100644
--- a/src/unwind.rs
+++ b/src/unwind.rs
@@ -56,6 +56,13 @@ cfg_if::cfg_if! {
 // These definitions deal with propagating panics that occur inside a coroutine
 // back out to its parent.
 //
+// The compiler doesn't handle inline assembly that may unwind properly if it is
+// inlined into a function that has landing pads: it may be missing from the
+// exception table of that function, in which case the process aborts, or
+// registers may be restored only after the assembly code and not in its landing
+// pad. Functions which use these macros are therefore never inlined when the
+// "asm-unwind" feature is enabled.
+//
 // On non-Windows platforms we can let the exception unwind straight through
 // the stack switching trampoline when the "asm-unwind" feature is enabled.
 //
-- 
2.43.0


From 60d349ab980b182abf7d53b1cac1bbdaddd5d00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:05 +0000
Subject: [PATCH 4/5] fix: arm: clobber d8-d15 instead of q4-q7

Clobbers of q registers are ignored by LLVM on targets without NEON, such as
armv7-unknown-linux-gnueabihf and arm-unknown-linux-gnueabihf: the callee-saved
floating-point registers were then not preserved when switching stacks.
---
 src/arch/arm.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/arch/arm.rs b/src/arch/arm.rs
index 27c1c61..c3ea138 100644
--- a/src/arch/arm.rs
+++ b/src/arch/arm.rs
@@ -75,6 +75,9 @@ use crate::util::EncodedValue;
 // compiler options used (e.g. relocation model) so we probe for this in
 // build.rs and then generate an appropriate clobber list here depending on the
 // results.
+//
+// The callee-saved floating-point registers are listed as d8-d15 rather than
+// q4-q7 because clobbers of the latter are ignored on targets without NEON.
 cfg_if::cfg_if! {
     if #[cfg(fp_is_r7)] {
         #[cfg(r9_reserved)]
@@ -84,7 +87,8 @@ cfg_if::cfg_if! {
                     $($asm)*
                     lateout("r11") _,
                     lateout("r4") _, lateout("r5") _, lateout("r8") _, lateout("r10") _,
-                    lateout("q4") _, lateout("q5") _, lateout("q6") _, lateout("q7") _,
+                    lateout("d8") _, lateout("d9") _, lateout("d10") _, lateout("d11") _,
+                    lateout("d12") _, lateout("d13") _, lateout("d14") _, lateout("d15") _,
                     clobber_abi("C"),
                     options($($opt),*)
                 )
@@ -97,7 +101,8 @@ cfg_if::cfg_if! {
                     $($asm)*
                     lateout("r11") _, lateout("r9") _,
                     lateout("r4") _, lateout("r5") _, lateout("r8") _, lateout("r10") _,
-                    lateout("q4") _, lateout("q5") _, lateout("q6") _, lateout("q7") _,
+                    lateout("d8") _, lateout("d9") _, lateout("d10") _, lateout("d11") _,
+                    lateout("d12") _, lateout("d13") _, lateout("d14") _, lateout("d15") _,
                     clobber_abi("C"),
                     options($($opt),*)
                 )
@@ -121,7 +126,8 @@ cfg_if::cfg_if! {
                     $($asm)*
                     lateout("r7") _,
                     lateout("r4") _, lateout("r5") _, lateout("r8") _, lateout("r10") _,
-                    lateout("q4") _, lateout("q5") _, lateout("q6") _, lateout("q7") _,
+                    lateout("d8") _, lateout("d9") _, lateout("d10") _, lateout("d11") _,
+                    lateout("d12") _, lateout("d13") _, lateout("d14") _, lateout("d15") _,
                     clobber_abi("C"),
                     options($($opt),*)
                 )
@@ -134,7 +140,8 @@ cfg_if::cfg_if! {
                     $($asm)*
                     lateout("r7") _, lateout("r9") _,
                     lateout("r4") _, lateout("r5") _, lateout("r8") _, lateout("r10") _,
-                    lateout("q4") _, lateout("q5") _, lateout("q6") _, lateout("q7") _,
+                    lateout("d8") _, lateout("d9") _, lateout("d10") _, lateout("d11") _,
+                    lateout("d12") _, lateout("d13") _, lateout("d14") _, lateout("d15") _,
                     clobber_abi("C"),
                     options($($opt),*)
                 )
-- 
2.43.0


From 8c3b774a94443f7855c54690a6df779cce309561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:33 +0000
Subject: [PATCH 5/5] fix: keep the TEB fields of a stack whose coroutine is
 reset (Windows)

force_reset left the words at the stack base, from which into_stack and Drop
update the stack's StackLimit and GuaranteedStackBytes, uninitialized.
---
 src/arch/x86_64_windows.rs | 20 ++++++++++++++++++++
 src/arch/x86_windows.rs    | 20 ++++++++++++++++++++
 src/coroutine.rs           |  5 +++++
 3 files changed, 45 insertions(+)

diff --git a/src/arch/x86_64_windows.rs b/src/arch/x86_64_windows.rs
index d2b6803..14f75a7 100644
--- a/src/arch/x86_64_windows.rs
+++ b/src/arch/x86_64_windows.rs
@@ -608,6 +608,26 @@ pub unsafe fn drop_initial_obj(
     *base.sub(2) = *stack.add(4); // GuaranteedStackBytes
 }
 
+/// This function is called by `force_reset` to write the TEB fields to the base
+/// of the stack of a coroutine that will not run again, so that they can be
+/// retreived by update_stack_teb_fields().
+#[inline]
+pub unsafe fn reset_stack_teb_fields(stack: &impl Stack, stack_ptr: StackPointer, started: bool) {
+    let mut teb = stack.teb_fields();
+    if started {
+        // Use the fields saved by switch_yield(), unless the coroutine was
+        // suspended while running on another stack with on_stack().
+        let saved = read_parent_stack_teb_fields(stack_ptr);
+        if saved.StackBase == teb.StackBase {
+            teb = saved;
+        }
+    }
+
+    let base = stack.base().get() as *mut StackWord;
+    *base.sub(1) = teb.StackLimit as StackWord;
+    *base.sub(2) = teb.GuaranteedStackBytes as StackWord;
+}
+
 /// This function must be called after a stack has finished running a coroutine
 /// so that the `StackLimit` and `GuaranteedStackBytes` fields from the TEB can
 /// be updated in the stack. This is necessary if the stack is reused for
diff --git a/src/arch/x86_windows.rs b/src/arch/x86_windows.rs
index e97f91f..c4e3531 100644
--- a/src/arch/x86_windows.rs
+++ b/src/arch/x86_windows.rs
@@ -723,6 +723,26 @@ pub unsafe fn drop_initial_obj(
     *base.sub(2) = *stack.add(5); // GuaranteedStackBytes
 }
 
+/// This function is called by `force_reset` to write the TEB fields to the base
+/// of the stack of a coroutine that will not run again, so that they can be
+/// retreived by update_stack_teb_fields().
+#[inline]
+pub unsafe fn reset_stack_teb_fields(stack: &impl Stack, stack_ptr: StackPointer, started: bool) {
+    let mut teb = stack.teb_fields();
+    if started {
+        // Use the fields saved by switch_yield(), unless the coroutine was
+        // suspended while running on another stack with on_stack().
+        let saved = read_parent_stack_teb_fields(stack_ptr);
+        if saved.StackBase == teb.StackBase {
+            teb = saved;
+        }
+    }
+
+    let base = stack.base().get() as *mut StackWord;
+    *base.sub(1) = teb.StackLimit as StackWord;
+    *base.sub(2) = teb.GuaranteedStackBytes as StackWord;
+}
+
 /// This function must be called after a stack has finished running a coroutine
 /// so that the `StackLimit` and `GuaranteedStackBytes` fields from the TEB can
 /// be updated in the stack. This is necessary if the stack is reused for
diff --git a/src/coroutine.rs b/src/coroutine.rs
index 982685a..6ce4a04 100644
--- a/src/coroutine.rs
+++ b/src/coroutine.rs
@@ -312,6 +312,11 @@ impl<Input, Yield, Return, Stack: stack::Stack> Coroutine<Input, Yield, Return,
     /// This can only be done safely if there are no objects currently on the
     /// coroutine's stack that need to execute `Drop` code.
     pub unsafe fn force_reset(&mut self) {
+        #[cfg(windows)]
+        if let Some(stack_ptr) = self.stack_ptr {
+            arch::reset_stack_teb_fields(&self.stack, stack_ptr, self.started());
+        }
+
         self.stack_ptr = None;
     }
 
-- 
2.43.0

