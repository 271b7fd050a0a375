From 31e18e03841e4f7a5730fa16a2af56312b112ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 01/18] fix: initialise the last page of a frame when page data
 ends right before it

FastMemory::prepare_memory skipped the frame initialisation when the written
range ended exactly one page before the end of a memory frame, so the guest
could read whatever the host heap held before in that last page.
---
 src/machine/asm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/machine/asm/mod.rs b/src/machine/asm/mod.rs
index 2f718cd..8897eb9 100644
--- a/src/machine/asm/mod.rs
+++ b/src/machine/asm/mod.rs
@@ -229,7 +229,7 @@ impl<'a> FastMemory<'a> {
             // There is some memory space between the ending address of memory to be
             // written, and the end of the last memory frame touched, we will need to
             // initialize the last memory frame.
-            if (aligned_end + RISCV_PAGESIZE as u64) < frame_next_start {
+            if aligned_end < frame_next_start {
                 check_memory(self.0, aligned_end >> RISCV_PAGE_SHIFTS);
             }
         }
-- 
2.43.0


From 3c481c5bdabf54430b3718abbd757b9f52fbed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 02/18] fix: forget the last written page when a store is
 refused

The assembly engine records the page of a store before checking it, so after a
refused store, running the machine again let the next store to the same page
skip the bound and permission checks.
---
 src/machine/asm/execute_aarch64.S | 6 ++++++
 src/machine/asm/execute_x64.S     | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/machine/asm/execute_aarch64.S b/src/machine/asm/execute_aarch64.S
index 3cf7b42..5a090e3 100644
--- a/src/machine/asm/execute_aarch64.S
+++ b/src/machine/asm/execute_aarch64.S
@@ -1946,10 +1946,16 @@ ckb_vm_x64_execute:
   b .exit
 .exit_out_of_bound:
   str TEMP3, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_ERROR_ARG0]
+  /* The page recorded as last written might have failed its checks */
+  mov TEMP1, -1
+  str TEMP1, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE]
   mov x0, CKB_VM_ASM_RET_OUT_OF_BOUND
   b .exit
 .exit_invalid_permission:
   str TEMP1, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_ERROR_ARG0]
+  /* The page recorded as last written might have failed its checks */
+  mov TEMP1, -1
+  str TEMP1, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE]
   mov x0, CKB_VM_ASM_RET_INVALID_PERMISSION
   b .exit
 .exit_pause:
diff --git a/src/machine/asm/execute_x64.S b/src/machine/asm/execute_x64.S
index 1100933..04bb6b0 100644
--- a/src/machine/asm/execute_x64.S
+++ b/src/machine/asm/execute_x64.S
@@ -2415,6 +2415,8 @@ ckb_vm_x64_execute:
 .p2align 3
 .exit_out_of_bound:
   mov TEMP3, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_ERROR_ARG0(MACHINE)
+  /* The page recorded as last written might have failed its checks */
+  movq $-1, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE(MACHINE)
   mov $CKB_VM_ASM_RET_OUT_OF_BOUND, ARG_RETd
   jmp .exit
 .p2align 3
@@ -2428,6 +2430,8 @@ ckb_vm_x64_execute:
 .p2align 3
 .exit_invalid_permission:
   mov TEMP1, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_ERROR_ARG0(MACHINE)
+  /* The page recorded as last written might have failed its checks */
+  movq $-1, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE(MACHINE)
   mov $CKB_VM_ASM_RET_INVALID_PERMISSION, ARG_RETd
   jmp .exit
 /*
-- 
2.43.0


From 53e4aeb21befdc8f87e7d6da7a23ce31539230f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 03/18] fix: AsmMachine::step executes exactly one instruction

A jump to itself matched the only trace again and was repeated until the cycles
were used up, a pending pause request turned a taken jump into Error::Asm, and
so did a cycle counter overflow.
---
 src/machine/asm/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/machine/asm/mod.rs b/src/machine/asm/mod.rs
index 8897eb9..1ea020d 100644
--- a/src/machine/asm/mod.rs
+++ b/src/machine/asm/mod.rs
@@ -743,19 +743,24 @@ impl AsmMachine {
         // Decode only one instruction into a trace
         let (trace, _) = decode_fixed_trace(decoder, &mut self.machine, Some(1))?;
 
+        // Taken jumps check for pause requests before they look for their next
+        // trace. A flag that is always set thus makes them leave, otherwise an
+        // instruction jumping to itself would be executed over and over again.
+        let mut leave = 1u8;
         let result = unsafe {
             let data = InvokeData {
-                pause: self.machine.pause.get_raw_ptr(),
+                pause: &mut leave as *mut u8,
                 fixed_traces: &trace as *const FixedTrace,
                 fixed_trace_mask: 0,
             };
             ckb_vm_x64_execute(&mut **self.machine.inner_mut(), &data as *const _)
         };
         match result {
-            RET_DECODE_TRACE => (),
+            RET_DECODE_TRACE | RET_DYNAMIC_JUMP | RET_PAUSE => (),
             RET_ECALL => self.machine.ecall()?,
             RET_EBREAK => self.machine.ebreak()?,
             RET_MAX_CYCLES_EXCEEDED => return Err(Error::CyclesExceeded),
+            RET_CYCLES_OVERFLOW => return Err(Error::CyclesOverflow),
             RET_OUT_OF_BOUND => {
                 return Err(Error::MemOutOfBound(
                     self.machine.inner.error_arg0,
-- 
2.43.0


From c5560a5a2c1ac96b651b532ea4c57b382290512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 04/18] fix: refuse snapshots with missing pages or page flags

snapshot::resume panicked on them.
---
 src/snapshot.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index ec42379..59ae55f 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -81,6 +81,11 @@ pub fn resume<T: CoreMachine>(machine: &mut T, snapshot: &Snapshot) -> Result<()
     if machine.version() != snapshot.version {
         return Err(Error::InvalidVersion);
     }
+    if snapshot.page_flags.len() != snapshot.page_indices.len()
+        || snapshot.pages.len() != snapshot.page_indices.len()
+    {
+        return Err(Error::SnapshotDataLoadError);
+    }
     for (i, v) in snapshot.registers.iter().enumerate() {
         machine.set_register(i, T::REG::from_u64(*v));
     }
-- 
2.43.0


From 3ddd55b3f4b43f8dad3cfcdadee9c0a50638e67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 05/18] fix: snapshots of 32-bit machines hold whole pages

Pages were read through 64-bit loads, whose upper half does not fit the registers
of a 32-bit machine.
---
 src/snapshot.rs | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 59ae55f..4915a85 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -49,25 +49,11 @@ pub fn make_snapshot<T: CoreMachine>(machine: &mut T) -> Result<Snapshot, Error>
     for i in 0..machine.memory().memory_pages() {
         let flag = machine.memory_mut().fetch_flag(i as u64)?;
         if flag & FLAG_DIRTY != 0 {
-            let addr_from = i << RISCV_PAGE_SHIFTS;
-            let addr_to = (i + 1) << RISCV_PAGE_SHIFTS;
-
-            let mut page = vec![0; RISCV_PAGESIZE];
-            for i in (addr_from..addr_to).step_by(8) {
-                let v64 = machine
-                    .memory_mut()
-                    .load64(&T::REG::from_u64(i as u64))?
-                    .to_u64();
-                let j = i - addr_from;
-                page[j] = v64 as u8;
-                page[j + 1] = (v64 >> 8) as u8;
-                page[j + 2] = (v64 >> 16) as u8;
-                page[j + 3] = (v64 >> 24) as u8;
-                page[j + 4] = (v64 >> 32) as u8;
-                page[j + 5] = (v64 >> 40) as u8;
-                page[j + 6] = (v64 >> 48) as u8;
-                page[j + 7] = (v64 >> 56) as u8;
-            }
+            let addr_from = (i << RISCV_PAGE_SHIFTS) as u64;
+            let page = machine
+                .memory_mut()
+                .load_bytes(addr_from, RISCV_PAGESIZE as u64)?
+                .to_vec();
 
             snap.page_indices.push(i as u64);
             snap.page_flags.push(flag);
-- 
2.43.0


From 03056f6d58395cd35144ad430a26cc61151d8624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 06/18] fix: untrack pages of a program rewritten by a later
 segment

A page filled from the data source by one segment and overwritten by a later one
was restored with the content of the earlier segment.
---
 src/snapshot2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/snapshot2.rs b/src/snapshot2.rs
index f06d25e..b057866 100644
--- a/src/snapshot2.rs
+++ b/src/snapshot2.rs
@@ -229,6 +229,9 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
         id: &I,
         offset: u64,
     ) -> Result<(), Error> {
+        // Loading this segment rewrote all its pages, including those shared with
+        // an earlier segment.
+        self.untrack_pages(machine, action.addr, action.size)?;
         let start = action.addr + action.offset_from_addr;
         let length = min(
             action.source.end - action.source.start,
-- 
2.43.0


From a12bbdb330d88a9a9ee2ef6f457faf65f5eb88f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 07/18] fix: data source snapshots record the current page
 flags

Flags changed after a page was tracked were lost.
---
 src/snapshot2.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/snapshot2.rs b/src/snapshot2.rs
index b057866..cbb5779 100644
--- a/src/snapshot2.rs
+++ b/src/snapshot2.rs
@@ -184,17 +184,18 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
             // Some pages might be marked as cached pages from data source, but receives
             // memory writes later(and marked as dirty). We are safely skipping those pages
             // here as they will be gathered as dirty pages.
-            if machine.memory_mut().fetch_flag(page)? & FLAG_DIRTY != 0 {
+            let flag = machine.memory_mut().fetch_flag(page)?;
+            if flag & FLAG_DIRTY != 0 {
                 continue;
             }
             let address = page * PAGE_SIZE;
-            let (id, offset, flag) = &self.pages[&page];
+            let (id, offset, _) = &self.pages[&page];
             let mut appended_to_last = false;
             if let Some((last_address, last_flag, last_id, last_offset, last_length)) =
                 pages_from_source.last_mut()
             {
                 if *last_address + *last_length == address
-                    && *last_flag == *flag
+                    && *last_flag == flag
                     && *last_id == *id
                     && *last_offset + *last_length == *offset
                 {
@@ -203,7 +204,7 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
                 }
             }
             if !appended_to_last {
-                pages_from_source.push((address, *flag, id.clone(), *offset, PAGE_SIZE));
+                pages_from_source.push((address, flag, id.clone(), *offset, PAGE_SIZE));
             }
         }
         let mut registers = [0u64; RISCV_GENERAL_REGISTER_NUMBER];
-- 
2.43.0


From 1938e561e5b3d0f9a0dfa22b90b226fed5171d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 08/18] fix: tracking no bytes at all is fine at any address

The page rounding wrapped around for addresses in the last page of the 64-bit
address space.
---
 src/snapshot2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/snapshot2.rs b/src/snapshot2.rs
index cbb5779..7ae168f 100644
--- a/src/snapshot2.rs
+++ b/src/snapshot2.rs
@@ -251,6 +251,9 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
         id: &I,
         mut offset: u64,
     ) -> Result<(), Error> {
+        if length == 0 {
+            return Ok(());
+        }
         let mut aligned_start = roundup(start, PAGE_SIZE);
         let aligned_bytes = aligned_start - start;
         if length < aligned_bytes {
-- 
2.43.0


From bc1e4857e684d1f443d41253b7ecdfc0e87d618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 09/18] fix: report cycles overflow inside a trace

The sum of the costs of a block wrapped around, undercharging the guest.
---
 src/machine/asm/traces.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/machine/asm/traces.rs b/src/machine/asm/traces.rs
index edcc603..403ead5 100644
--- a/src/machine/asm/traces.rs
+++ b/src/machine/asm/traces.rs
@@ -57,7 +57,10 @@ pub fn decode_fixed_trace<D: InstDecoder>(
         let instruction = decoder.decode(machine.memory_mut(), current_pc)?;
         let end_instruction = is_basic_block_end_instruction(instruction);
         current_pc += u64::from(instruction_length(instruction));
-        trace.cycles += machine.instruction_cycle_func()(instruction);
+        trace.cycles = trace
+            .cycles
+            .checked_add(machine.instruction_cycle_func()(instruction))
+            .ok_or(Error::CyclesOverflow)?;
         let opcode = extract_opcode(instruction);
         // Here we are calculating the absolute address used in direct threading
         // from label offsets.
@@ -311,6 +314,9 @@ impl<D: InstDecoder> MemoizedDynamicTraceDecoder<D> {
             let instruction = self.decode(machine.memory_mut(), builder.next_pc())?;
             let end_instruction = is_basic_block_end_instruction(instruction);
             let cycles = machine.instruction_cycle_func()(instruction);
+            if builder.cycles.checked_add(cycles).is_none() {
+                return Err(Error::CyclesOverflow);
+            }
             builder.push(instruction, cycles);
             if end_instruction {
                 break;
-- 
2.43.0


From 9080b274f685957f4f2b32a76059fa5aeb3d1f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 10/18] fix: TraceMachine refuses macro-op fusion for version 0

The other engines do.
---
 src/machine/trace.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/machine/trace.rs b/src/machine/trace.rs
index 9b500f2..239b33d 100644
--- a/src/machine/trace.rs
+++ b/src/machine/trace.rs
@@ -6,9 +6,9 @@ use super::{
             execute_with_thread, extract_opcode, handle_invalid_op, instruction_length,
             is_basic_block_end_instruction, Instruction, Register, Thread, ThreadFactory,
         },
-        Error,
+        Error, ISA_MOP,
     },
-    CoreMachine, DefaultMachine, Machine, SupportMachine, VERSION2,
+    CoreMachine, DefaultMachine, Machine, SupportMachine, VERSION0, VERSION2,
 };
 use bytes::Bytes;
 
@@ -137,6 +137,9 @@ impl<Inner: SupportMachine> TraceMachine<Inner> {
     }
 
     pub fn run_with_decoder<D: InstDecoder>(&mut self, decoder: &mut D) -> Result<i8, Error> {
+        if self.isa() & ISA_MOP != 0 && self.version() == VERSION0 {
+            return Err(Error::InvalidVersion);
+        }
         self.machine.set_running(true);
         // For current trace size this is acceptable, however we might want
         // to tweak the code here if we choose to use a larger trace size or
-- 
2.43.0


From 52964856bbe0bccef1b5d770a275f4f4045a16f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 11/18] fix: refused page initialisation leaves all page flags
 alone

WXorXMemory set the flags of the pages before the freezed one it stopped at.
---
 src/memory/wxorx.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/memory/wxorx.rs b/src/memory/wxorx.rs
index 8d77385..283ed51 100644
--- a/src/memory/wxorx.rs
+++ b/src/memory/wxorx.rs
@@ -68,7 +68,9 @@ impl<M: Memory> Memory for WXorXMemory<M> {
             if self.fetch_flag(page)? & FLAG_FREEZED != 0 {
                 return Err(Error::MemWriteOnFreezedPage(page));
             }
-            self.set_flag(page, flags)?;
+        }
+        for page_addr in (addr..addr + size).step_by(RISCV_PAGESIZE) {
+            self.set_flag(page_addr / RISCV_PAGESIZE as u64, flags)?;
         }
         self.inner
             .init_pages(addr, size, flags, source, offset_from_addr)
-- 
2.43.0


From 6ecebd59ddd084a8bb8b8256787bec33924ee9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 12/18] fix: out of bound stores to sparse memory write nothing

Stores reaching over the end wrote the bytes that fit before failing.
---
 src/memory/sparse.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/memory/sparse.rs b/src/memory/sparse.rs
index 09cf917..fbc31db 100644
--- a/src/memory/sparse.rs
+++ b/src/memory/sparse.rs
@@ -178,6 +178,10 @@ impl<R: Register> Memory for SparseMemory<R> {
     }
 
     fn store_bytes(&mut self, addr: u64, value: &[u8]) -> Result<(), Error> {
+        if value.is_empty() {
+            return Ok(());
+        }
+        check_no_overflow(addr, value.len() as u64, self.memory_size() as u64)?;
         let mut remaining_data = value;
         let mut current_page_addr = round_page_down(addr);
         let mut current_page_offset = addr - current_page_addr;
@@ -200,6 +204,10 @@ impl<R: Register> Memory for SparseMemory<R> {
     }
 
     fn store_byte(&mut self, addr: u64, size: u64, value: u8) -> Result<(), Error> {
+        if size == 0 {
+            return Ok(());
+        }
+        check_no_overflow(addr, size, self.memory_size() as u64)?;
         let mut current_page_addr = round_page_down(addr);
         let mut current_page_offset = addr - current_page_addr;
         let mut remaining_size = size;
-- 
2.43.0


From 414366fde41b74ba2c3fac772f0dd74e51906720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 13/18] fix: sparse memory of more than 65535 pages

16-bit page indices made pages share storage once that many were touched.
---
 src/memory/sparse.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/memory/sparse.rs b/src/memory/sparse.rs
index fbc31db..fb6ccb9 100644
--- a/src/memory/sparse.rs
+++ b/src/memory/sparse.rs
@@ -7,16 +7,16 @@ use bytes::Bytes;
 use std::cmp::min;
 use std::marker::PhantomData;
 
-const INVALID_PAGE_INDEX: u16 = 0xFFFF;
+const INVALID_PAGE_INDEX: u32 = 0xFFFF_FFFF;
 
 /// A sparse flat memory implementation, it allocates pages only when requested,
 /// but besides that, it does not permission checking.
 pub struct SparseMemory<R> {
     // Stores the indices of each page in pages data structure, if a page hasn't
     // been initialized, the corresponding position will be filled with
-    // INVALID_PAGE_INDEX. Considering u16 takes 2 bytes, this add an additional
-    // of 64KB extra storage cost assuming we have 128MB memory.
-    indices: Vec<u16>,
+    // INVALID_PAGE_INDEX. Considering u32 takes 4 bytes, this add an additional
+    // of 128KB extra storage cost assuming we have 128MB memory.
+    indices: Vec<u32>,
     pages: Vec<Page>,
     flags: Vec<u8>,
     memory_size: usize,
@@ -34,7 +34,7 @@ impl<R: Register> SparseMemory<R> {
         let mut index = self.indices[page as usize];
         if index == INVALID_PAGE_INDEX {
             self.pages.push([0; RISCV_PAGESIZE]);
-            index = (self.pages.len() - 1) as u16;
+            index = (self.pages.len() - 1) as u32;
             self.indices[page as usize] = index;
         }
         Ok(&mut self.pages[index as usize])
-- 
2.43.0


From 777967554e918741aa7546fa06bea8daeafc8d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 14/18] fix: release dynamic traces with the layout they were
 allocated with

Box<DynamicTrace> covers only the header of the allocation, so dropping it handed
the wrong size and alignment to the allocator, and accesses through it reached
beyond what it owns.
---
 src/machine/asm/traces.rs | 60 +++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 15 deletions(-)

diff --git a/src/machine/asm/traces.rs b/src/machine/asm/traces.rs
index 403ead5..c1cc650 100644
--- a/src/machine/asm/traces.rs
+++ b/src/machine/asm/traces.rs
@@ -17,8 +17,9 @@ use crate::{
     },
     memory::Memory,
 };
-use std::alloc::{alloc, alloc_zeroed, Layout};
+use std::alloc::{alloc, alloc_zeroed, dealloc, handle_alloc_error, Layout};
 use std::collections::HashMap;
+use std::ptr::NonNull;
 
 pub trait TraceDecoder: InstDecoder {
     fn fixed_traces(&self) -> *const FixedTrace;
@@ -207,13 +208,13 @@ impl<D: InstDecoder> InstDecoder for MemoizedFixedTraceDecoder<D> {
 /// The individual fields in this data structure, albeit similar to FixedTrace,
 /// are marked as privates so one cannot directly instantiate a struct of
 /// DynamicTrace. Instead, all constructions of DynamicTrace are done via
-/// DynamicTraceBuilder, which builds `Box<DynamicTrace>`. This is due to the
+/// DynamicTraceBuilder, which builds `DynamicTraceBox`. This is due to the
 /// reasons that we might have a variable number of `threads` allocated at the
 /// end of this data structure. So on the surface, it might appear that a
 /// struct of DynamicTrace is 24 bytes. In reality it is bigger than this:
 /// a struct of DynamicTrace containing 30 opcodes could be
 /// 24 + 30 * 16 + 16 = 520 bytes long(the final 16 bytes are for OP_CUSTOM_TRACE_END).
-/// Using `Box<DynamicTrace>`, together with `DynamicTraceBuilder`, helps us to
+/// Using `DynamicTraceBox`, together with `DynamicTraceBuilder`, helps us to
 /// abstract this details away when we are constructing the types. The underlying
 /// assembly code cannot tell the difference between DynamicTrace and FixedTrace.
 #[repr(C)]
@@ -223,6 +224,29 @@ pub struct DynamicTrace {
     cycles: u64,
 }
 
+/// Owner of a DynamicTrace, remembering the layout it was allocated with: a
+/// `Box<DynamicTrace>` would release it as if there were no threads at its end.
+pub struct DynamicTraceBox {
+    trace: NonNull<DynamicTrace>,
+    layout: Layout,
+}
+
+// DynamicTraceBox uniquely owns plain data
+unsafe impl Send for DynamicTraceBox {}
+unsafe impl Sync for DynamicTraceBox {}
+
+impl DynamicTraceBox {
+    pub fn as_ptr(&self) -> *const DynamicTrace {
+        self.trace.as_ptr()
+    }
+}
+
+impl Drop for DynamicTraceBox {
+    fn drop(&mut self) {
+        unsafe { dealloc(self.trace.as_ptr() as *mut u8, self.layout) };
+    }
+}
+
 pub struct DynamicTraceBuilder {
     start_address: u64,
     length: u32,
@@ -254,16 +278,19 @@ impl DynamicTraceBuilder {
         self.insts.push((inst, label));
     }
 
-    pub fn build(mut self) -> Box<DynamicTrace> {
+    pub fn build(mut self) -> DynamicTraceBox {
         self.insts.push((
             blank_instruction(OP_CUSTOM_TRACE_END),
             label_from_fastpath_opcode(OP_CUSTOM_TRACE_END),
         ));
         let fixed_size = std::mem::size_of::<DynamicTrace>();
         let total_size = fixed_size + self.insts.len() * 16;
-        let p = unsafe {
-            let layout = Layout::array::<u8>(total_size).unwrap();
-            alloc(layout)
+        let layout =
+            Layout::from_size_align(total_size, std::mem::align_of::<DynamicTrace>()).unwrap();
+        let p = unsafe { alloc(layout) };
+        let trace = match NonNull::new(p as *mut DynamicTrace) {
+            Some(trace) => trace,
+            None => handle_alloc_error(layout),
         };
         let threads = unsafe { p.add(fixed_size) } as *mut u64;
         for (i, (inst, label)) in self.insts.iter().enumerate() {
@@ -272,11 +299,14 @@ impl DynamicTraceBuilder {
                 threads.offset(i as isize * 2 + 1).write(*inst);
             }
         }
-        let mut trace = unsafe { Box::from_raw(p as *mut DynamicTrace) };
-        trace.address = self.start_address;
-        trace.length = self.length;
-        trace.cycles = self.cycles;
-        trace
+        unsafe {
+            trace.as_ptr().write(DynamicTrace {
+                address: self.start_address,
+                length: self.length,
+                cycles: self.cycles,
+            });
+        }
+        DynamicTraceBox { trace, layout }
     }
 }
 
@@ -285,7 +315,7 @@ impl DynamicTraceBuilder {
 pub struct MemoizedDynamicTraceDecoder<D: InstDecoder> {
     inner: SimpleFixedTraceDecoder<D>,
     fixed_cache: HashMap<u64, FixedTrace>,
-    dynamic_cache: HashMap<u64, Box<DynamicTrace>>,
+    dynamic_cache: HashMap<u64, DynamicTraceBox>,
 }
 
 impl<D: InstDecoder> MemoizedDynamicTraceDecoder<D> {
@@ -307,7 +337,7 @@ impl<D: InstDecoder> MemoizedDynamicTraceDecoder<D> {
         machine: &mut DefaultMachine<Box<AsmCoreMachine>>,
     ) -> Result<*const DynamicTrace, Error> {
         if let Some(trace) = self.dynamic_cache.get(&pc) {
-            return Ok(trace.as_ref() as *const DynamicTrace);
+            return Ok(trace.as_ptr());
         }
         let mut builder = DynamicTraceBuilder::new(pc);
         loop {
@@ -323,7 +353,7 @@ impl<D: InstDecoder> MemoizedDynamicTraceDecoder<D> {
             }
         }
         let dynamic_trace = builder.build();
-        let p = dynamic_trace.as_ref() as *const DynamicTrace;
+        let p = dynamic_trace.as_ptr();
         self.dynamic_cache.insert(pc, dynamic_trace);
         Ok(p)
     }
-- 
2.43.0


From 0c26bba9757979e359f65402d44760218a980060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:50 +0000
Subject: [PATCH 15/18] fix: TraceMachine builds its traces anew for every run

---
 src/machine/trace.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/machine/trace.rs b/src/machine/trace.rs
index 239b33d..0b709de 100644
--- a/src/machine/trace.rs
+++ b/src/machine/trace.rs
@@ -144,6 +144,9 @@ impl<Inner: SupportMachine> TraceMachine<Inner> {
         // For current trace size this is acceptable, however we might want
         // to tweak the code here if we choose to use a larger trace size or
         // larger trace item length.
+        // The host might have changed code since the last run, traces built then
+        // must not be used again.
+        self.traces.clear();
         self.traces.resize_with(TRACE_SIZE, Trace::default);
         while self.machine.running() {
             if self.machine.pause.has_interrupted() {
-- 
2.43.0


From ba8a19b3575a8152e8f918c0ea3174170fbdb96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 16/18] fix: track_pages and untrack_pages refuse ranges
 outside of the memory instead of panicking

---
 src/snapshot2.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/snapshot2.rs b/src/snapshot2.rs
index 7ae168f..025ee6a 100644
--- a/src/snapshot2.rs
+++ b/src/snapshot2.rs
@@ -1,6 +1,7 @@
 use crate::{
     bits::roundup,
     elf::{LoadingAction, ProgramMetadata},
+    error::OutOfBoundKind,
     machine::SupportMachine,
     memory::{get_page_indices, Memory, FLAG_DIRTY},
     Error, Register, RISCV_GENERAL_REGISTER_NUMBER, RISCV_PAGESIZE,
@@ -238,7 +239,10 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
             action.source.end - action.source.start,
             action.size - action.offset_from_addr,
         );
-        self.track_pages(machine, start, length, id, offset + action.source.start)
+        let source_start = offset
+            .checked_add(action.source.start)
+            .ok_or(Error::SnapshotDataLoadError)?;
+        self.track_pages(machine, start, length, id, source_start)
     }
 
     /// The followings are only made public for advanced usages, but make sure to exercise more
@@ -254,8 +258,12 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
         if length == 0 {
             return Ok(());
         }
+        check_range(start, length)?;
+        if offset.checked_add(length).is_none() {
+            return Err(Error::SnapshotDataLoadError);
+        }
         let mut aligned_start = roundup(start, PAGE_SIZE);
-        let aligned_bytes = aligned_start - start;
+        let aligned_bytes = aligned_start.wrapping_sub(start);
         if length < aligned_bytes {
             return Ok(());
         }
@@ -282,6 +290,7 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
         if length == 0 {
             return Ok(());
         }
+        check_range(start, length)?;
         let page_indices = get_page_indices(start, length);
         for page in page_indices.0..=page_indices.1 {
             machine.memory_mut().set_flag(page, FLAG_DIRTY)?;
@@ -291,6 +300,14 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
     }
 }
 
+// No page range reaches or passes the end of the 64-bit address space.
+fn check_range(start: u64, length: u64) -> Result<(), Error> {
+    start
+        .checked_add(length)
+        .map(|_| ())
+        .ok_or(Error::MemOutOfBound(start, OutOfBoundKind::Memory))
+}
+
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct Snapshot2<I: Clone + PartialEq> {
     // (address, flag, id, source offset, source length)
-- 
2.43.0


From 875ecba010fc29b24ac511c590997c6d75a0d3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 17/18] fix: AsmCoreMachine::load_bytes returns a copy instead
 of a view of the machine's memory

---
 src/machine/asm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/machine/asm/mod.rs b/src/machine/asm/mod.rs
index 1ea020d..0ed2631 100644
--- a/src/machine/asm/mod.rs
+++ b/src/machine/asm/mod.rs
@@ -518,7 +518,7 @@ impl Memory for Box<AsmCoreMachine> {
             let memory_from = memory.add(addr as usize);
             std::slice::from_raw_parts(memory_from, size as usize)
         };
-        Ok(Bytes::from(slice))
+        Ok(Bytes::copy_from_slice(slice))
     }
 
     fn execute_load16(&mut self, addr: u64) -> Result<u16, Error> {
-- 
2.43.0


From 91f3ee87f7b124b329d568c06b122b094fb67179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 18/18] fix: resetting a machine also clears the exit code of
 its last program

A program stopped by a syscall handler through set_running(false) otherwise
ends with the exit code of the program run before the reset.
---
 src/machine/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/machine/mod.rs b/src/machine/mod.rs
index 8babb79..001d6b7 100644
--- a/src/machine/mod.rs
+++ b/src/machine/mod.rs
@@ -489,6 +489,7 @@ impl<Inner: SupportMachine> SupportMachine for DefaultMachine<Inner> {
     }
 
     fn reset(&mut self, max_cycles: u64) -> Result<(), Error> {
+        self.exit_code = 0;
         self.inner_mut().reset(max_cycles)
     }
 
-- 
2.43.0

