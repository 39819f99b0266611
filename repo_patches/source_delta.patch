From 7b734570ef5d5830245b1b7ef66e2defa65005f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:32 +0000
Subject: [PATCH 01/16] fix: asm: remember the last written page only after its
 checks passed

CHECK_WRITE stored the page of the address into last_write_page before the
bounds and permission checks, so after a store that failed, a second store to
the same page took the fast path and skipped both checks.
---
 src/machine/asm/execute_aarch64.S | 2 +-
 src/machine/asm/execute_x64.S     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/machine/asm/execute_aarch64.S b/src/machine/asm/execute_aarch64.S
index 3cf7b42..8f5bc1a 100644
--- a/src/machine/asm/execute_aarch64.S
+++ b/src/machine/asm/execute_aarch64.S
@@ -234,7 +234,6 @@
   cmp TEMP1, TEMP2 SEP \
   beq 2f SEP \
 3: \
-  str TEMP1, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE] SEP \
   ldr TEMP2, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_FLAGS_SIZE] SEP \
   cmp TEMP1, TEMP2 SEP \
   bhs .exit_out_of_bound SEP \
@@ -244,6 +243,7 @@
   and TEMP3, TEMP3, CKB_VM_ASM_MEMORY_FLAG_WXORX_BIT SEP \
   cmp TEMP3, CKB_VM_ASM_MEMORY_FLAG_WRITABLE SEP \
   bne .exit_invalid_permission SEP \
+  str TEMP1, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE] SEP \
   orr TEMP2, TEMP2, CKB_VM_ASM_MEMORY_FLAG_DIRTY SEP \
   strb TEMP2w, [TEMP5, TEMP1] SEP \
   mov TEMP2, TEMP1 SEP \
diff --git a/src/machine/asm/execute_x64.S b/src/machine/asm/execute_x64.S
index 1100933..15f4484 100644
--- a/src/machine/asm/execute_x64.S
+++ b/src/machine/asm/execute_x64.S
@@ -272,7 +272,6 @@
   je 2f;\
 3:; \
   movq address_reg, TEMP3; \
-  movq TEMP1, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE(MACHINE); \
   movq CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_FLAGS_SIZE(MACHINE), TEMP2; \
   cmp TEMP2, TEMP1; \
   jae .exit_out_of_bound; \
@@ -282,6 +281,7 @@
   and $CKB_VM_ASM_MEMORY_FLAG_WXORX_BIT, temp_regd; \
   cmp $CKB_VM_ASM_MEMORY_FLAG_WRITABLE, temp_regd; \
   jne .exit_invalid_permission; \
+  movq TEMP1, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE(MACHINE); \
   or $CKB_VM_ASM_MEMORY_FLAG_DIRTY, TEMP2b; \
   movb TEMP2b, (TEMP3, TEMP1); \
   movq TEMP1, TEMP2; \
-- 
2.43.0


From 83f75cfbf18c584de5e341484b1671ed95c7000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 02/16] fix: asm: AsmMachine::step executes exactly one
 instruction

The assembly code only leaves a one-instruction trace when the program counter
moves away from it, so a jump or branch to itself was executed again and again
within a single step, without end when no cycle limit stopped it. Cycle
overflow is also reported as such.
---
 src/machine/asm/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/machine/asm/mod.rs b/src/machine/asm/mod.rs
index 2f718cd..0ab3ef3 100644
--- a/src/machine/asm/mod.rs
+++ b/src/machine/asm/mod.rs
@@ -18,7 +18,7 @@ use crate::{
     decoder::{build_decoder, InstDecoder},
     elf::ProgramMetadata,
     error::OutOfBoundKind,
-    instructions::execute_instruction,
+    instructions::{execute_instruction, is_basic_block_end_instruction, is_slowpath_instruction},
     machine::{
         asm::traces::{decode_fixed_trace, SimpleFixedTraceDecoder, TraceDecoder},
         VERSION0,
@@ -740,6 +740,15 @@ impl AsmMachine {
     }
 
     pub fn step<D: InstDecoder>(&mut self, decoder: &mut D) -> Result<(), Error> {
+        // Assembly code leaves a trace only when pc moves away from it. An
+        // instruction jumping to itself would thus be executed again and again
+        // in a single step, so control flow instructions are executed here.
+        let pc = *self.machine.pc();
+        let instruction = decoder.decode(self.machine.memory_mut(), pc)?;
+        if is_basic_block_end_instruction(instruction) && !is_slowpath_instruction(instruction) {
+            return self.machine.step(decoder);
+        }
+
         // Decode only one instruction into a trace
         let (trace, _) = decode_fixed_trace(decoder, &mut self.machine, Some(1))?;
 
@@ -756,6 +765,7 @@ impl AsmMachine {
             RET_ECALL => self.machine.ecall()?,
             RET_EBREAK => self.machine.ebreak()?,
             RET_MAX_CYCLES_EXCEEDED => return Err(Error::CyclesExceeded),
+            RET_CYCLES_OVERFLOW => return Err(Error::CyclesOverflow),
             RET_OUT_OF_BOUND => {
                 return Err(Error::MemOutOfBound(
                     self.machine.inner.error_arg0,
-- 
2.43.0


From b019907fddb1394e307c53e63da05654c0df989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 03/16] fix: b: decode the RV32 encodings of the B extension on
 32-bit machines

The W-suffixed and .uw instructions exist on RV64 only but were accepted on
RV32; rev8 and zext.h have RV32 encodings of their own, which were rejected.
---
 src/instructions/b.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/instructions/b.rs b/src/instructions/b.rs
index 7410c02..d82a289 100644
--- a/src/instructions/b.rs
+++ b/src/instructions/b.rs
@@ -13,7 +13,7 @@ pub fn factory<R: Register>(instruction_bits: u32, _: u32) -> Option<Instruction
     }
     let rv64 = bit_length == 64;
     let inst = match opcode(instruction_bits) {
-        0b_0111011 => {
+        0b_0111011 if rv64 => {
             let funct3_value = funct3(instruction_bits);
             let funct7_value = funct7(instruction_bits);
             let inst_opt = match (funct3_value, funct7_value) {
@@ -21,7 +21,7 @@ pub fn factory<R: Register>(instruction_bits: u32, _: u32) -> Option<Instruction
                 (0b_001, 0b_0110000) => Some(insts::OP_ROLW),
                 (0b_010, 0b_0010000) => Some(insts::OP_SH1ADDUW),
                 (0b_100, 0b_0000100) => {
-                    if rv64 && rs2(instruction_bits) == 0 {
+                    if rs2(instruction_bits) == 0 {
                         Some(insts::OP_ZEXTH)
                     } else {
                         None
@@ -65,6 +65,9 @@ pub fn factory<R: Register>(instruction_bits: u32, _: u32) -> Option<Instruction
                 (0b_101, 0b_0000101) => Some(insts::OP_MINU),
                 (0b_110, 0b_0000101) => Some(insts::OP_MAX),
                 (0b_111, 0b_0000101) => Some(insts::OP_MAXU),
+                (0b_100, 0b_0000100) if !rv64 && rs2(instruction_bits) == 0 => {
+                    Some(insts::OP_ZEXTH)
+                }
                 _ => None,
             };
             inst_opt.map(|inst| {
@@ -83,7 +86,8 @@ pub fn factory<R: Register>(instruction_bits: u32, _: u32) -> Option<Instruction
             let rs2_value = rs2(instruction_bits);
             let inst_opt = match (funct7_value, funct3_value, rs2_value) {
                 (0b_0010100, 0b_101, 0b_00111) => Some(insts::OP_ORCB),
-                (0b_0110101, 0b_101, 0b_11000) => Some(insts::OP_REV8),
+                (0b_0110101, 0b_101, 0b_11000) if rv64 => Some(insts::OP_REV8),
+                (0b_0110100, 0b_101, 0b_11000) if !rv64 => Some(insts::OP_REV8),
                 (0b_0110000, 0b_001, 0b_00000) => Some(insts::OP_CLZ),
                 (0b_0110000, 0b_001, 0b_00010) => Some(insts::OP_CPOP),
                 (0b_0110000, 0b_001, 0b_00001) => Some(insts::OP_CTZ),
@@ -121,7 +125,7 @@ pub fn factory<R: Register>(instruction_bits: u32, _: u32) -> Option<Instruction
                 })
             }
         }
-        0b_0011011 => {
+        0b_0011011 if rv64 => {
             let funct3_value = funct3(instruction_bits);
             let funct7_value = funct7(instruction_bits);
             let rs2_value = rs2(instruction_bits);
-- 
2.43.0


From 269c2f4bc62dc2b283c35328b7d00d5399daa09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 04/16] fix: asm: report an overflow of a block's cycles
 instead of wrapping around

---
 src/machine/asm/traces.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/machine/asm/traces.rs b/src/machine/asm/traces.rs
index edcc603..403ead5 100644
--- a/src/machine/asm/traces.rs
+++ b/src/machine/asm/traces.rs
@@ -57,7 +57,10 @@ pub fn decode_fixed_trace<D: InstDecoder>(
         let instruction = decoder.decode(machine.memory_mut(), current_pc)?;
         let end_instruction = is_basic_block_end_instruction(instruction);
         current_pc += u64::from(instruction_length(instruction));
-        trace.cycles += machine.instruction_cycle_func()(instruction);
+        trace.cycles = trace
+            .cycles
+            .checked_add(machine.instruction_cycle_func()(instruction))
+            .ok_or(Error::CyclesOverflow)?;
         let opcode = extract_opcode(instruction);
         // Here we are calculating the absolute address used in direct threading
         // from label offsets.
@@ -311,6 +314,9 @@ impl<D: InstDecoder> MemoizedDynamicTraceDecoder<D> {
             let instruction = self.decode(machine.memory_mut(), builder.next_pc())?;
             let end_instruction = is_basic_block_end_instruction(instruction);
             let cycles = machine.instruction_cycle_func()(instruction);
+            if builder.cycles.checked_add(cycles).is_none() {
+                return Err(Error::CyclesOverflow);
+            }
             builder.push(instruction, cycles);
             if end_instruction {
                 break;
-- 
2.43.0


From 2e1285cf7c7835474fa8c4778cd7d2f29c051336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 05/16] fix: decoder: fuse SBB only when its first borrow
 compares the subtracted register

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 4776392..00a4849 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -445,7 +445,7 @@ impl Decoder {
                         if next_inst.rd() == head_inst.rs1()
                             || next_inst.rd() == head_inst.rs2()
                             || next_inst.rs1() != head_inst.rs1()
-                            || next_inst.rs2() != next_inst.rs2()
+                            || next_inst.rs2() != head_inst.rs2()
                         {
                             return Ok(None);
                         }
-- 
2.43.0


From a60840c070dbe31d38b3db391acdea851e661cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:01 +0000
Subject: [PATCH 06/16] fix: return owned bytes from load_bytes of the assembly
 machine

---
 src/machine/asm/mod.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/machine/asm/mod.rs b/src/machine/asm/mod.rs
index 0ab3ef3..9ac2769 100644
--- a/src/machine/asm/mod.rs
+++ b/src/machine/asm/mod.rs
@@ -513,12 +513,10 @@ impl Memory for Box<AsmCoreMachine> {
         for page in page_indices.0..=page_indices.1 {
             check_memory(self, page);
         }
-        let slice = unsafe {
-            let memory = self.memory_ptr as *mut u8;
-            let memory_from = memory.add(addr as usize);
-            std::slice::from_raw_parts(memory_from, size as usize)
-        };
-        Ok(Bytes::from(slice))
+        let slice = self.cast_ptr_to_slice(self.memory_ptr, addr as usize, size as usize);
+        // The returned value must not alias VM memory, which later writes might
+        // modify, and which is freed together with the machine.
+        Ok(Bytes::copy_from_slice(slice))
     }
 
     fn execute_load16(&mut self, addr: u64) -> Result<u16, Error> {
-- 
2.43.0


From 8499ff79e212fb84ab2c688c63b3cc1f56f877d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:01 +0000
Subject: [PATCH 07/16] fix: initialize the last page of a frame partially
 covered by init_pages

---
 src/machine/asm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/machine/asm/mod.rs b/src/machine/asm/mod.rs
index 9ac2769..9128f51 100644
--- a/src/machine/asm/mod.rs
+++ b/src/machine/asm/mod.rs
@@ -229,7 +229,7 @@ impl<'a> FastMemory<'a> {
             // There is some memory space between the ending address of memory to be
             // written, and the end of the last memory frame touched, we will need to
             // initialize the last memory frame.
-            if (aligned_end + RISCV_PAGESIZE as u64) < frame_next_start {
+            if end < frame_next_start {
                 check_memory(self.0, aligned_end >> RISCV_PAGE_SHIFTS);
             }
         }
-- 
2.43.0


From 8bdab4498c66ddd608ad7a3d178a5c773ecc80a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:01 +0000
Subject: [PATCH 08/16] fix: let sparse memory hold more than 65535 pages

---
 src/memory/sparse.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/memory/sparse.rs b/src/memory/sparse.rs
index 09cf917..c74c38a 100644
--- a/src/memory/sparse.rs
+++ b/src/memory/sparse.rs
@@ -7,16 +7,16 @@ use bytes::Bytes;
 use std::cmp::min;
 use std::marker::PhantomData;
 
-const INVALID_PAGE_INDEX: u16 = 0xFFFF;
+const INVALID_PAGE_INDEX: u32 = 0xFFFF_FFFF;
 
 /// A sparse flat memory implementation, it allocates pages only when requested,
 /// but besides that, it does not permission checking.
 pub struct SparseMemory<R> {
     // Stores the indices of each page in pages data structure, if a page hasn't
     // been initialized, the corresponding position will be filled with
-    // INVALID_PAGE_INDEX. Considering u16 takes 2 bytes, this add an additional
-    // of 64KB extra storage cost assuming we have 128MB memory.
-    indices: Vec<u16>,
+    // INVALID_PAGE_INDEX. Considering u32 takes 4 bytes, this add an additional
+    // of 128KB extra storage cost assuming we have 128MB memory.
+    indices: Vec<u32>,
     pages: Vec<Page>,
     flags: Vec<u8>,
     memory_size: usize,
@@ -34,7 +34,7 @@ impl<R: Register> SparseMemory<R> {
         let mut index = self.indices[page as usize];
         if index == INVALID_PAGE_INDEX {
             self.pages.push([0; RISCV_PAGESIZE]);
-            index = (self.pages.len() - 1) as u16;
+            index = (self.pages.len() - 1) as u32;
             self.indices[page as usize] = index;
         }
         Ok(&mut self.pages[index as usize])
-- 
2.43.0


From 8e580951e49c50f18332cd178542f13dee0a5eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:31 +0000
Subject: [PATCH 09/16] fix: refuse a stack that has no room for argc

---
 src/machine/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/machine/mod.rs b/src/machine/mod.rs
index 8babb79..ec424d1 100644
--- a/src/machine/mod.rs
+++ b/src/machine/mod.rs
@@ -186,8 +186,14 @@ pub trait SupportMachine: CoreMachine {
         if self.version() >= VERSION1 && args.is_empty() {
             let argc_size = u64::from(Self::REG::BITS / 8);
             let origin_sp = stack_start + stack_size;
-            let unaligned_sp_address = origin_sp - argc_size;
+            let unaligned_sp_address = origin_sp
+                .checked_sub(argc_size)
+                .ok_or(Error::MemOutOfStack)?;
             let aligned_sp_address = unaligned_sp_address & (!15);
+            if aligned_sp_address < stack_start {
+                // argc exceeds stack size
+                return Err(Error::MemOutOfStack);
+            }
             let used_bytes = origin_sp - aligned_sp_address;
             self.set_register(SP, Self::REG::from_u64(aligned_sp_address));
             return Ok(used_bytes);
-- 
2.43.0


From 0d93fb4c5cf51e72065854e37993e012711e210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:34 +0000
Subject: [PATCH 10/16] fix: full snapshots of 32-bit machines lose half of
 every page

make_snapshot copied pages through load64, which yields a 32-bit register
on 32-bit machines, so 4 of every 8 bytes were saved as zero.
---
 src/snapshot.rs | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index ec42379..8845778 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -49,25 +49,11 @@ pub fn make_snapshot<T: CoreMachine>(machine: &mut T) -> Result<Snapshot, Error>
     for i in 0..machine.memory().memory_pages() {
         let flag = machine.memory_mut().fetch_flag(i as u64)?;
         if flag & FLAG_DIRTY != 0 {
-            let addr_from = i << RISCV_PAGE_SHIFTS;
-            let addr_to = (i + 1) << RISCV_PAGE_SHIFTS;
-
-            let mut page = vec![0; RISCV_PAGESIZE];
-            for i in (addr_from..addr_to).step_by(8) {
-                let v64 = machine
-                    .memory_mut()
-                    .load64(&T::REG::from_u64(i as u64))?
-                    .to_u64();
-                let j = i - addr_from;
-                page[j] = v64 as u8;
-                page[j + 1] = (v64 >> 8) as u8;
-                page[j + 2] = (v64 >> 16) as u8;
-                page[j + 3] = (v64 >> 24) as u8;
-                page[j + 4] = (v64 >> 32) as u8;
-                page[j + 5] = (v64 >> 40) as u8;
-                page[j + 6] = (v64 >> 48) as u8;
-                page[j + 7] = (v64 >> 56) as u8;
-            }
+            let addr = (i << RISCV_PAGE_SHIFTS) as u64;
+            let page = machine
+                .memory_mut()
+                .load_bytes(addr, RISCV_PAGESIZE as u64)?
+                .to_vec();
 
             snap.page_indices.push(i as u64);
             snap.page_flags.push(flag);
-- 
2.43.0


From cd04a4322a99ee7ba63f30df627bba5667564db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:20 +0000
Subject: [PATCH 11/16] fix: loading from a data source near the end of the
 address space panics

track_pages and untrack_pages computed page ranges of addresses that wrap
around, overflowing (with overflow checks on) before the out-of-bound store
could be refused.
---
 src/snapshot2.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/snapshot2.rs b/src/snapshot2.rs
index f06d25e..4a2e4b2 100644
--- a/src/snapshot2.rs
+++ b/src/snapshot2.rs
@@ -2,7 +2,7 @@ use crate::{
     bits::roundup,
     elf::{LoadingAction, ProgramMetadata},
     machine::SupportMachine,
-    memory::{get_page_indices, Memory, FLAG_DIRTY},
+    memory::{check_no_overflow, get_page_indices, Memory, FLAG_DIRTY},
     Error, Register, RISCV_GENERAL_REGISTER_NUMBER, RISCV_PAGESIZE,
 };
 use bytes::Bytes;
@@ -248,7 +248,8 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
         mut offset: u64,
     ) -> Result<(), Error> {
         let mut aligned_start = roundup(start, PAGE_SIZE);
-        let aligned_bytes = aligned_start - start;
+        // aligned_start wraps around for the last page of the address space
+        let aligned_bytes = aligned_start.wrapping_sub(start);
         if length < aligned_bytes {
             return Ok(());
         }
@@ -275,6 +276,7 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
         if length == 0 {
             return Ok(());
         }
+        check_no_overflow(start, length, machine.memory().memory_size() as u64)?;
         let page_indices = get_page_indices(start, length);
         for page in page_indices.0..=page_indices.1 {
             machine.memory_mut().set_flag(page, FLAG_DIRTY)?;
-- 
2.43.0


From 4e871972c5681d9bc293b1805a3ef20d7a2710c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:21 +0000
Subject: [PATCH 12/16] fix: data-source snapshots lose writes on top of a
 program's segments

mark_program tracked every page of every segment as coming from the data
source, although a later segment or the initial stack can have overwritten
it; the resumed machine then had the wrong contents. Only pages that still
hold the data are tracked now.
---
 src/snapshot2.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/snapshot2.rs b/src/snapshot2.rs
index 4a2e4b2..f92ba72 100644
--- a/src/snapshot2.rs
+++ b/src/snapshot2.rs
@@ -234,7 +234,21 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
             action.source.end - action.source.start,
             action.size - action.offset_from_addr,
         );
-        self.track_pages(machine, start, length, id, offset + action.source.start)
+        let offset = offset + action.source.start;
+        let (data, _) = self.load_data(id, offset, length)?;
+        // Another segment, or the initial stack, might have been written on top of
+        // this segment, only pages still holding the data from source can be tracked.
+        let aligned_start = roundup(start, PAGE_SIZE);
+        let skipped = min(aligned_start - start, data.len() as u64);
+        let pages = data[skipped as usize..].chunks_exact(PAGE_SIZE as usize);
+        for (i, page) in pages.enumerate() {
+            let i = i as u64 * PAGE_SIZE;
+            let address = aligned_start + i;
+            if machine.memory_mut().load_bytes(address, PAGE_SIZE)? == page {
+                self.track_pages(machine, address, PAGE_SIZE, id, offset + skipped + i)?;
+            }
+        }
+        Ok(())
     }
 
     /// The followings are only made public for advanced usages, but make sure to exercise more
-- 
2.43.0


From f3782d9c0a37823e4ce9b48bbec4dffd32bb3d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:29 +0000
Subject: [PATCH 13/16] fix: free dynamic traces with the layout they were
 allocated with

DynamicTraceBuilder allocated a trace together with its threads, but kept it
in a Box<DynamicTrace>, which deallocates only the fixed 24 bytes. Size-aware
allocators corrupt their heap on that, the allocation was also not aligned
for the u64 fields written to it.
---
 src/machine/asm/traces.rs | 42 +++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/machine/asm/traces.rs b/src/machine/asm/traces.rs
index 403ead5..0b02e6f 100644
--- a/src/machine/asm/traces.rs
+++ b/src/machine/asm/traces.rs
@@ -17,7 +17,7 @@ use crate::{
     },
     memory::Memory,
 };
-use std::alloc::{alloc, alloc_zeroed, Layout};
+use std::alloc::{alloc_zeroed, Layout};
 use std::collections::HashMap;
 
 pub trait TraceDecoder: InstDecoder {
@@ -207,13 +207,13 @@ impl<D: InstDecoder> InstDecoder for MemoizedFixedTraceDecoder<D> {
 /// The individual fields in this data structure, albeit similar to FixedTrace,
 /// are marked as privates so one cannot directly instantiate a struct of
 /// DynamicTrace. Instead, all constructions of DynamicTrace are done via
-/// DynamicTraceBuilder, which builds `Box<DynamicTrace>`. This is due to the
+/// DynamicTraceBuilder, which builds `OwnedDynamicTrace`. This is due to the
 /// reasons that we might have a variable number of `threads` allocated at the
 /// end of this data structure. So on the surface, it might appear that a
 /// struct of DynamicTrace is 24 bytes. In reality it is bigger than this:
 /// a struct of DynamicTrace containing 30 opcodes could be
 /// 24 + 30 * 16 + 16 = 520 bytes long(the final 16 bytes are for OP_CUSTOM_TRACE_END).
-/// Using `Box<DynamicTrace>`, together with `DynamicTraceBuilder`, helps us to
+/// Using `OwnedDynamicTrace`, together with `DynamicTraceBuilder`, helps us to
 /// abstract this details away when we are constructing the types. The underlying
 /// assembly code cannot tell the difference between DynamicTrace and FixedTrace.
 #[repr(C)]
@@ -223,6 +223,17 @@ pub struct DynamicTrace {
     cycles: u64,
 }
 
+/// Owns the memory of a DynamicTrace together with its trailing `threads`. Note
+/// Box<DynamicTrace> cannot be used here: it only knows of the fixed part, and
+/// would give the memory back with a different layout than it was allocated with.
+pub struct OwnedDynamicTrace(Box<[u64]>);
+
+impl AsRef<DynamicTrace> for OwnedDynamicTrace {
+    fn as_ref(&self) -> &DynamicTrace {
+        unsafe { &*(self.0.as_ptr() as *const DynamicTrace) }
+    }
+}
+
 pub struct DynamicTraceBuilder {
     start_address: u64,
     length: u32,
@@ -254,29 +265,22 @@ impl DynamicTraceBuilder {
         self.insts.push((inst, label));
     }
 
-    pub fn build(mut self) -> Box<DynamicTrace> {
+    pub fn build(mut self) -> OwnedDynamicTrace {
         self.insts.push((
             blank_instruction(OP_CUSTOM_TRACE_END),
             label_from_fastpath_opcode(OP_CUSTOM_TRACE_END),
         ));
-        let fixed_size = std::mem::size_of::<DynamicTrace>();
-        let total_size = fixed_size + self.insts.len() * 16;
-        let p = unsafe {
-            let layout = Layout::array::<u8>(total_size).unwrap();
-            alloc(layout)
-        };
-        let threads = unsafe { p.add(fixed_size) } as *mut u64;
-        for (i, (inst, label)) in self.insts.iter().enumerate() {
-            unsafe {
-                threads.offset(i as isize * 2).write(*label);
-                threads.offset(i as isize * 2 + 1).write(*inst);
-            }
+        let fixed_words = std::mem::size_of::<DynamicTrace>() / std::mem::size_of::<u64>();
+        let mut data = vec![0u64; fixed_words + self.insts.len() * 2].into_boxed_slice();
+        for (thread, (inst, label)) in data[fixed_words..].chunks_exact_mut(2).zip(&self.insts) {
+            thread[0] = *label;
+            thread[1] = *inst;
         }
-        let mut trace = unsafe { Box::from_raw(p as *mut DynamicTrace) };
+        let trace = unsafe { &mut *(data.as_mut_ptr() as *mut DynamicTrace) };
         trace.address = self.start_address;
         trace.length = self.length;
         trace.cycles = self.cycles;
-        trace
+        OwnedDynamicTrace(data)
     }
 }
 
@@ -285,7 +289,7 @@ impl DynamicTraceBuilder {
 pub struct MemoizedDynamicTraceDecoder<D: InstDecoder> {
     inner: SimpleFixedTraceDecoder<D>,
     fixed_cache: HashMap<u64, FixedTrace>,
-    dynamic_cache: HashMap<u64, Box<DynamicTrace>>,
+    dynamic_cache: HashMap<u64, OwnedDynamicTrace>,
 }
 
 impl<D: InstDecoder> MemoizedDynamicTraceDecoder<D> {
-- 
2.43.0


From eef39201313c2cfae2b710fe7fa15fef65bb211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:22 +0000
Subject: [PATCH 14/16] fix: refuse snapshots with missing pages or flags

Resuming from a snapshot whose page_flags or pages are shorter than its
page_indices panicked with an index out of bounds.
---
 src/snapshot.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 8845778..d6f2582 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -67,6 +67,13 @@ pub fn resume<T: CoreMachine>(machine: &mut T, snapshot: &Snapshot) -> Result<()
     if machine.version() != snapshot.version {
         return Err(Error::InvalidVersion);
     }
+    if snapshot.page_flags.len() != snapshot.page_indices.len()
+        || snapshot.pages.len() != snapshot.page_indices.len()
+    {
+        return Err(Error::Unexpected(
+            "snapshot has different numbers of page indices, flags and pages".to_string(),
+        ));
+    }
     for (i, v) in snapshot.registers.iter().enumerate() {
         machine.set_register(i, T::REG::from_u64(*v));
     }
-- 
2.43.0


From 329f081a3a91763d625ba6f764699befcb06e0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:39 +0000
Subject: [PATCH 15/16] fix: mark programs whose segment starts past its own
 size

Memories without WXorX accept a segment whose size wraps around to less than
its offset in the first page; mark_program then underflowed.
---
 src/snapshot2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/snapshot2.rs b/src/snapshot2.rs
index f92ba72..d065540 100644
--- a/src/snapshot2.rs
+++ b/src/snapshot2.rs
@@ -232,7 +232,7 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
         let start = action.addr + action.offset_from_addr;
         let length = min(
             action.source.end - action.source.start,
-            action.size - action.offset_from_addr,
+            action.size.saturating_sub(action.offset_from_addr),
         );
         let offset = offset + action.source.start;
         let (data, _) = self.load_data(id, offset, length)?;
-- 
2.43.0


From b07c10939cc29e35db5f6f4b0080f261e7579257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 16/16] fix: refuse macro-operations under version 0 in
 TraceMachine too

DefaultMachine and AsmMachine return InvalidVersion when the MOP extension is
enabled with VERSION0; TraceMachine executed such a program.
---
 src/machine/trace.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/machine/trace.rs b/src/machine/trace.rs
index 9b500f2..239b33d 100644
--- a/src/machine/trace.rs
+++ b/src/machine/trace.rs
@@ -6,9 +6,9 @@ use super::{
             execute_with_thread, extract_opcode, handle_invalid_op, instruction_length,
             is_basic_block_end_instruction, Instruction, Register, Thread, ThreadFactory,
         },
-        Error,
+        Error, ISA_MOP,
     },
-    CoreMachine, DefaultMachine, Machine, SupportMachine, VERSION2,
+    CoreMachine, DefaultMachine, Machine, SupportMachine, VERSION0, VERSION2,
 };
 use bytes::Bytes;
 
@@ -137,6 +137,9 @@ impl<Inner: SupportMachine> TraceMachine<Inner> {
     }
 
     pub fn run_with_decoder<D: InstDecoder>(&mut self, decoder: &mut D) -> Result<i8, Error> {
+        if self.isa() & ISA_MOP != 0 && self.version() == VERSION0 {
+            return Err(Error::InvalidVersion);
+        }
         self.machine.set_running(true);
         // For current trace size this is acceptable, however we might want
         // to tweak the code here if we choose to use a larger trace size or
-- 
2.43.0

