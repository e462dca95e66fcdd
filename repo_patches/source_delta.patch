From 1476fe1fc7421669451978e988e7031f51fc8675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 01/41] fix: load RWX segments into rw_memory

The comment on ro_code says that RWX segments show up in ro_code and
rw_memory, but only segments that are exactly RW were loaded.
---
 runner/src/elf.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index 8818314..4cf54ce 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -170,7 +170,10 @@ impl Program {
         ));
 
         let rw_memory = Data(Program::extract_elf_data(
-            |flags, _| flags == elf::abi::PF_R | elf::abi::PF_W,
+            |flags, _| {
+                let read_write = elf::abi::PF_R | elf::abi::PF_W;
+                flags & read_write == read_write
+            },
             input,
             &segments,
         ));
-- 
2.43.0


From cce1cba3a7c002be7d5b019bf9bcfbeaf547b320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 02/41] fix: only load PT_LOAD segments

Headers such as PT_RISCV_ATTRIBUTES or PT_NOTE do not describe memory, but
their address range was loaded (mostly as read-only zeros at address 0).
---
 runner/src/elf.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index 4cf54ce..0154564 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -203,6 +203,7 @@ impl Program {
     ) -> HashMap<u32, u8> {
         segments
             .iter()
+            .filter(|program_header| program_header.p_type == elf::abi::PT_LOAD)
             .filter(|program_header| check_program_flags(program_header.p_flags, program_header))
             .map(|program_header| -> anyhow::Result<_> {
                 let file_size: usize = program_header.p_filesz.try_into()?;
-- 
2.43.0


From a23a16773d4d993e5501112c8548c603100166da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 03/41] fix: refuse segments outside the file or the address
 space

Loading a truncated or corrupted ELF panicked instead of returning an error,
and so did a valid segment that reaches the last byte of the address space.
---
 runner/src/code.rs |  2 +-
 runner/src/elf.rs  | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/runner/src/code.rs b/runner/src/code.rs
index 8b57b3e..9fc0728 100644
--- a/runner/src/code.rs
+++ b/runner/src/code.rs
@@ -39,7 +39,7 @@ impl From<&HashMap<u32, u8>> for Code {
         fn load_u32(m: &HashMap<u32, u8>, addr: u32) -> u32 {
             const WORD_SIZE: usize = 4;
             let mut bytes = [0_u8; WORD_SIZE];
-            for (i, byte) in (addr..).zip(bytes.iter_mut()) {
+            for (i, byte) in (addr..=u32::MAX).zip(bytes.iter_mut()) {
                 *byte = m.get(&i).copied().unwrap_or_default();
             }
             u32::from_le_bytes(bytes)
diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index 0154564..4433d5c 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -152,6 +152,19 @@ impl Program {
             .segments()
             .ok_or_else(|| anyhow!("Missing segment table"))?;
         ensure!(segments.len() <= 256, "Too many program headers");
+        for segment in segments.iter().filter(|s| s.p_type == elf::abi::PT_LOAD) {
+            let file_end = segment.p_offset.checked_add(segment.p_filesz);
+            ensure!(
+                file_end.is_some_and(|end| end <= input.len() as u64),
+                "Segment outside of file"
+            );
+            let mem_size = max(segment.p_filesz, segment.p_memsz);
+            let mem_end = segment.p_vaddr.checked_add(mem_size);
+            ensure!(
+                mem_end.is_some_and(|end| end <= 1 << 32),
+                "Segment outside of address space"
+            );
+        }
         Ok((elf, entry_point, segments))
     }
 
@@ -213,7 +226,7 @@ impl Program {
 
                 let min_size = min(file_size, mem_size);
                 let max_size = max(file_size, mem_size);
-                Ok((vaddr..).zip(
+                Ok((vaddr..=u32::MAX).zip(
                     chain!(&input[offset..][..min_size], repeat(&0u8))
                         .take(max_size)
                         .copied(),
-- 
2.43.0


From 0fec4110ca1989228a9c618d15c34ae5f9026b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 04/41] fix: let ecall buffers wrap around the address space

Loads, stores and tape reads wrap around; hash inputs and messages
overflowed.
---
 runner/src/ecall.rs     | 8 ++++----
 runner/src/poseidon2.rs | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/runner/src/ecall.rs b/runner/src/ecall.rs
index afef451..23f9ab3 100644
--- a/runner/src/ecall.rs
+++ b/runner/src/ecall.rs
@@ -103,8 +103,8 @@ impl<F: RichField> State<F> {
         let msg_ptr = self.get_register_value(REG_A1);
         let msg_len = self.get_register_value(REG_A2);
         let mut msg_vec = vec![];
-        for addr in msg_ptr..(msg_ptr + msg_len) {
-            msg_vec.push(self.load_u8(addr));
+        for i in 0..msg_len {
+            msg_vec.push(self.load_u8(msg_ptr.wrapping_add(i)));
         }
         panic!(
             "VM panicked with msg: {}",
@@ -120,8 +120,8 @@ impl<F: RichField> State<F> {
         let msg_ptr = self.get_register_value(REG_A1);
         let msg_len = self.get_register_value(REG_A2);
         let mut msg_vec = vec![];
-        for addr in msg_ptr..(msg_ptr + msg_len) {
-            msg_vec.push(self.load_u8(addr));
+        for i in 0..msg_len {
+            msg_vec.push(self.load_u8(msg_ptr.wrapping_add(i)));
         }
         log::debug!(
             "VM TRACE LOG: {}",
diff --git a/runner/src/poseidon2.rs b/runner/src/poseidon2.rs
index c87cfea..23ad7ae 100644
--- a/runner/src/poseidon2.rs
+++ b/runner/src/poseidon2.rs
@@ -89,7 +89,7 @@ impl<F: RichField> State<F> {
         let input_len = self.get_register_value(REG_A2);
         let output_ptr = self.get_register_value(REG_A3);
         let input: Vec<F> = (0..input_len)
-            .map(|i| F::from_canonical_u8(self.load_u8(input_ptr + i)))
+            .map(|i| F::from_canonical_u8(self.load_u8(input_ptr.wrapping_add(i))))
             .collect();
         let (hash, sponge_data) =
             hash_n_to_m_no_pad::<F, Poseidon2Permutation<F>>(input.as_slice());
-- 
2.43.0


From 9f282e0d1242d0b75f2891ce0a007e078da59b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 05/41] Simulation hook: take the recorded system tape

---
 sdk/src/common/system.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sdk/src/common/system.rs b/sdk/src/common/system.rs
index c771a39..8c2e55e 100644
--- a/sdk/src/common/system.rs
+++ b/sdk/src/common/system.rs
@@ -150,6 +150,22 @@ fn populate_event_tape(self_prog_id: ProgramIdentifier) -> EventTapeType {
     }
 }
 
+/// Simulation hook: hands out what has been recorded so far and starts over
+/// with an empty system tape.
+#[cfg(all(mozak_sim, not(target_os = "mozakvm")))]
+pub fn sim_take_system_tape() -> SystemTape {
+    unsafe {
+        let mut taken = SystemTape::default();
+        taken.private_input_tape.writer =
+            core::mem::take(&mut SYSTEM_TAPE.private_input_tape.writer);
+        taken.public_input_tape.writer = core::mem::take(&mut SYSTEM_TAPE.public_input_tape.writer);
+        taken.call_tape.writer = core::mem::take(&mut SYSTEM_TAPE.call_tape.writer);
+        taken.event_tape.writer = core::mem::take(&mut SYSTEM_TAPE.event_tape.writer);
+        SYSTEM_TAPE.call_tape.identity_stack.take();
+        taken
+    }
+}
+
 /// Emit an event from `mozak_vm` to provide receipts of
 /// `reads` and state updates including `create` and `delete`.
 /// Panics on event-tape non-abidance.
-- 
2.43.0


From c2161883168f46156aff54ae4e601becc5b383b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 06/41] fix: merkleize addresses that differ in the top bit

---
 sdk/src/common/merkle.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sdk/src/common/merkle.rs b/sdk/src/common/merkle.rs
index 7c80e3e..8ca34af 100644
--- a/sdk/src/common/merkle.rs
+++ b/sdk/src/common/merkle.rs
@@ -17,16 +17,19 @@ pub fn merkleize(mut hashes_with_addr: Vec<(u64, Poseidon2Hash)>) -> Poseidon2Ha
     hashes_with_addr.first().map(|x| x.1).unwrap_or_default()
 }
 
+// Drops the lowest bits of an address, up to and including all of them
+fn shift(addr: u64, bits: u32) -> u64 { addr.checked_shr(bits).unwrap_or_default() }
+
 // Merkles all the closest relatives once, returns the next merge increment
 fn merkleize_step(hashes: &mut Vec<(u64, Poseidon2Hash)>, height_incr: u32) -> u32 {
     let mut next_height_incr = u32::MAX;
 
     hashes.entries(.., |e| {
         let Some(mut left) = e.remove() else { return };
-        left.0 >>= height_incr;
+        left.0 = shift(left.0, height_incr);
 
         while let Some(mut right) = e.remove() {
-            right.0 >>= height_incr;
+            right.0 = shift(right.0, height_incr);
 
             // Combine the two items and insert the result
             if left.0 == right.0 {
@@ -38,7 +41,7 @@ fn merkleize_step(hashes: &mut Vec<(u64, Poseidon2Hash)>, height_incr: u32) -> u
                 // Make sure to get a new left item
                 let Some(next) = e.remove() else { return };
                 right = next;
-                right.0 >>= height_incr;
+                right.0 = shift(right.0, height_incr);
             } else {
                 let Ok(_) = e.try_insert_outside(left) else {
                     unreachable!()
-- 
2.43.0


From 49bb251b6bc6ef0fb8d772c4323ae634d6a7c583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 07/41] fix: do not run past the unimp that ends an abort

---
 runner/src/decode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runner/src/decode.rs b/runner/src/decode.rs
index b0c64c4..38d5069 100644
--- a/runner/src/decode.rs
+++ b/runner/src/decode.rs
@@ -237,6 +237,9 @@ pub fn decode_instruction(pc: u32, word: u32) -> Result<Instruction, DecodingErr
             // For RISC-V this would be EBREAK,
             // but so far we implemented it as a no-op.
             (0x0, 0x1) => nop,
+            // This is `unimp`, what compilers emit where a program must not
+            // continue, eg at the end of an abort.
+            _ if word == 0xC000_1073 => return default(),
             // For RISC-V this would be (Op::CSRRW, itype),
             // but so far we implemented it as a no-op.
             (0x1, _) => nop,
-- 
2.43.0


From 09bebd04dc6feecbade17ea51716d558672537d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:12 +0000
Subject: [PATCH 08/41] fix: skip calls between other programs when replaying a
 send

---
 sdk/src/mozakvm/calltape.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sdk/src/mozakvm/calltape.rs b/sdk/src/mozakvm/calltape.rs
index e1d175a..09774cc 100644
--- a/sdk/src/mozakvm/calltape.rs
+++ b/sdk/src/mozakvm/calltape.rs
@@ -18,6 +18,14 @@ impl CallTape {
     fn is_casted_actor(&self, actor: &ProgramIdentifier) -> bool {
         &ProgramIdentifier::default() == actor || self.cast_list.contains(actor)
     }
+
+    /// Checks if we are the actor seen on the tape
+    fn is_self(&self, actor: &<ProgramIdentifier as Archive>::Archived) -> bool {
+        let actor: ProgramIdentifier = actor
+            .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
+            .unwrap();
+        actor == self.self_prog_id
+    }
 }
 
 impl SelfIdentify for CallTape {
@@ -38,6 +46,15 @@ impl Call for CallTape {
         R: CallReturn,
         <A as rkyv::Archive>::Archived: Deserialize<A, Strategy<(), Panic>>,
         <R as rkyv::Archive>::Archived: Deserialize<R, Strategy<(), Panic>>, {
+        // Calls between other programs are recorded in-between, eg those made
+        // by a callee to serve our previous call. These aren't for us to check.
+        while self.reader.unwrap()[self.index..]
+            .first()
+            .is_some_and(|msg| !self.is_self(&msg.caller) && !self.is_self(&msg.callee))
+        {
+            self.index += 1;
+        }
+
         // Ensure we aren't validating past the length of the event tape
         assert!(self.index < self.reader.as_ref().unwrap().len());
 
-- 
2.43.0


From 676cdc3c9340d80ea926fe7d62f3491d10d8197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 09/41] fix: serialize messages and tapes that outgrow rkyv's
 scratch buffer

---
 cli/src/runner.rs        | 4 ++--
 sdk/src/common/traits.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/src/runner.rs b/cli/src/runner.rs
index 25df3cb..e489500 100644
--- a/cli/src/runner.rs
+++ b/cli/src/runner.rs
@@ -17,7 +17,7 @@ use mozak_sdk::common::types::{
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::RichField;
 use plonky2::plonk::config::{AlgebraicHasher, GenericConfig};
-use rkyv::rancor::{Panic, Strategy};
+use rkyv::rancor::{Failure, Strategy};
 use rkyv::ser::AllocSerializer;
 use starky::config::StarkConfig;
 
@@ -114,7 +114,7 @@ pub fn raw_tapes_from_system_tape<F: std::io::Read>(
     {
         fn serialise<T>(tape: &T, dgb_string: &str) -> Vec<u8>
         where
-            T: rkyv::Archive + rkyv::Serialize<Strategy<AllocSerializer<256>, Panic>>, {
+            T: rkyv::Archive + rkyv::Serialize<Strategy<AllocSerializer<256>, Failure>>, {
             let tape_bytes = rkyv::to_bytes::<_, 256, _>(tape).unwrap().into();
             length_prefixed_bytes(tape_bytes, dgb_string)
         }
diff --git a/sdk/src/common/traits.rs b/sdk/src/common/traits.rs
index 3bc0c67..0448e03 100644
--- a/sdk/src/common/traits.rs
+++ b/sdk/src/common/traits.rs
@@ -1,4 +1,4 @@
-use rkyv::rancor::{Panic, Strategy};
+use rkyv::rancor::{Failure, Panic, Strategy};
 use rkyv::ser::allocator::{AllocationTracker, GlobalAllocator};
 use rkyv::ser::{AllocSerializer, Composite};
 use rkyv::util::AlignedVec;
@@ -8,7 +8,7 @@ use crate::common::types::{Event, ProgramIdentifier};
 
 pub trait RkyvSerializable = rkyv::Serialize<
         Strategy<Composite<AlignedVec, AllocationTracker<GlobalAllocator>, Panic>, Panic>,
-    > + Serialize<Strategy<AllocSerializer<256>, Panic>>;
+    > + Serialize<Strategy<AllocSerializer<256>, Failure>>;
 pub trait CallArgument = Sized + RkyvSerializable;
 pub trait CallReturn = ?Sized + Clone + Default + RkyvSerializable + Archive;
 
-- 
2.43.0


From ae4ac3aacb36b6f27c7036bc144741a917a60388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:51 +0000
Subject: [PATCH 10/41] fix: refuse recorded calls the program never made

---
 sdk/src/mozakvm/calltape.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/sdk/src/mozakvm/calltape.rs b/sdk/src/mozakvm/calltape.rs
index 09774cc..b62c419 100644
--- a/sdk/src/mozakvm/calltape.rs
+++ b/sdk/src/mozakvm/calltape.rs
@@ -110,6 +110,16 @@ impl Call for CallTape {
             // Mark this as "processed" regardless of what happens next.
             self.index += 1;
 
+            // First, ensure that we are not the caller: a call of ours that is
+            // still unread is one we never made. Also, no-one can call
+            // themselves. (Even if they can w.r.t. self-calling extension,
+            // the `caller` field would remain distinct)
+            let caller: ProgramIdentifier = zcd_cpcmsg
+                .caller
+                .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
+                .unwrap();
+            assert!(caller != self.self_prog_id);
+
             // Well, once we are sure that we were not the caller, we can
             // either be a callee in which case we process and send information
             // back or we continue searching.
@@ -119,15 +129,6 @@ impl Call for CallTape {
                 .unwrap();
 
             if self.self_prog_id == callee {
-                // First, ensure that we are not the caller, no-one can call
-                // themselves. (Even if they can w.r.t. self-calling extension,
-                // the `caller` field would remain distinct)
-                let caller: ProgramIdentifier = zcd_cpcmsg
-                    .caller
-                    .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
-                    .unwrap();
-                assert!(caller != self.self_prog_id);
-
                 // Before accepting, make sure that caller was a part of castlist
                 assert!(self.is_casted_actor(&caller));
 
-- 
2.43.0


From e66a735622db14ed8011a1f7cfab3e3054630b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 11/41] fix: input tapes read and seek like files

---
 sdk/src/mozakvm/inputtape.rs | 91 +++++++++++++-----------------------
 1 file changed, 33 insertions(+), 58 deletions(-)

diff --git a/sdk/src/mozakvm/inputtape.rs b/sdk/src/mozakvm/inputtape.rs
index 17b979f..122ce64 100644
--- a/sdk/src/mozakvm/inputtape.rs
+++ b/sdk/src/mozakvm/inputtape.rs
@@ -25,48 +25,37 @@ impl std::io::Read for RandomAccessEcallTape {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         // While we want the whole buffer to be filled, it may
         // not be possible due to us reaching the end of tape
-        // at times. Hence `required_bytes` encodes the desired
-        // request, while `serviced_bytes` encode the actual
+        // at times. Hence `serviced_bytes` encode the actual
         // serviced len.
-        let required_bytes = buf.len();
-        let mut serviced_bytes = required_bytes;
-        if (self.read_offset + required_bytes) > self.size_hint {
-            serviced_bytes = self.size_hint - self.read_offset;
+        let serviced_bytes = buf
+            .len()
+            .min(self.size_hint.saturating_sub(self.read_offset));
+        if serviced_bytes == 0 {
+            return Ok(0);
         }
+        let end_offset = self.read_offset + serviced_bytes;
 
         // In cases where `Seek` was used, we may be reading from
         // `internal_buf` as we may have previously "consumed" those
-        // bytes already from the `ECALL` mechanism.
-        let mut populatable_from_internal_buf = self.internal_buf.len() - self.read_offset;
-        if serviced_bytes < populatable_from_internal_buf {
-            populatable_from_internal_buf = serviced_bytes;
-        }
-
-        // These are the actual bytes we get from doing an `ECALL`
-        let remaining_from_ecall = serviced_bytes - populatable_from_internal_buf;
-
-        // Populate partial buf from `internal_buf`
-        buf[..populatable_from_internal_buf].clone_from_slice(
-            &self.internal_buf
-                [self.read_offset..(self.read_offset + populatable_from_internal_buf)],
-        );
-
+        // bytes already from the `ECALL` mechanism. We may also have
+        // skipped some bytes, these have to be fetched as well.
         let old_len = self.internal_buf.len();
-        self.internal_buf.resize(old_len + remaining_from_ecall, 0);
-
-        // TODO: maybe move out this function into `ecall.rs` somehow?
-        unsafe {
-            core::arch::asm!(
-                "ecall",
-                in ("a0") self.ecall_id,
-                in ("a1") self.internal_buf.as_mut_ptr().add(old_len),
-                in ("a2") remaining_from_ecall,
-            );
-        };
+        if end_offset > old_len {
+            self.internal_buf.resize(end_offset, 0);
+
+            // TODO: maybe move out this function into `ecall.rs` somehow?
+            unsafe {
+                core::arch::asm!(
+                    "ecall",
+                    in ("a0") self.ecall_id,
+                    in ("a1") self.internal_buf.as_mut_ptr().add(old_len),
+                    in ("a2") end_offset - old_len,
+                );
+            };
+        }
 
-        // Populate partial buf from newly fetched bytes via `ECALL`
-        buf[populatable_from_internal_buf..].clone_from_slice(&self.internal_buf[old_len..]);
-        self.read_offset += serviced_bytes;
+        buf[..serviced_bytes].copy_from_slice(&self.internal_buf[self.read_offset..end_offset]);
+        self.read_offset = end_offset;
 
         Ok(serviced_bytes)
     }
@@ -75,29 +64,15 @@ impl std::io::Read for RandomAccessEcallTape {
 #[cfg(feature = "stdread")]
 impl std::io::Seek for RandomAccessEcallTape {
     fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
-        match pos {
-            std::io::SeekFrom::Start(x) =>
-                if x >= self.size_hint.try_into().unwrap() {
-                    self.read_offset = self.size_hint - 1;
-                } else {
-                    self.read_offset = usize::try_from(x).unwrap();
-                },
-            std::io::SeekFrom::End(x) =>
-                if x >= self.size_hint.try_into().unwrap() {
-                    self.read_offset = 0;
-                } else {
-                    self.read_offset = self.size_hint - usize::try_from(x).unwrap() - 1;
-                },
-            std::io::SeekFrom::Current(x) => {
-                if x + i64::try_from(self.read_offset).unwrap()
-                    >= self.size_hint.try_into().unwrap()
-                {
-                    self.read_offset = self.size_hint - 1;
-                } else {
-                    self.read_offset += usize::try_from(x).unwrap();
-                }
-            }
-        }
+        let new_offset = match pos {
+            std::io::SeekFrom::Start(x) => Some(x),
+            std::io::SeekFrom::End(x) => (self.size_hint as u64).checked_add_signed(x),
+            std::io::SeekFrom::Current(x) => (self.read_offset as u64).checked_add_signed(x),
+        };
+        // As with files, it's fine to seek beyond the end, but not before the start
+        self.read_offset = new_offset
+            .and_then(|x| usize::try_from(x).ok())
+            .ok_or(std::io::ErrorKind::InvalidInput)?;
         Ok(self.read_offset as u64)
     }
 }
-- 
2.43.0


From 803d3b8c17fe0753fb3a7bfb6591e7bd6b7c990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 12/41] fix: order state addresses as the numbers they stand
 for

---
 sdk/src/common/types/state_address.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sdk/src/common/types/state_address.rs b/sdk/src/common/types/state_address.rs
index 83fe02a..1f3f570 100644
--- a/sdk/src/common/types/state_address.rs
+++ b/sdk/src/common/types/state_address.rs
@@ -10,8 +10,6 @@ pub const STATE_TREE_DEPTH: usize = 8;
     Hash,
     PartialEq,
     Eq,
-    PartialOrd,
-    Ord,
     rkyv::Archive,
     rkyv::Serialize,
     rkyv::Deserialize,
@@ -57,6 +55,18 @@ impl StateAddress {
     }
 }
 
+/// Addresses are ordered as the (little-endian) numbers they stand for: that is
+/// the order in which event trees are built.
+impl Ord for StateAddress {
+    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
+        u64::from_le_bytes(self.0).cmp(&u64::from_le_bytes(other.0))
+    }
+}
+
+impl PartialOrd for StateAddress {
+    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(other)) }
+}
+
 impl From<[u8; STATE_TREE_DEPTH]> for StateAddress {
     fn from(value: [u8; STATE_TREE_DEPTH]) -> StateAddress { StateAddress(value) }
 }
-- 
2.43.0


From 31b103c0fd1ba6ec84a9fb3377b127b485bafd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 13/41] fix: place addresses that differ in the top bit in the
 event tree

---
 node/src/block_proposer.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/node/src/block_proposer.rs b/node/src/block_proposer.rs
index 74f3bf8..711d3e6 100644
--- a/node/src/block_proposer.rs
+++ b/node/src/block_proposer.rs
@@ -182,7 +182,10 @@ impl BranchAddress {
     /// If we've reached the bottom, return an `Address` instead
     #[must_use]
     pub fn parent(mut self, n: usize) -> Self {
-        self.addr.0 >>= n;
+        self.addr.0 = u32::try_from(n)
+            .ok()
+            .and_then(|n| self.addr.0.checked_shr(n))
+            .unwrap_or(0);
         self.height += n;
         self
     }
@@ -220,7 +223,7 @@ impl BranchAddress {
 
         // Check if child actually descends from parent
         let delta = parent.height - child.height;
-        let child_addr = child.addr.0 >> delta;
+        let child_addr = child.parent(delta).addr.0;
         match (child_addr.cmp(&parent.addr.0), lhs_is_parent) {
             (Ordering::Less, false) | (Ordering::Greater, true) =>
                 return BranchAddressComparison::RightCousin,
@@ -229,7 +232,8 @@ impl BranchAddress {
             (Ordering::Equal, _) => {}
         }
 
-        let addr = Address(child.addr.0 & ((1 << delta) - 1));
+        let mask = u64::MAX >> (u64::BITS as usize).saturating_sub(delta);
+        let addr = Address(child.addr.0 & mask);
         match (addr.next(delta - 1).1, lhs_is_parent) {
             (Dir::Left, true) => BranchAddressComparison::LeftChild,
             (Dir::Right, true) => BranchAddressComparison::RightChild,
-- 
2.43.0


From 3f040d4544c9d9b728ab57391ee5a1584d614bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 14/41] fix: merge one program's single event with another's
 several on an address

---
 node/src/block_proposer/transactions.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index 377001d..986e2eb 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -303,18 +303,19 @@ impl AuxTransactionData {
             | (
                 EventNode::Leaf { .. },
                 EventNode::Branch { .. },
-                Equal | LeftSibling | RightSibling | LeftChild | RightChild,
+                LeftChild | RightChild,
             )
             // LHS-Branch below RHS-Leaf
             | (
                 EventNode::Branch { .. },
                 EventNode::Leaf { .. },
-                Equal | LeftSibling | RightSibling | LeftParent | RightParent,
+                LeftParent | RightParent,
             ) => unreachable!(),
 
             // Simple merges
-            // LHS-Leaf equal to RHS-Leaf
-            (left @ EventNode::Leaf { .. }, right @ EventNode::Leaf { .. }, Equal)
+            // Either side is a single event on the same address as the other
+            (left @ EventNode::Leaf { .. }, right, Equal)
+            | (left, right @ EventNode::Leaf { .. }, Equal)
             // LHS to the left of RHS
             | (left, right, RightSibling | RightCousin) => {
                 let (proof, event) = self.simple_merge(left, right);
-- 
2.43.0


From 059d5a01516ddcab52819e029fe41bf216788f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 15/41] fix: find a program's place in cast lists of every
 length

---
 node/src/block_proposer/transactions.rs | 64 +++++++++++--------------
 1 file changed, 28 insertions(+), 36 deletions(-)

diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index 986e2eb..bb859b4 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -17,10 +17,7 @@ use plonky2::plonk::circuit_data::{CircuitConfig, CommonCircuitData, VerifierOnl
 use plonky2::plonk::config::Hasher;
 use plonky2::plonk::proof::ProofWithPublicInputs;
 
-use super::{
-    convert_event, reduce_tree, reduce_tree_by_address, AddressPath, BranchAddress, Dir,
-    OngoingTxKey,
-};
+use super::{convert_event, reduce_tree, reduce_tree_by_address, BranchAddress, OngoingTxKey};
 use crate::block_proposer::BranchAddressComparison;
 use crate::{C, D, F};
 
@@ -118,11 +115,12 @@ impl AuxTransactionData {
     fn insert_program(
         &self,
         node: &mut OngoingTxNode,
-        call_address: Option<AddressPath<usize>>,
+        cast_index: usize,
+        cast_len: usize,
         events: Option<EventNode>,
         proof: impl FnOnce() -> Result<ProgramLeafProof>,
     ) -> Result<()> {
-        if let Some(n) = self.insert_program_helper(node, call_address, events, proof)? {
+        if let Some(n) = self.insert_program_helper(node, cast_index, cast_len, events, proof)? {
             *node = n;
         }
         Ok(())
@@ -131,21 +129,26 @@ impl AuxTransactionData {
     fn insert_program_helper(
         &self,
         node: &mut OngoingTxNode,
-        call_address: Option<AddressPath<usize>>,
+        cast_index: usize,
+        cast_len: usize,
         events: Option<EventNode>,
         proof: impl FnOnce() -> Result<ProgramLeafProof>,
     ) -> Result<Option<OngoingTxNode>> {
         let program_branch = &self.program_branch_circuit;
-        let new_node = match (node, call_address) {
-            (
-                OngoingTxNode::Unprocessed(UnprocessedTxNode::Branch { left, right }),
-                Some(call_address),
-            ) => {
-                let (call_address, next_node) = match call_address.next() {
-                    (call_address, Dir::Left) => (call_address, left.as_mut()),
-                    (call_address, Dir::Right) => (call_address, right.as_mut()),
+        let new_node = match node {
+            OngoingTxNode::Unprocessed(UnprocessedTxNode::Branch { left, right }) => {
+                // `reduce_tree` gives the left side the largest power of two that leaves
+                // something for the right side
+                let Some(left_bits) = cast_len.saturating_sub(1).checked_ilog2() else {
+                    bail!("cast list doesn't match the transaction")
                 };
-                self.insert_program(next_node, call_address, events, proof)?;
+                let left_len = 1 << left_bits;
+                if cast_index < left_len {
+                    self.insert_program(left, cast_index, left_len, events, proof)?;
+                } else {
+                    let (index, len) = (cast_index - left_len, cast_len - left_len);
+                    self.insert_program(right, index, len, events, proof)?;
+                }
 
                 match (left.as_mut(), right.as_mut()) {
                     (OngoingTxNode::Processed(l), OngoingTxNode::Processed(r)) => {
@@ -161,28 +164,17 @@ impl AuxTransactionData {
                 }
             }
 
-            (OngoingTxNode::Unprocessed(UnprocessedTxNode::Leaf(_pid)), None) =>
-                Some(OngoingTxNode::Processed(ProcessedTxNode::Leaf {
-                    events,
-                    proof: proof()?,
-                })),
-            (OngoingTxNode::Unprocessed(UnprocessedTxNode::Leaf(_)), Some(call_address))
-                if call_address.is_zero() =>
+            OngoingTxNode::Unprocessed(UnprocessedTxNode::Leaf(_pid)) => {
+                if cast_len != 1 {
+                    bail!("cast list doesn't match the transaction")
+                }
                 Some(OngoingTxNode::Processed(ProcessedTxNode::Leaf {
                     events,
                     proof: proof()?,
-                })),
-
-            (OngoingTxNode::Processed(_), _) => bail!("duplicate proof detected"),
-
-            (OngoingTxNode::Unprocessed(UnprocessedTxNode::Branch { .. }), None) => {
-                println!("mango");
-                unreachable!()
-            }
-            (OngoingTxNode::Unprocessed(UnprocessedTxNode::Leaf(_)), Some(_)) => {
-                println!("apple");
-                unreachable!()
+                }))
             }
+
+            OngoingTxNode::Processed(_) => bail!("duplicate proof detected"),
         };
 
         Ok(new_node)
@@ -692,10 +684,10 @@ impl<'a> TransactionAccumulator<'a> {
                 v.insert(OngoingTx { nodes })
             }
             Entry::Occupied(mut o) => {
-                let bits = usize::BITS - cast_list.len().leading_zeros();
                 self.aux.insert_program(
                     &mut o.get_mut().nodes,
-                    AddressPath::path(cast_index, bits as usize),
+                    cast_index,
+                    cast_list.len(),
                     event_tree,
                     proof,
                 )?;
-- 
2.43.0


From a88f43c731324cf9002b7db297ddef6780a5b224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 16/41] fix: refuse a program proof made for another program or
 transaction

---
 node/src/block_proposer/transactions.rs | 33 ++++++++++++++++---------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index bb859b4..8d56b93 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -594,6 +594,16 @@ impl<'a> TransactionAccumulator<'a> {
         );
         let event_tree = event_tree.map(|x| x.1);
 
+        let cast_root = reduce_tree(
+            cast_list.iter().map(|p| p.0),
+            |x| x,
+            |x| x,
+            Poseidon2Hash::two_to_one,
+        )
+        .unwrap()
+        .to_u64s()
+        .map(F::from_canonical_u64);
+
         // Delay the proof calculation
         let proof = || {
             let event_branch = &self.aux.event_branch_circuit;
@@ -621,23 +631,22 @@ impl<'a> TransactionAccumulator<'a> {
                 }
             };
 
-            self.aux.program_leaf_circuit.prove(
+            let proof = self.aux.program_leaf_circuit.prove(
                 &self.aux.program_branch_circuit,
                 program_verifier,
                 program_proof,
                 event_root_proof,
-            )
-        };
+            )?;
 
-        let cast_root = reduce_tree(
-            cast_list.iter().map(|p| p.0),
-            |x| x,
-            |x| x,
-            Poseidon2Hash::two_to_one,
-        )
-        .unwrap()
-        .to_u64s()
-        .map(F::from_canonical_u64);
+            // Refuse proofs made for another program or another transaction
+            if proof.program_id().elements != id.0.to_u64s().map(F::from_noncanonical_u64) {
+                bail!("proof is not of program {id:?}")
+            }
+            if proof.call_list() != call_tape || proof.cast_root() != cast_root {
+                bail!("proof is of another transaction")
+            }
+            Ok(proof)
+        };
 
         let key = OngoingTxKey {
             cast_root,
-- 
2.43.0


From 25c84dd83a3e2d831ab2d8677d79bd51063c697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:52 +0000
Subject: [PATCH 17/41] fix: hold a matched object to the owner its writes name
 and the data its ensures name

---
 recproofs/src/circuits/match_delta.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recproofs/src/circuits/match_delta.rs b/recproofs/src/circuits/match_delta.rs
index 4b29dee..cc94701 100644
--- a/recproofs/src/circuits/match_delta.rs
+++ b/recproofs/src/circuits/match_delta.rs
@@ -180,6 +180,8 @@ where
         builder.connect(compare_delta_targets.object_flags, acc_flags);
         let acc_flags = SplitFlags::split(&mut builder, acc_flags);
         let has_owner = builder.is_nonzero(acc_flags.owner);
+        let has_old_owner = builder.or(acc_flags.write, has_owner);
+        let has_new_data = builder.is_nonzero(acc_flags.new_data);
         // old owner
         {
             let acc_old_owner = accumulate_event_circuit
@@ -190,7 +192,7 @@ where
             maybe_connect(
                 &mut builder,
                 compare_delta_targets.old_owner,
-                has_owner,
+                has_old_owner,
                 acc_old_owner,
             );
         }
@@ -232,7 +234,7 @@ where
             maybe_connect(
                 &mut builder,
                 compare_delta_targets.new_data,
-                acc_flags.write,
+                has_new_data,
                 acc_new_data,
             );
         }
-- 
2.43.0


From be477a17d488263cf73c3fd08aa55dd1034a59bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 18/41] fix: hold a matched object to the owner its credit
 changes name

---
 recproofs/src/circuits/accumulate_delta/core.rs |  4 ++++
 recproofs/src/circuits/match_delta.rs           | 12 +++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/recproofs/src/circuits/accumulate_delta/core.rs b/recproofs/src/circuits/accumulate_delta/core.rs
index d1d4a3d..a3b1b75 100644
--- a/recproofs/src/circuits/accumulate_delta/core.rs
+++ b/recproofs/src/circuits/accumulate_delta/core.rs
@@ -461,8 +461,12 @@ impl SubCircuitInputs {
         let right_has_new_data = builder.is_nonzero(right_flags.new_data);
         let left_has_owner = builder.is_nonzero(left_flags.owner);
         let right_has_owner = builder.is_nonzero(right_flags.owner);
+        let left_has_credits = builder.is_nonzero(left.credit_delta);
+        let right_has_credits = builder.is_nonzero(right.credit_delta);
         let left_has_old_owner = builder.or(left_flags.write, left_has_owner);
+        let left_has_old_owner = builder.or(left_has_old_owner, left_has_credits);
         let right_has_old_owner = builder.or(right_flags.write, right_has_owner);
+        let right_has_old_owner = builder.or(right_has_old_owner, right_has_credits);
 
         // Enforce restrictions on all the object fields
         maybe_connect(builder, self.old_owner, left_has_old_owner, left.old_owner);
diff --git a/recproofs/src/circuits/match_delta.rs b/recproofs/src/circuits/match_delta.rs
index cc94701..9154569 100644
--- a/recproofs/src/circuits/match_delta.rs
+++ b/recproofs/src/circuits/match_delta.rs
@@ -180,7 +180,14 @@ where
         builder.connect(compare_delta_targets.object_flags, acc_flags);
         let acc_flags = SplitFlags::split(&mut builder, acc_flags);
         let has_owner = builder.is_nonzero(acc_flags.owner);
+        let acc_credit_delta = accumulate_event_circuit
+            .partial_state
+            .indices
+            .credit_delta
+            .get_target(&targets.accumulate_event.public_inputs);
+        let has_credits = builder.is_nonzero(acc_credit_delta);
         let has_old_owner = builder.or(acc_flags.write, has_owner);
+        let has_old_owner = builder.or(has_old_owner, has_credits);
         let has_new_data = builder.is_nonzero(acc_flags.new_data);
         // old owner
         {
@@ -240,11 +247,6 @@ where
         }
         // credit delta
         {
-            let acc_credit_delta = accumulate_event_circuit
-                .partial_state
-                .indices
-                .credit_delta
-                .get_target(&targets.accumulate_event.public_inputs);
             let calc_credit_delta = builder.sub(
                 compare_delta_targets.new_credits,
                 compare_delta_targets.old_credits,
-- 
2.43.0


From d653c0e1ab76e4846b7720487db53497006aa731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 19/41] fix: match an object's old state at its old update
 height

---
 node/src/block_proposer/matches.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/src/block_proposer/matches.rs b/node/src/block_proposer/matches.rs
index 9dca78b..ee3eb95 100644
--- a/node/src/block_proposer/matches.rs
+++ b/node/src/block_proposer/matches.rs
@@ -182,7 +182,7 @@ impl<'a> Matches<'a> {
                 let (old, new) = objs(addr);
                 let val = LeafWitnessValue {
                     block_height,
-                    last_updated: new.last_updated.to_canonical_u64(),
+                    last_updated: old.last_updated.to_canonical_u64(),
                     old_owner: old.constraint_owner,
                     new_owner: new.constraint_owner,
                     old_data: old.data,
-- 
2.43.0


From 8c5941e0215676ac61ebd812c3c409ae8625c305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 20/41] fix: drop deleted and read-empty leaves from the state
 proof of later blocks

---
 node/src/block_proposer/state.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/node/src/block_proposer/state.rs b/node/src/block_proposer/state.rs
index 5406091..9018130 100644
--- a/node/src/block_proposer/state.rs
+++ b/node/src/block_proposer/state.rs
@@ -465,7 +465,11 @@ impl AuxStateData {
     }
 
     fn finalize(&self, root: &mut SparseMerkleBranch) {
-        self.finalize_branch(root, BranchAddress::root(root.height));
+        let outcome = self.finalize_branch(root, BranchAddress::root(root.height));
+        // The root can't be pruned, it can only become empty
+        if let FinalizeOutcome::Prune = outcome {
+            self.recalc_branch_helper(root);
+        }
     }
 
     fn finalize_branch(
@@ -473,6 +477,8 @@ impl AuxStateData {
         branch: &mut SparseMerkleBranch,
         addr: BranchAddress,
     ) -> FinalizeOutcome {
+        let children = usize::from(branch.left.is_some()) + usize::from(branch.right.is_some());
+
         let left_outcome = if let Some(mut left) = branch.left.take() {
             let outcome = match (&mut *left, addr.child(Dir::Left)) {
                 (SparseMerkleNode::Branch(branch), Ok(addr)) => self.finalize_branch(branch, addr),
@@ -501,7 +507,12 @@ impl AuxStateData {
             FinalizeOutcome::Prune
         };
 
-        let outcome = left_outcome + right_outcome;
+        let remaining = usize::from(branch.left.is_some()) + usize::from(branch.right.is_some());
+        let outcome = match left_outcome + right_outcome {
+            // Losing a child changes the branch even if the other is unchanged
+            FinalizeOutcome::NoOp if remaining < children => FinalizeOutcome::Recalc,
+            outcome => outcome,
+        };
 
         if let FinalizeOutcome::Recalc = outcome {
             self.recalc_branch_helper(branch);
-- 
2.43.0


From f336b185d4bb473be105f73f7b7c23df7be15894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 21/41] Simulation hook: read the block proposer's proofs and
 circuits

---
 node/src/block_proposer/block.rs        | 13 +++++++++++++
 node/src/block_proposer/matches.rs      |  7 +++++++
 node/src/block_proposer/state.rs        | 15 +++++++++++++++
 node/src/block_proposer/transactions.rs |  7 +++++++
 4 files changed, 42 insertions(+)

diff --git a/node/src/block_proposer/block.rs b/node/src/block_proposer/block.rs
index 01b24ea..8236962 100644
--- a/node/src/block_proposer/block.rs
+++ b/node/src/block_proposer/block.rs
@@ -44,6 +44,19 @@ impl AuxBlockData {
     }
 }
 
+/// Simulation hooks: read access to the chain's proof and the circuit behind it
+#[cfg(mozak_sim)]
+impl AuxBlockData {
+    #[must_use]
+    pub fn circuit(&self) -> &BlockCircuit { &self.circuit }
+}
+
+#[cfg(mozak_sim)]
+impl<'a> Blocks<'a> {
+    #[must_use]
+    pub fn proof(&self) -> &Either<BaseProof, BlockProof> { &self.proof }
+}
+
 pub struct Blocks<'a> {
     aux: &'a AuxBlockData,
     proof: Either<BaseProof, BlockProof>,
diff --git a/node/src/block_proposer/matches.rs b/node/src/block_proposer/matches.rs
index ee3eb95..da8a091 100644
--- a/node/src/block_proposer/matches.rs
+++ b/node/src/block_proposer/matches.rs
@@ -55,6 +55,13 @@ impl AuxMatchesData {
     }
 }
 
+/// Simulation hook: read access to the circuit behind the match proofs
+#[cfg(mozak_sim)]
+impl AuxMatchesData {
+    #[must_use]
+    pub fn branch_circuit(&self) -> &MatchBranchCircuit { &self.match_branch_circuit }
+}
+
 pub struct Matches<'a> {
     aux: &'a AuxMatchesData,
     ongoing_accum: HashMap<OngoingTxKey, OngoingAccum>,
diff --git a/node/src/block_proposer/state.rs b/node/src/block_proposer/state.rs
index 9018130..594b913 100644
--- a/node/src/block_proposer/state.rs
+++ b/node/src/block_proposer/state.rs
@@ -611,6 +611,21 @@ impl<'a> State<'a> {
     }
 }
 
+/// Simulation hooks: read access to the proofs and the circuit that made them
+#[cfg(mozak_sim)]
+impl AuxStateData {
+    #[must_use]
+    pub fn root_circuit(&self, tree_depth: usize) -> &BranchCircuit {
+        &self.branch_circuits[tree_depth]
+    }
+}
+
+#[cfg(mozak_sim)]
+impl<'a> State<'a> {
+    #[must_use]
+    pub fn root_proof(&self) -> &BranchProof { &self.root.proof }
+}
+
 #[cfg(test)]
 pub mod test {
     use super::{AuxStateData, BranchProof, Operation, State};
diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index 8d56b93..59b8d86 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -439,6 +439,13 @@ impl AuxTransactionData {
     }
 }
 
+/// Simulation hook: read access to the circuit behind the transaction proofs
+#[cfg(mozak_sim)]
+impl AuxTransactionData {
+    #[must_use]
+    pub fn branch_circuit(&self) -> &TxBranchCircuit { &self.tx_branch_circuit }
+}
+
 pub struct TransactionAccumulator<'a> {
     aux: &'a AuxTransactionData,
     ongoing_tx: HashMap<OngoingTxKey, OngoingTx>,
-- 
2.43.0


From 974fc15294d376d68ca82f0fc1ff54db4740903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:25 +0000
Subject: [PATCH 22/41] fix: combine an object's credit changes with its other
 events

---
 .../src/circuits/accumulate_delta/core.rs     | 40 +++++++++++++++----
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/recproofs/src/circuits/accumulate_delta/core.rs b/recproofs/src/circuits/accumulate_delta/core.rs
index a3b1b75..49d159a 100644
--- a/recproofs/src/circuits/accumulate_delta/core.rs
+++ b/recproofs/src/circuits/accumulate_delta/core.rs
@@ -570,7 +570,23 @@ fn merge_branch_helper<F: RichField, W>(
     flags: impl Into<BitFlags<EventFlags>>,
 ) -> [F; 4] {
     let flags = flags.into();
-    match (l_flags.intersects(flags), r_flags.intersects(flags)) {
+    merge_present(
+        l,
+        l_flags.intersects(flags),
+        r,
+        r_flags.intersects(flags),
+        f,
+    )
+}
+
+fn merge_present<F: RichField, W>(
+    l: W,
+    l_present: bool,
+    r: W,
+    r_present: bool,
+    f: impl Fn(W) -> [F; 4],
+) -> [F; 4] {
+    match (l_present, r_present) {
         (false, false) => [F::ZERO; 4],
         (true, false) => f(l),
         (false, true) => f(r),
@@ -596,7 +612,14 @@ impl<F: RichField> BranchWitnessValue<F> {
         Self {
             address: left.address,
             object_flags: left.object_flags | right.object_flags,
-            old_owner: merge_branch(&left, &right, |c| c.old_owner, old_owner),
+            // Credit changes also come from the old owner
+            old_owner: merge_present(
+                &left,
+                left.object_flags.intersects(old_owner) || left.credit_delta != 0,
+                &right,
+                right.object_flags.intersects(old_owner) || right.credit_delta != 0,
+                |c| c.old_owner,
+            ),
             new_owner: merge_branch(&left, &right, |c| c.new_owner, new_owner),
             old_data: merge_branch(&left, &right, |c| c.old_data, old_data),
             new_data: merge_branch(&left, &right, |c| c.new_data, new_data),
@@ -693,14 +716,17 @@ impl BranchSubCircuit {
         let old_data = EventFlags::ReadFlag;
         let new_data = EventFlags::WriteFlag | EventFlags::EnsureFlag;
 
+        let left_credits = indices.credit_delta.get_field(left_inputs);
+        let right_credits = indices.credit_delta.get_field(right_inputs);
+
         // Get the object fields based on the flags
-        let old_owner = merge_branch_helper(
+        // Credit changes also come from the old owner
+        let old_owner = merge_present(
             left_inputs,
-            left_flags,
+            left_flags.intersects(old_owner) || left_credits.is_nonzero(),
             right_inputs,
-            right_flags,
+            right_flags.intersects(old_owner) || right_credits.is_nonzero(),
             |inputs| indices.old_owner.get_field(inputs),
-            old_owner,
         );
         let new_owner = merge_branch_helper(
             left_inputs,
@@ -734,8 +760,6 @@ impl BranchSubCircuit {
         witness.set_target_arr(&targets.new_data, &new_data);
 
         // Handle the credits
-        let left_credits = indices.credit_delta.get_field(left_inputs);
-        let right_credits = indices.credit_delta.get_field(right_inputs);
         let credits = left_credits + right_credits;
         witness.set_target(targets.credit_delta, credits);
 
-- 
2.43.0


From 4de50721323f0763632c8952d9e18fa3c855a1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:36 +0000
Subject: [PATCH 23/41] fix: hold consumers of a proof tree to the circuit that
 must have built it

A branch circuit checks its children against the verifier data in its own
public inputs, so a branch proof only says that some circuit built the
tree below it.  Whoever takes such a proof - another circuit or a caller
of verify - has to check that this verifier is the branch's own, or a tree
whose leaves come from a circuit of the prover's choosing is accepted.
---
 recproofs/src/circuits/accumulate_delta.rs    |  3 ++
 recproofs/src/circuits/build_event_root.rs    |  3 ++
 recproofs/src/circuits/match_delta.rs         |  8 ++++
 recproofs/src/circuits/merge.rs               |  3 ++
 recproofs/src/circuits/merge/embed.rs         |  3 ++
 recproofs/src/circuits/verify_block.rs        |  6 ++-
 recproofs/src/circuits/verify_block/core.rs   |  6 +++
 recproofs/src/circuits/verify_program.rs      |  3 ++
 recproofs/src/circuits/verify_program/core.rs | 10 +++++
 recproofs/src/circuits/verify_tx.rs           |  3 ++
 recproofs/src/circuits/verify_tx/core.rs      |  4 ++
 recproofs/src/subcircuits/unbounded.rs        | 44 ++++++++++++++++++-
 12 files changed, 94 insertions(+), 2 deletions(-)

diff --git a/recproofs/src/circuits/accumulate_delta.rs b/recproofs/src/circuits/accumulate_delta.rs
index f9d4b5e..7827caf 100644
--- a/recproofs/src/circuits/accumulate_delta.rs
+++ b/recproofs/src/circuits/accumulate_delta.rs
@@ -331,6 +331,9 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        self.unbounded
+            .indices
+            .check_verifier(&proof.proof, &self.circuit)?;
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/build_event_root.rs b/recproofs/src/circuits/build_event_root.rs
index b362638..b5a40de 100644
--- a/recproofs/src/circuits/build_event_root.rs
+++ b/recproofs/src/circuits/build_event_root.rs
@@ -396,6 +396,9 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        self.unbounded
+            .indices
+            .check_verifier(&proof.proof, &self.circuit)?;
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/match_delta.rs b/recproofs/src/circuits/match_delta.rs
index 9154569..7af1ff1 100644
--- a/recproofs/src/circuits/match_delta.rs
+++ b/recproofs/src/circuits/match_delta.rs
@@ -153,6 +153,11 @@ where
             &verifier,
             &accumulate_event_circuit.circuit.common,
         );
+        accumulate_event_circuit.unbounded.indices.connect_verifier(
+            &mut builder,
+            &targets.accumulate_event,
+            &accumulate_event_circuit.circuit,
+        );
         // event hash
         {
             let acc_event_hash = accumulate_event_circuit
@@ -487,6 +492,9 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        self.unbounded
+            .indices
+            .check_verifier(&proof.proof, &self.circuit)?;
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/merge.rs b/recproofs/src/circuits/merge.rs
index ce7490b..f0ffb04 100644
--- a/recproofs/src/circuits/merge.rs
+++ b/recproofs/src/circuits/merge.rs
@@ -270,6 +270,9 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        self.unbounded
+            .indices
+            .check_verifier(&proof.proof, &self.circuit)?;
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/merge/embed.rs b/recproofs/src/circuits/merge/embed.rs
index 2371701..1229bda 100644
--- a/recproofs/src/circuits/merge/embed.rs
+++ b/recproofs/src/circuits/merge/embed.rs
@@ -147,6 +147,9 @@ impl SubCircuitInputs {
         let proof = builder.add_virtual_proof_with_pis(&circuit.common);
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
         builder.verify_proof::<C>(&proof, &verifier, &circuit.common);
+        mc.unbounded
+            .indices
+            .connect_verifier(builder, &proof, circuit);
 
         let a_present = mc.merge.indices.a_present.get_target(&proof.public_inputs);
         let b_present = mc.merge.indices.b_present.get_target(&proof.public_inputs);
diff --git a/recproofs/src/circuits/verify_block.rs b/recproofs/src/circuits/verify_block.rs
index 8a67225..eaec603 100644
--- a/recproofs/src/circuits/verify_block.rs
+++ b/recproofs/src/circuits/verify_block.rs
@@ -2,7 +2,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use itertools::Either;
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField};
@@ -356,6 +356,10 @@ where
     }
 
     pub fn verify(&self, proof: BlockProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "chain of blocks was built by another circuit"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/verify_block/core.rs b/recproofs/src/circuits/verify_block/core.rs
index de46523..1e024b7 100644
--- a/recproofs/src/circuits/verify_block/core.rs
+++ b/recproofs/src/circuits/verify_block/core.rs
@@ -277,6 +277,9 @@ impl<const D: usize> TxVerifierTargets<D> {
         let proof = builder.add_virtual_proof_with_pis(&circuit.common);
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
         builder.verify_proof::<C>(&proof, &verifier, &circuit.common);
+        tx.unbounded
+            .indices
+            .connect_verifier(builder, &proof, circuit);
 
         let events_present = tx
             .events
@@ -345,6 +348,9 @@ impl<const D: usize> MatchDeltaVerifierTargets<D> {
         let proof = builder.add_virtual_proof_with_pis(&circuit.common);
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
         builder.verify_proof::<C>(&proof, &verifier, &circuit.common);
+        md.unbounded
+            .indices
+            .connect_verifier(builder, &proof, circuit);
 
         let event_root = md
             .event_hash
diff --git a/recproofs/src/circuits/verify_program.rs b/recproofs/src/circuits/verify_program.rs
index 601e711..412816d 100644
--- a/recproofs/src/circuits/verify_program.rs
+++ b/recproofs/src/circuits/verify_program.rs
@@ -426,6 +426,9 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        self.unbounded
+            .indices
+            .check_verifier(&proof.proof, &self.circuit)?;
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/verify_program/core.rs b/recproofs/src/circuits/verify_program/core.rs
index 8fceda9..cc51880 100644
--- a/recproofs/src/circuits/verify_program/core.rs
+++ b/recproofs/src/circuits/verify_program/core.rs
@@ -208,6 +208,16 @@ impl<C: GenericConfig<D>, const D: usize> EventRootVerifierTargets<C, D> {
         let verifier = select_verifier(builder, events_present, &real_verifier, &zero_verifier);
         builder.verify_proof::<C>(&event_root_proof, &verifier, &circuit.common);
 
+        // The tree below a present proof must be built by the same circuit
+        let tree_verifier = event_root_circuit
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&event_root_proof.public_inputs);
+        let tree_verifier =
+            select_verifier(builder, events_present, &tree_verifier, &real_verifier);
+        builder.connect_verifier_data(&tree_verifier, &real_verifier);
+
         let event_owner = event_root_circuit
             .event_owner
             .indices
diff --git a/recproofs/src/circuits/verify_tx.rs b/recproofs/src/circuits/verify_tx.rs
index 5330e82..66ee0ea 100644
--- a/recproofs/src/circuits/verify_tx.rs
+++ b/recproofs/src/circuits/verify_tx.rs
@@ -256,6 +256,9 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        self.unbounded
+            .indices
+            .check_verifier(&proof.proof, &self.circuit)?;
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/verify_tx/core.rs b/recproofs/src/circuits/verify_tx/core.rs
index e32114b..3544cd1 100644
--- a/recproofs/src/circuits/verify_tx/core.rs
+++ b/recproofs/src/circuits/verify_tx/core.rs
@@ -39,6 +39,10 @@ impl<const D: usize> ProgramSetVerifierTargets<D> {
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
 
         builder.verify_proof::<C>(&program_set_proof, &verifier, &circuit.common);
+        program
+            .unbounded
+            .indices
+            .connect_verifier(builder, &program_set_proof, circuit);
 
         let events_present = program
             .events
diff --git a/recproofs/src/subcircuits/unbounded.rs b/recproofs/src/subcircuits/unbounded.rs
index 4dd03ba..4179de6 100644
--- a/recproofs/src/subcircuits/unbounded.rs
+++ b/recproofs/src/subcircuits/unbounded.rs
@@ -3,13 +3,14 @@
 //! These subcircuits are fully-recursive, meaning only one `BranchCircuit` can
 //! handle generating proofs for any level regardless of depth.
 
+use anyhow::{ensure, Result};
 use plonky2::field::extension::Extendable;
 use plonky2::gates::noop::NoopGate;
 use plonky2::hash::hash_types::RichField;
 use plonky2::iop::target::{BoolTarget, Target};
 use plonky2::iop::witness::{PartialWitness, WitnessWrite};
 use plonky2::plonk::circuit_builder::CircuitBuilder;
-use plonky2::plonk::circuit_data::{CircuitData, VerifierCircuitTarget};
+use plonky2::plonk::circuit_data::{CircuitData, VerifierCircuitTarget, VerifierOnlyCircuitData};
 use plonky2::plonk::config::{AlgebraicHasher, GenericConfig};
 use plonky2::plonk::proof::{ProofWithPublicInputs, ProofWithPublicInputsTarget};
 
@@ -26,6 +27,47 @@ pub struct PublicIndices {
     pub verifier: VerifierCircuitTargetIndex,
 }
 
+impl PublicIndices {
+    /// Enforce that the tree below a (verified) branch proof was built by
+    /// `branch` itself.
+    ///
+    /// A branch only guarantees that every proof below it was checked against
+    /// the verifier in its public inputs, so whoever consumes a branch proof
+    /// must also check that verifier.
+    pub fn connect_verifier<F, C, const D: usize>(
+        &self,
+        builder: &mut CircuitBuilder<F, D>,
+        proof: &ProofWithPublicInputsTarget<D>,
+        branch: &CircuitData<F, C, D>,
+    ) where
+        F: RichField + Extendable<D>,
+        C: GenericConfig<D, F = F>,
+        C::Hasher: AlgebraicHasher<F>, {
+        let expected = builder.constant_verifier_data(&branch.verifier_only);
+        let verifier = self.verifier.get_target(&proof.public_inputs);
+        builder.connect_verifier_data(&verifier, &expected);
+    }
+
+    /// Check that the tree below a (verified) branch proof was built by
+    /// `branch` itself. See [`Self::connect_verifier`].
+    pub fn check_verifier<F, C, const D: usize>(
+        &self,
+        proof: &ProofWithPublicInputs<F, C, D>,
+        branch: &CircuitData<F, C, D>,
+    ) -> Result<()>
+    where
+        F: RichField + Extendable<D>,
+        C: GenericConfig<D, F = F>,
+        C::Hasher: AlgebraicHasher<F>, {
+        let verifier: VerifierOnlyCircuitData<C, D> = self.verifier.get_field(&proof.public_inputs);
+        ensure!(
+            verifier == branch.verifier_only,
+            "proof tree was built by another circuit"
+        );
+        Ok(())
+    }
+}
+
 pub struct SubCircuitInputs {
     pub verifier: VerifierCircuitTarget,
 }
-- 
2.43.0


From f685a0a2461fe4b6fe9132739e5c8c28b5288d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:00 +0000
Subject: [PATCH 24/41] fix: let the storage device constraints accept every
 honest trace and no stray memory rows

---
 circuits/src/storage_device/stark.rs | 46 ++++++++++++----------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/circuits/src/storage_device/stark.rs b/circuits/src/storage_device/stark.rs
index 6ed9de2..1a0e246 100644
--- a/circuits/src/storage_device/stark.rs
+++ b/circuits/src/storage_device/stark.rs
@@ -41,38 +41,30 @@ fn generate_constraints<'a, T: Copy>(
     constraints.always(lv.ops.is_storage_device.is_binary());
     constraints.always(lv.is_executed().is_binary());
 
-    // If nv.is_storage_device() == 1: lv.size == 0, also forces the last row to be
-    // size == 0 ! This constraints ensures loop unrolling was done correctly
-    constraints.always(nv.ops.is_storage_device * lv.size);
+    // Each storage device row is followed by `size` memory rows, counting down.
+    // If lv.is_executed() == 1 && lv.size != 0: (also forces the last row to be
+    // size == 0, or else to be continued in the first row.)
+    //      nv.is_memory_store == 1
+    //      nv.clk == lv.clk
+    constraints.always(lv.is_executed() * lv.size * (nv.ops.is_memory_store - 1));
+    constraints.always(lv.is_executed() * lv.size * (nv.clk - lv.clk));
+    // If nv.is_memory_store == 1: it continues the row before.
+    //      lv.is_executed() == 1
+    //      nv.size == lv.size - 1 (not-wrapped)
+    constraints.always(nv.ops.is_memory_store * (lv.is_executed() - 1));
+    constraints.always(nv.ops.is_memory_store * (nv.size - (lv.size - 1)));
+    // The first memory row starts at the address of the storage device row:
+    // If lv.is_storage_device() == 1 && lv.size != 0:
+    //      nv.addr == lv.addr
+    constraints.always(lv.ops.is_storage_device * lv.size * (nv.addr - lv.addr));
+    // If lv.is_memory_store == 1 && lv.size != 0:
+    //      lv.is_lv_and_nv_are_memory_rows == 1
+    constraints.always(lv.ops.is_memory_store * lv.size * (lv.is_lv_and_nv_are_memory_rows - 1));
     // If lv.is_lv_and_nv_are_memory_rows == 1:
     //    nv.address == lv.address + 1 (wrapped)
-    //    nv.size == lv.size - 1 (not-wrapped)
     let added = lv.addr + 1;
     let wrapped = added - (1 << 32);
-    // nv.address == lv.address + 1 (wrapped)
     constraints.always(lv.is_lv_and_nv_are_memory_rows * (nv.addr - added) * (nv.addr - wrapped));
-    // nv.size == lv.size - 1 (not-wrapped)
-    constraints.transition(nv.is_lv_and_nv_are_memory_rows * (nv.size - (lv.size - 1)));
-    // Edge cases:
-    //  a) - storage_device with size = 0: <-- this case is solved since CTL from
-    // CPU        a.1) is_lv_and_nv_are_memory_rows = 0 (no memory rows
-    // inserted)  b) - storage_device with size = 1: <-- this case needs to be
-    // solved separately        b.1) is_lv_and_nv_are_memory_rows = 0 (only one
-    // memory row inserted) To solve case-b:
-    // If lv.is_storage_device() == 1 && lv.size != 0:
-    //      lv.addr == nv.addr       <-- next row address must be the same !!!
-    //      lv.size === nv.size - 1  <-- next row size is decreased
-    constraints.transition(lv.ops.is_storage_device * lv.size * (nv.addr - lv.addr));
-    constraints.transition(lv.ops.is_storage_device * lv.size * (nv.size - (lv.size - 1)));
-    // If lv.is_storage_device() == 1 && lv.size == 0:
-    //      nv.is_memory() == 0 <-- next op can be only io - since size == 0
-    // This one is ensured by:
-    //  1) is_binary(storage_device or memory)
-    //  2) if nv.is_storage_device() == 1: lv.size == 0
-
-    // If lv.is_storage_device() == 1 && nv.size != 0:
-    //      nv.is_lv_and_nv_are_memory_rows == 1
-    constraints.always(lv.ops.is_storage_device * nv.size * (nv.is_lv_and_nv_are_memory_rows - 1));
 
     constraints
 }
-- 
2.43.0


From b8f658373df4ac2271fa9faaddf2f239d5604746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:00 +0000
Subject: [PATCH 25/41] fix: let a trace log system call be proved

---
 circuits/src/cpu/columns.rs    | 1 +
 circuits/src/cpu/ecall.rs      | 1 +
 circuits/src/cpu/generation.rs | 4 ++++
 3 files changed, 6 insertions(+)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index a41ff47..3138e47 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -162,6 +162,7 @@ pub struct EcallSelectors<T> {
     pub is_halt: T,
     pub is_poseidon2: T,
     pub is_self_prog_id_tape: T,
+    pub is_vm_trace_log: T,
 }
 
 make_col_map!(CpuState);
diff --git a/circuits/src/cpu/ecall.rs b/circuits/src/cpu/ecall.rs
index 2bb38b3..5cee806 100644
--- a/circuits/src/cpu/ecall.rs
+++ b/circuits/src/cpu/ecall.rs
@@ -19,6 +19,7 @@ pub(crate) fn constraints<'a, P: Copy>(
     }
     cb.always(lv.inst.ops.ecall - ecalls.iter().sum::<Expr<'a, P>>());
     cb.always(lv.ecall_selectors.is_halt * (lv.op1_value - i64::from(ecall::HALT)));
+    cb.always(lv.ecall_selectors.is_vm_trace_log * (lv.op1_value - i64::from(ecall::VM_TRACE_LOG)));
     storage_device_constraints(lv, cb);
     poseidon2_constraints(lv, cb);
 }
diff --git a/circuits/src/cpu/generation.rs b/circuits/src/cpu/generation.rs
index 7f4f2a8..cd5b8df 100644
--- a/circuits/src/cpu/generation.rs
+++ b/circuits/src/cpu/generation.rs
@@ -135,6 +135,10 @@ pub fn generate_cpu_trace<F: RichField>(record: &ExecutionRecord<F>) -> Vec<CpuS
                     (inst.op, io.op),
                     (Op::ECALL, StorageDeviceOpcode::StoreSelfProgIdTape)
                 )),
+                is_vm_trace_log: F::from_bool(matches!(
+                    (inst.op, state.registers[usize::from(REG_A0)]),
+                    (Op::ECALL, ecall::VM_TRACE_LOG)
+                )),
                 is_halt: F::from_bool(matches!(
                     (inst.op, state.registers[usize::from(REG_A0)]),
                     (Op::ECALL, ecall::HALT)
-- 
2.43.0


From b9fd8536a7a00d67c6a0dfff8c758dafa76a96a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:01 +0000
Subject: [PATCH 26/41] fix: let a JALR with an odd target be proved

---
 circuits/src/cpu/columns.rs    | 2 ++
 circuits/src/cpu/generation.rs | 3 +++
 circuits/src/cpu/jalr.rs       | 6 +++++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index 3138e47..5178b03 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -173,6 +173,8 @@ columns_view_impl!(CpuState);
 pub struct CpuState<T> {
     pub clk: T,
     pub new_pc: T,
+    /// The bit that JALR clears in its target.
+    pub jump_lsb: T,
     pub inst: Instruction<T>,
 
     pub op1_value: T,
diff --git a/circuits/src/cpu/generation.rs b/circuits/src/cpu/generation.rs
index cd5b8df..1c6635a 100644
--- a/circuits/src/cpu/generation.rs
+++ b/circuits/src/cpu/generation.rs
@@ -86,6 +86,9 @@ pub fn generate_cpu_trace<F: RichField>(record: &ExecutionRecord<F>) -> Vec<CpuS
         let mut row = CpuState {
             clk: F::from_noncanonical_u64(state.clk),
             new_pc: F::from_canonical_u32(aux.new_pc),
+            jump_lsb: F::from_bool(
+                inst.op == Op::JALR && aux.op1.wrapping_add(aux.op2).trailing_ones() > 0,
+            ),
             inst: cpu_cols::Instruction::from((state.get_pc(), *inst)).map(from_u32),
             op1_value: from_u32(aux.op1),
             op2_value_raw: from_u32(aux.op2_raw),
diff --git a/circuits/src/cpu/jalr.rs b/circuits/src/cpu/jalr.rs
index 2b31e23..0b68a89 100644
--- a/circuits/src/cpu/jalr.rs
+++ b/circuits/src/cpu/jalr.rs
@@ -24,7 +24,11 @@ pub(crate) fn constraints<'a, P: Copy>(
 
     let jump_target = lv.op1_value + lv.op2_value;
     let wrapped_jump_target = jump_target - (1 << 32);
-    let new_pc = lv.new_pc;
+    // The least significant bit of the target is cleared.  Instructions only live
+    // at even addresses, so looking up the next `pc` in the program ROM makes
+    // the choice of the bit deterministic.
+    cb.always(lv.jump_lsb.is_binary());
+    let new_pc = lv.new_pc + lv.jump_lsb;
 
     // Check: the wrapped op1, op2 sum is set as new `pc`.
     // As values are u32 range checked, this makes the value choice deterministic.
-- 
2.43.0


From f9aa702deed0ff50f6960616c52fa72eddc08df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:01 +0000
Subject: [PATCH 27/41] Simulation hook: range-check rows for values out of
 range

---
 circuits/src/rangecheck/generation.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/circuits/src/rangecheck/generation.rs b/circuits/src/rangecheck/generation.rs
index d13a88f..950052b 100644
--- a/circuits/src/rangecheck/generation.rs
+++ b/circuits/src/rangecheck/generation.rs
@@ -78,11 +78,16 @@ pub(crate) fn generate_rangecheck_trace<F: RichField>(
             .sorted_by_key(|(v, _)| v.to_noncanonical_u64())
             .map(|(v, multiplicity)| RangeCheckColumnsView {
                 multiplicity: multiplicity.into_iter().sum(),
+                #[cfg(not(mozak_sim))]
                 limbs: limbs_from_u32(v.to_noncanonical_u64().try_into().unwrap_or_else(|_| {
                     panic!(
                         "We can only rangecheck values that actually fit in u32, but got: {v:#x?}"
                     )
                 })),
+                // A dishonest prover does not stop here.
+                #[cfg(mozak_sim)]
+                limbs: u32::try_from(v.to_canonical_u64())
+                    .map_or([v, F::ZERO, F::ZERO, F::ZERO], limbs_from_u32),
             })
             .collect(),
     )
-- 
2.43.0


From 2e92ba07c55b0d8374b30371b64899c733b0b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:30 +0000
Subject: [PATCH 28/41] fix: let instructions on -31 and -1 be proved

---
 circuits/src/cpu/generation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/src/cpu/generation.rs b/circuits/src/cpu/generation.rs
index 1c6635a..b6f8ad2 100644
--- a/circuits/src/cpu/generation.rs
+++ b/circuits/src/cpu/generation.rs
@@ -283,7 +283,7 @@ fn generate_div_row<F: RichField>(row: &mut CpuState<F>, inst: &Instruction, aux
         row.quotient_value = from_u32(quotient_full_range as u32);
         row.quotient_sign = F::from_bool(quotient_full_range.is_negative());
         row.skip_check_quotient_sign = F::from_bool(quotient_full_range == 0);
-        if dividend_full_range == -2 ^ 31 && divisor_full_range == -1 {
+        if dividend_full_range == i64::from(i32::MIN) && divisor_full_range == -1 {
             // Special case for dividend == -2^31, divisor == -1:
             // quotient_sign == 1 (quotient = -2^31).
             row.skip_check_quotient_sign = F::ONE;
-- 
2.43.0


From cdb6b9e2e0acb3986e006dac49bdbb81c61bc986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:28 +0000
Subject: [PATCH 29/41] fix: tie the Poseidon2 s-box helper columns to the
 cubes they stand for

---
 circuits/src/poseidon2/stark.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/circuits/src/poseidon2/stark.rs b/circuits/src/poseidon2/stark.rs
index 9d3f240..1994dc0 100644
--- a/circuits/src/poseidon2/stark.rs
+++ b/circuits/src/poseidon2/stark.rs
@@ -33,9 +33,13 @@ where
 }
 
 // degree: 3
-fn sbox_p<'a, V>(x: &mut Expr<'a, V>, x_qube: &Expr<'a, V>)
-where
+fn sbox_p<'a, V>(
+    x: &mut Expr<'a, V>,
+    x_qube: &Expr<'a, V>,
+    constraints: &mut ConstraintBuilder<Expr<'a, V>>,
+) where
     V: Copy, {
+    constraints.always(*x * *x * *x - *x_qube);
     *x *= *x_qube * *x_qube;
 }
 
@@ -152,6 +156,7 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
             sbox_p(
                 item,
                 &lv.s_box_input_qube_first_full_rounds[r * STATE_SIZE + i],
+                &mut constraints,
             );
         }
         matmul_external12(&mut state);
@@ -164,7 +169,11 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
     // partial rounds
     for i in 0..ROUNDS_P {
         state[0] += from_u64(<U as Poseidon2>::RC12_MID[i]);
-        sbox_p(&mut state[0], &lv.s_box_input_qube_partial_rounds[i]);
+        sbox_p(
+            &mut state[0],
+            &lv.s_box_input_qube_partial_rounds[i],
+            &mut constraints,
+        );
         matmul_internal12::<V, U, STATE_SIZE>(&mut state);
         constraints.always(state[0] - lv.state0_after_partial_rounds[i]);
         state[0] = lv.state0_after_partial_rounds[i];
@@ -184,6 +193,7 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
             sbox_p(
                 item,
                 &lv.s_box_input_qube_second_full_rounds[i * STATE_SIZE + j],
+                &mut constraints,
             );
         }
         matmul_external12(&mut state);
-- 
2.43.0


From 7264f83e6169a6001c90d53c5392343f71ce889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:28 +0000
Subject: [PATCH 30/41] fix: range check the difference that SLT and SLTU
 compare

---
 circuits/src/cpu/columns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index 5178b03..f782ab3 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -310,7 +310,7 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
         (CPU.remainder_slack, divs),
         (CPU.dst_value, ops.add + ops.sub + ops.jalr),
         (CPU.inst.pc, ops.jalr),
-        (CPU.abs_diff, ops.bge + ops.blt),
+        (CPU.abs_diff, ops.bge + ops.blt + ops.slt),
         (CPU.product_high_limb, muls),
         (CPU.product_low_limb, muls),
         // apply range constraints for the sign bits of each operand
-- 
2.43.0


From 95c10f0aa37043b68738a8fde1a7352f3ef135d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:28 +0000
Subject: [PATCH 31/41] fix: hold the signedness of operands and loads to the
 program

---
 circuits/src/cpu/columns.rs           | 18 ++++++++++++++----
 circuits/src/cpu/memory.rs            |  1 +
 circuits/src/cpu/signed_comparison.rs |  2 ++
 circuits/src/program/columns.rs       |  4 ++--
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index f782ab3..c5ae479 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -324,8 +324,17 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
             CPU.op2_value - CPU.op2_sign_bit * (1 << 32) + CPU.inst.is_op2_signed * (1 << 31),
             CPU.inst.is_op2_signed,
         ),
-        (CPU.dst_value - CPU.dst_sign_bit * 0xFFFF_FF00, ops.lb),
-        (CPU.dst_value - CPU.dst_sign_bit * 0xFFFF_0000, ops.lh),
+        // The sign bit of a signed load has to be the most significant bit of the loaded value.
+        (
+            (CPU.mem_value_raw - CPU.dst_sign_bit * (1 << 8) + CPU.inst.is_dst_signed * (1 << 7))
+                * (1 << 24),
+            ops.lb,
+        ),
+        (
+            (CPU.mem_value_raw - CPU.dst_sign_bit * (1 << 16) + CPU.inst.is_dst_signed * (1 << 15))
+                * (1 << 16),
+            ops.lh,
+        ),
     ]
     .into_iter()
     .map(|(columns, filter)| CpuTable::new(RangeCheckCtl(columns), filter))
@@ -442,7 +451,8 @@ pub fn lookup_for_program_rom() -> TableWithTypedOutput<ProgramRom<Column>> {
             // Combine columns into a single column.
             // - ops: This is an internal opcode, not the opcode from RISC-V, and can fit within 5
             //   bits.
-            // - is_op1_signed and is_op2_signed: These fields occupy 1 bit each.
+            // - is_op1_signed: This field occupies 1 bit.
+            // - is_op2_signed and is_dst_signed: These fields occupy 1 bit each, and share a slot.
             // - rs1_select, rs2_select, and rd_select: These fields require 5 bits each.
             // - imm_value: This field requires 32 bits.
             // Therefore, the total bit requirement is 5 * 6 + 32 = 62 bits, which is less than the
@@ -453,7 +463,7 @@ pub fn lookup_for_program_rom() -> TableWithTypedOutput<ProgramRom<Column>> {
                 [
                     ColumnWithTypedInput::ascending_sum(inst.ops),
                     inst.is_op1_signed,
-                    inst.is_op2_signed,
+                    inst.is_op2_signed + inst.is_dst_signed * 2,
                     inst.rs1_selected,
                     inst.rs2_selected,
                     inst.rd_selected,
diff --git a/circuits/src/cpu/memory.rs b/circuits/src/cpu/memory.rs
index a47622d..7b692c7 100644
--- a/circuits/src/cpu/memory.rs
+++ b/circuits/src/cpu/memory.rs
@@ -15,6 +15,7 @@ pub(crate) fn signed_constraints<'a, P: Copy>(
     lv: &CpuState<Expr<'a, P>>,
     cb: &mut ConstraintBuilder<Expr<'a, P>>,
 ) {
+    cb.always(lv.inst.is_dst_signed.is_binary());
     cb.always(lv.dst_sign_bit.is_binary());
     // When dst is not signed as per instruction semantics, dst_sign_bit must be 0.
     cb.always((1 - lv.inst.is_dst_signed) * lv.dst_sign_bit);
diff --git a/circuits/src/cpu/signed_comparison.rs b/circuits/src/cpu/signed_comparison.rs
index 6c4130b..2a6f058 100644
--- a/circuits/src/cpu/signed_comparison.rs
+++ b/circuits/src/cpu/signed_comparison.rs
@@ -27,6 +27,8 @@ pub(crate) fn signed_constraints<'a, P: Copy>(
     lv: &CpuState<Expr<'a, P>>,
     cb: &mut ConstraintBuilder<Expr<'a, P>>,
 ) {
+    cb.always(lv.inst.is_op1_signed.is_binary());
+    cb.always(lv.inst.is_op2_signed.is_binary());
     cb.always(lv.op1_sign_bit.is_binary());
     cb.always(lv.op2_sign_bit.is_binary());
 
diff --git a/circuits/src/program/columns.rs b/circuits/src/program/columns.rs
index 52ddd76..38c1eb7 100644
--- a/circuits/src/program/columns.rs
+++ b/circuits/src/program/columns.rs
@@ -19,7 +19,7 @@ pub struct ProgramRom<T> {
     pub pc: T,
     /// `inst_data` include:
     /// - ops: This is an internal opcode, not the opcode from RISC-V
-    /// - `is_op1_signed` and `is_op2_signed`
+    /// - `is_op1_signed`, `is_op2_signed` and `is_dst_signed`
     /// - `rs1_select`, `rs2_select`, and `rd_select`
     /// - `imm_value`
     pub inst_data: T,
@@ -42,7 +42,7 @@ impl<F: RichField> From<Instruction<F>> for ProgramRom<F> {
                 [
                     ascending_sum(inst.ops),
                     inst.is_op1_signed,
-                    inst.is_op2_signed,
+                    inst.is_op2_signed + inst.is_dst_signed.double(),
                     inst.rs1_selected,
                     inst.rs2_selected,
                     inst.rd_selected,
-- 
2.43.0


From 49222739e02c16adc39ce0753c2993788eb694d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:28 +0000
Subject: [PATCH 32/41] fix: tie the word that LW and SW move to its register

---
 circuits/src/cpu/memory.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/src/cpu/memory.rs b/circuits/src/cpu/memory.rs
index 7b692c7..70496cd 100644
--- a/circuits/src/cpu/memory.rs
+++ b/circuits/src/cpu/memory.rs
@@ -28,6 +28,10 @@ pub(crate) fn signed_constraints<'a, P: Copy>(
     // `mem_access_raw` in case `dst_sign_bit` is set
     cb.always(lv.inst.ops.lh * (lv.dst_value - (lv.mem_value_raw + lv.dst_sign_bit * 0xFFFF_0000)));
 
+    // LW and SW move the whole word.
+    cb.always(lv.inst.ops.lw * (lv.dst_value - lv.mem_value_raw));
+    cb.always(lv.inst.ops.sw * (lv.mem_value_raw - lv.op1_value));
+
     let and_gadget = and_gadget(&lv.xor);
     // SB/SH uses only least significant 8/16 bit from RS1 register.
     cb.always((lv.inst.ops.sb + lv.inst.ops.sh) * (and_gadget.input_a - lv.op1_value));
-- 
2.43.0


From 234bca9cfea50917951094067aabc8b9bab39bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:28 +0000
Subject: [PATCH 33/41] fix: constrain the next pc of system calls and of the
 last row

---
 circuits/src/cpu/ecall.rs | 2 ++
 circuits/src/cpu/jalr.rs  | 2 +-
 circuits/src/cpu/stark.rs | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/circuits/src/cpu/ecall.rs b/circuits/src/cpu/ecall.rs
index 5cee806..c83d678 100644
--- a/circuits/src/cpu/ecall.rs
+++ b/circuits/src/cpu/ecall.rs
@@ -20,6 +20,8 @@ pub(crate) fn constraints<'a, P: Copy>(
     cb.always(lv.inst.ops.ecall - ecalls.iter().sum::<Expr<'a, P>>());
     cb.always(lv.ecall_selectors.is_halt * (lv.op1_value - i64::from(ecall::HALT)));
     cb.always(lv.ecall_selectors.is_vm_trace_log * (lv.op1_value - i64::from(ecall::VM_TRACE_LOG)));
+    // Every system call but HALT continues with the next instruction.
+    cb.always((lv.inst.ops.ecall - ecalls.is_halt) * (lv.new_pc - (lv.inst.pc + 4)));
     storage_device_constraints(lv, cb);
     poseidon2_constraints(lv, cb);
 }
diff --git a/circuits/src/cpu/jalr.rs b/circuits/src/cpu/jalr.rs
index 0b68a89..f6cadbe 100644
--- a/circuits/src/cpu/jalr.rs
+++ b/circuits/src/cpu/jalr.rs
@@ -32,7 +32,7 @@ pub(crate) fn constraints<'a, P: Copy>(
 
     // Check: the wrapped op1, op2 sum is set as new `pc`.
     // As values are u32 range checked, this makes the value choice deterministic.
-    cb.transition(lv.inst.ops.jalr * (new_pc - jump_target) * (new_pc - wrapped_jump_target));
+    cb.always(lv.inst.ops.jalr * (new_pc - jump_target) * (new_pc - wrapped_jump_target));
 }
 
 #[cfg(test)]
diff --git a/circuits/src/cpu/stark.rs b/circuits/src/cpu/stark.rs
index d34744c..229bb64 100644
--- a/circuits/src/cpu/stark.rs
+++ b/circuits/src/cpu/stark.rs
@@ -34,7 +34,7 @@ impl<F, const D: usize> HasNamedColumns for CpuStark<F, D> {
 /// Ensure that if opcode is straight line, then program counter is incremented
 /// by 4.
 fn pc_ticks_up<'a, P: Copy>(lv: &CpuState<Expr<'a, P>>, cb: &mut ConstraintBuilder<Expr<'a, P>>) {
-    cb.transition(lv.inst.ops.is_straightline() * (lv.new_pc - (lv.inst.pc + 4)));
+    cb.always(lv.inst.ops.is_straightline() * (lv.new_pc - (lv.inst.pc + 4)));
 }
 
 /// Enforce that selectors of opcode are one-hot encoded.
-- 
2.43.0


From 38e405bfd0e3960da83c5f11e4c0d5cce81a4680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:28 +0000
Subject: [PATCH 34/41] fix: constrain the sign of a quotient to be binary

---
 circuits/src/cpu/div.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/src/cpu/div.rs b/circuits/src/cpu/div.rs
index 65a5468..b568f1d 100644
--- a/circuits/src/cpu/div.rs
+++ b/circuits/src/cpu/div.rs
@@ -50,6 +50,7 @@ pub(crate) fn constraints<'a, P: Copy>(
     );
 
     // We also need to make sure quotient_sign and remainder_sign are set correctly.
+    cb.always(quotient_sign.is_binary());
     cb.always(remainder_sign.is_binary());
     cb.always(dividend_sign.is_binary());
 
-- 
2.43.0


From ee12fc1ec256f17eb5d94db980c90c92f2514bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:28 +0000
Subject: [PATCH 35/41] fix: range check the immediate value of an instruction

---
 circuits/src/cpu/columns.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index c5ae479..4030f90 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -305,6 +305,8 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
     let muls: ColumnWithTypedInput<CpuState<i64>> = ops.mul + ops.mulh + ops.sll;
 
     [
+        // Keeps the packed instruction data of the program lookup unambiguous.
+        (CPU.inst.imm_value, CPU.is_running()),
         (CPU.quotient_value, divs),
         (CPU.remainder_value, divs),
         (CPU.remainder_slack, divs),
-- 
2.43.0


From c1ed05d240a0ae149d3ca2239f04d4fa60f19208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:28 +0000
Subject: [PATCH 36/41] fix: range check every row of the range check table

---
 circuits/src/rangecheck/columns.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/circuits/src/rangecheck/columns.rs b/circuits/src/rangecheck/columns.rs
index 7f78192..01f05cb 100644
--- a/circuits/src/rangecheck/columns.rs
+++ b/circuits/src/rangecheck/columns.rs
@@ -1,5 +1,6 @@
 use crate::columns_view::{columns_view_impl, make_col_map};
 use crate::cross_table_lookup::Column;
+use crate::linear_combination_typed::ColumnWithTypedInput;
 use crate::stark::mozak_stark::{RangeCheckTable, TableWithTypedOutput};
 
 #[repr(C)]
@@ -33,6 +34,12 @@ pub struct RangeCheckCtl<T>(pub T);
 #[must_use]
 pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>> {
     (0..4)
-        .map(|limb| RangeCheckTable::new(RangeCheckCtl(COL_MAP.limbs[limb]), COL_MAP.multiplicity))
+        // Not filtered by multiplicity, so that limbs of different rows can't cancel out.
+        .map(|limb| {
+            RangeCheckTable::new(
+                RangeCheckCtl(COL_MAP.limbs[limb]),
+                ColumnWithTypedInput::constant(1),
+            )
+        })
         .collect()
 }
-- 
2.43.0


From ee06cca11a0ec2e8950709ea2913430a5a61c140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:28 +0000
Subject: [PATCH 37/41] fix: read the event tape to the address in the register

---
 circuits/src/storage_device/columns.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/circuits/src/storage_device/columns.rs b/circuits/src/storage_device/columns.rs
index 281531b..1bfa94c 100644
--- a/circuits/src/storage_device/columns.rs
+++ b/circuits/src/storage_device/columns.rs
@@ -8,8 +8,9 @@ use crate::cross_table_lookup::{Column, ColumnWithTypedInput};
 use crate::memory::columns::MemoryCtl;
 use crate::register::RegisterCtl;
 use crate::stark::mozak_stark::{
-    CallTapeTable, CastListCommitmentTapeTable, EventsCommitmentTapeTable, SelfProgIdTapeTable,
-    StorageDevicePrivateTable, StorageDevicePublicTable, TableKind, TableWithTypedOutput,
+    CallTapeTable, CastListCommitmentTapeTable, EventTapeTable, EventsCommitmentTapeTable,
+    SelfProgIdTapeTable, StorageDevicePrivateTable, StorageDevicePublicTable, TableKind,
+    TableWithTypedOutput,
 };
 use crate::tape_commitments::columns::TapeCommitmentCTL;
 
@@ -109,6 +110,7 @@ pub fn register_looking() -> Vec<TableWithTypedOutput<RegisterCtl<Column>>> {
         StorageDevicePrivateTable::new(data, COL_MAP.ops.is_storage_device),
         StorageDevicePublicTable::new(data, COL_MAP.ops.is_storage_device),
         CallTapeTable::new(data, COL_MAP.ops.is_storage_device),
+        EventTapeTable::new(data, COL_MAP.ops.is_storage_device),
         EventsCommitmentTapeTable::new(data, COL_MAP.ops.is_storage_device),
         CastListCommitmentTapeTable::new(data, COL_MAP.ops.is_storage_device),
         SelfProgIdTapeTable::new(data, COL_MAP.ops.is_storage_device),
-- 
2.43.0


From e8d136048b06c1a10bc231c0f1e2148fa958c412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:28 +0000
Subject: [PATCH 38/41] fix: initialise every register only once

---
 circuits/src/register/general/stark.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/circuits/src/register/general/stark.rs b/circuits/src/register/general/stark.rs
index bb36756..8a7127e 100644
--- a/circuits/src/register/general/stark.rs
+++ b/circuits/src/register/general/stark.rs
@@ -39,7 +39,9 @@ const PUBLIC_INPUTS: usize = 0;
 /// 3) Only rd changes.
 /// 4) Address changes only when `nv.is_init` == 1.
 /// 5) Address either stays the same or increments by 1.
-/// 6) Addresses go from 1 to 31.  Address 0 is handled by `RegisterZeroStark`.
+/// 6) Every address is only initialised once; padding of the `RegisterInit`
+///    table may repeat that with the same value.
+/// 7) Addresses go from 1 to 31.  Address 0 is handled by `RegisterZeroStark`.
 ///
 /// For more details, refer to the [Notion
 /// document](https://www.notion.so/0xmozak/Register-File-STARK-62459d68aea648a0abf4e97aa0093ea2).
@@ -78,7 +80,13 @@ fn generate_constraints<'a, T: Copy>(
     // Constraint 5: Address either stays the same or increments by 1.
     constraints.transition((nv.addr - lv.addr) * (nv.addr - lv.addr - 1));
 
-    // Constraint 6: addresses go from 1 to 31.
+    // Constraint 6: a register's very first row initialises it, and nothing after
+    // its other operations does so again.
+    constraints.first_row(lv.is_rw());
+    constraints.transition(nv.ops.is_init * (nv.addr - lv.addr - 1) * (1 - lv.ops.is_init));
+    constraints.transition(nv.ops.is_init * (nv.addr - lv.addr - 1) * (nv.value - lv.value));
+
+    // Constraint 7: addresses go from 1 to 31.
     constraints.first_row(lv.addr - 1);
     constraints.last_row(lv.addr - 31);
 
-- 
2.43.0


From 188a23e9285eccfb9449108e7bf364291acc7b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:28 +0000
Subject: [PATCH 39/41] fix: let a sponge run from its first block to its
 output without a gap

---
 circuits/src/poseidon2_sponge/stark.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/circuits/src/poseidon2_sponge/stark.rs b/circuits/src/poseidon2_sponge/stark.rs
index e16fdc4..74c38ca 100644
--- a/circuits/src/poseidon2_sponge/stark.rs
+++ b/circuits/src/poseidon2_sponge/stark.rs
@@ -74,16 +74,20 @@ fn generate_constraints<'a, T: Copy>(
     // if row generates output then next row can be dummy or start of next hashing
     constraints.always(lv.gen_output * is_init_or_dummy(&nv));
 
-    // Clk should not change within a sponge
-    constraints.transition(nv.ops.is_permute * (lv.clk - nv.clk));
+    // Clk and output address should not change within a sponge
+    constraints.always(nv.ops.is_permute * (lv.clk - nv.clk));
+    constraints.always(nv.ops.is_permute * (lv.output_addr - nv.output_addr));
 
     let not_last_sponge = (1 - lv.gen_output) * (lv.ops.is_permute + lv.ops.is_init_permute);
+    // A sponge continues in the next row until it generates its output, and
+    // only then.
+    constraints.always(not_last_sponge - nv.ops.is_permute);
     // if current row consumes input and its not last sponge then next row must have
     // length decreases by RATE, note that only actual execution row can consume
     // input
-    constraints.transition(not_last_sponge * (lv.input_len - (nv.input_len + rate_scalar)));
+    constraints.always(not_last_sponge * (lv.input_len - (nv.input_len + rate_scalar)));
     // and input_addr increases by RATE
-    constraints.transition(not_last_sponge * (lv.input_addr - (nv.input_addr - rate_scalar)));
+    constraints.always(not_last_sponge * (lv.input_addr - (nv.input_addr - rate_scalar)));
 
     // For each init_permute capacity bits are zero.
     for i in rate..state_size {
-- 
2.43.0


From b1076f96346f9adc0bd756a6e992665bc8d6201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:49 +0000
Subject: [PATCH 40/41] fix: constrain the filters of the Add and BltTaken
 tables to be binary

---
 circuits/src/ops/add/stark.rs       |  2 +
 circuits/src/ops/blt_taken/stark.rs | 78 +++++++++++++++++++++++++++--
 2 files changed, 76 insertions(+), 4 deletions(-)

diff --git a/circuits/src/ops/add/stark.rs b/circuits/src/ops/add/stark.rs
index f4a19e9..27945f1 100644
--- a/circuits/src/ops/add/stark.rs
+++ b/circuits/src/ops/add/stark.rs
@@ -34,6 +34,8 @@ fn generate_constraints<'a, T: Copy, U>(
     let lv = vars.local_values;
     let mut constraints = ConstraintBuilder::default();
 
+    constraints.always(lv.is_running.is_binary());
+
     let added = lv.op1_value + lv.op2_value + lv.inst.imm_value;
     let wrapped = added - (1 << 32);
 
diff --git a/circuits/src/ops/blt_taken/stark.rs b/circuits/src/ops/blt_taken/stark.rs
index 15f6b8e..df13a2c 100644
--- a/circuits/src/ops/blt_taken/stark.rs
+++ b/circuits/src/ops/blt_taken/stark.rs
@@ -1,7 +1,77 @@
+use std::marker::PhantomData;
+
+use expr::{Expr, ExprBuilder, StarkFrameTyped};
+use mozak_circuits_derive::StarkNameDisplay;
+use plonky2::field::extension::{Extendable, FieldExtension};
+use plonky2::field::packed::PackedField;
+use plonky2::hash::hash_types::RichField;
+use plonky2::iop::ext_target::ExtensionTarget;
+use plonky2::plonk::circuit_builder::CircuitBuilder;
+use starky::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsumer};
+use starky::evaluation_frame::StarkFrame;
+use starky::stark::Stark;
+
 use super::columns::BltTaken;
-use crate::columns_view::NumberOfColumns;
-use crate::unstark::Unstark;
+use crate::columns_view::{HasNamedColumns, NumberOfColumns};
+use crate::expr::{build_ext, build_packed, ConstraintBuilder};
 
+#[derive(Copy, Clone, Default, StarkNameDisplay)]
 #[allow(clippy::module_name_repetitions)]
-pub type BltTakenStark<F, const D: usize> =
-    Unstark<F, D, BltTaken<F>, { BltTaken::<()>::NUMBER_OF_COLUMNS }>;
+pub struct BltTakenStark<F, const D: usize> {
+    pub _f: PhantomData<F>,
+}
+
+impl<F, const D: usize> HasNamedColumns for BltTakenStark<F, D> {
+    type Columns = BltTaken<F>;
+}
+
+const COLUMNS: usize = BltTaken::<()>::NUMBER_OF_COLUMNS;
+const PUBLIC_INPUTS: usize = 0;
+
+fn generate_constraints<'a, T: Copy, U>(
+    vars: &StarkFrameTyped<BltTaken<Expr<'a, T>>, Vec<U>>,
+) -> ConstraintBuilder<Expr<'a, T>> {
+    let lv = vars.local_values;
+    let mut constraints = ConstraintBuilder::default();
+
+    // All our other requirements are lookups with `is_running` as their filter.
+    constraints.always(lv.is_running.is_binary());
+
+    constraints
+}
+
+impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for BltTakenStark<F, D> {
+    type EvaluationFrame<FE, P, const D2: usize> = StarkFrame<P, P::Scalar, COLUMNS, PUBLIC_INPUTS>
+
+  where
+      FE: FieldExtension<D2, BaseField = F>,
+      P: PackedField<Scalar = FE>;
+    type EvaluationFrameTarget =
+        StarkFrame<ExtensionTarget<D>, ExtensionTarget<D>, COLUMNS, PUBLIC_INPUTS>;
+
+    fn eval_packed_generic<FE, P, const D2: usize>(
+        &self,
+        vars: &Self::EvaluationFrame<FE, P, D2>,
+        constraint_consumer: &mut ConstraintConsumer<P>,
+    ) where
+        FE: FieldExtension<D2, BaseField = F>,
+        P: PackedField<Scalar = FE>, {
+        let expr_builder = ExprBuilder::default();
+        let vars = expr_builder.to_typed_starkframe(vars);
+        let constraints = generate_constraints(&vars);
+        build_packed(constraints, constraint_consumer);
+    }
+
+    fn eval_ext_circuit(
+        &self,
+        circuit_builder: &mut CircuitBuilder<F, D>,
+        vars: &Self::EvaluationFrameTarget,
+        constraint_consumer: &mut RecursiveConstraintConsumer<F, D>,
+    ) {
+        let expr_builder = ExprBuilder::default();
+        let constraints = generate_constraints(&expr_builder.to_typed_starkframe(vars));
+        build_ext(constraints, circuit_builder, constraint_consumer);
+    }
+
+    fn constraint_degree(&self) -> usize { 3 }
+}
-- 
2.43.0


From 046bd8f20325e564a855f9bc647f8ff2f8d48f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:58 +0000
Subject: [PATCH 41/41] fix: look up the byte and halfword that SB and SH mask
 out

---
 circuits/src/cpu/columns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index 4030f90..600dd57 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -425,7 +425,7 @@ pub fn lookup_for_storage_tables() -> TableWithTypedOutput<StorageDeviceCtl<Colu
 impl<T: core::ops::Add<Output = T>> OpSelectors<T> {
     #[must_use]
     pub fn ops_that_use_xor(self) -> T {
-        self.xor + self.or + self.and + self.srl + self.sll + self.sra
+        self.xor + self.or + self.and + self.srl + self.sll + self.sra + self.sb + self.sh
     }
 
     pub fn ops_that_shift(self) -> T { self.sll + self.srl + self.sra }
-- 
2.43.0

