From 9907fc5b5ea2ba8511c3b6e7267ae1002003f19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 1/9] fix: ISA simulator reports out-of-range fetches and data
 accesses as errors

Address arithmetic wraps modulo 2^64, and an instruction or an 8-byte access that is
not wholly inside memory is an error instead of an index or overflow panic.
---
 sim/src/isa.rs | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/sim/src/isa.rs b/sim/src/isa.rs
index cb8d718..eb0b1da 100644
--- a/sim/src/isa.rs
+++ b/sim/src/isa.rs
@@ -231,7 +231,19 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
     #[inline]
     fn checked_add_pc(pc: usize, n: usize) -> anyhow::Result<usize> {
-        pc.checked_add(n).ok_or(anyhow::anyhow!("pc overflow"))
+        match pc.checked_add(n) {
+            Some(nex_pc) if nex_pc <= BIN_SIZE => Ok(nex_pc),
+            _ => anyhow::bail!("instruction exceeds the memory: {:#x}", pc),
+        }
+    }
+
+    // check the address of an 8-byte memory access
+    #[inline]
+    fn ensure_addr(addr: u64) -> anyhow::Result<usize> {
+        if addr > (BIN_SIZE - 8) as u64 {
+            anyhow::bail!("invalid memory address: {:#x}", addr);
+        }
+        Ok(addr as usize)
     }
 
     #[inline]
@@ -257,6 +269,9 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
     loop {
         n_insts += 1;
+        if pc >= BIN_SIZE {
+            anyhow::bail!("invalid program counter: {:#x}", pc);
+        }
         let icode = bin[pc] >> 4;
         let ifun = bin[pc] & 0xf;
 
@@ -348,10 +363,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let rb = ensure_reg(bin[pc + 1] & 0xf)?;
                 let v = get_u64(&bin[(pc + 2)..(pc + 10)]);
 
-                let addr = (reg_file[rb] as i64 + v as i64) as usize;
-                if addr >= BIN_SIZE {
-                    anyhow::bail!("invalid memory address: {:#x}", addr);
-                }
+                let addr = ensure_addr(reg_file[rb].wrapping_add(v))?;
                 put_u64(&mut bin[addr..(addr + 8)], reg_file[ra]);
 
                 nex_pc
@@ -365,10 +377,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let rb = ensure_reg(bin[pc + 1] & 0xf)?;
                 let v = get_u64(&bin[(pc + 2)..(pc + 10)]);
 
-                let addr = (reg_file[rb] as i64 + v as i64) as usize;
-                if addr >= BIN_SIZE {
-                    anyhow::bail!("invalid memory address: {:#x}", addr);
-                }
+                let addr = ensure_addr(reg_file[rb].wrapping_add(v))?;
                 reg_file[ra] = get_u64(&bin[addr..(addr + 8)]);
 
                 nex_pc
@@ -402,6 +411,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 }
             }
             inst_code::CALL => {
+                let nex_pc = checked_add_pc(pc, 9)?;
                 check_ifun_zero(inst_code::CALL, ifun)?;
 
                 let v = get_u64(&bin[(pc + 1)..(pc + 9)]);
@@ -409,10 +419,8 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
                 let rsp = get_rsp(&mut reg_file);
                 *rsp = rsp.checked_sub(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
-                put_u64(
-                    &mut bin[(*rsp as usize)..(*rsp as usize + 8)],
-                    pc as u64 + 9,
-                );
+                let addr = ensure_addr(*rsp)?;
+                put_u64(&mut bin[addr..(addr + 8)], nex_pc as u64);
 
                 v as usize
             }
@@ -421,7 +429,8 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 printi!(inst, end);
 
                 let rsp = get_rsp(&mut reg_file);
-                let v = get_u64(&bin[(*rsp as usize)..(*rsp as usize + 8)]);
+                let addr = ensure_addr(*rsp)?;
+                let v = get_u64(&bin[addr..(addr + 8)]);
 
                 *rsp = rsp.checked_add(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
 
@@ -437,7 +446,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
                 let rsp = get_rsp(&mut reg_file);
                 *rsp = rsp.checked_sub(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
-                let new_rsp = *rsp as usize;
+                let new_rsp = ensure_addr(*rsp)?;
                 put_u64(&mut bin[new_rsp..(new_rsp + 8)], va);
 
                 nex_pc
@@ -450,7 +459,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let ra = ensure_reg(bin[pc + 1] >> 4)?;
 
                 let rsp = get_rsp(&mut reg_file);
-                let old_rsp = *rsp as usize;
+                let old_rsp = ensure_addr(*rsp)?;
                 *rsp = rsp.checked_add(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
                 reg_file[ra] = get_u64(&bin[old_rsp..(old_rsp + 8)]);
 
-- 
2.43.0


From 59626bff4bf584cd9519bf26f6fe6bd49adcfd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 2/9] fix: parse_literal handles the sign in front of a number

The sign was looked for at the end of the text, so -0x10 was rejected, 5- was accepted
and the lowest numbers overflowed.
---
 sim/src/utils.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/sim/src/utils.rs b/sim/src/utils.rs
index 6d90d67..0ca8b9f 100644
--- a/sim/src/utils.rs
+++ b/sim/src/utils.rs
@@ -14,14 +14,15 @@ pub const B: Style = Style::new().bold();
 /// For decimal number, it should be a valid i64.
 /// For hexadecimal number, it should be prefixed with "0x" and in range of u64.
 pub fn parse_literal(s: &str) -> Option<u64> {
-    let (sign, s) = s.strip_suffix("-").map(|s| (-1, s)).unwrap_or((1, s));
-    if let Ok(r) = s.parse::<i64>() {
-        return Some((r * sign) as u64);
-    }
-    if let Ok(r) = u64::from_str_radix(s.strip_prefix("0x")?, 16) {
-        return Some((r as i64 * sign) as u64);
-    }
-    None
+    let (negative, digits) = match s.strip_prefix('-') {
+        Some(digits) => (true, digits),
+        None => (false, s),
+    };
+    let Some(hex) = digits.strip_prefix("0x") else {
+        return s.parse::<i64>().ok().map(|r| r as u64);
+    };
+    let r = u64::from_str_radix(hex, 16).ok()?;
+    Some(if negative { r.wrapping_neg() } else { r })
 }
 
 /// Get 64-bit unsigned integer value in little endian order.
-- 
2.43.0


From 8d8148d53fc715c80e3944e218be3b4c3ee584bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 3/9] fix: the PC incrementer wraps around instead of panicking

A mispredicted or returned-to address near 2^64 overflowed the addition and
aborted the simulator.
---
 sim/src/architectures/hardware_pipe.rs | 6 +++---
 sim/src/architectures/hardware_seq.rs  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index 980fc67..c8c4456 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -80,9 +80,9 @@ define_units! {
             new_pc: u64
         )
     } {
-        let mut x = old_pc + 1;
-        if need_regids { x += 1; }
-        if need_valC { x += 8; }
+        let mut x = old_pc.wrapping_add(1);
+        if need_regids { x = x.wrapping_add(1); }
+        if need_valC { x = x.wrapping_add(8); }
         *new_pc = x;
     }
 
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index 47467d6..3a39e75 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -77,9 +77,9 @@ define_units! {
             new_pc: u64
         )
     } {
-        let mut x = old_pc + 1;
-        if need_regids { x += 1; }
-        if need_valC { x += 8; }
+        let mut x = old_pc.wrapping_add(1);
+        if need_regids { x = x.wrapping_add(1); }
+        if need_valC { x = x.wrapping_add(8); }
         *new_pc = x;
     }
 
-- 
2.43.0


From 4afd71178f43313f605bbe491f77ad1c4d85ce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 4/9] fix: data memory accepts the last word and survives huge
 addresses

Addresses of 2^64 - 8 and above overflowed the bounds check, and the last
8-byte word of memory was reported as an invalid address.
---
 sim/src/architectures/hardware_pipe.rs | 2 +-
 sim/src/architectures/hardware_seq.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index c8c4456..30458a4 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -165,7 +165,7 @@ define_units! {
         )
         binary: MemData
     } {
-        if addr + 8 >= MEM_SIZE as u64 {
+        if addr > (MEM_SIZE - 8) as u64 {
             *dataout = 0;
             *error = true;
             return
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index 3a39e75..73dd76a 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -152,7 +152,7 @@ define_units! {
         )
         binary: MemData
     } {
-        if addr + 8 >= MEM_SIZE as u64 {
+        if addr > (MEM_SIZE - 8) as u64 {
             *dataout = 0;
             *error = true;
             return
-- 
2.43.0


From e42b4ef4373eef50f70555c48c0e745ba7eb4dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 5/9] fix: instruction memory clears its error signal and
 bounds the fetch by the instruction

The error output was never reset, so that one squashed out-of-range fetch in
the pipelined processor marked every later instruction as faulty. Fetches near
2^64 overflowed the bounds check, and short instructions in the last nine bytes
of memory were reported as invalid addresses.
---
 sim/src/architectures/hardware_pipe.rs | 20 +++++++++++---------
 sim/src/architectures/hardware_seq.rs  | 20 +++++++++++---------
 sim/src/isa.rs                         | 11 +++++++++++
 3 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index 30458a4..6957ab2 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -9,7 +9,7 @@ use crate::{
     define_units,
     framework::{HardwareUnits, MemData, MEM_SIZE},
     isa::{
-        inst_code,
+        inst_code, inst_len,
         reg_code::{self, *},
         RegFile,
     },
@@ -34,14 +34,16 @@ define_units! {
         binary: MemData
     } {
         let binary: &[u8; MEM_SIZE] = &binary.read();
-        if pc + 10 > MEM_SIZE as u64 {
-            *error = true;
-        } else {
-            let pc = pc as usize;
-            let icode_ifun = binary[pc];
-            *icode = icode_ifun >> 4;
-            *ifun = icode_ifun & 0xf;
-            *align = binary[pc+1..pc+10].try_into().expect("fail to load 9 bytes from imem");
+        *error = true;
+        if pc < MEM_SIZE as u64 {
+            let inst = &binary[pc as usize..];
+            *icode = inst[0] >> 4;
+            *ifun = inst[0] & 0xf;
+            for (i, byte) in align.iter_mut().enumerate() {
+                *byte = inst.get(i + 1).copied().unwrap_or(0);
+            }
+            // only the instruction itself has to be in memory
+            *error = inst_len(*icode) > inst.len();
         }
 
         if *icode == inst_code::CALL {
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index 73dd76a..5bca2e1 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -6,7 +6,7 @@ use crate::{
     define_units,
     framework::{HardwareUnits, MemData, MEM_SIZE},
     isa::{
-        inst_code,
+        inst_code, inst_len,
         reg_code::{self, *},
         RegFile,
     },
@@ -31,14 +31,16 @@ define_units! {
         binary: MemData
     } {
         let binary: &[u8; MEM_SIZE] = &binary.read();
-        if pc + 10 > MEM_SIZE as u64 {
-            *error = true;
-        } else {
-            let pc = pc as usize;
-            let icode_ifun = binary[pc];
-            *icode = icode_ifun >> 4;
-            *ifun = icode_ifun & 0xf;
-            *align = binary[pc+1..pc+10].try_into().expect("fail to load 9 bytes from imem");
+        *error = true;
+        if pc < MEM_SIZE as u64 {
+            let inst = &binary[pc as usize..];
+            *icode = inst[0] >> 4;
+            *ifun = inst[0] & 0xf;
+            for (i, byte) in align.iter_mut().enumerate() {
+                *byte = inst.get(i + 1).copied().unwrap_or(0);
+            }
+            // only the instruction itself has to be in memory
+            *error = inst_len(*icode) > inst.len();
         }
 
         if *icode == inst_code::CALL {
diff --git a/sim/src/isa.rs b/sim/src/isa.rs
index eb0b1da..d2a9b5c 100644
--- a/sim/src/isa.rs
+++ b/sim/src/isa.rs
@@ -43,6 +43,17 @@ define_code! {
     IOPQ = 0xc;
 }
 
+/// Length of an instruction in bytes. Invalid instructions consist of a single byte.
+pub fn inst_len(icode: u8) -> usize {
+    use inst_code::*;
+    match icode {
+        CMOVX | OPQ | PUSHQ | POPQ => 2,
+        JX | CALL => 9,
+        IRMOVQ | RMMOVQ | MRMOVQ | IOPQ => 10,
+        _ => 1,
+    }
+}
+
 define_code! {
     @mod reg_code;
     @type u8;
-- 
2.43.0


From 47ba934dd7c7a19b4d69543ebff5d3be927a1d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 6/9] fix: pipe_std does not forward to an absent base register

A memory access without base register (rB = F) got the ALU result of a preceding
instruction that writes no register as its base, unlike on the other processors.
---
 sim/src/architectures/builtin/pipe_std.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/src/architectures/builtin/pipe_std.rs b/sim/src/architectures/builtin/pipe_std.rs
index 6f592b9..dccd77a 100644
--- a/sim/src/architectures/builtin/pipe_std.rs
+++ b/sim/src/architectures/builtin/pipe_std.rs
@@ -192,6 +192,7 @@ u64 d_valA = [
 ];
 
 u64 d_valB = [
+    d_srcB == RNONE : d_rvalB; // No register to forward (no base register)
     d_srcB == e_dstE : e_valE; // Forward valE from execute
     d_srcB == M.dstM : m_valM; // Forward valM from memory
     d_srcB == M.dstE : M.valE; // Forward valE from memory
-- 
2.43.0


From eecf3292c12820fec1a263033d9d82f8a051ccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:51 +0000
Subject: [PATCH 7/9] fix: take the operation of OPq and iOPq from the mnemonic
 only

The whole instruction text was searched for the names, so that
'iaddq andq_mask, %rax' was assembled as iandq.
---
 sim/src/asm/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sim/src/asm/mod.rs b/sim/src/asm/mod.rs
index 78c100d..151001a 100644
--- a/sim/src/asm/mod.rs
+++ b/sim/src/asm/mod.rs
@@ -121,13 +121,15 @@ impl From<&str> for CondFn {
 
 impl OpFn {
     fn from_instname(value: &str) -> Self {
-        if value.contains("andq") {
+        // the operands must not be taken for the name
+        let name = value.strip_prefix('i').unwrap_or(value);
+        if name.starts_with("andq") {
             Self::AND
-        } else if value.contains("addq") {
+        } else if name.starts_with("addq") {
             Self::ADD
-        } else if value.contains("subq") {
+        } else if name.starts_with("subq") {
             Self::SUB
-        } else if value.contains("xorq") {
+        } else if name.starts_with("xorq") {
             Self::XOR
         } else {
             panic!("invalid")
-- 
2.43.0


From 77d6d0f3c11c41f3a8a330d7b865b423140a47e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:27 +0000
Subject: [PATCH 8/9] fix: report numerals out of range as assembly errors

The conversion of operands and directives panicked on a numeral accepted by
the grammar that does not fit 64 bits.
---
 sim/src/asm/mod.rs | 59 ++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/sim/src/asm/mod.rs b/sim/src/asm/mod.rs
index 151001a..68e471f 100644
--- a/sim/src/asm/mod.rs
+++ b/sim/src/asm/mod.rs
@@ -141,20 +141,26 @@ impl OpFn {
 #[derive(Debug, Clone, Copy)]
 pub struct Addr(pub Option<u64>, pub Reg);
 
-impl From<ParseInput<'_>> for Addr {
-    fn from(value: ParseInput<'_>) -> Self {
+/// Convert a numeral accepted by the grammar, which may still be out of range.
+fn parse_num(s: &str) -> Result<u64> {
+    utils::parse_literal(s).with_context(|| format!("number literal out of range: {}", s))
+}
+
+impl TryFrom<ParseInput<'_>> for Addr {
+    type Error = anyhow::Error;
+
+    fn try_from(value: ParseInput<'_>) -> Result<Self> {
         let mut it = value.into_iter();
         let num_or_reg = it.next().expect("expect number or register");
-        if num_or_reg.as_rule() == Rule::reg {
+        Ok(if num_or_reg.as_rule() == Rule::reg {
             // no displacement
             let reg = Reg::from(num_or_reg.pair);
             Self(None, reg)
         } else {
-            let s = num_or_reg.as_str();
-            let num = utils::parse_literal(s).expect("fail to parse number literal") as i64;
+            let num = parse_num(num_or_reg.as_str())?;
             let reg = it.next_reg();
-            Self(Some(num as u64), reg)
-        }
+            Self(Some(num), reg)
+        })
     }
 }
 
@@ -165,16 +171,17 @@ pub enum Imm {
     Label(String),
 }
 
-impl From<ParseInput<'_>> for Imm {
-    fn from(value: ParseInput<'_>) -> Self {
-        if value.as_rule() == Rule::label {
+impl TryFrom<ParseInput<'_>> for Imm {
+    type Error = anyhow::Error;
+
+    fn try_from(value: ParseInput<'_>) -> Result<Self> {
+        Ok(if value.as_rule() == Rule::label {
             Self::Label(value.as_str().to_string())
         } else {
             let s = value.as_str();
             let s = s.strip_prefix('$').unwrap_or(s);
-            let num = utils::parse_literal(s).expect("fail to parse number literal") as i64;
-            Self::Num(num)
-        }
+            Self::Num(parse_num(s)? as i64)
+        })
     }
 }
 
@@ -299,13 +306,13 @@ impl<'a> ParseInputs<'a> {
     }
 
     /// Parse next token as address
-    fn next_addr(&mut self) -> Addr {
-        Addr::from(self.next().expect("expect address token"))
+    fn next_addr(&mut self) -> Result<Addr> {
+        Addr::try_from(self.next().expect("expect address token"))
     }
 
     /// Parse next token as immediate
-    fn next_imm(&mut self) -> Imm {
-        Imm::from(self.next().expect("expect immediate number token"))
+    fn next_imm(&mut self) -> Result<Imm> {
+        Imm::try_from(self.next().expect("expect immediate number token"))
     }
 }
 
@@ -368,19 +375,19 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     cur_addr += 2
                 }
                 Rule::i_mrmovq => {
-                    let addr = it.next_addr();
+                    let addr = it.next_addr()?;
                     let reg = it.next_reg();
                     src_info.inst = Some(Inst::MRMOVQ(addr, reg));
                     cur_addr += 10
                 }
                 Rule::i_rmmovq => {
                     let reg = it.next_reg();
-                    let addr = it.next_addr();
+                    let addr = it.next_addr()?;
                     src_info.inst = Some(Inst::RMMOVQ(reg, addr));
                     cur_addr += 10
                 }
                 Rule::i_irmovq => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     let reg = it.next_reg();
                     src_info.inst = Some(Inst::IRMOVQ(reg, imm));
                     cur_addr += 10
@@ -393,7 +400,7 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     cur_addr += 2
                 }
                 Rule::i_iopq => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     let reg = it.next_reg();
                     let op_fn = OpFn::from_instname(tok2.as_str());
                     src_info.inst = Some(Inst::IOPQ(op_fn, imm, reg));
@@ -401,12 +408,12 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                 }
                 Rule::i_jx => {
                     let cond_fn = CondFn::from(it.next_str());
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     src_info.inst = Some(Inst::JX(cond_fn, imm));
                     cur_addr += 9
                 }
                 Rule::i_call => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     src_info.inst = Some(Inst::CALL(imm));
                     cur_addr += 9
                 }
@@ -422,12 +429,12 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                 }
                 Rule::d_pos => {
                     let s = it.next_str();
-                    let num = utils::parse_literal(s).expect("fail to parse number literal");
+                    let num = parse_num(s)?;
                     cur_addr = num;
                     src_info.addr = Some(cur_addr) // override
                 }
                 Rule::d_data => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     if tok2.as_str().starts_with(".quad") {
                         src_info.data = Some((8, imm));
                         cur_addr += 8;
@@ -446,7 +453,7 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                 }
                 Rule::d_align => {
                     let s = it.next_str();
-                    let num = utils::parse_literal(s).expect("fail to parse number literal");
+                    let num = parse_num(s)?;
                     anyhow::ensure!(num.count_ones() == 1, "invalid align number");
                     if cur_addr % num > 0 {
                         cur_addr = cur_addr / num * num + num // ceil
-- 
2.43.0


From ad95c7ac8cc6d3f5c9263b52ac1bff4238b341d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:36 +0000
Subject: [PATCH 9/9] fix: report addresses outside of memory as assembly
 errors

.pos and .align could move the location counter beyond the image or make it
overflow, after which the assembler panicked.
---
 sim/src/asm/mod.rs | 10 ++++++++--
 sim/src/object.rs  |  7 +++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/sim/src/asm/mod.rs b/sim/src/asm/mod.rs
index 68e471f..e3b1201 100644
--- a/sim/src/asm/mod.rs
+++ b/sim/src/asm/mod.rs
@@ -146,6 +146,12 @@ fn parse_num(s: &str) -> Result<u64> {
     utils::parse_literal(s).with_context(|| format!("number literal out of range: {}", s))
 }
 
+/// Addresses are kept below 2^63, so that advancing over a line can not overflow.
+fn check_addr(addr: Option<u64>) -> Result<u64> {
+    addr.filter(|addr| *addr <= i64::MAX as u64)
+        .context("address out of range")
+}
+
 impl TryFrom<ParseInput<'_>> for Addr {
     type Error = anyhow::Error;
 
@@ -430,7 +436,7 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                 Rule::d_pos => {
                     let s = it.next_str();
                     let num = parse_num(s)?;
-                    cur_addr = num;
+                    cur_addr = check_addr(Some(num))?;
                     src_info.addr = Some(cur_addr) // override
                 }
                 Rule::d_data => {
@@ -456,7 +462,7 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     let num = parse_num(s)?;
                     anyhow::ensure!(num.count_ones() == 1, "invalid align number");
                     if cur_addr % num > 0 {
-                        cur_addr = cur_addr / num * num + num // ceil
+                        cur_addr = check_addr(cur_addr.checked_next_multiple_of(num))?;
                     }
                     src_info.addr = Some(cur_addr) // override
                 }
diff --git a/sim/src/object.rs b/sim/src/object.rs
index 42c869a..625be3d 100644
--- a/sim/src/object.rs
+++ b/sim/src/object.rs
@@ -56,6 +56,13 @@ impl LineInfo {
     pub fn write_object(&self, obj: &mut Object) -> anyhow::Result<()> {
         if let Some(addr) = self.addr {
             let addr = addr as usize;
+            let size = self.inst.as_ref().map_or(0, |inst| inst.len())
+                + self.data.as_ref().map_or(0, |(sz, _)| *sz as usize);
+            anyhow::ensure!(
+                size == 0 || addr + size <= BIN_SIZE,
+                "address out of memory: {:#x}",
+                addr
+            );
             if let Some(inst) = &self.inst {
                 match inst.desymbol(&obj.symbols)? {
                     asm::Inst::HALT => obj.binary[addr] = h2!(inst.icode(), 0),
-- 
2.43.0

