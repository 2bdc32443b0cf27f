From e6316c24798222089e1b0d20ab828852e9ff8503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 01/81] Add simulator step seam and read-only observers behind
 cfg(carron_sim)

---
 src/cpu.rs | 11 +++++++++++
 src/lib.rs |  9 +++++++++
 src/sim.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 3 files changed, 61 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/cpu.rs b/src/cpu.rs
index 1c7ce89..fbb9342 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -71,6 +71,17 @@ pub struct Cpu {
     priv_lv: PrivilegedLevel,
 }
 
+#[cfg(carron_sim)]
+impl Cpu {
+    pub fn sim_csr(&self, num: usize) -> u64 {
+        self.csrs.read(Some(num)).unwrap()
+    }
+
+    pub fn sim_privilege(&self) -> u64 {
+        self.priv_lv as u64
+    }
+}
+
 impl Cpu {
     pub fn new(loader: elfload::ElfLoader, args: &Arguments, isa: Isa) -> Self {
         // initialize bus and get the entry point
diff --git a/src/lib.rs b/src/lib.rs
index 7ca75c8..afe7296 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,9 +1,13 @@
+#![allow(unexpected_cfgs)] // cfg(carron_sim): deterministic simulator seam, off by default
+
 pub mod bus;
 pub mod cmdline;
 pub mod cpu;
 pub mod elfload;
 mod fesvr;
 pub mod log;
+#[cfg(carron_sim)]
+pub mod sim;
 
 use cmdline::Arguments;
 use cpu::{Cpu, TrapCause};
@@ -43,6 +47,11 @@ impl Emulator {
     pub fn emulation(&mut self) {
         loop {
             for _ in 0..INTERLEAVE {
+                #[cfg(carron_sim)]
+                if sim::step(self) {
+                    return;
+                }
+
                 *crate::log::INST_COUNT.lock().unwrap() += 1;
                 log::diffln!("0x{:016x}", self.cpu.pc());
 
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..08c694e
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,41 @@
+//! Seam for the deterministic simulator; compiled only with `--cfg carron_sim`.
+//! The simulator is called once before every iteration of the run loop.
+
+use crate::cpu::Cpu;
+use crate::Emulator;
+use std::cell::Cell;
+
+pub type StepHook = fn(&mut Emulator) -> bool;
+
+thread_local! {
+    static STEP_HOOK: Cell<Option<StepHook>> = Cell::new(None);
+}
+
+/// Install the function to call before every iteration; it returns true to
+/// leave the run loop.
+pub fn set_step_hook(hook: Option<StepHook>) {
+    STEP_HOOK.with(|h| h.set(hook));
+}
+
+pub(crate) fn step(emu: &mut Emulator) -> bool {
+    match STEP_HOOK.with(|h| h.get()) {
+        Some(hook) => hook(emu),
+        None => false,
+    }
+}
+
+/// Read-only view of state that has no public accessor.
+pub trait Observe {
+    fn csr(&self, num: usize) -> u64;
+    fn privilege(&self) -> u64;
+}
+
+impl Observe for Cpu {
+    fn csr(&self, num: usize) -> u64 {
+        self.sim_csr(num)
+    }
+
+    fn privilege(&self) -> u64 {
+        self.sim_privilege()
+    }
+}
-- 
2.43.0


From 1fb78a4a3bff43f43e3867f0eebcee436b4e08e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 02/81] fix: SLT compares all 64 bits on RV64

---
 src/cpu/execution/inst_32/base_i.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index c6f4465..98fac65 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -227,7 +227,14 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_SLT => {
             cpu.regs.write(
                 inst.rd,
-                ((cpu.regs.read(inst.rs1) as i32) < (cpu.regs.read(inst.rs2) as i32)) as u64,
+                match *cpu.isa {
+                    Isa::Rv32 => {
+                        ((cpu.regs.read(inst.rs1) as i32) < (cpu.regs.read(inst.rs2) as i32)) as u64
+                    }
+                    Isa::Rv64 => {
+                        ((cpu.regs.read(inst.rs1) as i64) < (cpu.regs.read(inst.rs2) as i64)) as u64
+                    }
+                },
             );
         }
         OpecodeKind::OP_SLTU => {
-- 
2.43.0


From 118105cd593acb24f4f8945e845c273e7f5b911e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:24 +0000
Subject: [PATCH 03/81] fix: RV32 register shifts use only the low five bits of
 the amount

---
 src/cpu/execution/inst_32/base_i.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index 98fac65..61182a1 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -221,8 +221,13 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 .write(inst.rd, cpu.regs.read(inst.rs1) - cpu.regs.read(inst.rs2));
         }
         OpecodeKind::OP_SLL => {
-            cpu.regs
-                .write(inst.rd, cpu.regs.read(inst.rs1) << cpu.regs.read(inst.rs2));
+            cpu.regs.write(
+                inst.rd,
+                match *cpu.isa {
+                    Isa::Rv32 => cpu.regs.read(inst.rs1) << (cpu.regs.read(inst.rs2) & 0b11111),
+                    Isa::Rv64 => cpu.regs.read(inst.rs1) << (cpu.regs.read(inst.rs2) & 0b111111),
+                },
+            );
         }
         OpecodeKind::OP_SLT => {
             cpu.regs.write(
@@ -248,18 +253,25 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 .write(inst.rd, cpu.regs.read(inst.rs1) ^ cpu.regs.read(inst.rs2));
         }
         OpecodeKind::OP_SRL => {
-            cpu.regs
-                .write(inst.rd, cpu.regs.read(inst.rs1) >> cpu.regs.read(inst.rs2));
+            cpu.regs.write(
+                inst.rd,
+                match *cpu.isa {
+                    Isa::Rv32 => cpu.regs.read(inst.rs1) >> (cpu.regs.read(inst.rs2) & 0b11111),
+                    Isa::Rv64 => cpu.regs.read(inst.rs1) >> (cpu.regs.read(inst.rs2) & 0b111111),
+                },
+            );
         }
         OpecodeKind::OP_SRA => {
             cpu.regs.write(
                 inst.rd,
                 match *cpu.isa {
                     Isa::Rv32 => {
-                        ((cpu.regs.read(inst.rs1) as i32) >> cpu.regs.read(inst.rs2)) as u64
+                        ((cpu.regs.read(inst.rs1) as i32) >> (cpu.regs.read(inst.rs2) & 0b11111))
+                            as u64
                     }
                     Isa::Rv64 => {
-                        ((cpu.regs.read(inst.rs1) as i64) >> cpu.regs.read(inst.rs2)) as u64
+                        ((cpu.regs.read(inst.rs1) as i64) >> (cpu.regs.read(inst.rs2) & 0b111111))
+                            as u64
                     }
                 },
             );
-- 
2.43.0


From a976f9c982a6dc699db0d84a92223f9e9115e226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 04/81] fix: REM uses 64-bit operands on RV64, DIVUW/REMUW test
 the 32-bit divisor for zero

---
 src/cpu/execution/inst_32/m_extension.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cpu/execution/inst_32/m_extension.rs b/src/cpu/execution/inst_32/m_extension.rs
index fed0360..408b05e 100644
--- a/src/cpu/execution/inst_32/m_extension.rs
+++ b/src/cpu/execution/inst_32/m_extension.rs
@@ -96,8 +96,13 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             } else if rs1 as i64 == i64::MIN && rs2 as i64 == -1 {
                 cpu.regs.write(inst.rd, 0);
             } else {
-                cpu.regs
-                    .write(inst.rd, (rs1 as i32 as i64 % rs2 as i32 as i64) as u64);
+                cpu.regs.write(
+                    inst.rd,
+                    match *cpu.isa {
+                        Isa::Rv32 => (rs1 as i32 as i64 % rs2 as i32 as i64) as u64,
+                        Isa::Rv64 => (rs1 as i64 % rs2 as i64) as u64,
+                    },
+                );
             }
         }
         OpecodeKind::OP_REMU => {
@@ -134,7 +139,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             }
         }
         OpecodeKind::OP_DIVUW => {
-            if rs2 == 0 {
+            if rs2 as u32 == 0 {
                 cpu.regs.write(inst.rd, (2i32.pow(32) - 1) as u64);
             } else {
                 cpu.regs
@@ -142,7 +147,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             }
         }
         OpecodeKind::OP_REMUW => {
-            if rs2 == 0 {
+            if rs2 as u32 == 0 {
                 cpu.regs.write(inst.rd, rs1 as i32 as u64);
             } else {
                 cpu.regs
-- 
2.43.0


From ee8c7cb69b752230346f7af6e8f54589ab1a13cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:15 +0000
Subject: [PATCH 05/81] fix: ECALL and EBREAK no longer skip the first handler
 instruction when the vector is their own pc

---
 src/cpu/execution/inst_32/base_i.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index 61182a1..73aee32 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -288,18 +288,19 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             // nop (pipeline are not yet implemented)
         }
         OpecodeKind::OP_ECALL => {
-            cpu.trap(
-                0,
+            return Err((
+                Some(0),
                 match cpu.priv_lv() {
                     PrivilegedLevel::User => TrapCause::UmodeEcall,
                     PrivilegedLevel::Supervisor => TrapCause::SmodeEcall,
                     PrivilegedLevel::Machine => TrapCause::MmodeEcall,
                     _ => panic!("cannot enviroment call in current privileged mode."),
                 },
-            );
+                "environment call".to_string(),
+            ));
         }
         OpecodeKind::OP_EBREAK => {
-            cpu.trap(cpu.pc(), TrapCause::Breakpoint);
+            return Err((Some(cpu.pc()), TrapCause::Breakpoint, "ebreak".to_string()));
         }
         OpecodeKind::OP_LWU => {
             let load_addr = cpu.trans_addr(
-- 
2.43.0


From 45b051fb70df01da96b414ce68f44ae60aad1bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 06/81] fix: jumps, taken branches and xRET whose target is
 their own pc stay there

---
 src/cpu/execution/inst_16.rs             | 15 +++++++++------
 src/cpu/execution/inst_16/c_extension.rs |  4 ++++
 src/cpu/execution/inst_32.rs             | 19 +++++++++++++------
 src/cpu/execution/inst_32/base_i.rs      | 16 ++++++++++++++++
 4 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/src/cpu/execution/inst_16.rs b/src/cpu/execution/inst_16.rs
index b222c4e..f01bd21 100644
--- a/src/cpu/execution/inst_16.rs
+++ b/src/cpu/execution/inst_16.rs
@@ -1,6 +1,6 @@
 mod c_extension;
 use super::Cpu;
-use crate::cpu::instruction::Instruction;
+use crate::cpu::instruction::{Instruction, OpecodeKind};
 use crate::cpu::TrapCause;
 
 pub fn exe_cinst(
@@ -9,14 +9,17 @@ pub fn exe_cinst(
 ) -> Result<(), (Option<u64>, TrapCause, String)> {
     const INST_SIZE: u64 = 2;
 
-    // store previous program counter for excluding branch case
-    let prev_pc = cpu.pc();
-
     c_extension::exec(inst, cpu)?;
 
     // add the program counter when it isn't a branch instruction
-    if cpu.pc() == prev_pc {
-        cpu.add2pc(INST_SIZE as i32);
+    match inst.opc {
+        OpecodeKind::OP_C_J
+        | OpecodeKind::OP_C_JAL
+        | OpecodeKind::OP_C_JR
+        | OpecodeKind::OP_C_JALR
+        | OpecodeKind::OP_C_BEQZ
+        | OpecodeKind::OP_C_BNEZ => (),
+        _ => cpu.add2pc(INST_SIZE as i32),
     }
 
     Ok(())
diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index 68a50bf..d26c85a 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -127,11 +127,15 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_C_BEQZ => {
             if cpu.regs.read(inst.rs1) == 0 {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_C_BNEZ => {
             if cpu.regs.read(inst.rs1) != 0 {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_C_JR => {
diff --git a/src/cpu/execution/inst_32.rs b/src/cpu/execution/inst_32.rs
index 727fe06..8fdb3a2 100644
--- a/src/cpu/execution/inst_32.rs
+++ b/src/cpu/execution/inst_32.rs
@@ -4,15 +4,12 @@ mod m_extension;
 mod priv_extension;
 mod zicsr_extension;
 
-use crate::cpu::instruction::{Extensions, Instruction};
+use crate::cpu::instruction::{Extensions, Instruction, OpecodeKind};
 use crate::cpu::{Cpu, TrapCause};
 
 pub fn exe_inst(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapCause, String)> {
     const INST_SIZE: u64 = 4;
 
-    // store previous program counter for excluding branch case
-    let prev_pc = cpu.pc();
-
     match inst.opc_to_extension() {
         Extensions::BaseI => base_i::exec(inst, cpu)?,
         Extensions::A => a_extension::exec(inst, cpu)?,
@@ -23,8 +20,18 @@ pub fn exe_inst(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, T
     }
 
     // add the program counter when it isn't a branch instruction
-    if cpu.pc() == prev_pc {
-        cpu.add2pc(INST_SIZE as i32);
+    match inst.opc {
+        OpecodeKind::OP_JAL
+        | OpecodeKind::OP_JALR
+        | OpecodeKind::OP_BEQ
+        | OpecodeKind::OP_BNE
+        | OpecodeKind::OP_BLT
+        | OpecodeKind::OP_BGE
+        | OpecodeKind::OP_BLTU
+        | OpecodeKind::OP_BGEU
+        | OpecodeKind::OP_SRET
+        | OpecodeKind::OP_MRET => (),
+        _ => cpu.add2pc(INST_SIZE as i32),
     }
 
     Ok(())
diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index 73aee32..5634944 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -28,22 +28,30 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_BEQ => {
             if cpu.regs.read(inst.rs1) == cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_BNE => {
             if cpu.regs.read(inst.rs1) != cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_BLT => match *cpu.isa {
             Isa::Rv32 => {
                 if (cpu.regs.read(inst.rs1) as i32) < (cpu.regs.read(inst.rs2) as i32) {
                     cpu.add2pc(inst.imm.unwrap());
+                } else {
+                    cpu.add2pc(INST_SIZE as i32);
                 }
             }
             Isa::Rv64 => {
                 if (cpu.regs.read(inst.rs1) as i64) < (cpu.regs.read(inst.rs2) as i64) {
                     cpu.add2pc(inst.imm.unwrap());
+                } else {
+                    cpu.add2pc(INST_SIZE as i32);
                 }
             }
         },
@@ -51,22 +59,30 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             Isa::Rv32 => {
                 if (cpu.regs.read(inst.rs1) as i32) >= (cpu.regs.read(inst.rs2) as i32) {
                     cpu.add2pc(inst.imm.unwrap());
+                } else {
+                    cpu.add2pc(INST_SIZE as i32);
                 }
             }
             Isa::Rv64 => {
                 if (cpu.regs.read(inst.rs1) as i64) >= (cpu.regs.read(inst.rs2) as i64) {
                     cpu.add2pc(inst.imm.unwrap());
+                } else {
+                    cpu.add2pc(INST_SIZE as i32);
                 }
             }
         },
         OpecodeKind::OP_BLTU => {
             if cpu.regs.read(inst.rs1) < cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_BGEU => {
             if cpu.regs.read(inst.rs1) >= cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_LB => {
-- 
2.43.0


From a13c69725da1c335f6dc2a7a2ae649b3307b21fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:39 +0000
Subject: [PATCH 07/81] fix: C.EBREAK raises a breakpoint, C.JR clears the
 target's low bit

---
 src/cpu/decode/inst_16/c_extension.rs    |  5 ++++-
 src/cpu/execution/inst_16/c_extension.rs | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/cpu/decode/inst_16/c_extension.rs b/src/cpu/decode/inst_16/c_extension.rs
index 6a4eef8..ae98d39 100644
--- a/src/cpu/decode/inst_16/c_extension.rs
+++ b/src/cpu/decode/inst_16/c_extension.rs
@@ -99,7 +99,10 @@ fn quadrant2(
                 _ => Ok(OpecodeKind::OP_C_MV),
             },
             0b1 => match mi_flag {
-                0b0 => Ok(OpecodeKind::OP_C_EBREAK),
+                0b0 => match lo_flag {
+                    0b0 => Ok(OpecodeKind::OP_C_EBREAK),
+                    _ => Ok(OpecodeKind::OP_C_NOP), // HINT
+                },
                 _ => match lo_flag {
                     0b0 => Ok(OpecodeKind::OP_C_JALR),
                     _ => Ok(OpecodeKind::OP_C_ADD),
diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index d26c85a..9b43c1c 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -139,12 +139,18 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             }
         }
         OpecodeKind::OP_C_JR => {
-            cpu.update_pc(cpu.regs.read(inst.rs1));
+            cpu.update_pc(cpu.regs.read(inst.rs1) & !0x1);
         }
         OpecodeKind::OP_C_MV => {
             cpu.regs.write(inst.rd, cpu.regs.read(inst.rs2));
         }
-        OpecodeKind::OP_C_EBREAK => { /* NOP */ }
+        OpecodeKind::OP_C_EBREAK => {
+            return Err((
+                Some(cpu.pc()),
+                TrapCause::Breakpoint,
+                "c.ebreak".to_string(),
+            ));
+        }
         // -- rv64 --
         OpecodeKind::OP_C_LD => {
             let load_addr = cpu.trans_addr(
-- 
2.43.0


From c253a5cbf45a92df9f88f8dac74c3c5fd07b8177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 08/81] fix: vectored trap handling vectors by the taken
 interrupt's cause

---
 src/cpu/trap.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index 7bb99b3..13f36ad 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -145,6 +145,17 @@ impl Cpu {
         }
     }
 
+    // BASE in direct mode; in vectored mode interrupts go to BASE + 4 * cause
+    fn trap_vector(&self, tvec: u64, cause_of_trap: TrapCause) -> u64 {
+        const INTERRUPT: u64 = 1 << 31;
+        let cause = cause_of_trap as u64 & 0xffff_ffff;
+        if tvec & 0b1 == 1 && cause & INTERRUPT != 0 {
+            (tvec & !0b11) + 4 * (cause & !INTERRUPT)
+        } else {
+            tvec & !0b11
+        }
+    }
+
     pub fn trap(&mut self, tval_addr: u64, cause_of_trap: TrapCause) {
         let prev_priv = self.priv_lv();
 
@@ -154,8 +165,6 @@ impl Cpu {
             && (deleg & 1 << cause_of_trap as u32) != 0
         {
             self.set_priv_lv(PrivilegedLevel::Supervisor);
-            let scause = self.csrs.read(CSRname::scause.wrap()).unwrap();
-
             log::infoln!("delegated");
             self.csrs
                 .write(
@@ -191,15 +200,9 @@ impl Cpu {
                 .write_xstatus(PrivilegedLevel::Supervisor, Xstatus::SPP, prev_priv as u64); // set prev_priv to SPP
 
             let stvec = self.csrs.read(CSRname::stvec.wrap()).unwrap();
-            if stvec & 0b1 == 1 {
-                (stvec - 1) + 4 * scause.trailing_zeros() as u64
-            } else {
-                stvec
-            }
+            self.trap_vector(stvec, cause_of_trap)
         } else {
             self.set_priv_lv(PrivilegedLevel::Machine);
-            let mcause = self.csrs.read(CSRname::mcause.wrap()).unwrap();
-
             self.csrs
                 .write(
                     CSRname::mcause.wrap(),
@@ -234,11 +237,7 @@ impl Cpu {
                 .write_xstatus(PrivilegedLevel::Machine, Xstatus::MPP, prev_priv as u64); // set prev_priv to MPP
 
             let mtvec = self.csrs.read(CSRname::mtvec.wrap()).unwrap();
-            if mtvec & 0b1 == 1 {
-                (mtvec - 1) + 4 * mcause.trailing_zeros() as u64
-            } else {
-                mtvec
-            }
+            self.trap_vector(mtvec, cause_of_trap)
         };
 
         self.update_pc(new_pc);
-- 
2.43.0


From 0564528d31db9502e847baeb1c8de98ea8ed31bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 09/81] fix: sstatus, ustatus, sie and sip writes replace
 exactly the fields the view exposes

---
 src/cpu/csr.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index a77c9d8..79ea4fd 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -13,6 +13,7 @@ const MSTATUS: usize = CSRname::mstatus as usize;
 const SIE: usize = CSRname::sie as usize;
 const SIP: usize = CSRname::sip as usize;
 const SIESIPMASK: u64 = 0x0333;
+const UXL_SXL: u64 = 0b1111 << 32;
 const MHPMCOUNTER3: usize = CSRname::mhpmcounter3 as usize;
 
 pub struct CSRs {
@@ -52,16 +53,13 @@ impl CSRs {
     }
 
     fn umask(&self) -> u64 {
-        match *self.isa {
-            Isa::Rv32 => 0b10000000000011010111100100110011,
-            Isa::Rv64 => 0b100000000000000000000000000001100000000000011010111100100110011,
-        }
+        0b10001 // UPIE, UIE
     }
 
     fn smask(&self) -> u64 {
         match *self.isa {
-            Isa::Rv32 => 0b10000000000011010111100100110011,
-            Isa::Rv64 => 0b100000000000000000000000000001100000000000011010111100100110011,
+            Isa::Rv32 => 0b10000000000011011110000100110011,
+            Isa::Rv64 => 0b1000000000000000000000000000001100000000000011011110000100110011,
         }
     }
 
@@ -81,9 +79,9 @@ impl CSRs {
                     mask
                 }
             }
-            MSTATUS => match *self.isa {
+            MSTATUS | SSTATUS => match *self.isa {
                 Isa::Rv32 => mask,
-                Isa::Rv64 => mask & !(0b1111 << 32),
+                Isa::Rv64 => mask & !UXL_SXL,
             },
             MHPMCOUNTER3 => 0,
             _ => mask,
@@ -132,6 +130,11 @@ impl CSRs {
         Ok(())
     }
 
+    // replace only the bits of a CSR which are in the mask
+    fn write_masked(&mut self, dist: usize, src: u64, mask: u64) {
+        self.csrs[dist] = (self.csrs[dist] & !mask) | (src & mask);
+    }
+
     pub fn write(
         &mut self,
         dist: Option<usize>,
@@ -141,10 +144,10 @@ impl CSRs {
 
         let src = src.fix2regsz(&self.isa);
         match dist {
-            USTATUS => self.csrs[MSTATUS] |= src & self.umask(),
-            SSTATUS => self.csrs[MSTATUS] |= src & self.smask(),
-            SIE => self.csrs[CSRname::mie as usize] = src & SIESIPMASK,
-            SIP => self.csrs[CSRname::mip as usize] = src & SIESIPMASK,
+            USTATUS => self.write_masked(MSTATUS, src, self.umask()),
+            SSTATUS => self.write_masked(MSTATUS, src, self.smask() & !UXL_SXL),
+            SIE => self.write_masked(CSRname::mie as usize, src, SIESIPMASK),
+            SIP => self.write_masked(CSRname::mip as usize, src, SIESIPMASK),
             MISA => {
                 if *self.pc.borrow() % 4 != 0 {
                     let c_ext_bit = (self.csrs[MISA] >> 2) & 1;
-- 
2.43.0


From fbb3ec96b7a197ac96b7553ce8f88b4db9879445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:12 +0000
Subject: [PATCH 10/81] fix: mstatus.MPP never holds the reserved level that
 panics on MRET or MPRV access

---
 src/cpu/csr.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 79ea4fd..bfd33db 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -95,6 +95,7 @@ impl CSRs {
     ) -> Result<(), (Option<u64>, TrapCause, String)> {
         let dist = dist.unwrap();
 
+        let prev_mstatus = self.csrs[MSTATUS];
         let mask = self.mask_warl(dist, src.fix2regsz(&self.isa));
         if mask != 0 {
             match dist {
@@ -105,6 +106,7 @@ impl CSRs {
                 _ => self.csrs[dist] |= mask,
             }
         }
+        self.legalize_mpp(prev_mstatus);
 
         Ok(())
     }
@@ -116,6 +118,7 @@ impl CSRs {
     ) -> Result<(), (Option<u64>, TrapCause, String)> {
         let dist = dist.unwrap();
 
+        let prev_mstatus = self.csrs[MSTATUS];
         let mask = self.mask_warl(dist, src.fix2regsz(&self.isa));
         if mask != 0 {
             match dist {
@@ -126,10 +129,19 @@ impl CSRs {
                 _ => self.csrs[dist] &= !mask,
             }
         }
+        self.legalize_mpp(prev_mstatus);
 
         Ok(())
     }
 
+    // mstatus.MPP is WARL: 0b10 is not a privilege level, keep the previous one
+    fn legalize_mpp(&mut self, prev_mstatus: u64) {
+        const MPP: u64 = 0b11 << 11;
+        if self.csrs[MSTATUS] & MPP == 0b10 << 11 {
+            self.csrs[MSTATUS] = (self.csrs[MSTATUS] & !MPP) | (prev_mstatus & MPP);
+        }
+    }
+
     // replace only the bits of a CSR which are in the mask
     fn write_masked(&mut self, dist: usize, src: u64, mask: u64) {
         self.csrs[dist] = (self.csrs[dist] & !mask) | (src & mask);
@@ -142,6 +154,7 @@ impl CSRs {
     ) -> Result<(), (Option<u64>, TrapCause, String)> {
         let dist = dist.unwrap();
 
+        let prev_mstatus = self.csrs[MSTATUS];
         let src = src.fix2regsz(&self.isa);
         match dist {
             USTATUS => self.write_masked(MSTATUS, src, self.umask()),
@@ -163,6 +176,7 @@ impl CSRs {
             MHPMCOUNTER3 => (), // protect from any value
             other => self.csrs[other] = src,
         }
+        self.legalize_mpp(prev_mstatus);
         self.update_triggers(dist, src);
 
         Ok(())
-- 
2.43.0


From 02fd61cfda01ad11fb854ef21cba374579666f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:14 +0000
Subject: [PATCH 11/81] fix: a failing SC invalidates the reservation too

---
 src/cpu/execution/inst_32/a_extension.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cpu/execution/inst_32/a_extension.rs b/src/cpu/execution/inst_32/a_extension.rs
index 348c87d..725ca6d 100644
--- a/src/cpu/execution/inst_32/a_extension.rs
+++ b/src/cpu/execution/inst_32/a_extension.rs
@@ -64,6 +64,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 0);
             } else {
+                cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 1);
             }
         }
@@ -133,6 +134,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 0);
             } else {
+                cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 1);
             }
         }
-- 
2.43.0


From 5ca9da70b5ff3ca752fc80ecde26980f0a0130ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:17 +0000
Subject: [PATCH 12/81] fix: a faulting AMO leaves rd alone and reports a
 store/AMO fault

---
 src/cpu/execution/inst_32/a_extension.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/cpu/execution/inst_32/a_extension.rs b/src/cpu/execution/inst_32/a_extension.rs
index 725ca6d..098248f 100644
--- a/src/cpu/execution/inst_32/a_extension.rs
+++ b/src/cpu/execution/inst_32/a_extension.rs
@@ -1,6 +1,20 @@
 use crate::cpu::instruction::{Instruction, OpecodeKind};
 use crate::cpu::{Cpu, TransAlign, TransFor, TrapCause};
 
+// an AMO raises only store/AMO exceptions, its load half included
+fn store_amo_fault(
+    (addr, cause, msg): (Option<u64>, TrapCause, String),
+) -> (Option<u64>, TrapCause, String) {
+    let cause = match cause {
+        TrapCause::LoadAddrMisaligned => TrapCause::StoreAMOAddrMisaligned,
+        TrapCause::LoadAccessFault => TrapCause::StoreAMOAccessFault,
+        TrapCause::LoadPageFault => TrapCause::StoreAMOPageFault,
+        other => other,
+    };
+
+    (addr, cause, msg)
+}
+
 fn atomic_memory_operations_32<F: Fn(u64, u64) -> u64>(
     operation: F,
     inst: &Instruction,
@@ -11,11 +25,11 @@ fn atomic_memory_operations_32<F: Fn(u64, u64) -> u64>(
         TransAlign::Size32,
         cpu.regs.read(inst.rs1),
     )?;
-    let loaded_data = cpu.bus.load32(amo_addr)?;
+    let loaded_data = cpu.bus.load32(amo_addr).map_err(store_amo_fault)?;
     let rs2_data = cpu.regs.read(inst.rs2);
-    cpu.regs.write(inst.rd, loaded_data);
     cpu.bus
         .store32(amo_addr, operation(loaded_data, rs2_data))?;
+    cpu.regs.write(inst.rd, loaded_data);
 
     Ok(())
 }
@@ -30,11 +44,11 @@ fn atomic_memory_operations_64<F: Fn(u64, u64) -> u64>(
         TransAlign::Size64,
         cpu.regs.read(inst.rs1),
     )?;
-    let loaded_data = cpu.bus.load64(amo_addr)?;
+    let loaded_data = cpu.bus.load64(amo_addr).map_err(store_amo_fault)?;
     let rs2_data = cpu.regs.read(inst.rs2);
-    cpu.regs.write(inst.rd, loaded_data);
     cpu.bus
         .store64(amo_addr, operation(loaded_data, rs2_data))?;
+    cpu.regs.write(inst.rd, loaded_data);
 
     Ok(())
 }
-- 
2.43.0


From 76effe0469cde4d15b54d3f82f23273d48f2f01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:54 +0000
Subject: [PATCH 13/81] fix: illegal instructions found after decoding report
 the instruction as trap value

---
 src/cpu.rs                | 9 ++++++++-
 src/cpu/decode.rs         | 1 +
 src/cpu/decode/inst_16.rs | 4 ++++
 src/cpu/decode/inst_32.rs | 4 ++++
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/cpu.rs b/src/cpu.rs
index fbb9342..022209a 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -127,7 +127,14 @@ impl Cpu {
 
         self.check_interrupt()?;
 
-        fetch(self)?.decode(*self.isa)?.execution(self)
+        let inst = fetch(self)?;
+        inst.decode(*self.isa)
+            .and_then(|decoded| decoded.execution(self))
+            .map_err(|(tval, cause, msg)| match (tval, cause) {
+                // the trap value of an illegal instruction is the instruction itself
+                (None, TrapCause::IllegalInst) => (Some(inst.raw()), cause, msg),
+                _ => (tval, cause, msg),
+            })
     }
 
     fn trans_addr(
diff --git a/src/cpu/decode.rs b/src/cpu/decode.rs
index e50e0fa..b8f57ba 100644
--- a/src/cpu/decode.rs
+++ b/src/cpu/decode.rs
@@ -20,6 +20,7 @@ pub fn only_rv64(
 }
 
 pub trait Decode {
+    fn raw(&self) -> u64;
     fn decode(&self, isa: Isa) -> Result<Instruction, (Option<u64>, TrapCause, String)>;
     fn parse_opecode(self, isa: Isa) -> Result<OpecodeKind, (Option<u64>, TrapCause, String)>;
     fn parse_rd(
diff --git a/src/cpu/decode/inst_16.rs b/src/cpu/decode/inst_16.rs
index 5f3f1ef..7a14c9d 100644
--- a/src/cpu/decode/inst_16.rs
+++ b/src/cpu/decode/inst_16.rs
@@ -6,6 +6,10 @@ use crate::cpu::instruction::{Extensions, Instruction, OpecodeKind};
 use crate::cpu::{Isa, TrapCause};
 
 impl Decode for u16 {
+    fn raw(&self) -> u64 {
+        u64::from(*self)
+    }
+
     fn decode(&self, isa: Isa) -> Result<Instruction, (Option<u64>, TrapCause, String)> {
         let new_opc = self.parse_opecode(isa)?;
         let new_rd: Option<usize> = self.parse_rd(&new_opc)?;
diff --git a/src/cpu/decode/inst_32.rs b/src/cpu/decode/inst_32.rs
index dc6419f..86c0484 100644
--- a/src/cpu/decode/inst_32.rs
+++ b/src/cpu/decode/inst_32.rs
@@ -10,6 +10,10 @@ use crate::cpu::{Isa, TrapCause};
 
 #[allow(non_snake_case)]
 impl Decode for u32 {
+    fn raw(&self) -> u64 {
+        u64::from(*self)
+    }
+
     fn decode(&self, isa: Isa) -> Result<Instruction, (Option<u64>, TrapCause, String)> {
         let new_opc: OpecodeKind = self.parse_opecode(isa)?;
         let new_rd: Option<usize> = self.parse_rd(&new_opc)?;
-- 
2.43.0


From 9555bf94a3bb2c3deee79d6b2601397139ef9653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:57 +0000
Subject: [PATCH 14/81] fix: a CSR access at a page's end no longer panics
 reading its own instruction

---
 src/cpu/execution/inst_32/zicsr_extension.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index 1a4077e..4f4008b 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -1,10 +1,7 @@
 use crate::cpu::instruction::{Instruction, OpecodeKind};
-use crate::cpu::{CSRname, Cpu, PrivilegedLevel, TransAlign, TransFor, TrapCause, Xstatus};
+use crate::cpu::{CSRname, Cpu, PrivilegedLevel, TrapCause, Xstatus};
 
 fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, TrapCause, String)> {
-    let inst_addr = cpu.trans_addr(TransFor::Fetch, TransAlign::Size8, cpu.pc())?;
-    let invalid_instruction = Some(cpu.bus.load_u32(inst_addr).expect("get instruction failed"));
-
     if dist >= 4096 {
         return Err((
             None,
@@ -17,7 +14,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
         PrivilegedLevel::User => {
             if (0x100..=0x180).contains(&dist) || (0x300..=0x344).contains(&dist) {
                 return Err((
-                    invalid_instruction,
+                    None,
                     TrapCause::IllegalInst,
                     format!("You are in User mode but accessed {dist:x}"),
                 ));
@@ -27,7 +24,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
                 if mctren >> (dist - 0xc00) & 0x1 == 0 {
                     return Err((
-                        invalid_instruction,
+                        None,
                         TrapCause::IllegalInst,
                         "mcounteren bit is cleared, but attempt reading".to_string(),
                     ));
@@ -35,7 +32,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
                 let sctren = cpu.csrs.read(CSRname::scounteren.wrap())?;
                 if sctren >> (dist - 0xc00) & 0x1 == 0 {
                     return Err((
-                        invalid_instruction,
+                        None,
                         TrapCause::IllegalInst,
                         "scounteren bit is cleared, but attempt reading".to_string(),
                     ));
@@ -45,7 +42,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
         PrivilegedLevel::Supervisor => {
             if (0x300..=0x344).contains(&dist) {
                 return Err((
-                    invalid_instruction,
+                    None,
                     TrapCause::IllegalInst,
                     format!("You are in Supervisor mode but accessed {dist:x}"),
                 ));
@@ -55,7 +52,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
                 if mctren >> (dist - 0xc00) & 0x1 == 0 {
                     return Err((
-                        invalid_instruction,
+                        None,
                         TrapCause::IllegalInst,
                         "mcounteren bit is cleared, but attempt reading".to_string(),
                     ));
@@ -69,7 +66,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
                     == 1
             {
                 return Err((
-                    invalid_instruction,
+                    None,
                     TrapCause::IllegalInst,
                     "mstatus.TVM == 1 but accessed satp".to_string(),
                 ));
-- 
2.43.0


From 1c3808c8a399037ae3dd3b6fbf0a30d64109e4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:25 +0000
Subject: [PATCH 15/81] fix: every CSR is guarded by the privilege level its
 number encodes

---
 src/cpu/execution/inst_32/zicsr_extension.rs | 25 +++++++-------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index 4f4008b..ea07834 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -10,16 +10,17 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
         ));
     }
 
+    // bits 9:8 of the CSR number hold the lowest privilege level that may access it
+    if dist >> 8 & 0b11 > cpu.priv_lv() as usize {
+        return Err((
+            None,
+            TrapCause::IllegalInst,
+            format!("You are in {:?} mode but accessed {dist:x}", cpu.priv_lv()),
+        ));
+    }
+
     match cpu.priv_lv() {
         PrivilegedLevel::User => {
-            if (0x100..=0x180).contains(&dist) || (0x300..=0x344).contains(&dist) {
-                return Err((
-                    None,
-                    TrapCause::IllegalInst,
-                    format!("You are in User mode but accessed {dist:x}"),
-                ));
-            }
-
             if (0xc00..=0xc1f).contains(&dist) {
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
                 if mctren >> (dist - 0xc00) & 0x1 == 0 {
@@ -40,14 +41,6 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
             }
         }
         PrivilegedLevel::Supervisor => {
-            if (0x300..=0x344).contains(&dist) {
-                return Err((
-                    None,
-                    TrapCause::IllegalInst,
-                    format!("You are in Supervisor mode but accessed {dist:x}"),
-                ));
-            }
-
             if (0xc00..=0xc1f).contains(&dist) {
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
                 if mctren >> (dist - 0xc00) & 0x1 == 0 {
-- 
2.43.0


From 298062c4c8ddee4dddfc2edcd8af5ccb265bc8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:28 +0000
Subject: [PATCH 16/81] fix: writing a read-only CSR is an illegal instruction

---
 src/cpu/execution/inst_32/zicsr_extension.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index ea07834..4077de6 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -160,6 +160,19 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
 pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapCause, String)> {
     check_accessible(cpu, inst.rs2.unwrap())?;
 
+    // bits 11:10 of the CSR number are set if it is read-only
+    let writes = match inst.opc {
+        OpecodeKind::OP_CSRRW | OpecodeKind::OP_CSRRWI => true,
+        _ => inst.rs1 != Some(0),
+    };
+    if writes && inst.rs2.unwrap() >> 10 == 0b11 {
+        return Err((
+            None,
+            TrapCause::IllegalInst,
+            format!("writing to read-only CSR {:x}", inst.rs2.unwrap()),
+        ));
+    }
+
     match inst.opc {
         OpecodeKind::OP_CSRRW => {
             let rs1 = cpu.regs.read(inst.rs1);
-- 
2.43.0


From b7fa2dda230fdff658bfb289802a5c343318fd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 17/81] fix: SRET honours TSR only in S-mode and reads no
 memory to trap

---
 src/cpu/execution/inst_32/priv_extension.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/cpu/execution/inst_32/priv_extension.rs b/src/cpu/execution/inst_32/priv_extension.rs
index 7e60da7..2f5f3b7 100644
--- a/src/cpu/execution/inst_32/priv_extension.rs
+++ b/src/cpu/execution/inst_32/priv_extension.rs
@@ -17,7 +17,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             };
             if cpu.priv_lv() < require_priv {
                 return Err((
-                    Some(cpu.bus.load32(cpu.pc())?),
+                    None,
                     TrapCause::IllegalInst,
                     "exec sret but mstatus.TSR == 1".to_string(),
                 ));
@@ -26,14 +26,8 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             let new_priv = cpu
                 .csrs
                 .read_xstatus(PrivilegedLevel::Supervisor, Xstatus::SPP);
-            if cpu.csrs.read(CSRname::mstatus.wrap())? >> 22 & 1 == 1 {
-                // mstatus.TSR == 1
-                let except_pc = cpu.pc();
-                cpu.trap(except_pc, TrapCause::IllegalInst);
-            } else {
-                let new_pc = cpu.csrs.read(CSRname::sepc.wrap())?;
-                cpu.update_pc(new_pc);
-            }
+            let new_pc = cpu.csrs.read(CSRname::sepc.wrap())?;
+            cpu.update_pc(new_pc);
 
             // sstatus.SIE = sstatus.SPIE
             cpu.csrs.write_xstatus(
-- 
2.43.0


From 3581f06af3cc9353538a84e32d2bfa2f92e2fdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 18/81] fix: MRET outside M-mode and SFENCE.VMA in U-mode are
 illegal instructions

---
 src/cpu/execution/inst_32/priv_extension.rs | 25 +++++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/cpu/execution/inst_32/priv_extension.rs b/src/cpu/execution/inst_32/priv_extension.rs
index 2f5f3b7..456bec7 100644
--- a/src/cpu/execution/inst_32/priv_extension.rs
+++ b/src/cpu/execution/inst_32/priv_extension.rs
@@ -52,6 +52,14 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             log::debugln!("csrs.sepc: {:#x}", cpu.csrs.read(CSRname::sepc.wrap())?);
         }
         OpecodeKind::OP_MRET => {
+            if cpu.priv_lv() < PrivilegedLevel::Machine {
+                return Err((
+                    None,
+                    TrapCause::IllegalInst,
+                    "exec mret below machine mode".to_string(),
+                ));
+            }
+
             let new_priv = cpu
                 .csrs
                 .read_xstatus(PrivilegedLevel::Machine, Xstatus::MPP);
@@ -81,14 +89,17 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         }
         OpecodeKind::OP_WFI => { /* nop */ }
         OpecodeKind::OP_SFENCE_VMA => {
-            if cpu.priv_lv() == PrivilegedLevel::Supervisor
-                && cpu
-                    .csrs
-                    .read_xstatus(PrivilegedLevel::Machine, Xstatus::TVM)
-                    == 1
+            let tvm = cpu
+                .csrs
+                .read_xstatus(PrivilegedLevel::Machine, Xstatus::TVM);
+            if cpu.priv_lv() == PrivilegedLevel::User
+                || (cpu.priv_lv() == PrivilegedLevel::Supervisor && tvm == 1)
             {
-                let illegal_inst = cpu.bus.load32(cpu.pc())?;
-                cpu.trap(illegal_inst, TrapCause::IllegalInst);
+                return Err((
+                    None,
+                    TrapCause::IllegalInst,
+                    "sfence.vma is not allowed here".to_string(),
+                ));
             }
         }
         _ => panic!("not an privileged extension"),
-- 
2.43.0


From d055d08f79eb9b5e3699aa80b6581f83495772d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 19/81] fix: S-mode cannot execute from user pages

---
 src/cpu/mmu.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index 222b1a1..5a6150b 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -100,6 +100,15 @@ impl Mmu {
             return Err(self.trap_cause(purpose));
         }
 
+        // S-mode never executes code from user pages
+        if pte_u == 1
+            && priv_lv == PrivilegedLevel::Supervisor
+            && matches!(purpose, TransFor::Fetch | TransFor::Deleg)
+        {
+            log::debugln!("invalid pte_u: {:x}", pte);
+            return Err(self.trap_cause(purpose));
+        }
+
         // check the A bit
         if pte_a == 0 {
             log::debugln!("invalid pte_a: {:x}", pte);
-- 
2.43.0


From 43134c8e9b79c339b7e61ff7daecce2f5f66d86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 20/81] fix: non-canonical Sv39 addresses page-fault

---
 src/cpu/mmu.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index 5a6150b..3c7dca6 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -175,6 +175,13 @@ impl Mmu {
             PrivilegedLevel::Supervisor | PrivilegedLevel::User => match self.trans_mode {
                 AddrTransMode::Bare => Ok(addr),
                 AddrTransMode::Sv32 | AddrTransMode::Sv39 => {
+                    // bits 63-39 of a Sv39 virtual address must all equal bit 38
+                    if matches!(*self.isa, Isa::Rv64) && ((addr << 25) as i64 >> 25) as u64 != addr
+                    {
+                        log::debugln!("non-canonical address: {:x}", addr);
+                        return Err(self.trap_cause(purpose));
+                    }
+
                     let page_off = addr & 0xFFF;
                     let mut ppn = self.ppn;
                     let vpn = match *self.isa {
-- 
2.43.0


From 897b097ddcc58fb6f7fe96bedc354949469db7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 21/81] fix: a page table outside DRAM raises an access fault
 instead of a panic

---
 src/cpu/mmu.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index 3c7dca6..fb78199 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -78,6 +78,24 @@ impl Mmu {
         }
     }
 
+    fn load_pte(&self, purpose: TransFor, dram: &mut Dram, addr: u64) -> Result<u64, TrapCause> {
+        // a page table outside of the memory raises an access fault of the original access
+        let access_fault = match purpose {
+            TransFor::Fetch | TransFor::Deleg => TrapCause::InstAccessFault,
+            TransFor::Load => TrapCause::LoadAccessFault,
+            TransFor::StoreAMO => TrapCause::StoreAMOAccessFault,
+        };
+        if !dram.in_range(addr) {
+            return Err(access_fault);
+        }
+
+        match *self.isa {
+            Isa::Rv32 => dram.load32(addr),
+            Isa::Rv64 => dram.load64(addr),
+        }
+        .map_err(|_| access_fault)
+    }
+
     fn check_leaf_pte(
         &self,
         purpose: TransFor,
@@ -202,13 +220,8 @@ impl Mmu {
                     let pte = loop {
                         let pte_addr = ppn * PAGESIZE + vpn[level as usize] * pte_size;
                         log::debugln!("pte_addr({}): 0x{:x}", level, pte_addr);
-                        let pte =
-                            match *self.isa {
-                                Isa::Rv32 => self
-                                    .check_pte_validity(purpose, dram.load32(pte_addr).unwrap())?,
-                                Isa::Rv64 => self
-                                    .check_pte_validity(purpose, dram.load64(pte_addr).unwrap())?,
-                            };
+                        let pte = self.load_pte(purpose, dram, pte_addr)?;
+                        let pte = self.check_pte_validity(purpose, pte)?;
                         log::debugln!("pte({}): 0x{:x}", level, pte);
 
                         if self.is_leaf_pte(pte) {
-- 
2.43.0


From b87b1389f94315af804fca019ba7e006839ffa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:19 +0000
Subject: [PATCH 22/81] fix: Sv32 physical addresses above 4 GiB are not folded
 into the low 4 GiB

---
 src/cpu.rs     | 5 +++--
 src/cpu/mmu.rs | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cpu.rs b/src/cpu.rs
index 022209a..208b3bf 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -169,9 +169,10 @@ impl Cpu {
             .mmu
             .trans_addr(purpose, addr, &self.csrs, &mut self.bus.dram, trans_priv)
         {
-            Ok(vaddr) => {
+            Ok(paddr) => {
                 if addr % align as u64 == 0 {
-                    Ok(vaddr.fix2regsz(&self.isa))
+                    // Sv32 physical addresses have 34 bits
+                    Ok(paddr)
                 } else {
                     let cause = match purpose {
                         TransFor::Fetch | TransFor::Deleg => TrapCause::InstAddrMisaligned,
diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index fb78199..77e7a7b 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -234,7 +234,7 @@ impl Mmu {
                         }
 
                         ppn = match *self.isa {
-                            Isa::Rv32 => pte >> 10 & 0x3fff_ffff,
+                            Isa::Rv32 => pte >> 10 & 0x3f_ffff,
                             Isa::Rv64 => pte >> 10 & 0xfff_ffff_ffff,
                         };
                         log::debugln!("PPN{}: 0x{:x}", level, ppn);
-- 
2.43.0


From 84cb0cbf5c7fb3e38301299e7dd4ef1c75a0b835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:53 +0000
Subject: [PATCH 23/81] fix: an access just past the end of a device faults
 instead of panicking

---
 src/bus/clint.rs | 4 ++--
 src/bus/dram.rs  | 2 +-
 src/bus/mrom.rs  | 2 +-
 src/bus/plic.rs  | 2 +-
 src/bus/uart.rs  | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bus/clint.rs b/src/bus/clint.rs
index 152a4aa..1a12027 100644
--- a/src/bus/clint.rs
+++ b/src/bus/clint.rs
@@ -16,7 +16,7 @@ impl Default for Clint {
 impl Clint {
     #[allow(arithmetic_overflow)]
     pub fn new() -> Self {
-        const CLINT_SIZE: usize = 0xFFFF;
+        const CLINT_SIZE: usize = 0x10000;
 
         Clint {
             clint: vec![0; CLINT_SIZE],
@@ -30,7 +30,7 @@ impl Clint {
 impl Device for Clint {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/dram.rs b/src/bus/dram.rs
index 4328fad..0d1477a 100644
--- a/src/bus/dram.rs
+++ b/src/bus/dram.rs
@@ -81,7 +81,7 @@ impl Dram {
 impl Device for Dram {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/mrom.rs b/src/bus/mrom.rs
index e655374..f66677b 100644
--- a/src/bus/mrom.rs
+++ b/src/bus/mrom.rs
@@ -49,7 +49,7 @@ impl Mrom {
 impl Device for Mrom {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 2ee8439..709c729 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -261,7 +261,7 @@ impl Plic {
 impl Device for Plic {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 8f6aa23..3668207 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -253,7 +253,7 @@ impl Uart {
 impl Device for Uart {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
-- 
2.43.0


From 76f53e424f7686ecbaee5ec177ad9498eb3f0e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:55 +0000
Subject: [PATCH 24/81] fix: unsupported device accesses raise access faults,
 not page faults

---
 src/bus/clint.rs | 14 +++++++-------
 src/bus/mrom.rs  |  8 ++++----
 src/bus/uart.rs  | 16 ++++++++--------
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/bus/clint.rs b/src/bus/clint.rs
index 1a12027..726ae66 100644
--- a/src/bus/clint.rs
+++ b/src/bus/clint.rs
@@ -42,7 +42,7 @@ impl Device for Clint {
     fn store8(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "clint only allows load/store32 but try store8".to_string(),
         ))
     }
@@ -50,7 +50,7 @@ impl Device for Clint {
     fn store16(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "clint only allows load/store32 but try store16".to_string(),
         ))
     }
@@ -81,7 +81,7 @@ impl Device for Clint {
     fn load8(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load8".to_string(),
         ))
     }
@@ -89,7 +89,7 @@ impl Device for Clint {
     fn load16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load16".to_string(),
         ))
     }
@@ -116,7 +116,7 @@ impl Device for Clint {
     fn load_u8(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load_u8".to_string(),
         ))
     }
@@ -124,7 +124,7 @@ impl Device for Clint {
     fn load_u16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load_u16".to_string(),
         ))
     }
@@ -132,7 +132,7 @@ impl Device for Clint {
     fn load_u32(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load_u32".to_string(),
         ))
     }
diff --git a/src/bus/mrom.rs b/src/bus/mrom.rs
index f66677b..2f7ae23 100644
--- a/src/bus/mrom.rs
+++ b/src/bus/mrom.rs
@@ -61,7 +61,7 @@ impl Device for Mrom {
     fn store8(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
@@ -69,7 +69,7 @@ impl Device for Mrom {
     fn store16(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
@@ -77,7 +77,7 @@ impl Device for Mrom {
     fn store32(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
@@ -85,7 +85,7 @@ impl Device for Mrom {
     fn store64(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 3668207..43c38ba 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -269,7 +269,7 @@ impl Device for Uart {
     fn store16(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "uart only allows load/store8 but try store16".to_string(),
         ))
     }
@@ -277,7 +277,7 @@ impl Device for Uart {
     fn store32(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "uart only allows load/store8 but try store32".to_string(),
         ))
     }
@@ -285,7 +285,7 @@ impl Device for Uart {
     fn store64(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "uart only allows load/store8 but try store64".to_string(),
         ))
     }
@@ -298,7 +298,7 @@ impl Device for Uart {
     fn load16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load16".to_string(),
         ))
     }
@@ -306,7 +306,7 @@ impl Device for Uart {
     fn load32(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load32".to_string(),
         ))
     }
@@ -314,7 +314,7 @@ impl Device for Uart {
     fn load64(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load64".to_string(),
         ))
     }
@@ -327,7 +327,7 @@ impl Device for Uart {
     fn load_u16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load_u16".to_string(),
         ))
     }
@@ -335,7 +335,7 @@ impl Device for Uart {
     fn load_u32(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load_u32".to_string(),
         ))
     }
-- 
2.43.0


From a4a2d6c6562f289b0c1fc16e99d906f1e5ae9eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:57 +0000
Subject: [PATCH 25/81] fix: the UART transmits the low byte of the stored
 register unchanged

---
 src/bus/uart.rs    | 2 +-
 src/bus/uart/io.rs | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 43c38ba..cf4231c 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -199,7 +199,7 @@ impl Uart {
                     return Ok(());
                 }
 
-                self.tx_byte(char::from_u32(data as u32).unwrap())
+                self.tx_byte(data as u8)
             }
             IER => {
                 if self.uart[LCR] & LcrMask::DLAB as u8 == 0 {
diff --git a/src/bus/uart/io.rs b/src/bus/uart/io.rs
index ece61f3..bf1d6ad 100644
--- a/src/bus/uart/io.rs
+++ b/src/bus/uart/io.rs
@@ -62,9 +62,12 @@ impl Uart {
         front
     }
 
-    pub fn tx_byte(&mut self, data: char) {
+    pub fn tx_byte(&mut self, data: u8) {
         self.uart[UartRegister::LSR as usize] |= (LsrMask::TEMT as u8) | (LsrMask::THRE as u8);
-        print!("{}", char::from_u32(data as u32).unwrap());
-        io::stdout().flush().expect("stdout flush failed");
+        let mut stdout = io::stdout();
+        stdout
+            .write_all(&[data])
+            .and_then(|_| stdout.flush())
+            .expect("stdout flush failed");
     }
 }
-- 
2.43.0


From d26eb1e08b4bc20edd37a7512ff934bddf0d3273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:19 +0000
Subject: [PATCH 26/81] fix: console input reaches the guest byte for byte,
 whatever its encoding

---
 src/bus/uart.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index cf4231c..c0db998 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -4,6 +4,7 @@ use super::Device;
 use crate::bus::Plic;
 use crate::TrapCause;
 use std::collections::VecDeque;
+use std::io::BufRead;
 use std::sync::mpsc;
 
 const UART_QUEUE_SIZE: usize = 64;
@@ -99,7 +100,7 @@ pub struct Uart {
     pub base_addr: u64,
     size: usize,
     rx_queue: VecDeque<u8>,
-    stdin_channel: mpsc::Receiver<String>,
+    stdin_channel: mpsc::Receiver<Vec<u8>>,
 }
 
 impl Default for Uart {
@@ -117,10 +118,13 @@ impl Uart {
         uart[UartRegister::MSR as usize] = 0xb0; // UART_MSR_DCD | UART_MSR_DSR | UART_MSR_CTS
         uart[UartRegister::MCR as usize] = 0x08; // MCR_OUT2
 
-        let (tx, rx) = mpsc::channel::<String>();
+        let (tx, rx) = mpsc::channel::<Vec<u8>>();
         std::thread::spawn(move || loop {
-            let mut buffer = String::new();
-            std::io::stdin().read_line(&mut buffer).unwrap();
+            let mut buffer = Vec::new();
+            std::io::stdin()
+                .lock()
+                .read_until(b'\n', &mut buffer)
+                .unwrap();
             tx.send(buffer).unwrap();
         });
 
@@ -236,9 +240,7 @@ impl Uart {
             Ok(input) => {
                 self.backoff_counter = 0;
 
-                for c in input.chars() {
-                    self.rx_queue.push_back(c as u8);
-                }
+                self.rx_queue.extend(input);
                 self.uart[UartRegister::LSR as usize] |= LsrMask::DR as u8;
                 self.update_interrupt(plic);
             }
-- 
2.43.0


From b114fe269fb68d41b2330706d6ea6da64d2f4c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 27/81] fix: the console reader survives read errors and stops
 at end of input

---
 src/bus/uart.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index c0db998..3ccc766 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -119,13 +119,22 @@ impl Uart {
         uart[UartRegister::MCR as usize] = 0x08; // MCR_OUT2
 
         let (tx, rx) = mpsc::channel::<Vec<u8>>();
-        std::thread::spawn(move || loop {
+        std::thread::spawn(move || {
             let mut buffer = Vec::new();
-            std::io::stdin()
-                .lock()
-                .read_until(b'\n', &mut buffer)
-                .unwrap();
-            tx.send(buffer).unwrap();
+            loop {
+                match std::io::stdin().lock().read_until(b'\n', &mut buffer) {
+                    Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => {
+                        // non-blocking stdin: keep what was read so far and try again
+                        std::thread::sleep(std::time::Duration::from_millis(10));
+                        continue;
+                    }
+                    Ok(_) | Err(_) if buffer.is_empty() => break, // end of input
+                    _ => (),
+                }
+                if tx.send(std::mem::take(&mut buffer)).is_err() {
+                    break;
+                }
+            }
         });
 
         Uart {
-- 
2.43.0


From b7a87f67f4185d3d283abe77703fbf3fa6a7585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 28/81] fix: LB from the UART receive register sign-extends
 like any other LB

---
 src/bus/uart.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 3ccc766..3fb7dc7 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -168,7 +168,7 @@ impl Uart {
                 };
                 self.update_interrupt(plic);
 
-                Ok(data as u64)
+                Ok(data as i8 as i64 as u64)
             }
             IER => {
                 if self.uart[UartRegister::LCR as usize] & LcrMask::DLAB as u8 != 0 {
-- 
2.43.0


From 84d15d52a9e37b404bd545f29e6543fb9fd1171d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:40 +0000
Subject: [PATCH 29/81] fix: LBU and LWU read device registers the way LB and
 LW do

---
 src/cpu/execution/inst_32/base_i.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index 5634944..3d94b4d 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -127,7 +127,8 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                     Isa::Rv64 => (cpu.regs.read(inst.rs1) as i64 + inst.imm.unwrap() as i64) as u64,
                 },
             )?;
-            cpu.regs.write(inst.rd, cpu.bus.load_u8(load_addr)?);
+            // load8 and not load_u8: reading a device register has side effects
+            cpu.regs.write(inst.rd, cpu.bus.load8(load_addr)? & 0xff);
         }
         OpecodeKind::OP_LHU => {
             let load_addr = cpu.trans_addr(
@@ -324,7 +325,9 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 TransAlign::Size32,
                 (cpu.regs.read(inst.rs1) as i64 + inst.imm.unwrap() as i64) as u64,
             )?;
-            cpu.regs.write(inst.rd, cpu.bus.load_u32(load_addr)?);
+            // load32 and not load_u32: reading a device register has side effects
+            cpu.regs
+                .write(inst.rd, cpu.bus.load32(load_addr)? & 0xffff_ffff);
         }
         OpecodeKind::OP_LD => {
             let load_addr = cpu.trans_addr(
-- 
2.43.0


From 4fab8e3173f15ca27dd6eef4b151ea619a582035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:13 +0000
Subject: [PATCH 30/81] fix: FIFO clear commands come from the FCR, not from
 line control bits

---
 src/bus/uart.rs    | 3 +++
 src/bus/uart/io.rs | 8 ++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 3fb7dc7..94899ed 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -96,6 +96,7 @@ pub struct Uart {
     pub uart: Vec<u8>,
     dll: u8,
     dlm: u8,
+    fcr: u8,
     backoff_counter: u64,
     pub base_addr: u64,
     size: usize,
@@ -141,6 +142,7 @@ impl Uart {
             uart,
             dll: 0x0c,
             dlm: 0,
+            fcr: 0,
             backoff_counter: 0,
             base_addr: 0x1000_0000,
             size: UART_SIZE,
@@ -221,6 +223,7 @@ impl Uart {
                     self.dlm = data as u8;
                 }
             }
+            FCR => self.fcr = data as u8,
             _ => self.uart[index] = (data & 0xFF) as u8,
         }
 
diff --git a/src/bus/uart/io.rs b/src/bus/uart/io.rs
index bf1d6ad..82e7092 100644
--- a/src/bus/uart/io.rs
+++ b/src/bus/uart/io.rs
@@ -7,14 +7,14 @@ impl Uart {
     pub fn update_interrupt(&mut self, plic: &mut Plic) {
         const UART_INTERRUPT_ID: u32 = 1;
         let mut interrupts = 0;
-        if self.uart[UartRegister::LCR as usize] & FcrMask::CLEAR_RCVR as u8 != 0 {
-            self.uart[UartRegister::LCR as usize] &= !(FcrMask::CLEAR_RCVR as u8);
+        if self.fcr & FcrMask::CLEAR_RCVR as u8 != 0 {
+            self.fcr &= !(FcrMask::CLEAR_RCVR as u8);
             self.rx_queue.clear();
             self.uart[UartRegister::LSR as usize] &= !(LsrMask::DR as u8);
         }
 
-        if self.uart[UartRegister::LCR as usize] & FcrMask::CLEAR_XMIT as u8 != 0 {
-            self.uart[UartRegister::LCR as usize] &= !(FcrMask::CLEAR_XMIT as u8);
+        if self.fcr & FcrMask::CLEAR_XMIT as u8 != 0 {
+            self.fcr &= !(FcrMask::CLEAR_XMIT as u8);
             self.uart[UartRegister::LSR as usize] |= LsrMask::TEMT as u8 | LsrMask::THRE as u8;
         }
 
-- 
2.43.0


From b0aae62611e3e3029f8d03a2e38b400489252a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 31/81] fix: a pending UART interrupt no longer blocks console
 input

---
 src/bus/uart.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 94899ed..623e985 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -236,8 +236,7 @@ impl Uart {
     }
 
     pub fn tick(&mut self, plic: &mut Plic) {
-        if (self.uart[UartRegister::IIR_FCR as usize] & FcrMask::ENABLE_FIFO as u8 == 0)
-            || (self.uart[UartRegister::MCR as usize] & McrMask::LOOP as u8 != 0)
+        if (self.uart[UartRegister::MCR as usize] & McrMask::LOOP as u8 != 0)
             || (UART_QUEUE_SIZE <= self.rx_queue.len())
         {
             return;
-- 
2.43.0


From 49449a4fb428b3267ce20de3ba3ccad684c16eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:18 +0000
Subject: [PATCH 32/81] fix: the UART line and modem status registers are
 read-only

---
 src/bus/uart.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 623e985..a2609c5 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -195,6 +195,8 @@ impl Uart {
         const FCR: usize = UartRegister::IIR_FCR as usize;
         const LCR: usize = UartRegister::LCR as usize;
         const MCR: usize = UartRegister::MCR as usize;
+        const LSR: usize = UartRegister::LSR as usize;
+        const MSR: usize = UartRegister::MSR as usize;
         let index = self.addr2index(addr);
 
         match index {
@@ -224,6 +226,7 @@ impl Uart {
                 }
             }
             FCR => self.fcr = data as u8,
+            LSR | MSR => (), // status registers are read-only
             _ => self.uart[index] = (data & 0xFF) as u8,
         }
 
-- 
2.43.0


From 6077c4fd9e227d428e58c9806f87872374d170c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:20 +0000
Subject: [PATCH 33/81] fix: IIR reports received data before an empty
 transmitter, never a mix of both

---
 src/bus/uart/io.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bus/uart/io.rs b/src/bus/uart/io.rs
index 82e7092..127a9e1 100644
--- a/src/bus/uart/io.rs
+++ b/src/bus/uart/io.rs
@@ -22,9 +22,7 @@ impl Uart {
             && self.uart[UartRegister::LSR as usize] & LsrMask::DR as u8 != 0
         {
             interrupts |= IirMask::RDI as u8;
-        }
-
-        if self.uart[UartRegister::IER as usize] & IerMask::THRI as u8 != 0
+        } else if self.uart[UartRegister::IER as usize] & IerMask::THRI as u8 != 0
             && self.uart[UartRegister::LSR as usize] & LsrMask::TEMT as u8 != 0
         {
             interrupts |= IirMask::THRI as u8;
-- 
2.43.0


From eb5352e20cb8631d9ed0b0ffd4b22c499c64f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:23 +0000
Subject: [PATCH 34/81] fix: each PLIC context drives its own interrupt line

---
 src/bus/plic.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 709c729..6a8fd97 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -104,20 +104,18 @@ impl Plic {
         const MIP_MEIP_MASK: u64 = 1 << 11;
         const MIP_SEIP_MASK: u64 = 1 << 9;
         let best_id = self.context_best_pending(context_id);
-        self.mip_mask = match self.contexts[context_id].context_priv {
+        let context_mask = match self.contexts[context_id].context_priv {
             PrivilegedLevel::Machine => MIP_MEIP_MASK,
             PrivilegedLevel::Supervisor => MIP_SEIP_MASK,
             _ => unreachable!(),
         };
-        self.mip_value = if best_id == 0 {
-            0
+        // leave the lines of the other contexts as they are
+        self.mip_mask |= context_mask;
+        if best_id == 0 {
+            self.mip_value &= !context_mask;
         } else {
-            match self.contexts[context_id].context_priv {
-                PrivilegedLevel::Machine => MIP_MEIP_MASK,
-                PrivilegedLevel::Supervisor => MIP_SEIP_MASK,
-                _ => unreachable!(),
-            }
-        };
+            self.mip_value |= context_mask;
+        }
     }
 
     fn context_claim(&mut self, context_id: usize) -> u32 {
-- 
2.43.0


From 8604709a36e6dfd6dd0c7ee5b34d15c287a3affa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 35/81] fix: taking an interrupt does not clear its pending bit

---
 src/cpu/trap.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index 13f36ad..d5fcaf4 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -63,8 +63,6 @@ impl Cpu {
         let is_interrupt_enabled = |bit: u64| (enabled_interrupt_mask & (1 << bit)) != 0;
 
         if is_interrupt_enabled(MEIP) {
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << MEIP).unwrap();
-            self.bus.plic.mip_value = 0;
             return Err((
                 Some(0),
                 TrapCause::MachineExternalInterrupt,
@@ -72,7 +70,6 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(MSIP) {
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << MSIP).unwrap();
             return Err((
                 Some(0),
                 TrapCause::MachineSoftwareInterrupt,
@@ -80,8 +77,6 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(MTIP) {
-            // TODO: bit clear when mtimecmp written
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << MTIP).unwrap();
             return Err((
                 Some(0),
                 TrapCause::MachineTimerInterrupt,
@@ -89,8 +84,6 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(SEIP) {
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << SEIP).unwrap();
-            self.bus.plic.mip_value = 0;
             return Err((
                 Some(0),
                 TrapCause::SupervisorExternalInterrupt,
@@ -98,7 +91,6 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(SSIP) {
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << SSIP).unwrap();
             return Err((
                 Some(0),
                 TrapCause::SupervisorSoftwareInterrupt,
@@ -106,8 +98,6 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(STIP) {
-            // TODO: bit clear when mtimecmp written
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << STIP).unwrap();
             return Err((
                 Some(0),
                 TrapCause::SupervisorTimerInterrupt,
-- 
2.43.0


From 289c260e0125a0831c65a6124c2d59018fd25c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 36/81] fix: the CLINT msip register raises the machine
 software interrupt

---
 src/cpu/trap.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index d5fcaf4..584771e 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -25,6 +25,15 @@ impl Cpu {
                 .unwrap()
         };
 
+        // clint.msip of hart 0
+        const MSIP_ADDR: u64 = 0x0200_0000;
+        let msip: u64 = self.bus.load32(MSIP_ADDR).unwrap();
+        if msip & 1 != 0 {
+            self.csrs.bitset(CSRname::mip.wrap(), 1 << MSIP).unwrap()
+        } else {
+            self.csrs.bitclr(CSRname::mip.wrap(), 1 << MSIP).unwrap()
+        };
+
         self.csrs
             .write(
                 CSRname::mip.wrap(),
-- 
2.43.0


From 5514156555211078c2cbfb5e79213bc1e275ceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:30 +0000
Subject: [PATCH 37/81] fix: a PLIC source is signalled to every context that
 enabled it

---
 src/bus/plic.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 6a8fd97..a55871c 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -249,7 +249,6 @@ impl Plic {
                 }
 
                 self.context_update(c);
-                break;
             }
         }
     }
-- 
2.43.0


From 595e25bf838e0b376969d975319f55f11e9a2b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 38/81] fix: the PLIC applies priority 0, thresholds and
 priority changes

---
 src/bus/plic.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index a55871c..a6a2e91 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -21,7 +21,6 @@ pub struct PlicContext {
     priority_thresould: u8,
     enable: Vec<u32>,
     pending: Vec<u32>,
-    pending_priority: Vec<u8>,
     claimed: Vec<u32>,
     context_priv: PrivilegedLevel,
 }
@@ -32,7 +31,6 @@ impl PlicContext {
             priority_thresould: 0,
             enable: vec![0; PLIC_MAX_DEVICES / 32],
             pending: vec![0; PLIC_MAX_DEVICES / 32],
-            pending_priority: vec![0; PLIC_MAX_DEVICES],
             claimed: vec![0; PLIC_MAX_DEVICES / 32],
             context_priv,
         }
@@ -89,10 +87,10 @@ impl Plic {
                     continue;
                 }
 
-                if (best_id == 0) || (best_id_prio < self.contexts[context_id].pending_priority[id])
-                {
+                // priority 0 means "never interrupt"
+                if best_id_prio < self.priority[id] {
                     best_id = id as u32;
-                    best_id_prio = self.contexts[context_id].pending_priority[id];
+                    best_id_prio = self.priority[id];
                 }
             }
         }
@@ -111,13 +109,19 @@ impl Plic {
         };
         // leave the lines of the other contexts as they are
         self.mip_mask |= context_mask;
-        if best_id == 0 {
+        if self.priority[best_id as usize] <= self.contexts[context_id].priority_thresould {
             self.mip_value &= !context_mask;
         } else {
             self.mip_value |= context_mask;
         }
     }
 
+    fn update_all_contexts(&mut self) {
+        for c in 0..CONTEXT_NUM {
+            self.context_update(c);
+        }
+    }
+
     fn context_claim(&mut self, context_id: usize) -> u32 {
         let best_id = self.context_best_pending(context_id);
         let best_id_word = (best_id / 32) as usize;
@@ -145,6 +149,7 @@ impl Plic {
         let id = offset >> 2;
         if id > 0 && id < NUM_IDS {
             self.priority[id] = (val & PLIC_PRIO_MASK) as u8;
+            self.update_all_contexts();
         }
     }
 
@@ -170,9 +175,7 @@ impl Plic {
         self.contexts[context_id].enable[id_word] = new_val;
 
         for i in 0..32 {
-            let id = id_word * 32 + i;
             let id_mask = 1 << i;
-            let id_prio = self.priority[id];
 
             if xor_val & id_mask == 0 {
                 continue;
@@ -180,10 +183,8 @@ impl Plic {
 
             if new_val & id_mask != 0 && self.level[id_word] & id_mask != 0 {
                 self.contexts[context_id].pending[id_word] |= id_mask;
-                self.contexts[context_id].pending_priority[id] = id_prio;
             } else if new_val & id_mask == 0 {
                 self.contexts[context_id].pending[id_word] &= !id_mask;
-                self.contexts[context_id].pending_priority[id] = 0;
                 self.contexts[context_id].claimed[id_word] &= !id_mask;
             }
         }
@@ -227,7 +228,6 @@ impl Plic {
             return;
         }
 
-        let id_prio = self.priority[id as usize];
         let id_word = (id / 32) as usize;
         let id_mask = 1 << (id % 32);
 
@@ -241,10 +241,8 @@ impl Plic {
             if self.contexts[c].enable[id_word] & id_mask != 0 {
                 if level != 0 {
                     self.contexts[c].pending[id_word] |= id_mask;
-                    self.contexts[c].pending_priority[id as usize] = id_prio;
                 } else {
                     self.contexts[c].pending[id_word] &= !id_mask;
-                    self.contexts[c].pending_priority[id as usize] = 0;
                     self.contexts[c].claimed[id_word] &= !id_mask;
                 }
 
-- 
2.43.0


From fe00f0474121ea45cd37818f1a98ac58d4cf7734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:17 +0000
Subject: [PATCH 39/81] fix: a claimed PLIC source stays in service, for both
 contexts, until completed

---
 src/bus/plic.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index a6a2e91..565e910 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -70,6 +70,13 @@ impl Plic {
         }
     }
 
+    // claimed by any context and not completed yet
+    fn in_service(&self, id: usize) -> bool {
+        self.contexts
+            .iter()
+            .any(|context| context.claimed[id / 32] & (1 << (id % 32)) != 0)
+    }
+
     fn context_best_pending(&self, context_id: usize) -> u32 {
         let mut best_id_prio = 0;
         let mut best_id = 0;
@@ -82,7 +89,7 @@ impl Plic {
                 let id = i * 32 + off;
                 if (NUM_IDS <= id)
                     || ((self.contexts[context_id].pending[i] & (1 << off)) == 0)
-                    || ((self.contexts[context_id].claimed[i] & (1 << off)) != 0)
+                    || self.in_service(id)
                 {
                     continue;
                 }
@@ -131,7 +138,7 @@ impl Plic {
             self.contexts[context_id].claimed[best_id_word] |= best_id_mask;
         }
 
-        self.context_update(context_id);
+        self.update_all_contexts();
         best_id
     }
 
@@ -189,7 +196,7 @@ impl Plic {
             }
         }
 
-        self.context_update(context_id);
+        self.update_all_contexts();
     }
 
     fn context_read(&mut self, context_id: usize, offset: usize) -> u32 {
@@ -216,7 +223,7 @@ impl Plic {
                 if val < NUM_IDS as u32 && self.contexts[context_id].enable[id_word] & id_mask != 0
                 {
                     self.contexts[context_id].claimed[id_word] &= !id_mask;
-                    self.context_update(context_id);
+                    self.update_all_contexts();
                 }
             }
             _ => unreachable!("offset: {:#x}", offset),
@@ -243,7 +250,6 @@ impl Plic {
                     self.contexts[c].pending[id_word] |= id_mask;
                 } else {
                     self.contexts[c].pending[id_word] &= !id_mask;
-                    self.contexts[c].claimed[id_word] &= !id_mask;
                 }
 
                 self.context_update(c);
-- 
2.43.0


From 8e289776a3915730875b33322c07c50aab6df99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 40/81] fix: reserved PLIC context offsets read zero instead of
 panicking

---
 src/bus/plic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 565e910..1960073 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -203,7 +203,7 @@ impl Plic {
         match offset {
             CONTEXT_THRESHOLD => self.contexts[context_id].priority_thresould as u32,
             CONTEXT_CLAIM => self.context_claim(context_id),
-            _ => unreachable!(),
+            _ => 0, // reserved
         }
     }
 
@@ -226,7 +226,7 @@ impl Plic {
                     self.update_all_contexts();
                 }
             }
-            _ => unreachable!("offset: {:#x}", offset),
+            _ => (), // reserved
         }
     }
 
-- 
2.43.0


From 4187fe30a0adb4ac8c93e5d8a1700272f43ab0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 41/81] fix: 64-bit PLIC accesses transfer both words in full

---
 src/bus/plic.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 1960073..2ab286f 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -330,8 +330,8 @@ impl Device for Plic {
     }
 
     fn store64(&mut self, addr: u64, data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
-        self.store32(addr, data & 0xffff)?;
-        self.store32(addr + 4, data >> 32 & 0xffff)
+        self.store32(addr, data & 0xffff_ffff)?;
+        self.store32(addr + 4, data >> 32)
     }
 
     // load
@@ -389,8 +389,9 @@ impl Device for Plic {
     }
 
     fn load64(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-        self.load32(addr)?;
-        self.load32(addr + 4)
+        let lower = self.load32(addr)? & 0xffff_ffff;
+        let upper = self.load32(addr + 4)?;
+        Ok(upper << 32 | lower)
     }
 
     fn load_u8(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-- 
2.43.0


From 4c0cbac6c4a2b839d7671d43f49490eaefe370fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:53 +0000
Subject: [PATCH 42/81] fix: PLIC access faults report the full address as trap
 value

---
 src/bus/plic.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 2ab286f..4de99e3 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -291,6 +291,7 @@ impl Device for Plic {
         const ENABLE_BASE_MINUS_ONE: usize = ENABLE_BASE - 1;
         const CONTEXT_BASE_MINUS_ONE: usize = CONTEXT_BASE - 1;
         const PLIC_SIZE_MINUS_ONE: usize = PLIC_SIZE - 1;
+        let full_addr = addr;
         let addr = self.addr2index(addr);
         match addr {
             PRIORITY_BASE..=ENABLE_BASE_MINUS_ONE => {
@@ -305,7 +306,7 @@ impl Device for Plic {
                     Ok(())
                 } else {
                     Err((
-                        Some(addr as u64),
+                        Some(full_addr),
                         TrapCause::StoreAMOAccessFault,
                         "plic only allows load/store32,64 but try store16".to_string(),
                     ))
@@ -319,7 +320,7 @@ impl Device for Plic {
                     Ok(())
                 } else {
                     Err((
-                        Some(addr as u64),
+                        Some(full_addr),
                         TrapCause::StoreAMOAccessFault,
                         "plic only allows load/store32,64 but try store16".to_string(),
                     ))
@@ -355,6 +356,7 @@ impl Device for Plic {
         const ENABLE_BASE_MINUS_ONE: usize = ENABLE_BASE - 1;
         const CONTEXT_BASE_MINUS_ONE: usize = CONTEXT_BASE - 1;
         const PLIC_SIZE_MINUS_ONE: usize = PLIC_SIZE - 1;
+        let full_addr = addr;
         let addr = self.addr2index(addr);
         match addr {
             PRIORITY_BASE..=ENABLE_BASE_MINUS_ONE => Ok(self.priority_read(addr) as u64),
@@ -365,7 +367,7 @@ impl Device for Plic {
                     Ok(self.context_enable_read(cntx, addr) as u64)
                 } else {
                     Err((
-                        Some(addr as u64),
+                        Some(full_addr),
                         TrapCause::LoadAccessFault,
                         "plic only allows load/store32,64 but try store16".to_string(),
                     ))
@@ -378,7 +380,7 @@ impl Device for Plic {
                     Ok(self.context_read(cntx, addr) as u64)
                 } else {
                     Err((
-                        Some(addr as u64),
+                        Some(full_addr),
                         TrapCause::LoadAccessFault,
                         "plic only allows load/store32,64 but try store16".to_string(),
                     ))
-- 
2.43.0


From 38705a516489a75907769658bd60f806cc8ca286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 43/81] fix: LW of a PLIC enable word sign-extends

---
 src/bus/plic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 4de99e3..4d9f740 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -364,7 +364,7 @@ impl Device for Plic {
                 let cntx = (addr - ENABLE_BASE) / ENABLE_PER_HART;
                 let addr = addr - (cntx * ENABLE_PER_HART + ENABLE_BASE);
                 if cntx < CONTEXT_NUM {
-                    Ok(self.context_enable_read(cntx, addr) as u64)
+                    Ok(self.context_enable_read(cntx, addr) as i32 as u64)
                 } else {
                     Err((
                         Some(full_addr),
-- 
2.43.0


From 602cf398639b5e79bf2f0498a12ecdebaf6f90b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 44/81] fix: unknown OP-32 encodings are illegal instructions
 instead of a panic

---
 src/cpu/decode/inst_32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/decode/inst_32.rs b/src/cpu/decode/inst_32.rs
index 86c0484..710244b 100644
--- a/src/cpu/decode/inst_32.rs
+++ b/src/cpu/decode/inst_32.rs
@@ -127,7 +127,7 @@ impl DecodeUtil for u32 {
             0b0111011 => match funct7 {
                 0b0000000 | 0b0100000 => Extensions::BaseI,
                 0b0000001 => Extensions::M,
-                _ => unreachable!(),
+                _ => Extensions::BaseI, // illegal instruction
             },
             0b1110011 => match funct3 {
                 0b000 => match funct7 {
-- 
2.43.0


From 190a310fcbaa394378728baafabdc9f177abae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:24 +0000
Subject: [PATCH 45/81] fix: C.SDSP requires 8-byte alignment like every other
 doubleword store

---
 src/cpu/execution/inst_16/c_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index 9b43c1c..2cfc659 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -179,7 +179,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_C_SDSP => {
             let store_addr = cpu.trans_addr(
                 TransFor::StoreAMO,
-                TransAlign::Size32,
+                TransAlign::Size64,
                 (cpu.regs.read(Some(REG_SP)) as i64 + inst.imm.unwrap() as i64) as u64,
             )?;
             cpu.bus.store64(store_addr, cpu.regs.read(inst.rs2))?;
-- 
2.43.0


From 4db48221509fccc317b78cd68b3323ead6f58e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 46/81] fix: encodings outside RV32/RV64IMAC are illegal
 instructions

---
 src/cpu/decode/inst_32/a_extension.rs |  5 +++--
 src/cpu/decode/inst_32/base_i.rs      | 31 ++++++++++++---------------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/cpu/decode/inst_32/a_extension.rs b/src/cpu/decode/inst_32/a_extension.rs
index e39a3cf..4af8ef5 100644
--- a/src/cpu/decode/inst_32/a_extension.rs
+++ b/src/cpu/decode/inst_32/a_extension.rs
@@ -6,6 +6,7 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
     let opmap: u8 = inst.slice(6, 0) as u8;
     let funct3: u8 = inst.slice(14, 12) as u8;
     let funct7: u8 = inst.slice(31, 27) as u8;
+    let rs2: u8 = inst.slice(24, 20) as u8;
     let illegal_inst_exception = || {
         Err((
             Some(u64::from(inst)),
@@ -17,7 +18,7 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
     match opmap {
         0b0101111 => match funct3 {
             0b010 => match funct7 {
-                0b00010 => Ok(OpecodeKind::OP_LR_W),
+                0b00010 if rs2 == 0 => Ok(OpecodeKind::OP_LR_W),
                 0b00011 => Ok(OpecodeKind::OP_SC_W),
                 0b00001 => Ok(OpecodeKind::OP_AMOSWAP_W),
                 0b00000 => Ok(OpecodeKind::OP_AMOADD_W),
@@ -31,7 +32,7 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
                 _ => illegal_inst_exception(),
             },
             0b011 => match funct7 {
-                0b00010 => only_rv64(OpecodeKind::OP_LR_D, isa),
+                0b00010 if rs2 == 0 => only_rv64(OpecodeKind::OP_LR_D, isa),
                 0b00011 => only_rv64(OpecodeKind::OP_SC_D, isa),
                 0b00001 => only_rv64(OpecodeKind::OP_AMOSWAP_D, isa),
                 0b00000 => only_rv64(OpecodeKind::OP_AMOADD_D, isa),
diff --git a/src/cpu/decode/inst_32/base_i.rs b/src/cpu/decode/inst_32/base_i.rs
index f609bc0..316840b 100644
--- a/src/cpu/decode/inst_32/base_i.rs
+++ b/src/cpu/decode/inst_32/base_i.rs
@@ -5,7 +5,6 @@ use crate::cpu::{Isa, TrapCause};
 pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, TrapCause, String)> {
     let opmap: u8 = inst.slice(6, 0) as u8;
     let funct3: u8 = inst.slice(14, 12) as u8;
-    let funct5: u8 = inst.slice(24, 20) as u8;
     let funct6: u8 = inst.slice(31, 26) as u8;
     let funct7: u8 = inst.slice(31, 25) as u8;
     let illegal_inst_exception = || {
@@ -20,7 +19,7 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
         0b0110111 => Ok(OpecodeKind::OP_LUI),
         0b0010111 => Ok(OpecodeKind::OP_AUIPC),
         0b1101111 => Ok(OpecodeKind::OP_JAL),
-        0b1100111 => Ok(OpecodeKind::OP_JALR),
+        0b1100111 if funct3 == 0b000 => Ok(OpecodeKind::OP_JALR),
         0b1100011 => match funct3 {
             0b000 => Ok(OpecodeKind::OP_BEQ),
             0b001 => Ok(OpecodeKind::OP_BNE),
@@ -84,34 +83,32 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
                 0b0100000 => Ok(OpecodeKind::OP_SUB),
                 _ => illegal_inst_exception(),
             },
-            0b001 => Ok(OpecodeKind::OP_SLL),
-            0b010 => Ok(OpecodeKind::OP_SLT),
-            0b011 => Ok(OpecodeKind::OP_SLTU),
-            0b100 => Ok(OpecodeKind::OP_XOR),
+            0b001 if funct7 == 0 => Ok(OpecodeKind::OP_SLL),
+            0b010 if funct7 == 0 => Ok(OpecodeKind::OP_SLT),
+            0b011 if funct7 == 0 => Ok(OpecodeKind::OP_SLTU),
+            0b100 if funct7 == 0 => Ok(OpecodeKind::OP_XOR),
             0b101 => match funct7 {
                 0b0000000 => Ok(OpecodeKind::OP_SRL),
                 0b0100000 => Ok(OpecodeKind::OP_SRA),
                 _ => illegal_inst_exception(),
             },
-            0b110 => Ok(OpecodeKind::OP_OR),
-            0b111 => Ok(OpecodeKind::OP_AND),
+            0b110 if funct7 == 0 => Ok(OpecodeKind::OP_OR),
+            0b111 if funct7 == 0 => Ok(OpecodeKind::OP_AND),
             _ => illegal_inst_exception(),
         },
-        0b0001111 => Ok(OpecodeKind::OP_FENCE),
+        // FENCE and FENCE.I
+        0b0001111 if funct3 <= 0b001 => Ok(OpecodeKind::OP_FENCE),
         0b1110011 => match funct3 {
-            0b000 => match funct7 {
-                0b0000000 => match funct5 {
-                    0b00000 => Ok(OpecodeKind::OP_ECALL),
-                    0b00001 => Ok(OpecodeKind::OP_EBREAK),
-                    _ => illegal_inst_exception(),
-                },
+            0b000 => match inst {
+                0x0000_0073 => Ok(OpecodeKind::OP_ECALL),
+                0x0010_0073 => Ok(OpecodeKind::OP_EBREAK),
                 _ => illegal_inst_exception(),
             },
             _ => illegal_inst_exception(),
         },
         0b0011011 => match funct3 {
             0b000 => only_rv64(OpecodeKind::OP_ADDIW, isa),
-            0b001 => only_rv64(OpecodeKind::OP_SLLIW, isa),
+            0b001 if funct7 == 0 => only_rv64(OpecodeKind::OP_SLLIW, isa),
             0b101 => match funct7 {
                 0b0000000 => only_rv64(OpecodeKind::OP_SRLIW, isa),
                 0b0100000 => only_rv64(OpecodeKind::OP_SRAIW, isa),
@@ -125,7 +122,7 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
                 0b0100000 => only_rv64(OpecodeKind::OP_SUBW, isa),
                 _ => illegal_inst_exception(),
             },
-            0b001 => only_rv64(OpecodeKind::OP_SLLW, isa),
+            0b001 if funct7 == 0 => only_rv64(OpecodeKind::OP_SLLW, isa),
             0b101 => match funct7 {
                 0b0000000 => only_rv64(OpecodeKind::OP_SRLW, isa),
                 0b0100000 => only_rv64(OpecodeKind::OP_SRAW, isa),
-- 
2.43.0


From 29785a1c8a0163be31966feca9dff8665c99dd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 47/81] fix: software writes to sip change SSIP only

---
 src/cpu/csr.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index bfd33db..dc2cd82 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -13,6 +13,7 @@ const MSTATUS: usize = CSRname::mstatus as usize;
 const SIE: usize = CSRname::sie as usize;
 const SIP: usize = CSRname::sip as usize;
 const SIESIPMASK: u64 = 0x0333;
+const SIPWRITEMASK: u64 = 1 << 1; // only SSIP, the other bits belong to the devices
 const UXL_SXL: u64 = 0b1111 << 32;
 const MHPMCOUNTER3: usize = CSRname::mhpmcounter3 as usize;
 
@@ -102,7 +103,7 @@ impl CSRs {
                 USTATUS => self.csrs[MSTATUS] |= mask & self.umask(),
                 SSTATUS => self.csrs[MSTATUS] |= mask & self.smask(),
                 SIE => self.csrs[CSRname::mie as usize] |= mask & SIESIPMASK,
-                SIP => self.csrs[CSRname::mip as usize] |= mask & SIESIPMASK,
+                SIP => self.csrs[CSRname::mip as usize] |= mask & SIPWRITEMASK,
                 _ => self.csrs[dist] |= mask,
             }
         }
@@ -125,7 +126,7 @@ impl CSRs {
                 USTATUS => self.csrs[MSTATUS] &= !(mask & self.umask()),
                 SSTATUS => self.csrs[MSTATUS] &= !(mask & self.smask()),
                 SIE => self.csrs[CSRname::mie as usize] &= !(mask & SIESIPMASK),
-                SIP => self.csrs[CSRname::mip as usize] &= !(mask & SIESIPMASK),
+                SIP => self.csrs[CSRname::mip as usize] &= !(mask & SIPWRITEMASK),
                 _ => self.csrs[dist] &= !mask,
             }
         }
@@ -160,7 +161,7 @@ impl CSRs {
             USTATUS => self.write_masked(MSTATUS, src, self.umask()),
             SSTATUS => self.write_masked(MSTATUS, src, self.smask() & !UXL_SXL),
             SIE => self.write_masked(CSRname::mie as usize, src, SIESIPMASK),
-            SIP => self.write_masked(CSRname::mip as usize, src, SIESIPMASK),
+            SIP => self.write_masked(CSRname::mip as usize, src, SIPWRITEMASK),
             MISA => {
                 if *self.pc.borrow() % 4 != 0 {
                     let c_ext_bit = (self.csrs[MISA] >> 2) & 1;
-- 
2.43.0


From 89e6d7a1857c5ca9979f1b63c1242a82972358e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:37 +0000
Subject: [PATCH 48/81] fix: a guest cannot raise mip.MEIP by writing it

---
 src/bus/plic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 4d9f740..9eb83a7 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -63,7 +63,7 @@ impl Plic {
                 PlicContext::new(PrivilegedLevel::Machine),
                 PlicContext::new(PrivilegedLevel::Supervisor),
             ],
-            mip_mask: 0,
+            mip_mask: 1 << 11, // MEIP always follows the interrupt line
             mip_value: 0,
             base_addr: 0x0c00_0000,
             size: PLIC_SIZE,
-- 
2.43.0


From d402f97216e61995e59bcdad3529835a2d9ad00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:02 +0000
Subject: [PATCH 49/81] fix: a failing pwrite returns the error number

---
 src/fesvr/syscall.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index e225cfb..b955862 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -138,7 +138,7 @@ impl FrontendServer {
             )
         };
 
-        wrote_len as i64
+        sysret_errno(wrote_len as i64)
     }
 
     pub fn fstatat(
-- 
2.43.0


From 68220c6105f996aabec45a1fb404b9b7c35be5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:04 +0000
Subject: [PATCH 50/81] fix: a failing fstat or fstatat leaves the guest buffer
 alone

---
 src/fesvr/syscall.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index b955862..593a54f 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -186,7 +186,7 @@ impl FrontendServer {
         };
 
         let ret = sysret_errno(ret.into());
-        if ret != -1 {
+        if ret == 0 {
             let rbuf = rbuf
                 .iter()
                 .flat_map(|w| w.to_le_bytes().to_vec())
@@ -228,7 +228,7 @@ impl FrontendServer {
         };
 
         let ret = sysret_errno(ret as i64);
-        if ret != -1 {
+        if ret == 0 {
             let rbuf = rbuf
                 .iter()
                 .flat_map(|w| w.to_le_bytes().to_vec())
-- 
2.43.0


From 0d6d44ac9aa51b901c2635670c8b3fdd2cdaa528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 51/81] fix: stat results have uid, gid and block size in their
 places

---
 src/fesvr/syscall.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index 593a54f..86011e4 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -168,11 +168,11 @@ impl FrontendServer {
                     buf.st_dev,
                     buf.st_ino,
                     buf.st_nlink << 32 | buf.st_mode as u64,
-                    (buf.st_uid as u64) << 32 | buf.st_gid as u64,
+                    (buf.st_gid as u64) << 32 | buf.st_uid as u64,
                     buf.st_rdev,
                     PADDING,
                     buf.st_size as u64,
-                    (buf.st_blksize as u32 as u64) << 32 | PADDING,
+                    PADDING << 32 | buf.st_blksize as u32 as u64,
                     buf.st_blocks as u64,
                     buf.st_atime as u64,
                     PADDING,
@@ -210,11 +210,11 @@ impl FrontendServer {
                     buf.st_dev,
                     buf.st_ino,
                     buf.st_nlink << 32 | buf.st_mode as u64,
-                    (buf.st_uid as u64) << 32 | buf.st_gid as u64,
+                    (buf.st_gid as u64) << 32 | buf.st_uid as u64,
                     buf.st_rdev,
                     PADDING,
                     buf.st_size as u64,
-                    (buf.st_blksize as u32 as u64) << 32 | PADDING,
+                    PADDING << 32 | buf.st_blksize as u32 as u64,
                     buf.st_blocks as u64,
                     buf.st_atime as u64,
                     PADDING,
-- 
2.43.0


From 3dd20406ca233bab0a2c1c14d28092d0bcdb0d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 52/81] fix: openat and fstatat resolve a guest directory
 descriptor like any other

---
 src/fesvr.rs         | 8 ++++++++
 src/fesvr/syscall.rs | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fesvr.rs b/src/fesvr.rs
index b5c64ef..2a68722 100644
--- a/src/fesvr.rs
+++ b/src/fesvr.rs
@@ -27,6 +27,14 @@ impl FrontendServer {
         self.fd_table[fd as usize] = None;
     }
 
+    pub fn dirfd_lookup(&self, dirfd: u64) -> i64 {
+        if dirfd as i32 == libc::AT_FDCWD {
+            libc::AT_FDCWD as i64
+        } else {
+            self.fd_lookup(dirfd)
+        }
+    }
+
     pub fn fd_lookup(&self, fd: u64) -> i64 {
         if fd >= self.fd_table.len() as u64 {
             -1
diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index 86011e4..3e9ab63 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -44,7 +44,7 @@ impl FrontendServer {
         let name: &str = std::str::from_utf8(name.split_last().unwrap().1).unwrap();
         let fd = sysret_errno(unsafe {
             libc::openat(
-                dirfd as i32,
+                self.dirfd_lookup(dirfd) as i32,
                 name.as_ptr() as *const i8,
                 flags as i32,
                 mode as i32,
@@ -157,7 +157,7 @@ impl FrontendServer {
             const PADDING: u64 = 0;
             let mut buf: libc::stat = std::mem::zeroed();
             let ret = libc::fstatat(
-                dirfd as i32,
+                self.dirfd_lookup(dirfd) as i32,
                 name.as_ptr() as *const i8,
                 &mut buf as *mut libc::stat,
                 flags as i32,
-- 
2.43.0


From 56b77c4deeb05d65086048472c4f821f1d8f84b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 53/81] fix: a proxied file name may hold any bytes

---
 src/fesvr/syscall.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index 3e9ab63..1507525 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -3,6 +3,7 @@ use crate::fesvr::FrontendServer;
 use crate::log;
 use crate::Arguments;
 use libc::c_void;
+use std::ffi::CString;
 
 fn memread(cpu: &mut Cpu, addr: u64, len: u64) -> Vec<u8> {
     let mut buf = Vec::new();
@@ -13,6 +14,13 @@ fn memread(cpu: &mut Cpu, addr: u64, len: u64) -> Vec<u8> {
     buf
 }
 
+fn memread_name(cpu: &mut Cpu, addr: u64, len: u64) -> CString {
+    let mut name = memread(cpu, addr, len);
+    name.truncate(name.iter().position(|c| *c == 0).unwrap_or(name.len()));
+
+    CString::new(name).unwrap()
+}
+
 fn memwrite(cpu: &mut Cpu, addr: u64, len: usize, data: Vec<u8>) {
     for off in 0..len as u64 {
         cpu.bus
@@ -40,12 +48,11 @@ impl FrontendServer {
         mode: u64,
     ) -> i64 {
         log::infoln!("sys_openat(56)");
-        let name: Vec<u8> = memread(cpu, name_addr, len);
-        let name: &str = std::str::from_utf8(name.split_last().unwrap().1).unwrap();
+        let name = memread_name(cpu, name_addr, len);
         let fd = sysret_errno(unsafe {
             libc::openat(
                 self.dirfd_lookup(dirfd) as i32,
-                name.as_ptr() as *const i8,
+                name.as_ptr(),
                 flags as i32,
                 mode as i32,
             ) as i64
@@ -151,14 +158,13 @@ impl FrontendServer {
         flags: u64,
     ) -> i64 {
         log::infoln!("sys_fstatat(79)");
-        let name: Vec<u8> = memread(cpu, name_addr, len);
-        let name: &str = std::str::from_utf8(name.split_last().unwrap().1).unwrap();
+        let name = memread_name(cpu, name_addr, len);
         let (ret, rbuf) = unsafe {
             const PADDING: u64 = 0;
             let mut buf: libc::stat = std::mem::zeroed();
             let ret = libc::fstatat(
                 self.dirfd_lookup(dirfd) as i32,
-                name.as_ptr() as *const i8,
+                name.as_ptr(),
                 &mut buf as *mut libc::stat,
                 flags as i32,
             );
-- 
2.43.0


From ca3b18caf00081914dc060914749e284d84acdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:24 +0000
Subject: [PATCH 54/81] fix: a satp write with an unsupported mode has no
 effect

---
 src/cpu/csr.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index dc2cd82..dc68b4b 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -12,6 +12,7 @@ const SSTATUS: usize = CSRname::sstatus as usize;
 const MSTATUS: usize = CSRname::mstatus as usize;
 const SIE: usize = CSRname::sie as usize;
 const SIP: usize = CSRname::sip as usize;
+const SATP: usize = CSRname::satp as usize;
 const SIESIPMASK: u64 = 0x0333;
 const SIPWRITEMASK: u64 = 1 << 1; // only SSIP, the other bits belong to the devices
 const UXL_SXL: u64 = 0b1111 << 32;
@@ -97,6 +98,7 @@ impl CSRs {
         let dist = dist.unwrap();
 
         let prev_mstatus = self.csrs[MSTATUS];
+        let prev_satp = self.csrs[SATP];
         let mask = self.mask_warl(dist, src.fix2regsz(&self.isa));
         if mask != 0 {
             match dist {
@@ -108,6 +110,7 @@ impl CSRs {
             }
         }
         self.legalize_mpp(prev_mstatus);
+        self.legalize_satp(prev_satp);
 
         Ok(())
     }
@@ -120,6 +123,7 @@ impl CSRs {
         let dist = dist.unwrap();
 
         let prev_mstatus = self.csrs[MSTATUS];
+        let prev_satp = self.csrs[SATP];
         let mask = self.mask_warl(dist, src.fix2regsz(&self.isa));
         if mask != 0 {
             match dist {
@@ -131,6 +135,7 @@ impl CSRs {
             }
         }
         self.legalize_mpp(prev_mstatus);
+        self.legalize_satp(prev_satp);
 
         Ok(())
     }
@@ -143,6 +148,16 @@ impl CSRs {
         }
     }
 
+    // a write of satp with an unsupported mode has no effect (only Bare and Sv39 exist in RV64)
+    fn legalize_satp(&mut self, prev_satp: u64) {
+        if let Isa::Rv64 = *self.isa {
+            let mode = self.csrs[SATP] >> 60;
+            if mode != 0 && mode != 8 {
+                self.csrs[SATP] = prev_satp;
+            }
+        }
+    }
+
     // replace only the bits of a CSR which are in the mask
     fn write_masked(&mut self, dist: usize, src: u64, mask: u64) {
         self.csrs[dist] = (self.csrs[dist] & !mask) | (src & mask);
@@ -156,6 +171,7 @@ impl CSRs {
         let dist = dist.unwrap();
 
         let prev_mstatus = self.csrs[MSTATUS];
+        let prev_satp = self.csrs[SATP];
         let src = src.fix2regsz(&self.isa);
         match dist {
             USTATUS => self.write_masked(MSTATUS, src, self.umask()),
@@ -178,6 +194,7 @@ impl CSRs {
             other => self.csrs[other] = src,
         }
         self.legalize_mpp(prev_mstatus);
+        self.legalize_satp(prev_satp);
         self.update_triggers(dist, src);
 
         Ok(())
-- 
2.43.0


From 6e657b46407fa912d91ee6a42017a9807e018feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:41 +0000
Subject: [PATCH 55/81] fix: ELF header tables larger than 64 KiB are read at
 the right offsets

---
 src/elfload/elf_32/program_header.rs | 2 +-
 src/elfload/elf_32/section_header.rs | 4 ++--
 src/elfload/elf_64/program_header.rs | 2 +-
 src/elfload/elf_64/section_header.rs | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/elfload/elf_32/program_header.rs b/src/elfload/elf_32/program_header.rs
index 1266692..7b67d1c 100644
--- a/src/elfload/elf_32/program_header.rs
+++ b/src/elfload/elf_32/program_header.rs
@@ -33,7 +33,7 @@ impl ProgramHeader32 {
 
         for segment_num in 0..elf_header.e_phnum {
             let segment_start: usize =
-                (elf_header.e_phoff + (elf_header.e_phentsize * segment_num) as u32) as usize;
+                (elf_header.e_phoff + elf_header.e_phentsize as u32 * segment_num as u32) as usize;
 
             new_prog.push(Box::new(ProgramHeader32 {
                 p_type: get_u32(mmap, segment_start),
diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index 3620bff..17dc80d 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -19,12 +19,12 @@ impl SectionHeader32 {
     pub fn new_sect(mmap: &[u8], elf_header: &ElfHeader32) -> Vec<Box<dyn SectionHeader>> {
         let mut new_sect: Vec<Box<dyn SectionHeader>> = Vec::new();
         let name_table =
-            elf_header.e_shoff + (elf_header.e_shentsize * elf_header.e_shstrndx) as u32;
+            elf_header.e_shoff + elf_header.e_shentsize as u32 * elf_header.e_shstrndx as u32;
         let name_table_off: usize = get_u32(mmap, (name_table as usize) + 16) as usize;
 
         for section_num in 0..elf_header.e_shnum {
             let section_head: usize =
-                (elf_header.e_shoff + (elf_header.e_shentsize * section_num) as u32) as usize;
+                (elf_header.e_shoff + elf_header.e_shentsize as u32 * section_num as u32) as usize;
 
             new_sect.push(Box::new(SectionHeader32 {
                 sh_name: SectionHeader32::get_sh_name(mmap, section_head, name_table_off),
diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index c1e6753..ceb9271 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -33,7 +33,7 @@ impl ProgramHeader64 {
 
         for segment_num in 0..elf_header.e_phnum {
             let segment_start: usize =
-                (elf_header.e_phoff + (elf_header.e_phentsize * segment_num) as u64) as usize;
+                (elf_header.e_phoff + elf_header.e_phentsize as u64 * segment_num as u64) as usize;
 
             new_prog.push(Box::new(ProgramHeader64 {
                 p_type: get_u32(mmap, segment_start),
diff --git a/src/elfload/elf_64/section_header.rs b/src/elfload/elf_64/section_header.rs
index c957e30..876a284 100644
--- a/src/elfload/elf_64/section_header.rs
+++ b/src/elfload/elf_64/section_header.rs
@@ -20,12 +20,12 @@ impl SectionHeader64 {
     pub fn new_sect(mmap: &[u8], elf_header: &ElfHeader64) -> Vec<Box<dyn SectionHeader>> {
         let mut new_sect: Vec<Box<dyn SectionHeader>> = Vec::new();
         let name_table =
-            elf_header.e_shoff + (elf_header.e_shentsize * elf_header.e_shstrndx) as u64;
+            elf_header.e_shoff + elf_header.e_shentsize as u64 * elf_header.e_shstrndx as u64;
         let name_table_off: usize = get_u64(mmap, (name_table as usize) + 24) as usize;
 
         for section_num in 0..elf_header.e_shnum {
             let section_head: usize =
-                (elf_header.e_shoff + (elf_header.e_shentsize * section_num) as u64) as usize;
+                (elf_header.e_shoff + elf_header.e_shentsize as u64 * section_num as u64) as usize;
 
             new_sect.push(Box::new(SectionHeader64 {
                 sh_name: Self::get_sh_name(mmap, section_head, name_table_off),
-- 
2.43.0


From 4cc83c4a291ca5372cc7a18dab2cb31b7fde8d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:43 +0000
Subject: [PATCH 56/81] fix: p_memsz and p_align of an ELF64 segment are read
 from their own fields

---
 src/elfload/elf_64/program_header.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index ceb9271..8e24340 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -42,8 +42,8 @@ impl ProgramHeader64 {
                 p_vaddr: get_u64(mmap, segment_start + 16),
                 p_paddr: get_u64(mmap, segment_start + 24),
                 p_filesz: get_u64(mmap, segment_start + 32),
-                p_memsz: get_u64(mmap, segment_start + 48),
-                p_align: get_u64(mmap, segment_start + 56),
+                p_memsz: get_u64(mmap, segment_start + 40),
+                p_align: get_u64(mmap, segment_start + 48),
             }));
         }
 
-- 
2.43.0


From 3d6d050b8c06fcb974e37de5f5aed93eafb118c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:45 +0000
Subject: [PATCH 57/81] fix: the device tree names the translation mode the
 RV64 MMU has

---
 src/bus/device_tree/dts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bus/device_tree/dts.rs b/src/bus/device_tree/dts.rs
index a66f17d..a64f1be 100644
--- a/src/bus/device_tree/dts.rs
+++ b/src/bus/device_tree/dts.rs
@@ -106,7 +106,7 @@ fn dts_64(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
               status = \"okay\";
               compatible = \"riscv\";
               riscv,isa = \"rv64imac\";
-              mmu-type = \"riscv,sv57\";
+              mmu-type = \"riscv,sv39\";
               riscv,pmpregions = <16>;
               riscv,pmpgranularity = <4>;
               clock-frequency = <1000000000>;
-- 
2.43.0


From 07efcc37c9bde56750499cec069317553ceaa16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 58/81] fix: give the guest duplicates of the standard streams

A guest closing descriptor 0, 1 or 2 closed the emulator's own stream:
serial output was lost from then on, and the next file opened took over
the descriptor the UART reads or writes.
---
 src/fesvr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fesvr.rs b/src/fesvr.rs
index 2a68722..8ac4e15 100644
--- a/src/fesvr.rs
+++ b/src/fesvr.rs
@@ -7,8 +7,12 @@ pub struct FrontendServer {
 
 impl FrontendServer {
     pub fn new() -> Self {
+        // the program gets duplicates: closing one must not close the stream
+        // the emulator itself (the UART) uses
         FrontendServer {
-            fd_table: vec![Some(0), Some(1), Some(2)],
+            fd_table: (0..3)
+                .map(|fd| Some(unsafe { libc::dup(fd) } as u64))
+                .collect(),
         }
     }
 
-- 
2.43.0


From b722b59c48bd042e4c5a14c89dc53d43414c2ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 59/81] fix: let the counter-enable bits govern the upper
 counter halves on RV32

---
 src/cpu/execution/inst_32/zicsr_extension.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index 4077de6..86072f0 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -1,5 +1,6 @@
 use crate::cpu::instruction::{Instruction, OpecodeKind};
 use crate::cpu::{CSRname, Cpu, PrivilegedLevel, TrapCause, Xstatus};
+use crate::Isa;
 
 fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, TrapCause, String)> {
     if dist >= 4096 {
@@ -19,6 +20,11 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
         ));
     }
 
+    // the upper half of a counter is as accessible as the counter itself
+    if matches!(*cpu.isa, Isa::Rv32) && (0xc80..=0xc9f).contains(&dist) {
+        check_accessible(cpu, dist - 0x80)?;
+    }
+
     match cpu.priv_lv() {
         PrivilegedLevel::User => {
             if (0xc00..=0xc1f).contains(&dist) {
-- 
2.43.0


From dbe8e1475c5b5f4519467edd2194871fb8ec0501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 60/81] fix: selecting a trigger that does not exist keeps the
 selection instead of panicking

---
 src/cpu/csr/breakpoint.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cpu/csr/breakpoint.rs b/src/cpu/csr/breakpoint.rs
index d2f3dff..5be9747 100644
--- a/src/cpu/csr/breakpoint.rs
+++ b/src/cpu/csr/breakpoint.rs
@@ -13,8 +13,13 @@ impl CSRs {
         match dist {
             0x7a0 => {
                 // tselect
-                let tgr_index = src as usize;
+                let tgr_index = match src {
+                    // there is no such trigger, keep the selection
+                    8.. => self.triggers.tselect,
+                    _ => src as usize,
+                };
                 self.triggers.tselect = tgr_index;
+                self.csrs[CSRname::tselect as usize] = tgr_index as u64;
                 self.csrs[CSRname::tdata1 as usize] = self.triggers.tdata1[tgr_index];
                 self.csrs[CSRname::tdata2 as usize] = self.triggers.tdata2[tgr_index];
             }
-- 
2.43.0


From 199522ef2cfa26e8c0c7376407f4684d23c22cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:27 +0000
Subject: [PATCH 61/81] fix: unsupported trigger types and options are refused
 instead of panicking later

---
 src/cpu/csr/breakpoint.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/cpu/csr/breakpoint.rs b/src/cpu/csr/breakpoint.rs
index 5be9747..7ed02eb 100644
--- a/src/cpu/csr/breakpoint.rs
+++ b/src/cpu/csr/breakpoint.rs
@@ -8,6 +8,20 @@ pub struct Triggers {
     pub tdata2: [u64; 8],
 }
 
+// tdata1 is WARL: only equal-match mcontrol (type 2) triggers without options exist
+fn legalize_tdata1(tdata1: u64, isa: &Isa) -> u64 {
+    const M_S_U_EXECUTE_STORE_LOAD: u64 = 0b101_1111;
+    let type_shift = match isa {
+        Isa::Rv32 => 28,
+        Isa::Rv64 => 60,
+    };
+
+    match tdata1 >> type_shift & 0xF {
+        0x2 => tdata1 & (0xF << type_shift | M_S_U_EXECUTE_STORE_LOAD),
+        _ => 0,
+    }
+}
+
 impl CSRs {
     pub fn update_triggers(&mut self, dist: usize, src: u64) {
         match dist {
@@ -25,7 +39,9 @@ impl CSRs {
             }
             0x7a1 => {
                 // tdata1
-                self.triggers.tdata1[self.triggers.tselect] = src;
+                let tdata1 = legalize_tdata1(src, &self.isa);
+                self.triggers.tdata1[self.triggers.tselect] = tdata1;
+                self.csrs[CSRname::tdata1 as usize] = tdata1;
             }
             0x7a2 => {
                 // tdata2
-- 
2.43.0


From 7451258465eb1c6986eaefe807399fef6fd8fed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 62/81] fix: CSRRS and CSRRC reach the selected trigger

---
 src/cpu/csr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index dc68b4b..752a1f2 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -111,6 +111,7 @@ impl CSRs {
         }
         self.legalize_mpp(prev_mstatus);
         self.legalize_satp(prev_satp);
+        self.update_triggers(dist, self.csrs[dist]);
 
         Ok(())
     }
@@ -136,6 +137,7 @@ impl CSRs {
         }
         self.legalize_mpp(prev_mstatus);
         self.legalize_satp(prev_satp);
+        self.update_triggers(dist, self.csrs[dist]);
 
         Ok(())
     }
-- 
2.43.0


From ee4b3239f64b193d03663f794b6a4cf5f456220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 63/81] fix: every trigger watches, whatever is selected and
 whatever modes the others watch

---
 src/cpu/csr/breakpoint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/csr/breakpoint.rs b/src/cpu/csr/breakpoint.rs
index 7ed02eb..aae8f26 100644
--- a/src/cpu/csr/breakpoint.rs
+++ b/src/cpu/csr/breakpoint.rs
@@ -58,7 +58,7 @@ impl Cpu {
         purpose: TransFor,
         addr: u64,
     ) -> Result<(), (Option<u64>, TrapCause, String)> {
-        for trigger_num in 0..self.csrs.triggers.tselect + 1 {
+        for trigger_num in 0..self.csrs.triggers.tdata1.len() {
             let tdata1 = self.csrs.triggers.tdata1[trigger_num];
             let trigger_type = match *self.isa {
                 Isa::Rv32 => tdata1 >> 28 & 0xF,
@@ -80,7 +80,7 @@ impl Cpu {
                         || self.priv_lv() == PrivilegedLevel::Supervisor && mode_s == 0x0
                         || self.priv_lv() == PrivilegedLevel::User && mode_u == 0x0
                     {
-                        return Ok(());
+                        continue;
                     }
 
                     if match_mode != 0x0 {
-- 
2.43.0


From e904e5d02febc3270f3a0563146df13bb74b41d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 64/81] fix: every PMP entry is read from its own configuration
 byte

---
 src/cpu/mmu/pmp.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index c91331b..9726137 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -1,7 +1,7 @@
 use super::Mmu;
 use crate::cpu::csr::CSRs;
 use crate::cpu::{PrivilegedLevel, TransFor, TrapCause};
-use crate::log;
+use crate::{log, Isa};
 
 impl Mmu {
     fn check_pmp(
@@ -44,11 +44,14 @@ impl Mmu {
         priv_lv: PrivilegedLevel,
         csrs: &CSRs,
     ) -> Result<u64, TrapCause> {
-        let pmpaddrs: Vec<usize> = (0x3B0..0x3BF).collect();
+        let pmpaddrs: Vec<usize> = (0x3B0..=0x3BF).collect();
+        // each entry has 8 bits; RV64 has only the even-numbered registers
         let get_pmpcfg = |pmpnum| {
-            let cfgnum = pmpnum / 4;
-            let cfgoff = pmpnum % 4;
-            csrs.read(Some(0x3A0 + cfgnum)).unwrap() >> (4 * cfgoff)
+            let (cfgnum, cfgoff) = match *self.isa {
+                Isa::Rv32 => (pmpnum / 4, pmpnum % 4),
+                Isa::Rv64 => (pmpnum / 8 * 2, pmpnum % 8),
+            };
+            csrs.read(Some(0x3A0 + cfgnum)).unwrap() >> (8 * cfgoff)
         };
 
         for index in 0..pmpaddrs.len() {
-- 
2.43.0


From daa25215101db31cba0c3392a27d0552cca192b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 65/81] fix: a PMP entry that is off does not end the search

---
 src/cpu/mmu/pmp.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index 9726137..8cf16fe 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -54,6 +54,17 @@ impl Mmu {
             csrs.read(Some(0x3A0 + cfgnum)).unwrap() >> (8 * cfgoff)
         };
 
+        // nothing is protected until an entry is switched on
+        let any_entry = match *self.isa {
+            Isa::Rv32 => (0x3A0..=0x3A3).any(|cfg| csrs.read(Some(cfg)).unwrap() & 0x18181818 != 0),
+            Isa::Rv64 => (0x3A0..=0x3A2)
+                .step_by(2)
+                .any(|cfg| csrs.read(Some(cfg)).unwrap() & 0x1818181818181818 != 0),
+        };
+        if !any_entry {
+            return Ok(addr);
+        }
+
         for index in 0..pmpaddrs.len() {
             // pmpaddr0 ~ pmpaddr15
             let pmpcfg = get_pmpcfg(index);
@@ -62,7 +73,7 @@ impl Mmu {
             let pmp_x = pmpcfg >> 2 & 0x1;
             let pmp_a = pmpcfg >> 3 & 0x3;
             match pmp_a {
-                0b00 => return Ok(addr),
+                0b00 => (), // this entry is switched off
                 0b01 => {
                     // TOR
                     let addr_aligned = addr >> 2; // addr[:2]
-- 
2.43.0


From 1eed186a9584ca605d5fd51e8a72d41086db09b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 66/81] fix: a PMP violation is an access fault, not a page
 fault

---
 src/cpu/mmu/pmp.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index 8cf16fe..0566c8e 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -17,19 +17,19 @@ impl Mmu {
             TransFor::Fetch | TransFor::Deleg => {
                 if pmp_x != 1 {
                     log::debugln!("invalid pmp_x: {:x}", pmpcfg);
-                    return Err(TrapCause::InstPageFault);
+                    return Err(TrapCause::InstAccessFault);
                 }
             }
             TransFor::Load => {
                 if pmp_r != 1 {
                     log::debugln!("invalid pmp_r: {:x}", pmpcfg);
-                    return Err(TrapCause::LoadPageFault);
+                    return Err(TrapCause::LoadAccessFault);
                 }
             }
             TransFor::StoreAMO => {
                 if pmp_w != 1 {
                     log::debugln!("invalid pmp_w: {:x}", pmpcfg);
-                    return Err(TrapCause::StoreAMOPageFault);
+                    return Err(TrapCause::StoreAMOAccessFault);
                 }
             }
         }
@@ -115,9 +115,9 @@ impl Mmu {
             Ok(addr)
         } else {
             Err(match purpose {
-                TransFor::Fetch | TransFor::Deleg => TrapCause::InstPageFault,
-                TransFor::Load => TrapCause::LoadPageFault,
-                TransFor::StoreAMO => TrapCause::StoreAMOPageFault,
+                TransFor::Fetch | TransFor::Deleg => TrapCause::InstAccessFault,
+                TransFor::Load => TrapCause::LoadAccessFault,
+                TransFor::StoreAMO => TrapCause::StoreAMOAccessFault,
             })
         }
     }
-- 
2.43.0


From 693c6ff47e165c9253dbab9afad02331f149bbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 67/81] fix: unlocked PMP entries do not bind M-mode

---
 src/cpu/mmu/pmp.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index 0566c8e..71a8763 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -72,6 +72,12 @@ impl Mmu {
             let pmp_w = pmpcfg >> 1 & 0x1;
             let pmp_x = pmpcfg >> 2 & 0x1;
             let pmp_a = pmpcfg >> 3 & 0x3;
+            let pmp_l = pmpcfg >> 7 & 0x1;
+            // M-mode is bound by locked entries only
+            let (pmp_r, pmp_w, pmp_x) = match priv_lv {
+                PrivilegedLevel::Machine if pmp_l == 0 => (1, 1, 1),
+                _ => (pmp_r, pmp_w, pmp_x),
+            };
             match pmp_a {
                 0b00 => (), // this entry is switched off
                 0b01 => {
-- 
2.43.0


From 14c952fb51925b83780b7c05b550f60c03f17cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 68/81] fix: PMP applies to untranslated S- and U-mode accesses
 too

---
 src/cpu/mmu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index 77e7a7b..318081d 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -191,7 +191,7 @@ impl Mmu {
 
         match priv_lv {
             PrivilegedLevel::Supervisor | PrivilegedLevel::User => match self.trans_mode {
-                AddrTransMode::Bare => Ok(addr),
+                AddrTransMode::Bare => self.pmp(purpose, addr, priv_lv, csrs),
                 AddrTransMode::Sv32 | AddrTransMode::Sv39 => {
                     // bits 63-39 of a Sv39 virtual address must all equal bit 38
                     if matches!(*self.isa, Isa::Rv64) && ((addr << 25) as i64 >> 25) as u64 != addr
-- 
2.43.0


From f436fcd075dff0fa4a735acce178d8f6c768ee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 69/81] fix: locked PMP entries keep their registers, bits that
 do not exist read as zero

---
 src/cpu/csr.rs     | 39 +++++++++++++++++++++++++++++++++++++++
 src/cpu/mmu/pmp.rs | 10 +---------
 2 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 752a1f2..b174f5b 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -99,6 +99,7 @@ impl CSRs {
 
         let prev_mstatus = self.csrs[MSTATUS];
         let prev_satp = self.csrs[SATP];
+        let prev = self.csrs[dist];
         let mask = self.mask_warl(dist, src.fix2regsz(&self.isa));
         if mask != 0 {
             match dist {
@@ -111,6 +112,7 @@ impl CSRs {
         }
         self.legalize_mpp(prev_mstatus);
         self.legalize_satp(prev_satp);
+        self.legalize_pmp(dist, prev);
         self.update_triggers(dist, self.csrs[dist]);
 
         Ok(())
@@ -125,6 +127,7 @@ impl CSRs {
 
         let prev_mstatus = self.csrs[MSTATUS];
         let prev_satp = self.csrs[SATP];
+        let prev = self.csrs[dist];
         let mask = self.mask_warl(dist, src.fix2regsz(&self.isa));
         if mask != 0 {
             match dist {
@@ -137,6 +140,7 @@ impl CSRs {
         }
         self.legalize_mpp(prev_mstatus);
         self.legalize_satp(prev_satp);
+        self.legalize_pmp(dist, prev);
         self.update_triggers(dist, self.csrs[dist]);
 
         Ok(())
@@ -160,6 +164,39 @@ impl CSRs {
         }
     }
 
+    // the configuration byte of a PMP entry, RV64 has only the even-numbered registers
+    pub fn pmpcfg(&self, index: usize) -> u64 {
+        match *self.isa {
+            Isa::Rv32 => self.csrs[0x3A0 + index / 4] >> (8 * (index % 4)) & 0xFF,
+            Isa::Rv64 => self.csrs[0x3A0 + index / 8 * 2] >> (8 * (index % 8)) & 0xFF,
+        }
+    }
+
+    // locked PMP entries cannot be changed, and not all bits of the registers exist
+    fn legalize_pmp(&mut self, dist: usize, prev: u64) {
+        const LOCK: u64 = 1 << 7;
+        const LOCK_A: u64 = 0b11 << 3 | LOCK;
+        const LOCKED_TOR: u64 = 0b01 << 3 | LOCK;
+
+        match dist {
+            0x3A0..=0x3A3 => {
+                let locked = (0..8)
+                    .filter(|i| prev >> (8 * i) & LOCK != 0)
+                    .fold(0, |mask, i| mask | 0xFF << (8 * i));
+                self.csrs[dist] = prev & locked | self.csrs[dist] & !locked & 0x9F9F_9F9F_9F9F_9F9F;
+            }
+            0x3B0..=0x3BF => {
+                let index = dist - 0x3B0;
+                let next_tor = index < 15 && self.pmpcfg(index + 1) & LOCK_A == LOCKED_TOR;
+                if self.pmpcfg(index) & LOCK != 0 || next_tor {
+                    self.csrs[dist] = prev;
+                }
+                self.csrs[dist] &= (1 << 54) - 1; // bits 55:2 of an address
+            }
+            _ => (),
+        }
+    }
+
     // replace only the bits of a CSR which are in the mask
     fn write_masked(&mut self, dist: usize, src: u64, mask: u64) {
         self.csrs[dist] = (self.csrs[dist] & !mask) | (src & mask);
@@ -174,6 +211,7 @@ impl CSRs {
 
         let prev_mstatus = self.csrs[MSTATUS];
         let prev_satp = self.csrs[SATP];
+        let prev = self.csrs[dist];
         let src = src.fix2regsz(&self.isa);
         match dist {
             USTATUS => self.write_masked(MSTATUS, src, self.umask()),
@@ -197,6 +235,7 @@ impl CSRs {
         }
         self.legalize_mpp(prev_mstatus);
         self.legalize_satp(prev_satp);
+        self.legalize_pmp(dist, prev);
         self.update_triggers(dist, src);
 
         Ok(())
diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index 71a8763..549f457 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -45,14 +45,6 @@ impl Mmu {
         csrs: &CSRs,
     ) -> Result<u64, TrapCause> {
         let pmpaddrs: Vec<usize> = (0x3B0..=0x3BF).collect();
-        // each entry has 8 bits; RV64 has only the even-numbered registers
-        let get_pmpcfg = |pmpnum| {
-            let (cfgnum, cfgoff) = match *self.isa {
-                Isa::Rv32 => (pmpnum / 4, pmpnum % 4),
-                Isa::Rv64 => (pmpnum / 8 * 2, pmpnum % 8),
-            };
-            csrs.read(Some(0x3A0 + cfgnum)).unwrap() >> (8 * cfgoff)
-        };
 
         // nothing is protected until an entry is switched on
         let any_entry = match *self.isa {
@@ -67,7 +59,7 @@ impl Mmu {
 
         for index in 0..pmpaddrs.len() {
             // pmpaddr0 ~ pmpaddr15
-            let pmpcfg = get_pmpcfg(index);
+            let pmpcfg = csrs.pmpcfg(index);
             let pmp_r = pmpcfg & 0x1;
             let pmp_w = pmpcfg >> 1 & 0x1;
             let pmp_x = pmpcfg >> 2 & 0x1;
-- 
2.43.0


From a05a6a2ca94a9685ed3ae0ff3287ee354e3f62fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 70/81] fix: PMP decides about every byte of an access

---
 src/cpu.rs         | 20 +++++++++++++-----
 src/cpu/mmu.rs     |  7 ++++---
 src/cpu/mmu/pmp.rs | 52 ++++++++++++++++++++--------------------------
 3 files changed, 42 insertions(+), 37 deletions(-)

diff --git a/src/cpu.rs b/src/cpu.rs
index 208b3bf..8ead2b1 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -165,12 +165,22 @@ impl Cpu {
             }
         }
 
-        match self
-            .mmu
-            .trans_addr(purpose, addr, &self.csrs, &mut self.bus.dram, trans_priv)
-        {
+        let align = align as u64;
+        // instructions are fetched by halves
+        let len = match purpose {
+            TransFor::Fetch | TransFor::Deleg => 2,
+            TransFor::Load | TransFor::StoreAMO => align,
+        };
+        match self.mmu.trans_addr(
+            purpose,
+            addr,
+            len,
+            &self.csrs,
+            &mut self.bus.dram,
+            trans_priv,
+        ) {
             Ok(paddr) => {
-                if addr % align as u64 == 0 {
+                if addr % align == 0 {
                     // Sv32 physical addresses have 34 bits
                     Ok(paddr)
                 } else {
diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index 318081d..bc0360d 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -180,6 +180,7 @@ impl Mmu {
         &mut self,
         purpose: TransFor,
         addr: u64,
+        len: u64,
         csrs: &CSRs,
         dram: &mut Dram,
         priv_lv: PrivilegedLevel,
@@ -191,7 +192,7 @@ impl Mmu {
 
         match priv_lv {
             PrivilegedLevel::Supervisor | PrivilegedLevel::User => match self.trans_mode {
-                AddrTransMode::Bare => self.pmp(purpose, addr, priv_lv, csrs),
+                AddrTransMode::Bare => self.pmp(purpose, addr, len, priv_lv, csrs),
                 AddrTransMode::Sv32 | AddrTransMode::Sv39 => {
                     // bits 63-39 of a Sv39 virtual address must all equal bit 38
                     if matches!(*self.isa, Isa::Rv64) && ((addr << 25) as i64 >> 25) as u64 != addr
@@ -283,11 +284,11 @@ impl Mmu {
                         paddr,
                     );
 
-                    self.pmp(purpose, paddr, priv_lv, csrs)
+                    self.pmp(purpose, paddr, len, priv_lv, csrs)
                 }
             },
             // return raw address if privileged level is Machine
-            _ => self.pmp(purpose, addr, priv_lv, csrs),
+            _ => self.pmp(purpose, addr, len, priv_lv, csrs),
         }
     }
 }
diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index 549f457..94a051b 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -41,6 +41,7 @@ impl Mmu {
         &self,
         purpose: TransFor,
         addr: u64,
+        len: u64,
         priv_lv: PrivilegedLevel,
         csrs: &CSRs,
     ) -> Result<u64, TrapCause> {
@@ -70,42 +71,35 @@ impl Mmu {
                 PrivilegedLevel::Machine if pmp_l == 0 => (1, 1, 1),
                 _ => (pmp_r, pmp_w, pmp_x),
             };
-            match pmp_a {
-                0b00 => (), // this entry is switched off
+            let pmpaddr = csrs.read(Some(pmpaddrs[index])).unwrap();
+            let region = match pmp_a {
+                0b00 => continue, // this entry is switched off
                 0b01 => {
                     // TOR
-                    let addr_aligned = addr >> 2; // addr[:2]
-                    if (index == 0 && addr_aligned < csrs.read(Some(pmpaddrs[index])).unwrap())
-                        || (index != 0
-                            && csrs.read(Some(pmpaddrs[index - 1])).unwrap() <= addr_aligned
-                            && addr_aligned < csrs.read(Some(pmpaddrs[index])).unwrap())
-                    {
-                        return self.check_pmp(purpose, addr, pmpcfg, pmp_r, pmp_w, pmp_x);
-                    }
-                }
-                0b10 => {
-                    // NA4
-                    let addr_aligned = addr >> 2; // addr[:2]
-                    if addr_aligned == csrs.read(Some(pmpaddrs[index])).unwrap() {
-                        return self.check_pmp(purpose, addr, pmpcfg, pmp_r, pmp_w, pmp_x);
-                    }
+                    let base = match index {
+                        0 => 0,
+                        _ => csrs.read(Some(pmpaddrs[index - 1])).unwrap(),
+                    };
+                    base << 2..pmpaddr << 2
                 }
+                // NA4
+                0b10 => pmpaddr << 2..(pmpaddr << 2) + 4,
                 0b11 => {
                     // NAPOT
-                    let mut addr_aligned = addr >> 2; // addr[:2]
-                    let mut pmpaddr = csrs.read(Some(pmpaddrs[index])).unwrap();
-                    while pmpaddr & 0x1 == 1 {
-                        pmpaddr >>= 1;
-                        addr_aligned >>= 1;
-                    }
-                    pmpaddr >>= 1;
-                    addr_aligned >>= 1;
-
-                    if addr_aligned == pmpaddr {
-                        return self.check_pmp(purpose, addr, pmpcfg, pmp_r, pmp_w, pmp_x);
-                    }
+                    let ones = pmpaddr.trailing_ones();
+                    let base = (pmpaddr >> ones << ones) << 2;
+                    base..base + (8 << ones)
                 }
                 _ => panic!("pmp_a does not matched"),
+            };
+
+            // the first entry with any byte of the access decides, and must have all of them
+            let end = addr.saturating_add(len);
+            if region.start < end && addr < region.end && !region.is_empty() {
+                if addr < region.start || region.end < end {
+                    return self.check_pmp(purpose, addr, pmpcfg, 0, 0, 0);
+                }
+                return self.check_pmp(purpose, addr, pmpcfg, pmp_r, pmp_w, pmp_x);
             }
         }
 
-- 
2.43.0


From e18aa0048308174a287bfd7bb65d1c720930fadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 71/81] fix: PMP applies to page table accesses

---
 src/cpu/mmu.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index bc0360d..034cd5b 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -78,7 +78,13 @@ impl Mmu {
         }
     }
 
-    fn load_pte(&self, purpose: TransFor, dram: &mut Dram, addr: u64) -> Result<u64, TrapCause> {
+    fn load_pte(
+        &self,
+        purpose: TransFor,
+        csrs: &CSRs,
+        dram: &mut Dram,
+        addr: u64,
+    ) -> Result<u64, TrapCause> {
         // a page table outside of the memory raises an access fault of the original access
         let access_fault = match purpose {
             TransFor::Fetch | TransFor::Deleg => TrapCause::InstAccessFault,
@@ -89,6 +95,20 @@ impl Mmu {
             return Err(access_fault);
         }
 
+        // the walk itself is a read of S-mode
+        let pte_size = match *self.isa {
+            Isa::Rv32 => 4,
+            Isa::Rv64 => 8,
+        };
+        self.pmp(
+            TransFor::Load,
+            addr,
+            pte_size,
+            PrivilegedLevel::Supervisor,
+            csrs,
+        )
+        .map_err(|_| access_fault)?;
+
         match *self.isa {
             Isa::Rv32 => dram.load32(addr),
             Isa::Rv64 => dram.load64(addr),
@@ -221,7 +241,7 @@ impl Mmu {
                     let pte = loop {
                         let pte_addr = ppn * PAGESIZE + vpn[level as usize] * pte_size;
                         log::debugln!("pte_addr({}): 0x{:x}", level, pte_addr);
-                        let pte = self.load_pte(purpose, dram, pte_addr)?;
+                        let pte = self.load_pte(purpose, csrs, dram, pte_addr)?;
                         let pte = self.check_pte_validity(purpose, pte)?;
                         log::debugln!("pte({}): 0x{:x}", level, pte);
 
-- 
2.43.0


From 93ca158bed7cf9e8020618c5bbba0bd06116135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 72/81] fix: the time CSRs follow the machine timer, also when
 it is written

---
 src/cpu.rs      | 3 ---
 src/cpu/csr.rs  | 9 +++++++--
 src/cpu/trap.rs | 1 +
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cpu.rs b/src/cpu.rs
index 8ead2b1..5317289 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -212,9 +212,6 @@ impl Cpu {
         const MTIME: u64 = 0x0200_BFF8;
         let mtime: u64 = self.bus.load64(MTIME).unwrap();
         self.bus.store64(MTIME, mtime + inc).unwrap();
-
-        // time(CSRs: 0xc01)
-        self.csrs.timer_increment(inc);
     }
 }
 
diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index b174f5b..fe5089d 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -410,8 +410,13 @@ impl CSRs {
         }
     }
 
-    pub fn timer_increment(&mut self, inc: u64) {
-        self.csrs[CSRname::timer as usize] += inc;
+    // time is a read-only copy of mtime
+    pub fn set_time(&mut self, mtime: u64) {
+        const TIMEH: usize = 0xc81;
+        self.csrs[CSRname::timer as usize] = mtime;
+        if let Isa::Rv32 = *self.isa {
+            self.csrs[TIMEH] = mtime >> 32;
+        }
     }
 }
 
diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index 584771e..c6f7a74 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -15,6 +15,7 @@ impl Cpu {
         const MTIMECMP: u64 = 0x0200_4000;
         let mtime: u64 = self.bus.load64(MTIME).unwrap();
         let mtimecmp: u64 = self.bus.load64(MTIMECMP).unwrap();
+        self.csrs.set_time(mtime);
         if mtime >= mtimecmp {
             self.csrs
                 .bitset(CSRname::mip.wrap(), 1 << MTIP | 1 << STIP)
-- 
2.43.0


From 62fe8742a842b6c0b89c11320056c8a72e2f5219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 73/81] fix: the cycle counter is readable where the counter
 enables say so

---
 src/cpu/execution/inst_32/zicsr_extension.rs | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index 86072f0..d4c84b8 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -120,15 +120,6 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
 
     if csrs_ranges.iter().any(|x| x.contains(&dist)) {
         match dist {
-            // == depends on access type ==
-            0xc00 => match cpu.priv_lv() {
-                PrivilegedLevel::Machine => Ok(()),
-                _ => Err((
-                    None,
-                    TrapCause::IllegalInst,
-                    format!("writing to cycle is not allowed: {dist:x}"),
-                )),
-            },
             // == depends on privilege ==
             // scounteren(0x106) only allow higher
             0x106 => {
-- 
2.43.0


From d094f01359f7db9669f9947c7b1da428b93d9ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 74/81] fix: misa is read only, clearing C in it left
 compressed instructions on but cut exception pcs

---
 src/cpu/csr.rs | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index fe5089d..81531a8 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -21,13 +21,12 @@ const MHPMCOUNTER3: usize = CSRname::mhpmcounter3 as usize;
 pub struct CSRs {
     csrs: [u64; 4096],
     triggers: Triggers,
-    pc: Rc<RefCell<u64>>,
     isa: Rc<Isa>,
 }
 
 #[allow(clippy::identity_op)]
 impl CSRs {
-    pub fn new(isa: Rc<Isa>, pc: Rc<RefCell<u64>>) -> Self {
+    pub fn new(isa: Rc<Isa>, _pc: Rc<RefCell<u64>>) -> Self {
         CSRs {
             csrs: [0; 4096],
             triggers: Triggers {
@@ -35,7 +34,6 @@ impl CSRs {
                 tdata1: [0; 8],
                 tdata2: [0; 8],
             },
-            pc,
             isa,
         }
     }
@@ -43,10 +41,9 @@ impl CSRs {
     pub fn init(mut self) -> Self {
         self.write(CSRname::marchid.wrap(), 0x5).unwrap();
         match *self.isa {
-            Isa::Rv32 => self.write(CSRname::misa.wrap(), 0x40141105).unwrap(),
+            Isa::Rv32 => self.csrs[MISA] = 0x40141105,
             Isa::Rv64 => {
-                self.write(CSRname::misa.wrap(), 0x8000000000141105)
-                    .unwrap();
+                self.csrs[MISA] = 0x8000000000141105;
                 self.write(CSRname::mstatus.wrap(), 0x0000000a00000000)
                     .unwrap();
             }
@@ -74,13 +71,7 @@ impl CSRs {
 
     fn mask_warl(&mut self, dst: usize, mask: u64) -> u64 {
         match dst {
-            MISA => {
-                if *self.pc.borrow() % 4 != 0 {
-                    mask & !0b100 // clear C extension flag
-                } else {
-                    mask
-                }
-            }
+            MISA => 0, // no extension can be switched on or off
             MSTATUS | SSTATUS => match *self.isa {
                 Isa::Rv32 => mask,
                 Isa::Rv64 => mask & !UXL_SXL,
@@ -218,14 +209,7 @@ impl CSRs {
             SSTATUS => self.write_masked(MSTATUS, src, self.smask() & !UXL_SXL),
             SIE => self.write_masked(CSRname::mie as usize, src, SIESIPMASK),
             SIP => self.write_masked(CSRname::mip as usize, src, SIPWRITEMASK),
-            MISA => {
-                if *self.pc.borrow() % 4 != 0 {
-                    let c_ext_bit = (self.csrs[MISA] >> 2) & 1;
-                    self.csrs[MISA] = (src & !0b100) | c_ext_bit
-                } else {
-                    self.csrs[MISA] = src
-                }
-            }
+            MISA => (), // no extension can be switched on or off
             MSTATUS => match *self.isa {
                 Isa::Rv32 => self.csrs[dist] = src,
                 Isa::Rv64 => self.csrs[dist] = (src & !(0b1111 << 32)) | 0b1010 << 32,
-- 
2.43.0


From e5a9728d8f8a5c36be3bbb96750406af57cb6366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 75/81] fix: segment dump goes past the file's bytes of the
 segment

Only p_filesz bytes of a segment are in the file. Dumping p_memsz bytes showed
unrelated parts of the file for .bss, or panicked at its end, and so did the
last word of a segment whose size is not a multiple of four.
---
 src/elfload/elf_32/program_header.rs | 11 ++++++-----
 src/elfload/elf_64/program_header.rs | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/elfload/elf_32/program_header.rs b/src/elfload/elf_32/program_header.rs
index 7b67d1c..e39b62e 100644
--- a/src/elfload/elf_32/program_header.rs
+++ b/src/elfload/elf_32/program_header.rs
@@ -65,14 +65,15 @@ impl ProgramHeader for ProgramHeader32 {
     }
 
     fn dump(&self, mmap: &[u8]) {
-        for (block, dump_part) in (self.p_offset..self.p_offset + self.p_memsz)
-            .step_by(4)
-            .enumerate()
-        {
+        let start = self.p_offset as usize;
+        let end = start + self.p_filesz as usize;
+        for (block, bytes) in mmap[start..end].chunks(4).enumerate() {
+            let mut word = [0; 4];
+            word[..bytes.len()].copy_from_slice(bytes);
             if block % 8 == 0 {
                 println!()
             }
-            print!("{:08x} ", get_u32(mmap, dump_part as usize));
+            print!("{:08x} ", u32::from_le_bytes(word));
         }
     }
 
diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index 8e24340..eab4ce6 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -65,14 +65,15 @@ impl ProgramHeader for ProgramHeader64 {
     }
 
     fn dump(&self, mmap: &[u8]) {
-        for (block, dump_part) in (self.p_offset..self.p_offset + self.p_memsz)
-            .step_by(4)
-            .enumerate()
-        {
+        let start = self.p_offset as usize;
+        let end = start + self.p_filesz as usize;
+        for (block, bytes) in mmap[start..end].chunks(4).enumerate() {
+            let mut word = [0; 4];
+            word[..bytes.len()].copy_from_slice(bytes);
             if block % 8 == 0 {
                 println!()
             }
-            print!("{:08x} ", get_u32(mmap, dump_part as usize));
+            print!("{:08x} ", u32::from_le_bytes(word));
         }
     }
 
-- 
2.43.0


From 313740ee889f96d5947690e6e0b36995f3225435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 76/81] fix: section dump goes past the end of the section

A section that ends within an instruction was dumped on and on until the file
ended with a panic, and so was one that takes no space in the file.
---
 src/elfload/elf_32/section_header.rs | 24 ++++++++++++++++++++++--
 src/elfload/elf_64/section_header.rs | 24 ++++++++++++++++++++++--
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index 17dc80d..b55de49 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -109,11 +109,31 @@ impl SectionHeader for SectionHeader32 {
 
     fn dump(&self, mmap: &[u8]) {
         use crate::cpu::decode::Decode;
+        const SHT_NOBITS: u32 = 8;
 
         println!("--------------------------------");
         let mut dump_head = self.sh_offset;
-        while dump_head != self.sh_offset + self.sh_size {
-            if is_cinst(mmap, dump_head as usize) {
+        let section_end = if self.sh_type == SHT_NOBITS {
+            dump_head // nothing of it is in the file
+        } else {
+            self.sh_offset + self.sh_size
+        };
+        while dump_head < section_end {
+            let inst_size = if is_cinst(mmap, dump_head as usize) {
+                2
+            } else {
+                4
+            };
+            if section_end - dump_head < inst_size {
+                // the section ends within an instruction
+                for byte in &mmap[dump_head as usize..section_end as usize] {
+                    print!("{byte:02x} ");
+                }
+                println!();
+                break;
+            }
+
+            if inst_size == 2 {
                 let mdump = get_u16(mmap, dump_head as usize);
                 let inst = mdump.decode(Isa::Rv32);
                 dump_head += 2;
diff --git a/src/elfload/elf_64/section_header.rs b/src/elfload/elf_64/section_header.rs
index 876a284..db78e7a 100644
--- a/src/elfload/elf_64/section_header.rs
+++ b/src/elfload/elf_64/section_header.rs
@@ -113,11 +113,31 @@ impl SectionHeader for SectionHeader64 {
 
     fn dump(&self, mmap: &[u8]) {
         use crate::cpu::decode::Decode;
+        const SHT_NOBITS: u32 = 8;
 
         println!("--------------------------------");
         let mut dump_head = self.sh_offset;
-        while dump_head != self.sh_offset + self.sh_size {
-            if is_cinst(mmap, dump_head as usize) {
+        let section_end = if self.sh_type == SHT_NOBITS {
+            dump_head // nothing of it is in the file
+        } else {
+            self.sh_offset + self.sh_size
+        };
+        while dump_head < section_end {
+            let inst_size = if is_cinst(mmap, dump_head as usize) {
+                2
+            } else {
+                4
+            };
+            if section_end - dump_head < inst_size {
+                // the section ends within an instruction
+                for byte in &mmap[dump_head as usize..section_end as usize] {
+                    print!("{byte:02x} ");
+                }
+                println!();
+                break;
+            }
+
+            if inst_size == 2 {
                 let mdump = get_u16(mmap, dump_head as usize);
                 let inst = mdump.decode(Isa::Rv64);
                 dump_head += 2;
-- 
2.43.0


From c6439024f7896289a0b28e9f86c8de3069005c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 77/81] fix: disassembly panics at what is not an instruction

Data, padding and unsupported instructions in an executable section ended the
dump with a panic.
---
 src/elfload/elf_32/section_header.rs | 10 ++++++++--
 src/elfload/elf_64/section_header.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index b55de49..3337165 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -139,14 +139,20 @@ impl SectionHeader for SectionHeader32 {
                 dump_head += 2;
 
                 print!("{mdump:<04x}\t\t");
-                inst.unwrap().print_myself();
+                match inst {
+                    Ok(inst) => inst.print_myself(),
+                    Err(_) => print!("unknown"),
+                }
             } else {
                 let mdump = get_u32(mmap, dump_head as usize);
                 let inst = mdump.decode(Isa::Rv32);
                 dump_head += 4;
 
                 print!("{mdump:<08x}\t");
-                inst.unwrap().print_myself();
+                match inst {
+                    Ok(inst) => inst.print_myself(),
+                    Err(_) => print!("unknown"),
+                }
             }
             println!();
         }
diff --git a/src/elfload/elf_64/section_header.rs b/src/elfload/elf_64/section_header.rs
index db78e7a..2020e8b 100644
--- a/src/elfload/elf_64/section_header.rs
+++ b/src/elfload/elf_64/section_header.rs
@@ -143,14 +143,20 @@ impl SectionHeader for SectionHeader64 {
                 dump_head += 2;
 
                 print!("{mdump:<04x}\t\t");
-                inst.unwrap().print_myself();
+                match inst {
+                    Ok(inst) => inst.print_myself(),
+                    Err(_) => print!("unknown"),
+                }
             } else {
                 let mdump = get_u32(mmap, dump_head as usize);
                 let inst = mdump.decode(Isa::Rv64);
                 dump_head += 4;
 
                 print!("{mdump:<08x}\t");
-                inst.unwrap().print_myself();
+                match inst {
+                    Ok(inst) => inst.print_myself(),
+                    Err(_) => print!("unknown"),
+                }
             }
             println!();
         }
-- 
2.43.0


From 0edcdbfa6481204ab9210864c266d565114ee2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 78/81] fix: sh_entsize of 32-bit images is read at the wrong
 offset

---
 src/elfload/elf_32/section_header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index 3337165..63e5879 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -36,7 +36,7 @@ impl SectionHeader32 {
                 sh_link: get_u32(mmap, section_head + 24),
                 sh_info: get_u32(mmap, section_head + 28),
                 sh_addralign: get_u32(mmap, section_head + 32),
-                sh_entsize: get_u32(mmap, section_head + 34),
+                sh_entsize: get_u32(mmap, section_head + 36),
             }));
         }
 
-- 
2.43.0


From d69c867d89b444ec1a125d4f97c6511531a1675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 79/81] fix: stray comma in the mnemonic of mulhsu

---
 src/cpu/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/instruction.rs b/src/cpu/instruction.rs
index a009ab4..d92ac4b 100644
--- a/src/cpu/instruction.rs
+++ b/src/cpu/instruction.rs
@@ -399,7 +399,7 @@ impl Instruction {
             OpecodeKind::OP_SFENCE_VMA => "sfence.vma",
             OpecodeKind::OP_MUL => "mul",
             OpecodeKind::OP_MULH => "mulh",
-            OpecodeKind::OP_MULHSU => "mulhsu,",
+            OpecodeKind::OP_MULHSU => "mulhsu",
             OpecodeKind::OP_MULHU => "mulhu",
             OpecodeKind::OP_DIV => "div",
             OpecodeKind::OP_DIVU => "divu",
-- 
2.43.0


From 3af316d87cec1e376dd6c3a63dc222366452fbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 80/81] fix: malformed entry addresses are accepted

A repeated 0x prefix or a plus sign in --pc was ignored.
---
 src/cmdline.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cmdline.rs b/src/cmdline.rs
index fe51ec5..1bdd79d 100644
--- a/src/cmdline.rs
+++ b/src/cmdline.rs
@@ -70,7 +70,9 @@ impl Arguments {
         };
 
         let init_pc = app.value_of("pc").map(|x| {
-            u64::from_str_radix(x.trim_start_matches("0x"), 16)
+            u64::from_str_radix(x.strip_prefix("0x").unwrap_or(x), 16)
+                .ok()
+                .filter(|_| !x.contains('+'))
                 .expect("invalid pc\nplease set value as hex (e.g. --pc=0x80000000)")
         });
 
-- 
2.43.0


From 3156b7c05f631c362f0cf1ea7ab969d9cc0cc3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:25 +0000
Subject: [PATCH 81/81] fix: names of section and segment types (init arrays,
 TLS, processor range)

---
 src/elfload/elf_32/program_header.rs |  5 +++--
 src/elfload/elf_32/section_header.rs | 13 +++++++++----
 src/elfload/elf_64/program_header.rs |  5 +++--
 src/elfload/elf_64/section_header.rs | 13 +++++++++----
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/elfload/elf_32/program_header.rs b/src/elfload/elf_32/program_header.rs
index e39b62e..dbad50f 100644
--- a/src/elfload/elf_32/program_header.rs
+++ b/src/elfload/elf_32/program_header.rs
@@ -10,8 +10,9 @@ fn get_segment_type_name(segment_type: u32) -> &'static str {
         4 => "PT_NOTE",
         5 => "PT_SHLIB",
         6 => "PT_PHDR",
-        7 => "PT_LOPROC",
-        8 => "PT_HIPROC",
+        7 => "PT_TLS",
+        0x7000_0000 => "PT_LOPROC",
+        0x7fff_ffff => "PT_HIPROC",
         _ => "unknown type",
     }
 }
diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index 63e5879..56f1d50 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -85,10 +85,15 @@ impl SectionHeader for SectionHeader32 {
             9 => "SHT_REL",
             10 => "SHT_SHLIB",
             11 => "SHT_DYNSYM",
-            12 => "SHT_LOPROC",
-            13 => "SHT_HIPROC",
-            14 => "SHT_LOUSER",
-            15 => "SHT_HIUSER",
+            14 => "SHT_INIT_ARRAY",
+            15 => "SHT_FINI_ARRAY",
+            16 => "SHT_PREINIT_ARRAY",
+            17 => "SHT_GROUP",
+            18 => "SHT_SYMTAB_SHNDX",
+            0x7000_0000 => "SHT_LOPROC",
+            0x7fff_ffff => "SHT_HIPROC",
+            0x8000_0000 => "SHT_LOUSER",
+            0xffff_ffff => "SHT_HIUSER",
             _ => "unknown type",
         }
     }
diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index eab4ce6..cf55d4e 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -10,8 +10,9 @@ fn get_segment_type_name(segment_type: u32) -> &'static str {
         4 => "PT_NOTE",
         5 => "PT_SHLIB",
         6 => "PT_PHDR",
-        7 => "PT_LOPROC",
-        8 => "PT_HIPROC",
+        7 => "PT_TLS",
+        0x7000_0000 => "PT_LOPROC",
+        0x7fff_ffff => "PT_HIPROC",
         _ => "unknown type",
     }
 }
diff --git a/src/elfload/elf_64/section_header.rs b/src/elfload/elf_64/section_header.rs
index 2020e8b..bad7c24 100644
--- a/src/elfload/elf_64/section_header.rs
+++ b/src/elfload/elf_64/section_header.rs
@@ -89,10 +89,15 @@ impl SectionHeader for SectionHeader64 {
             9 => "SHT_REL",
             10 => "SHT_SHLIB",
             11 => "SHT_DYNSYM",
-            12 => "SHT_LOPROC",
-            13 => "SHT_HIPROC",
-            14 => "SHT_LOUSER",
-            15 => "SHT_HIUSER",
+            14 => "SHT_INIT_ARRAY",
+            15 => "SHT_FINI_ARRAY",
+            16 => "SHT_PREINIT_ARRAY",
+            17 => "SHT_GROUP",
+            18 => "SHT_SYMTAB_SHNDX",
+            0x7000_0000 => "SHT_LOPROC",
+            0x7fff_ffff => "SHT_HIPROC",
+            0x8000_0000 => "SHT_LOUSER",
+            0xffff_ffff => "SHT_HIUSER",
             _ => "unknown type",
         }
     }
-- 
2.43.0

