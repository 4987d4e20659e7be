From a196d077d634f1717a0ec2e771390485f7ac5adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:41:50 +0000
Subject: [PATCH 01/40] fix: never bypass a writeback into the zero register

Loads with rd=x0 write back to physical register 0. The bypass network
forwarded that value to instructions reading x0 in the same window, so x0
could read as the loaded data. Physical register 0 now always reads 0.
---
 back-end/Prf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/back-end/Prf.cpp b/back-end/Prf.cpp
index a4e8e01..3677d09 100644
--- a/back-end/Prf.cpp
+++ b/back-end/Prf.cpp
@@ -14,7 +14,8 @@ static inline bool is_killed(const ExePrfIO::ExePrfWbUop &uop,
 inline uint32_t read_operand_with_bypass(
     uint32_t preg, bool src_en, const reg<32> *reg_file,
     const ExePrfIO::ExePrfEntry *inst_r, const ExePrfIO *exe2prf) {
-  if (!src_en) {
+  // preg 0 恒为 x0：目的为 x0 的写回（如 load x0）不得经旁路被读到。
+  if (!src_en || preg == 0) {
     return 0;
   }
 
-- 
2.43.0


From b25e8d3ba04de6a9f21d7e1838c406ef22759c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:41:50 +0000
Subject: [PATCH 02/40] fix: give DIV, FP and MUL delayed wake-ups separate
 channels

DIV and FP share issue port 1, and delayed wake-ups were sent on one channel
per port. When a DIV and an FP result became due in the same cycle, the second
wake-up overwrote the first and the consumer of the DIV waited forever.
Each delayed unit now has its own wake-up channel.
---
 back-end/Isu.cpp         | 39 +++++++++------------------------------
 include/config.h         |  3 ++-
 include/config.h.default |  3 ++-
 include/config.h.large   |  3 ++-
 include/config.h.medium  |  3 ++-
 include/config.h.small   |  3 ++-
 6 files changed, 19 insertions(+), 35 deletions(-)

diff --git a/back-end/Isu.cpp b/back-end/Isu.cpp
index 48ab793..bfc9c2b 100644
--- a/back-end/Isu.cpp
+++ b/back-end/Isu.cpp
@@ -337,44 +337,29 @@ void Isu::comb_awake() {
     out.iss_awake->wake[i].preg = 0;
   }
 
-  uint64_t delayed_mask = OP_MASK_MUL | OP_MASK_DIV | OP_MASK_FP | OP_MASK_CSR;
   uint64_t fast_mask = OP_MASK_ALU;
 
+  // 延迟唤醒按 FU 类型分配独立通道：DIV/FP/MUL 可能共享同一发射端口，
+  // 却可能在同一拍到期，不能按端口共享通道。
   int lsu_base = 0;
-  int delayed_base = lsu_base + LSU_LOAD_WB_WIDTH;
-  int fast_base = delayed_base + count_ports_with_mask(delayed_mask);
+  int div_base = lsu_base + LSU_LOAD_WB_WIDTH;
+  int fp_base = div_base + ISU_DIV_WAKE_SLOT_NUM;
+  int mul_base = fp_base + ISU_FP_WAKE_SLOT_NUM;
+  int fast_base = mul_base + ISU_MUL_WAKE_SLOT_NUM;
 
-  int delayed_ch_map[ISSUE_WIDTH];
   int fast_ch_map[ISSUE_WIDTH];
   for (int i = 0; i < ISSUE_WIDTH; i++) {
-    delayed_ch_map[i] = -1;
     fast_ch_map[i] = -1;
   }
   
-  int cur_del = delayed_base;
   int cur_fst = fast_base;
   for (int i = 0; i < ISSUE_WIDTH; i++) {
     uint64_t cap = get_port_capability(i);
-    if (cap & delayed_mask) {
-      delayed_ch_map[i] = cur_del++;
-    }
     if (cap & fast_mask) {
       fast_ch_map[i] = cur_fst++;
     }
   }
 
-
-  auto get_port_for_unit = [](uint64_t op_mask, int unit_idx) {
-    int seen = 0;
-    for (int p = 0; p < ISSUE_WIDTH; p++) {
-      if (get_port_capability(p) & op_mask) {
-        if (seen == unit_idx) return p;
-        seen++;
-      }
-    }
-    return -1;
-  };
-
   // 来源 A: 慢速唤醒 (来自写回阶段：Load / 缓存缺失)
   for (int i = 0; i < LSU_LOAD_WB_WIDTH; i++) {
     if (in.prf_awake->wake[i].valid) {
@@ -388,9 +373,7 @@ void Isu::comb_awake() {
   for (int i = 0; i < ISU_DIV_WAKE_SLOT_NUM; i++) {
     const auto &slot = div_wake_slots[i];
     if (slot.valid && slot.countdown == 0) {
-      int port = get_port_for_unit(OP_MASK_DIV, i);
-      int ch = delayed_ch_map[port];
-      Assert(ch != -1);
+      int ch = div_base + i;
       Assert(!out.iss_awake->wake[ch].valid && "Delayed writeback collision");
       out.iss_awake->wake[ch].valid = true;
       out.iss_awake->wake[ch].preg = slot.dest_preg;
@@ -401,9 +384,7 @@ void Isu::comb_awake() {
   for (int i = 0; i < ISU_FP_WAKE_SLOT_NUM; i++) {
     const auto &slot = fp_wake_slots[i];
     if (slot.valid && slot.countdown == 0) {
-      int port = get_port_for_unit(OP_MASK_FP, i);
-      int ch = delayed_ch_map[port];
-      Assert(ch != -1);
+      int ch = fp_base + i;
       Assert(!out.iss_awake->wake[ch].valid && "Delayed writeback collision");
       out.iss_awake->wake[ch].valid = true;
       out.iss_awake->wake[ch].preg = slot.dest_preg;
@@ -415,9 +396,7 @@ void Isu::comb_awake() {
     if (MUL_MAX_LATENCY > 1) {
       const auto &slot = mul_wake_pipe[ISU_MUL_WAKE_DEPTH - 1][i];
       if (slot.valid) {
-        int port = get_port_for_unit(OP_MASK_MUL, i);
-        int ch = delayed_ch_map[port];
-        Assert(ch != -1);
+        int ch = mul_base + i;
         Assert(!out.iss_awake->wake[ch].valid && "Delayed writeback collision");
         out.iss_awake->wake[ch].valid = true;
         out.iss_awake->wake[ch].preg = slot.dest_preg;
diff --git a/include/config.h b/include/config.h
index 5ca7cc2..3f68891 100644
--- a/include/config.h
+++ b/include/config.h
@@ -445,7 +445,8 @@ constexpr int DTLB_ENTRIES = 16;
 
 constexpr int MAX_WAKEUP_PORTS =
     LSU_LOAD_WB_WIDTH + count_ports_with_mask(OP_MASK_ALU) +
-    count_ports_with_mask(OP_MASK_MUL | OP_MASK_DIV | OP_MASK_FP | OP_MASK_CSR);
+    count_ports_with_mask(OP_MASK_MUL) + count_ports_with_mask(OP_MASK_DIV) +
+    count_ports_with_mask(OP_MASK_FP);
 
 // ============================================================
 // ISU Scheduling Policy
diff --git a/include/config.h.default b/include/config.h.default
index 512bd45..af23f3a 100644
--- a/include/config.h.default
+++ b/include/config.h.default
@@ -461,7 +461,8 @@ constexpr int DTLB_ENTRIES = 64;
 
 constexpr int MAX_WAKEUP_PORTS =
     LSU_LOAD_WB_WIDTH + count_ports_with_mask(OP_MASK_ALU) +
-    count_ports_with_mask(OP_MASK_MUL | OP_MASK_DIV | OP_MASK_FP | OP_MASK_CSR);
+    count_ports_with_mask(OP_MASK_MUL) + count_ports_with_mask(OP_MASK_DIV) +
+    count_ports_with_mask(OP_MASK_FP);
 
 // ============================================================
 // ISU Scheduling Policy
diff --git a/include/config.h.large b/include/config.h.large
index 36bde1e..b09cd3c 100644
--- a/include/config.h.large
+++ b/include/config.h.large
@@ -448,7 +448,8 @@ constexpr int DTLB_ENTRIES = 32;
 
 constexpr int MAX_WAKEUP_PORTS =
     LSU_LOAD_WB_WIDTH + count_ports_with_mask(OP_MASK_ALU) +
-    count_ports_with_mask(OP_MASK_MUL | OP_MASK_DIV | OP_MASK_FP | OP_MASK_CSR);
+    count_ports_with_mask(OP_MASK_MUL) + count_ports_with_mask(OP_MASK_DIV) +
+    count_ports_with_mask(OP_MASK_FP);
 
 // ============================================================
 // ISU Scheduling Policy
diff --git a/include/config.h.medium b/include/config.h.medium
index 8ffdec5..2be062f 100644
--- a/include/config.h.medium
+++ b/include/config.h.medium
@@ -445,7 +445,8 @@ constexpr int DTLB_ENTRIES = 32;
 
 constexpr int MAX_WAKEUP_PORTS =
     LSU_LOAD_WB_WIDTH + count_ports_with_mask(OP_MASK_ALU) +
-    count_ports_with_mask(OP_MASK_MUL | OP_MASK_DIV | OP_MASK_FP | OP_MASK_CSR);
+    count_ports_with_mask(OP_MASK_MUL) + count_ports_with_mask(OP_MASK_DIV) +
+    count_ports_with_mask(OP_MASK_FP);
 
 // ============================================================
 // ISU Scheduling Policy
diff --git a/include/config.h.small b/include/config.h.small
index 5ca7cc2..3f68891 100644
--- a/include/config.h.small
+++ b/include/config.h.small
@@ -445,7 +445,8 @@ constexpr int DTLB_ENTRIES = 16;
 
 constexpr int MAX_WAKEUP_PORTS =
     LSU_LOAD_WB_WIDTH + count_ports_with_mask(OP_MASK_ALU) +
-    count_ports_with_mask(OP_MASK_MUL | OP_MASK_DIV | OP_MASK_FP | OP_MASK_CSR);
+    count_ports_with_mask(OP_MASK_MUL) + count_ports_with_mask(OP_MASK_DIV) +
+    count_ports_with_mask(OP_MASK_FP);
 
 // ============================================================
 // ISU Scheduling Policy
-- 
2.43.0


From 0ff9cd7d3a5001e347bb2acb86a1bf87c5271a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:06 +0000
Subject: [PATCH 03/40] fix: return RISC-V NaNs and saturated conversions from
 FP operations

The bundled softfloat uses the x86 conventions: NaN payloads are propagated
and invalid float-to-int conversions return 0x80000000 or 0xffffffff.
RISC-V requires the canonical NaN and saturated integers. Both the FPU model
and the reference CPU now convert the results accordingly.
---
 back-end/Exu/include/FPU.h | 44 ++++++++++++++++++++++++++------
 diff/ref.cpp               | 52 +++++++++++++++++++++++++++++---------
 2 files changed, 76 insertions(+), 20 deletions(-)

diff --git a/back-end/Exu/include/FPU.h b/back-end/Exu/include/FPU.h
index 1157f1b..fabb7bb 100644
--- a/back-end/Exu/include/FPU.h
+++ b/back-end/Exu/include/FPU.h
@@ -41,6 +41,34 @@ protected:
     return ((v & 0x7F800000u) == 0x7F800000u) && ((v & 0x007FFFFFu) != 0);
   }
 
+  // RISC-V: any NaN result is the canonical NaN.
+  static inline uint32_t canonical_f32(float32_t f) {
+    return is_nan_u32(f.v) ? 0x7fc00000u : f.v;
+  }
+
+  // RISC-V: invalid float-to-int conversions saturate; NaN converts as +inf.
+  static inline uint32_t f32_to_i32_riscv(float32_t a, uint_fast8_t rm) {
+    uint_fast8_t saved_flags = softfloat_exceptionFlags;
+    softfloat_exceptionFlags = 0;
+    uint32_t res = static_cast<uint32_t>(f32_to_i32(a, rm, true));
+    if (softfloat_exceptionFlags & softfloat_flag_invalid) {
+      res = (!is_nan_u32(a.v) && (a.v >> 31)) ? 0x80000000u : 0x7fffffffu;
+    }
+    softfloat_exceptionFlags |= saved_flags;
+    return res;
+  }
+
+  static inline uint32_t f32_to_ui32_riscv(float32_t a, uint_fast8_t rm) {
+    uint_fast8_t saved_flags = softfloat_exceptionFlags;
+    softfloat_exceptionFlags = 0;
+    uint32_t res = static_cast<uint32_t>(f32_to_ui32(a, rm, true));
+    if (softfloat_exceptionFlags & softfloat_flag_invalid) {
+      res = (!is_nan_u32(a.v) && (a.v >> 31)) ? 0u : 0xffffffffu;
+    }
+    softfloat_exceptionFlags |= saved_flags;
+    return res;
+  }
+
   static inline uint32_t f32_classify(float32_t f) {
     uint32_t bits = f.v;
     uint32_t sign = (bits >> 31) & 1u;
@@ -147,9 +175,9 @@ protected:
         case FCVT_W_S: {
             uint32_t rs2_sel = inst.imm & 0x1F;
             if (rs2_sel == 0) {
-              inst.result = static_cast<uint32_t>(f32_to_i32(a, softfloat_roundingMode, true));
+              inst.result = f32_to_i32_riscv(a, softfloat_roundingMode);
             } else if (rs2_sel == 1) {
-              inst.result = f32_to_ui32(a, softfloat_roundingMode, true);
+              inst.result = f32_to_ui32_riscv(a, softfloat_roundingMode);
             } else {
               assert(0);
             }
@@ -169,17 +197,17 @@ protected:
         default:
           switch (inst.func7 >> 2) {
         case FADD:
-            inst.result = f32_add(a,b).v;
+            inst.result = canonical_f32(f32_add(a,b));
             break;
         case FSUB:
             b.v ^= 0x80000000;
-            inst.result = f32_add(a,b).v;
+            inst.result = canonical_f32(f32_add(a,b));
             break;
         case FMUL:
-            inst.result = f32_mul(a,b).v;
+            inst.result = canonical_f32(f32_mul(a,b));
             break;
         case FDIV:
-            inst.result = f32_div(a,b).v;
+            inst.result = canonical_f32(f32_div(a,b));
             break;
         default:
             switch (inst.func7) {
@@ -188,7 +216,7 @@ protected:
               if (rs2_sel != 0) {
                 assert(0);
               }
-              inst.result = f32_sqrt(a).v;
+              inst.result = canonical_f32(f32_sqrt(a));
               break;
             }
             case FSGNJ:
@@ -239,7 +267,7 @@ protected:
         break;
     }
     default: {
-        inst.result = f32_add(a,b).v;
+        inst.result = canonical_f32(f32_add(a,b));
         break;
     }
     }
diff --git a/diff/ref.cpp b/diff/ref.cpp
index e7e6fe1..594292b 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -115,6 +115,34 @@ static inline bool is_snan(uint32_t v) {
   return is_nan(v) && !((v >> 22) & 1);
 }
 
+// RISC-V 规范：任何 NaN 结果都是 canonical NaN
+static inline uint32_t from_f32_canonical(float32_t f) {
+  return is_nan(f.v) ? 0x7fc00000 : f.v;
+}
+
+// RISC-V 规范：非法的浮点转整数饱和，NaN 按 +inf 处理
+static inline uint32_t f32_to_i32_riscv(float32_t f, uint_fast8_t rm) {
+  uint_fast8_t saved_flags = softfloat_exceptionFlags;
+  softfloat_exceptionFlags = 0;
+  uint32_t res = (uint32_t)f32_to_i32(f, rm, true);
+  if (softfloat_exceptionFlags & softfloat_flag_invalid) {
+    res = (!is_nan(f.v) && (f.v >> 31)) ? 0x80000000 : 0x7fffffff;
+  }
+  softfloat_exceptionFlags |= saved_flags;
+  return res;
+}
+
+static inline uint32_t f32_to_ui32_riscv(float32_t f, uint_fast8_t rm) {
+  uint_fast8_t saved_flags = softfloat_exceptionFlags;
+  softfloat_exceptionFlags = 0;
+  uint32_t res = (uint32_t)f32_to_ui32(f, rm, true);
+  if (softfloat_exceptionFlags & softfloat_flag_invalid) {
+    res = (!is_nan(f.v) && (f.v >> 31)) ? 0 : 0xffffffff;
+  }
+  softfloat_exceptionFlags |= saved_flags;
+  return res;
+}
+
 // RISC-V 规范的 FMIN 实现
 uint32_t f32_min_riscv(uint32_t a, uint32_t b) {
   // 1. 处理 sNaN 异常 (Invalid Operation)
@@ -691,19 +719,19 @@ void RefCpu::RV32Zfinx() {
     switch (funct7) {
     case 0x00: // FADD.S
       f_res = f32_add(f_rs1, f_rs2);
-      i_res = from_f32(f_res);
+      i_res = from_f32_canonical(f_res);
       break;
     case 0x04: // FSUB.S
       f_res = f32_sub(f_rs1, f_rs2);
-      i_res = from_f32(f_res);
+      i_res = from_f32_canonical(f_res);
       break;
     case 0x08: // FMUL.S
       f_res = f32_mul(f_rs1, f_rs2);
-      i_res = from_f32(f_res);
+      i_res = from_f32_canonical(f_res);
       break;
     case 0x0C: // FDIV.S
       f_res = f32_div(f_rs1, f_rs2);
-      i_res = from_f32(f_res);
+      i_res = from_f32_canonical(f_res);
       break;
     case 0x2C: // FSQRT.S (rs2 必须为 0)
       if (rs2 != 0) {
@@ -711,7 +739,7 @@ void RefCpu::RV32Zfinx() {
         return;
       }
       f_res = f32_sqrt(f_rs1);
-      i_res = from_f32(f_res);
+      i_res = from_f32_canonical(f_res);
       break;
 
     // 注入符号 (FSGNJ) - 纯位操作，不触发异常
@@ -752,9 +780,9 @@ void RefCpu::RV32Zfinx() {
     // 转换 (Convert)
     case 0x60: // FCVT.W.S (Float to Int32)
       if (rs2 == 0)
-        i_res = (uint32_t)f32_to_i32(f_rs1, softfloat_roundingMode, true);
+        i_res = f32_to_i32_riscv(f_rs1, softfloat_roundingMode);
       else if (rs2 == 1)
-        i_res = f32_to_ui32(f_rs1, softfloat_roundingMode, true);
+        i_res = f32_to_ui32_riscv(f_rs1, softfloat_roundingMode);
       else
         illegal_exception = true;
       break;
@@ -768,7 +796,7 @@ void RefCpu::RV32Zfinx() {
         illegal_exception = true;
         return;
       }
-      i_res = from_f32(f_res);
+      i_res = from_f32_canonical(f_res);
       break;
 
       // Zfinx 特殊说明：
@@ -802,7 +830,7 @@ void RefCpu::RV32Zfinx() {
   // 结果 = (rs1 * rs2) + rs3
   case 0x43: // FMADD.S
     f_res = f32_mulAdd(f_rs1, f_rs2, f_rs3);
-    i_res = from_f32(f_res);
+    i_res = from_f32_canonical(f_res);
     break;
   case 0x47: // FMSUB.S: (rs1 * rs2) - rs3
     // SoftFloat 的 mulAdd 定义通常是 a*b + c。
@@ -812,7 +840,7 @@ void RefCpu::RV32Zfinx() {
     {
       float32_t f_neg_rs3 = to_f32(val_rs3 ^ 0x80000000);
       f_res = f32_mulAdd(f_rs1, f_rs2, f_neg_rs3);
-      i_res = from_f32(f_res);
+      i_res = from_f32_canonical(f_res);
     }
     break;
   case 0x4B: // FNMSUB.S: -(rs1 * rs2) + rs3
@@ -821,14 +849,14 @@ void RefCpu::RV32Zfinx() {
     // SoftFloat 可能并没有直接对应指令，可能需要操作 rs1 或 rs2 符号
     float32_t f_neg_rs1 = to_f32(val_rs1 ^ 0x80000000);
     f_res = f32_mulAdd(f_neg_rs1, f_rs2, f_rs3);
-    i_res = from_f32(f_res);
+    i_res = from_f32_canonical(f_res);
   } break;
   case 0x4F: // FNMADD.S: -(rs1 * rs2) - rs3
   {
     float32_t f_neg_rs1 = to_f32(val_rs1 ^ 0x80000000);
     float32_t f_neg_rs3 = to_f32(val_rs3 ^ 0x80000000);
     f_res = f32_mulAdd(f_neg_rs1, f_rs2, f_neg_rs3);
-    i_res = from_f32(f_res);
+    i_res = from_f32_canonical(f_res);
   } break;
 
   default:
-- 
2.43.0


From 2e5b306d3291d41032b834c49daea393c066dccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:26 +0000
Subject: [PATCH 04/40] fix: mask the mode bits of mtvec/stvec when taking an
 exception

With vectored mode selected, synchronous exceptions must enter at the base
address. The trap pc kept the mode bit and pointed to base + 1.
---
 back-end/Exu/Csr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index dc3ec4d..6d1e911 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -194,7 +194,7 @@ void Csr::comb_exception() {
       out.csr2front->trap_pc = CSR_RegFile[csr_mtvec] & 0xfffffffc;
       out.csr2front->trap_pc += 4 * (cause & 0x7fffffff);
     } else {
-      out.csr2front->trap_pc = CSR_RegFile[csr_mtvec];
+      out.csr2front->trap_pc = CSR_RegFile[csr_mtvec] & 0xfffffffc;
     }
 
     mstatus = (mstatus & ~MSTATUS_MPP) | ((privilege & 0x3) << 11);
@@ -247,7 +247,7 @@ void Csr::comb_exception() {
       out.csr2front->trap_pc = CSR_RegFile[csr_stvec] & 0xfffffffc;
       out.csr2front->trap_pc += 4 * (cause & 0x7fffffff);
     } else {
-      out.csr2front->trap_pc = CSR_RegFile[csr_stvec];
+      out.csr2front->trap_pc = CSR_RegFile[csr_stvec] & 0xfffffffc;
     }
 
     // 更新 sstatus
-- 
2.43.0


From b94720fad4f8eb8f4b2b111fabce186eec3742f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:35 +0000
Subject: [PATCH 05/40] fix: report cause 11 for every environment call from
 M-mode

The cause of an M-mode ecall was 0 whenever U-mode environment calls were
delegated in medeleg. Delegation of U-mode calls does not concern M-mode.
---
 back-end/Exu/Csr.cpp | 3 +--
 diff/ref.cpp         | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index 6d1e911..d50fd84 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -176,8 +176,7 @@ void Csr::comb_exception() {
 
     cause += irq.m_software_interrupt ? 3
              : irq.m_timer_interrupt  ? 7
-             : (irq.m_external_interrupt ||
-                (ecall && (privilege == 3) && !medeleg_U_ecall))
+             : (irq.m_external_interrupt || (ecall && (privilege == 3)))
                  ? 11
              /*: illegal_exceptinn                                  ? 2*/
              : (ecall && (privilege == 0) && !medeleg_U_ecall) ? 8
diff --git a/diff/ref.cpp b/diff/ref.cpp
index 594292b..8e50e16 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -382,8 +382,7 @@ void RefCpu::exception(uint32_t trap_val) {
       exception_code = 3;
     else if (M_timer_interrupt)
       exception_code = 7;
-    else if (M_external_interrupt ||
-             (ecall && privilege == 3 && !medeleg_U_ecall))
+    else if (M_external_interrupt || (ecall && privilege == 3))
       exception_code = 11;
     else if (ecall && privilege == 0 && !medeleg_U_ecall)
       exception_code = 8;
-- 
2.43.0


From 7f6c169590d672e91dcf35770243c6111f964e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:46:41 +0000
Subject: [PATCH 06/40] fix: drop every in-flight MUL, DIV and FP operation on
 a pipeline flush

The units compared the flush mask with ~mask(0). The complement of a narrow
mask type is promoted to int, so the comparison never matched and operations
outside any branch shadow survived a trap. Their late result was written to a
physical register that had already been reallocated.
---
 back-end/Exu/include/AbstractFU.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/back-end/Exu/include/AbstractFU.h b/back-end/Exu/include/AbstractFU.h
index 6065305..1d6e9d7 100644
--- a/back-end/Exu/include/AbstractFU.h
+++ b/back-end/Exu/include/AbstractFU.h
@@ -23,6 +23,10 @@ public:
     ExuInst inst;        
   };
 
+  // 全局冲刷掩码；显式截断，避免窄类型取反后的整型提升使比较恒为假。
+  static constexpr auto FLUSH_ALL_MASK =
+      static_cast<wire<BR_MASK_WIDTH>>(~wire<BR_MASK_WIDTH>(0));
+
   FuInput in;
   FuOutput out;
   int issue_port_idx = -1;
@@ -117,7 +121,7 @@ public:
 
   void comb_ctrl() override {
     if (in.flush) {
-      if (in.flush_mask == ~wire<BR_MASK_WIDTH>(0)) {
+      if (in.flush_mask == FLUSH_ALL_MASK) {
         pipeline_1.clear();
       } else {
         auto it = pipeline_1.begin();
@@ -203,7 +207,7 @@ public:
 
   void comb_ctrl() override {
     if (in.flush && busy_1 &&
-        (in.flush_mask == ~wire<BR_MASK_WIDTH>(0) ||
+        (in.flush_mask == FLUSH_ALL_MASK ||
          (current_inst_1.br_mask & in.flush_mask) != 0)) {
       busy_1 = false;
       done_cycle_1 = 0;
-- 
2.43.0


From e9ec434348d862ec4ba5237ecba9b672da95b563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:51:23 +0000
Subject: [PATCH 07/40] fix: keep the faulting address of an AMO whose store
 part page-faults

The load part of the AMO overwrote the recorded fault address with the
physical address it had read from, so xtval held the wrong value.
---
 back-end/Rob.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/back-end/Rob.cpp b/back-end/Rob.cpp
index 2250455..631423f 100644
--- a/back-end/Rob.cpp
+++ b/back-end/Rob.cpp
@@ -580,8 +580,11 @@ void Rob::comb_complete() {
 
       for (int k = 0; k < LSU_LDU_COUNT; k++) {
         if (i == IQ_LD_PORT_BASE + k) {
-          // 保存物理地址，用于 Commit 时的对齐检查
-          entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          // 保存物理地址，用于 Commit 时的对齐检查；
+          // 同一条 AMO 的另一个 uop 已记录缺页地址时不得覆盖。
+          if (!rob_is_page_fault(entry_1[bank_idx][line_idx].uop)) {
+            entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          }
 
           if (wb_has_page_fault) {
             entry_1[bank_idx][line_idx].uop.diag_val = wb.result;
@@ -597,8 +600,11 @@ void Rob::comb_complete() {
 
       for (int k = 0; k < LSU_STA_COUNT; k++) {
         if (i == IQ_STA_PORT_BASE + k) {
-          // Keep resolved store address in ROB for commit-time policy checks.
-          entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          // Keep resolved store address in ROB for commit-time policy checks,
+          // unless the other uop of this AMO already recorded a fault address.
+          if (!rob_is_page_fault(entry_1[bank_idx][line_idx].uop)) {
+            entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          }
           if (wb_has_page_fault) {
             entry_1[bank_idx][line_idx].uop.diag_val = wb.result;
             entry_1[bank_idx][line_idx].uop.page_fault_load |=
-- 
2.43.0


From 0873a9246f371f27436a75b9f80fd1acaf1cdee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:51:23 +0000
Subject: [PATCH 08/40] fix: do not forward the data of a failed
 store-conditional

A younger load to the same word took its value from the store queue even when
the SC had failed and would never write memory. Wait until the outcome is
known and skip failed SCs.
---
 back-end/Lsu/RealLsu.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index b4f124e..2349d25 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -575,6 +575,17 @@ void RealLsu::comb_stlf() {
           }
           lsu_perf::count_stlf_check(ctx);
           STLFResult stlf_result = check_stlf(entry.p_addr, entry.func3, stq_entry.paddr, stq_entry.func3);
+          if (stlf_result != STLFResult::Disjoint && stq_entry.is_lrsc) {
+            // SC 在写回时才确定成败：未定时等待；失败的 SC 不写内存，不得前递。
+            if (stq_entry.store_state < StoreState::WaitCommit) {
+              entry.load_state = LoadState::CheckStlfRetry;
+              break;
+            }
+            if (!stq_entry.sc_pass) {
+              check_stlf_num++;
+              continue;
+            }
+          }
           if (stlf_result == STLFResult::Overlap) {
             if (!stq_entry.data_valid) {
               entry.load_state = LoadState::CheckStlfRetry;
-- 
2.43.0


From 73514b1c42ed58e200f3e2bf1719c3f25328d84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:53:04 +0000
Subject: [PATCH 09/40] fix: perform a device store only when it really commits

An interrupt taken on a device store squashes it, and the store runs again
after the handler returns. The peripheral model was still updated at the
interrupt, so the device saw the store twice.
---
 rv_simu_mmu_v2.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rv_simu_mmu_v2.cpp b/rv_simu_mmu_v2.cpp
index 9565f56..cc52c09 100644
--- a/rv_simu_mmu_v2.cpp
+++ b/rv_simu_mmu_v2.cpp
@@ -765,7 +765,9 @@ void SimCpu::commit_sync(InstInfo *inst, int commit_slot) {
     }
   }
 
-  if (inst->tma.mem_commit_is_store && !inst->page_fault_store) {
+  // 被中断打断的指令会在返回后重新执行，此处不得提前产生外设副作用。
+  if (inst->tma.mem_commit_is_store && !inst->page_fault_store &&
+      !static_cast<bool>(back->rob->out.rob_bcast->interrupt)) {
     StqEntry e = back->lsu->get_stq_entry(inst->stq_idx, inst->stq_flag);
     const bool store_suppressed = static_cast<bool>(e.suppress_write) &&
                                   e.rob_idx == inst->rob_idx &&
-- 
2.43.0


From b38608a0923dc90720cbb1f632e1fa2abeecb654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:57:18 +0000
Subject: [PATCH 10/40] fix: drop the pending CSR write of a squashed CSR
 instruction

A CSR write latched at execution stayed armed when an interrupt squashed the
instruction. The next committed CSR read then performed that write.
---
 back-end/Exu/Csr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index d50fd84..b94c7bf 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -393,6 +393,11 @@ void Csr::comb_csr_write() {
 
     csr_we_1 = false;
   }
+
+  // 被冲刷（如中断打断）的 CSR 指令不得留下待写请求。
+  if (in.rob_bcast->flush) {
+    csr_we_1 = false;
+  }
 }
 
 void Csr::seq() {
-- 
2.43.0


From 07e42c910a6004ea8b9c953ebe51280bd92cba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:05:53 +0000
Subject: [PATCH 11/40] fix: retry an ICache coherence probe until the D-cache
 can answer it

A probe that lost bank arbitration, or whose line was still held by an MSHR, was reported to the ICache as a miss. The refill then used memory contents that did not have the newest stores yet, so code written before a FENCE.I could be fetched stale. Only a completed lookup reports a miss now; every other outcome is retried.
---
 MemSubSystem/MemRouteBlock.cpp       | 24 ++++++++++++++++++------
 MemSubSystem/RealDcache.cpp          |  8 ++++++--
 MemSubSystem/include/MemRouteBlock.h |  3 +++
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/MemSubSystem/MemRouteBlock.cpp b/MemSubSystem/MemRouteBlock.cpp
index 256c7b3..7de55e4 100644
--- a/MemSubSystem/MemRouteBlock.cpp
+++ b/MemSubSystem/MemRouteBlock.cpp
@@ -59,15 +59,21 @@ void MemRouteBlock::comb_response() {
         out.ptw_events->req_addr = cur.issued_tags.req_addr;
         out.ptw_events->req_id = cur.issued_tags.req_id;
       }
+    } else if (owner == Owner::ICACHE) {
+      // Only a completed lookup may report a miss; a bank conflict or a line
+      // still held by an MSHR says nothing about memory being up to date.
+      if (replay == ReplayType::MSHR_FULL) {
+        out.icache_resp->resp_valid = true;
+        out.icache_resp->resp_miss = true;
+      } else {
+        nxt.icache_pending_valid = true;
+        nxt.icache_pending_addr = cur.issued_tags.req_addr;
+      }
     } else if (replay == ReplayType::CONFLICT) {
-      out.icache_resp->resp_valid = (owner == Owner::ICACHE);
-      out.icache_resp->resp_miss = (owner == Owner::ICACHE);
       out.wakeup->dtlb = (owner == Owner::PTW_DTLB);
       out.wakeup->itlb = (owner == Owner::PTW_ITLB);
       out.wakeup->walk = (owner == Owner::PTW_WALK);
     } else {
-      out.icache_resp->resp_valid = (owner == Owner::ICACHE);
-      out.icache_resp->resp_miss = (owner == Owner::ICACHE);
       if (in.dcache_resp->mshr_fill) {
         out.wakeup->dtlb = (owner == Owner::PTW_DTLB);
         out.wakeup->itlb = (owner == Owner::PTW_ITLB);
@@ -95,9 +101,15 @@ void MemRouteBlock::comb_request() {
 
   Owner ptw_owner = Owner::NONE;
   uint32_t ptw_addr = 0;
-  if (in.icache_req->req_valid && cur.issued_tags.owner != Owner::ICACHE) {
+  if (in.icache_req->req_valid) {
+    // A new probe replaces an older one still waiting to be retried.
+    nxt.icache_pending_valid = true;
+    nxt.icache_pending_addr = in.icache_req->req_addr;
+  }
+  if (nxt.icache_pending_valid && cur.issued_tags.owner != Owner::ICACHE) {
     ptw_owner = Owner::ICACHE;
-    ptw_addr = in.icache_req->req_addr;
+    ptw_addr = nxt.icache_pending_addr;
+    nxt.icache_pending_valid = false;
   } else if (in.ptw_walk_req->valid && cur.issued_tags.owner != Owner::PTW_WALK) {
     ptw_owner = Owner::PTW_WALK;
     ptw_addr = in.ptw_walk_req->addr;
diff --git a/MemSubSystem/RealDcache.cpp b/MemSubSystem/RealDcache.cpp
index 8186ada..0cd35bc 100644
--- a/MemSubSystem/RealDcache.cpp
+++ b/MemSubSystem/RealDcache.cpp
@@ -436,9 +436,13 @@ void RealDcache::stage2_comb() {
         else {
             if(s1s2_cur.icache_req==i){
                 // ICache coherent probes are lookup-only: report miss to the
-                // front-end route block without allocating an MSHR.
+                // front-end route block without allocating an MSHR. A line
+                // already held by an MSHR may carry merged stores memory does
+                // not have yet, so it is not a miss: the probe has to retry.
                 resp.valid = true;
-                resp.replay = ReplayType::CONFLICT;
+                resp.replay = in.mshr2dcache->find_resp[i].valid
+                                  ? ReplayType::MSHR_HIT
+                                  : ReplayType::MSHR_FULL;
                 resp.req_id = slot.req_id;
                 continue;
             }
diff --git a/MemSubSystem/include/MemRouteBlock.h b/MemSubSystem/include/MemRouteBlock.h
index b28fa4e..4b0b411 100644
--- a/MemSubSystem/include/MemRouteBlock.h
+++ b/MemSubSystem/include/MemRouteBlock.h
@@ -81,6 +81,9 @@ struct MemRouteBlockState {
   IssueTag issued_tags;
   ReplayWakeup ptw_wait;
 
+  wire<1> icache_pending_valid; // ICache probe not answered yet, to be (re)issued
+  uint32_t icache_pending_addr;
+
   wire<1> lsu_replay_valid;
   uint32_t lsu_replay_req_id;
 
-- 
2.43.0


From f5d42f390d343df0847a6ae891de92a56bd84531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:23:17 +0000
Subject: [PATCH 12/40] fix: drop the answer to a coherence probe whose ICache
 miss was killed

A redirect killed the miss but not the probe already sent to the D-cache. The probe port has no transaction id, so the late answer was taken for the first word of the next line and every following word was shifted by one.
---
 front-end/icache/icache_module.cpp       | 26 +++++++++++++++---------
 front-end/icache/include/icache_module.h |  3 ++-
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/front-end/icache/icache_module.cpp b/front-end/icache/icache_module.cpp
index 363c3d5..92c326e 100644
--- a/front-end/icache/icache_module.cpp
+++ b/front-end/icache/icache_module.cpp
@@ -221,6 +221,7 @@ void decode_packed_regs(const bool *pi, ICache_regs_t &regs) {
     regs.txid_canceled_r[i] = read_packed_bit(pi, bit++);
   }
   regs.dcache_probe_inflight_r = read_packed_bit(pi, bit++);
+  regs.dcache_probe_stale_r = read_packed_bit(pi, bit++);
   regs.dcache_probe_done_r = read_packed_bit(pi, bit++);
   regs.dcache_probe_hit_r = read_packed_bit(pi, bit++);
   regs.dcache_probe_word_r =
@@ -261,6 +262,7 @@ void encode_packed_regs(bool *po, const ICache_regs_t &regs) {
     write_packed_bit(po, bit++, regs.txid_canceled_r[i]);
   }
   write_packed_bit(po, bit++, regs.dcache_probe_inflight_r);
+  write_packed_bit(po, bit++, regs.dcache_probe_stale_r);
   write_packed_bit(po, bit++, regs.dcache_probe_done_r);
   write_packed_bit(po, bit++, regs.dcache_probe_hit_r);
   write_packed_uint(po, bit, ICache::kPackedWordIndexWidth,
@@ -601,6 +603,7 @@ ICache::ICache() {
   io.regs.miss_txid_r = 0;
   io.regs.miss_ready_seen_r = false;
   io.regs.dcache_probe_inflight_r = false;
+  io.regs.dcache_probe_stale_r = false;
   io.regs.dcache_probe_done_r = false;
   io.regs.dcache_probe_hit_r = false;
   io.regs.dcache_probe_word_r = 0;
@@ -679,6 +682,7 @@ void ICache::reset() {
   io.regs.miss_txid_r = 0;
   io.regs.miss_ready_seen_r = false;
   io.regs.dcache_probe_inflight_r = false;
+  io.regs.dcache_probe_stale_r = false;
   io.regs.dcache_probe_done_r = false;
   io.regs.dcache_probe_hit_r = false;
   io.regs.dcache_probe_word_r = 0;
@@ -1027,8 +1031,17 @@ void ICache::eval_state_machine() {
     io.reg_write.txid_inflight_r[resp_id] = false;
   }
 
-  auto reset_dcache_probe_regs = [&]() {
+  // The probe port carries no transaction id. A probe whose miss was killed
+  // stays in flight and its response is dropped before the next one is issued.
+  const bool dcache_probe_resp =
+      io.regs.dcache_probe_inflight_r && io.in.dcache_resp_valid;
+  if (dcache_probe_resp) {
     io.reg_write.dcache_probe_inflight_r = false;
+    io.reg_write.dcache_probe_stale_r = false;
+  }
+
+  auto reset_dcache_probe_regs = [&]() {
+    io.reg_write.dcache_probe_stale_r = io.reg_write.dcache_probe_inflight_r;
     io.reg_write.dcache_probe_done_r = false;
     io.reg_write.dcache_probe_hit_r = false;
     io.reg_write.dcache_probe_word_r = 0;
@@ -1065,8 +1078,7 @@ void ICache::eval_state_machine() {
       io.reg_write.dcache_probe_inflight_r = true;
     }
 
-    if (io.regs.dcache_probe_inflight_r && io.in.dcache_resp_valid) {
-      io.reg_write.dcache_probe_inflight_r = false;
+    if (dcache_probe_resp && !io.regs.dcache_probe_stale_r) {
       if (io.in.dcache_resp_miss) {
         step.done = true;
         step.hit = false;
@@ -1288,13 +1300,7 @@ void ICache::eval_state_machine() {
           // context. Latching it here avoids issuing the next-cycle AXI read
           // with the previous request's stale ppn_r under redirect pressure.
           io.reg_write.ppn_r = io.in.ppn;
-          io.reg_write.dcache_probe_inflight_r = false;
-          io.reg_write.dcache_probe_done_r = false;
-          io.reg_write.dcache_probe_hit_r = false;
-          io.reg_write.dcache_probe_word_r = 0;
-          for (uint32_t word = 0; word < word_num; ++word) {
-            io.reg_write.dcache_probe_data_r[word] = 0;
-          }
+          reset_dcache_probe_regs();
           io.reg_write.miss_txid_valid_r = true;
           io.reg_write.miss_txid_r = static_cast<uint8_t>(txid & 0xF);
           io.reg_write.miss_ready_seen_r = false;
diff --git a/front-end/icache/include/icache_module.h b/front-end/icache/include/icache_module.h
index 303b627..21e076c 100644
--- a/front-end/icache/include/icache_module.h
+++ b/front-end/icache/include/icache_module.h
@@ -147,6 +147,7 @@ struct ICache_regs_t {
   reg<1> txid_inflight_r[16] = {false};
   reg<1> txid_canceled_r[16] = {false};
   reg<1> dcache_probe_inflight_r = false;
+  reg<1> dcache_probe_stale_r = false; // inflight probe belongs to a killed miss
   reg<1> dcache_probe_done_r = false;
   reg<1> dcache_probe_hit_r = false;
   reg<5> dcache_probe_word_r = 0;
@@ -286,7 +287,7 @@ public:
       ICACHE_V1_TAG_BITS +        // ppn_r
       1 + 4 + 1 +                 // miss txid valid/id/ready_seen
       16 + 16 +                   // txid inflight/canceled bitsets
-      1 + 1 + 1 +                 // dcache probe inflight/done/hit
+      1 + 1 + 1 + 1 +             // dcache probe inflight/stale/done/hit
       kPackedWordIndexWidth +     // dcache probe word
       kPackedLineDataWidth +      // dcache probe data
       1 +                         // lookup_pending_r
-- 
2.43.0


From f5496e4a81ce05404b7de5b0f33c1f233a21f9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:39:37 +0000
Subject: [PATCH 13/40] fix: keep a coherence probe sent in the cycle of a
 predecode redirect

A predecode redirect evaluates the ICache twice in one cycle. The second evaluation cleared the probe request the first one had just sent, so the ICache waited for an answer that never came.
---
 front-end/icache/ICacheTop.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/front-end/icache/ICacheTop.cpp b/front-end/icache/ICacheTop.cpp
index 040efa3..4a794c6 100644
--- a/front-end/icache/ICacheTop.cpp
+++ b/front-end/icache/ICacheTop.cpp
@@ -946,9 +946,13 @@ public:
         icache_hw.io.out.mem_req_valid, icache_hw.io.out.mem_req_addr,
         static_cast<uint8_t>(icache_hw.io.out.mem_req_id & 0xF),
         icache_hw.io.out.mem_resp_ready);
-    drive_dcache_probe_req_port(
-        runtime.mem_probe_req_port, icache_hw.io.out.dcache_req_valid,
-        icache_hw.io.out.dcache_req_addr);
+    // A predecode invalidate evaluates the ICache a second time in the same
+    // cycle and must not retract a probe the first evaluation already sent.
+    if (!in->invalidate_req || icache_hw.io.out.dcache_req_valid) {
+      drive_dcache_probe_req_port(
+          runtime.mem_probe_req_port, icache_hw.io.out.dcache_req_valid,
+          icache_hw.io.out.dcache_req_addr);
+    }
 
     const auto glue_in = make_true_glue_input(icache_hw, hold_for_recovery);
     const auto glue_out = icache_top_n::run_true_glue_io_generator(glue_in);
-- 
2.43.0


From a3c3035120815543a7de6514fd5df8565f617a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:06:22 +0000
Subject: [PATCH 14/40] fix: keep stores merged into a stalled line fill
 visible to loads

A store that hits a line whose fill waits for a write-buffer slot was merged
only into the data held in the second cache stage. A load answered from the
pending fill then still saw the bytes from memory.
---
 MemSubSystem/RealDcache.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/MemSubSystem/RealDcache.cpp b/MemSubSystem/RealDcache.cpp
index 0cd35bc..f34da0a 100644
--- a/MemSubSystem/RealDcache.cpp
+++ b/MemSubSystem/RealDcache.cpp
@@ -517,6 +517,13 @@ void RealDcache::stage2_comb() {
                 fill_req_merge_wires[i].word_off = f.word_off;
                 fill_req_merge_wires[i].data = slot.data;
                 fill_req_merge_wires[i].strb = slot.strb;
+                // The fill stays pending, so keep the store in its MSHR entry
+                // too: loads may still be answered from the pending fill.
+                out.dcache2mshr->mshr_req[iidx].valid = true;
+                out.dcache2mshr->mshr_req[iidx].addr = slot.addr;
+                out.dcache2mshr->mshr_req[iidx].is_store = true;
+                out.dcache2mshr->mshr_req[iidx].data = slot.data;
+                out.dcache2mshr->mshr_req[iidx].strb = slot.strb;
             }
 
             resp.valid  = true;
-- 
2.43.0


From f44346c85ab05434bc05dbae488a769a45c1f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:32:46 +0000
Subject: [PATCH 15/40] fix: apply mip and sip writes in the reference
 interpreter

The branch that masks writes to mip and sip compared the register index
with the CSR numbers, so it never matched. Writes to mip were stored
unmasked and writes to sip never reached mip.
---
 diff/ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 8e50e16..88afac3 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -963,13 +963,13 @@ void RefCpu::RV32CSR() {
         // sie 始终是 mie 的影子 (masked by 0x333)
         state.csr[csr_sie] = state.csr[csr_mie] & sie_mask;
 
-      } else if (csr_idx == number_mip || csr_idx == number_sip) {
+      } else if (csr_idx == csr_mip || csr_idx == csr_sip) {
         uint32_t mip_mask =
             0x00000bbb; // MEIP(11), SEIP(9), MTIP(7), STIP(5), MSIP(3), SSIP(1)
         uint32_t sip_mask =
             0x00000333; // SEIP(9), UEIP(8), STIP(5), UTIP(4), SSIP(1), USIP(0)
 
-        if (csr_idx == number_sip) {
+        if (csr_idx == csr_sip) {
           // sip: 0x333 (Include User-Level Interrupt bits)
           state.csr[csr_mip] =
               (state.csr[csr_mip] & ~sip_mask) | (csr_wdata & sip_mask);
-- 
2.43.0


From 2f77bb4dad219a0c563dc92d494e8352966e8108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:32:46 +0000
Subject: [PATCH 16/40] fix: let csrrwi with a zero immediate write in the
 reference interpreter

Only the set and clear forms skip the write when the source field is
zero. The immediate form of the plain write was treated like them.
---
 diff/ref.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 88afac3..1c2d0bc 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -887,7 +887,7 @@ void RefCpu::RV32CSR() {
 
   uint32_t reg_rdata1 = state.gpr[rs1];
 
-  bool we = funct3 == 1 || rs1 != 0;
+  bool we = (funct3 & 0b11) == CSR_W || rs1 != 0;
   bool re = funct3 != 1 || rd != 0;
   uint32_t wcmd = funct3 & 0b11;
   uint32_t wdata;
-- 
2.43.0


From 69e0fb2c9ae0a722d6976988ca7edf6e41a07793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:32:46 +0000
Subject: [PATCH 17/40] fix: forbid supervisor fetches from user superpages in
 the reference interpreter

SUM only permits loads and stores. The 4 KB path already rejects the
fetch, the 4 MB path did not.
---
 diff/ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 1c2d0bc..4f7ff8f 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1790,8 +1790,8 @@ bool RefCpu::va2pa(uint32_t &p_addr, uint32_t v_addr, uint32_t type) {
     bool is_user_page = (pte1 & PTE_U) != 0;
     if (eff_priv == 0 && !is_user_page)
       return false; // U-mode 访问 S-page -> Fault
-    if (eff_priv == 1 && is_user_page && !sum)
-      return false; // S-mode 访问 U-page 且 SUM=0 -> Fault
+    if (eff_priv == 1 && is_user_page && (type == 0 || !sum))
+      return false; // S-mode 取指 U-page，或 SUM=0 时访问 U-page -> Fault
 
     // 对齐检查 (Superpage 要求 PPN[0] 为 0)
     // PPN[0] 对应 PTE 的 [19:10] 位
-- 
2.43.0


From 95f4bdf243d9a77c4d33985ea048f3e0e0803100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:32:46 +0000
Subject: [PATCH 18/40] fix: keep load-reserved from repeating device effects
 of an older store

LR.W performs no store, but the store path ran with the address left by
the previous store. A load-reserved after a write to the UART printed
the character again.
---
 diff/ref.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 4f7ff8f..cbf384b 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1680,6 +1680,9 @@ void RefCpu::store_word(uint32_t addr, uint32_t data) {
 }
 
 void RefCpu::store_data() {
+  if (!state.store) {
+    return;
+  }
 
   uint32_t p_addr = state.store_addr;
   if (state.store && state.reserve_valid && state.reserve_addr == p_addr) {
-- 
2.43.0


From ffa5b4e3595319cbf5cf6285038a261cdc58e96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:32:46 +0000
Subject: [PATCH 19/40] fix: report instruction page faults with the right
 cause in the reference interpreter

The trap code decides the cause from the current instruction and the
interrupt flags. On a fetch page fault both still described the previous
step, so a fault right after an ecall or an interrupt was recorded as
that ecall or interrupt.
---
 diff/ref.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index cbf384b..1bbcd7b 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -304,6 +304,9 @@ void RefCpu::exec() {
     page_fault_inst = !va2pa_fix(p_addr, state.pc, 0);
 
     if (page_fault_inst) {
+      Instruction = 0;
+      M_software_interrupt = M_timer_interrupt = M_external_interrupt = false;
+      S_software_interrupt = S_timer_interrupt = S_external_interrupt = false;
       exception(state.pc);
       return;
     } else {
-- 
2.43.0


From b10d9b75e1f12a12415def8121a5cdbce7f65547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:33:52 +0000
Subject: [PATCH 20/40] fix: raise the illegal instruction trap for unknown
 opcodes in the reference interpreter

The pipeline traps on opcodes outside the implemented set. The reference
interpreter executed them as no-ops.
---
 diff/ref.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 1bbcd7b..1a4e14f 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1629,7 +1629,9 @@ void RefCpu::RV32IM() {
     break;
   }
   default: {
-    break;
+    illegal_exception = true;
+    exception(Instruction);
+    return;
   }
   }
 
-- 
2.43.0


From fc27a4cd927e823aa6c4b97f06443b3329c0c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:33:52 +0000
Subject: [PATCH 21/40] fix: deliver illegal floating-point encodings as traps
 in the reference interpreter

Reserved rounding modes and operations set the illegal flag but took no
trap. Some of them left the program counter in place, so the interpreter
repeated the instruction forever, and others wrote the destination.
---
 diff/ref.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 1a4e14f..af871ce 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -653,6 +653,9 @@ void RefCpu::RISCV() {
              opcode == number_16_opcode_fnmadd ||
              opcode == number_14_opcode_fmsub) {
     RV32Zfinx();
+    if (illegal_exception) {
+      exception(Instruction);
+    }
   } else {
     RV32IM();
   }
@@ -870,6 +873,9 @@ void RefCpu::RV32Zfinx() {
   // state.csr[CSR_FCSR] |= softfloat_exceptionFlags;
 
 skip_flags_update:
+  if (illegal_exception) {
+    return;
+  }
   // 5. 写回结果
   if (write_rd && rd != 0) {
     state.gpr[rd] = i_res;
-- 
2.43.0


From 9d968d3fdecb81c9f07645dd9b800ca0c507b983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:33:52 +0000
Subject: [PATCH 22/40] fix: delegate illegal instruction traps in the
 reference interpreter

medeleg was honoured for ecalls and page faults but not for illegal
instructions, unlike in the pipeline.
---
 diff/ref.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index af871ce..be5d294 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -349,6 +349,7 @@ void RefCpu::exception(uint32_t trap_val) {
   bool medeleg_page_fault_inst = (medeleg >> 12) & 1;
   bool medeleg_page_fault_load = (medeleg >> 13) & 1;
   bool medeleg_page_fault_store = (medeleg >> 15) & 1;
+  bool medeleg_illegal_inst = (medeleg >> 2) & 1;
 
   // 这里直接复用成员变量里的中断状态 (假设RISCV函数刚跑完，状态是新的)
   // 如果不是，需要重新计算 M_software_interrupt 等
@@ -360,7 +361,8 @@ void RefCpu::exception(uint32_t trap_val) {
       (ecall && (privilege == 3)) ||
       (page_fault_inst && !medeleg_page_fault_inst) ||
       (page_fault_load && !medeleg_page_fault_load) ||
-      (page_fault_store && !medeleg_page_fault_store) || illegal_exception;
+      (page_fault_store && !medeleg_page_fault_store) ||
+      (illegal_exception && !medeleg_illegal_inst);
 
   bool STrap = S_software_interrupt || S_timer_interrupt ||
                S_external_interrupt ||
@@ -368,7 +370,8 @@ void RefCpu::exception(uint32_t trap_val) {
                (ecall && (privilege == 1) && medeleg_S_ecall) ||
                (page_fault_inst && medeleg_page_fault_inst) ||
                (page_fault_load && medeleg_page_fault_load) ||
-               (page_fault_store && medeleg_page_fault_store);
+               (page_fault_store && medeleg_page_fault_store) ||
+               (illegal_exception && medeleg_illegal_inst);
 
   if (MTrap) {
     state.csr[csr_mepc] = state.pc;
@@ -453,6 +456,8 @@ void RefCpu::exception(uint32_t trap_val) {
       exception_code = 13;
     else if (page_fault_store && medeleg_page_fault_store)
       exception_code = 15;
+    else if (illegal_exception && medeleg_illegal_inst)
+      exception_code = 2;
 
     cause |= exception_code;
     state.csr[csr_scause] = cause;
-- 
2.43.0


From 6c7c49dc1e61364a64eb924fc875bf1b0d40d676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:33:52 +0000
Subject: [PATCH 23/40] fix: never delegate traps taken in machine mode in the
 reference interpreter

A trap must not move to a less privileged mode. With MPRV set a machine
mode load can page fault, and medeleg sent that fault to supervisor mode.
---
 diff/ref.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index be5d294..1c75ca3 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -336,7 +336,8 @@ void RefCpu::exception(uint32_t trap_val) {
 
   uint32_t mstatus = state.csr[csr_mstatus];
   uint32_t sstatus = state.csr[csr_sstatus];
-  uint32_t medeleg = state.csr[csr_medeleg];
+  // Traps taken in M-mode are never delegated.
+  uint32_t medeleg = privilege == RISCV_MODE_M ? 0 : state.csr[csr_medeleg];
   uint32_t mtvec = state.csr[csr_mtvec];
   uint32_t stvec = state.csr[csr_stvec];
 
-- 
2.43.0


From f5b3b0357a8298f26eb1d03718a76daefe6a0cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:33:52 +0000
Subject: [PATCH 24/40] fix: use the architected interrupt priority in the
 reference interpreter

Simultaneous interrupts are taken in the order external, software, timer.
---
 diff/ref.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 1c75ca3..53eb7c2 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -385,11 +385,13 @@ void RefCpu::exception(uint32_t trap_val) {
       cause |= (1u << 31);
 
     uint32_t exception_code = 0;
-    if (M_software_interrupt)
+    if (M_external_interrupt)
+      exception_code = 11;
+    else if (M_software_interrupt)
       exception_code = 3;
     else if (M_timer_interrupt)
       exception_code = 7;
-    else if (M_external_interrupt || (ecall && privilege == 3))
+    else if (ecall && privilege == 3)
       exception_code = 11;
     else if (ecall && privilege == 0 && !medeleg_U_ecall)
       exception_code = 8;
@@ -443,14 +445,16 @@ void RefCpu::exception(uint32_t trap_val) {
       cause |= (1u << 31);
 
     uint32_t exception_code = 0;
-    if (S_external_interrupt || (ecall && privilege == 1 && medeleg_S_ecall))
+    if (S_external_interrupt)
       exception_code = 9;
+    else if (S_software_interrupt)
+      exception_code = 1;
     else if (S_timer_interrupt)
       exception_code = 5;
+    else if (ecall && privilege == 1 && medeleg_S_ecall)
+      exception_code = 9;
     else if (ecall && privilege == 0 && medeleg_U_ecall)
       exception_code = 8;
-    else if (S_software_interrupt)
-      exception_code = 1;
     else if (page_fault_inst && medeleg_page_fault_inst)
       exception_code = 12;
     else if (page_fault_load && medeleg_page_fault_load)
-- 
2.43.0


From 5c06f2aa71ebe6b121abba38123e5a81d40aa382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:33:52 +0000
Subject: [PATCH 25/40] fix: avoid shifting by 32 in rotates by zero in the
 reference interpreter

A shift by the operand width is undefined.
---
 diff/ref.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 53eb7c2..58a88bc 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1406,7 +1406,7 @@ void RefCpu::RV32IM() {
         state.gpr[reg_d_index] = (int32_t)reg_rdata1 >> shamt;
       } else if (funct7 == 0x30) { // rori (Zbb)
         state.gpr[reg_d_index] =
-            (reg_rdata1 >> shamt) | (reg_rdata1 << (32 - shamt));
+            (reg_rdata1 >> shamt) | (reg_rdata1 << ((32 - shamt) & 0x1F));
       } else if (funct7 == 0x24) { // bexti (Zbs)
         state.gpr[reg_d_index] = (reg_rdata1 >> shamt) & 1;
       } else if (funct7 == 0x34) { // rev8 (Zbb) - shamt must be 24?
@@ -1526,7 +1526,7 @@ void RefCpu::RV32IM() {
           state.gpr[reg_d_index] = reg_rdata1 << shift;
         } else if (funct7 == 0x30) { // rol (Zbb)
           state.gpr[reg_d_index] =
-              (reg_rdata1 << shift) | (reg_rdata1 >> (32 - shift));
+              (reg_rdata1 << shift) | (reg_rdata1 >> ((32 - shift) & 0x1F));
         } else if (funct7 == 0x24) { // bclr (Zbs)
           state.gpr[reg_d_index] = reg_rdata1 & ~(1u << shift);
         } else if (funct7 == 0x14) { // bset (Zbs)
@@ -1598,7 +1598,7 @@ void RefCpu::RV32IM() {
           state.gpr[reg_d_index] = (int32_t)reg_rdata1 >> shift;
         } else if (funct7 == 0x30) { // ror (Zbb)
           state.gpr[reg_d_index] =
-              (reg_rdata1 >> shift) | (reg_rdata1 << (32 - shift));
+              (reg_rdata1 >> shift) | (reg_rdata1 << ((32 - shift) & 0x1F));
         } else if (funct7 == 0x24) { // bext (Zbs)
           state.gpr[reg_d_index] = (reg_rdata1 >> shift) & 1;
         } else if (funct7 == 0x05) { // minu (Zbb)
-- 
2.43.0


From 950608c24bde175f38d13903d06d0d8909ca4057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:33:52 +0000
Subject: [PATCH 26/40] fix: never delegate traps taken in machine mode

A trap must not move to a less privileged mode. With MPRV set a machine
mode load can page fault, and an illegal instruction can be executed
there; medeleg sent both to supervisor mode.
---
 back-end/Exu/Csr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index b94c7bf..efde435 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -119,7 +119,9 @@ void Csr::comb_exception() {
   uint32_t mie_reg = CSR_RegFile[csr_mie];
   uint32_t mip_reg = CSR_RegFile[csr_mip];
   uint32_t mideleg = CSR_RegFile[csr_mideleg];
-  uint32_t medeleg = CSR_RegFile[csr_medeleg];
+  // 机器模式下的异常永不委托
+  uint32_t medeleg =
+      privilege == RISCV_MODE_M ? 0 : CSR_RegFile[csr_medeleg];
   uint32_t mtvec = CSR_RegFile[csr_mtvec];
   uint32_t stvec = CSR_RegFile[csr_stvec];
 
-- 
2.43.0


From eade6b6587f9ef1eed375b10729aaa276818a66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:33:52 +0000
Subject: [PATCH 27/40] fix: take simultaneous interrupts in the architected
 priority order

The order is external, software, timer.
---
 back-end/Exu/Csr.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index efde435..978fff6 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -176,10 +176,10 @@ void Csr::comb_exception() {
             ? 1U << 31
             : 0;
 
-    cause += irq.m_software_interrupt ? 3
-             : irq.m_timer_interrupt  ? 7
-             : (irq.m_external_interrupt || (ecall && (privilege == 3)))
-                 ? 11
+    cause += irq.m_external_interrupt   ? 11
+             : irq.m_software_interrupt ? 3
+             : irq.m_timer_interrupt    ? 7
+             : (ecall && (privilege == 3)) ? 11
              /*: illegal_exceptinn                                  ? 2*/
              : (ecall && (privilege == 0) && !medeleg_U_ecall) ? 8
              : (ecall && (privilege == 1) && !medeleg_S_ecall) ? 9
@@ -231,11 +231,11 @@ void Csr::comb_exception() {
             : 0;
 
     cause +=
-        (irq.s_external_interrupt || (ecall && (privilege == 1) && medeleg_S_ecall))
-            ? 9
+        irq.s_external_interrupt                         ? 9
+        : irq.s_software_interrupt                       ? 1
         : irq.s_timer_interrupt                          ? 5
+        : (ecall && (privilege == 1) && medeleg_S_ecall) ? 9
         : (ecall && (privilege == 0) && medeleg_U_ecall) ? 8
-        : irq.s_software_interrupt                       ? 1
         : (page_fault_inst && medeleg_page_fault_inst)   ? 12
         : (page_fault_load && medeleg_page_fault_load)   ? 13
         : (page_fault_store && medeleg_page_fault_store) ? 15
-- 
2.43.0


From 512e11e4fc666d49f75d6a358f7d52348b0dea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:49:26 +0000
Subject: [PATCH 28/40] fix: keep reservations when a wrong-path access page
 faults

The load-reserved reservation was dropped as soon as the translation of
any load or store faulted, even on a mispredicted path. The following
store-conditional then failed although no trap had been taken. Drop the
reservation when the fault commits instead.
---
 back-end/Lsu/RealLsu.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index 2349d25..57814f5 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -385,7 +385,6 @@ void RealLsu::comb_tlb_in_ldq() {
         ldq_entry.diag_val = ldq_entry.v_addr;
         ldq_entry.result = ldq_entry.v_addr;
         ldq_entry.load_state = LoadState::WaitFinish; // 页面错误的load进入WaitFinish状态，由后续逻辑处理异常
-        nxt.lrsc_unit.reserve_valid = false;
       } else if (resp.result == MMUResultType::MISS) {
         ldq_entry.load_state = LoadState::WaitTlbRetry;
       }
@@ -460,7 +459,6 @@ void RealLsu::comb_tlb_in_stq() {
         } else if (resp.result == MMUResultType::PAGE_FAULT) {
           stq_entry.page_fault = true;
           stq_entry.store_state = StoreState::WaitDone; // 进入页面错误状态，由后续逻辑处理异常
-          nxt.lrsc_unit.reserve_valid = false;          // 如果store发生页面错误，取消LRSC保留
         } else if (resp.result == MMUResultType::MISS) {
           stq_entry.store_state = StoreState::WaitTlbRetry; // TLB Miss的store重新进入等待TLB的状态等待重试
         }
@@ -1153,7 +1151,10 @@ void RealLsu::comb_flush() {
     if (!keep_uncached_store) {
       nxt.uncached_unit.valid = false;
     }
-    // nxt.lrsc_unit.reserve_valid = false;
+    // 访存页面错误提交时取消LRSC保留（推测路径上的页面错误不影响保留）
+    if (in.rob_bcast->page_fault_load || in.rob_bcast->page_fault_store) {
+      nxt.lrsc_unit.reserve_valid = false;
+    }
   }
 
   if (in.dec_bcast->mispred) {
-- 
2.43.0


From a5a62dc18fe582c93491993ed984489f19e79a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:53:42 +0000
Subject: [PATCH 29/40] fix: drop the reference's reservation on a load or
 store page fault

The load/store unit cancels a pending LR reservation when a data page fault
commits. The reference kept it, so the next SC disagreed and the difftest
stopped a correct run.
---
 diff/ref.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 58a88bc..9a7cea0 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -329,6 +329,11 @@ void RefCpu::exception(uint32_t trap_val) {
   is_exception = true;
   uint32_t next_pc = state.pc + 4;
 
+  // A load/store page fault cancels the reservation, as in the LSU.
+  if (page_fault_load || page_fault_store) {
+    state.reserve_valid = false;
+  }
+
   // 重新获取当前状态（因为exec可能没传进来最新的）
   bool ecall = (Instruction == INST_ECALL);
   bool mret = (Instruction == INST_MRET);
-- 
2.43.0


From 56ad684a2ecefe74d761d7efef50b751b30695e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:53:42 +0000
Subject: [PATCH 30/40] fix: hand the LR reservation to the reference at a
 difftest sync

A sync copies the whole CPU state, but the reservation fields were never
filled in. An SC after an interrupt or device access was then compared
against a stale reservation.
---
 rv_simu_mmu_v2.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rv_simu_mmu_v2.cpp b/rv_simu_mmu_v2.cpp
index cc52c09..0b7cc87 100644
--- a/rv_simu_mmu_v2.cpp
+++ b/rv_simu_mmu_v2.cpp
@@ -821,6 +821,10 @@ void SimCpu::difftest_prepare(InstEntry *inst_entry, bool *sync) {
     dut_cpu.store = false;
   }
 
+  // A sync copies the whole state, so it must carry the reservation too.
+  dut_cpu.reserve_valid = back->lsu->nxt.lrsc_unit.reserve_valid;
+  dut_cpu.reserve_addr = back->lsu->nxt.lrsc_unit.reserve_addr;
+
   if (inst->dbg.is_mmio && inst->tma.mem_commit_is_store &&
       !inst->page_fault_store) {
     *sync = true;
-- 
2.43.0


From 85ebe168f46a079daadf92f9d2f5bc98b2ab6196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:53:42 +0000
Subject: [PATCH 31/40] fix: cancel the LR reservation when a store to its
 address commits

The reference drops the reservation on such a store but the load/store unit
kept it, so the SC outcome of the two disagreed.
---
 back-end/Lsu/RealLsu.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index 57814f5..d5340ac 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -1080,6 +1080,11 @@ void RealLsu::comb_stq_commit() {
       } else {
         nxt_entry.store_state = StoreState::Committed;
         commit_stq_entry();
+        // 写到被保留地址的store提交后取消LRSC保留
+        if (nxt.lrsc_unit.reserve_valid &&
+            nxt.lrsc_unit.reserve_addr == nxt_entry.paddr) {
+          nxt.lrsc_unit.reserve_valid = false;
+        }
       }
     } else {
       LSU_NON_BSD_ASSERT(0 && "Store commit out of order?");
-- 
2.43.0


From 44ca6fd6b334ffd7f27bfb6ea3dca4994136c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:53:42 +0000
Subject: [PATCH 32/40] fix: let the difftest notice a store only the core
 performed

The store flag was compared only when the reference stored. A spurious store
from the core went unnoticed.
---
 diff/diff.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diff/diff.cpp b/diff/diff.cpp
index d0c1d54..77213a9 100644
--- a/diff/diff.cpp
+++ b/diff/diff.cpp
@@ -232,10 +232,10 @@ static void checkregs() {
       goto fault;
   }
 
-  if (ref_state.store) {
-    if (dut_cpu.store != ref_state.store)
-      goto fault;
+  if (dut_cpu.store != ref_state.store)
+    goto fault;
 
+  if (ref_state.store) {
     if (dut_cpu.store_data != ref_state.store_data)
       goto fault;
 
-- 
2.43.0


From 2f9dc73623d0689449b8532a37ea89dfe53237dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:28:20 +0000
Subject: [PATCH 33/40] fix: return the program's exit code when it ends during
 fast-forward

FAST mode copied the reference state into the core only when the program
was still running after the fast-forward. A program that ended earlier
left the core registers at their reset values, so the simulator always
exited with status 0 instead of a0.
---
 main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index c803f04..4cf1e29 100644
--- a/main.cpp
+++ b/main.cpp
@@ -402,8 +402,9 @@ int main(int argc, char *argv[]) {
     difftest_ref_set_device_effects(false);
     difftest_ref_set_ref_only(false);
 
+    // Also needed when the program already ended: the exit code is read from the DUT.
+    cpu.back.restore_from_ref();
     if (cpu.ctx.exit_reason == ExitReason::NONE) {
-      cpu.back.restore_from_ref();
 #ifndef CONFIG_BPU
       std::cout << "[Oracle] Synced with ref snapshot before switching to O3."
                 << std::endl;
-- 
2.43.0


From f7beaadccef6c3d9b53316d2dbed689bb32203ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:28:20 +0000
Subject: [PATCH 34/40] fix: do not apply the commit limit to checkpoint warmup

In CKPT mode --max-commit is the number of instructions to measure after
warmup. The main loop compared it with the commit counter during warmup
too, so a run with a warmup longer than the limit stopped before the
measure phase started.
---
 main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index 4cf1e29..52d5765 100644
--- a/main.cpp
+++ b/main.cpp
@@ -474,7 +474,9 @@ int main(int argc, char *argv[]) {
         return 130;
       }
 
-    if (cpu.ctx.perf.commit_num >= config.max_commit_inst) {
+    // The commit limit of CKPT mode applies to the measure phase, not to warmup.
+    const bool ckpt_warmup = cpu.ctx.is_ckpt && !cpu.ctx.perf.perf_start;
+    if (!ckpt_warmup && cpu.ctx.perf.commit_num >= config.max_commit_inst) {
         cpu.ctx.exit_reason = ExitReason::SIMPOINT;
         std::cout << "[sim] Reached MAX_COMMIT_INST=" << std::dec
                   << config.max_commit_inst << std::endl;
-- 
2.43.0


From 5be9d7884f6e5c0ea6eeb41759ef0efef297ddad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:06:15 +0000
Subject: [PATCH 35/40] fix: report load-queue occupancy instead of free
 load-queue entries

The statistics sampled the number of empty load-queue entries as the
queue's occupancy, so an idle queue was reported as full.
---
 back-end/Lsu/RealLsu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index d5340ac..edcb03d 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -202,7 +202,7 @@ void RealLsu::comb_cal() {
     }
   }
 
-  lsu_perf::sample_queue_occupancy(ctx, cur, ldq_empty);
+  lsu_perf::sample_queue_occupancy(ctx, cur, LDQ_SIZE - ldq_empty);
 }
 
 void RealLsu::comb_lsu2rob() {
-- 
2.43.0


From 0791c611f5b3f7f6aa7cfb80cdf4b4a069db7def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:06:15 +0000
Subject: [PATCH 36/40] fix: tell the slot accounting when the instruction
 cache handles a miss

Dispatch splits front-end stalls into fetch latency and fetch bandwidth
by a flag nobody set, so fetch latency was always reported as zero. Set
it each cycle from the miss state the instruction cache already reports.
---
 front-end/icache/icache.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/front-end/icache/icache.cpp b/front-end/icache/icache.cpp
index 620ed9a..c63eea5 100644
--- a/front-end/icache/icache.cpp
+++ b/front-end/icache/icache.cpp
@@ -185,6 +185,7 @@ void update_icache_perf_counters(const struct icache_in *in,
   if (icache.perf.miss_issue_valid) {
     icache_ctx->perf.icache_miss_num++;
   }
+  icache_ctx->perf.icache_busy = out->perf_miss_busy;
 #ifndef USE_IDEAL_ICACHE
   if (icache.perf.miss_penalty_valid) {
     icache_ctx->perf.icache_miss_penalty_total_cycles +=
-- 
2.43.0


From 1b19dda09337f79b689748808bf61ed434b3418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:06:15 +0000
Subject: [PATCH 37/40] fix: refuse malformed numbers on the command line

--fast-forward -1 was accepted as 2^64-1 and never returned, and any
number followed by garbage was silently truncated. Numeric options now
accept decimal digits only.
---
 main.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/main.cpp b/main.cpp
index 52d5765..ff76041 100644
--- a/main.cpp
+++ b/main.cpp
@@ -7,6 +7,8 @@
 #include <cstdint>
 #include <cstdlib>
 #include <getopt.h>
+#include <stdexcept>
+#include <string>
 #include <unistd.h>
 #include "RISCV.h"
 
@@ -68,6 +70,17 @@ void print_help(char *argv[]) {
             << std::endl;
 }
 
+// Accepts plain decimal numbers only: std::stoull alone would also take
+// "-1" (as a huge value) and "12abc" (as 12).
+static uint64_t parse_count(const char *arg) {
+  const std::string text(arg);
+  if (text.empty() ||
+      text.find_first_not_of("0123456789") != std::string::npos) {
+    throw std::invalid_argument(text);
+  }
+  return std::stoull(text);
+}
+
 long long sim_time = 0;
 SimCpu cpu;
 
@@ -169,7 +182,7 @@ int main(int argc, char *argv[]) {
     }
     case 'f': {
       try {
-        config.fast_forward_count = std::stoull(optarg);
+        config.fast_forward_count = parse_count(optarg);
       } catch (const std::exception &e) {
         std::cerr << "Error: Invalid number for --fast-forward: " << optarg
                   << std::endl;
@@ -185,7 +198,7 @@ int main(int argc, char *argv[]) {
         return 1;
       }
       try {
-        config.ckpt_warmup_target = std::stoull(optarg);
+        config.ckpt_warmup_target = parse_count(optarg);
         config.ckpt_warmup_target_set = true;
       } catch (const std::exception &e) {
         std::cerr << "Error: Invalid number for --warmup: " << optarg
@@ -202,7 +215,7 @@ int main(int argc, char *argv[]) {
         return 1;
       }
       try {
-        config.max_commit_inst = std::stoull(optarg);
+        config.max_commit_inst = parse_count(optarg);
         config.max_commit_inst_set = true;
         if (config.max_commit_inst == 0) {
           std::cerr << "Error: --max-commit must be > 0, got: 0" << std::endl;
-- 
2.43.0


From f849871cfa1041f1be56218fb87a1bd7442bf673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:08:17 +0000
Subject: [PATCH 38/40] fix: refuse unreadable images and checkpoints in
 release builds

Missing or oversized images and missing, truncated or mismatching
checkpoints were only caught by Assert, which the release build compiles
out, so the simulator went on with whatever was in memory. Report the
error and exit with status 1 in every build.
---
 back-end/BackTop.cpp | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/back-end/BackTop.cpp b/back-end/BackTop.cpp
index 03a44bd..dfd1da2 100644
--- a/back-end/BackTop.cpp
+++ b/back-end/BackTop.cpp
@@ -11,8 +11,10 @@
 
 #include <array>
 #include <cstdint>
+#include <cstdlib>
 #include <cstring>
 #include <fstream>
+#include <iostream>
 #include <vector>
 #include <zlib.h>
 
@@ -412,6 +414,15 @@ void BackTop::seq() {
   lsu->seq();
 }
 
+// Malformed input files must be refused in release builds too, where Assert
+// compiles to nothing.
+static void require_input(bool ok, const char *msg) {
+  if (!ok) {
+    std::cerr << msg << std::endl;
+    exit(1);
+  }
+}
+
 // --- 辅助函数：简化 zlib 读写 POD 类型 ---
 template <typename T> void gz_write_pod(gzFile file, const T &data) {
   if (gzwrite(file, &data, sizeof(T)) != sizeof(T)) {
@@ -421,7 +432,7 @@ template <typename T> void gz_write_pod(gzFile file, const T &data) {
 
 template <typename T> void gz_read_pod(gzFile file, T &data) {
   if (gzread(file, &data, sizeof(T)) != sizeof(T)) {
-    Assert(0 && "Error reading data from gzip file.");
+    require_input(false, "Error reading data from gzip file.");
   }
 }
 
@@ -458,10 +469,10 @@ void gz_read_exact(gzFile file, uint8_t *dst, uint64_t total_bytes) {
         remain > kGzChunkSize ? kGzChunkSize : remain);
     const int read_bytes = gzread(file, dst, chunk);
     if (read_bytes < 0) {
-      Assert(0 && "Error: gzread failed during checkpoint restore.");
+      require_input(false, "Error: gzread failed during checkpoint restore.");
     }
     if (read_bytes == 0) {
-      Assert(0 && "Error: Unexpected EOF during checkpoint restore.");
+      require_input(false, "Error: Unexpected EOF during checkpoint restore.");
     }
     dst += read_bytes;
     remain -= static_cast<uint64_t>(read_bytes);
@@ -473,7 +484,7 @@ void gz_read_exact(gzFile file, uint8_t *dst, uint64_t total_bytes) {
 void BackTop::load_image(const std::string &filename) {
   std::ifstream inst_data(filename, std::ios::binary);
   if (!inst_data.is_open()) {
-    Assert(0 && "Error: Image does not exist");
+    require_input(false, "Error: Image does not exist");
   }
 
   inst_data.seekg(0, std::ios::end);
@@ -481,10 +492,10 @@ void BackTop::load_image(const std::string &filename) {
   inst_data.seekg(0, std::ios::beg);
 
   if (size < 0 || static_cast<uint64_t>(size) > RAM_SIZE) {
-    Assert(0 && "Image too large for configured RAM window.");
+    require_input(false, "Image too large for configured RAM window.");
   }
   if (!inst_data.read(reinterpret_cast<char *>(pmem_ram_ptr()), size)) {
-    Assert(0 && "读取文件失败！");
+    require_input(false, "读取文件失败！");
   }
 
   inst_data.close();
@@ -557,7 +568,7 @@ void BackTop::restore_checkpoint(const std::string &filename) {
   }
 
   if (!file) {
-    Assert(0 && "Error: Could not open checkpoint file");
+    require_input(false, "Error: Could not open checkpoint file");
   }
 
   // 与 SimpleSim/save_checkpoint 写入格式保持一致，确保反序列化对齐。
@@ -581,14 +592,15 @@ void BackTop::restore_checkpoint(const std::string &filename) {
 
   // 1. 恢复 header + 状态
   gz_read_pod(file, ckpt_header);
-  Assert(ckpt_header.magic == kCkptMagic &&
-         "Error: Invalid checkpoint magic.");
-  Assert(ckpt_header.format_ver == kCkptFormatVersion &&
-         "Error: Unsupported checkpoint version.");
-  Assert(ckpt_header.ram_size == static_cast<uint32_t>(kCkptSimpointRamBytes) &&
-         "Error: Checkpoint RAM size mismatch.");
-  Assert(ckpt_header.io_range_count == kExpectedIoLayout.size() &&
-         "Error: Checkpoint IO layout count mismatch.");
+  require_input(ckpt_header.magic == kCkptMagic,
+                "Error: Invalid checkpoint magic.");
+  require_input(ckpt_header.format_ver == kCkptFormatVersion,
+                "Error: Unsupported checkpoint version.");
+  require_input(ckpt_header.ram_size ==
+                    static_cast<uint32_t>(kCkptSimpointRamBytes),
+                "Error: Checkpoint RAM size mismatch.");
+  require_input(ckpt_header.io_range_count == kExpectedIoLayout.size(),
+                "Error: Checkpoint IO layout count mismatch.");
 
   gz_read_pod(file, ckpt_state);
   gz_read_pod(file, interval_inst_count);
@@ -665,7 +677,7 @@ void BackTop::restore_checkpoint(const std::string &filename) {
         is_timer_range ? (range.base == expected.base)
                        : (range.base == expected.base &&
                           range.size == expected.size);
-    Assert(layout_match && "Error: Checkpoint IO layout mismatch.");
+    require_input(layout_match, "Error: Checkpoint IO layout mismatch.");
 
     std::vector<uint8_t> io_bytes(range.size, 0);
     gz_read_exact(file, io_bytes.data(), io_bytes.size());
-- 
2.43.0


From af6682fffd47cc06d249264cfb4f87d5125f4a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:51:37 +0000
Subject: [PATCH 39/40] fix: name every load- and store-queue state in the
 occupancy statistics

The per-state occupancy tables had fewer names than the queues have states,
so from the fifth state on each row showed the number of another state, for
example waiting loads as WaitMmioResp or PageFault in a program that has
neither device accesses nor translation.
---
 back-end/include/PerfCount.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/back-end/include/PerfCount.h b/back-end/include/PerfCount.h
index 8095747..795c366 100644
--- a/back-end/include/PerfCount.h
+++ b/back-end/include/PerfCount.h
@@ -8,9 +8,9 @@
 
 class PerfCount {
 public:
-  static constexpr int kLdqStatePerfCount = 14;
+  static constexpr int kLdqStatePerfCount = 19;
   static constexpr int kLdqStateOtherIndex = kLdqStatePerfCount - 1;
-  static constexpr int kStqStatePerfCount = 13;
+  static constexpr int kStqStatePerfCount = 17;
   static constexpr int kStqStateOtherIndex = kStqStatePerfCount - 1;
 
   bool perf_start = false;
@@ -988,16 +988,19 @@ public:
   void perf_print_lsu_state_occupancy() const {
     static constexpr const char *kLdqStateNames[kLdqStatePerfCount] = {
         "Empty",          "Allocated",      "WaitAddr",
-        "WaitTlb",        "CheckStlf",      "WaitOlderStore",
+        "WaitTlb",        "WaitTlbRetry",   "WaitSTLF",
+        "CheckStlf",      "CheckStlfRetry", "WaitOlderStore",
         "ReadyToIssue",   "WaitDcacheResp", "WaitMmioResp",
         "ReadyToWb",      "Replaying",      "PageFault",
-        "Done",           "Other"};
+        "WaitFinish",     "WaitDcache",     "Done",
+        "Other"};
     static constexpr const char *kStqStateNames[kStqStatePerfCount] = {
         "Empty",          "Allocated",      "WaitAddr",
-        "WaitData",       "WaitTlb",        "Ready",
+        "WaitData",       "WaitTlb",        "WaitTlbRetry",
+        "WaitDone",       "Ready",          "WaitCommit",
         "Committed",      "WaitDcacheResp", "WaitMmioResp",
-        "Replaying",      "PageFault",      "Done",
-        "Other"};
+        "Replaying",      "PageFault",      "WaitFinish",
+        "Done",           "Other"};
 
     perf_print_state_avg_max("LDQ State Avg/Max Occupancy:",
                              kLdqStateNames, ldq_state_average_count,
-- 
2.43.0


From e79518a6af08725200a1da31e966adf8fa4be6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:35 +0000
Subject: [PATCH 40/40] fix: do not let the fetch oracle run past FENCE.I and
 SFENCE.VMA

---
 diff/br_oracle.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/diff/br_oracle.cpp b/diff/br_oracle.cpp
index 893de72..75e9c42 100644
--- a/diff/br_oracle.cpp
+++ b/diff/br_oracle.cpp
@@ -237,9 +237,13 @@ void get_oracle(struct front_top_in &in, struct front_top_out &out) {
     out.predict_next_fetch_address = state.pc;
 
 
-    if (info.is_exception || info.is_csr || info.is_io) {
+    // FENCE.I and SFENCE.VMA flush the core at commit. The oracle must not run
+    // past them: its stores cannot be undone when it is set back.
+    const bool flushes_at_commit = (info.instruction & 0x707f) == 0x100f ||
+                                   (info.instruction & 0xfe007fff) == 0x12000073;
+    if (info.is_exception || info.is_csr || info.is_io || flushes_at_commit) {
       out.predict_dir[i] = false;
-      if (info.is_exception || info.is_csr) {
+      if (info.is_exception || info.is_csr || flushes_at_commit) {
         stall = true;
       }
 
-- 
2.43.0

