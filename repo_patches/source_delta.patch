From 77bea971e5845e2b50f3b13d29fb150bf5c1a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 01/96] fix: x86: two operand instructions when the second
 source is addressed by the destination register

---
 sljit_src/sljitNativeX86_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 9a6a37e..3ed33f3 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2109,7 +2109,7 @@ static sljit_s32 emit_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst)) {
+	if (FAST_IS_REG(dst) && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
@@ -2182,7 +2182,7 @@ static sljit_s32 emit_non_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst) && dst != src2) {
+	if (FAST_IS_REG(dst) && dst != src2 && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
-- 
2.43.0


From 0d7e6e4161d006c83160b881891d62e855a873fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 02/96] fix: x86-64: keep ecx when a shift amount is loaded
 from a 64 bit address

---
 sljit_src/sljitNativeX86_common.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 3ed33f3..1e69e0d 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2615,14 +2615,19 @@ static sljit_s32 emit_shift(struct sljit_compiler *compiler,
 	EMIT_MOV(compiler, TMP_REG1, 0, src1, src1w);
 #if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
 	EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_PREF_SHIFT_REG, 0);
+	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 #else /* !SLJIT_CONFIG_X86_32 */
+	/* TMP_REG2 cannot hold ecx while src2 is loaded, because
+	   the address of src2 may be computed with TMP_REG2. */
+	EMIT_MOV(compiler, TMP_REG2, 0, src2, src2w);
 	mode32 = compiler->mode32;
 	compiler->mode32 = 0;
-	EMIT_MOV(compiler, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+	inst = emit_x86_instruction(compiler, 1, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+	FAIL_IF(!inst);
+	*inst = XCHG_r_rm;
 	compiler->mode32 = mode32;
 #endif /* SLJIT_CONFIG_X86_32 */
 
-	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 	inst = emit_x86_instruction(compiler, 1 | EX86_SHIFT_INS, SLJIT_PREF_SHIFT_REG, 0, TMP_REG1, 0);
 	FAIL_IF(!inst);
 	inst[1] |= mode;
-- 
2.43.0


From 687b0273490bf99d41ea3630f2912f8929c0e59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 03/96] fix: sljit_emit_op2cmpz: rewritable jumps must not
 change the type of the current flags

---
 sljit_src/sljitLir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 14d1e95..cd41761 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2578,7 +2578,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_op2cmpz(struct sljit_comp
 	FUNCTION_CHECK_DST(dst, dstw);
 	FUNCTION_CHECK_SRC(src1, src1w);
 	FUNCTION_CHECK_SRC(src2, src2w);
-	compiler->last_flags = GET_FLAG_TYPE(op) | (op & SLJIT_32);
+	compiler->last_flags = GET_FLAG_TYPE(op & ~SLJIT_REWRITABLE_JUMP) | (op & SLJIT_32);
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
-- 
2.43.0


From 64664e472e8a672b85db80303263ae813679a979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 04/96] fix: x86: register aliasing of sljit_emit_shift_into,
 and the result of multiplication when src2 is addressed by the destination

---
 sljit_src/sljitNativeX86_common.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 1e69e0d..4d083d7 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2311,7 +2311,7 @@ static sljit_s32 emit_mul(struct sljit_compiler *compiler,
 		FAIL_IF(emit_groupf(compiler, IMUL_r_rm, dst_r, src2, src2w));
 	}
 
-	if (dst & SLJIT_MEM)
+	if (dst_r != dst)
 		EMIT_MOV(compiler, dst, dstw, TMP_REG1, 0);
 
 	return SLJIT_SUCCESS;
@@ -2831,6 +2831,18 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2r(struct sljit_compiler *compil
 	return SLJIT_SUCCESS;
 }
 
+#if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
+/* Returns with a register which is not used by src. */
+static sljit_s32 select_tmp_reg(sljit_s32 src)
+{
+	if (src != SLJIT_R0 && !ADDRESSING_DEPENDS_ON(src, SLJIT_R0))
+		return SLJIT_R0;
+	if (src != SLJIT_R1 && !ADDRESSING_DEPENDS_ON(src, SLJIT_R1))
+		return SLJIT_R1;
+	return SLJIT_S0;
+}
+#endif /* SLJIT_CONFIG_X86_32 */
+
 SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *compiler, sljit_s32 op,
 	sljit_s32 dst_reg,
 	sljit_s32 src1_reg,
@@ -2897,7 +2909,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 			src1_reg = TMP_REG1;
 			src1w = 0;
 		} else if ((src1_reg & SLJIT_MEM) || src1_reg == SLJIT_PREF_SHIFT_REG) {
-			restore_sp4 = (src3 == SLJIT_R0) ? SLJIT_R1 : SLJIT_R0;
+			restore_sp4 = select_tmp_reg(src3);
 			EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), sizeof(sljit_s32), restore_sp4, 0);
 			EMIT_MOV(compiler, restore_sp4, 0, src1_reg, src1w);
 			src1_reg = restore_sp4;
@@ -2926,7 +2938,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		move_src1 = 0;
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
 		if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
@@ -2940,7 +2952,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 				src1_reg = TMP_REG1;
 				src1w = 0;
 			} else if ((src1_reg & SLJIT_MEM) || src1_reg == SLJIT_PREF_SHIFT_REG) {
-				restore_sp4 = (src3 == SLJIT_R0) ? SLJIT_R1 : SLJIT_R0;
+				restore_sp4 = select_tmp_reg(src3);
 				EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), sizeof(sljit_s32), restore_sp4, 0);
 				EMIT_MOV(compiler, restore_sp4, 0, src1_reg, src1w);
 				src1_reg = restore_sp4;
@@ -2950,7 +2962,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 				restore_sp4 = src1_reg;
 			}
 		} else if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
@@ -2977,6 +2989,15 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 #endif /* SLJIT_CONFIG_X86_64 */
 			}
 			EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src3, src3w);
+
+			/* The original value of ecx is moved. */
+			if (move_src1 && src1_reg == SLJIT_PREF_SHIFT_REG) {
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+				src1_reg = TMP_REG1;
+#else /* !SLJIT_CONFIG_X86_64 */
+				src1_reg = (restore_ecx == 1) ? TMP_REG1 : SLJIT_MEM1(SLJIT_SP);
+#endif /* SLJIT_CONFIG_X86_64 */
+			}
 		}
 
 		if (move_src1) {
-- 
2.43.0


From ab19dfa13cb89d129521758dd74f8d1a5d1901e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 05/96] fix: sljit_emit_shift_into: store src1 into the
 destination when the immediate shift amount is zero

---
 sljit_src/sljitNativeARM_32.c       | 9 +++++++--
 sljit_src/sljitNativeARM_64.c       | 9 +++++++--
 sljit_src/sljitNativeARM_T2_32.c    | 9 +++++++--
 sljit_src/sljitNativeLOONGARCH_64.c | 9 +++++++--
 sljit_src/sljitNativeMIPS_common.c  | 9 +++++++--
 sljit_src/sljitNativePPC_common.c   | 9 +++++++--
 sljit_src/sljitNativeRISCV_common.c | 9 +++++++--
 sljit_src/sljitNativeS390X.c        | 9 +++++++--
 sljit_src/sljitNativeX86_common.c   | 9 ++++++---
 9 files changed, 62 insertions(+), 19 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 5e2a0f6..c5bb19c 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -2609,8 +2609,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= 0x1f;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		FAIL_IF(push_inst(compiler, MOV | RD(dst_reg) | RM(src1_reg) | ((sljit_ins)(is_left ? 0 : 1) << 5) | ((sljit_ins)src3w << 7)));
 		src3w = (src3w ^ 0x1f) + 1;
diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index 7a68792..ae67e45 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -1828,8 +1828,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		mask = inv_bits ? 0x1f : 0x3f;
 		src3w &= mask;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left)
 			src3w = (src3w ^ mask) + 1;
diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index fde821d..abd8b1d 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -2166,8 +2166,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= 0x1f;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (IS_2_LO_REGS(dst_reg, src1_reg))
 			FAIL_IF(push_inst16(compiler, (is_left ? LSLSI : LSRSI) | RD3(dst_reg) | RN3(src1_reg) | ((sljit_ins)src3w << 6)));
diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 697863e..f944377 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2125,8 +2125,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left) {
 			ins1 = INST(SLLI, op) | IMM_I12(src3w);
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 79e41de..ebf2c87 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -2745,8 +2745,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left) {
 			ins1 = SELECT_OP3(op, src3w, DSLL, DSLL32, SLL);
diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index e1d120e..71d2c0c 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -2066,8 +2066,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 #if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
 		if (!(op & SLJIT_32)) {
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index f4ce41f..f6174ea 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -2806,8 +2806,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left) {
 			ins1 = SLLI | WORD | IMM_I(src3w);
diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index da5c4dd..7cb19b6 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -3059,8 +3059,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (op & SLJIT_32) {
 			if (dst_r == src1_r) {
diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 4d083d7..73dff44 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2877,9 +2877,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 #else /* !SLJIT_CONFIG_X86_32 */
 		src3w &= (op & SLJIT_32) ? 0x1f : 0x3f;
 #endif /* SLJIT_CONFIG_X86_32 */
-
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
 	}
 
 	is_left = (GET_OPCODE(op) == SLJIT_SHL || GET_OPCODE(op) == SLJIT_MSHL);
@@ -2888,6 +2885,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	CHECK_EXTRA_REGS(src1_reg, src1w, (void)0);
 	CHECK_EXTRA_REGS(src2_reg, src2w, (void)0);
 
+	if (src3 == SLJIT_IMM && src3w == 0) {
+		if (dst_reg == src1_reg && dstw == src1w)
+			return SLJIT_SUCCESS;
+		return emit_mov(compiler, dst_reg, dstw, src1_reg, src1w);
+	}
+
 	if (is_rotate)
 		return emit_shift(compiler, is_left ? ROL : ROR, dst_reg, dstw, src1_reg, src1w, src3, src3w);
 
-- 
2.43.0


From 81a6bead98f2743effe3b297dab1f43422824afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 06/96] fix: constants may follow a conditional jump whose size
 is reduced to zero

---
 sljit_src/sljitLir.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index cd41761..1c78cc2 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -792,7 +792,8 @@ static SLJIT_INLINE sljit_uw sljit_get_next_min(sljit_uw next_label_size,
 {
 	sljit_uw result = next_jump_addr;
 
-	SLJIT_ASSERT(result == SLJIT_MAX_ADDRESS || result != next_const_addr);
+	/* A jump and the following constant have the same address, if
+	   the jump is merged with the instruction before it. */
 
 	if (next_const_addr < result)
 		result = next_const_addr;
-- 
2.43.0


From 83f6163f3c8f42f945bc7e9607e71ac989fc180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 07/96] fix: generic sljit_emit_fop2r must not adjust local
 offsets twice

---
 sljit_src/sljitLir.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 1c78cc2..cc20643 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -3522,9 +3522,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fop2r(struct sljit_compiler *compi
 {
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_fop2r(compiler, op, dst_freg, src1, src1w, src2, src2w));
-	ADJUST_LOCAL_OFFSET(src1, src1w);
-	ADJUST_LOCAL_OFFSET(src2, src2w);
 
+	/* The local offsets are adjusted by sljit_emit_fop2. */
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_fop2(compiler, op, dst_freg, 0, src1, src1w, src2, src2w);
 }
-- 
2.43.0


From 8317a13e73a749e6c8edc5c609494b40e1727194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 08/96] fix: ARM64: order of registers when a register pair is
 loaded and the first one is the base

---
 sljit_src/sljitNativeARM_64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index ae67e45..3552d89 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -2718,8 +2718,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem(struct sljit_compiler *compile
 			inst = SUBI;
 		} else if ((memw & 0x7) == 0 && memw <= 0x7ff0) {
 			if (!(type & SLJIT_MEM_STORE) && (mem & REG_MASK) == REG_PAIR_FIRST(reg)) {
-				FAIL_IF(push_inst(compiler, LDRI | RD(REG_PAIR_SECOND(reg)) | RN(mem & REG_MASK) | ((sljit_ins)memw << 7)));
-				return push_inst(compiler, LDRI | RD(REG_PAIR_FIRST(reg)) | RN(mem & REG_MASK) | ((sljit_ins)(memw + 0x8) << 7));
+				FAIL_IF(push_inst(compiler, LDRI | RD(REG_PAIR_SECOND(reg)) | RN(mem & REG_MASK) | ((sljit_ins)(memw + 0x8) << 7)));
+				return push_inst(compiler, LDRI | RD(REG_PAIR_FIRST(reg)) | RN(mem & REG_MASK) | ((sljit_ins)memw << 7));
 			}
 
 			inst = (type & SLJIT_MEM_STORE) ? STRI : LDRI;
-- 
2.43.0


From 8015eae98830710e1e31ae99cb39d40ef8802892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 09/96] fix: ARM-T2: detect invalid immediates when the address
 of unaligned double precision accesses is computed

---
 sljit_src/sljitNativeARM_T2_32.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index abd8b1d..b40f32e 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -3598,21 +3598,21 @@ static sljit_s32 update_mem_addr(struct sljit_compiler *compiler, sljit_s32 *mem
 		if (argw < 0) {
 			imm = get_imm((sljit_uw)(-argw & ~0xff));
 
-			if (imm) {
+			if (imm != INVALID_IMM) {
 				*memw = -(-argw & 0xff);
 				return push_inst32(compiler, SUB_WI | RD4(TMP_REG1) | RN4(arg) | imm);
 			}
 		} else if ((argw & 0xfff) <= max_offset) {
 			imm = get_imm((sljit_uw)(argw & ~0xfff));
 
-			if (imm) {
+			if (imm != INVALID_IMM) {
 				*memw = argw & 0xfff;
 				return push_inst32(compiler, ADD_WI | RD4(TMP_REG1) | RN4(arg) | imm);
 			}
 		} else {
 			imm = get_imm((sljit_uw)((argw | 0xfff) + 1));
 
-			if (imm) {
+			if (imm != INVALID_IMM) {
 				*memw = (argw & 0xfff) - 0x1000;
 				return push_inst32(compiler, ADD_WI | RD4(TMP_REG1) | RN4(arg) | imm);
 			}
-- 
2.43.0


From 49f943acac2e83df5791bbc0ec13de58ed17c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 10/96] fix: ARM-32: replacing an immediate of add and subtract
 with carry by its inverse

---
 sljit_src/sljitNativeARM_32.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index c5bb19c..21fbed2 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -2234,7 +2234,7 @@ static sljit_s32 emit_op(struct sljit_compiler *compiler, sljit_s32 op, sljit_s3
 				/* Note: additive operation (commutative). */
 				SLJIT_ASSERT(op == SLJIT_ADD || op == SLJIT_ADDC);
 
-				src2_reg = (sljit_s32)get_imm((sljit_uw)-src1w);
+				src2_reg = (sljit_s32)get_imm((neg_op == SLJIT_SUB) ? (sljit_uw)-src1w : ~(sljit_uw)src1w);
 				if (src2_reg) {
 					src1 = src2;
 					src1w = src2w;
@@ -2305,7 +2305,7 @@ static sljit_s32 emit_op(struct sljit_compiler *compiler, sljit_s32 op, sljit_s3
 			src2_reg = (sljit_s32)compute_imm((sljit_uw)src2w, &imm2);
 
 			if (src2_reg == 0 && neg_op != 0) {
-				src2_reg = (sljit_s32)compute_imm((sljit_uw)-src2w, &imm2);
+				src2_reg = (sljit_s32)compute_imm((neg_op == SLJIT_ADD || neg_op == SLJIT_SUB) ? (sljit_uw)-src2w : ~(sljit_uw)src2w, &imm2);
 				if (src2_reg != 0)
 					op = neg_op;
 			}
@@ -2332,7 +2332,7 @@ static sljit_s32 emit_op(struct sljit_compiler *compiler, sljit_s32 op, sljit_s3
 		src1_reg = (sljit_s32)compute_imm((sljit_uw)src1w, &imm2);
 
 		if (src1_reg == 0 && neg_op != 0) {
-			src1_reg = (sljit_s32)compute_imm((sljit_uw)-src1w, &imm2);
+			src1_reg = (sljit_s32)compute_imm((neg_op == SLJIT_SUB) ? (sljit_uw)-src1w : ~(sljit_uw)src1w, &imm2);
 			if (src1_reg != 0)
 				op = neg_op;
 		}
@@ -2347,6 +2347,8 @@ static sljit_s32 emit_op(struct sljit_compiler *compiler, sljit_s32 op, sljit_s3
 
 			if (op == SLJIT_ADDC)
 				op = SLJIT_ADD;
+			else if (op == SLJIT_SUBC)
+				op = SLJIT_SUB;
 		}
 	}
 
-- 
2.43.0


From e4b98057615420c74760e6a951a3648b14f120e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 11/96] fix: ARM-32: xor of two immediates when the first one
 is -1

---
 sljit_src/sljitNativeARM_32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 21fbed2..fb0afe7 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -2526,7 +2526,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 
 	case SLJIT_XOR:
 		inp_flags = ALLOW_IMM | ALLOW_DOUBLE_IMM;
-		if ((src1 == SLJIT_IMM && src1w == -1) || (src2 == SLJIT_IMM && src2w == -1)) {
+		if ((src1 == SLJIT_IMM && src1w == -1 && src2 != SLJIT_IMM) || (src2 == SLJIT_IMM && src2w == -1)) {
 			inp_flags |= ALLOW_INV_IMM;
 		}
 		return emit_op(compiler, op, inp_flags, dst, dstw, src1, src1w, src2, src2w);
-- 
2.43.0


From ba12e06a0929281b4d6255a8103076b2d7e79e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 12/96] fix: ARM64: sljit_get_local_base must not overwrite the
 result when it is stored to a far address

---
 sljit_src/sljitNativeARM_64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index 3552d89..bea1264 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -3574,7 +3574,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_get_local_base(struct sljit_compiler *c
 	}
 
 	if (SLJIT_UNLIKELY(dst & SLJIT_MEM))
-		return emit_op_mem(compiler, WORD_SIZE | STORE, dst_reg, dst, dstw, TMP_REG1);
+		return emit_op_mem(compiler, WORD_SIZE | STORE, dst_reg, dst, dstw, TMP_REG2);
 	return SLJIT_SUCCESS;
 }
 
-- 
2.43.0


From fb1b412a0cf89f1273d89bbbafba0002ed603a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 13/96] fix: RISC-V: sign extension of 32 bit values (compare,
 select, byte reverse), carry computed from a zero operand, source clobbered
 by half word stores (bitmanip), select from an address based on the
 destination

---
 sljit_src/sljitNativeRISCV_common.c | 51 ++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index f6174ea..47b25d4 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1689,7 +1689,8 @@ static sljit_s32 emit_op_mem(struct sljit_compiler *compiler, sljit_s32 flags, s
 	if (getput_arg_fast(compiler, flags, reg, arg, argw))
 		return compiler->error;
 
-	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA))
+	/* The base register is needed after tmp_r is modified. */
+	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA) && reg != base)
 		tmp_r = reg;
 
 	if (SLJIT_UNLIKELY(arg & OFFS_REG_MASK)) {
@@ -1834,7 +1835,7 @@ static sljit_s32 emit_rev(struct sljit_compiler *compiler, sljit_s32 op, sljit_s
 	FAIL_IF(push_inst(compiler, AND | RD(dst) | RS1(dst) | RS2(OTHER_FLAG)));
 	FAIL_IF(push_inst(compiler, AND | RD(TMP_REG1) | RS1(TMP_REG1) | RS2(OTHER_FLAG)));
 #if (defined SLJIT_CONFIG_RISCV_64 && SLJIT_CONFIG_RISCV_64)
-	FAIL_IF(push_inst(compiler, SLLI | (GET_OPCODE(op) == SLJIT_REV_S32 ? WORD_32 : 0) | RD(dst) | RS1(dst) | IMM_I(8)));
+	FAIL_IF(push_inst(compiler, SLLI | (GET_OPCODE(op) != SLJIT_REV_U32 ? WORD_32 : 0) | RD(dst) | RS1(dst) | IMM_I(8)));
 #else /* !SLJIT_CONFIG_RISCV_64 */
 	FAIL_IF(push_inst(compiler, SLLI | RD(dst) | RS1(dst) | IMM_I(8)));
 #endif /* SLJIT_CONFIG_RISCV_64 */
@@ -1916,11 +1917,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_S8:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, SEXTB | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, SEXTB | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(24)));
 			return push_inst(compiler, SRAI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(24));
 		}
@@ -1928,11 +1929,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_U16:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, ZEXTH | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, ZEXTH | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(16)));
 			return push_inst(compiler, SRLI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(16));
 		}
@@ -1940,11 +1941,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_S16:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, SEXTH | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, SEXTH | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(16)));
 			return push_inst(compiler, SRAI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(16));
 		}
@@ -2014,7 +2015,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 	case SLJIT_ADD:
 		/* Overflow computation (both add and sub): overflow = src1_sign ^ src2_sign ^ result_sign ^ carry_flag */
 		is_overflow = GET_FLAG_TYPE(op) == SLJIT_OVERFLOW;
-		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_r = TMP_ZERO;
 
 		if (flags & SRC2_IMM) {
 			if (is_overflow) {
@@ -2043,7 +2045,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else if (op & SLJIT_SET_Z)
 				FAIL_IF(push_inst(compiler, ADD | WORD | RD(EQUAL_FLAG) | RS1(src1) | RS2(src2)));
 
-			if (is_overflow || carry_src_r != 0) {
+			if (is_overflow || is_carry) {
 				if (src1 != dst)
 					carry_src_r = (sljit_s32)src1;
 				else if (src2 != dst)
@@ -2060,7 +2062,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (is_overflow || carry_src_r != 0) {
+		if (is_overflow || is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(OTHER_FLAG) | RS1(dst) | IMM_I(src2)));
 			else
@@ -2081,7 +2083,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return push_inst(compiler, XOR | RD(OTHER_FLAG) | RS1(TMP_REG1) | RS2(OTHER_FLAG));
 
 	case SLJIT_ADDC:
-		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_r = TMP_ZERO;
 
 		if (flags & SRC2_IMM) {
 			SLJIT_ASSERT(src2 != 0);
@@ -2090,7 +2093,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else
 				FAIL_IF(push_inst(compiler, ADDI | WORD | RD(dst) | RS1(src1) | IMM_I(src2)));
 		} else {
-			if (carry_src_r != 0) {
+			if (is_carry) {
 				if (src1 != dst)
 					carry_src_r = (sljit_s32)src1;
 				else if (src2 != dst)
@@ -2108,7 +2111,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (carry_src_r != 0) {
+		if (is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(EQUAL_FLAG) | RS1(dst) | IMM_I(src2)));
 			else
@@ -2120,7 +2123,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		else
 			FAIL_IF(push_inst(compiler, ADD | WORD | RD(dst) | RS1(dst) | RS2(OTHER_FLAG)));
 
-		if (carry_src_r == 0)
+		if (!is_carry)
 			return SLJIT_SUCCESS;
 
 		/* Set ULESS_FLAG (dst == 0) && (OTHER_FLAG == 1). */
@@ -3471,7 +3474,15 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 #if (defined SLJIT_CONFIG_RISCV_32 && SLJIT_CONFIG_RISCV_32)
 	flags = WORD_DATA | LOAD_DATA;
 #else /* !SLJIT_CONFIG_RISCV_32 */
-	flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
+
+	if (type & SLJIT_32) {
+		/* Registers are sign extended. */
+		if (src1 == SLJIT_IMM)
+			src1w = (sljit_s32)src1w;
+		if (src2 == SLJIT_IMM)
+			src2w = (sljit_s32)src2w;
+	}
 #endif /* SLJIT_CONFIG_RISCV_32 */
 
 	if (src1 & SLJIT_MEM) {
@@ -3745,7 +3756,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 	sljit_ins ins;
 #if (defined SLJIT_CONFIG_RISCV_64 && SLJIT_CONFIG_RISCV_64)
 	sljit_ins word = (sljit_ins)(type & SLJIT_32) >> 5;
-	sljit_s32 inp_flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	sljit_s32 inp_flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 #else /* !SLJIT_CONFIG_RISCV_64 */
         sljit_s32 inp_flags = WORD_DATA | LOAD_DATA;
 #endif /* SLJIT_CONFIG_RISCV_64 */
-- 
2.43.0


From b4c9d765ef22a8fbbbda8ea34b968d60d54928c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 14/96] fix: MIPS: sign extension of 32 bit values (compare,
 select), carry computed from a zero operand, delay slot of fast calls, xor of
 two immediates, select from an address based on the destination, local offset
 of fmem

---
 sljit_src/sljitNativeMIPS_common.c | 57 +++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index ebf2c87..bd0f5eb 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -499,6 +499,12 @@ static SLJIT_INLINE sljit_ins invert_branch(sljit_uw flags)
 	return (1 << 16);
 }
 
+static SLJIT_INLINE sljit_s32 uses_return_addr(sljit_ins ins)
+{
+	return ((ins >> 21) & 0x1f) == RETURN_ADDR_REG || ((ins >> 16) & 0x1f) == RETURN_ADDR_REG
+		|| ((ins >> 11) & 0x1f) == RETURN_ADDR_REG;
+}
+
 static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_ins *code, sljit_sw executable_offset)
 {
 	sljit_sw diff;
@@ -508,6 +514,11 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 
 	inst = (sljit_ins *)jump->addr;
 
+	/* The return address register, which is also a temporary register, is
+	   set before the instruction in the delay slot is executed. */
+	if ((jump->flags & (IS_JAL | IS_MOVABLE)) == (IS_JAL | IS_MOVABLE) && uses_return_addr(inst[-1]))
+		jump->flags &= ~(sljit_uw)IS_MOVABLE;
+
 #if (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
 	if (jump->flags & (SLJIT_REWRITABLE_JUMP | IS_CALL))
 		goto exit;
@@ -1516,15 +1527,17 @@ static sljit_s32 emit_op_mem(struct sljit_compiler *compiler, sljit_s32 flags, s
 	if (getput_arg_fast(compiler, flags, reg_ar, arg, argw))
 		return compiler->error;
 
+	base = arg & REG_MASK;
+
 	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA)) {
-		tmp_ar = reg_ar;
+		/* The base register is needed after tmp_ar is modified. */
+		tmp_ar = (base != 0 && DR(base) == reg_ar) ? DR(TMP_REG1) : reg_ar;
 		delay_slot = reg_ar;
 	}
 	else {
 		tmp_ar = DR(TMP_REG1);
 		delay_slot = MOVABLE_INS;
 	}
-	base = arg & REG_MASK;
 
 	if (SLJIT_UNLIKELY(arg & OFFS_REG_MASK)) {
 		argw &= 0x3;
@@ -1872,7 +1885,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 	case SLJIT_ADD:
 		/* Overflow computation (both add and sub): overflow = src1_sign ^ src2_sign ^ result_sign ^ carry_flag */
 		is_overflow = GET_FLAG_TYPE(op) == SLJIT_OVERFLOW;
-		carry_src_ar = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_ar = 0;
 
 		if (flags & SRC2_IMM) {
 			if (is_overflow) {
@@ -1894,7 +1908,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else if (op & SLJIT_SET_Z)
 				FAIL_IF(push_inst(compiler, SELECT_OP(DADDU, ADDU) | S(src1) | T(src2) | DA(EQUAL_FLAG), EQUAL_FLAG));
 
-			if (is_overflow || carry_src_ar != 0) {
+			if (is_overflow || is_carry) {
 				if (src1 != dst)
 					carry_src_ar = DR(src1);
 				else if (src2 != dst)
@@ -1911,7 +1925,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (is_overflow || carry_src_ar != 0) {
+		if (is_overflow || is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTIU | S(dst) | TA(OTHER_FLAG) | IMM(src2), OTHER_FLAG));
 			else
@@ -1928,12 +1942,13 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return push_inst(compiler, XOR | S(TMP_REG1) | TA(OTHER_FLAG) | DA(OTHER_FLAG), OTHER_FLAG);
 
 	case SLJIT_ADDC:
-		carry_src_ar = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_ar = 0;
 
 		if (flags & SRC2_IMM) {
 			FAIL_IF(push_inst(compiler, SELECT_OP(DADDIU, ADDIU) | S(src1) | T(dst) | IMM(src2), DR(dst)));
 		} else {
-			if (carry_src_ar != 0) {
+			if (is_carry) {
 				if (src1 != dst)
 					carry_src_ar = DR(src1);
 				else if (src2 != dst)
@@ -1948,7 +1963,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (carry_src_ar != 0) {
+		if (is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTIU | S(dst) | TA(EQUAL_FLAG) | IMM(src2), EQUAL_FLAG));
 			else
@@ -1957,7 +1972,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 
 		FAIL_IF(push_inst(compiler, SELECT_OP(DADDU, ADDU) | S(dst) | TA(OTHER_FLAG) | D(dst), DR(dst)));
 
-		if (carry_src_ar == 0)
+		if (!is_carry)
 			return SLJIT_SUCCESS;
 
 		/* Set ULESS_FLAG (dst == 0) && (OTHER_FLAG == 1). */
@@ -2645,7 +2660,15 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 		return emit_op(compiler, op, flags | CUMULATIVE_OP, dst, dstw, src1, src1w, src2, src2w);
 
 	case SLJIT_XOR:
-		if ((src1 == SLJIT_IMM && src1w == -1) || (src2 == SLJIT_IMM && src2w == -1)) {
+		if (src1 == SLJIT_IMM && src1w == -1) {
+			/* The -1 must be the second argument, even if both arguments are immediates. */
+			src1 = src2;
+			src1w = src2w;
+			src2 = SLJIT_IMM;
+			src2w = -1;
+		}
+
+		if (src2 == SLJIT_IMM && src2w == -1) {
 			return emit_op(compiler, op, flags | CUMULATIVE_OP | IMM_OP, dst, dstw, src1, src1w, src2, src2w);
 		}
 		/* fallthrough */
@@ -3530,7 +3553,15 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 #if (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
 	flags = WORD_DATA | LOAD_DATA;
 #else /* !SLJIT_CONFIG_MIPS_32 */
-	flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
+
+	if (type & SLJIT_32) {
+		/* Registers are sign extended. */
+		if (src1 == SLJIT_IMM)
+			src1w = (sljit_s32)src1w;
+		if (src2 == SLJIT_IMM)
+			src2w = (sljit_s32)src2w;
+	}
 #endif /* SLJIT_CONFIG_MIPS_32 */
 
 	if (src1 & SLJIT_MEM) {
@@ -3850,7 +3881,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 	sljit_s32 src2_reg)
 {
 #if (defined SLJIT_CONFIG_MIPS_64 && SLJIT_CONFIG_MIPS_64)
-	sljit_s32 inp_flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	sljit_s32 inp_flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 	sljit_ins mov_ins = (type & SLJIT_32) ? ADDU : DADDU;
 #else /* !SLJIT_CONFIG_MIPS_64 */
 	sljit_s32 inp_flags = WORD_DATA | LOAD_DATA;
@@ -4221,6 +4252,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fmem(struct sljit_compiler *compil
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_fmem(compiler, type, freg, mem, memw));
 
+	ADJUST_LOCAL_OFFSET(mem, memw);
+
 	FAIL_IF(update_mem_addr(compiler, &mem, &memw, SIMM_MAX - (type & SLJIT_32) ? 3 : 7));
 	SLJIT_ASSERT(FAST_IS_REG(mem) && mem != TMP_REG2);
 
-- 
2.43.0


From 12cbf1fc0d218402817a7538d89dde95aa2dec85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 15/96] fix: LOONGARCH: 32 bit operations must sign extend
 their results, conversions, carry computed from a zero operand, temporary
 registers of memory accesses, select based on flags with arbitrary non-zero
 values

---
 sljit_src/sljitNativeLOONGARCH_64.c | 107 +++++++++++++++-------------
 1 file changed, 58 insertions(+), 49 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index f944377..f9f4153 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -1258,6 +1258,8 @@ static sljit_s32 getput_arg(struct sljit_compiler *compiler, sljit_s32 flags, sl
 	if (SLJIT_UNLIKELY(arg & OFFS_REG_MASK)) {
 		argw &= 0x3;
 
+		/* TMP_REG3 is overwritten. */
+		compiler->cache_arg = 0;
 		if (SLJIT_UNLIKELY(argw))
 			FAIL_IF(push_inst(compiler, SLLI_D | RD(TMP_REG3) | RJ(OFFS_REG(arg)) | IMM_I12(argw)));
 		return push_mem_inst(compiler, flags, reg, SLJIT_MEM2(base, TMP_REG3), 0);
@@ -1308,7 +1310,8 @@ static sljit_s32 emit_op_mem(struct sljit_compiler *compiler, sljit_s32 flags, s
 	if (getput_arg_fast(compiler, flags, reg, arg, argw))
 		return compiler->error;
 
-	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA))
+	/* The base register is needed after tmp_r is modified. */
+	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA) && reg != base)
 		tmp_r = reg;
 
 	if (SLJIT_UNLIKELY(arg & OFFS_REG_MASK)) {
@@ -1429,7 +1432,10 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 
 	case SLJIT_REV:
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
-		return push_inst(compiler, ((op & SLJIT_32) ? REVB_2W : REVB_D) | RD(dst) | RJ(src2));
+		if (!(op & SLJIT_32))
+			return push_inst(compiler, REVB_D | RD(dst) | RJ(src2));
+		FAIL_IF(push_inst(compiler, REVB_2W | RD(dst) | RJ(src2)));
+		return push_inst(compiler, SLLI_W | RD(dst) | RJ(dst) | IMM_I12(0));
 
 	case SLJIT_REV_S16:
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
@@ -1454,7 +1460,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 	case SLJIT_ADD:
 		/* Overflow computation (both add and sub): overflow = src1_sign ^ src2_sign ^ result_sign ^ carry_flag */
 		is_overflow = GET_FLAG_TYPE(op) == SLJIT_OVERFLOW;
-		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_r = TMP_ZERO;
 
 		if (flags & SRC2_IMM) {
 			if (is_overflow) {
@@ -1476,7 +1483,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else if (op & SLJIT_SET_Z)
 				FAIL_IF(push_inst(compiler, INST(ADD, op) | RD(EQUAL_FLAG) | RJ(src1) | RK(src2)));
 
-			if (is_overflow || carry_src_r != 0) {
+			if (is_overflow || is_carry) {
 				if (src1 != dst)
 					carry_src_r = (sljit_s32)src1;
 				else if (src2 != dst)
@@ -1493,7 +1500,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (is_overflow || carry_src_r != 0) {
+		if (is_overflow || is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(OTHER_FLAG) | RJ(dst) | IMM_I12(src2)));
 			else
@@ -1510,12 +1517,13 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return push_inst(compiler, XOR | RD(OTHER_FLAG) | RJ(TMP_REG1) | RK(OTHER_FLAG));
 
 	case SLJIT_ADDC:
-		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_r = TMP_ZERO;
 
 		if (flags & SRC2_IMM) {
-			FAIL_IF(push_inst(compiler, ADDI_D | RD(dst) | RJ(src1) | IMM_I12(src2)));
+			FAIL_IF(push_inst(compiler, INST(ADDI, op) | RD(dst) | RJ(src1) | IMM_I12(src2)));
 		} else {
-			if (carry_src_r != 0) {
+			if (is_carry) {
 				if (src1 != dst)
 					carry_src_r = (sljit_s32)src1;
 				else if (src2 != dst)
@@ -1526,20 +1534,20 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 				}
 			}
 
-			FAIL_IF(push_inst(compiler, ADD_D | RD(dst) | RJ(src1) | RK(src2)));
+			FAIL_IF(push_inst(compiler, INST(ADD, op) | RD(dst) | RJ(src1) | RK(src2)));
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (carry_src_r != 0) {
+		if (is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(EQUAL_FLAG) | RJ(dst) | IMM_I12(src2)));
 			else
 				FAIL_IF(push_inst(compiler, SLTU | RD(EQUAL_FLAG) | RJ(dst) | RK(carry_src_r)));
 		}
 
-		FAIL_IF(push_inst(compiler, ADD_D | RD(dst) | RJ(dst) | RK(OTHER_FLAG)));
+		FAIL_IF(push_inst(compiler, INST(ADD, op) | RD(dst) | RJ(dst) | RK(OTHER_FLAG)));
 
-		if (carry_src_r == 0)
+		if (!is_carry)
 			return SLJIT_SUCCESS;
 
 		/* Set ULESS_FLAG (dst == 0) && (OTHER_FLAG == 1). */
@@ -2092,7 +2100,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2r(struct sljit_compiler *compil
 	case SLJIT_MULADD:
 		SLJIT_SKIP_CHECKS(compiler);
 		FAIL_IF(sljit_emit_op2(compiler, SLJIT_MUL | (op & SLJIT_32), TMP_REG2, 0, src1, src1w, src2, src2w));
-		return push_inst(compiler, ADD_D | RD(dst_reg) | RJ(dst_reg) | RK(TMP_REG2));
+		return push_inst(compiler, INST(ADD, op) | RD(dst_reg) | RJ(dst_reg) | RK(TMP_REG2));
 	}
 
 	return SLJIT_SUCCESS;
@@ -2328,7 +2336,7 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_sw_from_f64(struct sljit_comp
 	}
 
 	FAIL_IF(push_inst(compiler, inst | FRD(TMP_FREG1) | FRJ(src)));
-	FAIL_IF(push_inst(compiler, FINST(MOVFR2GR, word_data) | RD(dst_r) | FRJ(TMP_FREG1)));
+	FAIL_IF(push_inst(compiler, (word_data ? MOVFR2GR_D : MOVFR2GR_S) | RD(dst_r) | FRJ(TMP_FREG1)));
 
 	if (dst & SLJIT_MEM)
 		return emit_op_mem2(compiler, word_data ? WORD_DATA : INT_DATA, TMP_REG2, dst, dstw, 0, 0);
@@ -2386,50 +2394,40 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_uw(struct sljit_comp
 	sljit_s32 dst, sljit_sw dstw,
 	sljit_s32 src, sljit_sw srcw)
 {
-	sljit_ins inst;
-	sljit_u32 word_data = 0;
+	sljit_ins inst = (sljit_ins)((op & SLJIT_32) ? FFINT_S_L : FFINT_D_L);
+	sljit_u32 word_data = (GET_OPCODE(op) == SLJIT_CONV_F64_FROM_UW);
 	sljit_s32 dst_r = FAST_IS_REG(dst) ? dst : TMP_FREG1;
 
-	switch (GET_OPCODE(op))
-	{
-	case SLJIT_CONV_F64_FROM_UW:
-		word_data = 1;
-		inst = (sljit_ins)((op & SLJIT_32) ? FFINT_S_L : FFINT_D_L);
-		break;
-	case SLJIT_CONV_F64_FROM_U32:
-		inst = (sljit_ins)((op & SLJIT_32) ? FFINT_S_W : FFINT_D_W);
-		break;
-	default:
-		inst = BREAK;
-		SLJIT_UNREACHABLE();
-	}
-
 	if (src & SLJIT_MEM) {
 		FAIL_IF(emit_op_mem2(compiler, (word_data ? WORD_DATA : INT_DATA) | LOAD_DATA, TMP_REG1, src, srcw, dst, dstw));
 		src = TMP_REG1;
 	} else if (src == SLJIT_IMM) {
-		if (GET_OPCODE(op) == SLJIT_CONV_F64_FROM_U32)
+		if (!word_data)
 			srcw = (sljit_u32)srcw;
 
 		FAIL_IF(load_immediate(compiler, TMP_REG1, srcw));
 		src = TMP_REG1;
 	}
 
-	if (!word_data)
-		FAIL_IF(push_inst(compiler, SRLI_W | RD(src) | RJ(src) | IMM_I12(0)));
-
-	FAIL_IF(push_inst(compiler, BLT | RJ(src) | RD(TMP_ZERO) | IMM_I16(4)));
+	if (!word_data) {
+		/* All 32 bit unsigned values are non-negative 64 bit values. */
+		FAIL_IF(push_inst(compiler, BSTRPICK_D | RD(TMP_REG1) | RJ(src) | (31 << 16)));
+		FAIL_IF(push_inst(compiler, MOVGR2FR_D | FRD(dst_r) | RJ(TMP_REG1)));
+		FAIL_IF(push_inst(compiler, inst | FRD(dst_r) | FRJ(dst_r)));
+	} else {
+		FAIL_IF(push_inst(compiler, BLT | RJ(src) | RD(TMP_ZERO) | IMM_I16(4)));
 
-	FAIL_IF(push_inst(compiler, (word_data ? MOVGR2FR_D : MOVGR2FR_W) | FRD(dst_r) | RJ(src)));
-	FAIL_IF(push_inst(compiler, inst | FRD(dst_r) | FRJ(dst_r)));
-	FAIL_IF(push_inst(compiler, B | IMM_I26(7)));
+		FAIL_IF(push_inst(compiler, MOVGR2FR_D | FRD(dst_r) | RJ(src)));
+		FAIL_IF(push_inst(compiler, inst | FRD(dst_r) | FRJ(dst_r)));
+		FAIL_IF(push_inst(compiler, B | IMM_I26(7)));
 
-	FAIL_IF(push_inst(compiler, ANDI | RD(TMP_REG2) | RJ(src) | IMM_I12(1)));
-	FAIL_IF(push_inst(compiler, (word_data ? SRLI_D : SRLI_W) | RD(TMP_REG1) | RJ(src) | IMM_I12(1)));
-	FAIL_IF(push_inst(compiler, OR | RD(TMP_REG1) | RJ(TMP_REG1) | RK(TMP_REG2)));
-	FAIL_IF(push_inst(compiler, INST(MOVGR2FR, (!word_data)) | FRD(dst_r) | RJ(TMP_REG1)));
-	FAIL_IF(push_inst(compiler, inst | FRD(dst_r) | FRJ(dst_r)));
-	FAIL_IF(push_inst(compiler, FINST(FADD, op) | FRD(dst_r) | FRJ(dst_r) | FRK(dst_r)));
+		FAIL_IF(push_inst(compiler, ANDI | RD(TMP_REG2) | RJ(src) | IMM_I12(1)));
+		FAIL_IF(push_inst(compiler, SRLI_D | RD(TMP_REG1) | RJ(src) | IMM_I12(1)));
+		FAIL_IF(push_inst(compiler, OR | RD(TMP_REG1) | RJ(TMP_REG1) | RK(TMP_REG2)));
+		FAIL_IF(push_inst(compiler, MOVGR2FR_D | FRD(dst_r) | RJ(TMP_REG1)));
+		FAIL_IF(push_inst(compiler, inst | FRD(dst_r) | FRJ(dst_r)));
+		FAIL_IF(push_inst(compiler, FINST(FADD, op) | FRD(dst_r) | FRJ(dst_r) | FRK(dst_r)));
+	}
 
 	if (dst & SLJIT_MEM)
 		return emit_op_mem2(compiler, FLOAT_DATA(op), TMP_FREG1, dst, dstw, 0, 0);
@@ -2877,7 +2875,15 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 	compiler->cache_arg = 0;
 	compiler->cache_argw = 0;
 
-	flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
+
+	if (type & SLJIT_32) {
+		/* Registers are sign extended. */
+		if (src1 == SLJIT_IMM)
+			src1w = (sljit_s32)src1w;
+		if (src2 == SLJIT_IMM)
+			src2w = (sljit_s32)src2w;
+	}
 
 	if (src1 & SLJIT_MEM) {
 		PTR_FAIL_IF(emit_op_mem2(compiler, flags, TMP_REG1, src1, src1w, src2, src2w));
@@ -2885,7 +2891,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 	}
 
 	if (src2 & SLJIT_MEM) {
-		PTR_FAIL_IF(emit_op_mem2(compiler, flags, src2_tmp_reg, src2, src2w, 0, 0));
+		PTR_FAIL_IF(emit_op_mem2(compiler, flags | (src1 == TMP_REG1 ? MEM_USE_TMP2 : 0), src2_tmp_reg, src2, src2w, 0, 0));
 		src2 = src2_tmp_reg;
 	}
 
@@ -3114,7 +3120,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 {
 	sljit_ins *ptr;
 	sljit_uw size;
-	sljit_s32 inp_flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	sljit_s32 inp_flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_select(compiler, type, dst_reg, src1, src1w, src2_reg));
@@ -3174,13 +3180,16 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fselect(struct sljit_compiler *com
 	if ((type & ~SLJIT_32) == SLJIT_EQUAL || (type & ~SLJIT_32) == SLJIT_NOT_EQUAL) {
 		if ((type & ~SLJIT_32) == SLJIT_EQUAL)
 			invert = 1;
-		FAIL_IF(push_inst(compiler, MOVGR2CF | FCD(F_OTHER_FLAG) | RJ(EQUAL_FLAG)));
+		FAIL_IF(push_inst(compiler, SLTU | RD(TMP_REG1) | RJ(TMP_ZERO) | RK(EQUAL_FLAG)));
 	} else {
 		if (get_jump_instruction(type & ~SLJIT_32) == (BNE | RJ(OTHER_FLAG) | RD(TMP_ZERO)))
 			invert = 1;
-		FAIL_IF(push_inst(compiler, MOVGR2CF | FCD(F_OTHER_FLAG) | RJ(OTHER_FLAG)));
+		FAIL_IF(push_inst(compiler, SLTU | RD(TMP_REG1) | RJ(TMP_ZERO) | RK(OTHER_FLAG)));
 	}
 
+	/* Only the lowest bit is moved, so the flag must be 0 or 1. */
+	FAIL_IF(push_inst(compiler, MOVGR2CF | FCD(F_OTHER_FLAG) | RJ(TMP_REG1)));
+
 	if (src1 & SLJIT_MEM) {
 		FAIL_IF(emit_op_mem(compiler, FLOAT_DATA(type) | LOAD_DATA, TMP_FREG2, src1, src1w));
 		if (invert)
-- 
2.43.0


From 5748c3f0e1b029717b6a9f8a9f6f743ed6fcd2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 16/96] fix: x86-32: SLJIT_MOV_U8 must not change the flags

---
 sljit_src/sljitNativeX86_common.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 73dff44..02964d6 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -1590,13 +1590,7 @@ static sljit_s32 emit_mov_byte(struct sljit_compiler *compiler, sljit_s32 sign,
 			/* Both src and dst are registers. */
 			SLJIT_ASSERT(FAST_IS_REG(dst));
 
-			if (src == dst && !sign) {
-				inst = emit_x86_instruction(compiler, 1 | EX86_BIN_INS, SLJIT_IMM, 0xff, dst, 0);
-				FAIL_IF(!inst);
-				*(inst + 1) |= AND;
-				return SLJIT_SUCCESS;
-			}
-
+			/* The flags must be kept. */
 			EMIT_MOV(compiler, TMP_REG1, 0, src, 0);
 			src = TMP_REG1;
 			srcw = 0;
-- 
2.43.0


From 6745f97cd28b7284d92df31722970a0f85294575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 17/96] fix: S390X: address computations must not change the
 flags or reuse a live temporary register, local offset of op_flags, negation
 must not define the zero flag, overflow of subtracting the minimum value,
 paired load with overlapping index

---
 sljit_src/sljitNativeS390X.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index 7cb19b6..67d86e2 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -1248,16 +1248,16 @@ static sljit_s32 emit_siy(struct sljit_compiler *compiler, sljit_ins ins,
 		if ((dstw & 0x3) == 0)
 			index = gpr(OFFS_REG(dst));
 		else
-			FAIL_IF(push_inst(compiler, sllg(tmp1, index, dstw & 0x3, 0)));
+			FAIL_IF(push_inst(compiler, sllg(tmp1, gpr(OFFS_REG(dst)), dstw & 0x3, 0)));
 
-		FAIL_IF(push_inst(compiler, la(tmp1, 0, dst_r, index)));
+		FAIL_IF(push_inst(compiler, la(tmp1, 0, index, gpr(dst & REG_MASK))));
 		dstw = 0;
 	}
 	else if (!is_s20(dstw)) {
 		FAIL_IF(push_load_imm_inst(compiler, tmp1, dstw));
 
 		if (dst & REG_MASK)
-			FAIL_IF(push_inst(compiler, la(tmp1, 0, dst_r, tmp1)));
+			FAIL_IF(push_inst(compiler, la(tmp1, 0, tmp1, gpr(dst & REG_MASK))));
 
 		dstw = 0;
 	}
@@ -2539,7 +2539,11 @@ static sljit_s32 sljit_emit_sub(struct sljit_compiler *compiler, sljit_s32 op,
 		return emit_rr(compiler, ins, src1, src1, src1w, src2, src2w);
 	}
 
-	if (src1 == SLJIT_IMM && src1w == 0 && (flag_type == 0 || sets_signed)) {
+	/* The tmp1 register is needed for address computation. */
+	if (dst == TMP_REG2)
+		dst = TMP_REG1;
+
+	if (src1 == SLJIT_IMM && src1w == 0 && ((op & (SLJIT_SET_Z | VARIABLE_FLAG_MASK)) == 0 || sets_signed)) {
 		ins = (op & SLJIT_32) ? 0x1300 /* lcr */ : 0xb9030000 /* lcgr */;
 		FAIL_IF(emit_rr1(compiler, ins, dst, src2, src2w));
 		goto done;
@@ -2578,7 +2582,7 @@ static sljit_s32 sljit_emit_sub(struct sljit_compiler *compiler, sljit_s32 op,
 				goto done;
 			}
 		}
-		else if ((op & SLJIT_32) || is_s32(neg_src2w)) {
+		else if ((op & SLJIT_32) ? ((sljit_s32)src2w != (sljit_s32)0x80000000) : is_s32(neg_src2w)) {
 			ins = (op & SLJIT_32) ? 0xc20900000000 /* afi */ : 0xc20800000000 /* agfi */;
 			FAIL_IF(emit_ri(compiler, ins, dst, src1, src1w, neg_src2w, RIL_A));
 			goto done;
@@ -2797,6 +2801,10 @@ static sljit_s32 sljit_emit_bitwise(struct sljit_compiler *compiler, sljit_s32 o
 			return sljit_emit_bitwise_imm(compiler, type, dst, src1, src1w, imm, count16);
 	}
 
+	/* The tmp1 register is needed for address computation. */
+	if (dst == TMP_REG2)
+		dst = TMP_REG1;
+
 	if (type == SLJIT_AND)
 		forms = &bitwise_and_forms;
 	else if (type == SLJIT_OR)
@@ -3804,6 +3812,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op_flags(struct sljit_compiler *co
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_op_flags(compiler, op, dst, dstw, type));
+	ADJUST_LOCAL_OFFSET(dst, dstw);
 
 	switch (GET_OPCODE(op)) {
 	case SLJIT_AND:
@@ -3907,14 +3916,14 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 				src_r = tmp1;
 			}
 
-			FAIL_IF(push_inst(compiler, 0xb9e80000 /* agrk */ | R12A(src_r) | R4A(tmp1) | R0A(gpr(src1 & REG_MASK))));
+			FAIL_IF(push_inst(compiler, la(tmp1, 0, src_r, gpr(src1 & REG_MASK))));
 			src_r = tmp1;
 			src1w = 0;
 		} else if (!is_s20(src1w)) {
 			FAIL_IF(push_load_imm_inst(compiler, tmp1, src1w));
 
 			if (src1 & REG_MASK)
-				FAIL_IF(push_inst(compiler, 0xb9e80000 /* agrk */ | R12A(tmp1) | R4A(tmp1) | R0A(gpr(src1 & REG_MASK))));
+				FAIL_IF(push_inst(compiler, la(tmp1, 0, tmp1, gpr(src1 & REG_MASK))));
 
 			src_r = tmp1;
 			src1w = 0;
@@ -4012,7 +4021,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem(struct sljit_compiler *compile
 			FAIL_IF(push_inst(compiler, 0xeb000000000d /* sllg */ | R36A(tmp1) | R32A(offs) | ((sljit_ins)memw << 16)));
 			offs = tmp1;
 		} else if (!(type & SLJIT_MEM_STORE) && (base == reg1 || base == reg2) && (offs == reg1 || offs == reg2)) {
-			FAIL_IF(push_inst(compiler, 0xb9f80000 | R12A(tmp1) | R4A(base) | R0A(offs)));
+			FAIL_IF(push_inst(compiler, la(tmp1, 0, offs, base)));
 			base = tmp1;
 			offs = 0;
 		}
@@ -4036,7 +4045,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem(struct sljit_compiler *compile
 
 	ins = ((type & SLJIT_MEM_STORE) ? 0xe30000000024 /* stg */ : 0xe30000000004 /* lg */) | R32A(offs) | R28A(base);
 
-	if (!(type & SLJIT_MEM_STORE) && base == reg1) {
+	if (!(type & SLJIT_MEM_STORE) && (base == reg1 || offs == reg1)) {
 		FAIL_IF(push_inst(compiler, ins | R36A(reg2) | disp_s20((sljit_s32)memw + SSIZE_OF(sw))));
 		return push_inst(compiler, ins | R36A(reg1) | disp_s20((sljit_s32)memw));
 	}
-- 
2.43.0


From 986b67faf1f954fc571f26f32f87c1f250a76117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:52 +0000
Subject: [PATCH 18/96] fix: PPC: carry of subtracting zero and of 32 bit
 operations, zero flag of 32 bit bitwise operations, 64 bit immediates of or
 and xor, temporary registers of select, copy into the upper half of a double

---
 sljit_src/sljitNativePPC_32.c     |  6 +++---
 sljit_src/sljitNativePPC_64.c     | 12 +++++++++---
 sljit_src/sljitNativePPC_common.c | 17 +++++++++--------
 3 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/sljit_src/sljitNativePPC_32.c b/sljit_src/sljitNativePPC_32.c
index c07f4b4..068ff25 100644
--- a/sljit_src/sljitNativePPC_32.c
+++ b/sljit_src/sljitNativePPC_32.c
@@ -452,12 +452,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fcopy(struct sljit_compiler *compi
 	}
 
 	if (op == SLJIT_COPY_TO_F64) {
-		FAIL_IF(push_inst(compiler, STW | S(reg) | A(SLJIT_SP) | TMP_MEM_OFFSET_HI));
-
 		if (reg2 != 0)
 			FAIL_IF(push_inst(compiler, STW | S(reg2) | A(SLJIT_SP) | TMP_MEM_OFFSET_LO));
 		else
-			FAIL_IF(push_inst(compiler, STFD | FS(freg) | A(SLJIT_SP) | TMP_MEM_OFFSET_LO));
+			FAIL_IF(push_inst(compiler, STFD | FS(freg) | A(SLJIT_SP) | TMP_MEM_OFFSET));
+
+		FAIL_IF(push_inst(compiler, STW | S(reg) | A(SLJIT_SP) | TMP_MEM_OFFSET_HI));
 
 		return push_inst(compiler, LFD | FS(freg) | A(SLJIT_SP) | TMP_MEM_OFFSET);
 	}
diff --git a/sljit_src/sljitNativePPC_64.c b/sljit_src/sljitNativePPC_64.c
index 2b07fcb..ccd93da 100644
--- a/sljit_src/sljitNativePPC_64.c
+++ b/sljit_src/sljitNativePPC_64.c
@@ -226,7 +226,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 				src2 = TMP_REG2;
 			}
 			/* Setting XER SO is not enough, CR SO is also needed. */
-			FAIL_IF(push_inst(compiler, ADD | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src1) | B(src2)));
+			FAIL_IF(push_inst(compiler, ((flags & ALT_FORM5) ? ADDC : ADD) | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src1) | B(src2)));
 			if (flags & ALT_SIGN_EXT)
 				return push_inst(compiler, SRDI(32) | S(dst) | A(dst));
 			return SLJIT_SUCCESS;
@@ -311,7 +311,9 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			}
 
 			/* Setting XER SO is not enough, CR SO is also needed. */
-			if (src1 != TMP_ZERO)
+			if (flags & ALT_FORM5)
+				FAIL_IF(push_inst(compiler, SUBFC | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src2) | B(src1)));
+			else if (src1 != TMP_ZERO)
 				FAIL_IF(push_inst(compiler, SUBF | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src2) | B(src1)));
 			else
 				FAIL_IF(push_inst(compiler, NEG | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src2)));
@@ -322,8 +324,9 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		if (flags & ALT_FORM4) {
-			/* Flags does not set: BIN_IMM_EXTS unnecessary. */
+			/* Only the carry flag may be set. */
 			SLJIT_ASSERT(src2 == TMP_REG2);
+			BIN_IMM_EXTS();
 			return push_inst(compiler, SUBFIC | D(dst) | A(src1) | compiler->imm);
 		}
 
@@ -363,6 +366,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			SLJIT_ASSERT(src2 == TMP_REG2);
 			return push_inst(compiler, ANDIS | S(src1) | A(dst) | compiler->imm);
 		}
+		BIN_EXTS();
 		return push_inst(compiler, AND | RC(flags) | S(src1) | A(dst) | B(src2));
 
 	case SLJIT_OR:
@@ -381,6 +385,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			FAIL_IF(push_inst(compiler, ORI | S(src1) | A(dst) | IMM(imm)));
 			return push_inst(compiler, ORIS | S(dst) | A(dst) | IMM(imm >> 16));
 		}
+		BIN_EXTS();
 		return push_inst(compiler, OR | RC(flags) | S(src1) | A(dst) | B(src2));
 
 	case SLJIT_XOR:
@@ -404,6 +409,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			UN_EXTS();
 			return push_inst(compiler, NOR | RC(flags) | S(src2) | A(dst) | B(src2));
 		}
+		BIN_EXTS();
 		return push_inst(compiler, XOR | RC(flags) | S(src1) | A(dst) | B(src2));
 
 	case SLJIT_SHL:
diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index 71d2c0c..38a5642 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -1733,7 +1733,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op1(struct sljit_compiler *compile
 #define TEST_ADD_IMM(src, srcw) \
 	((src) == SLJIT_IMM && (srcw) <= 0x7fff7fffl && (srcw) >= -0x80000000l)
 #define TEST_UI_IMM(src, srcw) \
-	((src) == SLJIT_IMM && !((srcw) & ~0xffffffff))
+	((src) == SLJIT_IMM && !((srcw) & ~(sljit_sw)0xffffffff))
 
 #define TEST_ADD_FORM1(op) \
 	(GET_FLAG_TYPE(op) == SLJIT_OVERFLOW \
@@ -1794,7 +1794,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 		compiler->status_flags_state = SLJIT_CURRENT_FLAGS_ADD;
 
 		if (TEST_ADD_FORM1(op))
-			return emit_op(compiler, SLJIT_ADD, flags | ALT_FORM1, dst, dstw, src1, src1w, src2, src2w);
+			return emit_op(compiler, SLJIT_ADD, flags | ALT_FORM1 | ((GET_FLAG_TYPE(op) == SLJIT_CARRY) ? ALT_FORM5 : 0), dst, dstw, src1, src1w, src2, src2w);
 
 		if (!HAS_FLAGS(op) && (src1 == SLJIT_IMM || src2 == SLJIT_IMM)) {
 			if (TEST_SL_IMM(src2, src2w)) {
@@ -1889,9 +1889,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 		}
 
 		if (TEST_SUB_FORM3(op))
-			return emit_op(compiler, SLJIT_SUB, flags | ALT_FORM3, dst, dstw, src1, src1w, src2, src2w);
+			return emit_op(compiler, SLJIT_SUB, flags | ALT_FORM3 | ((GET_FLAG_TYPE(op) == SLJIT_CARRY) ? ALT_FORM5 : 0), dst, dstw, src1, src1w, src2, src2w);
 
-		if (TEST_SL_IMM(src2, -src2w)) {
+		/* Adding zero never sets the carry. */
+		if (TEST_SL_IMM(src2, -src2w) && (src2w != 0 || GET_FLAG_TYPE(op) != SLJIT_CARRY)) {
 			compiler->imm = (sljit_ins)(-src2w) & 0xffff;
 			return emit_op(compiler, SLJIT_ADD, flags | (!HAS_FLAGS(op) ? ALT_FORM2 : ALT_FORM3), dst, dstw, src1, src1w, TMP_REG2, 0);
 		}
@@ -2947,7 +2948,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 	}
 
 	if (((type & ~SLJIT_32) | 0x1) == SLJIT_NOT_CARRY)
-		FAIL_IF(push_inst(compiler, ADDE | RC(ALT_SET_FLAGS) | D(TMP_REG1) | A(TMP_ZERO) | B(TMP_ZERO)));
+		FAIL_IF(push_inst(compiler, ADDE | RC(ALT_SET_FLAGS) | D(TMP_REG2) | A(TMP_ZERO) | B(TMP_ZERO)));
 
 	size = compiler->size;
 
@@ -2956,12 +2957,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 	compiler->size++;
 
 	if (src1 & SLJIT_MEM) {
-		FAIL_IF(emit_op_mem(compiler, inp_flags, dst_reg, src1, src1w, TMP_REG1));
+		FAIL_IF(emit_op_mem(compiler, inp_flags, dst_reg, src1, src1w, TMP_REG2));
 	} else if (src1 == SLJIT_IMM) {
-#if (defined SLJIT_CONFIG_RISCV_64 && SLJIT_CONFIG_RISCV_64)
+#if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
 		if (type & SLJIT_32)
 			src1w = (sljit_s32)src1w;
-#endif /* SLJIT_CONFIG_RISCV_64 */
+#endif /* SLJIT_CONFIG_PPC_64 */
 		FAIL_IF(load_immediate(compiler, dst_reg, src1w));
 	} else
 		FAIL_IF(push_inst(compiler, OR | S(src1) | A(dst_reg) | B(src1)));
-- 
2.43.0


From 18127c3c82372ccfb2d2286589903c5862aabd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 19/96] fix: S390X: op2u must keep the destination temporary
 register when possible

---
 sljit_src/sljitNativeS390X.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index 67d86e2..1054106 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -2540,7 +2540,7 @@ static sljit_s32 sljit_emit_sub(struct sljit_compiler *compiler, sljit_s32 op,
 	}
 
 	/* The tmp1 register is needed for address computation. */
-	if (dst == TMP_REG2)
+	if (dst == TMP_REG2 && ((src1 | src2) & SLJIT_MEM))
 		dst = TMP_REG1;
 
 	if (src1 == SLJIT_IMM && src1w == 0 && ((op & (SLJIT_SET_Z | VARIABLE_FLAG_MASK)) == 0 || sets_signed)) {
@@ -2802,7 +2802,7 @@ static sljit_s32 sljit_emit_bitwise(struct sljit_compiler *compiler, sljit_s32 o
 	}
 
 	/* The tmp1 register is needed for address computation. */
-	if (dst == TMP_REG2)
+	if (dst == TMP_REG2 && ((src1 | src2) & SLJIT_MEM))
 		dst = TMP_REG1;
 
 	if (type == SLJIT_AND)
-- 
2.43.0


From 77feecd02b25a55879afb28aa744bfc966f32af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 20/96] fix: PPC-64: size of calls which load their entry
 address, assertion failed and code was overwritten

---
 sljit_src/sljitNativePPC_common.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index 38a5642..c74c3ff 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -553,6 +553,19 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 			total_size = JUMP_MAX_SIZE - 1;
 
 			if (!(jump->flags & SLJIT_REWRITABLE_JUMP)) {
+#if (defined SLJIT_PASS_ENTRY_ADDR_TO_CALL && SLJIT_PASS_ENTRY_ADDR_TO_CALL)
+				/* The entry address must be loaded into TMP_CALL_REG. */
+				if (jump->flags & IS_CALL) {
+#if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
+					if (jump->flags & JUMP_ADDR) {
+						if (jump->u.target < 0x80000000l)
+							total_size = 4 - 1;
+						else if (jump->u.target < 0x800000000000l)
+							total_size = 6 - 1;
+					}
+#endif /* SLJIT_CONFIG_PPC_64 */
+				} else
+#endif /* SLJIT_PASS_ENTRY_ADDR_TO_CALL */
 				if (jump->flags & JUMP_ADDR) {
 					if (jump->u.target <= 0x01ffffff)
 						total_size = 1 - 1;
-- 
2.43.0


From 780d2fd4120f457668b2d9942b3c9a89d8ce8174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:14 +0000
Subject: [PATCH 21/96] fix: PPC-64: conversion of 64 bit integers to single
 precision was rounded twice

---
 sljit_src/sljitNativePPC_64.c | 41 +++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativePPC_64.c b/sljit_src/sljitNativePPC_64.c
index ccd93da..d6f4103 100644
--- a/sljit_src/sljitNativePPC_64.c
+++ b/sljit_src/sljitNativePPC_64.c
@@ -574,6 +574,25 @@ static SLJIT_INLINE sljit_s32 emit_const(struct sljit_compiler *compiler, sljit_
 	return push_inst(compiler, ORI | S(reg) | A(reg) | IMM(init_value));
 }
 
+#define ROUND_TO_SINGLE_SIZE 9
+
+/* Double precision cannot represent every 64 bit integer, and rounding twice can
+   produce an incorrect single precision value. The unused low bits of large values
+   are combined into a sticky bit. The result is stored in TMP_REG1. */
+static sljit_s32 emit_prepare_single_conv(struct sljit_compiler *compiler, sljit_s32 src)
+{
+	FAIL_IF(push_inst(compiler, SRADI | S(src) | A(TMP_REG2) | RLDI_SH(53)));
+	FAIL_IF(push_inst(compiler, ADDI | D(TMP_REG2) | A(TMP_REG2) | 1));
+	FAIL_IF(push_inst(compiler, CMPLI | CRD(0 | 1) | A(TMP_REG2) | 1));
+	FAIL_IF(push_inst(compiler, OR | S(src) | A(TMP_REG1) | B(src)));
+	/* Skipped if the value is not greater. */
+	FAIL_IF(push_inst(compiler, BCx | (4 << 21) | (1 << 16) | 20));
+	FAIL_IF(push_inst(compiler, RLDICL | S(TMP_REG1) | A(TMP_REG2) | RLDI_SH(0) | RLDI_MB(53)));
+	FAIL_IF(push_inst(compiler, ADDI | D(TMP_REG2) | A(TMP_REG2) | 0x7ff));
+	FAIL_IF(push_inst(compiler, OR | S(TMP_REG1) | A(TMP_REG1) | B(TMP_REG2)));
+	return push_inst(compiler, RLDICR | S(TMP_REG1) | A(TMP_REG1) | RLDI_SH(0) | RLDI_ME(52));
+}
+
 static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_sw(struct sljit_compiler *compiler, sljit_s32 op,
 	sljit_s32 dst, sljit_sw dstw,
 	sljit_s32 src, sljit_sw srcw)
@@ -594,6 +613,16 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_sw(struct sljit_comp
 		src = TMP_REG1;
 	}
 
+	if (op == SLJIT_CONV_F32_FROM_SW) {
+		if (src & SLJIT_MEM) {
+			FAIL_IF(emit_op_mem(compiler, WORD_DATA | LOAD_DATA, TMP_REG1, src, srcw, TMP_REG1));
+			src = TMP_REG1;
+		}
+
+		FAIL_IF(emit_prepare_single_conv(compiler, src));
+		src = TMP_REG1;
+	}
+
 	if (FAST_IS_REG(src)) {
 		FAIL_IF(push_inst(compiler, STD | S(src) | A(SLJIT_SP) | TMP_MEM_OFFSET));
 		FAIL_IF(push_inst(compiler, LFD | FS(TMP_FREG1) | A(SLJIT_SP) | TMP_MEM_OFFSET));
@@ -641,8 +670,16 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_uw(struct sljit_comp
 		}
 
 		FAIL_IF(push_inst(compiler, CMPI | CRD(0 | 1) | A(src) | 0));
-		FAIL_IF(push_inst(compiler, BCx | (12 << 21) | (0 << 16) | 20));
-		FAIL_IF(push_inst(compiler, STD | S(src) | A(SLJIT_SP) | TMP_MEM_OFFSET));
+
+		if (op & SLJIT_32) {
+			FAIL_IF(push_inst(compiler, BCx | (12 << 21) | (0 << 16) | (20 + ROUND_TO_SINGLE_SIZE * sizeof(sljit_ins))));
+			FAIL_IF(emit_prepare_single_conv(compiler, src));
+			FAIL_IF(push_inst(compiler, STD | S(TMP_REG1) | A(SLJIT_SP) | TMP_MEM_OFFSET));
+		} else {
+			FAIL_IF(push_inst(compiler, BCx | (12 << 21) | (0 << 16) | 20));
+			FAIL_IF(push_inst(compiler, STD | S(src) | A(SLJIT_SP) | TMP_MEM_OFFSET));
+		}
+
 		FAIL_IF(push_inst(compiler, LFD | FS(TMP_FREG1) | A(SLJIT_SP) | TMP_MEM_OFFSET));
 		FAIL_IF(push_inst(compiler, FCFID | FD(dst_r) | FB(TMP_FREG1)));
 		FAIL_IF(push_inst(compiler, Bx | ((op & SLJIT_32) ? 36 : 32)));
-- 
2.43.0


From 68e657befd7019d28a76818e05b04482c6c91795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 22/96] fix: argument check of sljit_set_context refused
 functions which return with a floating point value

---
 sljit_src/sljitLir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index cc20643..3eee383 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -1520,7 +1520,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_set_context(struct sljit_compi
 	CHECK_ARGUMENT(real_vsaveds >= 0 && real_vsaveds <= SLJIT_NUMBER_OF_SAVED_VECTOR_REGISTERS);
 	CHECK_ARGUMENT(real_vscratches + real_vsaveds <= SLJIT_NUMBER_OF_VECTOR_REGISTERS);
 	CHECK_ARGUMENT(local_size >= 0 && local_size <= SLJIT_MAX_LOCAL_SIZE);
-	CHECK_ARGUMENT((arg_types & SLJIT_ARG_FULL_MASK) < SLJIT_ARG_TYPE_F64);
+	CHECK_ARGUMENT((arg_types & SLJIT_ARG_FULL_MASK) <= SLJIT_ARG_TYPE_F32);
 	CHECK_ARGUMENT(function_check_arguments(arg_types, real_scratches,
 		(options & SLJIT_ENTER_REG_ARG) ? 0 : real_saveds, real_fscratches));
 
-- 
2.43.0


From af44925ef3c6db633fb92df1f28965fad82dd3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 23/96] fix: ARM-32: stack pointer was not restored when an odd
 number of saved registers is kept and float registers are saved

---
 sljit_src/sljitNativeARM_32.c    | 2 +-
 sljit_src/sljitNativeARM_T2_32.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index fb0afe7..01b2434 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -1523,7 +1523,7 @@ static sljit_s32 emit_stack_frame_release(struct sljit_compiler *compiler, sljit
 				FAIL_IF(push_inst(compiler, VPOP | VD(SLJIT_FS0) | ((sljit_ins)fsaveds << 1)));
 		}
 
-		local_size = GET_SAVED_REGISTERS_SIZE(compiler->scratches, compiler->saveds, 1) & 0x7;
+		local_size = GET_SAVED_REGISTERS_SIZE(compiler->scratches, compiler->saveds - SLJIT_KEPT_SAVEDS_COUNT(compiler->options), 1) & 0x7;
 	}
 
 	if (frame_size < 0) {
diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index b40f32e..7703324 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -1714,7 +1714,7 @@ static sljit_s32 emit_stack_frame_release(struct sljit_compiler *compiler, sljit
 				FAIL_IF(push_inst32(compiler, VPOP | VD4(SLJIT_FS0) | ((sljit_uw)fsaveds << 1)));
 		}
 
-		local_size = GET_SAVED_REGISTERS_SIZE(compiler->scratches, compiler->saveds, 1) & 0x7;
+		local_size = GET_SAVED_REGISTERS_SIZE(compiler->scratches, compiler->saveds - SLJIT_KEPT_SAVEDS_COUNT(compiler->options), 1) & 0x7;
 	}
 
 	if (frame_size < 0) {
-- 
2.43.0


From de9b213e1bc967368dc19db17768d4bd149306ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 24/96] fix: PPC-64: indirect tail calls with register
 arguments rearranged their arguments

---
 sljit_src/sljitNativePPC_common.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index c74c3ff..2f5de8c 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -2747,6 +2747,11 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 		src = TMP_CALL_REG;
 	}
 
+#if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
+	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
+		FAIL_IF(call_with_args(compiler, arg_types, &src));
+#endif
+
 	if (type & SLJIT_CALL_RETURN) {
 		if (src >= SLJIT_FIRST_SAVED_REG && src <= (SLJIT_S0 - SLJIT_KEPT_SAVEDS_COUNT(compiler->options))) {
 			FAIL_IF(push_inst(compiler, OR | S(src) | A(TMP_CALL_REG) | B(src)));
@@ -2757,11 +2762,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 		type = SLJIT_JUMP;
 	}
 
-#if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
-	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
-		FAIL_IF(call_with_args(compiler, arg_types, &src));
-#endif
-
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_ijump(compiler, type, src, srcw);
 }
-- 
2.43.0


From b42213d832254844ed0f7dbed4820b5df06287e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 25/96] fix: MIPS: indirect tail calls with register arguments
 returned to the released frame

---
 sljit_src/sljitNativeMIPS_32.c | 4 +++-
 sljit_src/sljitNativeMIPS_64.c | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeMIPS_32.c b/sljit_src/sljitNativeMIPS_32.c
index 8397961..5317660 100644
--- a/sljit_src/sljitNativeMIPS_32.c
+++ b/sljit_src/sljitNativeMIPS_32.c
@@ -406,7 +406,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 	sljit_s32 src, sljit_sw srcw)
 {
 	sljit_u32 extra_space = (sljit_u32)type;
-	sljit_ins ins;
+	sljit_ins ins = NOP;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_icall(compiler, type, arg_types, src, srcw));
@@ -430,6 +430,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 
 			if (ins != NOP)
 				FAIL_IF(push_inst(compiler, ins, MOVABLE_INS));
+
+			type = SLJIT_JUMP;
 		}
 
 		SLJIT_SKIP_CHECKS(compiler);
diff --git a/sljit_src/sljitNativeMIPS_64.c b/sljit_src/sljitNativeMIPS_64.c
index 965931b..df913ff 100644
--- a/sljit_src/sljitNativeMIPS_64.c
+++ b/sljit_src/sljitNativeMIPS_64.c
@@ -355,6 +355,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 
 			if (ins != NOP)
 				FAIL_IF(push_inst(compiler, ins, MOVABLE_INS));
+
+			type = SLJIT_JUMP;
 		}
 
 		SLJIT_SKIP_CHECKS(compiler);
-- 
2.43.0


From 9b98beebbd3db215ecc32a33ea2f0baa933828f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 26/96] fix: X86-32: tail calls stored single precision
 arguments as double precision values

---
 sljit_src/sljitNativeX86_32.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_32.c b/sljit_src/sljitNativeX86_32.c
index f5f5cc2..2bb5dc2 100644
--- a/sljit_src/sljitNativeX86_32.c
+++ b/sljit_src/sljitNativeX86_32.c
@@ -848,7 +848,7 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 				break;
 			case SLJIT_ARG_TYPE_F32:
 				offset -= SSIZE_OF(f32);
-				FAIL_IF(emit_sse2_store(compiler, 0, SLJIT_MEM1(SLJIT_SP), offset, float_arg_count));
+				FAIL_IF(emit_sse2_store(compiler, 1, SLJIT_MEM1(SLJIT_SP), offset, float_arg_count));
 				float_arg_count--;
 				break;
 			default:
@@ -957,7 +957,7 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 			break;
 		case SLJIT_ARG_TYPE_F32:
 			offset -= SSIZE_OF(f32);
-			FAIL_IF(emit_sse2_store(compiler, 0, SLJIT_MEM1(SLJIT_SP), offset, float_arg_count));
+			FAIL_IF(emit_sse2_store(compiler, 1, SLJIT_MEM1(SLJIT_SP), offset, float_arg_count));
 			float_arg_count--;
 			break;
 		default:
-- 
2.43.0


From 836e0289f45b80d6e72ef15841e6555fb5ee047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 27/96] fix: X86-32: stack was not aligned to 16 bytes by tail
 calls which need stack space for arguments

---
 sljit_src/sljitNativeX86_32.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeX86_32.c b/sljit_src/sljitNativeX86_32.c
index 2bb5dc2..ef61fdd 100644
--- a/sljit_src/sljitNativeX86_32.c
+++ b/sljit_src/sljitNativeX86_32.c
@@ -883,7 +883,9 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 		return emit_stack_frame_release(compiler, 0);
 	}
 
-	stack_size = args_size + SSIZE_OF(sw);
+	/* The stack must be aligned to 16 bytes before the call. */
+	*extra_space = (sljit_s32)(((args_size + SSIZE_OF(sw) + 0xf) & ~0xf) - SSIZE_OF(sw));
+	stack_size = *extra_space + SSIZE_OF(sw);
 
 	if (word_arg_count >= 1 && src != SLJIT_IMM && src != SLJIT_R0) {
 		r2_offset = SSIZE_OF(sw);
@@ -940,8 +942,7 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 	}
 
 	/* Copy fourth argument and return address. */
-	offset = stack_size - SSIZE_OF(sw);
-	*extra_space = args_size;
+	offset = stack_size - SSIZE_OF(sw) - (*extra_space - args_size);
 
 	if (word_arg_count >= 4) {
 		offset -= SSIZE_OF(sw);
-- 
2.43.0


From 26bdfb7b721deb45791e7d3bed7a0d0351440b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 28/96] fix: X86-32: third word argument of tail calls was not
 passed

---
 sljit_src/sljitNativeX86_32.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_32.c b/sljit_src/sljitNativeX86_32.c
index ef61fdd..104e733 100644
--- a/sljit_src/sljitNativeX86_32.c
+++ b/sljit_src/sljitNativeX86_32.c
@@ -867,11 +867,12 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 					break;
 				case 3:
 					offset -= SSIZE_OF(sw);
+					EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), offset, SLJIT_R2, 0);
 					break;
 				case 4:
 					offset -= SSIZE_OF(sw);
-					EMIT_MOV(compiler, SLJIT_R2, 0, SLJIT_MEM1(SLJIT_SP), 2 * SSIZE_OF(sw));
-					EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), offset, SLJIT_R2, 0);
+					EMIT_MOV(compiler, TMP_REG1, 0, SLJIT_MEM1(SLJIT_SP), 2 * SSIZE_OF(sw));
+					EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), offset, TMP_REG1, 0);
 					break;
 				}
 				word_arg_count--;
-- 
2.43.0


From 4bb437808a9b567f2f0460e88bf50ea6a3d033da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 29/96] fix: ARM-32: tail calls with register arguments
 rearranged their floating point arguments

---
 sljit_src/sljitNativeARM_32.c    | 20 ++++++++++----------
 sljit_src/sljitNativeARM_T2_32.c | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 01b2434..6c20549 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -3501,16 +3501,16 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_call(struct sljit_compile
 	}
 #endif /* __SOFTFP__ */
 
-	if (type & SLJIT_CALL_RETURN) {
-		PTR_FAIL_IF(emit_stack_frame_release(compiler, -1));
-		type = SLJIT_JUMP | (type & SLJIT_REWRITABLE_JUMP);
-	}
-
 #ifndef __SOFTFP__
 	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
 		PTR_FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
 #endif /* !__SOFTFP__ */
 
+	if (type & SLJIT_CALL_RETURN) {
+		PTR_FAIL_IF(emit_stack_frame_release(compiler, -1));
+		type = SLJIT_JUMP | (type & SLJIT_REWRITABLE_JUMP);
+	}
+
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_jump(compiler, type);
 }
@@ -3607,16 +3607,16 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 	}
 #endif /* __SOFTFP__ */
 
-	if (type & SLJIT_CALL_RETURN) {
-		FAIL_IF(emit_stack_frame_release(compiler, -1));
-		type = SLJIT_JUMP;
-	}
-
 #ifndef __SOFTFP__
 	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
 		FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
 #endif /* !__SOFTFP__ */
 
+	if (type & SLJIT_CALL_RETURN) {
+		FAIL_IF(emit_stack_frame_release(compiler, -1));
+		type = SLJIT_JUMP;
+	}
+
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_ijump(compiler, type, src, srcw);
 }
diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index 7703324..e64a0cd 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -3050,17 +3050,17 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_call(struct sljit_compile
 	}
 #endif /* __SOFTFP__ */
 
+#ifndef __SOFTFP__
+	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
+		PTR_FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
+#endif /* !__SOFTFP__ */
+
 	if (type & SLJIT_CALL_RETURN) {
 		/* ldmia sp!, {..., lr} */
 		PTR_FAIL_IF(emit_stack_frame_release(compiler, -1));
 		type = SLJIT_JUMP | (type & SLJIT_REWRITABLE_JUMP);
 	}
 
-#ifndef __SOFTFP__
-	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
-		PTR_FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
-#endif /* !__SOFTFP__ */
-
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_jump(compiler, type);
 }
@@ -3146,17 +3146,17 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 	}
 #endif /* __SOFTFP__ */
 
+#ifndef __SOFTFP__
+	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
+		FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
+#endif /* !__SOFTFP__ */
+
 	if (type & SLJIT_CALL_RETURN) {
 		/* ldmia sp!, {..., lr} */
 		FAIL_IF(emit_stack_frame_release(compiler, -1));
 		type = SLJIT_JUMP;
 	}
 
-#ifndef __SOFTFP__
-	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
-		FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
-#endif /* !__SOFTFP__ */
-
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_ijump(compiler, type, src, srcw);
 }
-- 
2.43.0


From 90998f3daf093626568f4215bec72947383145e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 30/96] fix: ARM-T2: third single precision argument of calls
 was moved to the wrong register

---
 sljit_src/sljitNativeARM_T2_32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index e64a0cd..1275f02 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -2993,7 +2993,7 @@ static sljit_s32 hardfloat_call_with_args(struct sljit_compiler *compiler, sljit
 				f32_offset = 0;
 			} else {
 				if (offset != new_offset)
-					FAIL_IF(push_inst32(compiler, VMOV_F32 | 0x400000 | VD4(new_offset) | VM4(offset)));
+					FAIL_IF(push_inst32(compiler, VMOV_F32 | VD4(new_offset) | VM4(offset)));
 				f32_offset = new_offset;
 				new_offset++;
 			}
-- 
2.43.0


From 01f7ff98e92ae5c5a7baf7b76fa7729bf5dfe950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 31/96] fix: MIPS-32: save area of float registers could
 overlap the local variables

---
 sljit_src/sljitNativeMIPS_common.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index bd0f5eb..d486fad 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -987,10 +987,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_enter(struct sljit_compiler *compi
 	scratches = ENTER_GET_REGS(scratches);
 	saveds = ENTER_GET_REGS(saveds);
 
-	local_size += GET_SAVED_REGISTERS_SIZE(scratches, saveds - saved_arg_count, 1);
+	tmp = GET_SAVED_REGISTERS_SIZE(scratches, saveds - saved_arg_count, 1);
+	local_size += tmp;
 #if (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
 	if (fsaveds > 0 || fscratches >= SLJIT_FIRST_SAVED_FLOAT_REG) {
-		if ((local_size & SSIZE_OF(sw)) != 0)
+		/* The float registers are stored to aligned addresses below the word registers. */
+		if ((tmp & SSIZE_OF(sw)) != 0)
 			local_size += SSIZE_OF(sw);
 		local_size += GET_SAVED_FLOAT_REGISTERS_SIZE(fscratches, fsaveds, f64);
 	}
@@ -1190,6 +1192,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_set_context(struct sljit_compiler *comp
 {
 	sljit_s32 fscratches = ENTER_GET_FLOAT_REGS(scratches);
 	sljit_s32 fsaveds = ENTER_GET_FLOAT_REGS(saveds);
+	sljit_s32 tmp;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_set_context(compiler, options, arg_types, scratches, saveds, local_size));
@@ -1198,10 +1201,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_set_context(struct sljit_compiler *comp
 	scratches = ENTER_GET_REGS(scratches);
 	saveds = ENTER_GET_REGS(saveds);
 
-	local_size += GET_SAVED_REGISTERS_SIZE(scratches, saveds - SLJIT_KEPT_SAVEDS_COUNT(options), 1);
+	tmp = GET_SAVED_REGISTERS_SIZE(scratches, saveds - SLJIT_KEPT_SAVEDS_COUNT(options), 1);
+	local_size += tmp;
 #if (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
 	if (fsaveds > 0 || fscratches >= SLJIT_FIRST_SAVED_FLOAT_REG) {
-		if ((local_size & SSIZE_OF(sw)) != 0)
+		/* The float registers are stored to aligned addresses below the word registers. */
+		if ((tmp & SSIZE_OF(sw)) != 0)
 			local_size += SSIZE_OF(sw);
 		local_size += GET_SAVED_FLOAT_REGISTERS_SIZE(fscratches, fsaveds, f64);
 	}
-- 
2.43.0


From f427a96922b963384ce5547930fb88e655b75065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 32/96] fix: MIPS-32: stack arguments of functions with nearly
 32 KiB of stack were loaded from a wrong address

---
 sljit_src/sljitNativeMIPS_common.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index d486fad..6ecf6ff 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -1011,12 +1011,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_enter(struct sljit_compiler *compi
 		arg_count = 0;
 
 		while (tmp) {
-			offset = arg_count;
 			if ((tmp & SLJIT_ARG_MASK) == SLJIT_ARG_TYPE_F64) {
 				if ((arg_count & 0x1) != 0)
 					arg_count++;
+				offset = arg_count;
 				arg_count++;
-			}
+			} else
+				offset = arg_count;
 
 			arg_count++;
 			tmp >>= SLJIT_ARG_SHIFT;
@@ -1027,7 +1028,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_enter(struct sljit_compiler *compi
 	}
 #endif /* SLJIT_CONFIG_MIPS_32 */
 
-	if (local_size + offset <= -SIMM_MIN) {
+	if (local_size + offset <= SIMM_MAX) {
 		/* Frequent case. */
 		FAIL_IF(push_inst(compiler, ADDIU_W | S(SLJIT_SP) | T(SLJIT_SP) | IMM(-local_size), DR(SLJIT_SP)));
 		base = S(SLJIT_SP);
-- 
2.43.0


From a3f0041b2f03bbdead14f9118371488c6ccbcf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 33/96] fix: LOONGARCH: copysign used a cached address which
 was computed by a previous instruction

---
 sljit_src/sljitNativeLOONGARCH_64.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index f9f4153..b1378cf 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2610,6 +2610,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fop2r(struct sljit_compiler *compi
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_fop2r(compiler, op, dst_freg, src1, src1w, src2, src2w));
+	compiler->cache_arg = 0;
+	compiler->cache_argw = 0;
+
 	ADJUST_LOCAL_OFFSET(src1, src1w);
 	ADJUST_LOCAL_OFFSET(src2, src2w);
 
-- 
2.43.0


From 0baa0b67895101da4d0df1852d4db4d92afbd76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 34/96] fix: ARM-32: releasing a large stack frame overwrote
 the target address of indirect tail calls and return_to

---
 sljit_src/sljitNativeARM_32.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 6c20549..7540919 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -1491,10 +1491,15 @@ static sljit_s32 emit_add_sp(struct sljit_compiler *compiler, sljit_uw imm)
 {
 	sljit_uw imm2 = get_imm(imm);
 
-	if (imm2 == 0)
+	if (imm2 != 0)
+		return push_inst(compiler, ADD | RD(SLJIT_SP) | RN(SLJIT_SP) | imm2);
+
+	/* The TMP_REG1 register must keep its value. */
+	if (imm <= 0xffff)
 		return emit_op(compiler, SLJIT_ADD, ALLOW_IMM | ALLOW_DOUBLE_IMM, SLJIT_SP, 0, SLJIT_SP, 0, SLJIT_IMM, (sljit_sw)imm);
 
-	return push_inst(compiler, ADD | RD(SLJIT_SP) | RN(SLJIT_SP) | imm2);
+	FAIL_IF(load_immediate(compiler, TMP_REG2, imm));
+	return push_inst(compiler, ADD | RD(SLJIT_SP) | RN(SLJIT_SP) | RM(TMP_REG2));
 }
 
 static sljit_s32 emit_stack_frame_release(struct sljit_compiler *compiler, sljit_s32 frame_size)
-- 
2.43.0


From 398064f5703d398493e29d2ae0cf594225573723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 35/96] fix: print memory alignment flags to the verbose stream
 of the compiler

---
 sljit_src/sljitLir.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 3eee383..4bf68a7 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2840,11 +2840,11 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_mem(struct sljit_compiler
 				!(type & SLJIT_32) ? "" : "32", op1_types[(type & 0xff) - SLJIT_OP1_BASE]);
 
 		if (type & SLJIT_MEM_UNALIGNED)
-			printf(".unal");
+			fprintf(compiler->verbose, ".unal");
 		else if (type & SLJIT_MEM_ALIGNED_16)
-			printf(".al16");
+			fprintf(compiler->verbose, ".al16");
 		else if (type & SLJIT_MEM_ALIGNED_32)
-			printf(".al32");
+			fprintf(compiler->verbose, ".al32");
 
 		if (reg & REG_PAIR_MASK) {
 			fprintf(compiler->verbose, " {");
@@ -2937,11 +2937,11 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fmem(struct sljit_compile
 			!(type & SLJIT_32) ? "f64" : "f32");
 
 		if (type & SLJIT_MEM_UNALIGNED)
-			printf(".unal");
+			fprintf(compiler->verbose, ".unal");
 		else if (type & SLJIT_MEM_ALIGNED_16)
-			printf(".al16");
+			fprintf(compiler->verbose, ".al16");
 		else if (type & SLJIT_MEM_ALIGNED_32)
-			printf(".al32");
+			fprintf(compiler->verbose, ".al32");
 
 		fprintf(compiler->verbose, " ");
 		sljit_verbose_freg(compiler, freg);
-- 
2.43.0


From c6c31cfc372c5733351dd3821b62100fb71a61d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 36/96] fix: store register counts of float and vector
 registers in serialized compilers

---
 sljit_src/sljitSerialize.c | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitSerialize.c b/sljit_src/sljitSerialize.c
index 042cc18..51348ef 100644
--- a/sljit_src/sljitSerialize.c
+++ b/sljit_src/sljitSerialize.c
@@ -68,6 +68,11 @@ struct sljit_serialized_compiler {
 	sljit_s32 local_size;
 	sljit_uw size;
 
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	sljit_s32 vscratches;
+	sljit_s32 vsaveds;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS */
+
 #if (defined SLJIT_HAS_STATUS_FLAGS_STATE && SLJIT_HAS_STATUS_FLAGS_STATE)
 	sljit_s32 status_flags_state;
 #endif /* SLJIT_HAS_STATUS_FLAGS_STATE */
@@ -97,6 +102,12 @@ struct sljit_serialized_debug_info {
 	sljit_sw last_flags;
 	sljit_s32 last_return;
 	sljit_s32 logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	sljit_s32 real_fscratches;
+	sljit_s32 real_fsaveds;
+	sljit_s32 vscratches;
+	sljit_s32 vsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 };
 
 struct sljit_serialized_label {
@@ -124,7 +135,7 @@ struct sljit_serialized_const {
 #else /* !SLJIT_LITTLE_ENDIAN */
 #define SLJIT_SERIALIZE_SIGNATURE 0x544a4c53
 #endif /* SLJIT_LITTLE_ENDIAN */
-#define SLJIT_SERIALIZE_VERSION 1
+#define SLJIT_SERIALIZE_VERSION 2
 
 SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compiler *compiler,
 	sljit_s32 options, sljit_uw *size)
@@ -215,6 +226,11 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compile
 	serialized_compiler->local_size = compiler->local_size;
 	serialized_compiler->size = compiler->size;
 
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	serialized_compiler->vscratches = compiler->vscratches;
+	serialized_compiler->vsaveds = compiler->vsaveds;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS */
+
 #if (defined SLJIT_HAS_STATUS_FLAGS_STATE && SLJIT_HAS_STATUS_FLAGS_STATE)
 	serialized_compiler->status_flags_state = compiler->status_flags_state;
 #endif /* SLJIT_HAS_STATUS_FLAGS_STATE */
@@ -309,6 +325,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compile
 		serialized_debug_info->last_flags = compiler->last_flags;
 		serialized_debug_info->last_return = compiler->last_return;
 		serialized_debug_info->logical_local_size = compiler->logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+		serialized_debug_info->real_fscratches = compiler->real_fscratches;
+		serialized_debug_info->real_fsaveds = compiler->real_fsaveds;
+		serialized_debug_info->vscratches = compiler->vscratches;
+		serialized_debug_info->vsaveds = compiler->vsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 		serialized_compiler->cpu_type |= SLJIT_SERIALIZE_DEBUG;
 #if (defined SLJIT_DEBUG && SLJIT_DEBUG)
 		ptr += sizeof(struct sljit_serialized_debug_info);
@@ -369,6 +391,11 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->local_size = serialized_compiler->local_size;
 	compiler->size = serialized_compiler->size;
 
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	compiler->vscratches = serialized_compiler->vscratches;
+	compiler->vsaveds = serialized_compiler->vsaveds;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS */
+
 #if (defined SLJIT_HAS_STATUS_FLAGS_STATE && SLJIT_HAS_STATUS_FLAGS_STATE)
 	compiler->status_flags_state = serialized_compiler->status_flags_state;
 #endif /* SLJIT_HAS_STATUS_FLAGS_STATE */
@@ -573,6 +600,12 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->last_flags = (sljit_s32)serialized_debug_info->last_flags;
 	compiler->last_return = serialized_debug_info->last_return;
 	compiler->logical_local_size = serialized_debug_info->logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	compiler->real_fscratches = serialized_debug_info->real_fscratches;
+	compiler->real_fsaveds = serialized_debug_info->real_fsaveds;
+	compiler->vscratches = serialized_debug_info->vscratches;
+	compiler->vsaveds = serialized_debug_info->vsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 #endif /* SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG */
 
 	return compiler;
-- 
2.43.0


From 733a46d872d545e7c573af1179b7a9b2de26e543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 37/96] fix: read the constant pool from its own place during
 deserialization (ARM_V6)

---
 sljit_src/sljitSerialize.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitSerialize.c b/sljit_src/sljitSerialize.c
index 51348ef..17c4ba0 100644
--- a/sljit_src/sljitSerialize.c
+++ b/sljit_src/sljitSerialize.c
@@ -406,6 +406,8 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->args_size = serialized_compiler->args_size;
 #endif /* SLJIT_CONFIG_X86_32 || (SLJIT_CONFIG_ARM_32 && __SOFTFP__) || SLJIT_CONFIG_MIPS_32 */
 
+	ptr += sizeof(struct sljit_serialized_compiler);
+
 #if (defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6)
 	used_size = serialized_compiler->cpool_fill;
 	aligned_size = SLJIT_SERIALIZE_ALIGN(used_size * (sizeof(sljit_uw) + 1));
@@ -431,7 +433,6 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 		goto error;
 #endif /* SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG */
 
-	ptr += sizeof(struct sljit_serialized_compiler);
 	i = serialized_compiler->buf_segment_count;
 	last_buf = NULL;
 	while (i > 0) {
-- 
2.43.0


From 47d0f4af909cff22a80f309b66a11c6930376070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 38/96] fix: do not use a compressed move with the zero
 register for overflow flags (RISC-V)

---
 sljit_src/sljitNativeRISCV_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 47b25d4..da37ffd 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -2021,7 +2021,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		if (flags & SRC2_IMM) {
 			if (is_overflow) {
 				if (src2 >= 0) {
-					if (RISCV_HAS_COMPRESSED(200))
+					if (RISCV_HAS_COMPRESSED(200) && src1 != TMP_ZERO)
 						FAIL_IF(push_inst16(compiler, C_MV | C_RD(EQUAL_FLAG) | C_RS2(src1)));
 					else
 						FAIL_IF(push_inst(compiler, ADDI | RD(EQUAL_FLAG) | RS1(src1) | IMM_I(0)));
@@ -2210,7 +2210,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		if (flags & SRC2_IMM) {
 			if (is_overflow) {
 				if (src2 >= 0) {
-					if (RISCV_HAS_COMPRESSED(200))
+					if (RISCV_HAS_COMPRESSED(200) && src1 != TMP_ZERO)
 						FAIL_IF(push_inst16(compiler, C_MV | C_RD(EQUAL_FLAG) | C_RS2(src1)));
 					else
 						FAIL_IF(push_inst(compiler, ADDI | RD(EQUAL_FLAG) | RS1(src1) | IMM_I(0)));
-- 
2.43.0


From 4334d7659b52446ee8a2317111957c806edfc057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 39/96] fix: return the error of internal emissions

Several emit functions ignored the result of internal emissions, and
returned success (or wrote to a null pointer) when the memory allocation
of a code fragment failed.
---
 sljit_src/sljitNativeARM_64.c       | 10 +++++-----
 sljit_src/sljitNativeARM_T2_32.c    | 12 ++++++------
 sljit_src/sljitNativeLOONGARCH_64.c |  4 ++--
 sljit_src/sljitNativeMIPS_common.c  |  2 +-
 sljit_src/sljitNativePPC_common.c   |  2 +-
 sljit_src/sljitNativeRISCV_64.c     |  2 +-
 sljit_src/sljitNativeRISCV_common.c |  2 +-
 sljit_src/sljitNativeS390X.c        | 14 +++++++-------
 sljit_src/sljitNativeX86_32.c       |  1 +
 sljit_src/sljitNativeX86_common.c   |  1 +
 10 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index bea1264..b95e2c8 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -1713,7 +1713,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op1(struct sljit_compiler *compile
 		src = TMP_REG2;
 	}
 
-	emit_op_imm(compiler, flags | op, dst_r, TMP_REG1, src);
+	FAIL_IF(emit_op_imm(compiler, flags | op, dst_r, TMP_REG1, src));
 
 	if (SLJIT_UNLIKELY(dst & SLJIT_MEM))
 		return emit_op_mem(compiler, mem_flags | STORE, dst_r, dst, dstw, TMP_REG2);
@@ -1765,7 +1765,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 	else
 		src2w = src2;
 
-	emit_op_imm(compiler, flags | GET_OPCODE(op), dst_r, src1w, src2w);
+	FAIL_IF(emit_op_imm(compiler, flags | GET_OPCODE(op), dst_r, src1w, src2w));
 
 	if (dst & SLJIT_MEM)
 		return emit_op_mem(compiler, mem_flags | STORE, dst_r, dst, dstw, TMP_REG2);
@@ -2049,7 +2049,7 @@ static sljit_s32 sljit_emit_fop1_conv_f64_from_w(struct sljit_compiler *compiler
 	sljit_s32 dst_r = FAST_IS_REG(dst) ? dst : TMP_FREG1;
 
 	if (src & SLJIT_MEM) {
-		emit_op_mem(compiler, (ins & W_OP) ? WORD_SIZE : INT_SIZE, TMP_REG1, src, srcw, TMP_REG1);
+		FAIL_IF(emit_op_mem(compiler, (ins & W_OP) ? WORD_SIZE : INT_SIZE, TMP_REG1, src, srcw, TMP_REG1));
 		src = TMP_REG1;
 	} else if (src == SLJIT_IMM) {
 		FAIL_IF(load_immediate(compiler, TMP_REG1, srcw));
@@ -2629,7 +2629,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op_flags(struct sljit_compiler *co
 	}
 
 	FAIL_IF(push_inst(compiler, CSINC | (cc << 12) | RD(TMP_REG2) | RN(TMP_ZERO) | RM(TMP_ZERO)));
-	emit_op_imm(compiler, flags | GET_OPCODE(op), dst_r, src_r, TMP_REG2);
+	FAIL_IF(emit_op_imm(compiler, flags | GET_OPCODE(op), dst_r, src_r, TMP_REG2));
 
 	if (dst & SLJIT_MEM)
 		return emit_op_mem(compiler, mem_flags | STORE, TMP_REG1, dst, dstw, TMP_REG2);
@@ -3377,7 +3377,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 			elem_size = 3;
 
 		FAIL_IF(sljit_emit_simd_mem_offset(compiler, &src2, src2w));
-		push_inst(compiler,  LD1 | (reg_size == 4 ? (1 << 30) : 0) | ((sljit_ins)elem_size << 10) | RN(src2) | VT(TMP_FREG1));
+		FAIL_IF(push_inst(compiler,  LD1 | (reg_size == 4 ? (1 << 30) : 0) | ((sljit_ins)elem_size << 10) | RN(src2) | VT(TMP_FREG1)));
 		src2 = TMP_FREG1;
 	}
 
diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index 1275f02..914673b 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -1360,7 +1360,7 @@ static SLJIT_INLINE sljit_s32 emit_op_mem(struct sljit_compiler *compiler, sljit
 	if (argw > 0xfff) {
 		imm = get_imm((sljit_uw)(argw & ~0xfff));
 		if (imm != INVALID_IMM) {
-			push_inst32(compiler, ADD_WI | RD4(tmp_reg) | RN4(arg) | imm);
+			FAIL_IF(push_inst32(compiler, ADD_WI | RD4(tmp_reg) | RN4(arg) | imm));
 			arg = tmp_reg;
 			argw = argw & 0xfff;
 		}
@@ -1371,7 +1371,7 @@ static SLJIT_INLINE sljit_s32 emit_op_mem(struct sljit_compiler *compiler, sljit
 		imm = get_imm(tmp);
 
 		if (imm != INVALID_IMM) {
-			push_inst32(compiler, SUB_WI | RD4(tmp_reg) | RN4(arg) | imm);
+			FAIL_IF(push_inst32(compiler, SUB_WI | RD4(tmp_reg) | RN4(arg) | imm));
 			arg = tmp_reg;
 			argw += (sljit_sw)tmp;
 
@@ -2064,7 +2064,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op1(struct sljit_compiler *compile
 		src = TMP_REG1;
 	}
 
-	emit_op_imm(compiler, op, dst_r, TMP_REG2, (sljit_uw)src);
+	FAIL_IF(emit_op_imm(compiler, op, dst_r, TMP_REG2, (sljit_uw)src));
 
 	if (SLJIT_UNLIKELY(dst & SLJIT_MEM))
 		return emit_op_mem(compiler, flags | STORE, dst_r, dst, dstw, TMP_REG1);
@@ -2094,7 +2094,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 		flags |= ARG2_IMM;
 	else if (src2 & SLJIT_MEM) {
 		src2_tmp_reg = FAST_IS_REG(src1) ? TMP_REG1 : TMP_REG2;
-		emit_op_mem(compiler, WORD_SIZE, src2_tmp_reg, src2, src2w, TMP_REG1);
+		FAIL_IF(emit_op_mem(compiler, WORD_SIZE, src2_tmp_reg, src2, src2w, TMP_REG1));
 		src2w = src2_tmp_reg;
 	} else
 		src2w = src2;
@@ -2102,12 +2102,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 	if (src1 == SLJIT_IMM)
 		flags |= ARG1_IMM;
 	else if (src1 & SLJIT_MEM) {
-		emit_op_mem(compiler, WORD_SIZE, TMP_REG1, src1, src1w, TMP_REG1);
+		FAIL_IF(emit_op_mem(compiler, WORD_SIZE, TMP_REG1, src1, src1w, TMP_REG1));
 		src1w = TMP_REG1;
 	} else
 		src1w = src1;
 
-	emit_op_imm(compiler, flags | GET_OPCODE(op), dst_reg, (sljit_uw)src1w, (sljit_uw)src2w);
+	FAIL_IF(emit_op_imm(compiler, flags | GET_OPCODE(op), dst_reg, (sljit_uw)src1w, (sljit_uw)src2w));
 
 	if (!(dst & SLJIT_MEM))
 		return SLJIT_SUCCESS;
diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index b1378cf..0c20041 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2160,7 +2160,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		FAIL_IF(emit_op_mem(compiler, inp_flags, TMP_REG2, src3, src3w));
 		src3 = TMP_REG2;
 	} else if (dst_reg == src3) {
-		push_inst(compiler, INST(ADDI, op) | RD(TMP_REG2) | RJ(src3) | IMM_I12(0));
+		FAIL_IF(push_inst(compiler, INST(ADDI, op) | RD(TMP_REG2) | RJ(src3) | IMM_I12(0)));
 		src3 = TMP_REG2;
 	}
 
@@ -3447,7 +3447,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 			ins |= (sljit_ins)lane_index << 18 | (sljit_ins)(1 << (23 - elem_size));
 			return push_inst(compiler, VSTELM | ins | FRD(vreg) | RJ(srcdst));
 		} else {
-			emit_op_mem(compiler, (elem_size == 3 ? WORD_DATA : (elem_size == 2 ? INT_DATA : (elem_size == 1 ? HALF_DATA : BYTE_DATA))) | LOAD_DATA, TMP_REG1, srcdst | SLJIT_MEM, 0);
+			FAIL_IF(emit_op_mem(compiler, (elem_size == 3 ? WORD_DATA : (elem_size == 2 ? INT_DATA : (elem_size == 1 ? HALF_DATA : BYTE_DATA))) | LOAD_DATA, TMP_REG1, srcdst | SLJIT_MEM, 0));
 			srcdst = TMP_REG1;
 			ins = (sljit_ins)(0x3f ^ (0x1f >> elem_size)) << 10;
 
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 6ecf6ff..1903d9e 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -1309,7 +1309,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_return_void(struct sljit_compiler
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_return_void(compiler));
 
-	emit_stack_frame_release(compiler, 0, &ins);
+	FAIL_IF(emit_stack_frame_release(compiler, 0, &ins));
 
 	FAIL_IF(push_inst(compiler, JR | SA(RETURN_ADDR_REG), UNMOVABLE_INS));
 	return push_inst(compiler, ins, UNMOVABLE_INS);
diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index 2f5de8c..642f505 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -1096,7 +1096,7 @@ static sljit_s32 emit_stack_frame_release(struct sljit_compiler *compiler, sljit
 	}
 
 	if (!is_return_to)
-		push_inst(compiler, MTLR | S(0));
+		FAIL_IF(push_inst(compiler, MTLR | S(0)));
 
 	if (local_size > 0)
 		return push_inst(compiler, ADDI | D(SLJIT_SP) | A(base) | IMM(local_size));
diff --git a/sljit_src/sljitNativeRISCV_64.c b/sljit_src/sljitNativeRISCV_64.c
index 113d1f8..aed568b 100644
--- a/sljit_src/sljitNativeRISCV_64.c
+++ b/sljit_src/sljitNativeRISCV_64.c
@@ -101,7 +101,7 @@ static sljit_s32 load_immediate(struct sljit_compiler *compiler, sljit_s32 dst_r
 	}
 
 	if (high <= 0x7fffffffl && high >= S32_MIN) {
-		load_immediate(compiler, dst_r, high, tmp_r);
+		FAIL_IF(load_immediate(compiler, dst_r, high, tmp_r));
 
 		if (RISCV_HAS_COMPRESSED(200))
 			return push_inst16(compiler, C_SLLI | C_RD(dst_r) | C_IMM_I(shift));
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index da37ffd..0a8d69a 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -2836,7 +2836,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		FAIL_IF(emit_op_mem(compiler, inp_flags, TMP_REG2, src3, src3w));
 		src3 = TMP_REG2;
 	} else if (dst_reg == src3) {
-		push_inst(compiler, ADDI | WORD | RD(TMP_REG2) | RS1(src3) | IMM_I(0));
+		FAIL_IF(push_inst(compiler, ADDI | WORD | RD(TMP_REG2) | RS1(src3) | IMM_I(0)));
 		src3 = TMP_REG2;
 	}
 
diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index 1054106..ca7d020 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -4171,7 +4171,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_replicate(struct sljit_compil
 				| ((sljit_ins)srcw << 16) | ((sljit_ins)elem_size << 12));
 		}
 
-		push_load_imm_inst(compiler, tmp0, srcw);
+		FAIL_IF(push_load_imm_inst(compiler, tmp0, srcw));
 		reg = tmp0;
 	} else
 		reg = gpr(src);
@@ -4290,7 +4290,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 		if (ins != 0)
 			return push_inst(compiler, ins | F36(vreg) | ((sljit_ins)srcdstw << 16) | ((sljit_ins)lane_index << 12));
 
-		push_load_imm_inst(compiler, tmp0, srcdstw);
+		FAIL_IF(push_load_imm_inst(compiler, tmp0, srcdstw));
 		reg = tmp0;
 	} else
 		reg = gpr(srcdst);
@@ -4427,18 +4427,18 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 
 	switch (elem_size) {
 	case 0:
-		push_load_imm_inst(compiler, tmp0, (sljit_sw)0x4048505860687078);
-		push_load_imm_inst(compiler, tmp1, (sljit_sw)0x0008101820283038);
+		FAIL_IF(push_load_imm_inst(compiler, tmp0, (sljit_sw)0x4048505860687078));
+		FAIL_IF(push_load_imm_inst(compiler, tmp1, (sljit_sw)0x0008101820283038));
 		FAIL_IF(push_inst(compiler, 0xe70000000062 /* vlvgp */ | F36(TMP_FREG1) | R32A(tmp1) | R28A(tmp0)));
 		break;
 	case 1:
-		push_load_imm_inst(compiler, tmp0, (sljit_sw)0x0010203040506070);
+		FAIL_IF(push_load_imm_inst(compiler, tmp0, (sljit_sw)0x0010203040506070));
 		break;
 	case 2:
-		push_load_imm_inst(compiler, tmp0, (sljit_sw)0x8080808000204060);
+		FAIL_IF(push_load_imm_inst(compiler, tmp0, (sljit_sw)0x8080808000204060));
 		break;
 	default:
-		push_load_imm_inst(compiler, tmp0, (sljit_sw)0x8080808080800040);
+		FAIL_IF(push_load_imm_inst(compiler, tmp0, (sljit_sw)0x8080808080800040));
 		break;
 	}
 
diff --git a/sljit_src/sljitNativeX86_32.c b/sljit_src/sljitNativeX86_32.c
index 104e733..7be6b2b 100644
--- a/sljit_src/sljitNativeX86_32.c
+++ b/sljit_src/sljitNativeX86_32.c
@@ -1182,6 +1182,7 @@ static SLJIT_INLINE sljit_s32 emit_fmov_before_return(struct sljit_compiler *com
 	}
 
 	inst = emit_x86_instruction(compiler, 1 | EX86_SSE2_OP1, 0, 0, src, srcw);
+	FAIL_IF(!inst);
 	*inst = (op & SLJIT_32) ? FLDS : FLDL;
 
 	return SLJIT_SUCCESS;
diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 02964d6..ff63e62 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -3324,6 +3324,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fop1(struct sljit_compiler *compil
 		FAIL_IF(emit_groupf(compiler, PCMPEQD_x_xm | EX86_PREF_66 | EX86_SSE2, dst_r, dst_r, 0));
 
 		inst = emit_x86_instruction(compiler, 2 | EX86_PREF_66 | EX86_SSE2_OP2, 0, 0, dst_r, 0);
+		FAIL_IF(!inst);
 		inst[0] = GROUP_0F;
 		/* Same as PSRLD_x / PSRLQ_x */
 		inst[1] = (op & SLJIT_32) ? PSLLD_x_i8 : PSLLQ_x_i8;
-- 
2.43.0


From c5573a0adf1389577883f5a3e38ee0663f8102f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 40/96] fix: MIPS: detect the features of the CPU when the
 first compiler is created

Without argument checks nothing initialized the feature list, so the code
generator of MIPS-32 assumed that the FR mode is disabled.
---
 sljit_src/sljitLir.c               | 5 +++--
 sljit_src/sljitNativeMIPS_common.c | 5 +++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 4bf68a7..0262f84 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -476,12 +476,13 @@ struct sljit_extended_label {
 /*  Public functions                                                     */
 /* --------------------------------------------------------------------- */
 
-#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86) || (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV)
+#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86) || (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV) \
+		|| (defined SLJIT_CONFIG_MIPS && SLJIT_CONFIG_MIPS)
 #define SLJIT_NEEDS_COMPILER_INIT 1
 static sljit_s32 compiler_initialized = 0;
 /* A thread safe initialization. */
 static void init_compiler(void);
-#endif /* SLJIT_CONFIG_X86 || SLJIT_CONFIG_RISCV */
+#endif /* SLJIT_CONFIG_X86 || SLJIT_CONFIG_RISCV || SLJIT_CONFIG_MIPS */
 
 SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler* sljit_create_compiler(void *allocator_data)
 {
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 1903d9e..cefb13c 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -473,6 +473,11 @@ static void get_cpu_features(void)
 	cpu_feature_list = feature_list;
 }
 
+static void init_compiler(void)
+{
+	get_cpu_features();
+}
+
 /* dest_reg is the absolute name of the register
    Useful for reordering instructions in the delay slot. */
 static sljit_s32 push_inst(struct sljit_compiler *compiler, sljit_ins ins, sljit_s32 delay_slot)
-- 
2.43.0


From 9c367ce16d4ed24de00453e20f76738f843a69f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 41/96] fix: MIPS: do not move the instructions of constants
 into delay slots

sljit_set_const modified another instruction (or failed an assertion)
when a branch followed the constant.
---
 sljit_src/sljitNativeMIPS_common.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index cefb13c..025cd67 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -4486,6 +4486,10 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_const* sljit_emit_const(struct sljit_compi
 
 	if (dst & SLJIT_MEM)
 		PTR_FAIL_IF(emit_op_mem(compiler, mem_flags, DR(TMP_REG2), dst, dstw));
+	else {
+		/* The instructions of a constant must not be moved into a delay slot. */
+		compiler->delay_slot = UNMOVABLE_INS;
+	}
 
 	return const_;
 }
-- 
2.43.0


From 6bd3692ef67498fd5400531cfdf3a51a9c6274d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 42/96] fix: RISC-V: size of the generated code was doubled

---
 sljit_src/sljitNativeRISCV_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 0a8d69a..ca5080e 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1039,7 +1039,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 
 	compiler->error = SLJIT_ERR_COMPILED;
 	compiler->executable_offset = executable_offset;
-	compiler->executable_size = (sljit_uw)(code_ptr - code) * sizeof(sljit_ins);
+	compiler->executable_size = (sljit_uw)(code_ptr - code) * sizeof(sljit_u16);
 
 	code = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(code, executable_offset);
 	code_ptr = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
-- 
2.43.0


From 473fe0ac5645cf15bf980c03a769c15b87e13f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 43/96] fix: protected allocator: do not read the header of a
 failed allocation

---
 sljit_src/sljitLir.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 0262f84..b78aada 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -753,6 +753,8 @@ static SLJIT_INLINE void* allocate_executable_memory(sljit_uw size, sljit_s32 op
 
 	if (SLJIT_LIKELY(!(options & SLJIT_GENERATE_CODE_BUFFER))) {
 		code = SLJIT_MALLOC_EXEC(size, exec_allocator_data);
+		if (SLJIT_UNLIKELY(!code))
+			return NULL;
 		*executable_offset = SLJIT_EXEC_OFFSET(code);
 		return code;
 	}
-- 
2.43.0


From 999ef19d1c06d402cf4fe47bbde074250a9bb159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 44/96] fix: MIPS: the result of a float to integer conversion
 could be moved into the delay slot of a branch which reads it

---
 sljit_src/sljitNativeMIPS_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 025cd67..4017b3b 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -2950,7 +2950,7 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_sw_from_f64(struct sljit_comp
 	FAIL_IF(push_inst(compiler, (TRUNC_W_S ^ (flags >> 19)) | FMT(op) | FS(src) | FD(TMP_FREG1), MOVABLE_INS));
 
 	if (FAST_IS_REG(dst)) {
-		FAIL_IF(push_inst(compiler, MFC1 | flags | T(dst) | FS(TMP_FREG1), MOVABLE_INS));
+		FAIL_IF(push_inst(compiler, MFC1 | flags | T(dst) | FS(TMP_FREG1), DR(dst)));
 #if !defined(SLJIT_MIPS_REV) || (SLJIT_CONFIG_MIPS_32 && SLJIT_MIPS_REV <= 1)
 		FAIL_IF(push_inst(compiler, NOP, UNMOVABLE_INS));
 #endif /* MIPS III */
-- 
2.43.0


From 2be2056c4d1be4fe62563cad0b65b36def616874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 45/96] fix: ARM_V6: addresses of constants and direct jumps
 were wrong when a constant pool is inserted before them

---
 sljit_src/sljitNativeARM_32.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 7540919..9d20b01 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -3550,8 +3550,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_ijump(struct sljit_compiler *compi
 #if (defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6)
 	if (type >= SLJIT_FAST_CALL)
 		FAIL_IF(prepare_blx(compiler));
-	jump->addr = compiler->size;
 	FAIL_IF(push_inst_with_unique_literal(compiler, EMIT_DATA_TRANSFER(WORD_SIZE | LOAD_DATA, 1, type <= SLJIT_JUMP ? TMP_PC : TMP_REG1, TMP_PC, 0), 0));
+	jump->addr = compiler->size - 1;
 	if (type >= SLJIT_FAST_CALL) {
 		jump->addr = compiler->size;
 		FAIL_IF(emit_blx(compiler));
@@ -4806,11 +4806,16 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_const* sljit_emit_const(struct sljit_compi
 
 	if (GET_OPCODE(op) == SLJIT_MOV_U8) {
 		PTR_FAIL_IF(push_inst(compiler, SLJIT_EMIT_CONST_U8(init_value) | RD(dst_r)));
+#if (defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6)
+		/* A constant pool might be inserted before the instruction. */
+		const_->addr = compiler->size - 1;
+#endif /* SLJIT_CONFIG_ARM_V6 */
 		mem_flags = BYTE_SIZE;
 	} else {
 #if (defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6)
 		PTR_FAIL_IF(push_inst_with_unique_literal(compiler,
 			EMIT_DATA_TRANSFER(WORD_SIZE | LOAD_DATA, 1, dst_r, TMP_PC, 0), (sljit_ins)init_value));
+		const_->addr = compiler->size - 1;
 		compiler->patches++;
 #else /* !SLJIT_CONFIG_ARM_V6 */
 		PTR_FAIL_IF(emit_imm(compiler, dst_r, init_value));
-- 
2.43.0


From b5bcdd1c40db8e1c8be755a8c16bd9f063761106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 46/96] fix: address of a label at the end of the code did not
 include the executable offset (LOONGARCH, MIPS, RISC-V)

---
 sljit_src/sljitNativeLOONGARCH_64.c | 2 +-
 sljit_src/sljitNativeMIPS_common.c  | 2 +-
 sljit_src/sljitNativeRISCV_common.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 0c20041..cab9709 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -774,7 +774,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 		if (label->u.index >= SLJIT_LABEL_ALIGNED)
 			code_ptr = process_extended_label(code_ptr, (struct sljit_extended_label*)label);
 
-		label->u.addr = (sljit_uw)code_ptr;
+		label->u.addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
 		label->size = (sljit_uw)(code_ptr - code);
 		label = label->next;
 	}
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 4017b3b..3952714 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -826,7 +826,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 		if (label->u.index >= SLJIT_LABEL_ALIGNED)
 			code_ptr = process_extended_label(code_ptr, (struct sljit_extended_label*)label);
 
-		label->u.addr = (sljit_uw)code_ptr;
+		label->u.addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
 		label->size = (sljit_uw)(code_ptr - code);
 		label = label->next;
 	}
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index ca5080e..4f478db 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -978,7 +978,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 		if (label->u.index >= SLJIT_LABEL_ALIGNED)
 			code_ptr = process_extended_label(code_ptr, (struct sljit_extended_label*)label);
 
-		label->u.addr = (sljit_uw)code_ptr;
+		label->u.addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
 		label->size = (sljit_uw)(code_ptr - code);
 		label = label->next;
 	}
-- 
2.43.0


From ea06b78d62341f4438a8b9baf497c4144caab982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 47/96] fix: sljit_malloc_exec returned a small block when the
 computed size overflows

---
 sljit_src/allocator_src/sljitExecAllocatorCore.c      | 5 +++++
 sljit_src/allocator_src/sljitWXExecAllocatorPosix.c   | 2 +-
 sljit_src/allocator_src/sljitWXExecAllocatorWindows.c | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/sljit_src/allocator_src/sljitExecAllocatorCore.c b/sljit_src/allocator_src/sljitExecAllocatorCore.c
index 314483c..4f8e76c 100644
--- a/sljit_src/allocator_src/sljitExecAllocatorCore.c
+++ b/sljit_src/allocator_src/sljitExecAllocatorCore.c
@@ -114,6 +114,8 @@ struct free_block {
 #define CHUNK_MASK		(~(CHUNK_SIZE - 1))
 #define ALIGN_SIZE(size)	(((size) + sizeof(struct block_header) + 7u) & ~(sljit_uw)7)
 #define CHUNK_EXTRA_SIZE	(sizeof(struct block_header) + CHUNK_HEADER_SIZE)
+/* The chunk size computed from a larger size overflows. */
+#define MAX_ALLOC_SIZE		(~(sljit_uw)0 - (sizeof(struct block_header) + 7u + CHUNK_EXTRA_SIZE + CHUNK_SIZE))
 
 static struct free_block* sljit_free_blocks;
 static sljit_uw sljit_allocated_size;
@@ -161,6 +163,9 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_malloc_exec(sljit_uw size)
 	sljit_sw executable_offset;
 #endif /* SLJIT_HAS_EXECUTABLE_OFFSET */
 
+	if (SLJIT_UNLIKELY(size > MAX_ALLOC_SIZE))
+		return NULL;
+
 	if (size < (64 - sizeof(struct block_header)))
 		size = (64 - sizeof(struct block_header));
 	size = ALIGN_SIZE(size);
diff --git a/sljit_src/allocator_src/sljitWXExecAllocatorPosix.c b/sljit_src/allocator_src/sljitWXExecAllocatorPosix.c
index 36d3014..89ff4d2 100644
--- a/sljit_src/allocator_src/sljitWXExecAllocatorPosix.c
+++ b/sljit_src/allocator_src/sljitWXExecAllocatorPosix.c
@@ -84,7 +84,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_malloc_exec(sljit_uw size)
 	int prot = PROT_READ | PROT_WRITE;
 	sljit_uw* ptr;
 
-	if (SLJIT_UNLIKELY(wx_block > 0))
+	if (SLJIT_UNLIKELY(wx_block > 0 || size > ~(sljit_uw)0 - sizeof(sljit_uw)))
 		return NULL;
 
 #ifdef PROT_MAX
diff --git a/sljit_src/allocator_src/sljitWXExecAllocatorWindows.c b/sljit_src/allocator_src/sljitWXExecAllocatorWindows.c
index a9553bd..938ed28 100644
--- a/sljit_src/allocator_src/sljitWXExecAllocatorWindows.c
+++ b/sljit_src/allocator_src/sljitWXExecAllocatorWindows.c
@@ -57,6 +57,9 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_malloc_exec(sljit_uw size)
 {
 	sljit_uw *ptr;
 
+	if (SLJIT_UNLIKELY(size > ~(sljit_uw)0 - sizeof(sljit_uw)))
+		return NULL;
+
 	size += sizeof(sljit_uw);
 	ptr = (sljit_uw*)VirtualAlloc(NULL, size,
 				MEM_COMMIT | MEM_RESERVE, PAGE_READWRITE);
-- 
2.43.0


From 87403a61ad4b12e3dad431d3bc58ebae9d22337f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 48/96] fix: sljit_get_register_index rejected SLJIT_SP
 although it is documented as a valid register

---
 sljit_src/sljitLir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index b78aada..fd0426a 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2032,7 +2032,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_get_register_index(sljit_s32 t
 	SLJIT_UNUSED_ARG(reg);
 #if (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
 	if (type == SLJIT_GP_REGISTER) {
-		CHECK_ARGUMENT((reg > 0 && reg <= SLJIT_NUMBER_OF_REGISTERS)
+		CHECK_ARGUMENT((reg > 0 && reg <= SLJIT_NUMBER_OF_REGISTERS) || reg == SLJIT_SP
 			|| (reg >= SLJIT_TMP_REGISTER_BASE && reg < (SLJIT_TMP_REGISTER_BASE + SLJIT_NUMBER_OF_TEMPORARY_REGISTERS)));
 	}
 #if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
-- 
2.43.0


From 8761d33890519a6ceaec3484413832b2e66dad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 49/96] fix: the number of kept saved registers was compared to
 all saved register types

---
 sljit_src/sljitLir.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index fd0426a..148810f 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -1434,7 +1434,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_enter(struct sljit_compil
 	} else {
 		CHECK_ARGUMENT((options & ~SLJIT_ENTER_CPU_SPECIFIC_OPTIONS) == 0);
 	}
-	CHECK_ARGUMENT(SLJIT_KEPT_SAVEDS_COUNT(options) <= 3 && SLJIT_KEPT_SAVEDS_COUNT(options) <= saveds);
+	CHECK_ARGUMENT(SLJIT_KEPT_SAVEDS_COUNT(options) <= 3 && SLJIT_KEPT_SAVEDS_COUNT(options) <= real_saveds);
 	CHECK_ARGUMENT((scratches & ~0xffffff) == 0 && (saveds & ~0xffffff) == 0);
 	CHECK_ARGUMENT(real_scratches >= 0 && real_scratches <= SLJIT_NUMBER_OF_REGISTERS);
 	CHECK_ARGUMENT(real_saveds >= 0 && real_saveds <= SLJIT_NUMBER_OF_SAVED_REGISTERS);
@@ -1511,7 +1511,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_set_context(struct sljit_compi
 	} else {
 		CHECK_ARGUMENT((options & ~SLJIT_ENTER_CPU_SPECIFIC_OPTIONS) == 0);
 	}
-	CHECK_ARGUMENT(SLJIT_KEPT_SAVEDS_COUNT(options) <= 3 && SLJIT_KEPT_SAVEDS_COUNT(options) <= saveds);
+	CHECK_ARGUMENT(SLJIT_KEPT_SAVEDS_COUNT(options) <= 3 && SLJIT_KEPT_SAVEDS_COUNT(options) <= real_saveds);
 	CHECK_ARGUMENT((scratches & ~0xffffff) == 0 && (saveds & ~0xffffff) == 0);
 	CHECK_ARGUMENT(real_scratches >= 0 && real_scratches <= SLJIT_NUMBER_OF_REGISTERS);
 	CHECK_ARGUMENT(real_saveds >= 0 && real_saveds <= SLJIT_NUMBER_OF_SAVED_REGISTERS);
-- 
2.43.0


From 142a25baaf359a95e81f32783e4ccba63ae7dda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 50/96] fix: the status flag of floating point compare was not
 checked

---
 sljit_src/sljitLir.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 148810f..d5f028e 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2137,8 +2137,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fop1_cmp(struct sljit_com
 	CHECK_ARGUMENT(sljit_has_cpu_feature(SLJIT_HAS_FPU));
 	CHECK_ARGUMENT(SLJIT_CHECK_OPCODE(op, 0) == SLJIT_CMP_F64);
 	CHECK_ARGUMENT(!(op & SLJIT_SET_Z));
-	CHECK_ARGUMENT((op & VARIABLE_FLAG_MASK)
-		|| (GET_FLAG_TYPE(op) >= SLJIT_F_EQUAL && GET_FLAG_TYPE(op) <= SLJIT_ORDERED_LESS_EQUAL));
+	CHECK_ARGUMENT(GET_FLAG_TYPE(op) >= SLJIT_F_EQUAL && GET_FLAG_TYPE(op) <= SLJIT_ORDERED_LESS_EQUAL);
 	FUNCTION_FCHECK(src1, src1w, op & SLJIT_32);
 	FUNCTION_FCHECK(src2, src2w, op & SLJIT_32);
 #endif /* SLJIT_ARGUMENT_CHECKS */
-- 
2.43.0


From ff41c015b76fe892170b39e41ced58e37f0ed21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 51/96] fix: unknown opcode bits of floating point conversions
 and copysign were not rejected

---
 sljit_src/sljitLir.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index d5f028e..8b687ae 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2168,6 +2168,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fop1_conv_sw_from_f64(str
 
 #if (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
 	CHECK_ARGUMENT(sljit_has_cpu_feature(SLJIT_HAS_FPU));
+	CHECK_ARGUMENT(SLJIT_CHECK_OPCODE(op, 0) >= SLJIT_CONV_SW_FROM_F64 && SLJIT_CHECK_OPCODE(op, 0) <= SLJIT_CONV_S32_FROM_F64);
 	CHECK_ARGUMENT(!(op & ALL_STATUS_FLAGS_MASK));
 	FUNCTION_FCHECK(src, srcw, op & SLJIT_32);
 	FUNCTION_CHECK_DST(dst, dstw);
@@ -2197,6 +2198,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fop1_conv_f64_from_w(stru
 
 #if (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
 	CHECK_ARGUMENT(sljit_has_cpu_feature(SLJIT_HAS_FPU));
+	CHECK_ARGUMENT(SLJIT_CHECK_OPCODE(op, 0) >= SLJIT_CONV_F64_FROM_SW && SLJIT_CHECK_OPCODE(op, 0) <= SLJIT_CONV_F64_FROM_U32);
 	CHECK_ARGUMENT(!(op & ALL_STATUS_FLAGS_MASK));
 	FUNCTION_CHECK_SRC(src, srcw);
 	FUNCTION_FCHECK(dst, dstw, op & SLJIT_32);
@@ -2255,6 +2257,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fop2r(struct sljit_compil
 #if (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
 	CHECK_ARGUMENT(sljit_has_cpu_feature(SLJIT_HAS_FPU));
 	CHECK_ARGUMENT(SLJIT_CHECK_OPCODE(op, 0) == SLJIT_COPYSIGN_F64);
+	CHECK_ARGUMENT(!(op & ALL_STATUS_FLAGS_MASK));
 	FUNCTION_FCHECK(src1, src1w, op & SLJIT_32);
 	FUNCTION_FCHECK(src2, src2w, op & SLJIT_32);
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_FREG(dst_freg, op & SLJIT_32));
-- 
2.43.0


From 016a2404c83bee14a0e280eb388aeeef9d12aaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 52/96] fix: immediate source argument of bit counting and byte
 reverse operations was not rejected

---
 sljit_src/sljitLir.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 8b687ae..62c1bb5 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -1709,6 +1709,9 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_op1(struct sljit_compiler
 		break;
 	}
 
+	/* Immediate source argument is only supported by move operations. */
+	CHECK_ARGUMENT(GET_OPCODE(op) < SLJIT_CLZ || src != SLJIT_IMM);
+
 	FUNCTION_CHECK_DST(dst, dstw);
 	FUNCTION_CHECK_SRC(src, srcw);
 #endif /* SLJIT_ARGUMENT_CHECKS */
-- 
2.43.0


From 609473ca87c6be80e9c137ae07c18e2e8074180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 53/96] fix: the memory alignment of simd operations was not
 checked

---
 sljit_src/sljitLir.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 62c1bb5..8bb6b09 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -3004,7 +3004,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_simd_mov(struct sljit_com
 	CHECK_ARGUMENT((type & SLJIT_SIMD_TYPE_MASK2(SLJIT_SIMD_STORE)) == 0);
 	CHECK_ARGUMENT(SLJIT_SIMD_CHECK_REG(type));
 	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM_SIZE(type) <= SLJIT_SIMD_GET_REG_SIZE(type));
-	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM2_SIZE(type) <= (srcdst & SLJIT_MEM) ? SLJIT_SIMD_GET_REG_SIZE(type) : 0);
+	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM2_SIZE(type) <= ((srcdst & SLJIT_MEM) ? SLJIT_SIMD_GET_REG_SIZE(type) : 0));
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_VREG(vreg, type));
 	FUNCTION_VCHECK(srcdst, srcdstw, type);
 #endif /* SLJIT_ARGUMENT_CHECKS */
@@ -3257,7 +3257,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_simd_op2(struct sljit_com
 	CHECK_ARGUMENT(SLJIT_SIMD_CHECK_REG(type));
 	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM_SIZE(type) <= SLJIT_SIMD_GET_REG_SIZE(type));
 	CHECK_ARGUMENT(SLJIT_SIMD_GET_OPCODE(type) != SLJIT_SIMD_OP2_SHUFFLE || (SLJIT_SIMD_GET_ELEM_SIZE(type) == 0 && !(type & SLJIT_SIMD_FLOAT)));
-	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM2_SIZE(type) <= (src2 & SLJIT_MEM) ? SLJIT_SIMD_GET_REG_SIZE(type) : 0);
+	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM2_SIZE(type) <= ((src2 & SLJIT_MEM) ? SLJIT_SIMD_GET_REG_SIZE(type) : 0));
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_VREG(dst_vreg, type));
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_VREG(src1_vreg, type));
 	FUNCTION_VCHECK(src2, src2w, type);
-- 
2.43.0


From 02118b953a362ecb3ef0c0e912ba2770ffbf391f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 54/96] fix: register arguments of loads and stores with update
 were not checked

---
 sljit_src/sljitLir.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 8bb6b09..219ddd7 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2884,7 +2884,9 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_mem_update(struct sljit_c
 #if (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
 	CHECK_ARGUMENT((type & 0xff) >= SLJIT_MOV && (type & 0xff) <= SLJIT_MOV_P);
 	CHECK_ARGUMENT((type & ~(0xff | SLJIT_32 | SLJIT_MEM_STORE | SLJIT_MEM_SUPP | SLJIT_MEM_POST)) == 0);
-	CHECK_ARGUMENT((mem & REG_MASK) != 0 && (mem & REG_MASK) != reg);
+	CHECK_ARGUMENT(!(type & SLJIT_32) || ((type & 0xff) >= SLJIT_MOV_U8 && (type & 0xff) <= SLJIT_MOV_S16));
+	CHECK_ARGUMENT(FUNCTION_CHECK_IS_REG(reg));
+	CHECK_ARGUMENT((mem & REG_MASK) != 0 && (mem & REG_MASK) != SLJIT_SP && (mem & REG_MASK) != reg);
 
 	FUNCTION_CHECK_SRC_MEM(mem, memw);
 #endif /* SLJIT_ARGUMENT_CHECKS */
@@ -2969,6 +2971,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fmem_update(struct sljit_
 	CHECK_ARGUMENT(sljit_has_cpu_feature(SLJIT_HAS_FPU));
 	CHECK_ARGUMENT((type & 0xff) == SLJIT_MOV_F64);
 	CHECK_ARGUMENT((type & ~(0xff | SLJIT_32 | SLJIT_MEM_STORE | SLJIT_MEM_SUPP | SLJIT_MEM_POST)) == 0);
+	CHECK_ARGUMENT((mem & REG_MASK) != 0 && (mem & REG_MASK) != SLJIT_SP);
 	FUNCTION_CHECK_SRC_MEM(mem, memw);
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_FREG(freg, type & SLJIT_32));
 #endif /* SLJIT_ARGUMENT_CHECKS */
-- 
2.43.0


From 171e885b015f7eb398b9038d3eb3662ee1ee3ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:32 +0000
Subject: [PATCH 55/96] fix: S390X: invalid arguments were used before they are
 checked

---
 sljit_src/sljitNativeS390X.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index ca7d020..00571a8 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -3046,15 +3046,16 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 {
 	sljit_s32 is_right;
 	sljit_sw bit_length = (op & SLJIT_32) ? 32 : 64;
-	sljit_gpr dst_r = gpr(dst_reg);
-	sljit_gpr src1_r = gpr(src1_reg);
-	sljit_gpr src2_r = gpr(src2_reg);
+	sljit_gpr dst_r, src1_r, src2_r;
 	sljit_gpr src3_r = tmp1;
 	sljit_ins ins;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_shift_into(compiler, op, dst_reg, src1_reg, src2_reg, src3, src3w));
 
+	dst_r = gpr(dst_reg);
+	src1_r = gpr(src1_reg);
+	src2_r = gpr(src2_reg);
 	is_right = (GET_OPCODE(op) == SLJIT_LSHR || GET_OPCODE(op) == SLJIT_MLSHR);
 
 	if (src1_reg == src2_reg) {
@@ -3698,11 +3699,13 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_label* sljit_emit_aligned_label(struct slj
 SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_jump(struct sljit_compiler *compiler, sljit_s32 type)
 {
 	struct sljit_jump *jump;
-	sljit_u8 mask = ((type & 0xff) < SLJIT_JUMP) ? get_cc(compiler, type & 0xff) : 0xf;
+	sljit_u8 mask;
 
 	CHECK_ERROR_PTR();
 	CHECK_PTR(check_sljit_emit_jump(compiler, type));
 
+	mask = ((type & 0xff) < SLJIT_JUMP) ? get_cc(compiler, type & 0xff) : 0xf;
+
 	/* record jump */
 	jump = (struct sljit_jump *)ensure_abuf(compiler, sizeof(struct sljit_jump));
 	PTR_FAIL_IF(!jump);
@@ -3738,11 +3741,13 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_call(struct sljit_compile
 SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_ijump(struct sljit_compiler *compiler, sljit_s32 type, sljit_s32 src, sljit_sw srcw)
 {
 	struct sljit_jump *jump;
-	sljit_gpr src_r = FAST_IS_REG(src) ? gpr(src) : tmp1;
+	sljit_gpr src_r;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_ijump(compiler, type, src, srcw));
 
+	src_r = FAST_IS_REG(src) ? gpr(src) : tmp1;
+
 	if (src != SLJIT_IMM) {
 		if (src & SLJIT_MEM) {
 			ADJUST_LOCAL_OFFSET(src, srcw);
@@ -3806,14 +3811,17 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op_flags(struct sljit_compiler *co
 	sljit_s32 dst, sljit_sw dstw,
 	sljit_s32 type)
 {
-	sljit_gpr dst_r = FAST_IS_REG(dst) ? gpr(dst & REG_MASK) : tmp0;
+	sljit_gpr dst_r;
 	sljit_gpr loc_r = tmp1;
-	sljit_u8 mask = get_cc(compiler, type);
+	sljit_u8 mask;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_op_flags(compiler, op, dst, dstw, type));
 	ADJUST_LOCAL_OFFSET(dst, dstw);
 
+	dst_r = FAST_IS_REG(dst) ? gpr(dst & REG_MASK) : tmp0;
+	mask = get_cc(compiler, type);
+
 	switch (GET_OPCODE(op)) {
 	case SLJIT_AND:
 	case SLJIT_OR:
@@ -3881,7 +3889,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 {
 	sljit_ins mask;
 	sljit_gpr src_r;
-	sljit_gpr dst_r = gpr(dst_reg);
+	sljit_gpr dst_r;
 	sljit_ins ins;
 
 	CHECK_ERROR();
@@ -3889,6 +3897,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 
 	ADJUST_LOCAL_OFFSET(src1, src1w);
 
+	dst_r = gpr(dst_reg);
+
 	if (dst_reg != src2_reg) {
 		if (src1 == dst_reg) {
 			src1 = src2_reg;
@@ -4545,12 +4555,15 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_atomic_store(struct sljit_compiler
 	sljit_s32 temp_reg)
 {
 	sljit_ins ins;
-	sljit_gpr tmp_r = gpr(temp_reg);
-	sljit_gpr mem_r = gpr(mem_reg);
+	sljit_gpr tmp_r;
+	sljit_gpr mem_r;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_atomic_store(compiler, op, src_reg, mem_reg, temp_reg));
 
+	tmp_r = gpr(temp_reg);
+	mem_r = gpr(mem_reg);
+
 	if (op & SLJIT_ATOMIC_USE_LS)
 		return SLJIT_ERR_UNSUPPORTED;
 
-- 
2.43.0


From fcbc7dcf48e7acf5b461e11d245248a32863eaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:26 +0000
Subject: [PATCH 56/96] fix: MIPS: conditional move did not support the atomic
 stored flag

---
 sljit_src/sljitNativeMIPS_common.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 3952714..55b65a0 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -3848,6 +3848,7 @@ static sljit_ins get_select_cc(sljit_s32 type, sljit_s32 is_float)
 	case SLJIT_SIG_GREATER:
 	case SLJIT_OVERFLOW:
 	case SLJIT_CARRY:
+	case SLJIT_ATOMIC_STORED:
 		return (is_float ? MOVN_S : MOVN) | TA(OTHER_FLAG);
 	case SLJIT_GREATER_EQUAL:
 	case SLJIT_LESS_EQUAL:
@@ -3855,6 +3856,7 @@ static sljit_ins get_select_cc(sljit_s32 type, sljit_s32 is_float)
 	case SLJIT_SIG_LESS_EQUAL:
 	case SLJIT_NOT_OVERFLOW:
 	case SLJIT_NOT_CARRY:
+	case SLJIT_ATOMIC_NOT_STORED:
 		return (is_float ? MOVZ_S : MOVZ) | TA(OTHER_FLAG);
 	case SLJIT_F_EQUAL:
 	case SLJIT_F_LESS:
-- 
2.43.0


From ce749a491be6ef45ec998ca2b03bff7c2e6ee59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 57/96] fix: code could be written beyond the end of the
 executable memory when its last instructions are reduced

---
 sljit_src/sljitNativeARM_64.c       |  5 +++++
 sljit_src/sljitNativeARM_T2_32.c    |  5 +++++
 sljit_src/sljitNativeLOONGARCH_64.c |  5 +++++
 sljit_src/sljitNativeRISCV_common.c |  5 +++++
 sljit_src/sljitNativeX86_common.c   | 12 ++++++++++++
 5 files changed, 32 insertions(+)

diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index b95e2c8..04ff41d 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -486,6 +486,11 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 	}
 
 	compiler->size -= size_reduce;
+
+	/* A short conditional jump is shorter than the code fragment which is
+	   copied before the jump is detected, so it needs space at the end. */
+	if (compiler->last_jump && compiler->last_jump->addr >= compiler->size)
+		compiler->size = compiler->last_jump->addr + 1;
 }
 
 SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compiler, sljit_s32 options, void *exec_allocator_data)
diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index 914673b..f8fafb4 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -605,6 +605,11 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 	}
 
 	compiler->size -= size_reduce;
+
+	/* A short conditional jump is shorter than the code fragment which is
+	   copied before the jump is detected, so it needs space at the end. */
+	if (compiler->last_jump && compiler->last_jump->addr >= compiler->size)
+		compiler->size = compiler->last_jump->addr + 1;
 }
 
 SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compiler, sljit_s32 options, void *exec_allocator_data)
diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index cab9709..4643c10 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -682,6 +682,11 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 	}
 
 	compiler->size -= size_reduce;
+
+	/* A short conditional jump is shorter than the code fragment which is
+	   copied before the jump is detected, so it needs space at the end. */
+	if (compiler->last_jump && compiler->last_jump->addr >= compiler->size)
+		compiler->size = compiler->last_jump->addr + 1;
 }
 
 SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compiler, sljit_s32 options, void *exec_allocator_data)
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 4f478db..8fb029d 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -879,6 +879,11 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 	}
 
 	compiler->size -= size_reduce;
+
+	/* A short conditional jump is shorter than the code fragment which is
+	   copied before the jump is detected, so it needs space at the end. */
+	if (compiler->last_jump && compiler->last_jump->addr >= compiler->size)
+		compiler->size = compiler->last_jump->addr + 1;
 }
 
 SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compiler, sljit_s32 options, void *exec_allocator_data)
diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index ff63e62..56d3e95 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -806,6 +806,9 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 	sljit_uw size_reduce = 0;
 	sljit_sw diff;
 	sljit_uw type;
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+	sljit_uw mov_addr_end = 0;
+#endif /* SLJIT_CONFIG_X86_64 */
 #if (defined SLJIT_DEBUG && SLJIT_DEBUG)
 	sljit_uw size_reduce_max;
 #endif /* SLJIT_DEBUG */
@@ -887,6 +890,8 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 #endif /* SLJIT_DEBUG */
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
 		} else {
+			mov_addr_end = jump->addr;
+
 #if (defined SLJIT_DEBUG && SLJIT_DEBUG)
 			size_reduce_max = size_reduce + 10;
 #endif /* SLJIT_DEBUG */
@@ -910,6 +915,13 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 	}
 
 	compiler->size -= size_reduce;
+
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+	/* The longest form of mov addr is copied before its size is
+	   reduced, so the last one may need space at the end. */
+	if (compiler->size < mov_addr_end)
+		compiler->size = mov_addr_end;
+#endif /* SLJIT_CONFIG_X86_64 */
 }
 
 SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compiler, sljit_s32 options, void *exec_allocator_data)
-- 
2.43.0


From 21f17851feff3a43267195bf14a0c20fa6efbe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 58/96] fix: RISC-V: addresses at the end of the 52 bit range
 were computed incorrectly

---
 sljit_src/sljitNativeRISCV_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 8fb029d..a9c3bdf 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -402,7 +402,7 @@ static const sljit_u8 vreg_map[SLJIT_NUMBER_OF_VECTOR_REGISTERS + 3] = {
 #define S32_MAX		(0x7ffff7ffl)
 #define S32_MIN		(-0x80000000l)
 #define S44_MAX		(0x7fffffff7ffl)
-#define S52_MAX		(0x7ffffffffffffl)
+#define S52_MAX		(0x7fffffffff7ffl)
 #endif /* SLJIT_CONFIG_RISCV_64 */
 
 #define C_ADDI_W(word)	(C_ADDI | (sljit_u16)((word) << 10))
-- 
2.43.0


From 5067b1f97e30d4ca50fab7147680b9ac3432049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:13 +0000
Subject: [PATCH 59/96] fix: MIPS_32: the register argument of fcopy was used
 before it is checked

---
 sljit_src/sljitNativeMIPS_32.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeMIPS_32.c b/sljit_src/sljitNativeMIPS_32.c
index 5317660..83f477b 100644
--- a/sljit_src/sljitNativeMIPS_32.c
+++ b/sljit_src/sljitNativeMIPS_32.c
@@ -133,13 +133,14 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fcopy(struct sljit_compiler *compi
 	sljit_s32 freg, sljit_s32 reg)
 {
 	sljit_s32 reg2 = 0;
-	sljit_ins inst = FS(freg);
+	sljit_ins inst;
 	sljit_ins mthc = MTC1, mfhc = MFC1;
 	int is_32 = (op & SLJIT_32);
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_fcopy(compiler, op, freg, reg));
 
+	inst = FS(freg);
 	op = GET_OPCODE(op);
 	if (reg & REG_PAIR_MASK) {
 		reg2 = REG_PAIR_SECOND(reg);
-- 
2.43.0


From df56c71dab6d75a278fd81960d06593126bcfa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 60/96] fix: the 32 bit form of register pair loads and stores
 was not rejected

---
 sljit_src/sljitLir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 219ddd7..a4d9a4b 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2825,7 +2825,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_mem(struct sljit_compiler
 	CHECK_ARGUMENT((type & ~(0xff | SLJIT_32 | SLJIT_MEM_STORE | allowed_flags)) == 0);
 
 	if (reg & REG_PAIR_MASK) {
-		CHECK_ARGUMENT((type & 0xff) == SLJIT_MOV);
+		CHECK_ARGUMENT((type & (0xff | SLJIT_32)) == SLJIT_MOV);
 		CHECK_ARGUMENT(FUNCTION_CHECK_IS_REG(REG_PAIR_FIRST(reg)));
 		CHECK_ARGUMENT(FUNCTION_CHECK_IS_REG(REG_PAIR_SECOND(reg)));
 		CHECK_ARGUMENT(REG_PAIR_FIRST(reg) != REG_PAIR_SECOND(reg));
-- 
2.43.0


From 2d6488e877cf81f5c444816d3cee863788163bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 61/96] fix: LOONGARCH: long relative jumps landed at a wrong
 place when bit 11 of the distance is set

---
 sljit_src/sljitNativeLOONGARCH_64.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 4643c10..09c889d 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -366,7 +366,7 @@ lower parts in the instruction word, denoted by the “L” and “H” suffixes
 #define JIRL_MAX (0x7fff << 2)
 #define JIRL_MIN (-(0x8000 << 2))
 
-#define S32_MAX		(0x7fffffffl)
+#define S32_MAX		(0x7ffff7ffl)
 #define S32_MIN		(-0x80000000l)
 #define S52_MAX		(0x7ffffffffffffl)
 
@@ -547,7 +547,9 @@ static SLJIT_INLINE void load_addr_to_reg(struct sljit_jump *jump, sljit_sw exec
 
 		SLJIT_ASSERT((sljit_sw)addr >= S32_MIN && (sljit_sw)addr <= S32_MAX);
 
-		if ((addr & 0x800) != 0)
+		/* The immediate of ADDI_D is signed, while the low part
+		   of the address is always a positive offset of JIRL. */
+		if ((flags & JUMP_MOV_ADDR) && (addr & 0x800) != 0)
 			addr += 0x1000;
 
 		ins[0] = PCADDU12I | RD(reg) | IMM_I20(addr);
-- 
2.43.0


From ba98c2f403b6c3dca0778991fc05bb73be59a3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 62/96] fix: ARM_V6: an address was stored to a wrong place
 when its load is the last instruction of the code

---
 sljit_src/sljitNativeARM_32.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 9d20b01..078b42c 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -1065,7 +1065,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 
 		if (jump->flags & JUMP_MOV_ADDR) {
 #if (defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6)
-			SLJIT_ASSERT((buf_ptr[0] & (sljit_ins)0xffff0000) == 0xe59f0000);
+			SLJIT_ASSERT((buf_ptr[0] & (sljit_ins)0xff7f0000) == 0xe51f0000);
 #else /* !SLJIT_CONFIG_ARM_V6 */
 			SLJIT_ASSERT((buf_ptr[0] & ~(sljit_ins)0xf000) == 0);
 #endif /* SLJIT_CONFIG_ARM_V6 */
@@ -1085,7 +1085,11 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 				buf_ptr[0] = addr | (buf_ptr[0] & 0xf000) | RN(TMP_PC) | (1 << 25) | (0xf << 8) | (sljit_ins)(diff & 0xff);
 			} else {
 #if (defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6)
-				buf_ptr[((buf_ptr[0] & 0xfff) >> 2) + 2] = addr;
+				if (*buf_ptr & (1 << 23))
+					buf_ptr += ((*buf_ptr & 0xfff) >> 2) + 2;
+				else
+					buf_ptr += 1;
+				*buf_ptr = addr;
 #else /* !SLJIT_CONFIG_ARM_V6 */
 				buf_ptr[1] = MOVT | buf_ptr[0] | ((addr >> 12) & 0xf0000) | ((addr >> 16) & 0xfff);
 				buf_ptr[0] = MOVW | buf_ptr[0] | ((addr << 4) & 0xf0000) | (addr & 0xfff);
-- 
2.43.0


From 438e5e0e3d384a641c9fd8ebad6206160fe0b3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:57 +0000
Subject: [PATCH 63/96] fix: x86-64: loading an address between 2 and 4
 gigabytes failed with an assertion

---
 sljit_src/sljitNativeX86_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 56d3e95..9c78eca 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -747,7 +747,7 @@ static void generate_jump_or_mov_addr(struct sljit_jump *jump, sljit_sw executab
 			addr -= (sljit_uw)SLJIT_ADD_EXEC_OFFSET((sljit_u8*)jump_addr, executable_offset);
 			SLJIT_ASSERT((sljit_sw)addr <= HALFWORD_MAX && (sljit_sw)addr >= HALFWORD_MIN);
 		} else {
-			SLJIT_ASSERT(addr <= HALFWORD_MAX);
+			SLJIT_ASSERT(addr <= 0xffffffffl);
 		}
 		sljit_unaligned_store_s32((void*)(jump_addr - sizeof(sljit_s32)), (sljit_s32)addr);
 #endif /* !SLJIT_CONFIG_X86_32 */
-- 
2.43.0


From 1274c873c9c3029d461fed272d97f24b4a32e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:01 +0000
Subject: [PATCH 64/96] fix: PPC: conditional jumps to low absolute addresses
 could overwrite the following code

---
 sljit_src/sljitNativePPC_common.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index 642f505..3265afd 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -354,7 +354,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 			jump->flags |= PATCH_B;
 			return code_ptr;
 		}
-		if (target_addr <= 0xffff) {
+		if (target_addr <= 0x7fff) {
 			jump->flags |= PATCH_B | PATCH_ABS_B;
 			return code_ptr;
 		}
@@ -455,7 +455,7 @@ static void generate_jump_or_mov_addr(struct sljit_jump *jump, sljit_sw executab
 				SLJIT_ASSERT((sljit_sw)addr <= 0x7fff && (sljit_sw)addr >= -0x8000);
 				ins[0] = BCx | ((sljit_ins)addr & 0xfffc) | (ins[0] & 0x03ff0001);
 			} else {
-				SLJIT_ASSERT(addr <= 0xffff);
+				SLJIT_ASSERT(addr <= 0x7fff);
 				ins[0] = BCx | ((sljit_ins)addr & 0xfffc) | 0x2 | ((*ins) & 0x03ff0001);
 			}
 			return;
@@ -466,7 +466,7 @@ static void generate_jump_or_mov_addr(struct sljit_jump *jump, sljit_sw executab
 			SLJIT_ASSERT((sljit_sw)addr <= 0x01ffffff && (sljit_sw)addr >= -0x02000000);
 			ins[0] = Bx | ((sljit_ins)addr & 0x03fffffc) | (ins[0] & 0x1);
 		} else {
-			SLJIT_ASSERT(addr <= 0x03ffffff);
+			SLJIT_ASSERT(addr <= 0x01ffffff);
 			ins[0] = Bx | ((sljit_ins)addr & 0x03fffffc) | 0x2 | (ins[0] & 0x1);
 		}
 		return;
@@ -568,7 +568,7 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 #endif /* SLJIT_PASS_ENTRY_ADDR_TO_CALL */
 				if (jump->flags & JUMP_ADDR) {
 					if (jump->u.target <= 0x01ffffff)
-						total_size = 1 - 1;
+						total_size = (jump->flags & IS_COND) ? 2 - 1 : 1 - 1;
 #if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
 					else if (jump->u.target < 0x80000000l)
 						total_size = 4 - 1;
-- 
2.43.0


From 9995d6f7f2f932d9ffbfe9de3d21e35c861c8f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:06 +0000
Subject: [PATCH 65/96] fix: x86-64: size of a jump to a label which follows
 the loading of an address was computed incorrectly

---
 sljit_src/sljitNativeX86_common.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 9c78eca..b63f274 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -827,7 +827,14 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 		if (next_min_addr == SLJIT_MAX_ADDRESS)
 			break;
 
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+		/* The address of a mov addr is its end, so a label
+		   with the same address follows the instruction. */
+		if (next_min_addr == next_label_size
+				&& (next_min_addr != next_jump_addr || !(jump->flags & JUMP_MOV_ADDR))) {
+#else /* !SLJIT_CONFIG_X86_64 */
 		if (next_min_addr == next_label_size) {
+#endif /* SLJIT_CONFIG_X86_64 */
 			label->size -= size_reduce;
 
 			label = label->next;
-- 
2.43.0


From 49dabf657ef68c10ebc061d2d7a8070792018bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 66/96] fix: RISC-V: jumps to the end of the 32 and 52 bit
 ranges failed with an assertion

---
 sljit_src/sljitNativeRISCV_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index a9c3bdf..5de83f4 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -683,7 +683,7 @@ static SLJIT_INLINE void load_addr_to_reg(struct sljit_jump *jump, sljit_sw exec
 #else /* !SLJIT_CONFIG_RISCV_32 */
 
 	if (flags & PATCH_ABS32) {
-		SLJIT_ASSERT(addr <= S32_MAX);
+		SLJIT_ASSERT(addr <= S32_MAX + 0x800);
 		ins = LUI | RD(reg) | (sljit_ins)((sljit_sw)addr & ~0xfff);
 		buf[0] = (sljit_u16)ins;
 		buf[1] = (sljit_u16)(ins >> 16);
@@ -722,7 +722,7 @@ static SLJIT_INLINE void load_addr_to_reg(struct sljit_jump *jump, sljit_sw exec
 			high = ~high;
 
 		if (flags & PATCH_ABS52) {
-			SLJIT_ASSERT(addr <= S52_MAX);
+			SLJIT_ASSERT(addr <= S52_MAX + 0x800);
 			ins = LUI | RD(TMP_REG3) | (sljit_ins)(high << 12);
 			buf[0] = (sljit_u16)ins;
 			buf[1] = (sljit_u16)(ins >> 16);
-- 
2.43.0


From 50f092f908cc7736845b635bdba363266e9be22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:15 +0000
Subject: [PATCH 67/96] fix: regex: characters above 127 never matched when
 char is a signed type

---
 regex_src/regexJIT.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 3f95469..d940e82 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -43,6 +43,13 @@
    which ends with [\r\n] character range. */
 #define REGEX_FAKE_MATCH_END	0x400
 
+/* Characters of the input are loaded as unsigned values. */
+#ifdef REGEX_USE_8BIT_CHARS
+typedef sljit_u8 regex_code_t;
+#else
+typedef wchar_t regex_code_t;
+#endif
+
 /* --------------------------------------------------------------------- */
 /*  Structures for JIT-ed pattern matching                               */
 /* --------------------------------------------------------------------- */
@@ -666,7 +673,7 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 {
 	struct stack* stack = &compiler_common->stack;
 	const regex_char_t *base_from = regex_string;
-	regex_char_t left_char, right_char, tmp_char;
+	regex_code_t left_char, right_char, tmp_char;
 
 	length--;
 	regex_string++;
@@ -708,13 +715,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			break;
 
 		if (*regex_string != '\\')
-			left_char = *regex_string;
+			left_char = (regex_code_t)*regex_string;
 		else {
 			regex_string++;
 			length--;
 			if (length == 0)
 				return -2;
-			left_char = *regex_string;
+			left_char = (regex_code_t)*regex_string;
 		}
 		regex_string++;
 		length--;
@@ -725,13 +732,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			length--;
 
 			if (*regex_string != '\\')
-				right_char = *regex_string;
+				right_char = (regex_code_t)*regex_string;
 			else {
 				regex_string++;
 				length--;
 				if (length == 0)
 					return -2;
-				right_char = *regex_string;
+				right_char = (regex_code_t)*regex_string;
 			}
 			regex_string++;
 			length--;
@@ -801,7 +808,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 			regex_string++;
 			if (length == 0)
 				return REGEX_INVALID_REGEX;
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, (regex_code_t)*regex_string))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
@@ -901,7 +908,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 				compiler_common->flags |= REGEX_MATCH_END;
 				break;
 			}
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, (regex_code_t)*regex_string))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
-- 
2.43.0


From 1e986a546e3dc7723c7a5a4dc5744ba256fb2435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:15 +0000
Subject: [PATCH 68/96] fix: regex: begin of an empty match at the end of the
 input was wrong when $ is used with the newline flag

---
 regex_src/regexJIT.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index d940e82..2229a32 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -1954,6 +1954,9 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 				SLJIT_ASSERT(compiler_common.dfa_transitions[ind].type != type_end);
 				if (compiler_common.dfa_transitions[ind].type == type_rng_start && compiler_common.dfa_transitions[ind].value)
 					suggest_fast_forward = 0;
+				/* The begin of this state is used by regex_get_result. */
+				if (compiler_common.dfa_transitions[ind].type == type_newline)
+					suggest_fast_forward = 0;
 			}
 			compiler_common.search_states[ind].value = -1;
 		}
-- 
2.43.0


From 3baee49cc1fd595621914c6d1e3ee723550a42a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:15 +0000
Subject: [PATCH 69/96] fix: regex: a better match which ends at the end of the
 input was ignored when $ is used with the newline flag

---
 regex_src/regexJIT.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 2229a32..82d9cfa 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2451,12 +2451,14 @@ int regex_get_result(struct regex_match *match, int *end, int *id)
 
 	if (flags & REGEX_FAKE_MATCH_END) {
 		SLJIT_ASSERT(!(flags & (REGEX_MATCH_BEGIN | REGEX_MATCH_END)));
-		if (match->best_begin != -1)
-			return (int)match->best_begin;
-
 		no_states = match->machine->no_states;
 		if (match->current[no_states + 1] == -1)
-			return -1;
+			return (int)match->best_begin;
+
+		/* The current match may have an earlier begin, or a later end. */
+		if (match->best_begin != -1 && (match->current[no_states + 2] > match->best_begin
+				|| (match->current[no_states + 2] == match->best_begin && (flags & REGEX_MATCH_NON_GREEDY))))
+			return (int)match->best_begin;
 		if (flags & REGEX_ID_CHECK)
 			*id = (int)match->current[no_states + 3];
 		if (!(flags & REGEX_FAKE_MATCH_BEGIN))
-- 
2.43.0


From a9d79b6d079a41ed6730572fc9528507cc3cf68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 70/96] fix: regex: ^ and $ affected only one of the
 alternatives when the newline flag is set

---
 regex_src/regexJIT.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 82d9cfa..b627f8a 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -801,6 +801,12 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 		/* Begin intentionally kept as 1. */
 	}
 
+	/* The new-line searches belong to all alternatives. */
+	if (compiler_common->flags & REGEX_NEWLINE) {
+		if (stack_push(stack, type_open_br, 0))
+			return REGEX_MEMORY_ERROR;
+	}
+
 	while (length > 0) {
 		switch (*regex_string) {
 		case '\\' :
@@ -921,6 +927,11 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 	if (depth != 0)
 		return REGEX_INVALID_REGEX;
 
+	if (compiler_common->flags & REGEX_NEWLINE) {
+		if (stack_push(stack, type_close_br, 0))
+			return REGEX_MEMORY_ERROR;
+	}
+
 	if ((compiler_common->flags & (REGEX_MATCH_END | REGEX_NEWLINE)) == (REGEX_MATCH_END | REGEX_NEWLINE)) {
 		/* Replace REGEX_MATCH_END flag to REGEX_FAKE_MATCH_END */
 		compiler_common->flags &= ~REGEX_MATCH_END;
-- 
2.43.0


From 5bb75bd3916c1c9d00f7899a835c97eb775028b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 71/96] fix: regex: ^ and $ together matched a prefix of the
 input when no other match was possible

---
 regex_src/regexJIT.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index b627f8a..644354f 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2190,6 +2190,11 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 			EMIT_CMP(jump, SLJIT_NOT_EQUAL, R_NEXT_HEAD, 0, SLJIT_IMM, 0);
 			sljit_set_label(jump, start_label);
 		}
+		else if (compiler_common.flags & REGEX_MATCH_END) {
+			/* The current match is only valid until the next character. */
+			EMIT_CMP(jump, SLJIT_NOT_EQUAL, SLJIT_MEM1(R_CURR_STATE), TERM_REL_OFFSET_OF(0, 1), SLJIT_IMM, -1);
+			sljit_set_label(jump, start_label);
+		}
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(R_REGEX_MATCH), SLJIT_OFFSETOF(struct regex_match, fast_quit), SLJIT_IMM, 1);
 	}
 
-- 
2.43.0


From f34ccc2893ed2ae010a0ee04dd8087ea7ac557b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 72/96] fix: regex: patterns matching the empty string did not
 match anything else with match end and non greedy flags

---
 regex_src/regexJIT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 644354f..0dc737d 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2277,7 +2277,7 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(SLJIT_S1), SLJIT_OFFSETOF(struct regex_match, index), SLJIT_IMM, !(compiler_common.flags & REGEX_FAKE_MATCH_BEGIN) ? 1 : 2);
 
-		if (!(compiler_common.flags & REGEX_MATCH_NON_GREEDY) || empty_match_id == -1) {
+		if (!(compiler_common.flags & REGEX_MATCH_NON_GREEDY) || (compiler_common.flags & REGEX_MATCH_END) || empty_match_id == -1) {
 			/* The else is a really rare event, so we still generate an empty function instead of a runtime pointer check. */
 			SLJIT_ASSERT(R_CURR_STATE == SLJIT_S0);
 			if (!(compiler_common.flags & REGEX_MATCH_BEGIN)) {
-- 
2.43.0


From 4787c92c2103a586b003fc3db50ea0955de98ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 73/96] fix: regex: iterators were refused after a { character
 which does not start an iterator

---
 regex_src/regexJIT.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 0dc737d..c815f8d 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -890,6 +890,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 				SLJIT_ASSERT(tmp == -2);
 				if (stack_push(stack, type_char, '{'))
 					return REGEX_MEMORY_ERROR;
+				begin = 0;
 				compiler_common->dfa_size++;
 			}
 			break;
-- 
2.43.0


From d8d668a452e05b95698bc5dc28bc97df7223179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 74/96] fix: regex: the accepting state of the previous match
 was not cleared by regex_reset_match

---
 regex_src/regexJIT.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index c815f8d..5162511 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2433,6 +2433,9 @@ void regex_reset_match(struct regex_match *match)
 	match->fast_quit = 0;
 	match->fast_forward = 0;
 
+	/* The accepting state is not part of the list. */
+	match->current[1] = -1;
+
 	if (match->head != 0) {
 		/* Clear the current state. */
 		current = match->head;
-- 
2.43.0


From 09bfd4a4832bbb70980fdddf1d91d006f33c57ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 75/96] fix: regex: failed memory allocations were ignored by
 the expansion of iterators

---
 regex_src/regexJIT.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 5162511..6470f0f 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -486,9 +486,9 @@ static int iterate(struct stack *stack, int min, int max)
 		stack_clone(&it, stack);
 		/* and put an empty bracket expression instead of it. */
 		if (stack_push(stack, type_open_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		if (stack_push(stack, type_close_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		return len;
 	}
 
@@ -522,7 +522,7 @@ static int iterate(struct stack *stack, int min, int max)
 				if (stack_push_copy(stack, count, count))
 					return -1;
 				if (stack_push(stack, type_qestion_mark, 0))
-					return REGEX_MEMORY_ERROR;
+					return -1;
 				count++;
 				max--;
 			}
@@ -532,7 +532,7 @@ static int iterate(struct stack *stack, int min, int max)
 			max--;
 			count++;
 			if (stack_push(stack, type_qestion_mark, 0))
-				return REGEX_MEMORY_ERROR;
+				return -1;
 		}
 
 		while (max > 0) {
@@ -553,12 +553,12 @@ static int iterate(struct stack *stack, int min, int max)
 		}
 
 		if (stack_push(stack, type_plus_sign, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 	}
 
 	/* Close the opened bracket. */
 	if (stack_push(stack, type_close_br, 0))
-		return REGEX_MEMORY_ERROR;
+		return -1;
 
 	return len;
 }
-- 
2.43.0


From baca921930e2ad952b67aac194aa8a3b6e423c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 76/96] fix: x86-64: jumps to the end of the 32 bit range
 landed at a wrong place

---
 sljit_src/sljitNativeX86_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index b63f274..84e0b20 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -692,7 +692,7 @@ static sljit_u8* detect_near_jump_type(struct sljit_jump *jump, sljit_u8 *code_p
 		label_addr = jump->u.target - (sljit_uw)executable_offset;
 
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
-	if ((sljit_sw)(label_addr - (jump_addr + 6)) > HALFWORD_MAX || (sljit_sw)(label_addr - (jump_addr + 5)) < HALFWORD_MIN)
+	if ((sljit_sw)(label_addr - (jump_addr + 5)) > HALFWORD_MAX || (sljit_sw)(label_addr - (jump_addr + 6)) < HALFWORD_MIN)
 		return detect_far_jump_type(jump, code_ptr);
 #endif /* SLJIT_CONFIG_X86_64 */
 
-- 
2.43.0


From 9463bb39e8b7537de771018816212ac38f618608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:49 +0000
Subject: [PATCH 77/96] fix: ARM64: jumps and addresses at the end of the 32
 bit range were computed incorrectly

---
 sljit_src/sljitNativeARM_64.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index 04ff41d..3c8766d 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -255,7 +255,9 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 		return code_ptr + 2;
 	}
 
-	if (diff <= 0xfffff000l && diff >= -0x100000000l) {
+	/* The adrp instruction is relative to the page of the instruction. */
+	diff += (sljit_sw)SLJIT_ADD_EXEC_OFFSET(jump_addr, executable_offset) & 0xfff;
+	if (diff <= 0xffffffffl && diff >= -0x100000000l) {
 		if (jump->flags & IS_COND)
 			code_ptr[-1] -= (2 << 5);
 		jump->flags |= PATCH_B32;
@@ -301,7 +303,9 @@ static SLJIT_INLINE sljit_sw mov_addr_get_length(struct sljit_jump *jump, sljit_
 		return 0;
 	}
 
-	if (diff <= 0xfffff000l && diff >= -0x100000000l) {
+	/* The adrp instruction is relative to the page of the instruction. */
+	diff += (sljit_sw)SLJIT_ADD_EXEC_OFFSET(jump_addr, executable_offset) & 0xfff;
+	if (diff <= 0xffffffffl && diff >= -0x100000000l) {
 		SLJIT_ASSERT(jump->flags >= ((sljit_uw)1 << JUMP_SIZE_SHIFT));
 		jump->flags |= PATCH_B32;
 		return 1;
@@ -349,7 +353,7 @@ static SLJIT_INLINE void generate_jump_or_mov_addr(struct sljit_jump *jump, slji
 
 		if (jump->flags & PATCH_B32) {
 			addr -= (sljit_sw)SLJIT_ADD_EXEC_OFFSET(buf_ptr, executable_offset) & ~(sljit_sw)0xfff;
-			SLJIT_ASSERT(addr <= 0xfffff000l && addr >= -0x100000000l);
+			SLJIT_ASSERT(addr <= 0xffffffffl && addr >= -0x100000000l);
 			buf_ptr[0] = ADRP | (((sljit_ins)(addr >> 12) & 0x3) << 29) | (((sljit_ins)(addr >> 14) & 0x7ffff) << 5) | dst;
 			buf_ptr[1] = ADDI | dst | (dst << 5) | ((sljit_ins)(addr & 0xfff) << 10);
 			return;
-- 
2.43.0


From cf21f9c3fd17fa29cb38388ec6ea0924cf2faeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 78/96] fix: MIPS: conditional jumps at the end of a 256MB
 region were encoded incorrectly

---
 sljit_src/sljitNativeMIPS_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 55b65a0..315c219 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -583,7 +583,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 	}
 
 	if (jump->flags & IS_COND) {
-		if ((jump->flags & IS_MOVABLE) && (target_addr & ~(sljit_uw)0xfffffff) == ((jump->addr + 2 * sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
+		if ((jump->flags & IS_MOVABLE) && (target_addr & ~(sljit_uw)0xfffffff) == ((jump->addr + sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
 			jump->flags |= PATCH_J;
 			saved_inst = inst[0];
 			inst[0] = inst[-1];
@@ -592,7 +592,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 			inst[2] = NOP;
 			return inst + 2;
 		}
-		else if ((target_addr & ~(sljit_uw)0xfffffff) == ((jump->addr + 3 * sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
+		else if ((target_addr & ~(sljit_uw)0xfffffff) == ((jump->addr + 2 * sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
 			jump->flags |= PATCH_J;
 			inst[0] = (inst[0] & 0xffff0000) | 3;
 			inst[1] = NOP;
-- 
2.43.0


From d9dc0de156fdeaa2129e53877531752b8436e40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 79/96] fix: ARMv6: calls at the end of the 32MB range were
 encoded incorrectly

---
 sljit_src/sljitNativeARM_32.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 078b42c..92a1348 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -530,6 +530,9 @@ static SLJIT_INLINE sljit_s32 detect_jump_type(struct sljit_jump *jump, sljit_uw
 
 #if (defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6)
 	if (jump->flags & IS_BL) {
+		/* The instruction is moved backwards by one word. */
+		diff += SSIZE_OF(ins);
+
 		if (diff <= 0x01ffffff && diff >= -0x02000000) {
 			*code_ptr = (BL - CONDITIONAL) | (*(code_ptr + 1) & COND_MASK);
 			jump->flags |= PATCH_B;
-- 
2.43.0


From 8c1cd54e6246359ad86e661faba6684f0120d713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:01 +0000
Subject: [PATCH 80/96] fix: x86-64: addresses at the end of the 32 bit range
 were computed incorrectly

---
 sljit_src/sljitNativeX86_64.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_64.c b/sljit_src/sljitNativeX86_64.c
index 8737d68..dd982b8 100644
--- a/sljit_src/sljitNativeX86_64.c
+++ b/sljit_src/sljitNativeX86_64.c
@@ -408,7 +408,8 @@ static sljit_u8* generate_mov_addr_code(struct sljit_jump *jump, sljit_u8 *code_
 		addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(code, executable_offset) + jump->u.label->size;
 
 	if (addr > 0xffffffffl) {
-		diff = (sljit_sw)addr - (sljit_sw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
+		/* The lea instruction is 3 bytes shorter. */
+		diff = (sljit_sw)addr - (sljit_sw)SLJIT_ADD_EXEC_OFFSET(code_ptr - (SSIZE_OF(s32) - 1), executable_offset);
 
 		if (diff <= HALFWORD_MAX && diff >= HALFWORD_MIN) {
 			SLJIT_ASSERT(((jump->flags >> JUMP_SIZE_SHIFT) & 0x1f) >= 7);
-- 
2.43.0


From 31b9f2ba126f477b0daae2a22ff497070f202304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:01 +0000
Subject: [PATCH 81/96] fix: MIPS: jumps in a 256MB region ignored the offset
 of the executable code

---
 sljit_src/sljitNativeMIPS_common.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 315c219..4a6036e 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -514,6 +514,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 {
 	sljit_sw diff;
 	sljit_uw target_addr;
+	sljit_uw jump_addr;
 	sljit_ins *inst;
 	sljit_ins saved_inst;
 
@@ -539,6 +540,9 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 		target_addr = (sljit_uw)(code + jump->u.label->size) + (sljit_uw)executable_offset;
 	}
 
+	/* The 256MB region is decided by the address where the code is executed. */
+	jump_addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(inst, executable_offset);
+
 	if (jump->flags & IS_COND)
 		inst--;
 
@@ -583,7 +587,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 	}
 
 	if (jump->flags & IS_COND) {
-		if ((jump->flags & IS_MOVABLE) && (target_addr & ~(sljit_uw)0xfffffff) == ((jump->addr + sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
+		if ((jump->flags & IS_MOVABLE) && (target_addr & ~(sljit_uw)0xfffffff) == ((jump_addr + sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
 			jump->flags |= PATCH_J;
 			saved_inst = inst[0];
 			inst[0] = inst[-1];
@@ -592,7 +596,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 			inst[2] = NOP;
 			return inst + 2;
 		}
-		else if ((target_addr & ~(sljit_uw)0xfffffff) == ((jump->addr + 2 * sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
+		else if ((target_addr & ~(sljit_uw)0xfffffff) == ((jump_addr + 2 * sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
 			jump->flags |= PATCH_J;
 			inst[0] = (inst[0] & 0xffff0000) | 3;
 			inst[1] = NOP;
@@ -604,7 +608,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 	}
 	else {
 		/* J instuctions. */
-		if ((jump->flags & IS_MOVABLE) && (target_addr & ~(sljit_uw)0xfffffff) == (jump->addr & ~(sljit_uw)0xfffffff)) {
+		if ((jump->flags & IS_MOVABLE) && (target_addr & ~(sljit_uw)0xfffffff) == (jump_addr & ~(sljit_uw)0xfffffff)) {
 			jump->flags |= PATCH_J;
 			inst[0] = inst[-1];
 			inst[-1] = (jump->flags & IS_JAL) ? JAL : J;
@@ -612,7 +616,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 			return inst;
 		}
 
-		if ((target_addr & ~(sljit_uw)0xfffffff) == ((jump->addr + sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
+		if ((target_addr & ~(sljit_uw)0xfffffff) == ((jump_addr + sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
 			jump->flags |= PATCH_J;
 			inst[0] = (jump->flags & IS_JAL) ? JAL : J;
 			/* Keep inst[1] */
-- 
2.43.0


From c32420dd501db302d333075647ba7b9e069d84de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 82/96] fix: ARM-T2: too few space was reserved for addresses
 of labels at the end of the backward range

---
 sljit_src/sljitNativeARM_T2_32.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index f8fafb4..113c655 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -592,7 +592,8 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 					diff -= (sljit_sw)size_reduce;
 				}
 
-				if (diff <= (0xffd / SSIZE_OF(u16)) && diff >= (-0xfff / SSIZE_OF(u16)))
+				/* Same range as in mov_addr_get_length. */
+				if (diff <= (0xffd / SSIZE_OF(u16)) + 2 && diff >= (-0xfff / SSIZE_OF(u16)) + 2)
 					total_size = 1;
 			}
 
-- 
2.43.0


From d3104ced9bb7d47c14440550c386eda989f44e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 83/96] fix: x86: the unaligned second operand of 256 bit
 vector operations was loaded by a 128 bit move

---
 sljit_src/sljitNativeX86_common.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 84e0b20..4d291d6 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -4904,6 +4904,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 	if (reg_size == 5) {
 		if (!(cpu_feature_list & CPU_FEATURE_AVX2))
 			return SLJIT_ERR_UNSUPPORTED;
+		use_vex = 1;
 	} else if (reg_size != 4)
 		return SLJIT_ERR_UNSUPPORTED;
 
@@ -4943,6 +4944,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 
 	if ((src2 & SLJIT_MEM) && SLJIT_SIMD_GET_ELEM2_SIZE(type) < reg_size) {
 		mov_op = ((type & SLJIT_SIMD_FLOAT) ? (MOVUPS_x_xm | (elem_size == 3 ? EX86_PREF_66 : 0)) : (MOVDQU_x_xm | EX86_PREF_F3)) | EX86_SSE2;
+		if (reg_size == 5)
+			mov_op |= VEX_256;
+
 		if (use_vex)
 			FAIL_IF(emit_vex_instruction(compiler, mov_op, TMP_FREG, 0, src2, src2w));
 		else
@@ -4952,7 +4956,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 		src2w = 0;
 	}
 
-	if (reg_size == 5 || use_vex) {
+	if (use_vex) {
 		if (reg_size == 5)
 			op |= VEX_256;
 
-- 
2.43.0


From f6b914349f16c4fe107cb8d970fdfa24aee576b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 84/96] fix: LoongArch: the test form of 256 bit shuffles
 reported that they are supported

---
 sljit_src/sljitNativeLOONGARCH_64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 09c889d..2b3ad9b 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3712,6 +3712,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 	if ((type & SLJIT_SIMD_FLOAT) && (elem_size < 2 || elem_size > 3))
 		return SLJIT_ERR_UNSUPPORTED;
 
+	if (reg_size != 4 && SLJIT_SIMD_GET_OPCODE(type) == SLJIT_SIMD_OP2_SHUFFLE)
+		return SLJIT_ERR_UNSUPPORTED;
+
 	if (type & SLJIT_SIMD_TEST)
 		return SLJIT_SUCCESS;
 
@@ -3732,9 +3735,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 		ins = VXOR_V;
 		break;
 	case SLJIT_SIMD_OP2_SHUFFLE:
-		if (reg_size != 4)
-			return SLJIT_ERR_UNSUPPORTED;
-
 		return push_inst(compiler, VSHUF_B | FRD(dst_vreg) | FRJ(src1_vreg) | FRK(src1_vreg) | FRA(src2));
 	}
 
-- 
2.43.0


From 72570562d15652a54d201fd855e9a0dbafabf05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 85/96] fix: RISC-V: the test form of vector sign extraction
 emitted the operation

---
 sljit_src/sljitNativeRISCV_common.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 5de83f4..9564d26 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -4430,6 +4430,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 	if (((type & SLJIT_SIMD_FLOAT) && elem_size < 2) || elem_size > 3)
 		return SLJIT_ERR_UNSUPPORTED;
 
+	if (type & SLJIT_SIMD_TEST)
+		return SLJIT_SUCCESS;
+
 	FAIL_IF(sljit_emit_vsetivli(compiler, type, 0));
 	FAIL_IF(push_inst(compiler, VMV_VI | VRD(TMP_VREG1) | (0x0 << 15)));
 	FAIL_IF(push_inst(compiler, VMSLE_VI | VRD(TMP_VREG1) | (0x1f << 15) | VRS2(vreg)));
-- 
2.43.0


From f888829a441121952d8e9aa138f7118b4338c5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 86/96] fix: x86-64: only the lower half of a 64 bit immediate
 was loaded into a vector lane

---
 sljit_src/sljitNativeX86_common.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 4d291d6..a3567fa 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -4350,6 +4350,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 	}
 
 	if (srcdst == SLJIT_IMM) {
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+		if (elem_size == 3)
+			compiler->mode32 = 0;
+#endif /* SLJIT_CONFIG_X86_64 */
 		EMIT_MOV(compiler, TMP_REG1, 0, SLJIT_IMM, srcdstw);
 		srcdst = TMP_REG1;
 		srcdstw = 0;
-- 
2.43.0


From c45a9cb56033cc80e65aa24dc69cfffe2855a6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:10 +0000
Subject: [PATCH 87/96] fix: x86: vector sign extraction modified the status
 flags

---
 sljit_src/sljitNativeX86_common.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index a3567fa..c2ba03f 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -4783,7 +4783,11 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 	sljit_s32 use_vex = (cpu_feature_list & CPU_FEATURE_AVX) && (compiler->options & SLJIT_ENTER_USE_VEX);
 	sljit_s32 dst_r;
 	sljit_uw op;
-	sljit_u8 *inst;
+#if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
+	sljit_s32 opcode3 = TMP_REG1;
+#else /* !SLJIT_CONFIG_X86_32 */
+	sljit_s32 opcode3 = SLJIT_S0;
+#endif /* SLJIT_CONFIG_X86_32 */
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_simd_sign(compiler, type, vreg, dst, dstw));
@@ -4806,10 +4810,17 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 
 		switch (elem_size) {
 		case 1:
-			if (use_vex)
+			SLJIT_ASSERT(reg_map[opcode3] == 3);
+
+			/* The unused bits are cleared by a vector shift, which does not modify the status flags. */
+			if (use_vex) {
 				FAIL_IF(emit_vex_instruction(compiler, PACKSSWB_x_xm | EX86_PREF_66 | EX86_SSE2 | VEX_SSE2_OPV, TMP_FREG, vreg, vreg, 0));
-			else
+				FAIL_IF(emit_vex_instruction(compiler, PSRLDQ_x | EX86_PREF_66 | EX86_SSE2_OP2 | VEX_SSE2_OPV, opcode3, TMP_FREG, TMP_FREG, 0));
+			} else {
 				FAIL_IF(emit_groupf(compiler, PACKSSWB_x_xm | EX86_PREF_66 | EX86_SSE2, TMP_FREG, vreg, 0));
+				FAIL_IF(emit_groupf(compiler, PSRLDQ_x | EX86_PREF_66 | EX86_SSE2_OP2, opcode3, TMP_FREG, 0));
+			}
+			FAIL_IF(emit_byte(compiler, 8));
 			vreg = TMP_FREG;
 			break;
 		case 2:
@@ -4829,12 +4840,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 		compiler->mode32 = type & SLJIT_32;
 #endif /* SLJIT_CONFIG_X86_64 */
 
-		if (elem_size == 1) {
-			inst = emit_x86_instruction(compiler, 1 | EX86_SHIFT_INS, SLJIT_IMM, 8, dst_r, 0);
-			FAIL_IF(!inst);
-			inst[1] |= SHR;
-		}
-
 		if (dst_r == TMP_REG1)
 			return emit_mov(compiler, dst, dstw, TMP_REG1, 0);
 
-- 
2.43.0


From bb44ca6ba881907313f3012311cc19984521a575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:00 +0000
Subject: [PATCH 88/96] fix: ARM: the source of a zeroing vector lane load was
 cleared when it was in the other half of the vector register

---
 sljit_src/sljitNativeARM_32.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 92a1348..ea6fb59 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -4364,8 +4364,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 				return push_inst(compiler, VMOV_i | VD(vreg));
 			}
 
-			if (srcdst == vreg || (elem_size == 3 && srcdst == (vreg + SLJIT_QUAD_OTHER_HALF(vreg)))) {
-				FAIL_IF(push_inst(compiler, VORR | ins | VD(TMP_FREG2) | VN(vreg) | VM(vreg)));
+			if (srcdst == vreg || (reg_size == 4 && srcdst == (vreg + SLJIT_QUAD_OTHER_HALF(vreg)))) {
+				FAIL_IF(push_inst(compiler, VORR | VD(TMP_FREG2) | VN(srcdst) | VM(srcdst)));
 				srcdst = TMP_FREG2;
 				srcdstw = 0;
 			}
-- 
2.43.0


From 21830449490454157d6fd687dd0255ef73ad7a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:00 +0000
Subject: [PATCH 89/96] fix: LoongArch: vector extension loaded more memory
 than its operand, and modified its 256 bit source register

---
 sljit_src/sljitNativeLOONGARCH_64.c | 41 ++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 2b3ad9b..74593be 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3598,32 +3598,41 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 	if (reg_size == 5 && !(get_cpu_features(GET_HWCAP) & LOONGARCH_HWCAP_LASX))
 		return SLJIT_ERR_UNSUPPORTED;
 
+	if ((type & SLJIT_SIMD_FLOAT) && (elem_size != 2 || elem2_size != 3))
+		return SLJIT_ERR_UNSUPPORTED;
+
 	if (type & SLJIT_SIMD_TEST)
 		return SLJIT_SUCCESS;
 
 	if (src & SLJIT_MEM) {
-		ins = (type & SLJIT_SIMD_STORE) ? VST : VLD;
-
-		if (reg_size == 5)
-			ins = (type & SLJIT_SIMD_STORE) ? XVST : XVLD;
+		FAIL_IF(sljit_emit_simd_mem_offset(compiler, &src, srcw));
 
-		if (FAST_IS_REG(src) && src >= 0 && (srcw >= I12_MIN && srcw <= I12_MAX))
-			FAIL_IF(push_inst(compiler, ins | FRD(vreg) | RJ(src) | IMM_I12(srcw)));
-		else {
-			FAIL_IF(sljit_emit_simd_mem_offset(compiler, &src, srcw));
-			FAIL_IF(push_inst(compiler, ins | FRD(vreg) | RJ(src) | IMM_I12(0)));
+		/* Only those bytes are loaded, which are extended. */
+		switch (reg_size - (elem2_size - elem_size)) {
+		case 1:
+			ins = VLDREPL | ((sljit_ins)1 << 22);
+			break;
+		case 2:
+			ins = FLD_S;
+			break;
+		case 3:
+			ins = FLD_D;
+			break;
+		default:
+			ins = VLD;
+			break;
 		}
+
+		FAIL_IF(push_inst(compiler, ins | FRD(vreg) | RJ(src)));
 		src = vreg;
 	}
 
 	if (type & SLJIT_SIMD_FLOAT) {
-		if (elem_size != 2 || elem2_size != 3)
-			return SLJIT_ERR_UNSUPPORTED;
-
 		ins = 0;
 		if (reg_size == 5) {
 			ins = (sljit_ins)1 << 26;
-			FAIL_IF(push_inst(compiler, XVPERMI | FRD(src) | FRJ(src) | IMM_I8(16)));
+			FAIL_IF(push_inst(compiler, XVPERMI | FRD(vreg) | FRJ(src) | IMM_I8(16)));
+			src = vreg;
 		}
 
 		return push_inst(compiler, VFCVTL_D_S | ins | FRD(vreg) | FRJ(src));
@@ -3635,8 +3644,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 		ins |= (sljit_ins)1 << 26;
 
 	do {
-		if (reg_size == 5)
-			FAIL_IF(push_inst(compiler, XVPERMI | FRD(src) | FRJ(src) | IMM_I8(16)));
+		if (reg_size == 5) {
+			FAIL_IF(push_inst(compiler, XVPERMI | FRD(vreg) | FRJ(src) | IMM_I8(16)));
+			src = vreg;
+		}
 
 		FAIL_IF(push_inst(compiler, ins | ((sljit_ins)1 << (13 + elem_size)) | FRD(vreg) | FRJ(src)));
 		src = vreg;
-- 
2.43.0


From 1ff96c36388b66a43bff1baea581ee9fc29524c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:40 +0000
Subject: [PATCH 90/96] fix: ARM-T2: the source of a zeroing vector lane load
 was cleared when it was in the other half of the vector register

---
 sljit_src/sljitNativeARM_T2_32.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index 113c655..25e590e 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -4017,8 +4017,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 				return push_inst32(compiler, VMOV_i | VD4(vreg));
 			}
 
-			if (srcdst == vreg || (elem_size == 3 && srcdst == (vreg + SLJIT_QUAD_OTHER_HALF(vreg)))) {
-				FAIL_IF(push_inst32(compiler, VORR | ins | VD4(TMP_FREG2) | VN4(vreg) | VM4(vreg)));
+			if (srcdst == vreg || (reg_size == 4 && srcdst == (vreg + SLJIT_QUAD_OTHER_HALF(vreg)))) {
+				FAIL_IF(push_inst32(compiler, VORR | VD4(TMP_FREG2) | VN4(srcdst) | VM4(srcdst)));
 				srcdst = TMP_FREG2;
 				srcdstw = 0;
 			}
-- 
2.43.0


From cfc066b97f5ae409fd80b7ba83070cb8b3024714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:40 +0000
Subject: [PATCH 91/96] fix: LoongArch: the result of vector sign extraction
 was sign extended from 32 bit when it is a machine word

---
 sljit_src/sljitNativeLOONGARCH_64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 74593be..2983460 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3693,7 +3693,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 
 	if (reg_size == 5) {
 		FAIL_IF(push_inst(compiler, VPICKVE2GR_U | (sljit_ins)(0x38 << 10) | ins | RD(TMP_REG3) | FRJ(TMP_FREG1) | IMM_V(2)));
-		FAIL_IF(push_inst(compiler, SLLI_W | RD(TMP_REG3) | RJ(TMP_REG3) | IMM_I12(2 << (3 - elem_size))));
+		FAIL_IF(push_inst(compiler, ((type & SLJIT_32) ? SLLI_W : SLLI_D) | RD(TMP_REG3) | RJ(TMP_REG3) | IMM_I12(2 << (3 - elem_size))));
 		FAIL_IF(push_inst(compiler, OR | RD(dst_r) | RJ(dst_r) | RK(TMP_REG3)));
 	}
 
-- 
2.43.0


From dcb2fded50848c816302e02d4599764983882a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:24 +0000
Subject: [PATCH 92/96] fix: LoongArch: vector replicate and lane operations
 reported invalid element sizes as supported

---
 sljit_src/sljitNativeLOONGARCH_64.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 2983460..947d41a 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3365,6 +3365,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_replicate(struct sljit_compil
 	if (reg_size == 5 && !(get_cpu_features(GET_HWCAP) & LOONGARCH_HWCAP_LASX))
 		return SLJIT_ERR_UNSUPPORTED;
 
+	if (elem_size > 3 || ((type & SLJIT_SIMD_FLOAT) && elem_size < 2))
+		return SLJIT_ERR_UNSUPPORTED;
+
 	if (type & SLJIT_SIMD_TEST)
 		return SLJIT_SUCCESS;
 
@@ -3423,10 +3426,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 	if (reg_size == 5 && !(get_cpu_features(GET_HWCAP) & LOONGARCH_HWCAP_LASX))
 		return SLJIT_ERR_UNSUPPORTED;
 
-	if ((type & SLJIT_SIMD_FLOAT) && (elem_size < 2 || elem_size > 3))
-		return SLJIT_ERR_UNSUPPORTED;
-
-	if ((type & SLJIT_SIMD_FLOAT) && (elem_size < 2 || elem_size > 3))
+	if (elem_size > 3 || ((type & SLJIT_SIMD_FLOAT) && elem_size < 2))
 		return SLJIT_ERR_UNSUPPORTED;
 
 	if (type & SLJIT_SIMD_TEST)
@@ -3562,6 +3562,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_replicate(struct sljit_c
 	if (reg_size == 5 && !(get_cpu_features(GET_HWCAP) & LOONGARCH_HWCAP_LASX))
 		return SLJIT_ERR_UNSUPPORTED;
 
+	if (elem_size > 3 || ((type & SLJIT_SIMD_FLOAT) && elem_size < 2))
+		return SLJIT_ERR_UNSUPPORTED;
+
 	if (type & SLJIT_SIMD_TEST)
 		return SLJIT_SUCCESS;
 
-- 
2.43.0


From c0f8acfd76b2fc51b89fb3d10f1887b6a24d3778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 93/96] fix: MIPS R1: an instruction was skipped when an
 unsigned word is converted to floating point

---
 sljit_src/sljitNativeMIPS_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 4a6036e..8d5e37e 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -3082,7 +3082,7 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_uw(struct sljit_comp
 	}
 #endif /* SLJIT_CONFIG_MIPS_64 */
 
-#if (!defined SLJIT_MIPS_REV || SLJIT_MIPS_REV <= 1)
+#if (!defined SLJIT_MIPS_REV || SLJIT_MIPS_REV < 1)
 	FAIL_IF(push_inst(compiler, BLTZ | S(src) | 5, UNMOVABLE_INS));
 #else /* SLJIT_MIPS_REV >= 1 */
 	FAIL_IF(push_inst(compiler, BLTZ | S(src) | 4, UNMOVABLE_INS));
@@ -3096,7 +3096,7 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_uw(struct sljit_comp
 
 	FAIL_IF(push_inst(compiler, CVT_S_S | flags | (4 << 21) | ((~(sljit_ins)op & SLJIT_32) >> 8) | FS(TMP_FREG1) | FD(dst_r), MOVABLE_INS));
 
-#if (!defined SLJIT_MIPS_REV || SLJIT_MIPS_REV <= 1)
+#if (!defined SLJIT_MIPS_REV || SLJIT_MIPS_REV < 1)
 	FAIL_IF(push_inst(compiler, BEQ | 6, UNMOVABLE_INS));
 #else /* SLJIT_MIPS_REV >= 1 */
 	FAIL_IF(push_inst(compiler, BEQ | 5, UNMOVABLE_INS));
-- 
2.43.0


From 0f4a29c0cd3457affdb6f82288fb54bf7764fe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:24 +0000
Subject: [PATCH 94/96] fix: x86-32: the expected value of an atomic store was
 overwritten when it is in R1 and the address is in R0

---
 sljit_src/sljitNativeX86_common.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index c2ba03f..c034bc6 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -5084,12 +5084,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_atomic_store(struct sljit_compiler
 
 		if (src_reg == TMP_REG1) {
 			if (mem_reg == SLJIT_R0) {
-				EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_R1, 0);
-				EMIT_MOV(compiler, SLJIT_R1, 0, SLJIT_R0, 0);
+				saved_reg = (temp_reg != SLJIT_R1) ? SLJIT_R1 : SLJIT_R2;
+
+				EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, saved_reg, 0);
+				EMIT_MOV(compiler, saved_reg, 0, SLJIT_R0, 0);
 				EMIT_MOV(compiler, SLJIT_R0, 0, temp_reg, tempw);
 
-				mem_reg = SLJIT_R1;
-				saved_reg = SLJIT_R1;
+				mem_reg = saved_reg;
 			} else {
 				EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_R0, 0);
 				EMIT_MOV(compiler, SLJIT_R0, 0, temp_reg, tempw);
@@ -5141,8 +5142,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_atomic_store(struct sljit_compiler
 		return emit_mov(compiler, SLJIT_R0, 0, TMP_REG2, 0);
 #else /* !SLJIT_CONFIG_X86_64 */
 		EMIT_MOV(compiler, SLJIT_R0, 0, (saved_reg == SLJIT_R0) ? SLJIT_MEM1(SLJIT_SP) : saved_reg, 0);
-		if (saved_reg == SLJIT_R1)
-			return emit_mov(compiler, SLJIT_R1, 0, SLJIT_MEM1(SLJIT_SP), 0);
+		if (saved_reg == SLJIT_R1 || saved_reg == SLJIT_R2)
+			return emit_mov(compiler, saved_reg, 0, SLJIT_MEM1(SLJIT_SP), 0);
 #endif /* SLJIT_CONFIG_X86_64 */
 	}
 	return SLJIT_SUCCESS;
-- 
2.43.0


From 3f36fe9e9011eee9c99301edfde241131226e77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:09 +0000
Subject: [PATCH 95/96] fix: s390x: signed compare flags of a subtraction from
 memory were wrong on overflow

---
 sljit_src/sljitNativeS390X.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index 00571a8..e5de603 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -2553,7 +2553,9 @@ static sljit_s32 sljit_emit_sub(struct sljit_compiler *compiler, sljit_s32 op,
 		sljit_sw neg_src2w = -src2w;
 
 		if (sets_signed || neg_src2w != 0 || (op & (SLJIT_SET_Z | VARIABLE_FLAG_MASK)) == 0) {
-			if (!sets_zero_overflow && is_s8(neg_src2w) && (src1 & SLJIT_MEM) && (dst == src1 && dstw == src1w)) {
+			/* The signed compare flags need the result in a register (see below). */
+			if (!sets_zero_overflow && (!sets_signed || (op & VARIABLE_FLAG_MASK) == SLJIT_SET_OVERFLOW)
+					&& is_s8(neg_src2w) && (src1 & SLJIT_MEM) && (dst == src1 && dstw == src1w)) {
 				if (sets_signed)
 					ins = (op & SLJIT_32) ? 0xeb000000006a /* asi */ : 0xeb000000007a /* agsi */;
 				else
-- 
2.43.0


From e3fb44ade9cd87f52c08c5fa9c4a5df54979fa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:19 +0000
Subject: [PATCH 96/96] fix: LOONGARCH: vector feature queries returned bit
 masks instead of 1

---
 sljit_src/sljitNativeLOONGARCH_64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 947d41a..7ece333 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -843,10 +843,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_has_cpu_feature(sljit_s32 feature_type)
 #endif
 
 	case SLJIT_HAS_LASX:
-		return (LOONGARCH_HWCAP_LASX & get_cpu_features(GET_HWCAP));
+		return (LOONGARCH_HWCAP_LASX & get_cpu_features(GET_HWCAP)) != 0;
 
 	case SLJIT_HAS_SIMD:
-		return (LOONGARCH_HWCAP_LSX & get_cpu_features(GET_HWCAP));
+		return (LOONGARCH_HWCAP_LSX & get_cpu_features(GET_HWCAP)) != 0;
 
 	case SLJIT_HAS_CLZ:
 	case SLJIT_HAS_CTZ:
-- 
2.43.0

