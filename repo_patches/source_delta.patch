From 19c5900050d89c398b7a379816fa969ce6214652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:56 +0000
Subject: [PATCH 01/63] fix: i64.clz, i64.ctz and i64.popcnt write the whole
 64-bit result

---
 pwart/extfunc.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index d7bce97..a2009ab 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -25,9 +25,9 @@ static void insn_i64clz(void *fp){
       x >>= 4, c -= 4;
     if (x >> 2)
       x >>= 2, c -= 2;
-    *(uint32_t *)fp = c - (x >> 1);
+    *(uint64_t *)fp = c - (x >> 1);
   } else {
-    *(uint32_t *)fp = 64;
+    *(uint64_t *)fp = 64;
   }
 }
 static void insn_i64ctz(void *fp){
@@ -46,9 +46,9 @@ static void insn_i64ctz(void *fp){
       x <<= 2, c -= 2;
     if (x << 1)
       c -= 1;
-    *(uint32_t *)fp = c;
+    *(uint64_t *)fp = c;
   } else {
-    *(uint32_t *)fp = 64;
+    *(uint64_t *)fp = 64;
   }
 }
 static void insn_i64popcount(void *fp){
@@ -56,7 +56,7 @@ static void insn_i64popcount(void *fp){
   x -= (x & 0xaaaaaaaaaaaaaaaaull) >> 1;
   x = (x & 0x3333333333333333ull) + ((x & 0xccccccccccccccccull) >> 2);
   x = ((x * 0x11) & 0xf0f0f0f0f0f0f0f0ull) >> 4;
-  *(uint32_t *)fp = (uint32_t)((x * 0x0101010101010101ull) >> 56);
+  *(uint64_t *)fp = (uint64_t)((x * 0x0101010101010101ull) >> 56);
 }
 
 static void insn_i32clz(void *fp){
-- 
2.43.0


From 99c58142aa4262c38b21dc63aae2f771d983c721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:57 +0000
Subject: [PATCH 02/63] fix: rotl/rotr by zero no longer shift by the operand
 width

---
 pwart/extfunc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index a2009ab..8db3821 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -191,26 +191,26 @@ static void insn_i32rotl(uint32_t *fp){
   uint32_t x = *fp;
   uint32_t y = *(fp + 1);
   y = y & 31;
-  *fp = (x << y) | (x >> (32 - y));
+  *fp = (x << y) | (x >> ((32 - y) & 31));
 }
 static void insn_i32rotr(uint32_t *fp){
   uint32_t x = *fp;
   uint32_t y = *(fp + 1);
   y = y & 31;
-  *fp = (x >> y) | (x << (32 - y));
+  *fp = (x >> y) | (x << ((32 - y) & 31));
 }
 
 static void insn_i64rotl(uint64_t *fp){
   uint64_t x = *fp;
   uint64_t y = *(fp + 1);
   y = y & 63;
-  *fp = (x << y) | (x >> (64 - y));
+  *fp = (x << y) | (x >> ((64 - y) & 63));
 }
 static void insn_i64rotr(uint64_t *fp){
   uint64_t x = *fp;
   uint64_t y = *(fp + 1);
   y = y & 63;
-  *fp = (x >> y) | (x << (64 - y));
+  *fp = (x >> y) | (x << ((64 - y) & 63));
 }
 static void insn_i64mul(uint64_t *fp){ *fp = (*fp) * (*(fp + 1)); }
 static void insn_i64divs(int64_t *fp){ *fp = (*fp) / (*(fp + 1)); }
-- 
2.43.0


From 523f63836dd410078e017e95c051bbc610c23543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:57 +0000
Subject: [PATCH 03/63] fix: f32.copysign and f64.copysign take the magnitude
 of the first operand

---
 pwart/extfunc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 8db3821..68a57df 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -228,7 +228,7 @@ static void insn_f32min(float *fp){
   *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
 }
 static void insn_f32copysign(float *fp){
-  *fp = signbit(*fp) ? -fabs(*(fp + 1)) : fabs(*(fp + 1));
+  *fp = signbit(*(fp + 1)) ? -fabs(*fp) : fabs(*fp);
 }
 
 static void insn_f64max(double *fp){
@@ -238,7 +238,7 @@ static void insn_f64min(double *fp){
   *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
 }
 static void insn_f64copysign(double *fp){
-  *fp = signbit(*fp) ? -fabs(*(fp + 1)) : fabs(*(fp + 1));
+  *fp = signbit(*(fp + 1)) ? -fabs(*fp) : fabs(*fp);
 }
 
 static void insn_i32truncf32u(uint32_t *fp){
-- 
2.43.0


From 292533920bf6af403fa2103c944b8a2b042ad253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:57 +0000
Subject: [PATCH 04/63] fix: f32/f64 min and max follow WebAssembly for NaN and
 signed zero

---
 pwart/extfunc.c | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 68a57df..4f93702 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -222,20 +222,52 @@ static void insn_i64shrs(int64_t *fp){ *fp = (*fp) >> (*(fp + 1)); }
 static void insn_i64shru(uint64_t *fp){ *fp = (*fp) >> (*(fp + 1)); }
 
 static void insn_f32max(float *fp){
-  *fp = (*fp) > *(fp + 1) ? (*fp) : *(fp + 1);
+  float a = *fp;
+  float b = *(fp + 1);
+  if (a != a || b != b) {
+    *fp = a + b; // NaN
+  } else if (a == b) {
+    *fp = signbit(a) ? b : a; // -0 < +0
+  } else {
+    *fp = a > b ? a : b;
+  }
 }
 static void insn_f32min(float *fp){
-  *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
+  float a = *fp;
+  float b = *(fp + 1);
+  if (a != a || b != b) {
+    *fp = a + b; // NaN
+  } else if (a == b) {
+    *fp = signbit(a) ? a : b; // -0 < +0
+  } else {
+    *fp = a < b ? a : b;
+  }
 }
 static void insn_f32copysign(float *fp){
   *fp = signbit(*(fp + 1)) ? -fabs(*fp) : fabs(*fp);
 }
 
 static void insn_f64max(double *fp){
-  *fp = (*fp) > *(fp + 1) ? (*fp) : *(fp + 1);
+  double a = *fp;
+  double b = *(fp + 1);
+  if (a != a || b != b) {
+    *fp = a + b; // NaN
+  } else if (a == b) {
+    *fp = signbit(a) ? b : a; // -0 < +0
+  } else {
+    *fp = a > b ? a : b;
+  }
 }
 static void insn_f64min(double *fp){
-  *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
+  double a = *fp;
+  double b = *(fp + 1);
+  if (a != a || b != b) {
+    *fp = a + b; // NaN
+  } else if (a == b) {
+    *fp = signbit(a) ? a : b; // -0 < +0
+  } else {
+    *fp = a < b ? a : b;
+  }
 }
 static void insn_f64copysign(double *fp){
   *fp = signbit(*(fp + 1)) ? -fabs(*fp) : fabs(*fp);
-- 
2.43.0


From b04aef375bbe3b1e9c091f3234a60bfeaf04a37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:57 +0000
Subject: [PATCH 05/63] fix: i64.extend16_s and i64.extend32_s extend 16 and 32
 bits, not 8

---
 pwart/opgen_num.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_num.c b/pwart/opgen_num.c
index 5cb9b74..7c43ed0 100644
--- a/pwart/opgen_num.c
+++ b/pwart/opgen_num.c
@@ -1294,7 +1294,7 @@ static void opgen_GenConvertOp(ModuleCompiler *m,int opcode){
                      sv->val.tworeg.opr2, 0, SLJIT_IMM, 31);
     } else {
       a = pwart_GetFreeReg(m, RT_INTEGER, 1);
-      sljit_emit_op1(m->jitc, SLJIT_MOV_S8, a, 0, sv->val.op, sv->val.opw);
+      sljit_emit_op1(m->jitc, SLJIT_MOV_S16, a, 0, sv->val.op, sv->val.opw);
       sv->val.op = a;
       sv->val.opw = 0;
     }
@@ -1307,7 +1307,7 @@ static void opgen_GenConvertOp(ModuleCompiler *m,int opcode){
                      sv->val.tworeg.opr1, 0, SLJIT_IMM, 31);
     } else {
       a = pwart_GetFreeReg(m, RT_INTEGER, 1);
-      sljit_emit_op1(m->jitc, SLJIT_MOV_S8, a, 0, sv->val.op, sv->val.opw);
+      sljit_emit_op1(m->jitc, SLJIT_MOV_S32, a, 0, sv->val.op, sv->val.opw);
       sv->val.op = a;
       sv->val.opw = 0;
     }
-- 
2.43.0


From e92d353aa3fc4325fd5970b84581641a36dcebcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:52 +0000
Subject: [PATCH 06/63] fix: i32 division loads an operand that is addressed
 through R0 or R1

---
 pwart/opgen_num.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pwart/opgen_num.c b/pwart/opgen_num.c
index 7c43ed0..fb31010 100644
--- a/pwart/opgen_num.c
+++ b/pwart/opgen_num.c
@@ -442,6 +442,13 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
       sv2 = &stack[m->sp];
       a = pwart_GetFreeReg(m, RT_INTEGER, 2);
     }
+    if (opcode >= 0x6d && opcode <= 0x70) {
+      // an operand addressed through R0/R1 is not the value held by R0/R1.
+      if (sv->jit_type == SVT_GENERAL && sv->val.op == SLJIT_MEM1(SLJIT_R0))
+        pwart_EmitStackValueLoadReg(m, sv);
+      if (sv2->jit_type == SVT_GENERAL && sv2->val.op == SLJIT_MEM1(SLJIT_R1))
+        pwart_EmitStackValueLoadReg(m, sv2);
+    }
     switch (opcode) {
     case 0x6a: // i32.add
       sljit_emit_op2(m->jitc, SLJIT_ADD32, a, 0, sv->val.op, sv->val.opw,
-- 
2.43.0


From 539f35a10a1c50464a351a81d68149ba9f43e496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:11 +0000
Subject: [PATCH 07/63] fix: operands reinterpreted in memory are seen by the
 local and register alias checks

---
 pwart/opgen_mem.c   | 4 ++--
 pwart/opgen_utils.c | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 629d9ed..66830e1 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -20,7 +20,7 @@ static void opgen_GenLocalSet(ModuleCompiler *m, uint32_t idx) {
   // check if local variable still on stack.
   for (int i = 0; i < m->sp; i++) {
     // XXX: If we use SLJIT_MEM(SLJIT_Sx), here need change.
-    if (stack[i].jit_type==SVT_GENERAL && stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
+    if (stack[i].jit_type==SVT_GENERAL && ((sv->val.op & SLJIT_MEM) || stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv)) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
       pwart_EmitSaveStack(m, &stack[i]);
     }
   }
@@ -36,7 +36,7 @@ static void opgen_GenLocalTee(ModuleCompiler *m, uint32_t idx) {
   // check if local variable still on stack.
   for (int i = 0; i < m->sp; i++) {
     // XXX: If we use SLJIT_MEM(SLJIT_Sx), here need change.
-    if (stack[i].jit_type==SVT_GENERAL && stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
+    if (stack[i].jit_type==SVT_GENERAL && ((sv->val.op & SLJIT_MEM) || stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv)) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
       pwart_EmitSaveStack(m, &stack[i]);
     }
   }
diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 5be0754..85027b7 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -83,7 +83,9 @@ static StackValue *stackvalue_FindSvalueUseReg(ModuleCompiler *m, sljit_s32 r,
   int i, used = 0;
   for (i = 0; i <= m->sp - upstack; i++) {
     sv = &m->stack[i];
-    if ((regtype == RT_FLOAT) != stackvalue_IsFloat(sv)) {
+    // the register of a memory operand is an integer register, even if the value is a float.
+    if ((regtype == RT_FLOAT) != (stackvalue_IsFloat(sv) &&
+        !(sv->jit_type == SVT_GENERAL && (sv->val.op & SLJIT_MEM)))) {
       continue;
     }
     if (sv->jit_type == SVT_GENERAL) {
-- 
2.43.0


From 1864cead290c16394f0f32c79e730886a992affc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:11 +0000
Subject: [PATCH 08/63] fix: only existing float registers are handed out

---
 pwart/opgen_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 85027b7..471926f 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -566,7 +566,7 @@ static sljit_s32 pwart_GetFreeReg(ModuleCompiler *m, sljit_s32 regtype, int upst
     }
   } else {
     for (fr = SLJIT_FR0;
-         fr <= SLJIT_FR0 + SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS; fr++) {
+         fr < SLJIT_FR0 + SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS; fr++) {
       if (m->float_registers_status[fr - SLJIT_FR0] & RS_RESERVED) {
         continue;
       }
-- 
2.43.0


From 24bc5008e63fa584744ac5b23c91c16c5be3b3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:31 +0000
Subject: [PATCH 09/63] fix: load and store offsets of 2^31 and more are not
 sign-extended

---
 pwart/opgen_mem.c   | 4 ++--
 pwart/opgen_utils.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 66830e1..f0d3b91 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -152,7 +152,7 @@ static void opgen_GenMemoryGrow(ModuleCompiler *m,uint32_t index) {
                      (sljit_sw)&insn_memorygrow);
 }
 
-static void opgen_GenI32Load(ModuleCompiler *m, int32_t opcode, int offset) {
+static void opgen_GenI32Load(ModuleCompiler *m, int32_t opcode, sljit_sw offset) {
   StackValue *sv=m->stack+m->sp;
   int a=pwart_GetFreeReg(m,RT_INTEGER,1);
   switch (opcode) {
@@ -235,7 +235,7 @@ static void opgen_GenI64Load(ModuleCompiler *m, int32_t opcode, sljit_sw offset)
   }
 }
 
-static void opgen_GenFloatLoad(ModuleCompiler *m, int32_t opcode, uint32_t offset) {
+static void opgen_GenFloatLoad(ModuleCompiler *m, int32_t opcode, sljit_sw offset) {
   StackValue *sv=NULL;
   int a=m->stack[m->sp].val.op;
   m->sp--;
diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 471926f..8e6e20e 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -113,7 +113,7 @@ static StackValue *stackvalue_FindSvalueUseReg(ModuleCompiler *m, sljit_s32 r,
 }
 
 static char *pwart_EmitStoreStackValue(ModuleCompiler *m, StackValue *sv, int memreg,
-                                     int offset) {
+                                     sljit_sw offset) {
   if (sv->jit_type == SVT_GENERAL) {
     if(memreg==sv->val.op && offset==sv->val.opw)return 0;
     if (m->target_ptr_size == 64) {
-- 
2.43.0


From bcff9d7b348cb8e196f3ebb297f1a63bba129ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:31 +0000
Subject: [PATCH 10/63] fix: the prepare pass reads the memory index before the
 offset, like the generator

---
 pwart/wagen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index 2a0a59f..f05d7ac 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -224,8 +224,8 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
     case 0x28:  case 0x29:  case 0x2a:  case 0x2b:  case 0x2c:  case 0x2d:  case 0x2e:  case 0x2f:  case 0x30:  case 0x31:  case 0x32:  case 0x33:  case 0x34:  case 0x35:  case 0x36:  case 0x37:  case 0x38:  case 0x39:  case 0x3a:  case 0x3b:  case 0x3c:  case 0x3d:  case 0x3e: 
       midx=0;
       arg = read_LEB(m->bytes, &m->pc, 32);
-      offset = read_LEB(m->bytes, &m->pc, 32);
       if(arg&0x40)midx=read_LEB(m->bytes, &m->pc, 32);
+      offset = read_LEB(m->bytes, &m->pc, 32);
       if(m->cached_midx<0 && (*dynarr_get(m->context->memories,Memory *,midx))->bytes!=NULL){
         m->mem_base_local = -2;
         m->cached_midx=midx;
-- 
2.43.0


From bc12d2d5b2dcedb5b856e4073b88bbd63d806d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 11/63] fix: f64 locals are zero-initialised over all 64 bits

---
 pwart/opgen_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 8e6e20e..de60af4 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -760,7 +760,7 @@ static char* pwart_EmitFuncEnter(ModuleCompiler *m) {
         opgen_GenF32Const(m,(uint8_t *)&f32zero);
         break;
         case WVT_F64:
-        opgen_GenF32Const(m,(uint8_t *)&f64zero);
+        opgen_GenF64Const(m,(uint8_t *)&f64zero);
         break;
         case WVT_I32:
         opgen_GenI32Const(m,0);
-- 
2.43.0


From d3c5e999f8cb8906156c878fa042c68024203b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 12/63] fix: sign extension of LEB128 values beyond 32 bits

---
 pwart/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/util.c b/pwart/util.c
index 2bcd459..a9801cc 100644
--- a/pwart/util.c
+++ b/pwart/util.c
@@ -89,7 +89,7 @@ static uint64_t read_LEB_(uint8_t *bytes, uint32_t *pos, uint32_t maxbits, int s
     }
     if (sign && (shift < maxbits) && (byte & 0x40)) {
         // Sign extend
-        result |= - (1 << shift);
+        result |= - ((uint64_t)1 << shift);
     }
     return result;
 }
-- 
2.43.0


From f5c02fbd4969199c43cd63d88d6c5147a54bf9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:39 +0000
Subject: [PATCH 13/63] fix: functions using only table.copy/table.fill on
 table 0 get its entries base

---
 pwart/wagen.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index f05d7ac..da85c8d 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -255,6 +255,16 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
         if(sv->val.op>m->blocks->len)sv->val.op=m->blocks->len;
       }
       break;
+    case 0xfc: // misc prefix
+      if(bytes[m->pc]==0x0e || bytes[m->pc]==0x11){
+        // table.copy and table.fill need the entries of table 0, like table.get
+        uint32_t pos=m->pc+1;
+        if(read_LEB(bytes, &pos, 32)==0)m->table_entries_local = -2;
+        if(bytes[m->pc]==0x0e && read_LEB(bytes, &pos, 32)==0)m->table_entries_local = -2;
+      }
+      m->pc--;
+      wasm_SkipImmediates(m->bytes, &m->pc);
+      break;
     default:
       m->pc--;
       wasm_SkipImmediates(m->bytes, &m->pc);
-- 
2.43.0


From 15a47e5675d9484a4d0aa3d408818b96e1c81e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:40 +0000
Subject: [PATCH 14/63] fix: memory.fill passes a 32-bit count also for 64-bit
 memories

---
 pwart/opgen_mem.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index f0d3b91..ac2d821 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -450,6 +450,10 @@ static void opgen_GenMemoryFill(ModuleCompiler *m,int midx){
   sv2 = sv=m->stack+m->sp-2;    //n;
   sv = stackvalue_PushStackValueLike(m, sv2);
   sv2->jit_type=SVT_DUMMY;
+  if(sv->wasm_type==WVT_I64){
+    //count is limited to 32bit, like memory.copy
+    opgen_GenNumOp(m,0xa7);//i32.wrap_i64
+  }
 
   opgen_GenRefNull(m,0);
   opgen_GenI32Const(m,0);
-- 
2.43.0


From 294656e1b2889399d860af3e56bce825f8ad2e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:23 +0000
Subject: [PATCH 15/63] fix: tail call arguments no longer overwrite values
 still read from the frame

The arguments of return_call are placed at the start of the frame, where the
parameters and locals live. Arguments that still refer to a local are saved
first, and the layout is the one of the callee whatever the alignment flag.
---
 pwart/opgen_utils.c | 47 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index de60af4..b06471a 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -360,6 +360,18 @@ static void stackvalue_EmitSwapTopTwoValue(ModuleCompiler *m) {
 }
 
 
+//Save the values in sv[0..len) that are still read from the locals area of the frame to their own place,
+//so writing this area will not overwrite them.
+static void pwart_EmitSaveLowStackValue(ModuleCompiler *m, StackValue *sv, int len) {
+  int i;
+  for (i = 0; i < len; i++, sv++) {
+    if (sv->jit_type == SVT_GENERAL && sv->val.op == SLJIT_MEM1(SLJIT_S0) &&
+        sv->val.opw < m->first_stackvalue_offset) {
+      pwart_EmitSaveStack(m, sv);
+    }
+  }
+}
+
 static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg,
                               sljit_sw offset,int callReturn) {
   StackValue *sv;
@@ -383,37 +395,46 @@ static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg
   }
   sv = m->stack+m->sp + 1; // first argument
 
-  if((pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN) && ((sv->frame_offset&7)>0)){
-    //XXX: move stack value to align frame to 8 ,we should avoid this happen.
-    sv->frame_offset+=4;
+  if(callReturn){
+    //tail call
     if(len>0){
+      //arguments read from the frame are saved first, to avoid overwriting them.
+      pwart_EmitSaveLowStackValue(m,sv,len);
+      sv->frame_offset=0;
+      pwart_EmitSaveStack(m,sv);
       b=sv->frame_offset+stackvalue_GetSizeAndAlign(sv,NULL);
       m->sp+=len;
       for(a=1;a<len;a++){
         sv++;
-        sv->frame_offset = stackvalue_GetAlignedOffset(sv,b,&b);
-      }
-      //re-save stackvalue from last to head, to avoid stack overwriting
-      sv=m->stack+m->sp;
-      for(a=0;a<len;a++){
+        if(pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN){
+          sv->frame_offset = stackvalue_GetAlignedOffset(sv,b,&b);
+        }else{
+          sv->frame_offset = b;
+          b += stackvalue_GetSizeAndAlign(sv,NULL);
+        }
         pwart_EmitSaveStack(m,sv);
-        sv--;
       }
       //move sp back
       m->sp-=len;
       sv=m->stack+m->sp+1; // first argument
+    }else{
+      sv->frame_offset=0;
     }
-  }else if(callReturn){
-    //tail call
-    sv->frame_offset=0;
+  }else if((pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN) && ((sv->frame_offset&7)>0)){
+    //XXX: move stack value to align frame to 8 ,we should avoid this happen.
+    sv->frame_offset+=4;
     if(len>0){
-      pwart_EmitSaveStack(m,sv);
       b=sv->frame_offset+stackvalue_GetSizeAndAlign(sv,NULL);
       m->sp+=len;
       for(a=1;a<len;a++){
         sv++;
         sv->frame_offset = stackvalue_GetAlignedOffset(sv,b,&b);
+      }
+      //re-save stackvalue from last to head, to avoid stack overwriting
+      sv=m->stack+m->sp;
+      for(a=0;a<len;a++){
         pwart_EmitSaveStack(m,sv);
+        sv--;
       }
       //move sp back
       m->sp-=len;
-- 
2.43.0


From 1ec71da793994b3ba483e44fe651aef3f16f79f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:23 +0000
Subject: [PATCH 16/63] fix: returning several values no longer overwrites
 results still read from locals

---
 pwart/opgen_utils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index b06471a..1d75f25 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -504,6 +504,10 @@ static char *pwart_EmitFuncReturn(ModuleCompiler *m) {
     /* maybe unreachable code, Do nothing */
     return NULL;
   }
+  if(len>1){
+    //results read from the frame are saved first, to avoid overwriting them.
+    pwart_EmitSaveLowStackValue(m,&m->stack[m->sp-len+1],len);
+  }
   for (idx = 0; idx < len; idx++) {
     sv = &m->stack[m->sp - len + idx + 1];
     if(pwart_gcfg.stack_flags & PWART_STACK_FLAGS_AUTO_ALIGN){
-- 
2.43.0


From f1f5ecead13bd73f31f90e676eb69bcf4d9bab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:24 +0000
Subject: [PATCH 17/63] fix: results of a call with a moved frame are put back
 to their own stack place

With stack alignment the callee frame may start 4 bytes after the place of the
first argument. The results stayed there, while the code of another path, or
the value at a block end, expects them at the regular place.
---
 pwart/opgen_utils.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 1d75f25..19ff21c 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -463,15 +463,20 @@ static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg
     m->block_returned=1;
   }
   len = strlen((const char *)type->results);
+  i = func_frame_offset;
   for (a = 0; a < len; a++) {
     b = type->results[a];
     sv = stackvalue_Push(m, b);
     sv->jit_type = SVT_GENERAL;
     sv->val.op = SLJIT_MEM1(SLJIT_S0);
-    if(a==0){
-      sv->frame_offset=func_frame_offset;
+    if(pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN){
+      sv->val.opw = stackvalue_GetAlignedOffset(sv,i,&i);
+    }else{
+      sv->val.opw = i;
+      i += stackvalue_GetSizeAndAlign(sv,NULL);
     }
-    sv->val.opw = sv->frame_offset;
+    //if the callee frame has been moved, move the result back to its own place.
+    pwart_EmitSaveStack(m,sv);
   }
   
   if((m->mem_base_local >= 0)){
-- 
2.43.0


From f8631e4b6b802cf0cdd697d30debffb9ff70f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 18/63] fix: br, br_if and br_table to the label of the
 function return from it

---
 pwart/opgen_ctl.c | 54 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index e5325c4..bd0c7a8 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -122,6 +122,19 @@ static void opgen_GenEnd(ModuleCompiler *m) {
   #endif
 }
 
+//Emit a unconditional jump to the label of the block, or the return if the block is the function.
+static void pwart_EmitBranch(ModuleCompiler *m, Block *block) {
+  if (block->block_type == 0x00) {
+    // function
+    pwart_EmitFuncReturn(m);
+  } else if (block->br_label != NULL) {
+    sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_JUMP), block->br_label);
+  } else {
+    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
+        sljit_emit_jump(m->jitc, SLJIT_JUMP);
+  }
+}
+
 static void opgen_GenBr(ModuleCompiler *m, int32_t depth) {
   Block *block;
   pwart_EmitSaveStackAll(m);
@@ -130,13 +143,8 @@ static void opgen_GenBr(ModuleCompiler *m, int32_t depth) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-  if (block->br_label != NULL) {
-    sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_JUMP), block->br_label);
-  } else {
-    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-        sljit_emit_jump(m->jitc, SLJIT_JUMP);
-  }
-  if(block->block_type==0x2 || block->block_type==0x4){
+  pwart_EmitBranch(m, block);
+  if(block->block_type!=0x3){
     m->block_returned=1;
   }
 }
@@ -144,6 +152,7 @@ static void opgen_GenBr(ModuleCompiler *m, int32_t depth) {
 static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
   StackValue *sv;
   Block *block;
+  struct sljit_jump *jump;
   StackValue *stack = m->stack;
   sv = &stack[m->sp];
   // stack top will be remove soon. Don't save it here.
@@ -156,6 +165,21 @@ static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
+  if (block->block_type == 0x00) {
+    // function, skip the return if the condition is not met.
+    if (sv->jit_type == SVT_CMP) {
+      jump = sljit_emit_jump(m->jitc, sv->val.cmp.flag^0x1);
+    } else {
+      // sljit_emit_cmp always use machine word length, So load to register first.
+      pwart_EmitStackValueLoadReg(m, sv);
+      jump = sljit_emit_cmp(m->jitc, SLJIT_EQUAL, sv->val.op, sv->val.opw,
+                            SLJIT_IMM, 0);
+    }
+    m->sp--;
+    pwart_EmitBranch(m, block);
+    sljit_set_label(jump, sljit_emit_label(m->jitc));
+    return;
+  }
   if (sv->jit_type == SVT_CMP) {
     if (block->br_label != NULL) {
       sljit_set_label(sljit_emit_jump(m->jitc, sv->val.cmp.flag),
@@ -186,6 +210,7 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
   int a, count;
   Block *block;
   StackValue *sv;
+  struct sljit_jump *jump;
   sv=m->stack+m->sp;
   count = m->br_table->len-1;
   for (int i = 0; i < m->sp; i++) {
@@ -197,6 +222,7 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   pwart_EmitStackValueLoadReg(m, sv);
+  m->sp--;
   for (a = 0; a < count; a++) {
     depth = *dynarr_get(m->br_table, uint32_t, a);
     block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
@@ -207,7 +233,11 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
       sljit_emit_op2(m->jitc, SLJIT_SUB32 | SLJIT_SET_Z, sv->val.op,
                      sv->val.opw, sv->val.op, sv->val.opw, SLJIT_IMM, 1);
     }
-    if (block->br_label != NULL) {
+    if (block->block_type == 0x00) {
+      jump = sljit_emit_jump(m->jitc, SLJIT_NOT_ZERO);
+      pwart_EmitBranch(m, block);
+      sljit_set_label(jump, sljit_emit_label(m->jitc));
+    } else if (block->br_label != NULL) {
       sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_ZERO), block->br_label);
     } else {
       *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
@@ -218,13 +248,7 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
   // default
   depth = *dynarr_get(m->br_table, uint32_t, count);
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-  if (block->br_label != NULL) {
-    sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_JUMP), block->br_label);
-  } else {
-    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-        sljit_emit_jump(m->jitc, SLJIT_JUMP);
-  }
-  m->sp--;
+  pwart_EmitBranch(m, block);
 }
 
 static void opgen_GenReturn(ModuleCompiler *m) {
-- 
2.43.0


From 677cb511552ad73f93c1be4a42c509831a86b6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 19/63] fix: br_table does not change its index operand, which
 may be a local, and compares 32 bits

---
 pwart/opgen_ctl.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index bd0c7a8..eb6de66 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -226,13 +226,9 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
   for (a = 0; a < count; a++) {
     depth = *dynarr_get(m->br_table, uint32_t, a);
     block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-    if (a == 0) {
-      sljit_emit_op2u(m->jitc, SLJIT_AND | SLJIT_SET_Z, sv->val.op, sv->val.opw,
-                      sv->val.op, sv->val.opw);
-    } else {
-      sljit_emit_op2(m->jitc, SLJIT_SUB32 | SLJIT_SET_Z, sv->val.op,
-                     sv->val.opw, sv->val.op, sv->val.opw, SLJIT_IMM, 1);
-    }
+    // compare only 32 bit, and keep the index, which may be in the register of a local.
+    sljit_emit_op2u(m->jitc, SLJIT_SUB32 | SLJIT_SET_Z, sv->val.op, sv->val.opw,
+                    SLJIT_IMM, a);
     if (block->block_type == 0x00) {
       jump = sljit_emit_jump(m->jitc, SLJIT_NOT_ZERO);
       pwart_EmitBranch(m, block);
-- 
2.43.0


From aa845cf0b6197930e456c98bef653062cb7928d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 20/63] fix: a branch with a result moves it over the operands
 it discards

br, br_if and br_table left the block result where it was on the operand stack,
although operands below it are dropped, and the type of the entry after the
block end was the one of whatever was there last.
---
 pwart/def.h       |  1 +
 pwart/opgen_ctl.c | 45 ++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index f0cfee0..a94b4e8 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -67,6 +67,7 @@ typedef struct Block {
                               // 0x02: block, 0x03: loop, 0x04: if
     int8_t     stack_offset;  //stack offset after block end.
     int16_t    saved_sp;      //sp when enter block.
+    uint8_t    result_type;   //type of the value on stack top after block end, if stack_offset>0.
     //Type      *type;           params/results type
     struct sljit_jump *else_jump;     // if block only
     struct sljit_label *br_label;       // blocks only
diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index eb6de66..73c3429 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -19,6 +19,7 @@ static void opgen_GenBlock(ModuleCompiler *m,int stackOffset) {
   block->else_jump = NULL;
   block->stack_offset=stackOffset;
   block->saved_sp=m->sp;
+  block->result_type=m->bytes[m->pc-1];
   #if PWART_DEBUG_RUNTIME_PROBE
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
@@ -33,6 +34,7 @@ static void opgen_GenLoop(ModuleCompiler *m,int stackOffset) {
   block->br_label = sljit_emit_label(m->jitc);
   block->stack_offset=stackOffset;
   block->saved_sp=m->sp;
+  block->result_type=m->bytes[m->pc-1];
   #if PWART_DEBUG_RUNTIME_PROBE
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
@@ -70,6 +72,7 @@ static void opgen_GenIf(ModuleCompiler *m,int stackOffset) {
   m->sp--;
   block->stack_offset=stackOffset;
   block->saved_sp=m->sp;
+  block->result_type=m->bytes[m->pc-1];
   
 }
 
@@ -90,6 +93,7 @@ static void opgen_GenElse(ModuleCompiler *m) {
 
 static void opgen_GenEnd(ModuleCompiler *m) {
   struct sljit_jump *sj;
+  StackValue *sv;
   Block *block = dynarr_pop_type(&m->blocks, Block);
   int a;
   if (block->block_type == 0x2 || block->block_type == 0x4) {
@@ -112,6 +116,13 @@ static void opgen_GenEnd(ModuleCompiler *m) {
     m->eof = 1;
   } 
   m->sp=block->saved_sp+block->stack_offset;
+  if (block->block_type != 0x3 && block->stack_offset > 0) {
+    // the result come from a branch or the block end, both have saved it.
+    m->sp=block->saved_sp;
+    sv=stackvalue_Push(m,block->result_type);
+    sv->val.op=SLJIT_MEM1(SLJIT_S0);
+    sv->val.opw=sv->frame_offset;
+  }
   if (block->br_jump != NULL) {
     dynarr_free(&block->br_jump);
   }
@@ -122,12 +133,33 @@ static void opgen_GenEnd(ModuleCompiler *m) {
   #endif
 }
 
-//Emit a unconditional jump to the label of the block, or the return if the block is the function.
+//Check if a branch to the block need more than a jump. 1 if the block is the function, 
+//or if the value on stack top is the block result, but not on the place of the block result.
+static int pwart_BranchNeedCode(ModuleCompiler *m, Block *block) {
+  if (block->block_type == 0x00) return 1;
+  return block->block_type != 0x3 && block->stack_offset > 0 && m->sp > block->saved_sp + 1;
+}
+
+//Emit a unconditional branch to the label of the block, or the return if the block is the function.
 static void pwart_EmitBranch(ModuleCompiler *m, Block *block) {
+  StackValue sv;
+  int sp;
   if (block->block_type == 0x00) {
     // function
     pwart_EmitFuncReturn(m);
-  } else if (block->br_label != NULL) {
+    return;
+  }
+  if (pwart_BranchNeedCode(m, block)) {
+    // drop the values between block enter and the result.
+    sp = m->sp;
+    sv = m->stack[block->saved_sp + 1];
+    m->sp = block->saved_sp;
+    pwart_EmitStoreStackValue(m, &m->stack[sp], SLJIT_MEM1(SLJIT_S0),
+                              stackvalue_Push(m, m->stack[sp].wasm_type)->frame_offset);
+    m->stack[block->saved_sp + 1] = sv;
+    m->sp = sp;
+  }
+  if (block->br_label != NULL) {
     sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_JUMP), block->br_label);
   } else {
     *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
@@ -165,8 +197,9 @@ static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-  if (block->block_type == 0x00) {
-    // function, skip the return if the condition is not met.
+  m->sp--;
+  if (pwart_BranchNeedCode(m, block)) {
+    // skip the branch if the condition is not met.
     if (sv->jit_type == SVT_CMP) {
       jump = sljit_emit_jump(m->jitc, sv->val.cmp.flag^0x1);
     } else {
@@ -175,7 +208,6 @@ static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
       jump = sljit_emit_cmp(m->jitc, SLJIT_EQUAL, sv->val.op, sv->val.opw,
                             SLJIT_IMM, 0);
     }
-    m->sp--;
     pwart_EmitBranch(m, block);
     sljit_set_label(jump, sljit_emit_label(m->jitc));
     return;
@@ -202,7 +234,6 @@ static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
   } else {
     SLJIT_UNREACHABLE();
   }
-  m->sp--;
 }
 
 static void opgen_GenBrTable(ModuleCompiler *m) {
@@ -229,7 +260,7 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
     // compare only 32 bit, and keep the index, which may be in the register of a local.
     sljit_emit_op2u(m->jitc, SLJIT_SUB32 | SLJIT_SET_Z, sv->val.op, sv->val.opw,
                     SLJIT_IMM, a);
-    if (block->block_type == 0x00) {
+    if (pwart_BranchNeedCode(m, block)) {
       jump = sljit_emit_jump(m->jitc, SLJIT_NOT_ZERO);
       pwart_EmitBranch(m, block);
       sljit_set_label(jump, sljit_emit_label(m->jitc));
-- 
2.43.0


From a65e45ed23dc6c99d31df7af3cc51d9ad5f38f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:00 +0000
Subject: [PATCH 21/63] fix: f32.copysign keeps the bits of a NaN, by not going
 through double

---
 pwart/extfunc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 4f93702..e4198ca 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -244,7 +244,7 @@ static void insn_f32min(float *fp){
   }
 }
 static void insn_f32copysign(float *fp){
-  *fp = signbit(*(fp + 1)) ? -fabs(*fp) : fabs(*fp);
+  *fp = signbit(*(fp + 1)) ? -fabsf(*fp) : fabsf(*fp);
 }
 
 static void insn_f64max(double *fp){
-- 
2.43.0


From 747f020c32fb09d8ebf4c3fe939f143fe94836d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:43 +0000
Subject: [PATCH 22/63] fix: fixed memories are allocated up to the maximum
 that memory.grow hands out

---
 pwart/modparser.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index f1f40c3..6ec1d60 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -328,11 +328,11 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 Memory *memory=m->context->own_memories+i;
                 parse_memory_type(m, &pos,memory);
                 //XXX: custom memory creator?
-                if(memory->fixed){
-                    memory->bytes = wa_calloc(memory->initial*PAGE_SIZE);
-                }else{
-                    memory->bytes = wa_calloc(memory->maximum*PAGE_SIZE);
-                }
+                // a fixed memory is never moved, so it needs its maximum size from the beginning.
+                // bytes must not be NULL, even if the size is 0, NULL means native memory.
+                size_t mem_size=(size_t)(memory->fixed?memory->maximum:memory->initial)*PAGE_SIZE;
+                memory->bytes = wa_calloc(mem_size>0?mem_size:1);
+                if(memory->bytes==NULL){return "allocate memory failed";}
                 *dynarr_push_type(&m->context->memories,Memory *)=memory;
             }
         }
-- 
2.43.0


From 8d62161a070d7a05f256d54b15c8e00198d641ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:43 +0000
Subject: [PATCH 23/63] fix: memory.grow compares page counts without 32-bit
 overflow and keeps the memory if it can not be enlarged

---
 pwart/extfunc.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index e4198ca..2352ad5 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -324,16 +324,21 @@ static void insn_memorygrow(void *fp){
   uint32_t index=pwart_rstack_get_i32(&sp); // memory index
   RuntimeContext *m=pwart_rstack_get_ref(&sp);
   Memory *mem=*dynarr_get(m->memories,Memory *,index);
-  int32_t prev_pages = mem->pages;
-  if (delta + prev_pages > mem->maximum) {
+  uint32_t prev_pages = mem->pages;
+  uint64_t new_pages = (uint64_t)prev_pages + delta;
+  uint8_t *bytes = mem->bytes;
+  if (new_pages <= mem->maximum && !mem->fixed && delta > 0) {
+    bytes = wa_realloc(mem->bytes, (size_t)new_pages * PAGE_SIZE);
+  }
+  if (new_pages > mem->maximum || (bytes == NULL && !mem->fixed)) {
     sp=fp;
     pwart_rstack_put_i32(&sp,-1);
     return;
   }
-  mem->pages += delta;
+  mem->bytes = bytes;
+  mem->pages = new_pages;
   if(!mem->fixed){
-    mem->bytes = wa_realloc(mem->bytes, mem->pages * PAGE_SIZE);
-    memset(mem->bytes+prev_pages*PAGE_SIZE,0,delta*PAGE_SIZE);
+    memset(mem->bytes+(size_t)prev_pages*PAGE_SIZE,0,(size_t)delta*PAGE_SIZE);
   }
   sp=fp;
   pwart_rstack_put_i32(&sp,prev_pages);
-- 
2.43.0


From bd86ba932d510154106d4f412d050df872f14792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 24/63] fix: ref.null in a constant expression consumes its
 heap type

---
 pwart/extfunc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 2352ad5..88e0f09 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -560,6 +560,7 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
         }
       } break;
       case 0xd0: //ref.null
+        read_LEB(m->bytes, &m->pc, 32); // heap type
         *(void **)sp=NULL;
         sp+=m->target_ptr_size/8;
         break;
-- 
2.43.0


From 81cd7060d708d2f095192b5214a8928840a8a861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 25/63] fix: the result of a constant expression no longer
 overflows its buffer

---
 pwart/extfunc.c   | 6 ++++++
 pwart/modparser.c | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 88e0f09..004b6cc 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -524,6 +524,9 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
   void *sp=&stack;
   int eof=0;
   while(m->pc<=m->byte_count && !eof){
+    if(sp>=(void *)(stack+15)){
+      return "const expr too complex";
+    }
     opcode=m->bytes[m->pc];
     m->pc++;
     switch (opcode) {
@@ -631,6 +634,9 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
   if(m->bytes[m->pc]!=0xb){
     return "const expr miss end instruction.";
   }
+  if(sp-(void *)stack>8){
+    return "const expr should have one result";
+  }
   memcpy(result,&stack,sp-(void *)stack);
   m->pc++;
   return NULL;
diff --git a/pwart/modparser.c b/pwart/modparser.c
index 6ec1d60..a4100c1 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -429,7 +429,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             for(uint32_t c=0; c<element_count; c++) {
                 uint32_t flags = read_LEB(bytes, &pos, 32);
                 uint32_t index=0;
-                uint32_t offset;
+                uint64_t offset=0;  //const expr may have 64bit result
                 void *elem_expr;
                 switch(flags){
                     case 0:case 4:
@@ -471,7 +471,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             for (uint32_t s=0; s<seg_count; s++) {
                 uint32_t flags = read_LEB(bytes, &pos, 32);
                 uint32_t midx;
-                uint32_t offset;
+                uint64_t offset=0;  //const expr may have 64bit result
                 switch(flags){
                     case 0:  //active
                     midx=0;
-- 
2.43.0


From c9992459bc3dc6026eeb559f72f9e1a606d0156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 26/63] fix: pwart_inspect_module_state fills every field for
 modules without table or memory

---
 pwart/modparser.c | 2 +-
 pwart/pwart.c     | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index a4100c1..133b376 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -348,7 +348,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 // TODO: use mutability
                 uint8_t mutability = read_LEB(bytes, &pos, 1);
                 (void)mutability;
-                uint64_t result;
+                uint64_t result=0;
                 uint32_t gidx = m->globals->len;
                 sv=dynarr_push_type(&m->globals,StackValue);
                 sv->wasm_type=type;
diff --git a/pwart/pwart.c b/pwart/pwart.c
index 917c341..14d139e 100644
--- a/pwart/pwart.c
+++ b/pwart/pwart.c
@@ -104,6 +104,10 @@ extern pwart_module_state pwart_get_module_state(pwart_module_compiler mod){
 
 extern char *pwart_inspect_module_state(pwart_module_state c,struct pwart_inspect_result1 *result){
     RuntimeContext *rc=c;
+    result->table_entries_count=0;
+    result->table_entries=NULL;
+    result->memory_size=0;
+    result->memory=NULL;
     if(rc->tables->len>0){
         Table *tab=*dynarr_get(rc->tables,Table *,0);
         result->table_entries_count=tab->size;
-- 
2.43.0


From b2f1c6f22462cbe92acce54f8277da0d94272bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 27/63] fix: element segments of every kind are decoded and
 imported tables get real function entries

---
 pwart/modparser.c | 109 +++++++++++++++++++++++++---------------------
 1 file changed, 59 insertions(+), 50 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 133b376..98ad6d3 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -72,10 +72,65 @@ static Export *get_export(RuntimeContext *rc, const char *name, uint32_t *kind)
 }
 
 
+// The result of ref.func is a WasmFunction until the function is compiled, return the real entry of it.
+static void *resolve_funcref(ModuleCompiler *m,void *ref){
+    uint8_t *p=ref;
+    if(p>=m->functions->data && p<m->functions->data+m->functions->len*sizeof(WasmFunction)){
+        return ((WasmFunction *)ref)->func_ptr;
+    }
+    return ref;
+}
+
+// Load the element section at pos. All functions must have been compiled.
+static char *load_elements(ModuleCompiler *m,uint32_t pos){
+    uint8_t *bytes=m->bytes;
+    uint32_t element_count = read_LEB(bytes, &pos, 32);
+    for(uint32_t c=0; c<element_count; c++) {
+        uint32_t flags = read_LEB(bytes, &pos, 32);
+        uint32_t index=0;
+        uint64_t offset=0;  //const expr may have 64bit result
+        Table *dtab=NULL;
+        if(flags>7){
+            return "Illegal segment flags.";
+        }
+        //bit 0: passive or declared, bit 1: explicit table index (if active), bit 2: elements are expressions.
+        if(!(flags&1)){
+            if(flags&2){
+                index=read_LEB(bytes, &pos, 32);
+            }
+            m->pc=pos;ReturnIfErr(waexpr_run_const(m,&offset));pos=m->pc;
+            offset=(uint32_t)offset;
+            dtab=*dynarr_get(m->context->tables,Table *,index);
+        }
+        if(flags&3){
+            pos++; //extern_kind or reference type, ignored.
+        }
+        uint32_t num_elem = read_LEB(bytes, &pos, 32);
+        if(dtab!=NULL && offset+num_elem>dtab->size){
+            return "element segment out of table bounds";
+        }
+        for (uint32_t n=0; n<num_elem; n++) {
+            void *elem=NULL;
+            if(flags&4){
+                m->pc=pos;ReturnIfErr(waexpr_run_const(m,&elem));pos=m->pc;
+                elem=resolve_funcref(m,elem);
+            }else{
+                elem=dynarr_get(m->functions,WasmFunction,read_LEB(bytes, &pos, 32))->func_ptr;
+            }
+            if(dtab!=NULL){
+                wa_debug("  write table entries %p, offset: 0x%x, n: 0x%x\n",dtab->entries, (uint32_t)offset, n);
+                dtab->entries[offset+n] = elem;
+            }
+        }
+    }
+    return NULL;
+}
+
 static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count) {
     uint8_t   vt;
     char err;
     uint32_t  pos = 0, word;
+    uint32_t  elem_pos = 0; //content of the element section, 0 if no such section.
     m->compile_succeeded=0;
 
     // Allocate the module
@@ -425,43 +480,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             break;
         case 9:
             wa_debug("Parsing Element(9) section (length: 0x%x)\n", slen);
-            uint32_t element_count = read_LEB(bytes, &pos, 32);
-            for(uint32_t c=0; c<element_count; c++) {
-                uint32_t flags = read_LEB(bytes, &pos, 32);
-                uint32_t index=0;
-                uint64_t offset=0;  //const expr may have 64bit result
-                void *elem_expr;
-                switch(flags){
-                    case 0:case 4:
-                    index=0;
-                    // Run the init_expr to get offset
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&offset));pos=m->pc;
-                    break;
-                    case 1:case 3:
-                    index=0;
-                    pos++; //extern_kind, ignored.
-                    break;
-                    case 2:
-                    index=read_LEB(bytes, &pos, 32);
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&offset));pos=m->pc;
-                    pos++;
-                    break;
-                    case 6:
-                    index=read_LEB(bytes, &pos, 32);
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&elem_expr));pos=m->pc;
-                    case 5:case 7:
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&elem_expr));pos=m->pc;
-                }
-                
-                uint32_t num_elem = read_LEB(bytes, &pos, 32);
-                Table *dtab=*dynarr_get(m->context->tables,Table *,index);
-                wa_debug("  table.entries: %p, offset: 0x%x\n", dtab->entries, offset);
-                for (uint32_t n=0; n<num_elem; n++) {
-                    wa_debug("  write table entries %p, offset: 0x%x, n: 0x%x, addr: %p\n",
-                            dtab->entries, offset, n, &dtab->entries[offset+n]);
-                    dtab->entries[offset+n] = dynarr_get(m->functions,WasmFunction,read_LEB(bytes, &pos, 32));
-                }
-            }
+            //function entries are not known until the code section is compiled.
+            elem_pos = pos;
             pos = start_pos+slen;
             break;
         // 9 and 11 are similar so keep them together, 10 is below 11
@@ -558,19 +578,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     for(int i=0;i<m->functions->len;i++){
         m->context->funcentries[i]=dynarr_get(m->functions,WasmFunction,i)->func_ptr;
     }
-    wa_debug("table count %x\n",m->context->own_tables_count);
-    //update table entries to real function entries.
-    for(int i1=0;i1<m->context->own_tables_count;i1++){
-        Table *tab=m->context->own_tables+i1;
-        wa_debug("table type %x\n",tab->elem_type);
-        if(tab->elem_type==WVT_FUNC){
-            for(int i=0;i<tab->size;i++){
-                if(tab->entries[i]!=NULL){
-                    wa_debug("function entry update:%p->%p\n",tab->entries[i],((WasmFunction *)tab->entries[i])->func_ptr);
-                    tab->entries[i]=((WasmFunction *)tab->entries[i])->func_ptr;
-                }
-            }
-        }
+    if(elem_pos!=0){
+        ReturnIfErr(load_elements(m,elem_pos));
     }
 
     //also exports.
-- 
2.43.0


From a5c8ce5953e241ce1cc28cf2d4efb51e568a457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 28/63] fix: globals initialised by ref.func hold the callable
 function

---
 pwart/modparser.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 98ad6d3..e3e498d 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -582,6 +582,15 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
         ReturnIfErr(load_elements(m,elem_pos));
     }
 
+    //also globals initialized by ref.func.
+    for(int i=0;i<m->globals->len;i++){
+        StackValue *sv=dynarr_get(m->globals,StackValue,i);
+        uint8_t *addr=(uint8_t *)sv->val.opw;
+        if(sv->wasm_type==WVT_FUNC && addr>=m->context->own_globals->data && addr<m->context->own_globals->data+m->context->own_globals->len){
+            *(void **)addr=resolve_funcref(m,*(void **)addr);
+        }
+    }
+
     //also exports.
     for(int i1=0;i1<m->context->exports->len;i1++){
         Export *exp=dynarr_get(m->context->exports,Export,i1);
-- 
2.43.0


From 632f0545bf5768a6a15141bb01e5410d668a2eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 29/63] fix: modules without code section, failed compiles and
 unused compilers are released and linked correctly

---
 pwart/modparser.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index e3e498d..7a6541a 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -526,7 +526,12 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             uint32_t body_count = read_LEB(bytes, &pos, 32);
             //we must allocate space for function entries here, for code generator.
             m->context->funcentries_count=m->import_count+body_count;
-            m->context->funcentries=wa_malloc(m->context->funcentries_count*sizeof(WasmFunctionEntry));
+            if(m->context->funcentries_count!=m->functions->len){
+                m->context->funcentries_count=0;
+                return "function and code section have inconsistent lengths";
+            }
+            m->context->import_funcentries_count=m->import_count;
+            m->context->funcentries=wa_calloc(m->context->funcentries_count*sizeof(WasmFunctionEntry));
             for (uint32_t b=0; b<body_count; b++) {
                 wa_debug("generate code for function %d\n",b);
                 WasmFunction *function = dynarr_get(m->functions,WasmFunction,m->import_count+b);
@@ -560,6 +565,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 }
                 m->pc=pos;
                 ReturnIfErr(pwart_EmitFunction(m,function));
+                m->context->funcentries[m->import_count+b]=function->func_ptr;
                 pos=m->pc;
                 wa_assert(bytes[pos-1] == 0x0b,
                        "Code section did not end with 0x0b\n");
@@ -573,6 +579,14 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
 
     }
 
+    if(m->context->funcentries==NULL){
+        //no code section, so all functions must be imported.
+        if(m->functions->len!=m->import_count){
+            return "function and code section have inconsistent lengths";
+        }
+        m->context->funcentries_count=m->functions->len;
+        m->context->funcentries=wa_calloc(m->context->funcentries_count*sizeof(WasmFunctionEntry));
+    }
     //set functionentry
     m->context->import_funcentries_count=m->import_count;
     for(int i=0;i<m->functions->len;i++){
@@ -641,7 +655,7 @@ static int free_runtimectx(RuntimeContext *rc){
     if(rc->funcentries!=NULL){
         //only free code generate by module self.
         for(i=rc->import_funcentries_count;i<rc->funcentries_count;i++){
-            if(rc->funcentries!=NULL)
+            if(rc->funcentries[i]!=NULL)
                 pwart_FreeFunction(rc->funcentries[i]);
         }
         wa_free(rc->funcentries);
@@ -655,7 +669,7 @@ static int free_runtimectx(RuntimeContext *rc){
 
 static char *free_module(ModuleCompiler *m){
     int i=0;
-    if(!m->compile_succeeded){
+    if(!m->compile_succeeded && m->context!=NULL){
         free_runtimectx(m->context);
     }
     if(m->types!=NULL){
-- 
2.43.0


From c33838ead50b05822e2d280c63a69167db22a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 30/63] fix: locals and types of the compiler are not allocated
 twice and leaked

---
 pwart/modparser.c | 1 -
 pwart/wagen.c     | 3 ---
 2 files changed, 4 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 7a6541a..0dbcbbe 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -195,7 +195,6 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             int count,count2;
             wa_debug("Parsing Type(1) section (length: 0x%x)\n", slen);
             count = read_LEB(bytes, &pos, 32);
-            m->types=NULL;
             dynarr_init(&m->types,sizeof(Type));
             for (uint32_t c=0; c<count; c++) {
                 Type *type = dynarr_push_type(&m->types,Type);
diff --git a/pwart/wagen.c b/pwart/wagen.c
index da85c8d..bb84818 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -377,9 +377,6 @@ static char *pwart_EmitFunction(ModuleCompiler *m, WasmFunction *func) {
   m->function_type = dynarr_get(m->types, Type, func->tidx);
   m->function_locals_type = func->locals_type;
 
-  m->locals = NULL;
-  dynarr_init(&m->locals, sizeof(StackValue));
-
   ReturnIfErr(pwart_PrepareFunc(m));
   m->pc = savepos;
   ReturnIfErr(pwart_GenCode(m));
-- 
2.43.0


From bb30d1c70a68cea670887eb07893e1b49c1c30e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 31/63] fix: a namespace releases its module list and the
 compiler of a rejected module

---
 pwart/namespace.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pwart/namespace.c b/pwart/namespace.c
index 06c8389..28b966e 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -78,6 +78,7 @@ extern char *pwart_namespace_delete(pwart_namespace ns){
     if(n->nsmeta!=NULL){
         wa_free(n->nsmeta);
     }
+    dynarr_free(&n->mods);
     wa_free(n);
     return NULL;
 }
@@ -150,6 +151,7 @@ extern pwart_module_state *pwart_namespace_define_wasm_module(pwart_namespace ns
         state=pwart_get_module_state(m);
     }else{
         if(err_msg!=NULL)*err_msg=err;
+        pwart_free_module_compiler(m);
         return NULL;
     }
     pwart_free_module_compiler(m);
-- 
2.43.0


From 0a5f817b597e3bb4a1288f0f561e2f8cfe050184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 32/63] fix: load_module returns the error of a module that can
 not be loaded instead of crashing

---
 pwart/extfunc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 004b6cc..3f21883 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -431,9 +431,11 @@ static void insn_load_module(void *fp){
   Namespace *ns=namespace_GetNamespaceFormResolver(m->resolver);
   char *err_msg=NULL;
   pwart_module_state stat=pwart_namespace_define_wasm_module((pwart_namespace)ns,name,wasm_bytes,length,&err_msg);
-  pwart_wasm_function stfn=pwart_get_start_function(stat);
-  if(stfn!=NULL){
-    pwart_call_wasm_function(stfn,sp);
+  if(stat!=NULL){
+    pwart_wasm_function stfn=pwart_get_start_function(stat);
+    if(stfn!=NULL){
+      pwart_call_wasm_function(stfn,sp);
+    }
   }
   pwart_rstack_put_ref(&sp,err_msg);
 }
-- 
2.43.0


From 343b856e8594c9ce090ecbfa5f5afbce4bb5f68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 33/63] fix: a wrong magic or version is reported as error
 instead of ending the process

---
 pwart/modparser.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 0dbcbbe..3bab1e3 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -160,9 +160,9 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     // Check the module
     pos = 0;
     word = read_uint32(bytes, &pos);
-    wa_assert(word == WA_MAGIC, "Wrong module magic\n");
+    if(word != WA_MAGIC){return "Wrong module magic";}
     word = read_uint32(bytes, &pos);
-    wa_assert(word == WA_VERSION, "Wrong module version\n");
+    if(word != WA_VERSION){return "Wrong module version";}
 
     // Read the sections
     while (pos < byte_count) {
@@ -566,8 +566,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 ReturnIfErr(pwart_EmitFunction(m,function));
                 m->context->funcentries[m->import_count+b]=function->func_ptr;
                 pos=m->pc;
-                wa_assert(bytes[pos-1] == 0x0b,
-                       "Code section did not end with 0x0b\n");
+                if(bytes[pos-1] != 0x0b){return "Code section did not end with 0x0b";}
             }
             break;
         default:
-- 
2.43.0


From 7661412fc6a077f2f8f11ec8666d2113d1f10740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 34/63] fix: too many locals are reported as error instead of
 ending the process

---
 pwart/modparser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 3bab1e3..d29aaaa 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -536,7 +536,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 WasmFunction *function = dynarr_get(m->functions,WasmFunction,m->import_count+b);
                 uint32_t body_size = read_LEB(bytes, &pos, 32);
                 uint32_t payload_start = pos;
-                uint32_t local_count=0;
+                uint64_t local_count=0;
                 uint32_t local_type_count= read_LEB(bytes, &pos, 32);
                 uint32_t save_pos, tidx, lidx, lecount;
 
@@ -550,6 +550,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                     tidx =  read_LEB(bytes, &pos, 7);
                     (void)tidx; // TODO: use tidx?
                 }
+                if(local_count>255)return "too many locals.(should less than 256)";
                 function->locals_type = (uint8_t *)pool_alloc(&m->types_pool,local_count+1);
                 //Read the locals
                 pos = save_pos; 
-- 
2.43.0


From 946a01746ce554daa88777a7ec5a2efe7453d414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 35/63] fix: operand stack overflow is reported as error
 instead of ending the process

---
 pwart/def.h         | 1 +
 pwart/opgen_utils.c | 6 +++++-
 pwart/wagen.c       | 4 ++++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pwart/def.h b/pwart/def.h
index a94b4e8..02b0edb 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -196,6 +196,7 @@ typedef struct ModuleCompiler {
     uint32_t    pc;        // current parser pos
     int         sp;         // operand stack pointer, stack[sp] is valid stack value.
     StackValue  stack[OPERAND_STACK_COUNT]; // main operand stack
+    uint8_t     stack_overflow; // set if a function needs more than OPERAND_STACK_COUNT operands
     struct dynarr *blocks; // block stacks, block type
     struct dynarr *br_table; // br_table branch indexes, uint32_t type
     uint8_t eof;      // end of function
diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 19ff21c..00d6237 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -309,6 +309,11 @@ static inline size_t get_funcarr_offset(ModuleCompiler *m) {
 // function).
 static StackValue *stackvalue_Push(ModuleCompiler *m, int32_t wasm_type) {
   StackValue *sv2,*sv;
+  if(m->sp+1>=OPERAND_STACK_COUNT-1){
+    // reported by pwart_GenCode after this instruction, reuse the top until then.
+    m->stack_overflow=1;
+    m->sp--;
+  }
   sv2 = &m->stack[++m->sp];
   sv2->jit_type = SVT_GENERAL;
   sv2->wasm_type=wasm_type;
@@ -322,7 +327,6 @@ static StackValue *stackvalue_Push(ModuleCompiler *m, int32_t wasm_type) {
       sv2->frame_offset=stackvalue_GetAlignedOffset(sv2,sv2->frame_offset,NULL);
     }
   }
-  wa_assert(m->sp<OPERAND_STACK_COUNT-1,"operand stack overflow");
   return sv2;
 }
 
diff --git a/pwart/wagen.c b/pwart/wagen.c
index bb84818..3622e30 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -325,6 +325,7 @@ static char *pwart_GenCode(ModuleCompiler *m) {
   block->block_type = 0x00;
   m->eof=0;
   m->block_returned=0;
+  m->stack_overflow=0;
 
   while (!m->eof && m->pc < m->byte_count) {
     opcode = m->bytes[m->pc];
@@ -353,6 +354,9 @@ static char *pwart_GenCode(ModuleCompiler *m) {
     } else {
       ReturnIfErr(opgen_GenMiscOp(m, opcode));
     }
+    if (m->stack_overflow) {
+      return "operand stack overflow";
+    }
   }
 
   #if DEBUG_BUILD
-- 
2.43.0


From f4c80011dc892aadfdbe28b597a351ce789398af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 36/63] fix: data segments are checked against the size of the
 memory

---
 pwart/modparser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index d29aaaa..6c57e9e 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -512,6 +512,13 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 // Copy the data to the memory offset
                 uint32_t size = read_LEB(bytes, &pos, 32);
                 Memory *memory=*dynarr_get(m->context->memories,Memory *,midx);
+                if(m->target_ptr_size==32 || memory->bytes!=NULL){offset=(uint32_t)offset;}
+                if(offset>(uint64_t)memory->pages*PAGE_SIZE || size>(uint64_t)memory->pages*PAGE_SIZE-offset){
+                    return "data segment out of memory bounds";
+                }
+                if((uint64_t)pos+size>byte_count){
+                    return "data segment longer than module";
+                }
                 wa_debug("  setting %d bytes of memory at %p + offset %d\n",
                     size, memory->bytes, offset);
                 memcpy(memory->bytes+offset, bytes+pos, size);
-- 
2.43.0


From 5e54614b1b95867a8aaff2798962be12cff621e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 37/63] fix: builtin symbols are imported with their own kind
 only, unknown import kinds are rejected

---
 pwart/modparser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 6c57e9e..c3fb2db 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -256,6 +256,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                     // TODO: use mutability
                     mutability = read_LEB(bytes, &pos, 1);
                     (void)mutability; break;
+                default:
+                    return "unknown import kind";
                 }
 
                 
@@ -274,7 +276,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                     int arrlen=0,i1=0;
                     struct pwart_named_symbol *builtin=pwart_get_builtin_symbols(&arrlen);
                     for(i1=0;i1<arrlen;i1++){
-                        if(!strcmp(builtin[i1].name,import_field)){
+                        if(builtin[i1].kind==external_kind && !strcmp(builtin[i1].name,import_field)){
                             switch(external_kind){
                                 case PWART_KIND_FUNCTION:
                                 val=builtin[i1].val.fn;
-- 
2.43.0


From fbf7b6d1cc66930d205db3c969618f4a03957f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 38/63] fix: the types of select t are skipped, instead of
 being executed

---
 pwart/opgen_ctl.c | 5 ++++-
 pwart/wagen.c     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index 73c3429..d8e8e8f 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -423,7 +423,10 @@ static char *opgen_GenCtlOp(ModuleCompiler *m, int opcode) {
     opgen_GenDrop(m);
     break;
   case WASMOPC_select_t:                     // select t
-    m->pc++;
+    count = read_LEB(bytes, &m->pc, 32);     // type count
+    for (uint32_t i = 0; i < count; i++) {
+      read_LEB(bytes, &m->pc, 32);
+    }
   case WASMOPC_select:                     // select
     opgen_GenSelect(m);
     break;
diff --git a/pwart/wagen.c b/pwart/wagen.c
index 3622e30..729b137 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -48,7 +48,10 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     read_LEB(bytes, pos, 1);
     break;
   case 0x1c: // select t
-    read_LEB(bytes, pos, 32);
+    count = read_LEB(bytes, pos, 32); // type count
+    for (uint32_t i = 0; i < count; i++) {
+      read_LEB(bytes, pos, 32);
+    }
     break;
   // varint64
   case 0x42: // i64.const
-- 
2.43.0


From 29f62a5ebbc65f3ec7f82f90824b101b98279ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 39/63] fix: memory and table indices are not sign-extended

---
 pwart/opgen_misc.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index e7c4cb3..ae3900b 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -98,24 +98,24 @@ static char *opgen_GenMiscOp_FC(ModuleCompiler *m,int opcode){
     opgen_GenNumOp(m,0xb1);
     break; 
     case 0x0a: //memory.copy
-    a=read_LEB_signed(m->bytes,&m->pc,32); //destination memory index
-    b=read_LEB_signed(m->bytes,&m->pc,32); //source memory index
+    a=read_LEB(m->bytes,&m->pc,32); //destination memory index
+    b=read_LEB(m->bytes,&m->pc,32); //source memory index
     opgen_GenMemoryCopy(m,a,b);
     break;
     case 0x0b: //memory.fill
-    a=read_LEB_signed(m->bytes,&m->pc,32); //destination memory index
+    a=read_LEB(m->bytes,&m->pc,32); //destination memory index
     opgen_GenMemoryFill(m,a);
     break;
     case 0x0e: //table.copy
     {
-      int32_t dtab=read_LEB_signed(m->bytes,&m->pc,32); //destination table index
-      int32_t stab=read_LEB_signed(m->bytes,&m->pc,32); //source table index
+      int32_t dtab=read_LEB(m->bytes,&m->pc,32); //destination table index
+      int32_t stab=read_LEB(m->bytes,&m->pc,32); //source table index
       opgen_GenTableCopy(m,dtab,stab);
     }
     break;
     case 0x0f: //table.grow
     //table are not allowed to grow
-    read_LEB_signed(m->bytes,&m->pc,32); //table index
+    read_LEB(m->bytes,&m->pc,32); //table index
     m->sp-=2;
     sv=stackvalue_Push(m,WVT_I32);
     sv->val.op=SLJIT_IMM;
@@ -123,13 +123,13 @@ static char *opgen_GenMiscOp_FC(ModuleCompiler *m,int opcode){
     break;
     case 0x10: //table.size
     {
-      uint32_t tabidx=read_LEB_signed(m->bytes,&m->pc,32);
+      uint32_t tabidx=read_LEB(m->bytes,&m->pc,32);
       opgen_GenTableSize(m,tabidx);
     }
     break;
     case 0x11:  //table.fill
     {
-      uint32_t tabidx=read_LEB_signed(m->bytes,&m->pc,32);
+      uint32_t tabidx=read_LEB(m->bytes,&m->pc,32);
       opgen_GenTableFill(m,tabidx);
     }
     break;
-- 
2.43.0


From 04944cdd1c18acde9c1b2dce1358fb717a2820d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 40/63] fix: the number of a 0xfc instruction is a LEB128 value

---
 pwart/opgen_misc.c |  3 +--
 pwart/wagen.c      | 16 +++++++++-------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index ae3900b..0767c20 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -156,8 +156,7 @@ static char *opgen_GenMiscOp(ModuleCompiler *m, int opcode) {
     opgen_GenRefFunc(m, fidx);
     break;
   case 0xfc: // misc prefix
-    opcode2=m->bytes[m->pc];
-    m->pc++;
+    opcode2=read_LEB(m->bytes,&m->pc,32);
     ReturnIfErr(opgen_GenMiscOp_FC(m,opcode2));
     break;
   default:
diff --git a/pwart/wagen.c b/pwart/wagen.c
index 729b137..7969d5e 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -88,8 +88,7 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     break;
   case 0xfc: //misc op.
   {
-    int opc2=bytes[*pos];
-    *pos = *pos + 1;
+    uint32_t opc2=read_LEB(bytes,pos,32);
     switch(opc2){
       case 0xa:
       case 0xe:
@@ -259,11 +258,14 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
       }
       break;
     case 0xfc: // misc prefix
-      if(bytes[m->pc]==0x0e || bytes[m->pc]==0x11){
-        // table.copy and table.fill need the entries of table 0, like table.get
-        uint32_t pos=m->pc+1;
-        if(read_LEB(bytes, &pos, 32)==0)m->table_entries_local = -2;
-        if(bytes[m->pc]==0x0e && read_LEB(bytes, &pos, 32)==0)m->table_entries_local = -2;
+      {
+        uint32_t pos=m->pc;
+        uint32_t opc2=read_LEB(bytes, &pos, 32);
+        if(opc2==0x0e || opc2==0x11){
+          // table.copy and table.fill need the entries of table 0, like table.get
+          if(read_LEB(bytes, &pos, 32)==0)m->table_entries_local = -2;
+          if(opc2==0x0e && read_LEB(bytes, &pos, 32)==0)m->table_entries_local = -2;
+        }
       }
       m->pc--;
       wasm_SkipImmediates(m->bytes, &m->pc);
-- 
2.43.0


From d77e826d283b0f6faa9601ce6a4d7c73b000d6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 41/63] fix: select t is an instruction of opgen_GenCtlOp

---
 pwart/wagen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index 7969d5e..c8cb5d8 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -350,7 +350,7 @@ static char *pwart_GenCode(ModuleCompiler *m) {
       pwart_EmitStackValueLoadReg(m, &m->stack[m->sp]);
     }
 
-    if (opcode >= 0 && opcode <= 0x1b) {
+    if (opcode >= 0 && opcode <= 0x1c) {
       ReturnIfErr(opgen_GenCtlOp(m, opcode));
     } else if (opcode <= 0x44) {
       ReturnIfErr(opgen_GenMemOp(m, opcode));
-- 
2.43.0


From 3b15495cd591716436a439117f920b5df1029203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 42/63] fix: a namespace keeps its own copy of module names

---
 pwart/namespace.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pwart/namespace.c b/pwart/namespace.c
index 28b966e..525e2b4 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -75,6 +75,9 @@ extern char *pwart_namespace_delete(pwart_namespace ns){
                 break;
         }
     }
+    for(i=0;i<n->mods->len;i++){
+        wa_free((char *)dynarr_get(n->mods,struct pwart_named_module,i)->name);
+    }
     if(n->nsmeta!=NULL){
         wa_free(n->nsmeta);
     }
@@ -117,13 +120,21 @@ extern char *pwart_namespace_remove_module(pwart_namespace ns,const char *name){
 extern char *pwart_namespace_define_module(pwart_namespace ns,struct pwart_named_module *mod){
     Namespace *n=(Namespace *)ns;
     struct pwart_named_module *m;
+    char *name;
+    int len;
     m=pwart_namespace_find_module(ns,mod->name);
     if(m!=NULL){
         pwart_namespace_remove_module(ns,m->name);
     }else{
+        /* the caller does not have to hold the memory of the name. */
+        len=strlen(mod->name)+1;
+        name=wa_malloc(len);
+        memmove(name,mod->name,len);
         m=dynarr_push_type(&n->mods,struct pwart_named_module);
+        m->name=name;
     }
-    memmove(m,mod,sizeof(struct pwart_named_module));
+    m->type=mod->type;
+    m->val=mod->val;
     switch(m->type){
         case PWART_MODULE_TYPE_HOST_MODULE:
         m->val.host->namespace2=ns;
-- 
2.43.0


From 89658a3c8a8a8c8b4a7f75f3539279ed33d7e8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:56 +0000
Subject: [PATCH 43/63] fix: on_detached may define and remove modules of its
 namespace

---
 pwart/namespace.c | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/pwart/namespace.c b/pwart/namespace.c
index 525e2b4..0ae796e 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -59,21 +59,28 @@ extern pwart_namespace pwart_namespace_new(){
     return ns;
 }
 
+/* on_detached may define and remove modules, so `m` is not used any more once it is called. */
+static char *namespace_DetachModule(struct pwart_named_module *m){
+    struct pwart_named_module mod=*m;
+    m->type=PWART_MODULE_TYPE_NULL;
+    switch(mod.type){
+        case PWART_MODULE_TYPE_HOST_MODULE:
+            if(mod.val.host->on_detached!=NULL){
+                mod.val.host->on_detached(mod.val.host);
+            }
+            break;
+        case PWART_MODULE_TYPE_WASM_MODULE:
+            ReturnIfErr(pwart_free_module_state(mod.val.wasm));
+            break;
+    }
+    return NULL;
+}
+
 extern char *pwart_namespace_delete(pwart_namespace ns){
     Namespace *n=(Namespace *)ns;
     int i=0;
     for(i=0;i<n->mods->len;i++){
-        struct pwart_named_module *m=dynarr_get(n->mods,struct pwart_named_module,i);
-        switch(m->type){
-            case PWART_MODULE_TYPE_HOST_MODULE:
-                if(m->val.host->on_detached!=NULL){
-                    m->val.host->on_detached(m->val.host);
-                }
-                break;
-            case PWART_MODULE_TYPE_WASM_MODULE:
-                ReturnIfErr(pwart_free_module_state(m->val.wasm));
-                break;
-        }
+        ReturnIfErr(namespace_DetachModule(dynarr_get(n->mods,struct pwart_named_module,i)));
     }
     for(i=0;i<n->mods->len;i++){
         wa_free((char *)dynarr_get(n->mods,struct pwart_named_module,i)->name);
@@ -101,17 +108,7 @@ extern struct pwart_named_module *pwart_namespace_find_module(pwart_namespace ns
 extern char *pwart_namespace_remove_module(pwart_namespace ns,const char *name){
     struct pwart_named_module *m=pwart_namespace_find_module(ns,name);
     if(m!=NULL){
-        switch(m->type){
-            case PWART_MODULE_TYPE_HOST_MODULE:
-                if(m->val.host->on_detached!=NULL){
-                    m->val.host->on_detached(m->val.host);
-                }
-                break;
-            case PWART_MODULE_TYPE_WASM_MODULE:
-                ReturnIfErr(pwart_free_module_state(m->val.wasm));
-                break;
-        }
-        m->type=PWART_MODULE_TYPE_NULL;
+        return namespace_DetachModule(m);
     }
     return NULL;
 }
@@ -125,6 +122,7 @@ extern char *pwart_namespace_define_module(pwart_namespace ns,struct pwart_named
     m=pwart_namespace_find_module(ns,mod->name);
     if(m!=NULL){
         pwart_namespace_remove_module(ns,m->name);
+        m=pwart_namespace_find_module(ns,mod->name);
     }else{
         /* the caller does not have to hold the memory of the name. */
         len=strlen(mod->name)+1;
-- 
2.43.0


From d2647c3ccdd240167baf1288e352f9e8b6a625d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 44/63] fix: operand alignment is on by default, as documented

---
 pwart/def.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index 02b0edb..a06169e 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -519,8 +519,8 @@ static struct{
 #define WASMOPC_end 0x0b
 
 static struct pwart_global_compile_config pwart_gcfg={
-    .stack_flags=0,
-    .misc_flags=PWART_MISC_FLAGS_LOCALS_ZERO_INIT|PWART_STACK_FLAGS_AUTO_ALIGN
+    .stack_flags=PWART_STACK_FLAGS_AUTO_ALIGN,
+    .misc_flags=PWART_MISC_FLAGS_LOCALS_ZERO_INIT|PWART_MISC_FLAGS_EXTEND_INDEX
 };
 
 static sljit_s32 pwart_GetFreeReg(ModuleCompiler *m, sljit_s32 regtype,int upstack);
-- 
2.43.0


From ca45b8d68943b5f87bad4c66c1f2a25b45291494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 45/63] fix: fopen and fclose report an error only when they
 fail

---
 pwart/extfunc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 3f21883..5216180 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -738,7 +738,7 @@ static void insn_fopen(void *fp){
   sp=fp;
   FILE *f=fopen(filename,mode);
   pwart_rstack_put_ref(&sp,f);
-  pwart_rstack_put_i32(&sp,errno);
+  pwart_rstack_put_i32(&sp,f!=NULL?0:errno);
 }
 
 static void insn_fread(void *fp){
@@ -769,8 +769,8 @@ static void insn_fclose(void *fp){
   void *sp=fp;
   _wargref(file)
   sp=fp;
-  fclose(file);
-  pwart_rstack_put_i32(&sp,errno);
+  int err=fclose(file);
+  pwart_rstack_put_i32(&sp,err==0?0:errno);
 }
 
 static void insn_stdio(void *fp){
-- 
2.43.0


From 3897773c6bd0bb8a68b0548db972b879c2bd9f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 46/63] fix: sock_recv and sock_send translate the vectors of
 buffers

---
 pwart_syslib/libwasi.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pwart_syslib/libwasi.c b/pwart_syslib/libwasi.c
index 5d65337..147f020 100644
--- a/pwart_syslib/libwasi.c
+++ b/pwart_syslib/libwasi.c
@@ -402,8 +402,15 @@ static void wasm__sock_accept(void *fp) {
 static void wasm__sock_recv(void *fp) { 
    void *sp = fp;
   _wargi32(sock) _wargi32(ri_data) _wargi32(ri_data_len) _wargi32(ri_flags)
-      _wargi32(ro_datalen) _wargi32(ro_flags) uvwasi_errno_t err =
-          uvwasi_sock_recv(&uvwc, sock, uwmem->bytes + ri_data, ri_data_len,
+      _wargi32(ro_datalen) _wargi32(ro_flags)
+  uvwasi_iovec_t *iovs2=sp;
+  uint32_t i;
+  for(i=0;i<ri_data_len;i++){
+    iovs2[i].buf=uwmem->bytes+*(uint32_t *)(uwmem->bytes + ri_data + 8*i);
+    iovs2[i].buf_len=*(uint32_t *)(uwmem->bytes + ri_data + 8*i+4);
+  }
+  uvwasi_errno_t err =
+          uvwasi_sock_recv(&uvwc, sock, iovs2, ri_data_len,
                            ri_flags, uwmem->bytes + ro_datalen,
                            uwmem->bytes + ro_flags);
   sp = fp;
@@ -412,8 +419,15 @@ static void wasm__sock_recv(void *fp) {
 static void wasm__sock_send(void *fp) { 
    void *sp = fp;
   _wargi32(sock) _wargi32(si_data) _wargi32(si_data_len) _wargi32(si_flags)
-      _wargi32(so_datalen) uvwasi_errno_t err =
-          uvwasi_sock_send(&uvwc, sock, uwmem->bytes + si_data, si_data_len,
+      _wargi32(so_datalen)
+  uvwasi_ciovec_t *iovs2=sp;
+  uint32_t i;
+  for(i=0;i<si_data_len;i++){
+    iovs2[i].buf=uwmem->bytes+*(uint32_t *)(uwmem->bytes + si_data + 8*i);
+    iovs2[i].buf_len=*(uint32_t *)(uwmem->bytes + si_data + 8*i+4);
+  }
+  uvwasi_errno_t err =
+          uvwasi_sock_send(&uvwc, sock, iovs2, si_data_len,
                            si_flags, uwmem->bytes + so_datalen);
   sp = fp;
   pwart_rstack_put_i32(&sp, err);
-- 
2.43.0


From 8a7bdabc2612fdac3cd6b9b614a869d3576e2a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 47/63] fix: release the environment list and the preopen list
 of WASI

---
 pwart_syslib/libwasi.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pwart_syslib/libwasi.c b/pwart_syslib/libwasi.c
index 147f020..433090e 100644
--- a/pwart_syslib/libwasi.c
+++ b/pwart_syslib/libwasi.c
@@ -69,6 +69,7 @@ static void wasm__environ_get(void *fp) {
     *buf='\0';
     buf+=1;
   }
+  uv_os_free_environ(penv,envcnt);
   sp = fp;
   pwart_rstack_put_i32(&sp, 0);
 }
@@ -82,6 +83,7 @@ static void wasm__environ_sizes_get(void *fp) {
   for(i=0;i<envcnt;i++){
     size+=strlen(penv[i].name)+strlen(penv[i].value)+2;
   } 
+  uv_os_free_environ(penv,envcnt);
   *(uint32_t *)(uwmem->bytes + environ_count)=envcnt;
   *(uint32_t *)(uwmem->bytes + environ_buf_size)=size;
   sp = fp;
@@ -457,6 +459,7 @@ extern void pwart_wasi_module_set_wasiargs(uint32_t argc, char **argv) {
 
 extern char *pwart_wasi_module_init(){
   uvwasi_options_t init_options;
+  uvwasi_preopen_t preopen;
   uvwasi_errno_t err;
   uvwasi_options_init(&init_options);
   if(uvwcinited){
@@ -472,9 +475,9 @@ extern char *pwart_wasi_module_init(){
   /* init_options.envp = (const char **)environ; */
   init_options.envp=NULL;
   init_options.preopenc = 1;
-  init_options.preopens = wa_malloc(sizeof(uvwasi_preopen_t));
-  init_options.preopens->mapped_path="/";
-  init_options.preopens->real_path=".";
+  preopen.mapped_path="/";
+  preopen.real_path=".";
+  init_options.preopens = &preopen;
   init_options.allocator = NULL;
   init_options.argc = wasiargc;
   init_options.argv = wasiargv;
-- 
2.43.0


From ba972ce1ca4d0671d178cfe61c9b97002ffa9ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 48/63] fix: run the function of a new thread on its own stack

---
 pwart_syslib/libuv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart_syslib/libuv.c b/pwart_syslib/libuv.c
index 82901af..69ebffc 100644
--- a/pwart_syslib/libuv.c
+++ b/pwart_syslib/libuv.c
@@ -53,7 +53,7 @@ static void wasm__uv_wasmthreadentry(void *awt){
     wt->stack=pwart_allocate_stack(64*1024);
     void *sp=wt->stack;
     pwart_rstack_put_i64(&sp,wt->arg);
-    pwart_call_wasm_function(wt->wasmentry,wt);
+    pwart_call_wasm_function(wt->wasmentry,wt->stack);
     pwart_free_stack(wt->stack);
     wa_free(wt);
 }
-- 
2.43.0


From 72968d081eef1f5d266dc747c3b36f01ba812d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 49/63] fix: results of uv_mutex_trylock and uv_cond_timedwait
 start the frame

---
 pwart_syslib/libuv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pwart_syslib/libuv.c b/pwart_syslib/libuv.c
index 69ebffc..e25ac42 100644
--- a/pwart_syslib/libuv.c
+++ b/pwart_syslib/libuv.c
@@ -94,6 +94,7 @@ static void wasm__uv_mutex_trylock(void *fp){
     void *sp=fp;
     _wargref(mut)
     int err=uv_mutex_trylock(mut);
+    sp=fp;
     pwart_rstack_put_i32(&sp,err);
 }
 
@@ -138,6 +139,7 @@ static void wasm__uv_cond_timedwait(void *fp){
     _wargref(mut)
     _wargi64(timeout)
     int r=uv_cond_timedwait(cond,mut,timeout);
+    sp=fp;
     pwart_rstack_put_i32(&sp,r);
 }
 
-- 
2.43.0


From 88695afb40752c5a87c1f3d65f6c0ff6c7edd00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 50/63] fix: allocate closures with the size libffi needs

---
 pwart_syslib/libffi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart_syslib/libffi.c b/pwart_syslib/libffi.c
index a80c35c..86e6d7c 100644
--- a/pwart_syslib/libffi.c
+++ b/pwart_syslib/libffi.c
@@ -115,7 +115,7 @@ static void wasm__ffi_closure_alloc(void *fp){
     void *sp=fp;
     void *code=NULL;
     sp=fp;
-    void *closure=ffi_closure_alloc(sizeof(FFI_CLOSURES),&code);
+    void *closure=ffi_closure_alloc(sizeof(ffi_closure),&code);
     pwart_rstack_put_ref(&sp,closure);
     pwart_rstack_put_ref(&sp,code);
 }
@@ -182,7 +182,7 @@ static void wasm__ffix_new_c_callback(void *fp){
     void **userdata2=wa_malloc(sizeof(void *)*2);
     userdata2[0]=fn;
     userdata2[1]=user_data;
-    void *closure=ffi_closure_alloc(sizeof(FFI_CLOSURES),&code);
+    void *closure=ffi_closure_alloc(sizeof(ffi_closure),&code);
     ffi_status stat=ffi_prep_closure_loc(closure,cif,(void *)&wasmcb__c2wasm_adapter,userdata2,code);
     pwart_rstack_put_ref(&sp,closure); 
     pwart_rstack_put_ref(&sp,code); 
-- 
2.43.0


From f11354d4e813baceb50a2b126dc3dc3344bd62fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 51/63] fix: keep the data of a libffi callback until the
 closure is freed

---
 pwart_syslib/libffi.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/pwart_syslib/libffi.c b/pwart_syslib/libffi.c
index 86e6d7c..10a5767 100644
--- a/pwart_syslib/libffi.c
+++ b/pwart_syslib/libffi.c
@@ -115,20 +115,34 @@ static void wasm__ffi_closure_alloc(void *fp){
     void *sp=fp;
     void *code=NULL;
     sp=fp;
-    void *closure=ffi_closure_alloc(sizeof(ffi_closure),&code);
+    ffi_closure *closure=ffi_closure_alloc(sizeof(ffi_closure),&code);
+    if(closure!=NULL)closure->user_data=NULL;
     pwart_rstack_put_ref(&sp,closure);
     pwart_rstack_put_ref(&sp,code);
 }
+/* A callback can be called any number of times, so its data live as long as the closure. */
+static void ffix_CloseClosure(ffi_closure *closure){
+    wa_free(closure->user_data);
+    ffi_closure_free(closure);
+}
+static ffi_status ffix_PrepClosure(ffi_closure *closure,ffi_cif *cif,void *cb,void *fn,void *user_data,void *codeloc){
+    void *old=closure->user_data;
+    void **userdata2=wa_malloc(sizeof(void *)*2);
+    userdata2[0]=fn;
+    userdata2[1]=user_data;
+    ffi_status stat=ffi_prep_closure_loc(closure,cif,cb,userdata2,codeloc);
+    wa_free(stat==FFI_OK?old:userdata2);
+    return stat;
+}
 static void wasm__ffi_closure_free(void *fp){
     void *sp=fp;
     _wargref(closure)
     sp=fp;
-    ffi_closure_free(closure);
+    ffix_CloseClosure(closure);
 }
 static void wasmcb__ffi_closurecb(ffi_cif* cif,void *ret, void* args[],void **userdata2){
     void *fn2=userdata2[0];
     void *user_data=userdata2[1];
-    wa_free(userdata2);
     void *stackbase=pwart_allocate_stack(4096);
     void *sp=stackbase;
     pwart_rstack_put_ref(&sp,cif);
@@ -146,17 +160,13 @@ static void wasm__ffi_prep_closure_loc(void *fp){
     _wargref(user_data)
     _wargref(codeloc);
     sp=fp;
-    void **userdata2=wa_malloc(sizeof(void *)*2);
-    userdata2[0]=fn;
-    userdata2[1]=user_data;
-    ffi_status stat=ffi_prep_closure_loc(closure,cif,(void *)&wasmcb__ffi_closurecb,userdata2,codeloc);
+    ffi_status stat=ffix_PrepClosure(closure,cif,(void *)&wasmcb__ffi_closurecb,fn,user_data,codeloc);
     pwart_rstack_put_i32(&sp,stat);
 }
 
 static void wasmcb__c2wasm_adapter(ffi_cif* cif,void *ret, void* args[],void **userdata2){
     void *wasmfn=userdata2[0];
     void *user_data=userdata2[1];
-    wa_free(userdata2);
     void *stackbase=pwart_allocate_stack(4096);
     void *sp=stackbase;
     for(int i=0;i<cif->nargs;i++){
@@ -179,11 +189,9 @@ static void wasm__ffix_new_c_callback(void *fp){
     _wargref(user_data)
     sp=fp;
     void *code=NULL;
-    void **userdata2=wa_malloc(sizeof(void *)*2);
-    userdata2[0]=fn;
-    userdata2[1]=user_data;
-    void *closure=ffi_closure_alloc(sizeof(ffi_closure),&code);
-    ffi_status stat=ffi_prep_closure_loc(closure,cif,(void *)&wasmcb__c2wasm_adapter,userdata2,code);
+    ffi_closure *closure=ffi_closure_alloc(sizeof(ffi_closure),&code);
+    closure->user_data=NULL;
+    ffi_status stat=ffix_PrepClosure(closure,cif,(void *)&wasmcb__c2wasm_adapter,fn,user_data,code);
     pwart_rstack_put_ref(&sp,closure); 
     pwart_rstack_put_ref(&sp,code); 
     pwart_rstack_put_i32(&sp,stat);
@@ -192,7 +200,7 @@ static void wasm__ffix_del_c_callback(void *fp){
     void *sp=fp;
     _wargref(closure)
     sp=fp;
-    ffi_closure_free(closure);
+    ffix_CloseClosure(closure);
 }
 
 
-- 
2.43.0


From 0b134697959764650bcd877b717c369c9372fb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 52/63] fix: pwart_syslib_unload removes the modules that are
 there

---
 pwart_syslib/pwart_syslib.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pwart_syslib/pwart_syslib.c b/pwart_syslib/pwart_syslib.c
index 5eda5eb..1744237 100644
--- a/pwart_syslib/pwart_syslib.c
+++ b/pwart_syslib/pwart_syslib.c
@@ -40,9 +40,21 @@ extern char *pwart_syslib_load(pwart_namespace ns){
     return NULL;
 }
 
+static char *unload_module(pwart_namespace ns,char *name,char *(*delete_module)(struct pwart_host_module *)){
+    struct pwart_named_module *mod=pwart_namespace_find_module(ns,name);
+    struct pwart_host_module *host;
+    char *err;
+    if(mod==NULL || mod->type!=PWART_MODULE_TYPE_HOST_MODULE)return NULL;
+    host=mod->val.host;
+    err=pwart_namespace_remove_module(ns,name);
+    if(err!=NULL)return err;
+    return delete_module(host);
+}
+
 extern char *pwart_syslib_unload(pwart_namespace ns){
-    pwart_libuv_module_delete(pwart_namespace_find_module(ns,"libuv")->val.host);
-    pwart_libffi_module_delete(pwart_namespace_find_module(ns,"libffi")->val.host);
-    pwart_wasi_module_delete(pwart_namespace_find_module(ns,"wasi_snapshot_preview1")->val.host);
-    return NULL;
+    char *err=unload_module(ns,"libuv",&pwart_libuv_module_delete);
+    if(err!=NULL)return err;
+    err=unload_module(ns,"libffi",&pwart_libffi_module_delete);
+    if(err!=NULL)return err;
+    return unload_module(ns,"wasi_snapshot_preview1",&pwart_wasi_module_delete);
 }
\ No newline at end of file
-- 
2.43.0


From 930dbfeb7bd014978bf3ec9ae736706f2b4b2c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:03 +0000
Subject: [PATCH 53/63] fix: sljit x86: keep the base of src2 until it is read
 when dst is that register

---
 sljit/sljit_src/sljitNativeX86_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 76e9a76..5e1e2d6 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2109,7 +2109,7 @@ static sljit_s32 emit_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst)) {
+	if (FAST_IS_REG(dst) && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
@@ -2182,7 +2182,7 @@ static sljit_s32 emit_non_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst) && dst != src2) {
+	if (FAST_IS_REG(dst) && dst != src2 && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
-- 
2.43.0


From 16aa900c24e0c6a0f0a36f2189a47589843f6a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:03 +0000
Subject: [PATCH 54/63] fix: sljit x86: store the product when it was computed
 in a temporary register

---
 sljit/sljit_src/sljitNativeX86_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 5e1e2d6..9c27854 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2311,7 +2311,7 @@ static sljit_s32 emit_mul(struct sljit_compiler *compiler,
 		FAIL_IF(emit_groupf(compiler, IMUL_r_rm, dst_r, src2, src2w));
 	}
 
-	if (dst & SLJIT_MEM)
+	if (dst_r != dst)
 		EMIT_MOV(compiler, dst, dstw, TMP_REG1, 0);
 
 	return SLJIT_SUCCESS;
-- 
2.43.0


From fbd5f99f54e271588e86ee48215c084fa0e2cf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 55/63] fix: sljit x86-64: keep the saved shift register when
 the count is read from a 64 bit address

---
 sljit/sljit_src/sljitNativeX86_common.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 9c27854..dee1516 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2615,14 +2615,18 @@ static sljit_s32 emit_shift(struct sljit_compiler *compiler,
 	EMIT_MOV(compiler, TMP_REG1, 0, src1, src1w);
 #if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
 	EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_PREF_SHIFT_REG, 0);
+	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 #else /* !SLJIT_CONFIG_X86_32 */
+	/* TMP_REG2 may be needed by the address of src2. */
+	EMIT_MOV(compiler, TMP_REG2, 0, src2, src2w);
 	mode32 = compiler->mode32;
 	compiler->mode32 = 0;
-	EMIT_MOV(compiler, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+	inst = emit_x86_instruction(compiler, 1, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+	FAIL_IF(!inst);
+	*inst = XCHG_r_rm;
 	compiler->mode32 = mode32;
 #endif /* SLJIT_CONFIG_X86_32 */
 
-	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 	inst = emit_x86_instruction(compiler, 1 | EX86_SHIFT_INS, SLJIT_PREF_SHIFT_REG, 0, TMP_REG1, 0);
 	FAIL_IF(!inst);
 	inst[1] |= mode;
-- 
2.43.0


From 2703bb2a077bbeab978b82f0e0887e0a85dc4b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:37 +0000
Subject: [PATCH 56/63] fix: sljit x86: shifting into by zero still moves src1
 to dst

---
 sljit/sljit_src/sljitNativeX86_common.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index dee1516..e4d932b 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2865,8 +2865,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		src3w &= (op & SLJIT_32) ? 0x1f : 0x3f;
 #endif /* SLJIT_CONFIG_X86_32 */
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			CHECK_EXTRA_REGS(src1_reg, src1w, (void)0);
+			return emit_mov(compiler, dst_reg, dstw, src1_reg, src1w);
+		}
 	}
 
 	is_left = (GET_OPCODE(op) == SLJIT_SHL || GET_OPCODE(op) == SLJIT_MSHL);
-- 
2.43.0


From 7c1270a1f353be789fb695d36420dffddbf74480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:37 +0000
Subject: [PATCH 57/63] fix: sljit x86: read src1 of shift into from its copy
 when it is the shift register and dst is src3

---
 sljit/sljit_src/sljitNativeX86_common.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index e4d932b..e98cb36 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2984,6 +2984,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		}
 
 		if (move_src1) {
+			/* The shift register has already been replaced by src3. */
+			if (src1_reg == SLJIT_PREF_SHIFT_REG)
+				src1_reg = (restore_ecx == 2) ? SLJIT_MEM1(SLJIT_SP) : TMP_REG1;
 			EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 			src1_reg = dst_reg;
 			src1w = 0;
-- 
2.43.0


From e8affe02f1be308e07b7528439b71b0e60ff7fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:37 +0000
Subject: [PATCH 58/63] fix: sljit x86: shift into reads src3 before dst is
 written

---
 sljit/sljit_src/sljitNativeX86_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index e98cb36..878312a 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2930,7 +2930,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		move_src1 = 0;
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
 		if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
@@ -2954,7 +2954,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 				restore_sp4 = src1_reg;
 			}
 		} else if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
-- 
2.43.0


From de1d8a58121d155a543cd95cbd74ac1886921546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 59/63] fix: sljit x86: accept mov_addr targets between 2 and 4
 GiB, which the 32 bit immediate reaches

---
 sljit/sljit_src/sljitNativeX86_common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 878312a..c420f8d 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -747,7 +747,8 @@ static void generate_jump_or_mov_addr(struct sljit_jump *jump, sljit_sw executab
 			addr -= (sljit_uw)SLJIT_ADD_EXEC_OFFSET((sljit_u8*)jump_addr, executable_offset);
 			SLJIT_ASSERT((sljit_sw)addr <= HALFWORD_MAX && (sljit_sw)addr >= HALFWORD_MIN);
 		} else {
-			SLJIT_ASSERT(addr <= HALFWORD_MAX);
+			/* The immediate is zero extended by mov r32, imm32. */
+			SLJIT_ASSERT(addr <= 0xffffffff);
 		}
 		sljit_unaligned_store_s32((void*)(jump_addr - sizeof(sljit_s32)), (sljit_s32)addr);
 #endif /* !SLJIT_CONFIG_X86_32 */
-- 
2.43.0


From 0f2369be80984eff492b172d7c3c4a99cbd684cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:50 +0000
Subject: [PATCH 60/63] fix: sljit x86: check for a failed allocation in fop1
 neg/abs

---
 sljit/sljit_src/sljitNativeX86_common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index c420f8d..d1b9ddb 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -3314,6 +3314,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fop1(struct sljit_compiler *compil
 		FAIL_IF(emit_groupf(compiler, PCMPEQD_x_xm | EX86_PREF_66 | EX86_SSE2, dst_r, dst_r, 0));
 
 		inst = emit_x86_instruction(compiler, 2 | EX86_PREF_66 | EX86_SSE2_OP2, 0, 0, dst_r, 0);
+		FAIL_IF(!inst);
 		inst[0] = GROUP_0F;
 		/* Same as PSRLD_x / PSRLQ_x */
 		inst[1] = (op & SLJIT_32) ? PSLLD_x_i8 : PSLLQ_x_i8;
-- 
2.43.0


From c7d7359f5d4f6ee1e4b3d3e6576cee677d3fffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:50 +0000
Subject: [PATCH 61/63] fix: sljit: serialize the register counts the argument
 checks need

---
 sljit/sljit_src/sljitSerialize.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/sljit/sljit_src/sljitSerialize.c b/sljit/sljit_src/sljitSerialize.c
index 042cc18..744b243 100644
--- a/sljit/sljit_src/sljitSerialize.c
+++ b/sljit/sljit_src/sljitSerialize.c
@@ -97,6 +97,10 @@ struct sljit_serialized_debug_info {
 	sljit_sw last_flags;
 	sljit_s32 last_return;
 	sljit_s32 logical_local_size;
+	sljit_s32 real_fscratches;
+	sljit_s32 real_fsaveds;
+	sljit_s32 vscratches;
+	sljit_s32 vsaveds;
 };
 
 struct sljit_serialized_label {
@@ -309,6 +313,15 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compile
 		serialized_debug_info->last_flags = compiler->last_flags;
 		serialized_debug_info->last_return = compiler->last_return;
 		serialized_debug_info->logical_local_size = compiler->logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+		serialized_debug_info->real_fscratches = compiler->real_fscratches;
+		serialized_debug_info->real_fsaveds = compiler->real_fsaveds;
+#else /* SLJIT_SEPARATE_VECTOR_REGISTERS */
+		serialized_debug_info->real_fscratches = compiler->fscratches;
+		serialized_debug_info->real_fsaveds = compiler->fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
+		serialized_debug_info->vscratches = compiler->vscratches;
+		serialized_debug_info->vsaveds = compiler->vsaveds;
 		serialized_compiler->cpu_type |= SLJIT_SERIALIZE_DEBUG;
 #if (defined SLJIT_DEBUG && SLJIT_DEBUG)
 		ptr += sizeof(struct sljit_serialized_debug_info);
@@ -573,6 +586,12 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->last_flags = (sljit_s32)serialized_debug_info->last_flags;
 	compiler->last_return = serialized_debug_info->last_return;
 	compiler->logical_local_size = serialized_debug_info->logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	compiler->real_fscratches = serialized_debug_info->real_fscratches;
+	compiler->real_fsaveds = serialized_debug_info->real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
+	compiler->vscratches = serialized_debug_info->vscratches;
+	compiler->vsaveds = serialized_debug_info->vsaveds;
 #endif /* SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG */
 
 	return compiler;
-- 
2.43.0


From da1d18469d36d21a4b64932160e78299193c0b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:24 +0000
Subject: [PATCH 62/63] fix: sljit x86: reduce an address load before the label
 that follows it

---
 sljit/sljit_src/sljitNativeX86_common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index d1b9ddb..8bdfa69 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -825,7 +825,8 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 		if (next_min_addr == SLJIT_MAX_ADDRESS)
 			break;
 
-		if (next_min_addr == next_label_size) {
+		/* The address of a mov_addr is its end, so it precedes a label there. */
+		if (next_min_addr == next_label_size && (next_min_addr != next_jump_addr || !(jump->flags & JUMP_MOV_ADDR))) {
 			label->size -= size_reduce;
 
 			label = label->next;
-- 
2.43.0


From 1352f2e564a3e84f2b49a22555d3d6120096fe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:09 +0000
Subject: [PATCH 63/63] fix: do not generate code that cannot be reached

---
 pwart/def.h       |  1 +
 pwart/opgen_ctl.c |  6 ++++--
 pwart/wagen.c     | 37 +++++++++++++++++++++++++++++++++++++
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index a06169e..28d4384 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -201,6 +201,7 @@ typedef struct ModuleCompiler {
     struct dynarr *br_table; // br_table branch indexes, uint32_t type
     uint8_t eof;      // end of function
     int8_t block_returned; //the block has br/return out.
+    int8_t unreachable; //the end of the block can't be reached.
 
     //prepare info, used in compile time
     #if DEBUG_BUILD
diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index d8e8e8f..f740fdd 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -85,6 +85,7 @@ static void opgen_GenElse(ModuleCompiler *m) {
   sljit_set_label(block->else_jump, sljit_emit_label(m->jitc));
   block->else_jump = NULL;
   m->sp=block->saved_sp;
+  m->unreachable=0;
   #if PWART_DEBUG_RUNTIME_PROBE
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
@@ -116,8 +117,8 @@ static void opgen_GenEnd(ModuleCompiler *m) {
     m->eof = 1;
   } 
   m->sp=block->saved_sp+block->stack_offset;
-  if (block->block_type != 0x3 && block->stack_offset > 0) {
-    // the result come from a branch or the block end, both have saved it.
+  if (block->stack_offset > 0 && (block->block_type != 0x3 || m->unreachable)) {
+    // the result come from a branch or the block end, both have saved it. Or the end of the loop can't be reached.
     m->sp=block->saved_sp;
     sv=stackvalue_Push(m,block->result_type);
     sv->val.op=SLJIT_MEM1(SLJIT_S0);
@@ -127,6 +128,7 @@ static void opgen_GenEnd(ModuleCompiler *m) {
     dynarr_free(&block->br_jump);
   }
   m->block_returned=0;
+  m->unreachable=0;
   #if PWART_DEBUG_RUNTIME_PROBE
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
diff --git a/pwart/wagen.c b/pwart/wagen.c
index c8cb5d8..5ebdbdd 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -22,6 +22,7 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
   // varuint32, varint32
   case 0x0c: case 0x0d: // br, br_if
   case 0x10:          // call
+  case 0x12:          // return_call
     read_LEB(bytes, pos, 32);
     break;
   case 0x20: //local.get
@@ -35,6 +36,8 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     break;
   case 0x23: //global.get
   case 0x24: //global.set
+  case 0x25: //table.get
+  case 0x26: //table.set
   case 0xd0: //ref.null
   case 0xd2: //ref.func
     read_LEB(bytes, pos, 32);
@@ -44,6 +47,7 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     break;
   // varuint32 + varuint1
   case 0x11: // call_indirect
+  case 0x13: // return_call_indirect
     read_LEB(bytes, pos, 32);
     read_LEB(bytes, pos, 1);
     break;
@@ -302,6 +306,27 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
   return NULL;
 }
 
+//Skip the instructions that can't be reached, up to the else or end of the current block.
+//They may take operands that are not on the stack.
+static void pwart_SkipDeadCode(ModuleCompiler *m) {
+  int opcode,depth=0;
+  while (m->pc < m->byte_count) {
+    opcode = m->bytes[m->pc];
+    if (opcode == 0x02 || opcode == 0x03 || opcode == WASMOPC_if) {
+      depth++;
+    } else if (opcode == WASMOPC_end) {
+      if (depth == 0) return;
+      depth--;
+    } else if (opcode == 0x05 && depth == 0) {
+      return;
+    }
+    wasm_SkipImmediates(m->bytes, &m->pc);
+#if DEBUG_BUILD
+    m->insnCnt--;
+#endif
+  }
+}
+
 /*
 r0,r1,r2 is scratch registers(at least three registers are required.).
 s0(arg0) contains stack frame pointer.
@@ -330,6 +355,7 @@ static char *pwart_GenCode(ModuleCompiler *m) {
   block->block_type = 0x00;
   m->eof=0;
   m->block_returned=0;
+  m->unreachable=0;
   m->stack_overflow=0;
 
   while (!m->eof && m->pc < m->byte_count) {
@@ -362,6 +388,17 @@ static char *pwart_GenCode(ModuleCompiler *m) {
     if (m->stack_overflow) {
       return "operand stack overflow";
     }
+    switch (opcode) {
+    case 0x00: // unreachable
+    case WASMOPC_br:
+    case 0x0e: // br_table
+    case 0x0f: // return
+    case WASMOPC_return_call:
+    case WASMOPC_return_call_indirect:
+      pwart_SkipDeadCode(m);
+      m->unreachable=1;
+      break;
+    }
   }
 
   #if DEBUG_BUILD
-- 
2.43.0

