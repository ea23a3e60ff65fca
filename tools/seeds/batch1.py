U='pwart/opgen_utils.c'; C='pwart/opgen_ctl.c'; M='pwart/opgen_mem.c'; N='pwart/opgen_num.c'; X='pwart/extfunc.c'; G='pwart/wagen.c'
SEEDS += [
dict(ID='s01-i64eqz32', PROP='P01', NEEDS='an i64 operand whose low 32 bits are zero and high bits are not', BREAKS='i64.eqz compares only 32 bits',
 EDITS=[(N, "      sljit_emit_op2u(m->jitc, SLJIT_SUB | SLJIT_SET_Z, sv->val.op, sv->val.opw,\n                      SLJIT_IMM, 0);", "      sljit_emit_op2u(m->jitc, SLJIT_SUB32 | SLJIT_SET_Z, sv->val.op, sv->val.opw,\n                      SLJIT_IMM, 0);")],
 WAT='(module (func (export "f") (param i64) (result i32) local.get 0 i64.eqz))', RUN='-- f i64:0x100000000 = i32:0 , f i64:0 = i32:1'),
dict(ID='s02-f32convu', PROP='P01', NEEDS='an i64 near a float rounding tie, where the intermediate double rounds to the tie', BREAKS='f32.convert_i64_u rounds twice',
 EDITS=[(X, "*fp = (float)(*(uint64_t *)fp);", "*fp = (float)(double)(*(uint64_t *)fp);")],
 WAT='(module (func (export "f") (param i64) (result f32) local.get 0 f32.convert_i64_u))', RUN='-- f i64:0x8000008000000001 = f32:0b5f000001'),
dict(ID='s03-load16u', PROP='P02', NEEDS='i64.load16_u of a halfword of 0x8000 or more', BREAKS='i64.load16_u sign-extends',
 EDITS=[(M, "  case 0x33: // i64.load16_u\n    sljit_emit_op1(m->jitc, SLJIT_MOV_U16, a", "  case 0x33: // i64.load16_u\n    sljit_emit_op1(m->jitc, SLJIT_MOV_S16, a")],
 WAT='(module (memory 1) (func (export "f") (param i32) (result i64) i32.const 8 local.get 0 i32.store i32.const 8 i64.load16_u))', RUN='-- f i32:0x8000 = i64:0x8000'),
dict(ID='s04-teealias', PROP='P03', NEEDS='a local read that stays at the bottom of the operand stack while local.tee assigns the same local', BREAKS='the older operand changes to the new value of the local',
 EDITS=[(M, "static void opgen_GenLocalTee(ModuleCompiler *m, uint32_t idx) {\n  StackValue *sv, *sv2;\n  StackValue *stack = m->stack;\n  sv = dynarr_get(m->locals, StackValue, idx);\n  // check if local variable still on stack.\n  for (int i = 0; i < m->sp; i++) {", "static void opgen_GenLocalTee(ModuleCompiler *m, uint32_t idx) {\n  StackValue *sv, *sv2;\n  StackValue *stack = m->stack;\n  sv = dynarr_get(m->locals, StackValue, idx);\n  // check if local variable still on stack.\n  for (int i = m->sp-1; i > 0; i--) {")],
 WAT='(module (func (export "f") (param i32) (result i32) local.get 0 local.get 0 i32.const 1 i32.add local.tee 0 i32.sub))', RUN='-- f i32:10 = i32:-1'),
dict(ID='s05-frameshift', PROP='P04', NEEDS='aligned frames, a call whose frame has to be moved by four bytes, with two or more arguments that already are on the stack', BREAKS='arguments are moved in the wrong order and overwrite each other',
 EDITS=[(U, "      sv=m->stack+m->sp;\n      for(a=0;a<len;a++){\n        pwart_EmitSaveStack(m,sv);\n        sv--;\n      }\n      //move sp back\n      m->sp-=len;", "      m->sp-=len;\n      for(a=1;a<=len;a++){\n        pwart_EmitSaveStack(m,m->stack+m->sp+a);\n      }\n      //move sp back")],
 WAT='(module (type $t (func (param i32 i32) (result i32))) (func $g (param i32 i32) (result i32) local.get 0 i32.const 10 i32.mul local.get 1 i32.add) (func $h (result i32 i32 i32) i32.const 1 i32.const 2 i32.const 3) (func (export "f") (result i32) call $h call $g i32.add))', RUN=['stack=1 -- f = i32:24', 'stack=0 -- f = i32:24']),
dict(ID='s06-looplabel', PROP='P05', NEEDS='an operand below a loop that is not on the stack yet, and a second iteration in which its register has been reused', BREAKS='operands are saved again on each iteration, from registers that changed',
 EDITS=[(C, "  Block *block;\n  pwart_EmitSaveStackAll(m);\n  block = dynarr_push_type(&m->blocks, Block);\n  block->block_type = 0x3;\n  block->br_label = sljit_emit_label(m->jitc);", "  Block *block;\n  struct sljit_label *lbl = sljit_emit_label(m->jitc);\n  pwart_EmitSaveStackAll(m);\n  block = dynarr_push_type(&m->blocks, Block);\n  block->block_type = 0x3;\n  block->br_label = lbl;")],
 WAT='(module (func (export "f") (param i32) (result i32) local.get 0 i32.const 100 i32.add loop local.get 0 i32.const 1 i32.sub local.tee 0 i32.const 0 i32.gt_s br_if 0 end local.get 0 i32.add))', RUN='-- f i32:5 = i32:105'),
dict(ID='s07-growreload', PROP='P06', NEEDS='memory.grow that moves the memory, followed by an access in the same function without another call', BREAKS='the cached base of the memory is not read again after calls of helper functions such as memory.grow',
 EDITS=[(U, "    if(!mem0->fixed){\n      //reload", "    if(!mem0->fixed && memreg!=SLJIT_IMM){\n      //reload")],
 WAT='(module (memory 1) (func $s (param i32) i32.const 16 local.get 0 i32.store) (func $l (result i32) i32.const 16 i32.load) (func (export "f") (result i32) i32.const 16 i32.const 5 i32.store i32.const 4000 memory.grow drop i32.const 16 i32.const 9 i32.store call $l))', RUN='-- f = i32:9'),
dict(ID='s08-elsezero', PROP='P07', NEEDS='a local assigned in the then arm and read in the else arm, where the register or frame slot holds something else', BREAKS='the else arm reads a local that was not zeroed',
 EDITS=[(G, "        if(sv->val.op>=m->blocks->len)sv->val.op=0xffff;", "        if(sv->val.op>m->blocks->len)sv->val.op=0xffff;")],
 WAT='(module (func (export "f") (param i32) (result i64) (local i64 i64 i64 i64 i64 i64 i64) local.get 0 if (result i64) i64.const 5 local.set 7 local.get 7 else local.get 7 end) (func (export "d") (result i64) (local i64 i64 i64 i64 i64 i64 i64 i64 i64) i64.const -1 local.set 0 i64.const -1 local.set 1 i64.const -1 local.set 2 i64.const -1 local.set 3 i64.const -1 local.set 4 i64.const -1 local.set 5 i64.const -1 local.set 6 i64.const -1 local.set 7 i64.const -1 local.set 8 local.get 8))', RUN='-- d = i64:-1 , f i32:0 = i64:0 , f i32:1 = i64:5'),
dict(ID='s09-lazyglobal', PROP='P08', NEEDS='global.get of an i64 or reference whose value is still on the operand stack when the same global is assigned', BREAKS='global.get does not take the value of the global at that moment',
 EDITS=[(M, "  sv->val.opw=0;\n  sv->jit_type = SVT_GENERAL;\n  pwart_EmitStackValueLoadReg(m, sv);\n}", "  sv->val.opw=0;\n  sv->jit_type = SVT_GENERAL;\n  if(sv->wasm_type != WVT_I64)pwart_EmitStackValueLoadReg(m, sv);\n}")],
 WAT='(module (global $g (mut i64) (i64.const 5)) (func (export "f") (result i64) global.get $g i64.const 9 global.set $g))', RUN='-- f = i64:5'),
dict(ID='s10-memmove', PROP='P09', NEEDS='memory.copy with overlapping ranges, destination above source', BREAKS='overlapping copies go forward',
 EDITS=[(X, "  uint32_t n=pwart_rstack_get_i32(&sp);\n  memmove(d,s,n);", "  uint32_t n=pwart_rstack_get_i32(&sp);\n  char *dc=d,*sc=s;\n  while(n-->0)*dc++=*sc++;")],
 WAT='(module (memory 1) (func (export "f") (result i64) i32.const 0 i64.const 0x0807060504030201 i64.store i32.const 2 i32.const 0 i32.const 8 memory.copy i32.const 2 i64.load))', RUN='-- f = i64:0x0807060504030201'),
dict(ID='s11-fillwide', PROP='P09', NEEDS='table.fill of more entries than an int8 or a fill length with the value in a register reused by the count', BREAKS='memory.fill uses the count as a 16-bit number',
 EDITS=[(X, "    memset(d,val,n);", "    memset(d,val,(uint16_t)n);")],
 WAT='(module (memory 4) (func (export "f") (result i32) i32.const 0 i32.const 7 i32.const 70000 memory.fill i32.const 69999 i32.load8_u))', RUN='-- f = i32:7'),
dict(ID='s12-ifsaved', PROP='P05', NEEDS='an if whose condition is not a comparison and an operand below it still in a register', BREAKS='the bottom operand is not saved before an if, so the two arms disagree on its place',
 EDITS=[(C, "  StackValue *stack = m->stack;\n  // stack top will be remove soon. Don't save it here.\n  for (int i = 0; i < m->sp; i++) {\n    pwart_EmitSaveStack(m, &m->stack[i]);\n  }\n  #if PWART_DEBUG_RUNTIME_PROBE\n  pwart_EmitSaveStackAll(m);\n  sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);\n  sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);\n  #endif\n  block = dynarr_push_type(&m->blocks, Block);\n  block->block_type = 0x4;", "  StackValue *stack = m->stack;\n  // stack top will be remove soon. Don't save it here.\n  for (int i = 1; i < m->sp; i++) {\n    pwart_EmitSaveStack(m, &m->stack[i]);\n  }\n  #if PWART_DEBUG_RUNTIME_PROBE\n  pwart_EmitSaveStackAll(m);\n  sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);\n  sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);\n  #endif\n  block = dynarr_push_type(&m->blocks, Block);\n  block->block_type = 0x4;")],
 WAT='(module (func $n) (func (export "f") (param i32) (result i32) local.get 0 i32.const 3 i32.mul local.get 0 if call $n end i32.const 1 i32.add))', RUN='-- f i32:5 = i32:16 , f i32:0 = i32:1'),
]
