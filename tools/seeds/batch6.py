M='pwart/modparser.c'; N='pwart/namespace.c'; P='pwart/pwart.c'
XC='sljit/sljit_src/sljitNativeX86_common.c'; X6='sljit/sljit_src/sljitNativeX86_64.c'; SL='sljit/sljit_src/sljitLir.c'; SS='sljit/sljit_src/sljitSerialize.c'; AL='sljit/sljit_src/allocator_src/sljitExecAllocatorCore.c'
H=open('/verif/tools/seeds/common.h').read()
SH=open('/verif/tools/demo_c.sh').read()
SJ=open('/verif/tools/demo_sj.sh').read()
HJ='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "sljitLir.h"
#define FAIL(x) do{printf("%s\\n",x);return 1;}while(0)
typedef sljit_sw (*F3)(sljit_sw,sljit_sw,sljit_sw);
static struct sljit_compiler *c;
#define R(n) SLJIT_R(n)
#define S(n) SLJIT_S(n)
#define I SLJIT_IMM
static F3 fin(void){F3 f=(F3)sljit_generate_code(c,0,NULL);sljit_free_compiler(c);return f;}
'''
def cdemo(**k):
    src=k.pop('C'); k['FILES']={'demo.c':H+src,'demo.sh':SH}
    for n,t in k.pop('WATS',{}).items(): k['FILES'][n]=t
    SEEDS.append(k)
def sjdemo(**k):
    src=k.pop('C'); k['FILES']={'demo.c':HJ+src,'demo.sh':SJ}
    SEEDS.append(k)
cdemo(ID='s43-nscache', PROP='P26', NEEDS='a namespace that is deleted and another one that gets the same address, with the same module at another place', BREAKS='a lookup cache in static storage is shared by all namespaces, so a new one finds the place a deleted one had for the name',
 EDITS=[(N,'''    Namespace *n=(Namespace *)ns;
    int i=0;
    for(i=0;i<n->mods->len;i++){
        struct pwart_named_module *m=dynarr_get(n->mods,struct pwart_named_module,i);
        if(strcmp(m->name,name)==0){
            return m;
        }
    }
    return NULL;''','''    static Namespace *lastNs=NULL;
    static char lastName[64];
    static int lastIndex=0;
    Namespace *n=(Namespace *)ns;
    int i=0;
    if(n==lastNs && strcmp(name,lastName)==0 && lastIndex<n->mods->len){
        return dynarr_get(n->mods,struct pwart_named_module,lastIndex);
    }
    for(i=0;i<n->mods->len;i++){
        struct pwart_named_module *m=dynarr_get(n->mods,struct pwart_named_module,i);
        if(strcmp(m->name,name)==0){
            if(strlen(name)<sizeof(lastName)){
                lastNs=n;
                strcpy(lastName,name);
                lastIndex=i;
            }
            return m;
        }
    }
    return NULL;''')],
 C='''static void res(struct pwart_host_module *h,struct pwart_symbol_resolve_request *r){r->result=h;}
int main(){static struct pwart_host_module a={0},b={0},x={0};a.resolve=b.resolve=x.resolve=&res;
for(int k=0;k<50;k++){pwart_namespace n1=pwart_namespace_new();pwart_namespace_define_host_module(n1,"x",&x);pwart_namespace_define_host_module(n1,"env",&a);
struct pwart_named_module *m=pwart_namespace_find_module(n1,"env");if(!m||m->val.host!=&a)FAIL("first namespace");pwart_namespace_delete(n1);
pwart_namespace n2=pwart_namespace_new();pwart_namespace_define_host_module(n2,"env",&b);pwart_namespace_define_host_module(n2,"x",&x);
m=pwart_namespace_find_module(n2,"env");if(!m||m->val.host!=&b)FAIL("second namespace gives another module");pwart_namespace_delete(n2);}return 0;}''')
cdemo(ID='s44-stickyextend', PROP='P26', NEEDS='a module with a very large fixed memory loaded before another module', BREAKS='loading the module changes the global compile configuration for all later modules',
 EDITS=[(M,'''                    *dynarr_push_type(&m->context->memories,Memory *)=mval;
''','''                    if(mval->fixed && mval->maximum>0x10000){
                        /* addresses may need more than 31 bits. */
                        pwart_gcfg.misc_flags|=PWART_MISC_FLAGS_EXTEND_INDEX;
                    }
                    *dynarr_push_type(&m->context->memories,Memory *)=mval;
''')],
 WATS={'m.wat':'(module (import "pwart_builtin" "native_memory" (memory 0)) (func (export "f") (result i32) i32.const 1))'},
 C='''int main(){char *e=0;struct pwart_global_compile_config c,d;pwart_get_global_compile_config(&c);c.misc_flags&=~PWART_MISC_FLAGS_EXTEND_INDEX;pwart_set_global_compile_config(&c);
pwart_module_state m=pwart_load_module(buf,rd("m.wasm"),&e);if(!m)FAIL(e);pwart_get_global_compile_config(&d);
if(c.misc_flags!=d.misc_flags||c.stack_flags!=d.stack_flags)FAIL("loading a module changed the configuration");return 0;}''')
cdemo(ID='s45-builtinlimit', PROP='P26', NEEDS='a module that imports the builtin memory with a maximum, and then one that needs more', BREAKS='the declared maximum of one import is written into the process-wide builtin memory',
 EDITS=[(M,'''                    *dynarr_push_type(&m->context->memories,Memory *)=mval;
''','''                    if(mval->fixed && info.mem.initial>0 && info.mem.maximum<mval->maximum){
                        mval->maximum=info.mem.maximum;
                    }
                    *dynarr_push_type(&m->context->memories,Memory *)=mval;
''')],
 WATS={'m.wat':'(module (import "pwart_builtin" "native_memory" (memory 1 2)) (func (export "f") (result i32) i32.const 1))','n.wat':'(module (import "pwart_builtin" "native_memory" (memory 3)) (func (export "f") (result i32) i32.const 1))'},
 C='''int main(){char *e=0;pwart_module_state m=pwart_load_module(buf,rd("m.wasm"),&e);if(!m)FAIL(e);m=pwart_load_module(buf,rd("n.wasm"),&e);if(!m)FAIL(e);return 0;}''')
sjdemo(ID='s47-leaimm', PROP='P21', NEEDS='64-bit addition of a register to a first operand constant between 2^31 and 2^32, into a third register', BREAKS='the constant is sign-extended',
 EDITS=[(XC,'		if (src1 == SLJIT_IMM && (compiler->mode32 || IS_HALFWORD(src1w))) {\n			inst = emit_x86_instruction(compiler, 1, dst_r, 0, SLJIT_MEM1(src2), (sljit_s32)src1w);','		if (src1 == SLJIT_IMM && (compiler->mode32 || (src1w >> 32) == 0 || IS_HALFWORD(src1w))) {\n			inst = emit_x86_instruction(compiler, 1, dst_r, 0, SLJIT_MEM1(src2), (sljit_s32)src1w);')],
 C='''int main(){c=sljit_create_compiler(NULL);sljit_emit_enter(c,0,SLJIT_ARGS1(W,W),3,3,0);
sljit_emit_op2(c,SLJIT_ADD,R(0),0,I,0x90000000L,S(0),0);sljit_emit_return(c,SLJIT_MOV,R(0),0);
if(fin()(5,0,0)!=0x90000005L)FAIL("wrong sum");return 0;}''')
sjdemo(ID='s48-shiftflags', PROP='P21', NEEDS='a shift with a variable count of zero, flags wanted, and a destination in memory that differs from the source', BREAKS='the zero flag is that of the old destination',
 EDITS=[(XC,'		FAIL_IF(emit_cmp_binary(compiler, src1, src1w, SLJIT_IMM, 0));\n\n	FAIL_IF(emit_shift(','		FAIL_IF(emit_cmp_binary(compiler, dst, dstw, SLJIT_IMM, 0));\n\n	FAIL_IF(emit_shift(')],
 C='''int main(){sljit_sw m[2]={7,7};c=sljit_create_compiler(NULL);sljit_emit_enter(c,0,SLJIT_ARGS3(W,W,W,W),3,3,0);
sljit_emit_op2(c,SLJIT_SHL|SLJIT_SET_Z,SLJIT_MEM1(S(0)),0,S(1),0,S(2),0);sljit_emit_op_flags(c,SLJIT_MOV,R(0),0,SLJIT_ZERO);sljit_emit_return(c,SLJIT_MOV,R(0),0);
F3 f=fin();if(f((sljit_sw)m,0,0)!=1)FAIL("zero flag of a shift by zero");m[0]=0;if(f((sljit_sw)m,5,0)!=0)FAIL("zero flag of a shift by zero");return 0;}''')
sjdemo(ID='s50-mergeprev', PROP='P23', NEEDS='three neighbouring blocks, the middle one freed first, then the one before it, then the one after it', BREAKS='after merging with the following block the size stored behind it is stale, so the next release merges wrongly',
 EDITS=[(AL,'''		free_block->size += ((struct free_block*)header)->size;
		sljit_remove_free_block((struct free_block*)header);
		header = AS_BLOCK_HEADER(free_block, free_block->size);
		header->prev_size = free_block->size;''','''		free_block->size += ((struct free_block*)header)->size;
		sljit_remove_free_block((struct free_block*)header);
		header = AS_BLOCK_HEADER(free_block, free_block->size);''')],
 C='''int main(){char *p[64];int i,n=40;for(i=0;i<n;i++){p[i]=sljit_malloc_exec(1000);if(!p[i])FAIL("no memory");memset(p[i],i+1,1000);}
/* blocks are cut from the end of free space: find three neighbours */
for(i=1;i+2<n;i++){if(p[i+1]<p[i]&&p[i]-p[i+1]<1100&&p[i+2]<p[i+1]&&p[i+1]-p[i+2]<1100)break;}if(i+2>=n)return 0;
char *lo=p[i+2],*hi=p[i]+1000;
sljit_free_exec(p[i+1]);sljit_free_exec(p[i+2]);sljit_free_exec(p[i]);
/* the three make one free block: some of the next allocations of its size get it before new memory is mapped for ever */
for(int k=0;k<200;k++){char *a=sljit_malloc_exec(2900);if(!a)FAIL("no memory");if(a>=lo&&a<hi)return 0;}
FAIL("released memory is never used again");}''')
sjdemo(ID='s51-mulimmoom', PROP='P24', NEEDS='memory running out exactly between the two buffer requests of a multiplication by a 32-bit constant', BREAKS='the failed second request is not noticed and NULL is written to',
 EDITS=[(XC,'''			inst = (sljit_u8*)ensure_buf(compiler, 1 + 4);
			FAIL_IF(!inst);
			INC_SIZE(4);
			sljit_unaligned_store_s32(inst, (sljit_s32)src2w);''','''			inst = (sljit_u8*)ensure_buf(compiler, 1 + 4);
			INC_SIZE(4);
			sljit_unaligned_store_s32(inst, (sljit_s32)src2w);''')],
 C='''static int left=-1;extern void *__libc_malloc(size_t);void *malloc(size_t n){if(left==0)return NULL;if(left>0)left--;return __libc_malloc(n);}
int main(){for(int k=0;k<5000;k++){left=-1;c=sljit_create_compiler(NULL);sljit_emit_enter(c,0,SLJIT_ARGS0(W),3,3,0);
for(int j=0;j<k;j++)sljit_emit_op0(c,SLJIT_NOP);left=0;sljit_emit_op2(c,SLJIT_MUL,R(0),0,R(1),0,I,100000);left=-1;
int e=sljit_get_compiler_error(c);if(e!=SLJIT_SUCCESS&&e!=SLJIT_ERR_ALLOC_FAILED)FAIL("error");sljit_free_compiler(c);}return 0;}''')
