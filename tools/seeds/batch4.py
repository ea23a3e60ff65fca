M='pwart/modparser.c'; U='pwart/util.c'; G='pwart/wagen.c'; O='pwart/opgen_mem.c'; N='pwart/namespace.c'; P='pwart/pwart.c'; X='pwart/extfunc.c'; S='pwart/opgen_utils.c'; C='pwart/opgen_ctl.c'; B='pwart/opgen_misc.c'
H=open('/verif/tools/seeds/common.h').read()
SH=open('/verif/tools/demo_c.sh').read()
def cdemo(**k):
    src=k.pop('C'); k['FILES']={'demo.c':H+src,'demo.sh':SH}; 
    for n,t in k.pop('WATS',{}).items(): k['FILES'][n]=t
    SEEDS.append(k)
cdemo(ID='s26-prefixname', PROP='P13', NEEDS='two modules of a namespace, one with a name that begins with the name of the other, defined in this order', BREAKS='the longer name finds the module with the shorter name',
 EDITS=[(N,'        if(strcmp(m->name,name)==0){','        if(strncmp(m->name,name,strlen(m->name))==0){')],
 C='''static void res(struct pwart_host_module *h,struct pwart_symbol_resolve_request *r){r->result=h;}
int main(){static struct pwart_host_module a={0},b={0};a.resolve=b.resolve=&res;pwart_namespace ns=pwart_namespace_new();
pwart_namespace_define_host_module(ns,"env",&a);pwart_namespace_define_host_module(ns,"env2",&b);
struct pwart_named_module *m=pwart_namespace_find_module(ns,"env2");if(!m||m->val.host!=&b)FAIL("env2 is another module");
if(pwart_namespace_find_module(ns,"environment"))FAIL("found a module that was never defined");
m=pwart_namespace_find_module(ns,"env");if(!m||m->val.host!=&a)FAIL("env is another module");return 0;}''')
cdemo(ID='s27-stackpad', PROP='P14', NEEDS='a stack size for which the padding ends the allocation, and an allocator that returns 16-byte aligned blocks', BREAKS='the last byte of an allocated stack is outside of the allocation',
 EDITS=[(P,'    uint8_t *mem=wa_malloc(size+16);','    uint8_t *mem=wa_malloc(size+15);')],
 C='''#include <malloc.h>
static size_t last;void *malloc(size_t n){extern void *__libc_malloc(size_t);last=n;return __libc_malloc(n);}
int main(){for(int n=9;n<200;n++){unsigned char *s=pwart_allocate_stack(n);unsigned char *b=s-s[-1];if((size_t)s&15)FAIL("not aligned");if(s+n>b+malloc_usable_size(b))FAIL("stack is larger than its memory");pwart_free_stack(s);}return 0;}''')
cdemo(ID='s28-getf64align', PROP='P14', NEEDS='operand alignment and an f64 after an odd number of 32-bit values read by pwart_rstack_get_f64', BREAKS='the value is read before the frame pointer was aligned',
 EDITS=[(P,'''extern double pwart_rstack_get_f64(void **sp){
''','''extern double pwart_rstack_get_f64(void **sp){
    double *sp2=*sp;
'''),(P,'''    double *sp2=*sp;
    *sp+=8;
    return *sp2;''','''    *sp+=8;
    return *sp2;''')],
 C='''int main(){struct pwart_global_compile_config c;pwart_get_global_compile_config(&c);c.stack_flags|=PWART_STACK_FLAGS_AUTO_ALIGN;pwart_set_global_compile_config(&c);
char *s=pwart_allocate_stack(4096);memset(s,0x55,4096);void *p=s;pwart_rstack_put_i32(&p,7);pwart_rstack_put_f64(&p,2.5);p=s;
if(pwart_rstack_get_i32(&p)!=7)FAIL("i32");if(pwart_rstack_get_f64(&p)!=2.5)FAIL("f64");return 0;}''')
cdemo(ID='s29-growfromzero', PROP='P15', NEEDS='memory.grow of a memory that has no pages yet, when the allocator recycles memory', BREAKS='the new pages are not cleared',
 EDITS=[(X,'  if(!mem->fixed){\n    memset','  if(!mem->fixed && prev_pages>0){\n    memset')],
 WATS={'m.wat':'(module (memory (export "m") 0) (func (export "f") (result i32) i32.const 1 memory.grow))'},
 C='''#include <malloc.h>
/* an allocator that moves blocks and recycles dirty memory */
void *realloc(void *p,size_t n){char *q=malloc(n);if(!q)return q;memset(q,0xee,n);if(p){size_t o=malloc_usable_size(p);memcpy(q,p,o<n?o:n);free(p);}return q;}
int main(){char *e=0;pwart_module_state m=pwart_load_module(buf,rd("m.wasm"),&e);if(!m)FAIL(e);void *stk=pwart_allocate_stack(64*1024);
pwart_call_wasm_function(pwart_get_export_function(m,"f"),stk);struct pwart_wasm_memory *mem=pwart_get_export_memory(m,"m");
if(mem->pages!=1)FAIL("not grown");for(int i=0;i<65536;i++)if(mem->bytes[i])FAIL("new page is not zero");return 0;}''')
cdemo(ID='s30-lenlimit', PROP='P18', NEEDS='ref_string_length of a string with 65536 or more characters', BREAKS='the length is taken modulo 65536',
 EDITS=[(X,'  uint32_t n=strlen(s);','  uint16_t n=strlen(s);')],
 WATS={'m.wat':'(module (import "pwart_builtin" "ref_string_length" (func $l (param i64) (result i32))) (func (export "f") (param i64) (result i32) local.get 0 call $l))'},
 C='''static char big[70001];int main(){char *e=0;memset(big,'a',70000);pwart_module_state m=pwart_load_module(buf,rd("m.wasm"),&e);if(!m)FAIL(e);void *stk=pwart_allocate_stack(64*1024),*p=stk;
pwart_rstack_put_ref(&p,big);pwart_call_wasm_function(pwart_get_export_function(m,"f"),stk);p=stk;if(pwart_rstack_get_i32(&p)!=70000)FAIL("wrong length");return 0;}''')
cdemo(ID='s31-importfield', PROP='P18', NEEDS='the builtin import function with a kind other than function', BREAKS='the kind of the request is ignored',
 EDITS=[(X,'  req.kind=pwart_rstack_get_i32(&sp);\n','  req.kind=PWART_KIND_FUNCTION;\n  pwart_rstack_get_i32(&sp);\n')],
 WATS={'m.wat':'(module (import "pwart_builtin" "get_self_runtime_context" (func $s (result i64))) (import "pwart_builtin" "import" (func $i (param i64 i64 i64 i32) (result i64))) (func (export "f") (param i64 i64 i32) (result i64) call $s local.get 0 local.get 1 local.get 2 call $i))'},
 C='''static void res(struct pwart_host_module *h,struct pwart_symbol_resolve_request *r){r->result=(void *)(size_t)(0x1000+r->kind);}
int main(){char *e=0;static struct pwart_host_module a={0};a.resolve=&res;pwart_namespace ns=pwart_namespace_new();pwart_namespace_define_host_module(ns,"h",&a);
pwart_module_state m=pwart_namespace_define_wasm_module(ns,"m",buf,rd("m.wasm"),&e);if(!m)FAIL(e);void *stk=pwart_allocate_stack(64*1024);
for(int k=0;k<4;k++){void *p=stk;pwart_rstack_put_ref(&p,"h");pwart_rstack_put_ref(&p,"x");pwart_rstack_put_i32(&p,k);pwart_call_wasm_function(pwart_get_export_function(m,"f"),stk);p=stk;if((size_t)pwart_rstack_get_ref(&p)!=0x1000+k)FAIL("wrong kind asked");}return 0;}''')
SEEDS.append(dict(ID='s32-reloadfirst', PROP='P06', NEEDS='two memories, the first fixed, the second growable and the most used one, accessed after a call that grows it', BREAKS='whether the cached base is read again is decided by the kind of memory 0',
 EDITS=[(S,'''    Memory *mem0=*dynarr_get(m->context->memories,Memory *,m->cached_midx);
    if(!mem0->fixed){''','''    Memory *mem0=*dynarr_get(m->context->memories,Memory *,0);
    if(!mem0->fixed){
      mem0=*dynarr_get(m->context->memories,Memory *,m->cached_midx);''')],
 WAT='''(module (memory $a 1 3) (memory $b 1)
 (func $g i32.const 4000 memory.grow $b drop)
 (func $w i32.const 16 i32.const 42 i32.store $b)
 (func (export "f") (result i32) (local i32) i32.const 16 i32.load $b local.set 0 i32.const 16 i32.const 9 i32.store $b call $g call $w i32.const 16 i32.load $b))''', RUN='-- f = i32:42'))
