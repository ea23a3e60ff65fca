M='pwart/modparser.c'; U='pwart/util.c'; G='pwart/wagen.c'
import os
H=open('/verif/tools/seeds/common.h').read()
SH=open('/verif/tools/demo_c.sh').read()
def cdemo(**k):
    src=k.pop('C'); k['FILES']={'demo.c':H+src,'demo.sh':SH}; 
    for n,t in k.pop('WATS',{}).items(): k['FILES'][n]=t
    SEEDS.append(k)
cdemo(ID='s13-longexport', PROP='P11', NEEDS='two exports of the same kind whose names agree in the first 32 bytes', BREAKS='export lookup compares only 32 bytes of the name',
 EDITS=[(M,'if (strncmp(name, ename, 256) == 0) {','if (strncmp(name, ename, 32) == 0) {')],
 WATS={'m.wat':'(module (global (export "a_rather_long_exported_name_of_item_1") i32 (i32.const 1)) (global (export "a_rather_long_exported_name_of_item_2") i32 (i32.const 2)))'},
 C='''int main(){char *e=0;pwart_module_state m=pwart_load_module(buf,rd("m.wasm"),&e);if(!m)FAIL(e);
int *a=pwart_get_export_global(m,"a_rather_long_exported_name_of_item_1"),*b=pwart_get_export_global(m,"a_rather_long_exported_name_of_item_2");
if(!a||!b||*a!=1||*b!=2)FAIL("wrong export");if(pwart_get_export_global(m,"a_rather_long_exported_name_of_item_3"))FAIL("export that does not exist");return 0;}''')
cdemo(ID='s14-owntable', PROP='P11', NEEDS='a module that imports a table, defines another one and exports the imported one', BREAKS='table exports are taken from the own tables although the index counts imported ones first',
 EDITS=[(M,'                        exp->value = *dynarr_get(m->context->tables,Table *,index);','                        exp->value = index<m->context->own_tables_count?m->context->own_tables+index:*dynarr_get(m->context->tables,Table *,index);')],
 WATS={'m.wat':'(module (import "h" "t" (table 1 funcref)) (table 5 funcref) (export "a" (table 0)) (export "b" (table 1)))'},
 C='''static struct pwart_wasm_table t;
static void res(struct pwart_symbol_resolver *r,struct pwart_symbol_resolve_request *q){q->result=&t;}
int main(){static void *en[4];static struct pwart_symbol_resolver r;r.resolve=res;t.elem_type=0x70;t.initial=t.maximum=t.size=4;t.entries=en;
pwart_module_compiler c=pwart_new_module_compiler();pwart_set_symbol_resolver(c,&r);char *e=pwart_compile(c,buf,rd("m.wasm"));if(e)FAIL(e);
pwart_module_state m=pwart_get_module_state(c);if(pwart_get_export_table(m,"a")!=&t)FAIL("wrong table a");
struct pwart_wasm_table *b=pwart_get_export_table(m,"b");if(!b||b==&t||b->size!=5)FAIL("wrong table b");return 0;}''')
RES='''static int one=1;
static void res(struct pwart_symbol_resolver *r,struct pwart_symbol_resolve_request *q){%s}
static char *load(){static struct pwart_symbol_resolver r;r.resolve=res;pwart_module_compiler c=pwart_new_module_compiler();pwart_set_symbol_resolver(c,&r);
char *e=pwart_compile(c,buf,rd("m.wasm"));return e;}
'''
cdemo(ID='s15-stickyresult', PROP='P12', NEEDS='an import nobody provides after an import that was provided, with a resolver that leaves the result alone', BREAKS='the missing import is bound to the object of the import before it',
 EDITS=[(M,'                    struct pwart_symbol_resolve_request req;','                    static struct pwart_symbol_resolve_request req;'),(M,'                    req.result=NULL;','                    if(gidx==0)req.result=NULL;')],
 WATS={'m.wat':'(module (import "h" "a" (global i32)) (import "h" "b" (global i32)))'},
 C=RES%'if(!strcmp(q->import_field,"a"))q->result=&one;'+'int main(){char *e=load();if(!e)FAIL("module with a missing import was accepted");return 0;}')
cdemo(ID='s16-builtinoverride', PROP='P12', NEEDS='a resolver that provides its own version of a builtin symbol', BREAKS='the resolver is not asked for symbols of the builtin module',
 EDITS=[(M,'                if(m->import_resolver!=NULL){','                if(m->import_resolver!=NULL && strcmp("pwart_builtin",import_module)!=0){')],
 WATS={'m.wat':'(module (import "pwart_builtin" "version" (func)) (export "v" (func 0)))'},
 C='''static int asked;static void *mine(void *p){return p;}
static void res(struct pwart_symbol_resolver *r,struct pwart_symbol_resolve_request *q){asked++;q->result=(void*)pwart_wrap_host_function_c;}
int main(){static struct pwart_symbol_resolver r;r.resolve=res;pwart_module_compiler c=pwart_new_module_compiler();pwart_set_symbol_resolver(c,&r);
char *e=pwart_compile(c,buf,rd("m.wasm"));if(e)FAIL(e);if(!asked)FAIL("resolver not asked");
if(pwart_get_export_function(pwart_get_module_state(c),"v")!=(void*)pwart_wrap_host_function_c)FAIL("import not bound to what the resolver gave");return 0;}''')
cdemo(ID='s17-growable', PROP='P12', NEEDS='a growable host memory whose maximum is below the declared minimum', BREAKS='the size of growable imported memories is not checked',
 EDITS=[(M,'                    if(info.mem.initial>mval->maximum){','                    if(mval->fixed && info.mem.initial>mval->maximum){')],
 WATS={'m.wat':'(module (import "h" "m" (memory 3)))'},
 C='static struct pwart_wasm_memory mm;static char mb[65536];'+RES%'mm.initial=mm.maximum=mm.pages=1;mm.bytes=mb;mm.fixed=0;q->result=&mm;'+'int main(){char *e=load();if(!e)FAIL("memory that is too small was accepted");return 0;}')
LEAK='''#include <malloc.h>
static size_t used(){struct mallinfo2 i=mallinfo2();return i.uordblks+i.hblkhd;}
'''
cdemo(ID='s18-lastchunk', PROP='P16', NEEDS='more than one chunk of names or types, that is more than 256 bytes of export names', BREAKS='only the first chunk of a pool is released',
 EDITS=[(U,'    for(int i=0;i<p->chunks->len;i++){\n        wa_free(*dynarr_get(p->chunks,char *,i));','    for(int i=0;i<=p->cur && i<1;i++){\n        wa_free(*dynarr_get(p->chunks,char *,i));')],
 WATS={'m.wat':'(module (memory 1)'+''.join('(export "%s%d" (memory 0))'%('x'*100,k) for k in range(6))+')'},
 C=LEAK+'''int main(){int n=rd("m.wasm");size_t u=0;for(int i=0;i<20;i++){char *e=0;pwart_module_state m=pwart_load_module(buf,n,&e);if(!m)FAIL(e);pwart_free_module_state(m);
if(i==4)u=used();}if(used()>u+1000)FAIL("memory is leaked");return 0;}''')
cdemo(ID='s19-ownlist', PROP='P16', NEEDS='a module with at least two own memories', BREAKS='only the last own memory of an instance is released',
 EDITS=[(M,'        for(i=0;i<rc->own_memories_count;i++){\n            Memory *mem=rc->own_memories+i;','        for(i=rc->own_memories_count-1;i==rc->own_memories_count-1;i++){\n            Memory *mem=rc->own_memories+i;')],
 WATS={'m.wat':'(module (memory 1) (memory 1))'},
 C=LEAK+'''int main(){int n=rd("m.wasm");size_t u=0;for(int i=0;i<20;i++){char *e=0;pwart_module_state m=pwart_load_module(buf,n,&e);if(!m)FAIL(e);pwart_free_module_state(m);
if(i==4)u=used();}if(used()>u+1000)FAIL("memory is leaked");return 0;}''')
cdemo(ID='s21-results256', PROP='P17', NEEDS='a function type with exactly 256 results', BREAKS='the limit of results is off by one and the process is ended by the allocator assertion',
 EDITS=[(M,'                if(count2>255)return "type group too long.(should less than 256)";\n                type->results=','                if(count2>256)return "type group too long.(should less than 256)";\n                type->results=')],
 C='''int main(){char h[]={0,'a','s','m',1,0,0,0,1,0x86,2,1,0x60,0,0x80,2};memcpy(buf,h,sizeof h);memset(buf+sizeof h,0x7f,256);
char *e=0;pwart_module_state m=pwart_load_module(buf,sizeof h+256,&e);if(m||!e)FAIL("accepted");return 0;}''')
cdemo(ID='s22-blocktype', PROP='P17', NEEDS='a block whose type is a type index', BREAKS='a block with a type index is compiled as a block with one result',
 EDITS=[('pwart/opgen_ctl.c','  }else if(((*(m->bytes+m->pc))&0xC0)==0x40){','  }else if(((*(m->bytes+m->pc))&0x80)==0){')],
 WATS={'m.wat':'(module (func (result i32 i32) (block (result i32 i32) i32.const 1 i32.const 2)))'},
 C='''int main(){char *e=0;pwart_module_state m=pwart_load_module(buf,rd("m.wasm"),&e);if(m||!e)FAIL("accepted");return 0;}''')
