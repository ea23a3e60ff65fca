import re
W='pwart_syslib/libwasi.c'; V='pwart_syslib/libuv.c'; F='pwart_syslib/libffi.c'; L='pwart_syslib/pwart_syslib.c'
STUB=open('/verif/pwsa/stubs/uvwasi.h').read()
REC='''#define _GNU_SOURCE
#include <pwart.h>
#include <pwart_syslib.h>
#include <uv.h>
#include <uvwasi.h>
#include <ffi.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define FAIL(x) do { printf("%s\\n", x); return 1; } while (0)
/* what the last call of a uvwasi function was given */
static char called[64]; static uint64_t A[16]; static struct { void *buf; uint32_t len; } IOV[64]; static uint16_t RET;
'''
for l in STUB.splitlines():
    m=re.match(r'U\((\w+)(?:, (.*))?\);$',l)
    if not m: continue
    ps=[p.strip() for p in (m.group(2) or '').split(', ') if p.strip()]
    b='strcpy(called,"%s");'%m.group(1)
    for k,p in enumerate(ps):
        n=re.search(r'(\w+)$',p).group(1); b+='A[%d]=(uint64_t)%s%s;'%(k,'(uintptr_t)' if '*' in p else '',n)
        if 'iovec_t' in p: b+='for(unsigned j=0;j<%s_len&&j<64;j++){IOV[j].buf=(void *)%s[j].buf;IOV[j].len=%s[j].buf_len;}'%(n,n,n)
    REC+='uvwasi_errno_t uvwasi_%s(uvwasi_t *uvwasi%s){%sreturn %s;}\n'%(m.group(1),''.join(', '+p for p in ps),b,'0' if m.group(1)=='init' else 'RET')
REC=REC.replace('strcpy(called,"init");A[0]=(uint64_t)(uintptr_t)options;','INIT')
REC=REC.replace('INIT','''static char *v[16];static char txt[256];char *p=txt;for(unsigned k=0;k<options->argc;k++){v[k]=p;p=stpcpy(p,options->argv[k])+1;}uvwasi->argc=options->argc;uvwasi->argv=v;uvwasi->argv_buf=txt;uvwasi->argv_buf_size=p-txt;''')
REC+='''void uvwasi_destroy(uvwasi_t *u){} void uvwasi_options_init(uvwasi_options_t *o){memset(o,0,sizeof *o);} const char *uvwasi_embedder_err_code_to_string(uvwasi_errno_t c){return "";}
/* a function of a host module, called with 32-bit and 64-bit arguments ("il...") */
static void *fn(struct pwart_host_module *m,const char *n){struct pwart_symbol_resolve_request r={0};r.import_module="m";r.import_field=(char *)n;r.kind=PWART_KIND_FUNCTION;m->resolve(m,&r);if(!r.result){printf("no %s\\n",n);exit(1);}return r.result;}
static char *stk;
static void *call(void *f,const char *sig,const uint64_t *v){memset(stk,0x5a,4096);void *sp=stk;for(;*sig;sig++,v++){if(*sig=='i')pwart_rstack_put_i32(&sp,*v);else pwart_rstack_put_i64(&sp,*v);}pwart_call_wasm_function(f,stk);return stk;}
#define CALL(m,n,sig,...) call(fn(m,n),sig,(uint64_t[]){__VA_ARGS__})
static uint8_t *bytes; static struct pwart_wasm_memory mem;
static struct pwart_host_module *wasi(int argc,char **argv){stk=pwart_allocate_stack(65536);bytes=calloc(1,1<<20);mem.bytes=bytes;mem.pages=16;mem.maximum=16;
pwart_wasi_module_set_wasimemory(&mem);pwart_wasi_module_set_wasiargs(argc,argv);if(pwart_wasi_module_init())exit(2);return pwart_wasi_module_new();}
'''
SH='''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/pwdemo.XXXXXX)
trap 'rm -r "$W"' EXIT
I="-w -O1 -DPWART_SYSLIB_LIBFFI_ENABLED -I/repo/include -I$D"
gcc $I -c /repo/pwart_syslib/pwart_syslib.c -o "$W/syslib.o" || exit 2
gcc $I "$D/demo.c" "$W/syslib.o" -o "$W/demo" /repo/_build/cmake/libpwart.a -lffi -luv -lm -lpthread -ldl || exit 2
cd "$W"
timeout 60 ./demo >demo.log 2>&1
r=$?
[ $r = 0 ] || { tail -3 demo.log; exit 1; }
exit 0
'''
def sdemo(**k):
    src=k.pop('C'); k['FILES']={'demo.c':'#include "rec.h"\n'+src,'demo.sh':SH,'uvwasi.h':STUB,'rec.h':REC}
    SEEDS.append(k)
sdemo(ID='s33-readdircookie', PROP='P19', NEEDS='fd_readdir with a cookie of 2^32 or more', BREAKS='the cookie is cut to 32 bits and the argument after it is read from the wrong place',
 EDITS=[(W,'_wargi32(buf_len) _wargi64(cookie)','_wargi32(buf_len) uint32_t cookie=pwart_rstack_get_i64(&sp);')],
 C='int main(){struct pwart_host_module *m=wasi(0,NULL);CALL(m,"fd_readdir","iiili",3,64,32,0x500000001,200);if(A[3]!=0x500000001||A[1]!=(uint64_t)(bytes+64)||A[2]!=32||A[4]!=(uint64_t)(bytes+200))FAIL("fd_readdir got other arguments");return 0;}')
sdemo(ID='s34-renumber', PROP='P19', NEEDS='fd_renumber of two different descriptors', BREAKS='the descriptors change places',
 EDITS=[(W,'uvwasi_fd_renumber(&uvwc, from, to)','uvwasi_fd_renumber(&uvwc, to, from)')],
 C='int main(){struct pwart_host_module *m=wasi(0,NULL);CALL(m,"fd_renumber","ii",5,9);if(A[0]!=5||A[1]!=9)FAIL("fd_renumber changed its arguments");return 0;}')
sdemo(ID='s35-argsecond', PROP='P19', NEEDS='args_get with a buffer that is not at the same address as the pointers, and two arguments', BREAKS='the addresses of the arguments count from the array of pointers',
 EDITS=[(W,'pargv[i]=(uint32_t)(uvwc.argv[i]-uvwc.argv_buf+argv_buf);','pargv[i]=(uint32_t)(uvwc.argv[i]-uvwc.argv[0]+(i?argv+4*uvwc.argc:argv_buf));')],
 C='''int main(){char *v[]={"a","bc","d"};struct pwart_host_module *m=wasi(3,v);CALL(m,"args_get","ii",64,5000);uint32_t *p=(void *)(bytes+64);
for(int i=0;i<3;i++)if(p[i]>=1<<20||strcmp(bytes+p[i],v[i]))FAIL("argument is another one");return 0;}''')
sdemo(ID='s36-ciovlen', PROP='P19', NEEDS='fd_pwrite with two buffers that differ in length', BREAKS='every buffer gets the length of the first one',
 EDITS=[(W,'''  uvwasi_ciovec_t *iovs2=sp;
  uint32_t i;
  for(i=0;i<iovs_len;i++){
    iovs2[i].buf=uwmem->bytes+*(uint32_t *)(uwmem->bytes + iovs + 8*i);
    iovs2[i].buf_len=*(uint32_t *)(uwmem->bytes + iovs + 8*i+4);
  }
  uvwasi_errno_t err =
      uvwasi_fd_pwrite(''','''  uvwasi_ciovec_t *iovs2=sp;
  uint32_t i;
  for(i=0;i<iovs_len;i++){
    iovs2[i].buf=uwmem->bytes+*(uint32_t *)(uwmem->bytes + iovs + 8*i);
    iovs2[i].buf_len=*(uint32_t *)(uwmem->bytes + iovs +4);
  }
  uvwasi_errno_t err =
      uvwasi_fd_pwrite(''')],
 C='''int main(){struct pwart_host_module *m=wasi(0,NULL);for(int rep=0;rep<2;rep++){uint32_t *p=(void *)(bytes+80);p[0]=1000;p[1]=7;p[2]=3000;p[3]=rep?7:11;
CALL(m,"fd_pwrite","iiili",1,80,2,5,16);for(int j=0;j<2;j++)if(IOV[j].buf!=bytes+p[2*j]||IOV[j].len!=p[2*j+1])FAIL("buffer is another one");}return 0;}''')
sdemo(ID='s37-envempty', PROP='P19', NEEDS='an environment variable with an empty value', BREAKS='the size of the environment leaves out the terminator of empty values',
 EDITS=[(W,'size+=strlen(penv[i].name)+strlen(penv[i].value)+2;','size+=strlen(penv[i].name)+strlen(penv[i].value)+1+(penv[i].value[0]!=0);')],
 C='''int main(){clearenv();setenv("A","1",1);setenv("EMPTY","",1);struct pwart_host_module *m=wasi(0,NULL);CALL(m,"environ_sizes_get","ii",8,12);
if(*(uint32_t *)(bytes+8)!=2||*(uint32_t *)(bytes+12)!=11)FAIL("size of the environment");return 0;}''')
sdemo(ID='s38-threadarg', PROP='P20', NEEDS='uv_thread_create with an argument of 2^32 or more', BREAKS='the thread gets the low half of its argument only',
 EDITS=[(V,'    pwart_wasm_function wasmentry;\n    uint64_t arg;','    pwart_wasm_function wasmentry;\n    uint32_t arg;')],
 C='''static volatile uint64_t got;static volatile int done;static void w(void *fp){void *sp=fp;got=pwart_rstack_get_i64(&sp);__sync_synchronize();done=1;}
int main(){stk=pwart_allocate_stack(65536);struct pwart_host_module *m=pwart_libuv_module_new();
CALL(m,"uv_thread_create","ll",(uint64_t)pwart_wrap_host_function_c(&w),0x7123456789abcdef);for(int i=0;i<20000&&!done;i++)usleep(1000);
if(got!=0x7123456789abcdef)FAIL("argument of the thread");return 0;}''')
sdemo(ID='s39-cifret', PROP='P20', NEEDS='ffix_new_cif with more than 31 arguments and a result', BREAKS='the definition is cut after 31 characters and the function gets too few arguments',
 EDITS=[(F,'    for(i=0;i<256;i++){\n        if(typeid[i]==0','    for(i=0;i<256;i++){\n        if(i==31 || typeid[i]==0')],
 C='''int main(){stk=pwart_allocate_stack(65536);struct pwart_host_module *m=pwart_libffi_module_new();
for(int n=0;n<60;n+=7){char d[80];memset(d,'i',n);strcpy(d+n,">d");void *p=CALL(m,"ffix_new_cif","l",(uint64_t)d);ffi_cif *c=pwart_rstack_get_ref(&p);
if(pwart_rstack_get_i32(&p)!=0)FAIL("status");if(c->nargs!=n||c->rtype!=&ffi_type_double)FAIL("the call interface is another one");}return 0;}''')
sdemo(ID='s40-cbargs', PROP='P20', NEEDS='a C callback with a 64-bit argument', BREAKS='only the first half of 64-bit arguments reaches the WebAssembly function',
 EDITS=[(F,'        memcpy(sp,args[i],size);','        memcpy(sp,args[i],size>4&&cif->arg_types[i]->type!=FFI_TYPE_POINTER&&cif->arg_types[i]->type!=FFI_TYPE_DOUBLE?4:size);')],
 C='''static uint64_t got[4];static void w(void *fp){void *sp=fp;ffi_cif *c=pwart_rstack_get_ref(&sp);void *ret=pwart_rstack_get_ref(&sp);uint64_t *a=pwart_rstack_get_ref(&sp);got[0]=a[0];got[1]=a[1];}
int main(){stk=pwart_allocate_stack(65536);struct pwart_host_module *m=pwart_libffi_module_new();
void *p=CALL(m,"ffix_new_cif","l",(uint64_t)"il>v");ffi_cif *c=pwart_rstack_get_ref(&p);
p=CALL(m,"ffix_new_c_callback","lll",(uint64_t)c,(uint64_t)pwart_wrap_host_function_c(&w),7);void *cl=pwart_rstack_get_ref(&p);void (*f)(int,uint64_t)=pwart_rstack_get_ref(&p);
char x[4096];memset(x,0xff,4096);f(5,0x123456789abcdef0);if((uint32_t)got[0]!=5||got[1]!=0x123456789abcdef0)FAIL("argument of the callback");return 0;}''')
sdemo(ID='s41-ptrtype', PROP='P20', NEEDS='ffi_built_in_types, the signed 64-bit type', BREAKS='the signed and the unsigned 64-bit type are the same',
 EDITS=[(F,'    pwart_rstack_put_ref(&sp,&ffi_type_sint64);','    pwart_rstack_put_ref(&sp,&ffi_type_uint64);')],
 C='''int main(){stk=pwart_allocate_stack(65536);struct pwart_host_module *m=pwart_libffi_module_new();void *p=call(fn(m,"ffi_built_in_types"),"",0);
ffi_type *t[]={&ffi_type_void,&ffi_type_uint32,&ffi_type_sint32,&ffi_type_uint64,&ffi_type_sint64,&ffi_type_float,&ffi_type_double,&ffi_type_pointer};
for(int i=0;i<8;i++)if(pwart_rstack_get_ref(&p)!=t[i])FAIL("type is another one");return 0;}''')
sdemo(ID='s42-symlinkfd', PROP='P19', NEEDS='path_symlink with names of different length', BREAKS='the new path is read with the length of the old path',
 EDITS=[(W,'uvwasi_path_symlink(&uvwc, uwmem->bytes + old_path, old_path_len, fd,\n                              uwmem->bytes + new_path, new_path_len)','uvwasi_path_symlink(&uvwc, uwmem->bytes + old_path, old_path_len, fd,\n                              uwmem->bytes + new_path, new_path_len>old_path_len?old_path_len:new_path_len)')],
 C='int main(){struct pwart_host_module *m=wasi(0,NULL);CALL(m,"path_symlink","iiiii",64,3,4,200,17);if(A[1]!=3||A[2]!=4||A[4]!=17||A[3]!=(uint64_t)(bytes+200))FAIL("path_symlink got other arguments");return 0;}')
