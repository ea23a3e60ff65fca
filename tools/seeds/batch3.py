M='pwart/modparser.c'; U='pwart/util.c'; G='pwart/wagen.c'; O='pwart/opgen_mem.c'
H=open('/verif/tools/seeds/common.h').read()
SH=open('/verif/tools/demo_c.sh').read()
def cdemo(**k):
    src=k.pop('C'); k['FILES']={'demo.c':H+src,'demo.sh':SH}; 
    for n,t in k.pop('WATS',{}).items(): k['FILES'][n]=t
    SEEDS.append(k)
SEEDS.append(dict(ID='s23-i64sign', PROP='P10', NEEDS='an i64.const whose encoding has nine bytes and is negative', BREAKS='bit 63 of such constants is lost',
 EDITS=[(U,'if (sign && (shift < maxbits) && (byte & 0x40)) {','if (sign && (shift < maxbits - 1) && (byte & 0x40)) {')],
 WAT='(module (func (export "f") (result i64) i64.const -4611686018427387904) (func (export "g") (result i64) i64.const -4611686018427387905))', RUN='-- f = i64:0xc000000000000000 , g = i64:0xbfffffffffffffff'))
cdemo(ID='s24-alignbyte', PROP='P10', NEEDS='a store whose alignment is encoded with a redundant LEB128 byte', BREAKS='the second byte of the alignment is taken for the offset, and the offset for an instruction',
 EDITS=[(O,'''    opgen_GenLoad(m, opcode, offset, align,midx);
    break;
  case 0x36:  case 0x37:  case 0x38:  case 0x39:  case 0x3a:  case 0x3b:  case 0x3c:  case 0x3d:  case 0x3e:
    midx=0;
    align = read_LEB(m->bytes, &m->pc, 32);''','''    opgen_GenLoad(m, opcode, offset, align,midx);
    break;
  case 0x36:  case 0x37:  case 0x38:  case 0x39:  case 0x3a:  case 0x3b:  case 0x3c:  case 0x3d:  case 0x3e:
    midx=0;
    align = m->bytes[m->pc++];''')],
 C='''static unsigned char w[]={0,0x61,0x73,0x6d,1,0,0,0, 1,4,1,0x60,0,0, 3,2,1,0, 5,3,1,0,1, 7,9,2,1,'m',2,0,1,'f',0,0,
 10,13,1,11,0,0x41,8,0x41,7,0x36,0x82,0x00,0x01,0x0b, };
int main(){char *e=0;pwart_module_state m=pwart_load_module((char*)w,sizeof w,&e);if(!m)FAIL(e?e:"not loaded");
void *stk=pwart_allocate_stack(64*1024);pwart_wasm_function f=pwart_get_export_function(m,"f");pwart_call_wasm_function(f,stk);
struct pwart_wasm_memory *mem=pwart_get_export_memory(m,"m");if(mem->bytes[9]!=7||mem->bytes[8]!=0)FAIL("stored elsewhere");return 0;}''')
cdemo(ID='s25-localgroup', PROP='P10', NEEDS='a function that declares 128 or more locals of one type in a group', BREAKS='the number of the locals of the group is read from its first byte only',
 EDITS=[(M,'''                    lecount = read_LEB(bytes, &pos, 32);
                    vt = read_LEB(bytes, &pos, 7);''','''                    lecount = bytes[pos]&0x7f;
                    while(bytes[pos++]&0x80);
                    vt = read_LEB(bytes, &pos, 7);''')],
 WATS={'m.wat':'(module (func (export "f") (result f64) (local %s) (local f64) local.get 130))' % ' '.join(['i32']*130)},
 C='''int main(){char *e=0;pwart_module_state m=pwart_load_module(buf,rd("m.wasm"),&e);if(!m)FAIL(e);
double *stk=pwart_allocate_stack(64*1024);memset(stk,0xff,4096);pwart_call_wasm_function(pwart_get_export_function(m,"f"),stk);if(*stk!=0)FAIL("wrong type of local");return 0;}''')
