from mkseed import *
H='''#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#define CK(c) do { if (!(c)) { fprintf(stderr, "failed: %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)
'''
A=H+'#include <crefl/asn1.h>\n'
M=H+'#include <crefl/model.h>\n#include <crefl/db.h>\n#include <crefl/link.h>\n#include <crefl/types.h>\n'
AS=['asn1','buf']; MS=['model','types','db','link','sha256']
# a demo that reflects a C program with the plugin and looks at the result from C++
PL='''#!/bin/bash
# reflects prog.c with the plugin that was built, and looks at the database with demo.cc
D=$(dirname "$(readlink -f "$0")"); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -include cstdint -w -O1 -I include -o "$T/demo" "$D/demo.cc" src/model.cc src/types.cc src/db.cc src/link.cc src/sha256.cc || exit 2
LD_LIBRARY_PATH=/opt/llvm/lib timeout 60 /opt/llvm/bin/clang -c -Xclang -load -Xclang _build/libcrefl.so -Xclang -plugin -Xclang crefl -Xclang -plugin-arg-crefl -Xclang -o -Xclang -plugin-arg-crefl -Xclang "$T/o.refl" "$D/prog.c" || exit 3
timeout 60 "$T/demo" "$T/o.refl"
'''
R=M+'''static decl_db *load(const char *f){ decl_db *d=crefl_db_new(); if (crefl_db_read_file(d,f)) { fprintf(stderr,"cannot read\\n"); exit(4); } return d; }
static decl_ref named(decl_db *d, decl_tag t, const char *n){ for (size_t i=d->root_element;i<d->decl_offset;i++){ decl_ref r=crefl_lookup(d,i); if(crefl_decl_tag(r)==t&&!strcmp(crefl_decl_name(r),n)) return r; } fprintf(stderr,"no %s\\n",n); exit(5); }
'''
PI='''#!/bin/bash
# runs the pipeline of this tree by hand and looks at what comes out
D=$(dirname "$(readlink -f "$0")"); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export LD_LIBRARY_PATH=/opt/llvm/lib
'''
GEN='''#!/bin/bash
# runs the table generator of this tree on a small registry of its own
S=$PWD/scripts/parse_oids.py; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/data"; cd "$T"
'''
seed('C31-strip-set','C31','a registry name that goes on, after its prefix, with letters of the prefix (OBJ_OGRN, OBJ_BJ...)',
 'the prefix is removed as a set of letters, so further leading letters of the name are removed with it',
 [('scripts/parse_oids.py','k.replace("OBJ_", "")','k.lstrip("OBJ_")')],
 GEN+r'''printf '%s\n' 'OBJ_OGRN="\x2A\x85\x03\x64\x01"' 'OBJ_INN="\x2A\x85\x03\x03\x81\x03\x01\x01"' > data/oids.txt
python3 "$S" --strings > o || exit 3
grep -q '"OGRN"' o && grep -q '"INN"' o
''')
seed('C31-dedupe','C31','a registry in which two names have the same object identifier',
 'the table keeps one entry per identifier, so the other name is lost',
 [('scripts/parse_oids.py',"oids = sorted(oids, key=itemgetter('oidstr'))","oids = sorted({o['oidstr']: o for o in oids}.values(), key=itemgetter('oidstr'))")],
 GEN+r'''printf '%s\n' 'OBJ_netscape="\x60\x86\x48\x01\x86\xF8\x42"' 'OBJ_old_name="\x60\x86\x48\x01\x86\xF8\x42"' > data/oids.txt
python3 "$S" --bytes > o || exit 3
grep -q '"netscape"' o && grep -q '"old_name"' o
''')
seed('C01-unchecked-read','C01','an unchecked read of a word at any offset but the start of the buffer',
 'the unchecked read forms leave the offset at the width of the word instead of moving it by it, so a later read takes the wrong bytes',
 [('include/crefl/buf.h','    *val = swap(t);                                                            \\\n    buf->data_offset += sizeof(T);                                             \\',
   '    *val = swap(t);                                                            \\\n    buf->data_offset = buf->data_offset | sizeof(T);                           \\',3)],
 demo(['buf']),{'demo.cc':H+'''#include <crefl/buf.h>
int main(){ crefl_buf *b=crefl_buf_new(32); for(int i=0;i<32;i++) crefl_buf_write_i8(b,(int8_t)i); crefl_buf_reset(b);
 for(int i=0;i<8;i++){ int32_t v=0; CK(crefl_buf_read_unchecked_i32(b,&v)==4); CK((v&255)==i*4); CK(crefl_buf_offset(b)==(size_t)(i+1)*4); } return 0; }
'''})
seed('C03-byval-negate','C03','the by-value length of an integer that is the most negative of its width (-128, -32768 ...)',
 'the by-value length function negates instead of complementing, so the most negative value of a width is given an octet too many and is no longer minimal',
 [('src/asn1.cc','    const s64 v = value;\n    return v == 0 ? 1 : 8 - ((clz(v < 0 ? ~v : v)-1) / 8);','    const s64 v = value;\n    return v == 0 ? 1 : 8 - ((clz(v < 0 ? -v : v)-1) / 8);')],
 demo(AS),{'demo.cc':A+'''int main(){ long w=1; for(int n=1;n<8;n++){ s64 v=-(s64)(1ull<<(8*n-1)); CK(crefl_asn1_ber_integer_s64_length_byval(v)==(size_t)n); CK(crefl_asn1_ber_integer_s64_length_byval(v-1)==(size_t)n+1); CK(crefl_asn1_ber_integer_s64_length_byval(-v-1)==(size_t)n); } return 0; }
'''})
seed('C05-wide-mantissa','C05','reading as single precision a value written from a double whose mantissa takes five octets',
 'the by-value read keeps the low 32 bits of such a mantissa instead of the high ones',
 [('src/asn1.cc','            size_t sh = lz < 32 ? 32 - lz : 0;','            size_t sh = lz < 24 ? 32 - lz : 0;',1)],
 demo(AS),{'demo.cc':A+'''int main(){ for(double f:{1.0+1.0/(1ull<<34),5e9+1,-7e10-3,1.5+1.0/(1ull<<37)}){ crefl_buf *b=crefl_buf_new(64); CK(crefl_vf_f64_write_byval(b,f)==0); crefl_buf_reset(b); float p; CK(crefl_vf_f32_read(b,&p)==0); crefl_buf_reset(b); f32_result r=crefl_vf_f32_read_byval(b); CK(r.error==0); CK(r.value==p); CK(fabs(r.value-f)<=fabs(f)*1.2e-7); crefl_buf_destroy(b);} return 0; }
'''})
seed('C19-erase-shortcut','C19','erasing a key of the last slot while its chain goes on at the first one',
 'erase leaves no tombstone when the next slot is free, but does not wrap around at the end of the table, so keys that wrapped are no longer found',
 [('include/crefl/hashmap.h','                bitmap_set(bitmap, i, deleted);\n','                bool more = i + 1 < (size_t)limit && bitmap_get(bitmap, i + 1) != available;\n                if (more) bitmap_set(bitmap, i, deleted);\n'),
  ('include/crefl/hashmap.h','                used--;\n                tombs++;','                used--;\n                if (more) tombs++;')],
 demo([]),{'demo.cc':H+'''#include <crefl/hashmap.h>
int main(){ hashmap<size_t,size_t> m; for(size_t k: {15,31,47}) m[k]=k; m.erase(15); CK(m.find(31)!=m.end()); CK(m.find(47)!=m.end()); CK(m[31]==31); CK(m.size()==2); return 0; }
'''})
seed('C22-keyword-noreturn','C22','a function declared with the keyword _Noreturn rather than the attribute',
 'only the attribute form is recorded as noreturn',
 [('src/reflect.cc','(-(int)d->isNoReturn() & _decl_noreturn)','(-(int)d->hasAttr<NoReturnAttr>() & _decl_noreturn)')],
 PL,{'prog.c':'void a(void) __attribute__((noreturn));\n_Noreturn void b(void);\nvoid c(void);\n','demo.cc':R+'''int main(int argc,char **argv){ decl_db *d=load(argv[1]); CK(crefl_decl_props(named(d,_decl_function,"a"))&_decl_noreturn); CK(crefl_decl_props(named(d,_decl_function,"b"))&_decl_noreturn); CK(!(crefl_decl_props(named(d,_decl_function,"c"))&_decl_noreturn)); return 0; }
'''})
seed('C21-zero-bitfield','C21','a bit-field of width zero (int : 0;) that closes a storage unit',
 'it is recorded as an ordinary nameless field of its type',
 [('src/reflect.cc','(-(int)d->isBitField() & _decl_bitfield)','(-(int)(width > 0) & _decl_bitfield)')],
 PL,{'prog.c':'struct s { int a : 3; int : 0; int b : 2; int c; };\n','demo.cc':R+'''int main(int argc,char **argv){ decl_db *d=load(argv[1]); decl_ref f[8]; size_t n=8; CK(!crefl_struct_fields(named(d,_decl_struct,"s"),f,&n)); CK(n==4); int w[]={1,1,1,0}; for(int i=0;i<4;i++) CK(!!(crefl_decl_props(f[i])&_decl_bitfield)==w[i]); return 0; }
'''})
seed('C21-enum-narrow','C21','an enumerator whose value does not fit 32 bits',
 'the value is truncated to the width of int when it is recorded',
 [('src/reflect.cc','uint64_t value = d->getInitVal().extOrTrunc(64).getZExtValue();','uint64_t value = (int64_t)(int32_t)d->getInitVal().extOrTrunc(64).getZExtValue();')],
 PL,{'prog.c':'enum e { A = -1, B = 7, C = 0x123456789LL };\n','demo.cc':R+'''int main(int argc,char **argv){ decl_db *d=load(argv[1]); decl_ref f[8]; size_t n=8; CK(!crefl_enum_constants(named(d,_decl_enum,"e"),f,&n)); CK(n==3); CK((long long)crefl_decl_ptr(f[0])->_value==-1); CK(crefl_decl_ptr(f[1])->_value==7); CK(crefl_decl_ptr(f[2])->_value==0x123456789ull); return 0; }
'''})
