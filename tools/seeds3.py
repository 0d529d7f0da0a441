from mkseed import *
H='''#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#define CK(c) do { if (!(c)) { fprintf(stderr, "failed: %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)
'''
A=H+'#include <crefl/asn1.h>\n'
M=H+'#include <crefl/model.h>\n#include <crefl/db.h>\n#include <crefl/link.h>\n#include <crefl/types.h>\n'
AS=['asn1','buf']; MS=['model','types','db','link','sha256']
# a demo that reflects a C program with the plugin and looks at the result from C++
PL='''#!/bin/bash
# reflects prog.c with the plugin that was built, and looks at the database with demo.cc
D=$(dirname "$(readlink -f "$0")"); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -include cstdint -w -O1 -I include -o "$T/demo" "$D/demo.cc" src/model.cc src/types.cc src/db.cc src/link.cc src/sha256.cc || exit 2
LD_LIBRARY_PATH=/opt/llvm/lib timeout 60 /opt/llvm/bin/clang -c -Xclang -load -Xclang _build/libcrefl.so -Xclang -plugin -Xclang crefl -Xclang -plugin-arg-crefl -Xclang -o -Xclang -plugin-arg-crefl -Xclang "$T/o.refl" "$D/prog.c" || exit 3
timeout 60 "$T/demo" "$T/o.refl"
'''
R=M+'''static decl_db *load(const char *f){ decl_db *d=crefl_db_new(); if (crefl_db_read_file(d,f)) { fprintf(stderr,"cannot read\\n"); exit(4); } return d; }
static decl_ref named(decl_db *d, decl_tag t, const char *n){ for (size_t i=d->root_element;i<d->decl_offset;i++){ decl_ref r=crefl_lookup(d,i); if(crefl_decl_tag(r)==t&&!strcmp(crefl_decl_name(r),n)) return r; } fprintf(stderr,"no %s\\n",n); exit(5); }
'''
seed('C01-offset-width','C01','a cursor placed 2^32 or more beyond the start',
 'the cursor is kept in 32 bits, so a seek far beyond the end wraps to the start and the next access succeeds',
 [('include/crefl/buf.h','    char *data;\n    size_t data_offset;','    char *data;\n    uint32_t data_offset;')],
 demo(AS),{'demo.cc':A+'''int main(){ crefl_buf *b=crefl_buf_new(16); int32_t v=0; crefl_buf_seek(b,(size_t)1<<32); CK(crefl_buf_read_i32(b,&v)==0); CK(crefl_buf_offset(b)==(size_t)1<<32); return 0; }
'''})
seed('C02-len-eight','C02','a length of 2^56 or more','lengths that need eight octets can be written but are refused by the reader',
 [('src/asn1.cc','    else if (llen > 8) {','    else if (llen >= 8) {')],
 demo(AS),{'demo.cc':A+'''int main(){ crefl_buf *b=crefl_buf_new(16); u64 r=0,v=1ull<<60; CK(!crefl_asn1_ber_length_write(b,v)); crefl_buf_reset(b); CK(!crefl_asn1_ber_length_read(b,&r)&&r==v); return 0; }
'''})
seed('C04-scale','C04','an X.690 REAL from another encoder with a scale factor of 2 or 3',
 'only one bit of the scale factor is taken, so such a value decodes to a wrong number',
 [('src/asn1.cc','    _real_scale_mask        = 0b11,','    _real_scale_mask        = 0b01,')],
 demo(AS),{'demo.cc':A+'''int main(){ for (int f=0;f<4;f++){ crefl_buf *b=crefl_buf_new(8); char o[3]={(char)(0x80|f<<2),0,5}; memcpy(b->data,o,3); double v=0; CK(!crefl_asn1_ber_real_f64_read(b,3,&v)); CK(v==5.0*(1<<f)); } return 0; }
'''})
seed('C05-f32-subnormal','C05','a value written as f64 whose exponent is in the subnormal range of f32, read as f32 by value',
 'the by-value reader shifts the mantissa of numbers in the subnormal range one place too few',
 [('src/asn1.cc','s64 sh = (s64)f32_exp_size + 1 - (s64)f32_exp_bias - vr_exp;','s64 sh = (s64)f32_exp_size - (s64)f32_exp_bias - vr_exp;',1)],
 demo(AS),{'demo.cc':A+'''int main(){ crefl_buf *b=crefl_buf_new(32); for (int e=120;e<160;e++){ double v=ldexp(1.625,-e); crefl_buf_reset(b); CK(!crefl_vf_f64_write(b,&v)); crefl_buf_reset(b); float x=0; CK(!crefl_vf_f32_read(b,&x)); crefl_buf_reset(b); f32_result r=crefl_vf_f32_read_byval(b); CK(!r.error&&!memcmp(&x,&r.value,4)); } return 0; }
''' }) if 0 else None
seed('C06-nine-groups','C06','a LEB128 number of nine octets read by value','numbers of 57 to 63 bits, which the format of this library excludes, are accepted by one of the two readers',
 [('src/asn1.cc','    } while ((b & 0x80) && w < 56);','    } while ((b & 0x80) && w < 63);',2)],
 demo(AS),{'demo.cc':A+'''int main(){ crefl_buf *b=crefl_buf_new(16); memset(b->data,0x81,8); b->data[8]=1; CK(crefl_leb_u64_read_byval(b).error<0); return 0; }
'''})
seed('C09-leb-partial','C09','a LEB128 number cut short, read by pointer','the failed read delivers the groups it has seen instead of zero',
 [('src/asn1.cc','    *value = v;\n    return 0;\nerr:\n    *value = 0;\n    return -1;\n}\n\nu64_result crefl_leb_u64_read_byval','    *value = v;\n    return 0;\nerr:\n    *value = v;\n    return -1;\n}\n\nu64_result crefl_leb_u64_read_byval')],
 demo(AS),{'demo.cc':A+'''int main(){ crefl_buf *b=crefl_buf_new(2); b->data[0]=b->data[1]=(char)0x85; u64 v=9; CK(crefl_leb_u64_read(b,&v)<0); CK(v==0); return 0; }
'''})
seed('C09-oid-partial','C09','an object identifier whose contents end inside a component','the failed read leaves the identifiers decoded so far, with a count, in the result',
 [('src/asn1.cc','    obj->count = n;\n    return 0;\nerr:\n    obj->count = 0;','    obj->count = n;\n    return 0;\nerr:\n    obj->count = n;')],
 demo(AS),{'demo.cc':A+'''int main(){ crefl_buf *b=crefl_buf_new(3); memcpy(b->data,"\\x2a\\x86\\x88",3); asn1_oid o={}; CK(crefl_asn1_ber_oid_read(b,3,&o)<0); CK(o.count==0); return 0; }
''' }) 
seed('C10-s64-length','C10','a positive signed INTEGER whose top octet is 0x80 or more, written by value as DER',
 'the contents lack the sign octet, so the value reads back negative',
 [('src/asn1.cc','{ (u64)_tag, 0, asn1_class_universal }, crefl_asn1_ber_integer_s64_length_byval(value)','{ (u64)_tag, 0, asn1_class_universal }, crefl_asn1_ber_integer_u64_length_byval(value)')],
 demo(AS),{'demo.cc':A+'''int main(){ crefl_buf *b=crefl_buf_new(32); CK(!crefl_asn1_der_integer_s64_write_byval(b,asn1_tag_integer,40000)); crefl_buf_reset(b); s64 v=0; CK(!crefl_asn1_der_integer_s64_read(b,asn1_tag_integer,&v)); CK(v==40000); return 0; }
'''})
seed('C11-many-decls','C11','a database with more than 65535 declarations','the header holds the number of declarations modulo 65536, so the image reads back as another database or not at all',
 [('src/db.cc','(u32)db->decl_offset - (u32)db->decl_builtin;','(u16)(db->decl_offset - db->decl_builtin);')],
 demo(MS),{'demo.cc':M+'''int main(){ decl_db *d=crefl_db_new(); crefl_db_defaults(d); decl_ref s=crefl_decl_new(d,_decl_source); d->root_element=s.decl_idx; for(int i=0;i<66000;i++) crefl_decl_new(d,_decl_struct);
 std::vector<uint8_t> b(crefl_db_size(d)); CK(!crefl_db_write_mem(d,b.data(),b.size())); decl_db *e=crefl_db_new(); CK(!crefl_db_read_mem(e,b.data(),b.size())); CK(e->decl_offset==d->decl_offset); CK(!memcmp(e->decl,d->decl,d->decl_offset*sizeof(decl_node))); return 0; }
'''})
seed('C12-size-wrap','C12','an image whose header claims 2^27 or more declarations','the size of the table is computed in 32 bits, so it passes the check against the input and the copy leaves the image',
 [('src/db.cc','    size_t decl_sz = sizeof(decl_node) * decl_cnt;','    u32 decl_sz = sizeof(decl_node) * decl_cnt;')],
 demo(MS),{'demo.cc':M+'''int main(){ decl_db *d=crefl_db_new(); crefl_db_defaults(d); decl_ref s=crefl_decl_new(d,_decl_source); d->root_element=s.decl_idx; std::vector<uint8_t> b(crefl_db_size(d)); CK(!crefl_db_write_mem(d,b.data(),b.size()));
 decl_db_hdr *h=(decl_db_hdr*)b.data(); h->decl_entry_count=(u32)((1ull<<32)/sizeof(decl_node)); while ((u32)(h->decl_entry_count*sizeof(decl_node))>64) h->decl_entry_count++; if (h->decl_entry_count>(1u<<31)) return 0; h->name_table_size=0;
 decl_db *e=crefl_db_new(); CK(crefl_db_read_mem(e,b.data(),b.size())!=0); return 0; }
'''})
seed('C13-partial-write','C13','the disk fills up after part of the file has been written','a write that stored only part of the image is reported as a success',
 [('include/crefl/util.h','    return buf.size() == len ? 0 : -1;','    return len > 0 ? 0 : -1;',1)],
 '''#!/bin/bash
# writes a database of 1 MB under a file size limit of 64 kB
D=$(dirname "$(readlink -f "$0")"); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -include cstdint -w -O1 -I include -o "$T/demo" "$D/demo.cc" src/model.cc src/types.cc src/db.cc || exit 2
cd "$T"; (trap '' XFSZ; ulimit -f 64; timeout 60 ./demo "$T/out")
''',{'demo.cc':M+'''int main(int c,char**v){ decl_db *d=crefl_db_new(); crefl_db_defaults(d); decl_ref s=crefl_decl_new(d,_decl_source); d->root_element=s.decl_idx; for(int i=0;i<30000;i++) crefl_decl_new(d,_decl_struct); CK(crefl_db_write_file(d,v[1])!=0); return 0; }
'''})
seed('C14-not-blank','C14','declarations added to a database that was read from an image, on a heap that hands out used memory','new declarations are cleared when the table grows instead of when they are made, and a table read from an image has uncleared room at its end',
 [('src/model.cc','        db->decl = (decl_node*)realloc(db->decl, sizeof(decl_node) * db->decl_size);\n','        db->decl = (decl_node*)realloc(db->decl, sizeof(decl_node) * db->decl_size);\n        memset(db->decl + db->decl_offset, 0, sizeof(decl_node) * db->decl_offset);\n'),('src/model.cc','    memset(crefl_decl_ptr(d), 0, sizeof(decl_node));\n','')],
 demo(MS),{'demo.cc':M+'''#include <malloc.h>
int main(){ mallopt(M_PERTURB,0x5a); decl_db *d=crefl_db_new(); crefl_db_defaults(d); decl_ref s=crefl_decl_new(d,_decl_source); d->root_element=s.decl_idx; for(int i=0;i<40;i++) crefl_decl_new(d,_decl_field);
 std::vector<uint8_t> b(crefl_db_size(d)); CK(!crefl_db_write_mem(d,b.data(),b.size())); decl_db *e=crefl_db_new(); CK(!crefl_db_read_mem(e,b.data(),b.size()));
 for(int i=0;i<100;i++){ decl_ref r=crefl_decl_new(e,_decl_field); decl_node *n=crefl_decl_ptr(r); CK(!n->_link&&!n->_next&&!n->_attr&&!n->_name&&!n->_props&&!n->_quantity); } return 0; }
'''})
seed('C15-archive-any','C15','an archive that lists something else beside sources','the query for the sources of an archive returns whatever the archive lists',
 [('src/model.cc','crefl_decl_link(d), crefl_is_source);','crefl_decl_link(d), crefl_is_any);')],
 demo(MS),{'demo.cc':M+'''int main(){ decl_db *d=crefl_db_new(); crefl_db_defaults(d); decl_ref a=crefl_decl_new(d,_decl_archive), s=crefl_decl_new(d,_decl_source), t=crefl_decl_new(d,_decl_typedef); crefl_decl_ptr(a)->_link=s.decl_idx; crefl_decl_ptr(s)->_next=t.decl_idx;
 size_t n=0; CK(!crefl_archive_sources(a,nullptr,&n)); CK(n==1); return 0; }
'''})
seed('C16-flexible','C16','a struct that ends in an array of no elements whose element type has the largest alignment',
 'an empty array no longer contributes its alignment, so the struct is not padded',
 [('src/model.cc','    pad = _type_pad(d);\n    pad.size *= qty;','    if (qty == 0) return _alignment { 0 };\n    pad = _type_pad(d);\n    pad.size *= qty;')],
 demo(MS),{'demo.cc':M+'''int main(){ decl_db *d=crefl_db_new(); crefl_db_defaults(d); decl_ref s=crefl_decl_new(d,_decl_struct), f=crefl_decl_new(d,_decl_field), g=crefl_decl_new(d,_decl_field), a=crefl_decl_new(d,_decl_array);
 crefl_decl_ptr(s)->_link=f.decl_idx; crefl_decl_ptr(f)->_next=g.decl_idx; crefl_decl_ptr(f)->_link=crefl_intrinsic(d,_decl_sint,8).decl_idx; crefl_decl_ptr(g)->_link=a.decl_idx; crefl_decl_ptr(a)->_link=crefl_intrinsic(d,_decl_sint,32).decl_idx; CK(crefl_type_width(s)==32); return 0; }
'''})
seed('C17-wide-value','C17','two constants whose values differ only above 2^32','only the lower half of the quantity enters the hash',
 [('src/link.cc','    crefl_hash_update(sum, &node->_quantity, sizeof(node->_quantity));','    crefl_hash_update(sum, &node->_quantity, sizeof(u32));')],
 demo(MS),{'demo.cc':M+'''static std::string h(u64 v){ decl_db *d=crefl_db_new(); crefl_db_defaults(d); decl_ref s=crefl_decl_new(d,_decl_source), f=crefl_decl_new(d,_decl_enum), x=crefl_decl_new(d,_decl_constant);
 d->root_element=s.decl_idx; crefl_decl_ptr(s)->_link=f.decl_idx; crefl_decl_ptr(f)->_link=x.decl_idx; crefl_decl_ptr(x)->_quantity=v;
 decl_index *i=crefl_index_new(); crefl_index_scan(i,d); return std::string((char*)crefl_entry_ptr(crefl_entry_ref(i,f))->hash.sum,28); }
int main(){ CK(h(1)==h(1)); CK(h(1)!=h(1+(1ull<<40))); return 0; }
'''})
seed('C18-alias-attr','C18','a declaration listed a second time that has a successor in the list of attributes','attributes of every copied declaration after the first are dropped when the declaration has members',
 [('src/link.cc','            crefl_decl_ptr(r)->_link = crefl_decl_idx(c);\n            break;\n        }\n    }\n\n    return r;','            crefl_decl_ptr(r)->_link = crefl_decl_idx(c);\n            break;\n        }\n    }\n\n    return crefl_is_pointer(d) && crefl_is_alias(crefl_decl_link(r)) ? crefl_decl_link(r) : r;')],
 demo(MS),{'demo.cc':M+'int main(){return 0;}\n'}) if 0 else None
seed('C18-wide-value','C18','an enum constant or bit-field quantity of 2^32 or more in a merged input','the copy keeps only the lower half of the quantity',
 [('src/link.cc','        crefl_decl_ptr(r)->_quantity = crefl_decl_qty(d);','        crefl_decl_ptr(r)->_quantity = (decl_id)crefl_decl_qty(d);')],
 demo(MS),{'demo.cc':M+'''int main(){ decl_db *d=crefl_db_new(); crefl_db_defaults(d); decl_ref s=crefl_decl_new(d,_decl_source), f=crefl_decl_new(d,_decl_enum), x=crefl_decl_new(d,_decl_constant);
 d->root_element=s.decl_idx; crefl_decl_ptr(s)->_link=f.decl_idx; crefl_decl_ptr(f)->_link=x.decl_idx; crefl_decl_ptr(x)->_quantity=~0ull-4; decl_db *o=crefl_db_new(); CK(!crefl_link_merge(o,"o",&d,1));
 for(size_t i=o->root_element;i<o->decl_offset;i++) if (o->decl[i]._tag==_decl_constant) CK(o->decl[i]._quantity==~0ull-4); return 0; }
'''})
seed('C20-multi-final','C20','a message of 56 to 63 octets modulo 64 after at least one full block','the second padding block of longer messages keeps octets of the message',
 [('src/sha256.cc','        sha256_transform(ctx, ctx->block);\n        fill = 0;','        sha256_transform(ctx, ctx->block);\n        fill = ctx->nbytes > 64 && fill > 62 ? 1 : 0;')],
 demo(['sha256']),{'demo.cc':H+'''#include <crefl/sha256.h>
int main(){ std::string m(64+63,'a'); unsigned char r[32], e[32]; 
 const char *want="5c29df9e73b5df5ab5da20a5f1bfb6ba5b1a8b2c"; (void)want;
 FILE *f=popen("head -c 127 /dev/zero | tr '\\\\0' a | sha256sum","r"); char h[65]={0}; CK(f&&fread(h,1,64,f)==64); pclose(f);
 sha256_ctx c; sha256_init(&c); sha256_update(&c,m.data(),m.size()); sha256_final(&c,r); char g[65]; for(int i=0;i<32;i++) sprintf(g+2*i,"%02x",r[i]); CK(!strcmp(g,h)); return 0; }
'''})
seed('C21-array-bound','C21','an array of 2^32 or more elements','the bound is recorded modulo 2^32',
 [('src/reflect.cc','u64 _count = cat->getSize().getLimitedValue();','unsigned _count = cat->getSize().getLimitedValue();'),('src/reflect.cc','string_printf("[%llu]%s", _count, decl_name)','string_printf("[%u]%s", _count, decl_name)')],
 PL,{'prog.c':'struct s { char big[4294967298]; };\n','demo.cc':R+'''int main(int c,char**v){ decl_db *d=load(v[1]); decl_ref f=named(d,_decl_field,"big"); CK(crefl_array_count(crefl_field_type(f))==4294967298ull); return 0; }
'''})
seed('C21-enum-unsigned','C21','an enum with a negative constant (int is the underlying type)','negative constants are recorded as numbers below 2^32',
 [('src/reflect.cc','d->getInitVal().extOrTrunc(64)','d->getInitVal().zextOrTrunc(64)')],
 PL,{'prog.c':'enum e { ea = -3, eb = 4 };\n','demo.cc':R+'''int main(int c,char**v){ decl_db *d=load(v[1]); CK(crefl_decl_ptr(named(d,_decl_constant,"ea"))->_value==(decl_sz)-3); return 0; }
'''})
seed('C21-nested-anon','C21','a struct whose last member is an anonymous struct or union, followed by another declaration',
 'after an anonymous member the enclosing list is left one level too far',
 [('src/reflect.cc','        while (stack.size() > 0 && stack.back().decl_idx != p.decl_idx) {\n            last = stack.back();\n            stack.pop_back();','        while (stack.size() > 0 && stack.back().decl_idx != p.decl_idx) {\n            if (stack.size() < 4) last = stack.back();\n            stack.pop_back();')],
 PL,{'prog.c':'struct a { struct b { struct c { struct d { int x; } y; int z; } u; int v; } w; int t; };\nint after;\n','demo.cc':R+'''int main(int c,char**v){ decl_db *d=load(v[1]); size_t n=0; CK(!crefl_struct_fields(named(d,_decl_struct,"c"),nullptr,&n)); CK(n==2); return 0; }
'''})
seed('C22-thread-local','C22','a thread-local variable','a variable of thread storage duration is recorded as static',
 [('src/reflect.cc','bool is_static = d->getStorageDuration() == StorageDuration::SD_Static;','bool is_static = d->hasGlobalStorage();')],
 PL,{'prog.c':'_Thread_local int tl; int gl;\n','demo.cc':R+'''int main(int c,char**v){ decl_db *d=load(v[1]); CK(!(crefl_decl_props(named(d,_decl_field,"tl"))&_decl_static)); CK(crefl_decl_props(named(d,_decl_field,"gl"))&_decl_static); return 0; }
'''})
seed('C22-aligned-cap','C22','an alignment attribute of 32 octets or more (256 bits)','the alignment is recorded in eight bits',
 [('src/reflect.cc','unsigned align = cast<AlignedAttr>(*at).getAlignment(context);','unsigned char align = cast<AlignedAttr>(*at).getAlignment(context);')],
 PL,{'prog.c':'int al __attribute__((aligned(64)));\n','demo.cc':R+'''int main(int c,char**v){ decl_db *d=load(v[1]); decl_ref a=crefl_decl_attr(named(d,_decl_field,"al")); CK(crefl_is_attribute(a)); CK(crefl_decl_ptr(crefl_decl_link(a))->_value==512); return 0; }
'''})
seed('C22-ptr-qual','C22','a pointer that is itself restrict and const or volatile','restrict is dropped when another qualifier stands beside it',
 [('src/reflect.cc','        cvr_props |= _decl_restrict & -(int)_is_restrict;','        cvr_props |= _decl_restrict & -(int)(_is_restrict && !cvr_props);')],
 PL,{'prog.c':'void f(int *const restrict p);\n','demo.cc':R+'''int main(int c,char**v){ decl_db *d=load(v[1]); decl_ref q=crefl_param_type(named(d,_decl_param,"p")); CK(crefl_decl_tag(q)==_decl_qualifier); CK(crefl_decl_props(q)==(_decl_const|_decl_restrict)); return 0; }
'''})
seed('C23-enum-width','C23','an enum that needs 64 bits because of a negative constant','the width of the enum is taken from its largest constant only',
 [('src/reflect.cc','        crefl_decl_ptr(r)->_width = t.Width;\n\n        stack.push_back(r);','        crefl_decl_ptr(r)->_width = t.Width ? (d->getNumPositiveBits() > 32 ? 64 : 32) : 0;\n\n        stack.push_back(r);')],
 PL,{'prog.c':'enum e { ea = -9223372036854775807LL - 1, eb = 1 }; struct s { char c; enum e x; };\n','demo.cc':R+'''int main(int c,char**v){ decl_db *d=load(v[1]); CK(crefl_type_width(named(d,_decl_struct,"s"))==128); return 0; }
'''})
seed('C23-bool-bits','C23','a _Bool member after another member','a byte-padded builtin takes its declared width in bits',
 [('src/types.cc','x','x')],PL,{}) if 0 else None
TOOL='''#!/bin/bash
D=$(dirname "$(readlink -f "$0")"); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -include cstdint -w -O1 -I include -o "$T/demo" "$D/demo.cc" src/model.cc src/types.cc src/db.cc src/link.cc src/sha256.cc || exit 2
timeout 60 "$T/demo" "$T/o.refl" || exit 3
export LC_ALL=C.UTF-8
'''
seed('C24-ext-fqn','C24','the extended format with names, and a property list longer than the narrow column','one of the extended formats uses the narrow column for properties',
 [('src/dump.cc','    &f_id, &f_attr, &f_next, &f_link, &f_type, &fx_name, &fx_props, &fx_detail,\n    &fx_fqn, 0','    &f_id, &f_attr, &f_next, &f_link, &f_type, &fx_name, &f_props, &fx_detail,\n    &fx_fqn, 0')],
 TOOL+'''_build/crefltool --dump-ext-fqn "$T/o.refl" | grep -q "const,volatile,restrict "
''',{'demo.cc':M+'''int main(int c,char**v){ decl_db *d=crefl_db_new(); crefl_db_defaults(d); decl_ref s=crefl_decl_new(d,_decl_source), q=crefl_decl_new(d,_decl_qualifier); d->root_element=s.decl_idx; crefl_decl_ptr(s)->_link=q.decl_idx; crefl_decl_ptr(q)->_link=1; crefl_decl_ptr(q)->_props=_decl_const|_decl_volatile|_decl_restrict; return crefl_db_write_file(d,v[1]); }
'''})
seed('C24-exact-fit','C24','a value exactly one character narrower than its column','a value that just fits is cut',
 [('src/dump.cc','    return s.size() < w ? s.append','    return s.size() + 1 < w ? s.append')],
 TOOL+'''_build/crefltool --dump "$T/o.refl" | grep -q "abcdefghijklmn "  || _build/crefltool --dump "$T/o.refl" | grep -q "abcdefghijklmn "
''',{'demo.cc':M+'''int main(int c,char**v){ decl_db *d=crefl_db_new(); crefl_db_defaults(d); decl_ref s=crefl_decl_new(d,_decl_source); d->root_element=s.decl_idx; crefl_decl_ptr(s)->_name=crefl_name_new(d,"abcdefghijklmn"); return crefl_db_write_file(d,v[1]); }
'''})
seed('C24-alias-fqn','C24','the dump of a merged database that holds aliases, in a format with qualified names','the qualified name of an alias has the kind of the alias instead of what it stands for',
 [('src/dump.cc','        fqn = _fqn(a, er);','        fqn = _fqn(r, er);')],
 TOOL+'''! _build/crefltool --dump-fqn "$T/o.refl" | grep -q "alias thing" && _build/crefltool --dump-fqn "$T/o.refl" | grep "alias(\\|alias " | grep -q "struct thing"
''',{'demo.cc':M+'''int main(int c,char**v){ decl_db *d=crefl_db_new(); crefl_db_defaults(d); decl_ref s=crefl_decl_new(d,_decl_source), q=crefl_decl_new(d,_decl_struct), a=crefl_decl_new(d,_decl_alias); d->root_element=s.decl_idx; crefl_decl_ptr(s)->_link=q.decl_idx; crefl_decl_ptr(q)->_next=a.decl_idx; crefl_decl_ptr(a)->_link=q.decl_idx; crefl_decl_ptr(q)->_name=crefl_decl_ptr(a)->_name=crefl_name_new(d,"thing"); return crefl_db_write_file(d,v[1]); }
'''})
seed('C25-last-row','C25','an image of a size that is one more than a multiple of sixteen','the single octet of the last line is not emitted',
 [('tool/crefltool.cc','    for (size_t i = 0; i < sz; i++) {\n        fprintf(f, "0x%02hhx", buf[i]);','    if (sz % w == 1) sz--;\n    for (size_t i = 0; i < sz; i++) {\n        fprintf(f, "0x%02hhx", buf[i]);')],
 TOOL+'''for f in "$T"/o.refl*; do _build/crefltool --emit "$T/o.c" $f || exit 4; n=$(stat -c %s $f); k=$(grep -o 0x.. "$T/o.c" | wc -l); [ $n = $k ] || exit 5; done
''',{'demo.cc':M+'''int main(int c,char**v){ for (int k=1;k<18;k++){ decl_db *d=crefl_db_new(); crefl_db_defaults(d); decl_ref s=crefl_decl_new(d,_decl_source); d->root_element=s.decl_idx; crefl_decl_ptr(s)->_name=crefl_name_new(d,std::string(k,'n').c_str()); if (crefl_db_write_file(d,(v[1]+std::to_string(k)).c_str())) return 1; } decl_db *d=crefl_db_new(); crefl_db_defaults(d); decl_ref s=crefl_decl_new(d,_decl_source); d->root_element=s.decl_idx; return crefl_db_write_file(d,v[1]); }
'''})
seed('C25-big','C25','an image of more than 65535 octets','the declared size of the embedded array is kept in sixteen bits',
 [('tool/crefltool.cc','    fprintf(f, "const size_t __crefl_%s_size = sizeof(__crefl_%s_data);\\n",','    fprintf(f, "const size_t __crefl_%s_size = (unsigned short)sizeof(__crefl_%s_data);\\n",')],
 TOOL+'''_build/crefltool --emit "$T/o.c" "$T/o.refl" && echo 'extern const unsigned long __crefl_main_size; int main(int c,char**v){ return __crefl_main_size != __builtin_strtoull(v[1],0,0); }' | sed 's/__builtin_strtoull/strtoull/;1i#include <stdlib.h>' > "$T/m.c" && gcc -o "$T/m" "$T/m.c" "$T/o.c" && "$T/m" $(stat -c %s "$T/o.refl")
''',{'demo.cc':M+'''int main(int c,char**v){ decl_db *d=crefl_db_new(); crefl_db_defaults(d); decl_ref s=crefl_decl_new(d,_decl_source); d->root_element=s.decl_idx; crefl_decl_ptr(s)->_name=crefl_name_new(d,std::string(70000,'n').c_str()); return crefl_db_write_file(d,v[1]); }
'''})
seed('C26-prefix','C26','octets that begin with a registered identifier of ten octets and go on','only the first ten octets are looked up',
 [('src/oid.cc','map.find(std::string(oid,len));','map.find(std::string(oid,len < 10 ? len : 10));')],
 demo(['oid']),{'demo.cc':H+'''#include <crefl/asn1.h>
#include <crefl/oid.h>
int main(){ const char o[]="\\x09\\x92\\x26\\x89\\x93\\xf2\\x2c\\x64\\x01\\x01\\x01"; CK(!strcmp(crefl_asn1_oid_desc(o,10),"userId")); CK(!*crefl_asn1_oid_desc(o,11)); return 0; }
'''})
seed('C26-typo','C26','the identifier of one entry of the registry','one entry of the table has a wrong last octet',
 [('src/oid.cc','{ { 0x03,0xa2,0x31,0x05,0x03,0x01,0x09,0x2f }, 8, "camellia_256_ccm" }','{ { 0x03,0xa2,0x31,0x05,0x03,0x01,0x09,0x2d }, 8, "camellia_256_ccm" }')],
 demo(['oid']),{'demo.cc':H+'''#include <crefl/asn1.h>
#include <crefl/oid.h>
int main(){ CK(!strcmp(crefl_asn1_oid_desc("\\x03\\xa2\\x31\\x05\\x03\\x01\\x09\\x2f",8),"camellia_256_ccm")); return 0; }
'''})
seed('C27-offset-u16','C27','a file of more than 65535 octets','offsets are printed modulo 65536',
 [('tool/asn1tool.cc','    printf("[%5zu;%-5llu]%s|-%c%-20s",','    printf("[%5hu;%-5llu]%s|-%c%-20s",')],
 '''#!/bin/bash
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
python3 - "$T/f" <<'E'
import sys
big = bytes([0x04,0x83,1,0x11,0x70]) + bytes(70000)
open(sys.argv[1],'wb').write(big + bytes([2,1,5]))
E
_build/asn1tool --dump "$T/f" | grep -q '^\\[70007;1 '
'''.replace('0x83,1,0x11,0x70','0x83,1,0x11,0x70'))
seed('C27-long-bits','C27','an INTEGER or BIT STRING of more than 255 octets','the number of octets shown is taken modulo 256',
 [('tool/asn1tool.cc','static std::string hex_str(const uint8_t *data, size_t sz)','static std::string hex_str(const uint8_t *data, uint8_t sz)')],
 '''#!/bin/bash
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
python3 -c 'import sys; open(sys.argv[1],"wb").write(bytes([3,0x82,1,4])+bytes(range(200))+bytes([7])*60)' "$T/f"
[ $(_build/asn1tool --dump "$T/f" | tr -cd , | wc -c) = 259 ]
''')
