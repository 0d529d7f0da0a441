from mkseed import *
H='''#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#define CK(c) do { if (!(c)) { fprintf(stderr, "failed: %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)
'''
A=H+'#include <crefl/asn1.h>\n'
M=H+'#include <crefl/model.h>\n#include <crefl/db.h>\n#include <crefl/link.h>\n#include <crefl/types.h>\n'
AS=['asn1','buf']; MS=['model','types','db','link','sha256']
seed('C19-copy-tombs','C19','erasures, then copy assignment, then insertions and a lookup of an absent key',
 'copy assignment forgets the deleted slots, so the copy fills up without growing and a lookup never ends',
 [('include/crefl/hashmap.h','        tombs = o.tombs;\n        limit = o.limit;\n\n        size_t','        tombs = 0;\n        limit = o.limit;\n\n        size_t')],
 demo([]),{'demo.cc':H+'''#include <unistd.h>
#include <crefl/hashmap.h>
int main(){ alarm(5); hashmap<int,int> a, b; for (int i=0;i<8;i++) { a[i]=1; a.erase(i); } b=a; for (int i=8;i<16;i++) b[i]=i;
 CK(b.find(99)==b.end()); CK(b.size()==8); return 0; }
'''})
seed('C02-long-tag','C02','an identifier whose tag number is 2^49 or more',
 'tag numbers of eight base-128 groups can be written but not read back',
 [('src/asn1.cc','    } while ((b & 0x80) && w < 56);','    } while ((b & 0x80) && w < 49);',0)],
 demo(AS),{'demo.cc':A+'''int main(){ crefl_buf *b=crefl_buf_new(32); asn1_id a={0}, r={0}; a._identifier=(1ull<<55)+7; a._class=asn1_class_private; CK(crefl_asn1_ber_ident_write(b,a)==0);
 crefl_buf_reset(b); CK(crefl_asn1_ber_ident_read(b,&r)==0 && r._identifier==a._identifier && r._class==a._class); return 0; }
'''})
seed('C03-le-stale','C03','little-endian INTEGER contents of fewer than eight octets read by pointer into a variable that is not zero',
 'the upper octets of the destination keep what the variable held before',
 [('src/asn1.cc','    *value = 0;\n    /* unaligned accesses are enabled on little-endian targets */','    /* unaligned accesses are enabled on little-endian targets */')],
 demo(AS),{'demo.cc':A+'''int main(){ crefl_buf *b=crefl_buf_new(32); u64 v=0x1234, r=~0ull; CK(crefl_le_ber_integer_u64_write(b,2,&v)==0); crefl_buf_reset(b);
 CK(crefl_le_ber_integer_u64_read(b,2,&r)==0 && r==v); return 0; }
'''})
seed('C05-sub-pow2','C05','an f64 in the vf128 format in the range where the exponent may be left out of line with a unary prefix of eight bits',
 'values between 2^-9 and 2^-8 are written by value in a form the format document reserves for exponents down to -8, and differ from the pointer variant',
 [('src/asn1.cc','        else if (d.sexp < 0 && d.sexp >= -8) {','        else if (d.sexp < 0 && d.sexp >= -9) {',1)],
 demo(AS),{'demo.cc':A+'''int main(){ crefl_buf *a=crefl_buf_new(32),*b=crefl_buf_new(32); for (int e=1;e<20;e++) for (int m=1;m<4096;m+=2) { double v=1.0+m/4096.0; for(int i=0;i<e;i++) v/=2;
 crefl_buf_reset(a); crefl_buf_reset(b); CK(!crefl_vf_f64_write(a,&v)); CK(!crefl_vf_f64_write_byval(b,v)); CK(crefl_buf_offset(a)==crefl_buf_offset(b)); CK(!memcmp(a->data,b->data,crefl_buf_offset(a))); } return 0; }
'''})
seed('C07-first-pair','C07','an object identifier below 2 whose second component is 39',
 'predicted length counts 41 values for each of the first two arcs',
 [('src/asn1.cc','            length = crefl_asn1_ber_tag_length(obj->oid[0] * 40 + obj->oid[1]);','            length = crefl_asn1_ber_tag_length(obj->oid[0] * 40 + obj->oid[1] - (obj->oid[0] == 2));')],
 demo(AS),{'demo.cc':A+'''int main(){ crefl_buf *b=crefl_buf_new(64); asn1_oid o={}; o.count=3; o.oid[0]=2; o.oid[1]=48; o.oid[2]=1; CK(crefl_asn1_ber_oid_length(&o)==3);
 CK(!crefl_asn1_der_oid_write(b,asn1_tag_object_identifier,&o)); crefl_buf_reset(b); asn1_oid r={}; CK(!crefl_asn1_der_oid_read(b,asn1_tag_object_identifier,&r)); CK(r.count==3&&r.oid[1]==48); return 0; }
'''})
seed('C08-short-write','C08','writing an octet string whose declared length exceeds the user string',
 'the cursor advances only past the copied octets instead of past the object',
 [('src/asn1.cc','    memcpy(span.data, obj->str, copy_count);\n    crefl_buf_seek(buf, crefl_buf_offset(buf) + len);','    memcpy(span.data, obj->str, copy_count);\n    crefl_buf_seek(buf, crefl_buf_offset(buf) + copy_count);')],
 demo(AS),{'demo.cc':A+'''int main(){ crefl_buf *b=crefl_buf_new(64); char s[4]="abc"; asn1_string o={}; o.str=(u8*)s; o.count=3; CK(!crefl_asn1_ber_octets_write(b,8,&o)); CK(crefl_buf_offset(b)==8); return 0; }
'''})
seed('C12-attr-bound','C12','an image whose attribute reference is exactly one past the last declaration',
 'such an image is accepted and the reference leads outside the table',
 [('src/db.cc','        if (d->_attr >= db->decl_offset) {','        if (d->_attr > db->decl_offset) {')],
 demo(MS,'-fno-strict-aliasing'),{'demo.cc':M+'''int main(){ decl_db *d=crefl_db_new(); crefl_db_defaults(d); decl_ref s=crefl_decl_new(d,_decl_source); d->root_element=crefl_decl_idx(s); crefl_decl_new(d,_decl_struct);
 crefl_decl_ptr(s)->_attr=d->decl_offset; std::vector<uint8_t> b(crefl_db_size(d)); CK(!crefl_db_write_mem(d,b.data(),b.size())); decl_db *e=crefl_db_new(); CK(crefl_db_read_mem(e,b.data(),b.size())!=0); return 0; }
'''})
seed('C14-long-name','C14','one name longer than twice the current name table',
 'the name table doubles only once, so a very long name is stored past its end',
 [('src/model.cc','        while (db->name_offset + len > db->name_size) {','        if (db->name_offset + len > db->name_size) {')],
 demo(MS),{'demo.cc':M+'''int main(){ decl_db *d=crefl_db_new(); crefl_db_defaults(d); std::string s(50,'x'); for (int i=0;i<3;i++) { s+=s+s; crefl_name_new(d,"a"); crefl_name_new(d,s.c_str()); CK(d->name_size>=d->name_offset); } return 0; }
'''})
seed('C15-limit','C15','a query with a limit of one less than the number of members',
 'one more entry than the limit allows is stored',
 [('src/model.cc','            if (r && count < limit) {','            if (r && count <= limit) {')],
 demo(MS),{'demo.cc':M+'''int main(){ decl_db *d=crefl_db_new(); crefl_db_defaults(d); decl_ref s=crefl_decl_new(d,_decl_struct), p=s; for (int i=0;i<4;i++){ decl_ref f=crefl_decl_new(d,_decl_field); if(i) crefl_decl_ptr(p)->_next=f.decl_idx; else crefl_decl_ptr(s)->_link=f.decl_idx; p=f; }
 decl_ref r[5]={}; size_t n=3; CK(!crefl_struct_fields(s,r,&n)); CK(n==4 && r[3].db==nullptr); return 0; }
''' if 0 else M+'''int main(){ decl_db *d=crefl_db_new(); crefl_db_defaults(d); decl_ref s=crefl_decl_new(d,_decl_struct), p=s; for (int i=0;i<4;i++){ decl_ref f=crefl_decl_new(d,_decl_field); if(i) crefl_decl_ptr(p)->_next=f.decl_idx; else crefl_decl_ptr(s)->_link=f.decl_idx; p=f; }
 decl_ref r[5]; memset(r,0,sizeof(r)); size_t n=3; CK(!crefl_struct_fields(s,r,&n)); CK(n==4 && r[3].db==nullptr); return 0; }
'''})
seed('C16-nested-array','C16','an array of arrays three deep',
 'only the outer two dimensions of an array count towards its size',
 [('src/model.cc','    do  {\n        qty *= crefl_array_count(d);\n        d = crefl_array_type(d);\n    } while (crefl_is_array(d));','    size_t n = 0;\n    do  {\n        qty *= n++ < 2 ? crefl_array_count(d) : 1;\n        d = crefl_array_type(d);\n    } while (crefl_is_array(d));')],
 demo(MS),{'demo.cc':M+'''int main(){ decl_db *d=crefl_db_new(); crefl_db_defaults(d); decl_ref t=crefl_intrinsic(d,_decl_sint,32); for (int i=2;i<5;i++){ decl_ref a=crefl_decl_new(d,_decl_array); crefl_decl_ptr(a)->_quantity=i; crefl_decl_ptr(a)->_link=t.decl_idx; t=a; }
 CK(crefl_type_width(t)==32*24); return 0; }
'''})
seed('C17-attr-hash','C17','two declarations that differ only in the arguments of an attribute',
 'the value list of attributes does not enter the hash',
 [('src/link.cc','        hash = crefl_node_hash(index, next, d, prefix);\n        crefl_hash_absorb(sum, hash_delimeter);\n        crefl_hash_update(sum, (const char*)hash->sum, sizeof(decl_hash));\n        next = crefl_decl_next(next);','        hash = crefl_node_hash(index, next, d, prefix);\n        crefl_hash_absorb(sum, hash_delimeter);\n        crefl_hash_update(sum, (const char*)hash->sum, crefl_is_value(next) ? 0 : sizeof(decl_hash));\n        next = crefl_decl_next(next);')],
 demo(MS),{'demo.cc':M+'''static std::string h(int v){ decl_db *d=crefl_db_new(); crefl_db_defaults(d); decl_ref s=crefl_decl_new(d,_decl_source), f=crefl_decl_new(d,_decl_struct), a=crefl_decl_new(d,_decl_attribute), x=crefl_decl_new(d,_decl_value);
 d->root_element=s.decl_idx; crefl_decl_ptr(s)->_link=f.decl_idx; crefl_decl_ptr(f)->_attr=a.decl_idx; crefl_decl_ptr(a)->_attr=x.decl_idx; crefl_decl_ptr(x)->_quantity=v;
 decl_index *i=crefl_index_new(); crefl_index_scan(i,d); return std::string((char*)crefl_entry_ptr(crefl_entry_ref(i,f))->hash.sum,28); }
int main(){ CK(h(8)==h(8)); CK(h(8)!=h(16)); return 0; }
'''})
seed('C18-third-source','C18','three or more inputs',
 'the inputs after the second are linked behind the first, dropping what was there',
 [('src/link.cc','        if (crefl_decl_idx(l)) crefl_decl_ptr(l)->_next = crefl_decl_idx(o);\n        else crefl_decl_ptr(r)->_link = crefl_decl_idx(o);\n        l = o;','        if (crefl_decl_idx(l)) crefl_decl_ptr(l)->_next = crefl_decl_idx(o);\n        else crefl_decl_ptr(r)->_link = crefl_decl_idx(o);\n        if (i < 1) l = o;')],
 demo(MS),{'demo.cc':M+'''int main(){ decl_db *v[3]; for(int i=0;i<3;i++){ decl_db *d=v[i]=crefl_db_new(); crefl_db_defaults(d); decl_ref s=crefl_decl_new(d,_decl_source); d->root_element=s.decl_idx; char n[2]={(char)('a'+i),0}; crefl_decl_ptr(s)->_name=crefl_name_new(d,n);} decl_db *o=crefl_db_new(); CK(!crefl_link_merge(o,"x",v,3)); size_t n=9; decl_ref r[9]; CK(!crefl_archive_sources(crefl_root(o),r,&n)); CK(n==3 && !strcmp(crefl_decl_name(r[2]),"c")); return 0; }
'''})
