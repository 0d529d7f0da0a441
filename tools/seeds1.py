from mkseed import *
H='''#include <cstdio>
#include <cstring>
#include <cstdlib>
#define CK(c) do { if (!(c)) { fprintf(stderr, "failed: %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)
'''
seed('C19-stale-value','C19','insert, erase and subscript access of the same key: the slot is reused by operator[]',
 'subscript access of an erased key shows the value stored before the erasure instead of a fresh one',
 [('include/crefl/hashmap.h','                data[i].second = Value(0);\n                bitmap_clear','                bitmap_clear')],
 demo([]),{'demo.cc':H+'''#include <crefl/hashmap.h>
int main(){ hashmap<int,int> m; m[7]=42; m.erase(7); CK(m[7]==0); return 0; }
'''})
seed('C19-rehash-wrap','C19','entries whose probe sequence wraps past the end of the old table, then growth',
 'growth places wrapped entries by the old mask, so lookups no longer find them',
 [('include/crefl/hashmap.h','        bitmap_set(bitmap, i, deleted);\n','        bitmap_set(bitmap, i, deleted);\n')] if 0 else
 [('include/crefl/hashmap.h','            for (size_t j = key_index(v->first); ; j = (j+1) & index_mask()) {\n                if ((bitmap_get(bitmap, j) & occupied) != occupied) {','            for (size_t j = key_index(v->first); ; j = (j+1) & (old_size - 1)) {\n                if ((bitmap_get(bitmap, j) & occupied) != occupied) {')],
 demo([]),{'demo.cc':H+'''#include <crefl/hashmap.h>
struct hf { size_t operator()(int k) const { return k < 100 ? 14 : k; } };
int main(){ hashmap<int,int,hf> m; for (int i=0;i<9;i++) m[i]=i+1; for (int i=0;i<9;i++){ auto it=m.find(i); CK(it!=m.end() && it->second==i+1);} CK(m.size()==9); return 0; }
'''})
seed('C20-pad-boundary','C20','a message whose length modulo 64 is 55',
 'the digest of messages of 55, 119, 183... octets is wrong: padding spills into a second block one octet early',
 [('src/sha256.cc','    if (fill > 56) {','    if (fill >= 56) {')],
 demo(['sha256']),{'demo.cc':H+'''#include <crefl/sha256.h>
int main(){ unsigned char d[32]; char m[55]; memset(m,'a',55); sha256_ctx c; sha256_init(&c); sha256_update(&c,m,55); sha256_final(&c,d);
 char s[65]; for(int i=0;i<32;i++) sprintf(s+2*i,"%02x",d[i]); CK(!strcmp(s,"9f4390f8d30c2dd92ec9f095b65e2b9ae9b0a925a5258e241c9f1e910f734318")); return 0; }
'''})
seed('C06-vlu-len','C06','a VLU integer of 50 or more bits with the next-to-top seven-bit boundary',
 'the by-value VLU writer refuses values of 2^55 and above',
 [('src/asn1.cc','''int crefl_vlu_u64_write_byval(crefl_buf *buf, const u64 value)
{
    size_t len;
    const u64 x = value;
    u64 v = 0;

    if (x >= (1ull << 56)) {''','''int crefl_vlu_u64_write_byval(crefl_buf *buf, const u64 value)
{
    size_t len;
    const u64 x = value;
    u64 v = 0;

    if (x >> 55) {''')],
 demo(['asn1','buf']),{'demo.cc':H+'''#include <crefl/asn1.h>
int main(){ crefl_buf *b=crefl_buf_new(16); CK(crefl_vlu_u64_write_byval(b,(1ull<<55)+5)==0); crefl_buf_reset(b); u64_result r=crefl_vlu_u64_read_byval(b); CK(r.error==0 && r.value==(1ull<<55)+5); return 0; }
'''})
