from mkseed import *
H='''#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#define CK(c) do { if (!(c)) { fprintf(stderr, "failed: %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)
'''
A=H+'#include <crefl/asn1.h>\n'
M=H+'#include <crefl/model.h>\n#include <crefl/db.h>\n#include <crefl/link.h>\n#include <crefl/types.h>\n'
AS=['asn1','buf']; MS=['model','types','db','link','sha256']
# a demo that reflects a C program with the plugin and looks at the result from C++
PL='''#!/bin/bash
# reflects prog.c with the plugin that was built, and looks at the database with demo.cc
D=$(dirname "$(readlink -f "$0")"); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -include cstdint -w -O1 -I include -o "$T/demo" "$D/demo.cc" src/model.cc src/types.cc src/db.cc src/link.cc src/sha256.cc || exit 2
LD_LIBRARY_PATH=/opt/llvm/lib timeout 60 /opt/llvm/bin/clang -c -Xclang -load -Xclang _build/libcrefl.so -Xclang -plugin -Xclang crefl -Xclang -plugin-arg-crefl -Xclang -o -Xclang -plugin-arg-crefl -Xclang "$T/o.refl" "$D/prog.c" || exit 3
timeout 60 "$T/demo" "$T/o.refl"
'''
R=M+'''static decl_db *load(const char *f){ decl_db *d=crefl_db_new(); if (crefl_db_read_file(d,f)) { fprintf(stderr,"cannot read\\n"); exit(4); } return d; }
static decl_ref named(decl_db *d, decl_tag t, const char *n){ for (size_t i=d->root_element;i<d->decl_offset;i++){ decl_ref r=crefl_lookup(d,i); if(crefl_decl_tag(r)==t&&!strcmp(crefl_decl_name(r),n)) return r; } fprintf(stderr,"no %s\\n",n); exit(5); }
'''
PI='''#!/bin/bash
# runs the pipeline of this tree by hand and looks at what comes out
D=$(dirname "$(readlink -f "$0")"); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export LD_LIBRARY_PATH=/opt/llvm/lib
'''
seed('C28-same-base','C28','two sources of one target that have the same file name in different directories',
 'the merge takes a source with the name of the one before it for a repetition and drops it',
 [('src/link.cc','        if (crefl_decl_idx(l)) crefl_decl_ptr(l)->_next = crefl_decl_idx(o);\n        else crefl_decl_ptr(r)->_link = crefl_decl_idx(o);\n        l = o;',
   '        /* sources listed twice appear once */\n        if (crefl_decl_idx(l) && strcmp(crefl_decl_name(l), crefl_decl_name(o)) == 0) o = l;\n        else if (crefl_decl_idx(l)) crefl_decl_ptr(l)->_next = crefl_decl_idx(o);\n        else crefl_decl_ptr(r)->_link = crefl_decl_idx(o);\n        l = o;')],
 PI+'''mkdir "$T/a" "$T/b"; echo 'struct first { int a; };' > "$T/a/x.c"; echo 'struct second { int b; };' > "$T/b/x.c"
for d in a b; do scripts/creflcc.py -p _build -o "$T/$d.refl" "$T/$d/x.c" || exit 3; done
_build/crefltool --merge "$T/m.refl" "$T/a.refl" "$T/b.refl" || exit 4
g++ -std=c++17 -include cstdint -w -O1 -I include -o "$T/demo" "$D/demo.cc" src/model.cc src/types.cc src/db.cc src/link.cc src/sha256.cc || exit 2
timeout 60 "$T/demo" "$T/m.refl"
''',{'demo.cc':M+'''int main(int argc,char **argv){ decl_db *d=crefl_db_new(); CK(!crefl_db_read_file(d,argv[1])); size_t n=0; CK(!crefl_archive_sources(crefl_root(d),NULL,&n)); CK(n==2); return 0; }
'''})
seed('C28-iquote','C28','a header in an include directory with the name of a system header, included with angle brackets',
 'the include directories are given to the compiler for quoted includes only, so the system header is taken and the types of the other one are missing',
 [('scripts/creflcc.py',"            cmd += ['-I%s' % (include)]","            cmd += ['-iquote', include]")],
 PI+'''mkdir "$T/inc"; echo 'struct point { int x, y; };' > "$T/inc/math.h"; printf '#include <math.h>\\nstruct line { struct point a, b; };\\n' > "$T/line.c"
scripts/creflcc.py -p _build -I "$T/inc" -o "$T/l.refl" "$T/line.c" || exit 3
_build/crefltool --dump "$T/l.refl" | grep -q 'field .*x '
''')
seed('C29-relative-name','C29','a source given by a relative path that names a directory',
 'the name recorded for the source keeps the directories it was found in, so the output depends on where the build runs',
 [('src/reflect.cc','            crefl_basename(inputFile).c_str());','            (inputFile[0] == \'/\' ? crefl_basename(inputFile) : inputFile).c_str());')],
 PI+'''mkdir "$T/w" "$T/w/sub"; echo 'struct first { int a; };' > "$T/w/sub/x.c"
R=$PWD; scripts/creflcc.py -p "$R/_build" -o "$T/1.refl" "$T/w/sub/x.c" || exit 3
(cd "$T/w" && "$R/scripts/creflcc.py" -p "$R/_build" -o "$T/2.refl" sub/x.c) || exit 3
cmp "$T/1.refl" "$T/2.refl"
''')
seed('C29-merge-name','C29','an archive merged from inputs given by different paths, or into another directory',
 'the archive is named by the path of the output instead of its file name, so the same inputs give different archives',
 [('src/link.cc','        crefl_basename(name).c_str());','        std::string(name).c_str());')],
 PI+'''mkdir "$T/d"; echo 'struct first { int a; };' > "$T/x.c"
scripts/creflcc.py -p _build -o "$T/x.refl" "$T/x.c" || exit 3
_build/crefltool --merge "$T/m.refl" "$T/x.refl" && _build/crefltool --merge "$T/d/m.refl" "$T/x.refl" || exit 4
cmp "$T/m.refl" "$T/d/m.refl"
''')
seed('C30-popcnt-mask','C30','the portable definition of popcnt for 64 bits, on words with an upper sixteen bits that are all set',
 'a mask of the portable population count drops octets, so the portable counts of zeros and ones are wrong for some words',
 [('include/crefl/bits.h','    val = (val & 0x0000FFFF0000FFFFULL) + ((val >> 16) & 0x0000FFFF0000FFFFULL);','    val = (val & 0x0000000F0000FFFFULL) + ((val >> 16) & 0x0000FFFF0000FFFFULL);')],
 '''#!/bin/bash
# the portable definitions, selected by hiding the compiler's name
D=$(dirname "$(readlink -f "$0")"); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w -O1 -U__GNUC__ -I include -o "$T/demo" "$D/demo.cc" || exit 2
timeout 60 "$T/demo"
''',{'demo.cc':'''#include <crefl/bits.h>
int main(){ for (int i=0;i<64;i++) { unsigned long long v=1ull<<i; if (clz_u64(v)!=(unsigned)(63-i)) return 1; if (popcnt_u64(v-1)!=(unsigned)i || popcnt_u64(~(v-1))!=(unsigned)(64-i)) return 1; } return 0; }
'''})
seed('C30-ctz-step','C30','the portable definition of ctz for 64 bits, on words whose lowest set bit lies in the second octet',
 'one step of the portable count of trailing zeros looks at the wrong octets, so some words give eight more or less',
 [('include/crefl/bits.h','    if (v & 0x00FF00FF00FF00FFULL) c -= 8;','    if (v & 0x00FF00FF00FFFFFFULL) c -= 8;')],
 '''#!/bin/bash
# the portable definitions, selected by hiding the compiler's name
D=$(dirname "$(readlink -f "$0")"); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w -O1 -U__GNUC__ -I include -o "$T/demo" "$D/demo.cc" || exit 2
timeout 60 "$T/demo"
''',{'demo.cc':'''#include <crefl/bits.h>
int main(){ for (int i=0;i<64;i++) if (ctz_u64(1ull<<i)!=(unsigned)i || ctz_u64(~0ull<<i)!=(unsigned)i) return 1; return ctz_u64(0)!=64; }
'''})
