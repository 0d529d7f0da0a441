// Driver for the database library: building, queries, layout, images, hashes and merging.
#include "drv.h"
#include <map>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dlfcn.h>
#include <ftw.h>
#include <crefl/model.h>
#include <crefl/db.h>
#include <crefl/link.h>
static decl_db *dbs[8];
static std::vector<decl_id> ids[8];
static std::string text(const bytes &b) { return std::string((const char *)b.data(), b.size()); }
static std::string jnode(decl_db *db, size_t i)
{
    decl_node *n = db->decl + i;
    return "[" + ji((int)n->_tag) + "," + ji((int)n->_props) + "," + js(crefl_decl_name(crefl_lookup(db, i))) + "," + ji((int)n->_next) + "," + ji((int)n->_link)
         + "," + ji((int)n->_attr) + "," + ju(n->_quantity) + "]";
}
static std::string jnodes(decl_db *db, size_t from = 0)
{
    std::string s = "[";
    for (size_t i = from; i < db->decl_offset; i++) { if (i > from) s += ","; s += jnode(db, i); }
    return s + "]";
}
static bytes image(decl_db *db, int *rc = 0)
{
    bytes b(crefl_db_size(db));
    uint8_t *p = (uint8_t *)malloc(b.size() ? b.size() : 1);
    int r = crefl_db_write_mem(db, p, b.size()); if (rc) *rc = r;
    memcpy(b.data(), p, b.size()); free(p);
    return b;
}
static int read_exact(decl_db *db, const uint8_t *d, size_t n)
{
    uint8_t *p = (uint8_t *)malloc(n ? n : 1); // exactly the image: any access beyond it is caught
    memcpy(p, d, n);
    int r = crefl_db_read_mem(db, p, n);
    free(p);
    return r;
}
static bytes slurp(const std::string &path, bool &ok)
{
    bytes b; struct stat st; ok = false;
    if (stat(path.c_str(), &st) || !S_ISREG(st.st_mode)) return b;
    FILE *f = fopen(path.c_str(), "rb"); if (!f) return b;
    uint8_t t[65536]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n);
    fclose(f); ok = true; return b;
}
typedef int (*qfn)(decl_ref, decl_ref *, size_t *);
static std::map<std::string, qfn> qfns = {
    {"enum_constants", crefl_enum_constants}, {"set_constants", crefl_set_constants}, {"struct_fields", crefl_struct_fields},
    {"union_fields", crefl_union_fields}, {"function_params", crefl_function_params}, {"source_decls", crefl_source_decls},
    {"source_types", crefl_source_types}, {"source_fields", crefl_source_fields}, {"source_functions", crefl_source_functions},
    {"archive_sources", crefl_archive_sources} };
// 2: no result array  4: no size
static void query(const std::string &fn, int d, size_t id, size_t limit, int mode)
{
    decl_ref *r = (decl_ref *)malloc(sizeof(decl_ref) * limit + 1); size_t s = limit;
    for (size_t i = 0; i < limit; i++) r[i] = decl_ref { (decl_db *)0, (size_t)-7 };
    int rc = qfns[fn](crefl_lookup(dbs[d], id), (mode & 2) ? nullptr : r, (mode & 4) ? nullptr : &s);
    bool st = rc == 0 && !(mode & 6);
    std::string l = "[";
    size_t m = s < limit ? s : limit; bool dbok = true;
    if (st) for (size_t i = 0; i < m; i++) { if (i) l += ","; l += ji(r[i].db == dbs[d] ? (long long)r[i].decl_idx : -1); }
    // entries beyond the count stay untouched
    for (size_t i = (mode & 6) || rc ? 0 : m; i < limit; i++) if (r[i].decl_idx != (size_t)-7 || r[i].db) l += ",-2";
    l += "]"; (void)dbok;
    ev e("Query"); e.str("fn", fn).i("d", d).i("id", id).i("limit", limit).i("rc", rc).raw("counted", mode & 4 ? "false" : "true").i("count", (long long)s)
        .raw("stored", st ? "true" : "false").raw("list", l).done();
    free(r);
}
static void kind(int d, size_t id)
{
    decl_ref r = crefl_lookup(dbs[d], id);
    int (*is[])(decl_ref) = { crefl_is_none, crefl_is_intrinsic, crefl_is_typedef, crefl_is_set, crefl_is_enum, crefl_is_struct, crefl_is_union, crefl_is_field,
        crefl_is_array, crefl_is_pointer, crefl_is_constant, crefl_is_function, crefl_is_param, nullptr, crefl_is_attribute, crefl_is_value, crefl_is_archive,
        crefl_is_source, crefl_is_alias };
    std::string s = "[";
    for (size_t i = 0; i < 19; i++) { if (i) s += ","; s += is[i] ? (is[i](r) ? "1" : "0") : (crefl_decl_tag(r) == 13 ? "1" : "0"); }
    s += "]";
    auto x = [&](decl_ref q) { return ji(q.db == dbs[d] ? (long long)crefl_decl_idx(q) : -1); };
    std::string f = "[" + ji((int)crefl_decl_tag(r)) + "," + ji((int)crefl_decl_props(r)) + "," + js(crefl_decl_name(r)) + "," + x(crefl_decl_next(r)) + "," + x(crefl_decl_link(r)) + ","
        + x(crefl_decl_attr(r)) + "," + ju(crefl_decl_qty(r)) + "]";
    std::string t = "{\"typedef\":" + x(crefl_typedef_type(r)) + ",\"field\":" + x(crefl_field_type(r)) + ",\"array\":" + x(crefl_array_type(r)) + ",\"pointer\":" + x(crefl_pointer_type(r))
        + ",\"constant\":" + x(crefl_constant_type(r)) + ",\"param\":" + x(crefl_param_type(r)) + "}";
    ev e("Kind"); e.i("d", d).i("id", crefl_decl_idx(r)).raw("is", s).i("type", crefl_is_type(r) ? 1 : 0).i("any", crefl_is_any(r) ? 1 : 0).i("named", crefl_decl_has_name(r) ? 1 : 0)
        .i("void", crefl_decl_idx(crefl_decl_void(r))).raw("fields", f).raw("types", t).u("count", crefl_array_count(r)).u("value", crefl_constant_value(r).ux)
        .u("addr", (uint64_t)crefl_function_addr(r)).done();
}
static void width(int d, size_t id)
{
    decl_ref x = crefl_lookup(dbs[d], id); ev e("Width"); e.i("d", d).i("id", id).u("type", crefl_type_width(x)).u("struct", crefl_struct_width(x))
        .u("union", crefl_union_width(x)).u("intrinsic", crefl_intrinsic_width(x)).u("pointer", crefl_pointer_width(x)).done();
}
// mode: 1 no declarations, 2 no offsets
static void offsets(int d, size_t id, size_t lim, int mode)
{
    size_t s = lim;
    decl_ref *q = (decl_ref *)malloc(lim * sizeof(decl_ref) + 1); size_t *o = (size_t *)malloc(lim * sizeof(size_t) + 1);
    int rc = crefl_struct_fields_offsets(crefl_lookup(dbs[d], id), mode & 1 ? nullptr : q, mode & 2 ? nullptr : o, &s);
    std::string a = "[", b = "[";
    size_t m = s < lim ? s : lim;
    if (rc == 0) for (size_t i = 0; i < m; i++) { if (!(mode & 1)) { if (i) a += ","; a += ji(q[i].decl_idx); } if (!(mode & 2)) { if (i) b += ","; b += ju(o[i]); } }
    ev e("Offsets"); e.i("d", d).i("id", id).i("limit", lim).i("rc", rc).i("count", s).raw("refs", mode & 1 ? "false" : "true").raw("offs", mode & 2 ? "false" : "true").raw("list", a + "]").raw("off", b + "]").done();
    free(q); free(o);
}
// ---- the command line tool on files holding what the slots hold ----
static std::string dir = ".";
static long fileno_ = 0;
static std::string fresh() { return dir + "/f" + std::to_string(fileno_++) + "-" + std::to_string(getpid()); }
static void put(const std::string &p, const bytes &b) { FILE *o = fopen(p.c_str(), "wb"); if (!o || fwrite(b.data(), 1, b.size(), o) != b.size() || fclose(o)) _exit(66); }
struct ran { int exit = -1; bool crash = false; bytes out, err; };
// whether an unprivileged user can be stood in for (not inside a user namespace that has only one)
static bool can_drop()
{
    static int v = -1;
    if (v < 0) { flush_out(); pid_t p = fork(); if (p == 0) _exit(geteuid() != 0 || setgid(65534) || setuid(65534) ? 1 : 0); int st; waitpid(p, &st, 0); v = WIFEXITED(st) && WEXITSTATUS(st) == 0; }
    return v;
}
// out: file that receives standard output ("" closes it); limit: largest file; drop: as an unprivileged user
static ran tool(const std::vector<std::string> &args, const std::string &out, size_t limit = RLIM_INFINITY, bool drop = false, const std::string &shim = "", const std::string &mark = "")
{
    ran r; std::string err = fresh(); flush_out();
    pid_t pid = fork();
    if (pid == 0) {
        int e = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(e, 2); close(e);
        int n = open("/dev/null", O_RDONLY); dup2(n, 0); close(n);
        if (out.empty()) close(1); else { int o = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (o < 0) _exit(66); dup2(o, 1); close(o); }
        struct rlimit rl = { limit, limit }; if (limit != RLIM_INFINITY) setrlimit(RLIMIT_FSIZE, &rl);
        if (drop && geteuid() == 0) { chmod(err.c_str(), 0666); if (setgid(65534) || setuid(65534)) _exit(66); }
        if (!shim.empty()) { setenv("LD_PRELOAD", getenv("FAULTSHIM"), 1); setenv("FAULT", shim.c_str(), 1); setenv("FAULT_MARK", mark.c_str(), 1); }
        std::vector<char *> a; const char *t = getenv("CREFLTOOL"); a.push_back((char *)t); for (auto &x : args) a.push_back((char *)x.c_str()); a.push_back(0);
        signal(SIGPIPE, SIG_DFL); alarm(20); execv(t, a.data()); _exit(66);
    }
    int st = 0; waitpid(pid, &st, 0);
    if (WIFEXITED(st)) { r.exit = WEXITSTATUS(st); if (r.exit == 66) _exit(66); if (r.exit == 77) r.crash = true; } else { r.exit = 128 + WTERMSIG(st); r.crash = WTERMSIG(st) != SIGPIPE; }
    bool ok; if (out.size() && out.compare(0, 5, "/dev/")) r.out = slurp(out, ok);
    r.err = slurp(err, ok); unlink(err.c_str());
    return r;
}
// a line of text; the ellipsis becomes ~
static std::string jlines(const bytes &b)
{
    std::string s = "[", l; bool first = true; size_t i = 0;
    auto end = [&] { if (!first) s += ","; first = false; s += js(l); l.clear(); };
    for (; i < b.size(); i++) {
        if (b[i] == '\n') { end(); continue; }
        if (b[i] == '~') { l += "~~"; continue; }
        if (i + 2 < b.size() && b[i] == 0xe2 && b[i + 1] == 0x80 && b[i + 2] == 0xa6) { l += '~'; i += 2; continue; }
        l += (char)b[i];
    }
    if (!l.empty()) { l += "<no newline>"; end(); }
    return s + "]";
}
static std::string jhashes(decl_db *db)
{
    decl_index *x = crefl_index_new(); crefl_index_scan(x, db); std::string a = "["; char t[8];
    for (size_t i = 0; i < db->decl_offset; i++) { if (i) a += ","; a += "\""; decl_entry_ref er = crefl_entry_ref(x, crefl_lookup(db, i)); if (crefl_entry_is_valid(er)) for (int k = 0; k < sha224_hash_size; k++) { snprintf(t, sizeof t, "%02x", crefl_entry_ptr(er)->hash.sum[k]); a += t; } a += "\""; }
    crefl_index_destroy(x); return a + "]";
}
static void dump(int d, const std::string &fmt)
{
    std::string p = fresh(), o = fresh(), opt = "--"; for (char c : fmt) opt += c == '_' ? '-' : c;
    put(p, image(dbs[d])); ran r = tool({opt, p}, o); unlink(p.c_str()); unlink(o.c_str());
    ev e("Dump"); e.i("d", d).str("fmt", fmt).i("exit", r.exit).i("errors", r.err.size()).raw("hash", jhashes(dbs[d])).raw("lines", jlines(r.out)).done();
}
static void stats(int d, bool built)
{
    std::string p = fresh(), o = fresh(); put(p, image(dbs[d])); struct stat st; stat(p.c_str(), &st); ran r = tool({"--stats", p}, o); unlink(p.c_str()); unlink(o.c_str());
    ev e("Stats"); e.i("d", d).raw("built", built ? "true" : "false").i("size", st.st_size).i("exit", r.exit).i("errors", r.err.size()).raw("lines", jlines(r.out)).done();
}
static void emit_source(int d, bool stale)
{
    std::string p = fresh(), o = fresh(), so = fresh(); bytes img = image(dbs[d]); put(p, img);
    if (stale) put(o, bytes(200000, 'x'));
    ran r = tool({"--emit", o, p}, "/dev/null");
    std::string cmd = "gcc -w -x c -std=c99 -shared -fPIC -O0 -o " + so + " " + o + " 2>/dev/null"; int crc = r.exit == 0 ? system(cmd.c_str()) : -1;
    bytes arr; size_t size = 0; int rrc = -1; decl_db *x = crefl_db_new();
    if (crc == 0) {
        void *h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL); const uint8_t *a = h ? (const uint8_t *)dlsym(h, "__crefl_main_data") : 0; const size_t *s = h ? (const size_t *)dlsym(h, "__crefl_main_size") : 0;
        if (a && s) { size = *s; arr.assign(a, a + size); rrc = crefl_db_read_mem(x, (uint8_t *)a, size); } else crc = -2;
        if (h) dlclose(h);
    }
    unlink(p.c_str()); unlink(o.c_str()); unlink(so.c_str());
    ev e("Emit"); e.i("d", d).i("exit", r.exit).i("compiled", crc).b("image", img).b("array", arr).i("size", size).i("rrc", rrc).i("root", rrc == 0 ? x->root_element : 0)
        .raw("nodes", rrc == 0 ? jnodes(x) : "[]").done();
    crefl_db_destroy(x);
}
static std::vector<std::string> split(const std::string &s, char c) { std::vector<std::string> v(1); for (char x : s) if (x == c) v.push_back(""); else v.back() += x; return v; }
// mode, output condition[:number], [shim=what], input conditions:slot[:number]
static void run(line_reader &r)
{
    std::string mode = r.tok(), line = mode, shim; auto o = split(r.tok(), ':'); std::string out = o[0]; size_t limit = RLIM_INFINITY; bool drop = false;
    std::vector<std::string> ins, conds; std::vector<int> slots;
    while (r.more()) {
        std::string t = r.tok(); if (t.compare(0, 5, "shim=") == 0) { shim = t.substr(5); continue; }
        auto v = split(t, ':'); std::string p = fresh(), q = p; int s = atoi(v[1].c_str()); size_t k = v.size() > 2 ? strtoull(v[2].c_str(), 0, 0) : 0; bytes b = image(dbs[s]);
        if (v[0] == "cut") b.resize(k < b.size() ? k : b.size() - 1);
        if (v[0] == "foreign") b[k % 8] ^= 0x20;
        if (v[0] == "empty") b.clear();
        if (v[0] == "denied" && geteuid() == 0 && !can_drop()) v[0] = "missing";
        if (v[0] != "missing" && v[0] != "dir") put(p, b);
        if (v[0] == "dir") mkdir(p.c_str(), 0755);
        if (v[0] == "under") q += "/x";
        if (v[0] == "denied") { chmod(p.c_str(), 0); drop = true; }
        ins.push_back(q); conds.push_back(v[0]); slots.push_back(s);
    }
    std::string target = fresh(), base = target, sub = fresh(), mark = fresh();
    bool file = mode == "merge" || mode == "emit";
    bytes want; // what a complete output holds
    bool allok = true; for (auto &c : conds) if (c != "ok") allok = false;
    if (drop && file) { mkdir(sub.c_str(), 0777); chmod(sub.c_str(), 0777); target = sub + "/out"; }
    if (out == "nodir") target += "/no/such"; else if (out == "isdir") mkdir(target.c_str(), 0755); else if (out == "full") target = "/dev/full"; else if (out == "closed") target = "";
    else if (out == "over") { put(target, bytes(100000, 'x')); if (drop) chmod(target.c_str(), 0666); }
    if (allok) {
        if (mode == "merge") { std::vector<decl_db *> v; for (int s : slots) v.push_back(dbs[s]); decl_db *m = crefl_db_new(); crefl_link_merge(m, target.c_str(), v.data(), v.size()); want = image(m); crefl_db_destroy(m); }
        else if (mode == "emit") { std::string ref = fresh(); tool({"--emit", ref, ins[0]}, "/dev/null"); bool k; want = slurp(ref, k); unlink(ref.c_str()); }
        else { std::string ref = fresh(); want = tool({"--" + mode, ins[0]}, ref).out; unlink(ref.c_str()); }
    }
    if (out == "limit") { limit = strtoull(o[1].c_str(), 0, 0); if (o.size() > 2) limit = want.size() * limit / 100; if (limit >= want.size() && want.size()) { if (o.size() > 2) limit = want.size() - 1; else out = "ok"; } }
    std::vector<std::string> args = {"--" + mode}; if (file) args.push_back(target); for (auto &i : ins) args.push_back(i);
    // the limit also binds what the sanitizer would write; nothing else is written
    ran x = tool(args, file ? std::string("/dev/null") : target, limit, drop, shim, mark);
    bool ok = false; bytes got = file ? slurp(target, ok) : x.out; if (!file) ok = true;
    struct stat st; bool fired = stat(mark.c_str(), &st) == 0; unlink(mark.c_str());
    std::string c = "["; for (size_t i = 0; i < conds.size(); i++) { if (i) c += ","; c += js(conds[i]); }
    ev e("Run"); e.str("mode", mode).str("output", out).raw("inputs", c + "]").str("shim", shim).raw("fired", fired ? "true" : "false").raw("crash", x.crash ? "true" : "false")
        .i("exit", x.exit).i("got", got.size()).i("want", want.size()).raw("complete", ok && allok && got == want ? "true" : "false").done();
    for (size_t i = 0; i < ins.size(); i++) { std::string p = conds[i] == "under" ? ins[i].substr(0, ins[i].size() - 2) : ins[i]; if (conds[i] == "dir") rmdir(p.c_str()); else unlink(p.c_str()); }
    if (out == "isdir") rmdir(target.c_str()); else if (target.size() && target != "/dev/full") unlink(target.c_str());
    if (drop && file) { unlink((sub + "/out").c_str()); rmdir(sub.c_str()); }
}
// ---- the plugin on a program: slot, file name, its text, the program as the specification sees it; what it wrote is read into the slot ----
static int child(const std::vector<std::string> &args, const std::string &out, const std::string &err)
{
    flush_out();
    pid_t pid = fork();
    if (pid == 0) {
        int e = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(e, 2); close(e);
        int o = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(o, 1); close(o);
        const char *l = getenv("CLANGLIB"); if (l) setenv("LD_LIBRARY_PATH", l, 1); setenv("MALLOC_PERTURB_", "165", 1); // memory is not zero by chance
        std::vector<char *> a; for (auto &x : args) a.push_back((char *)x.c_str()); a.push_back(0);
        alarm(50); execv(a[0], a.data()); _exit(66);
    }
    int st = 0; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 66) _exit(66);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}
// headers the sources of a session share: one of several include directories holds each, later ones something else of that name
struct hdr_t { std::string name; bytes text; int at = 0; };
static std::vector<hdr_t> hdrs; static int hdr_dirs;
static std::map<int, std::pair<std::string, bytes>> sources; // what was reflected into a slot
static std::vector<std::string> header_dirs(const std::string &in)
{
    std::vector<std::string> v;
    for (int i = 0; i < hdr_dirs; i++) {
        std::string p = in + (i == 1 ? "/inc " : "/inc") + std::to_string(i); mkdir(p.c_str(), 0755); v.push_back(p);
        for (auto &h : hdrs) { std::string f = p + "/" + h.name; if (h.name.find('/') != std::string::npos) mkdir(f.substr(0, f.rfind('/')).c_str(), 0755); if (i == h.at) put(f, h.text); else if (i > h.at) put(f, bytes(6, '?')); }
    }
    return v;
}
static void erase_all(const std::string &p) { if (p.compare(0, dir.size() + 1, dir + "/")) _exit(66); nftw(p.c_str(), [](const char *f, const struct stat *, int, struct FTW *) { return remove(f); }, 16, FTW_DEPTH | FTW_PHYS); }
static std::vector<std::string> plugin(const std::string &file, const std::string &out, const std::vector<std::string> &inc = {})
{
    std::vector<std::string> a = { getenv("CLANG"), "-c", "-w", file };
    for (auto &i : inc) a.push_back("-I" + i);
    for (auto x : { (const char *)"-load", (const char *)getenv("CREFLPLUGIN"), "-plugin", "crefl", "-plugin-arg-crefl", "-o", "-plugin-arg-crefl", out.c_str() }) { a.push_back("-Xclang"); a.push_back(x); }
    return a;
}
static void reflect(line_reader &r)
{
    int d = r.num(); std::string name = text(r.hex()); bytes src = r.hex(), prog = r.hex();
    std::string sub = fresh(), file = sub + "/" + name, out = fresh(), log = fresh(), log2 = fresh(); mkdir(sub.c_str(), 0755); put(file, src); sources[d] = { name, src };
    int rc = child(plugin(file, out, header_dirs(sub)), log, log2);
    bool ok, k; bytes err = slurp(log2, k), img = slurp(out, ok);
    if (dbs[d]) crefl_db_destroy(dbs[d]); dbs[d] = crefl_db_new(); ids[d].clear();
    int rrc = ok ? read_exact(dbs[d], img.data(), img.size()) : -1;
    if (rrc) { fprintf(stderr, "%s\n%.*s\n", text(src).c_str(), (int)err.size(), (char *)err.data()); }
    ev e("Reflect"); e.i("d", d).i("rc", rc).i("rrc", rrc).str("file", name).raw("prog", text(prog)).i("root", rrc ? 0 : dbs[d]->root_element).raw("nodes", rrc ? "[]" : jnodes(dbs[d])).done();
    erase_all(sub); unlink(out.c_str()); unlink(log.c_str()); unlink(log2.c_str());
}
// slot, how (script: the commands by hand | cmake: the macro), archive name, slots of reflected sources: reflect, merge, emit, compile, load what is embedded
static void pipeline(line_reader &r)
{
    int d = r.num(); std::string how = r.tok(), name = text(r.hex()); std::vector<int> src; std::string list = "["; while (r.more()) { int k = r.num(); if (src.size()) list += ","; list += ji(k); src.push_back(k); }
    std::string top = fresh(), log = top + "/log", repo = getenv("CREFL_REPO_DIR"), so, file = top + "/b/" + name + ".refl"; mkdir(top.c_str(), 0755); mkdir((top + "/b").c_str(), 0755);
    std::string lib = getenv("CREFLPLUGIN"); std::vector<std::string> inc = header_dirs(top), outs; int rc = 0; bool ok;
    auto go = [&](std::vector<std::string> a) { if (rc == 0) { rc = child(a, log, log + "2"); if (rc) { bytes b = slurp(log, ok), c = slurp(log + "2", ok); fprintf(stderr, "%s ...: %d\n%.*s%.*s\n", a[0].c_str(), rc, (int)b.size(), (char *)b.data(), (int)c.size(), (char *)c.data()); } } };
    if (how == "script") {
        for (size_t i = 0; i < src.size(); i++) {
            std::string sub = top + "/s" + std::to_string(i); mkdir(sub.c_str(), 0755); put(sub + "/" + sources[src[i]].first, sources[src[i]].second); outs.push_back(sub + "/o.refl");
            std::vector<std::string> a = { "/usr/bin/python3", repo + "/scripts/creflcc.py", "-p", lib.substr(0, lib.rfind('/')), "-o", outs.back() }; for (auto &x : inc) { a.push_back("-I"); a.push_back(x); } a.push_back(sub + "/" + sources[src[i]].first); go(a);
        }
        std::vector<std::string> a = { getenv("CREFLTOOL"), "--merge", file }; for (auto &o : outs) a.push_back(o); go(a);
        go({ getenv("CREFLTOOL"), "--emit", top + "/e.c", file }); so = top + "/e.so";
        go({ "/usr/bin/gcc", "-shared", "-fPIC", "-w", "-O0", "-o", so, top + "/e.c" });
    } else {
        std::string l = "cmake_minimum_required(VERSION 3.16)\nset(CMAKE_C_COMPILER_WORKS 1)\nproject(p C)\nset(BUILD_SHARED_LIBS ON)\ninclude(" + repo + "/cmake/crefl_macro.cmake)\nadd_custom_target(crefl)\nadd_custom_target(crefltool)\nadd_library(" + name + " OBJECT";
        for (size_t i = 0; i < src.size(); i++) { auto &x = sources[src[i]]; std::string n = "s" + std::to_string(i) + "/" + x.first; mkdir((top + "/s" + std::to_string(i)).c_str(), 0755); put(top + "/" + n, x.second); l += " " + n; }
        l += ")\n"; if (inc.size()) { l += "target_include_directories(" + name + " PRIVATE"; for (auto &x : inc) l += " \"" + x + "\""; l += ")\n"; }
        l += "crefl_target_reflect(" + name + " " + name + "_refl)\n"; put(top + "/CMakeLists.txt", bytes(l.begin(), l.end()));
        if (symlink((repo + "/scripts").c_str(), (top + "/scripts").c_str()) || symlink(lib.c_str(), (top + "/b/libcrefl.so").c_str()) || symlink(getenv("CREFLTOOL"), (top + "/b/crefltool").c_str())) _exit(66);
        go({ "/usr/bin/cmake", "-S", top, "-B", top + "/b", "-G", "Ninja", "-DCMAKE_C_COMPILER=/usr/bin/gcc" }); go({ "/usr/bin/ninja", "-j1", "-C", top + "/b", name + "_refl" }); so = top + "/b/lib" + name + "_refl.so";
    }
    bytes img = slurp(file, ok), arr; int rrc = -1; if (dbs[d]) crefl_db_destroy(dbs[d]); dbs[d] = crefl_db_new(); ids[d].clear();
    if (rc == 0) {
        void *h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL); const uint8_t *a = h ? (const uint8_t *)dlsym(h, "__crefl_main_data") : 0; const size_t *s = h ? (const size_t *)dlsym(h, "__crefl_main_size") : 0;
        if (a && s) { arr.assign(a, a + *s); rrc = read_exact(dbs[d], arr.data(), arr.size()); } if (h) dlclose(h);
    }
    ev e("Pipeline"); e.i("d", d).str("how", how).i("rc", rc).i("rrc", rrc).raw("whole", ok && img == arr ? "true" : "false").str("name", name + ".refl").raw("srcs", list + "]").i("root", rrc ? 0 : dbs[d]->root_element).raw("nodes", rrc ? "[]" : jnodes(dbs[d])).done();
    erase_all(top);
}
// slot, a program that prints what the compiler says of its types
static void compiler(line_reader &r)
{
    int d = r.num(); bytes src = r.hex(); std::string file = fresh(), exe = fresh(), log = fresh(), out = fresh(); put(file, src);
    int rc = child({ "/usr/bin/gcc", "-x", "c", "-w", "-O0", "-Wl,--unresolved-symbols=ignore-all", "-o", exe, file }, out, log); bool ok;
    if (rc) { bytes b = slurp(log, ok); fprintf(stderr, "%s\n%.*s\n", text(src).c_str(), (int)b.size(), (char *)b.data()); _exit(66); }
    rc = child({ exe }, out, log); if (rc) _exit(66);
    bytes b = slurp(out, ok);
    ev e("Compiler"); e.i("d", d).raw("types", text(b)).done();
    for (auto &p : { file, exe, log, out }) unlink(p.c_str());
}
// source; run by: clang | script; where: ok | nodir | isdir | full | limit
static void plugin_write(line_reader &r)
{
    bytes src = r.hex(); std::string how = r.tok(), w = r.tok(); std::string file = fresh() + ".c", out = fresh(), base = out, log = fresh(); put(file, src); size_t lim = RLIM_INFINITY;
    std::string ref = fresh(); child(plugin(file, ref), log, log); bool k, ok; bytes want = slurp(ref, k); unlink(ref.c_str());
    if (w == "limit") { lim = r.u64(); if (lim >= want.size()) { w = "ok"; lim = RLIM_INFINITY; } }
    if (w == "nodir") out += "/no/such"; else if (w == "isdir") mkdir(out.c_str(), 0755); else if (w == "full") out = "/dev/full"; else if (w == "over") put(out, bytes(100000, 'x'));
    std::string lib = getenv("CREFLPLUGIN");
    struct rlimit rl = { lim, RLIM_INFINITY }; if (lim != RLIM_INFINITY) setrlimit(RLIMIT_FSIZE, &rl);
    int rc = child(how == "clang" ? plugin(file, out) : std::vector<std::string>{ "/usr/bin/python3", std::string(getenv("CREFL_REPO_DIR")) + "/scripts/creflcc.py", "-p", lib.substr(0, lib.rfind('/')), "-o", out, file }, "/dev/null", "/dev/null"); rl.rlim_cur = RLIM_INFINITY; setrlimit(RLIMIT_FSIZE, &rl);
    bytes got = slurp(out, ok);
    ev e("Plugin"); e.raw("writable", w == "ok" || w == "over" ? "true" : "false").i("rc", rc).raw("complete", ok && got == want ? "true" : "false").done();
    if (w == "isdir") rmdir(out.c_str()); else if (w != "full") unlink(base.c_str());
    unlink(file.c_str()); unlink(log.c_str());
}
// the same work again in other places, with other memory and another environment; all that is compared is what comes out
static void repeat(line_reader &r)
{
    std::string what = r.tok(); int d = r.num(), times = r.num(); std::string name = what == "merge" ? text(r.hex()) : ""; std::vector<int> src; while (r.more()) src.push_back(r.num());
    std::string rcs = "[", sums = "["; auto sum = [&](const bytes &b) { char t[40]; uint64_t h = 1469598103934665603ull, g = 88172645463325252ull; for (uint8_t c : b) { h = (h ^ c) * 1099511628211ull; g = (g + c) * 6364136223846793005ull + 1442695040888963407ull; } snprintf(t, sizeof t, "%016llx%016llx", (unsigned long long)h, (unsigned long long)g); return js(t); };
    for (int i = 0; i < times; i++) {
        std::string top = fresh(), in = top; mkdir(top.c_str(), 0755); for (int k = 0; k < i; k++) { in += "/" + std::string(1 + 17 * k % 29, 'd'); mkdir(in.c_str(), 0755); }
        std::string base = in.substr(in.rfind('/') + 1), cwd = i % 4 == 0 ? "/" : i % 4 == 2 ? in.substr(0, in.rfind('/')) : in, at = i % 4 == 0 ? in + "/" : i % 4 == 1 ? "" : i % 4 == 2 ? base + "/" : "./../" + base + "/", out = what == "merge" ? name : "out"; if (i == 2) put(in + "/" + out, bytes(300000, 'x'));
        std::vector<std::string> a;
        if (what == "reflect") { put(in + "/" + sources[d].first, sources[d].second); a = plugin(at + sources[d].first, at + out, header_dirs(in)); }
        else if (what == "merge") { a = { getenv("CREFLTOOL"), "--merge", at + out }; for (size_t k = 0; k < src.size(); k++) { std::string f = std::string(1 + (k * 7 + i * 3) % 11, 'a' + k % 26) + std::to_string(k); put(in + "/" + f, image(dbs[src[k]])); a.push_back(at + f); } }
        else { std::string f = std::string(1 + i * 5 % 13, 'q'); put(in + "/" + f, image(dbs[d])); if (what == "emit") a = { getenv("CREFLTOOL"), "--emit", at + out, at + f }; else { std::string o = "--"; for (char c : what) o += c == '_' ? '-' : c; a = { getenv("CREFLTOOL"), o, at + f }; } }
        bool file = what == "reflect" || what == "merge" || what == "emit"; flush_out();
        pid_t pid = fork();
        if (pid == 0) {
            if (chdir(cwd.c_str())) _exit(66);
            int o = open(file ? "/dev/null" : (in + "/" + out).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(o, 1); o = open("/dev/null", O_WRONLY); dup2(o, 2);
            const char *l = getenv("CLANGLIB"), *loc[] = { "C", "C.UTF-8", "POSIX", "en_US.UTF-8", "" }; if (l) setenv("LD_LIBRARY_PATH", l, 1);
            setenv("MALLOC_PERTURB_", std::to_string(i * 61 % 256).c_str(), 1); setenv("LC_ALL", loc[i % 5], 1); setenv("TZ", i % 2 ? "Asia/Tokyo" : "UTC", 1); setenv("HOME", in.c_str(), 1); setenv("PADDING", std::string(i * 1237 % 9000, 'p').c_str(), 1);
            std::vector<char *> v; for (auto &x : a) v.push_back((char *)x.c_str()); v.push_back(0); alarm(50); execv(v[0], v.data()); _exit(66);
        }
        int st = 0; waitpid(pid, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 66) _exit(66);
        bool ok; bytes got = slurp(in + "/" + out, ok); if (i) { rcs += ","; sums += ","; }
        rcs += ji(WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st)); sums += ok ? sum(got) : js("none"); erase_all(top);
    }
    if (what == "reflect" || what == "merge") sums += "," + sum(image(dbs[d]));
    ev e("Repeat"); e.str("what", what).i("d", d).raw("rcs", rcs + "]").raw("sums", sums + "]").done();
}
int main(int argc, char **argv)
{
    line_reader r(argv[1]); drv_init(argv[2]);
    if (argc > 3) dir = argv[3];
    signal(SIGXFSZ, SIG_IGN);
    while (r.next()) {
        arm(60);
        const std::string c = r.tok();
        if (c == "session") { hdrs.clear(); hdr_dirs = 0; sources.clear(); for (int i = 0; i < 8; i++) { if (dbs[i]) crefl_db_destroy(dbs[i]); dbs[i] = 0; ids[i].clear(); } ev("Session").done(); }
        else if (c == "end") emit("{\"op\":\"End\"}");
        else if (c == "new") { int d = r.num(); if (dbs[d]) crefl_db_destroy(dbs[d]); dbs[d] = crefl_db_new(); ids[d].clear(); ev e("New"); e.i("d", d).done(); }
        else if (c == "defaults") { int d = r.num(); crefl_db_defaults(dbs[d]); ev e("Defaults"); e.i("d", d).done(); }
        else if (c == "decl") { int d = r.num(), t = r.num(); decl_ref x = crefl_decl_new(dbs[d], t); ev e("Decl"); e.i("d", d).i("tag", t).i("id", crefl_decl_idx(x)).raw("node", jnode(dbs[d], crefl_decl_idx(x))).done(); }
        else if (c == "name") { int d = r.num(); std::string s = text(r.hex()); char *p = strdup(s.c_str()); decl_id id = crefl_name_new(dbs[d], p); free(p);
            ids[d].push_back(id); ev e("Name"); e.i("d", d).str("text", s).i("id", id).str("back", dbs[d]->name + id).done(); }
        else if (c == "names") { int d = r.num(); std::string a = "["; for (size_t i = 0; i < ids[d].size(); i++) { if (i) a += ","; a += "[" + ji(ids[d][i]) + "," + js(dbs[d]->name + ids[d][i]) + "]"; } ev e("NameText"); e.i("d", d).raw("all", a + "]").done(); }
        else if (c == "set") { int d = r.num(); size_t id = r.u64(); std::string f = r.tok(); decl_node *n = crefl_decl_ptr(crefl_lookup(dbs[d], id)); ev e("Set"); e.i("d", d).i("id", id).str("f", f);
            if (f == "name") { size_t k = r.u64(); decl_id x = k < ids[d].size() ? ids[d][k] : 0; n->_name = x; e.str("t", dbs[d]->name + x).done(); }
            else if (f == "qty") { n->_quantity = r.u64(); e.u("q", n->_quantity).done(); }
            else { decl_id v = r.u64(); if (f == "props") n->_props = v; else if (f == "next") n->_next = v; else if (f == "link") n->_link = v; else n->_attr = v; e.i("v", v).done(); } }
        else if (c == "root") { int d = r.num(); dbs[d]->root_element = r.u64(); ev e("Root"); e.i("d", d).i("id", dbs[d]->root_element).done(); }
        else if (c == "rootq") { int d = r.num(); ev e("RootQ"); e.i("d", d).i("id", crefl_decl_idx(crefl_root(dbs[d]))).done(); }
        else if (c == "build") { // slot, root, count, then seven tokens a declaration
            int d = r.num(); size_t root = r.u64(), n = r.u64(); if (dbs[d]) crefl_db_destroy(dbs[d]);
            decl_db *db = dbs[d] = crefl_db_new(); crefl_db_defaults(db); size_t first = db->decl_offset;
            std::string s = "["; char t[64];
            for (size_t i = 0; i < n; i++) {
                decl_ref x = crefl_decl_new(db, r.u64()); unsigned props = r.u64(); std::string nm = text(r.hex()); decl_id nid = crefl_name_new(db, nm.c_str());
                decl_node *q = crefl_decl_ptr(x); q->_props = props; q->_name = nid; q->_next = r.u64(); q->_link = r.u64(); q->_attr = r.u64(); q->_quantity = r.u64();
                snprintf(t, sizeof t, "%s[%d,%d,", i ? "," : "", (int)q->_tag, (int)props); s += t; s += js(nm) + "," + ji(q->_next) + "," + ji(q->_link) + "," + ji(q->_attr) + "," + ju(q->_quantity) + "]";
            }
            db->root_element = root;
            ev e("Build"); e.i("d", d).i("first", first).i("root", root).raw("nodes", s + "]").done(); }
        else if (c == "bulk") { // slot, declarations, length of their names: what declaration i holds is a function of i
            int d = r.num(); size_t n = r.u64(), len = r.u64(); if (dbs[d]) crefl_db_destroy(dbs[d]);
            decl_db *db = dbs[d] = crefl_db_new(); crefl_db_defaults(db); size_t first = db->decl_offset, total = first + n; bool ids_ok = true;
            for (size_t i = first; i < total; i++) {
                decl_ref x = crefl_decl_new(db, 1 + i % 18); if (crefl_decl_idx(x) != i) ids_ok = false;
                std::string nm = len ? "n" + std::to_string(i) : ""; while (len && nm.size() < len) nm += "_";
                decl_id nid = crefl_name_new(db, nm.c_str()); decl_node *q = crefl_decl_ptr(x);
                q->_props = i % 1024; q->_name = nid; q->_next = (i + 1) % total; q->_link = total - 1 - i; q->_attr = i - 1; q->_quantity = i;
            }
            db->root_element = first;
            auto sample = [&](decl_db *y) { std::string s = "["; bool f = true; if (y->decl_offset != total) return std::string("[]"); for (size_t i = 0; i < total; i++) if (i % 997 == 5 || i + 3 > total || (i & 0x3fff) < 2 || (i & 0x3fff) == 0x3fff) { if (!f) s += ","; f = false; s += "[" + ji(i) + "," + jnode(y, i) + "]"; } return s + "]"; };
            std::string built = sample(db); int wrc; bytes b = image(db, &wrc); decl_db *y = crefl_db_new(); int rrc = read_exact(y, b.data(), b.size());
            bool again = rrc == 0 && image(y) == b;
            { std::string p = fresh(); decl_db *z = crefl_db_new(); if (crefl_db_write_file(db, p.c_str()) != 0 || crefl_db_read_file(z, p.c_str()) != 0 || image(z) != b) again = false; crefl_db_destroy(z); unlink(p.c_str()); } size_t count = y->decl_offset, k = crefl_decl_idx(crefl_decl_new(y, 7)); std::string blank = jnode(y, k), read = "[]", root = ji(y->root_element);
            if (rrc == 0 && y->decl_offset == total + 1) { y->decl_offset = total; read = sample(y); }
            crefl_db_destroy(y);
            ev e("Bulk"); e.i("d", d).i("total", total).i("len", len).raw("consecutive", ids_ok ? "true" : "false").raw("built", built).i("wrc", wrc).i("rrc", rrc).raw("again", again ? "true" : "false")
                .i("count", count).raw("root", root).raw("read", read).i("next", k).raw("blank", blank).done(); crefl_db_destroy(dbs[d]); dbs[d] = 0; }
        else if (c == "check") { int d = r.num(); ev e("State"); e.i("d", d).i("root", dbs[d]->root_element).raw("nodes", jnodes(dbs[d])).done(); }
        else if (c == "intrinsic") { int d = r.num(); unsigned p = r.u64(); size_t w = r.u64(); decl_ref x = crefl_intrinsic(dbs[d], p, w); ev e("Intrinsic"); e.i("d", d).i("props", p).u("width", w).i("id", x.db == dbs[d] ? (long long)x.decl_idx : -1).done(); }
        else if (c == "tagname") { unsigned t = r.u64(); ev e("TagName"); e.i("tag", t > 0x7fffffff ? 0x7fffffff : t).str("result", crefl_tag_name(t)).done(); }
        else if (c == "query") { std::string fn = r.tok(); int d = r.num(); size_t id = r.u64(), lim = r.u64(); query(fn, d, id, lim, r.num()); }
        else if (c == "kind") { int d = r.num(); kind(d, r.u64()); }
        else if (c == "width") { int d = r.num(); width(d, r.u64()); }
        else if (c == "offsets") { int d = r.num(); size_t id = r.u64(), lim = r.u64(); offsets(d, id, lim, r.num()); }
        else if (c == "layouts") { int d = r.num(); // all types
            for (size_t i = 23; i < dbs[d]->decl_offset; i++) { decl_ref x = crefl_lookup(dbs[d], i); if (crefl_is_type(x) || crefl_is_alias(x)) width(d, i); if (crefl_is_struct(x)) offsets(d, i, 50, 0); } }
        else if (c == "transfer") { int s = r.num(), d = r.num(); if (dbs[d]) crefl_db_destroy(dbs[d]); dbs[d] = crefl_db_new();
            int wrc; bytes b = image(dbs[s], &wrc); int rrc = read_exact(dbs[d], b.data(), b.size()); bytes a = image(dbs[d]);
            size_t n = crefl_db_size(dbs[s]); uint8_t *p = (uint8_t *)malloc(n); memset(p, 0xa5, n); int src = crefl_db_write_mem(dbs[s], p, n - 1); bool same = true; for (size_t i = 0; i < n; i++) if (p[i] != 0xa5) same = false; free(p);
            p = (uint8_t *)malloc(n + 9); memset(p, 0xa5, n + 9); crefl_db_write_mem(dbs[s], p, n + 9); bool tail = !memcmp(p, b.data(), n); for (size_t i = n; i < n + 9; i++) if (p[i] != 0xa5) tail = false; free(p);
            ev e("Transfer"); e.i("s", s).i("d", d).i("size", n).i("wrc", wrc).i("rrc", rrc).b("data", b).b("again", a).i("shortrc", src).raw("shortsame", same ? "true" : "false").raw("tailsame", tail ? "true" : "false").done(); }
        else if (c == "prefixes") { int s = r.num(); bytes b = image(dbs[s]); std::string a = "[";
            for (size_t i = 0; i < b.size(); i++) { decl_db *x = crefl_db_new(); if (i) a += ","; a += ji(read_exact(x, b.data(), i)); crefl_db_destroy(x); }
            ev e("Prefixes"); e.i("s", s).i("size", b.size()).raw("rcs", a + "]").done(); }
        else if (c == "readimg") { bytes b = r.hex(); decl_db *x = crefl_db_new(); int rc = read_exact(x, b.data(), b.size()); std::string a = "[";
            if (rc == 0) for (size_t i = 0; i < x->decl_offset; i++) { decl_node *n = x->decl + i; auto lim = [](decl_id v) { return ji(v > 0x7fffffff ? 0x7fffffff : v); };
                long long len = -1; for (size_t k = n->_name; k < (x->name_offset > 1 ? x->name_offset : 1); k++) if (!x->name[k]) { len = k - n->_name; break; }
                if (i) a += ","; a += "[" + lim(n->_next) + "," + lim(n->_link) + "," + lim(n->_attr) + "," + ji(len) + "]"; }
            ev e("ReadImage"); e.b("data", b).i("rc", rc).i("count", x->decl_offset).i("root", x->root_element > 0x7fffffff ? 0x7fffffff : x->root_element).raw("refs", a + "]").done(); crefl_db_destroy(x); }
        else if (c == "dump") { int d = r.num(); std::string f = r.tok(); if (f == "each") for (auto k : {"dump", "dump_fqn", "dump_sum", "dump_all", "dump_ext", "dump_ext_fqn", "dump_ext_sum", "dump_ext_all"}) dump(d, k); else dump(d, f); }
        else if (c == "stats") { int d = r.num(); stats(d, r.num()); }
        else if (c == "emit") { int d = r.num(); emit_source(d, r.num()); }
        else if (c == "run") run(r);
        else if (c == "reflect") reflect(r);
        else if (c == "header") { hdr_t h; h.name = text(r.hex()); h.text = r.hex(); h.at = r.num(); hdr_dirs = r.num(); hdrs.push_back(h); }
        else if (c == "pipeline") pipeline(r);
        else if (c == "repeat") repeat(r);
        else if (c == "compiler") compiler(r);
        else if (c == "plugin") plugin_write(r);
        else if (c == "index") { int d = r.num(); ev e("Index"); e.i("d", d).raw("hash", jhashes(dbs[d])).done(); }
        else if (c == "merge") { int d = r.num(); std::string nm = text(r.hex()); std::vector<decl_db *> v; std::string a = "["; while (r.more()) { int s = r.num(); if (v.size()) a += ","; a += ji(s); v.push_back(dbs[s]); }
            if (dbs[d]) crefl_db_destroy(dbs[d]); dbs[d] = crefl_db_new(); int rc = crefl_link_merge(dbs[d], nm.c_str(), v.data(), v.size());
            size_t o = nm.find_last_of('/'); std::string base = o == std::string::npos ? nm : nm.substr(o + 1);
            ev e("Merge"); e.i("d", d).i("rc", rc).str("name", base).raw("srcs", a + "]").i("root", dbs[d]->root_element).raw("nodes", jnodes(dbs[d])).done(); }
        else if (c == "image") { int d = r.num(), k = r.num(); ev e("Image"); e.i("d", d).i("k", k).b("data", image(dbs[d])).done(); }
        else if (c == "writefile") { // slot, fault: none | full | limit N | nodir | isdir | readonly
            int d = r.num(); std::string f = r.tok(); std::string p = dir + "/f" + std::to_string(fileno_++) + "-" + std::to_string(getpid()); size_t lim = 0;
            bool existing = false; if (f == "over") { FILE *o = fopen(p.c_str(), "wb"); for (int i = 0; i < 100000; i++) fputc('x', o); fclose(o); existing = true; f = "none"; }
            if (f == "limit") { lim = r.u64(); f = lim >= crefl_db_size(dbs[d]) ? "none" : "limit"; struct rlimit rl = { lim, RLIM_INFINITY }; setrlimit(RLIMIT_FSIZE, &rl); }
            if (f == "full") p = "/dev/full"; else if (f == "nodir") p += "/no/such"; else if (f == "isdir") { mkdir(p.c_str(), 0755); } else if (f == "empty") p = "";
            int rc = crefl_db_write_file(dbs[d], p.c_str());
            struct rlimit rl = { RLIM_INFINITY, RLIM_INFINITY }; setrlimit(RLIMIT_FSIZE, &rl);
            bool ok; bytes got = slurp(p, ok); bool complete = ok && got == image(dbs[d]);
            ev e("WriteFile"); e.i("d", d).str("fault", f).i("limit", lim).i("rc", rc).i("file", got.size()).raw("complete", complete ? "true" : "false").done();
            if (f == "isdir") rmdir(p.c_str()); else if (f != "full" && f != "empty") unlink(p.c_str()); (void)existing; }
        else if (c == "readfile") { // destination, source, fault: none | missing | dir | cut N | foreign | denied | empty
            int d = r.num(), s = r.num(); std::string f = r.tok(); std::string p = dir + "/f" + std::to_string(fileno_++) + "-" + std::to_string(getpid());
            bytes b = image(dbs[s]); size_t n = b.size();
            if (f == "cut") { size_t k = r.u64(); n = k < n ? k : n - 1; }
            if (f == "foreign") { b[r.u64() % 8] ^= 0x20; }
            if (f == "denied" && geteuid() == 0 && !can_drop()) f = "missing";
            FILE *o = fopen(p.c_str(), "wb"); fwrite(b.data(), 1, f == "empty" ? 0 : n, o); fclose(o);
            std::string q = p; if (f == "missing") q += ".none"; else if (f == "dir") q = dir; else if (f == "under") q += "/x";
            uid_t old = geteuid();
            if (f == "denied") { chmod(p.c_str(), 0); if (old == 0 && seteuid(65534) != 0) _exit(66); }
            decl_db *x = crefl_db_new(); int rc = crefl_db_read_file(x, q.c_str());
            if (f == "denied" && old == 0 && seteuid(old) != 0) _exit(66);
            unlink(p.c_str());
            if (f == "none") { if (dbs[d]) crefl_db_destroy(dbs[d]); dbs[d] = x; } else crefl_db_destroy(x);
            ev e("ReadFile"); e.i("d", d).i("s", s).str("fault", f).i("rc", rc).done(); }
        else { fprintf(stderr, "unknown command %s\n", c.c_str()); return 66; }
    }
    flush_out();
    return 0;
}
