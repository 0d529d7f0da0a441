// Driver for the hash map: handles a..d of a map type whose hash function is chosen at run time.
#include "drv.h"
#include <crefl/hashmap.h>
#include <map>

static int g_hash;
static bool g_fold; // keys that agree in their last eight bits are the same key
static uint64_t key(uint64_t k) { return g_fold ? k & 255 : k; }
template <typename K> struct hash_fn { size_t operator()(const K &k) const {
    uint64_t x = key((uint64_t)k);
    switch (g_hash) {
    case 0: return 0; case 1: return x; case 2: return x & 1; case 3: return ~0ull; case 4: return x << 61; case 5: return x * 0x9E3779B97F4A7C15ull;
    case 6: return x >> 1; case 7: return ~x; default: return x % 3 + 14; } } };

template <typename K> struct same { bool operator()(const K &a, const K &b) const { return key((uint64_t)a) == key((uint64_t)b); } };
struct imap
{
    virtual ~imap() {}
    virtual std::string insert(uint64_t k, uint64_t v, int how) = 0;
    virtual uint64_t sub(uint64_t k) = 0;
    virtual void set(uint64_t k, uint64_t v) = 0;
    virtual void erase(uint64_t k) = 0;
    virtual void clear() = 0;
    virtual imap *copy() = 0;
    virtual imap *move() = 0;
    virtual void assign(imap *o) = 0;
    virtual void massign(imap *o) = 0;
    virtual bool eq(imap *o) = 0;
    virtual bool ne(imap *o) = 0;
    virtual std::string state(const std::vector<uint64_t> &probes) = 0;
    bool moved = false;
};
template <typename K, typename V, typename P = std::equal_to<K>> struct tmap : imap
{
    typedef hashmap<K, V, hash_fn<K>, P> M;
    M m;
    tmap(size_t n) : m(n) {}
    tmap() : m() {}
    tmap(const M &o) : m(o) {}
    tmap(M &&o) : m(std::move(o)) {}
    static std::string pr(const K &k, const V &v) { return "[" + ji((long long)key((uint64_t)k)) + "," + ji((long long)v) + "]"; }
    std::string insert(uint64_t k, uint64_t v, int how)
    {
        typename M::value_type p((K)k, (V)v);
        typename M::iterator i = how == 0 ? m.insert((K)k, (V)v) : how == 1 ? m.insert(p) : m.insert(m.begin(), p);
        return pr(i->first, (*i).second);
    }
    uint64_t sub(uint64_t k) { return (uint64_t)m[(K)k]; }
    void set(uint64_t k, uint64_t v) { m[(K)k] = (V)v; }
    void erase(uint64_t k) { m.erase((K)k); }
    void clear() { m.clear(); }
    imap *copy() { return new tmap(m); }
    imap *move() { moved = true; return new tmap(std::move(m)); }
    void assign(imap *o) { m = ((tmap *)o)->m; moved = false; }
    void massign(imap *o) { m = std::move(((tmap *)o)->m); if (o != this) o->moved = true; moved = false; }
    bool eq(imap *o) { return m == ((tmap *)o)->m; }
    bool ne(imap *o) { return m != ((tmap *)o)->m; }
    std::string state(const std::vector<uint64_t> &probes)
    {
        std::string s = "{\"live\":1,\"size\":" + ji(m.size()) + ",\"items\":[";
        size_t n = 0, c = 0;
        for (auto &x : m) { if (n++ > 50000) break; s += (n > 1 ? "," : "") + pr(x.first, x.second); }
        for (auto i = m.begin(); i != m.end() && c < 60000; i++) c++;
        s += "],\"count\":" + ji(c) + ",\"found\":[";
        n = 0;
        for (uint64_t k : probes) { auto i = m.find((K)k); if (n++) s += ",";
            if (i == m.end()) s += "[" + ji(k) + ",-1]"; else s += key((uint64_t)i->first) == key((uint64_t)(K)k) ? pr(i->first, i->second) : std::string("[-9,-9]"); }
        return s + "]}";
    }
};
static imap *make(int type, long size)
{
    if (type == 0) return size < 0 ? new tmap<uint64_t, uint64_t>() : new tmap<uint64_t, uint64_t>(size);
    if (type == 1) return size < 0 ? new tmap<uint16_t, uint8_t>() : new tmap<uint16_t, uint8_t>(size);
    if (type == 3) return size < 0 ? (imap *)new tmap<uint64_t, uint64_t, same<uint64_t>>() : new tmap<uint64_t, uint64_t, same<uint64_t>>(size);
    return size < 0 ? (imap *)new tmap<uint32_t, int>() : new tmap<uint32_t, int>(size);
}
int main(int argc, char **argv)
{
    line_reader r(argv[1]); drv_init(argv[2]);
    std::map<std::string, imap *> h; int type = 0; std::vector<uint64_t> probes;
    auto drop = [&](const std::string &n) { if (h.count(n)) { delete h[n]; h.erase(n); } };
    auto get = [&](const std::string &n) { if (!h.count(n)) { fprintf(stderr, "no map %s\n", n.c_str()); _exit(66); } return h[n]; };
    auto fin = [&](ev &e) {
        std::string s = "{";
        for (const char *n : {"a", "b", "c"}) { if (s.size() > 1) s += ","; s += "\""; s += n; s += "\":";
            s += !h.count(n) ? "{\"live\":0}" : h[n]->moved ? "{\"live\":2}" : h[n]->state(probes); }
        e.raw("maps", s + "}").done();
    };
    while (r.next()) {
        arm();
        const std::string c = r.tok();
        if (c == "end") { emit("{\"op\":\"End\"}"); continue; }
        ev e(c == "session" ? "Session" : c);
        if (c == "session") { drop("a"); drop("b"); drop("c"); probes.clear(); e.done(); continue; }
        if (c == "config") { type = r.num(); g_fold = type == 3; g_hash = r.num(); while (r.more()) probes.push_back(r.u64()); continue; }
        std::string a = r.tok(); e.str("h", a);
        if (c == "new") { long n = r.num(); drop(a); h[a] = make(type, n); }
        else if (c == "drop") drop(a);
        else if (c == "insert") { uint64_t k = r.u64(), v = r.u64(); int how = r.num(); e.i("k", key(k)).i("v", v); e.raw("ret", get(a)->insert(k, v, how)); }
        else if (c == "sub") { uint64_t k = r.u64(); e.i("k", key(k)); e.i("ret", get(a)->sub(k)); }
        else if (c == "set") { uint64_t k = r.u64(), v = r.u64(); e.i("k", key(k)).i("v", v); get(a)->set(k, v); }
        else if (c == "erase") { uint64_t k = r.u64(); e.i("k", key(k)); get(a)->erase(k); }
        else if (c == "fill" || c == "empty") { // count, first, stride: keys first, first + stride, ... with values 0, 1, ...
            uint64_t n = r.u64(), f = r.u64(), st = r.u64(); e.i("n", n).i("first", f).i("stride", st); imap *m = get(a);
            for (uint64_t i = 0; i < n; i++) if (c == "empty") m->erase(f + i * st); else if (i % 3 == 2) m->set(f + i * st, i); else m->insert(f + i * st, i, i % 3); }
        else if (c == "clear") get(a)->clear();
        else if (c == "copy" || c == "move") { std::string b = r.tok(); e.str("to", b); imap *x = c == "copy" ? get(a)->copy() : get(a)->move(); drop(b); h[b] = x; }
        else if (c == "assign") { std::string b = r.tok(); e.str("to", b); get(b)->assign(get(a)); }
        else if (c == "massign") { std::string b = r.tok(); e.str("to", b); get(b)->massign(get(a)); }
        else if (c == "eq") { std::string b = r.tok(); e.str("to", b); e.i("ret", get(a)->eq(get(b))).i("ne", get(a)->ne(get(b))); }
        else return 66;
        fin(e);
    }
    flush_out();
    return 0;
}
