// Driver for the bit counting and byte order primitives, called in three ways.
#include "drv.h"
#include <crefl/bits.h>
#include <crefl/endian.h>
#define P cpp
#define HTOBE(T, x) htobe<T>(x)
#define HTOLE(T, x) htole<T>(x)
#define BETOH(T, x) betoh<T>(x)
#define LETOH(T, x) letoh<T>(x)
#include "prims.h"
extern "C" {
void c_bits(int, int, uint64_t, unsigned *); void c_order(int, int, uint64_t, unsigned char (*)[8], uint64_t *); void c_named(int, uint64_t, unsigned char (*)[8], uint64_t *);
void fallback_bits(int, int, uint64_t, unsigned *); void fallback_order(int, int, uint64_t, unsigned char (*)[8], uint64_t *); void fallback_named(int, uint64_t, unsigned char (*)[8], uint64_t *);
}
static struct { const char *name; void (*bits)(int, int, uint64_t, unsigned *); void (*order)(int, int, uint64_t, unsigned char (*)[8], uint64_t *); void (*named)(int, uint64_t, unsigned char (*)[8], uint64_t *); }
    ways[] = { { "cpp", cpp_bits, cpp_order, cpp_named }, { "c", c_bits, c_order, c_named }, { "fallback", fallback_bits, fallback_order, fallback_named } };
int main(int argc, char **argv)
{
    line_reader r(argv[1]); drv_init(argv[2]);
    while (r.next()) {
        arm(20);
        const std::string c = r.tok();
        if (c == "session") ev("Session").done();
        else if (c == "end") emit("{\"op\":\"End\"}");
        else if (c == "bits") { int w = r.num(), s = r.num(); uint64_t v = r.u64();
            for (auto &x : ways) { unsigned o[3]; x.bits(w, s, v, o); ev e("Bits"); e.str("way", x.name).i("w", w).i("signed", s).u("v", w == 32 ? (uint32_t)v : v).i("clz", o[0]).i("ctz", o[1]).i("popcnt", o[2]).done(); } }
        else if (c == "order") { int w = r.num(), s = r.num(), n = (w == 65 ? 64 : w) / 8; uint64_t v = r.u64();  // 65: long;  signed 2: by name
            for (auto &x : ways) { unsigned char m[2][8]; uint64_t b[3]; if (s == 2) x.named(w, v, m, b); else x.order(w, s, v, m, b);
                ev e("Order"); e.str("way", x.name).i("w", 8 * n).i("signed", s).u("v", n == 8 ? v : v & ((1ull << (8 * n)) - 1)).raw("be", jbytes(m[0], n)).raw("le", jbytes(m[1], n)).u("beback", b[0]).u("leback", b[1]).u("swap", b[2]).done(); } }
        else return 66;
    }
    flush_out();
    return 0;
}
