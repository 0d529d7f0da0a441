// Driver for SHA-224/256: up to four contexts fed in any interleaving.
#include "drv.h"
#include <crefl/sha256.h>
int main(int argc, char **argv)
{
    line_reader r(argv[1]); drv_init(argv[2]);
    sha256_ctx ctx[4];
    while (r.next()) {
        arm(60);
        const std::string c = r.tok();
        if (c == "session") { memset(ctx, 0x5a, sizeof ctx); ev("Session").done(); }
        else if (c == "end") emit("{\"op\":\"End\"}");
        else if (c == "start") { int i = r.num(), k = r.num(); if (k == 224) sha224_init(&ctx[i]); else sha256_init(&ctx[i]); ev e("Start"); e.i("c", i).i("kind", k).done(); }
        else if (c == "update") { int i = r.num(); bytes b = r.hex(); char *p = (char *)malloc(b.size() ? b.size() : 1); memcpy(p, b.data(), b.size());
            sha256_update(&ctx[i], p, b.size()); free(p); ev e("Update"); e.i("c", i).b("data", b).done(); }
        else if (c == "finish") { int i = r.num(); uint8_t *o = (uint8_t *)malloc(40); memset(o, 165, 40); sha256_final(&ctx[i], o);
            ev e("Finish"); e.i("c", i).raw("result", jbytes(o, 40)).done(); free(o); }
        else if (c == "long") { // kind, chunk size, chunks, fill octet, expected digest
            int k = r.num(); size_t n = r.u64(), m = r.u64(); int fill = r.num(); bytes ex = r.hex();
            sha256_ctx x; if (k == 224) sha224_init(&x); else sha256_init(&x);
            char *p = (char *)malloc(n); memset(p, fill, n); for (size_t i = 0; i < m; i++) sha256_update(&x, p, n);
            uint8_t o[40]; memset(o, 165, 40); sha256_final(&x, o); free(p);
            ev e("Long"); e.i("kind", k).u("size", n).u("chunks", m).i("fill", fill).b("expect", ex).raw("result", jbytes(o, 40)).done(); }
        else return 66;
    }
    flush_out();
    return 0;
}
