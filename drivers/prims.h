// One way of calling the bit and byte order primitives; included with P naming the way.
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define BITS(T, x) do { T y = (T)(x); o[0] = clz(y); o[1] = ctz(y); o[2] = popcnt(y); } while (0)
void CAT(P, _bits)(int w, int sign, uint64_t v, unsigned *o)
{
    if (w == 32) { if (sign) BITS(int, v); else BITS(unsigned int, v); }
    else { if (sign) BITS(long long, v); else BITS(unsigned long long, v); }
}
// m: value as stored after conversion to big and to little endian; b: converted back from what was stored; s: swapped
#define ORDER(T, U, x, sw) do { T y = (T)(x), e = HTOBE(T, y), l = HTOLE(T, y), t; memcpy(m[0], &e, sizeof e); memcpy(m[1], &l, sizeof l); \
    memcpy(&t, m[0], sizeof t); b[0] = (U)BETOH(T, t); memcpy(&t, m[1], sizeof t); b[1] = (U)LETOH(T, t); b[2] = (U)sw((U)y); } while (0)
void CAT(P, _order)(int w, int sign, uint64_t v, unsigned char m[2][8], uint64_t *b)
{
    if (w == 16) { if (sign) ORDER(short, uint16_t, v, bswap16); else ORDER(unsigned short, uint16_t, v, bswap16); }
    else if (w == 32) { if (sign) ORDER(int, uint32_t, v, bswap32); else ORDER(unsigned int, uint32_t, v, bswap32); }
    else if (w == 64) { if (sign) ORDER(long long, uint64_t, v, bswap64); else ORDER(unsigned long long, uint64_t, v, bswap64); }
    else { if (sign) ORDER(long, uint64_t, v, bswap64); else ORDER(unsigned long, uint64_t, v, bswap64); }
}
void CAT(P, _named)(int w, uint64_t v, unsigned char m[2][8], uint64_t *b)
{
#define NAMED(n) do { uint##n##_t e = be##n((uint##n##_t)v), l = le##n((uint##n##_t)v); memcpy(m[0], &e, sizeof e); memcpy(m[1], &l, sizeof l); b[0] = be##n(e); b[1] = le##n(l); b[2] = bswap##n((uint##n##_t)v); } while (0)
    if (w == 16) NAMED(16); else if (w == 32) NAMED(32); else NAMED(64);
}
