// The portable definitions, used where the compiler or system offers none.
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <endian.h>
#undef htobe16
#undef htole16
#undef be16toh
#undef le16toh
#undef htobe32
#undef htole32
#undef be32toh
#undef le32toh
#undef htobe64
#undef htole64
#undef be64toh
#undef le64toh
#undef __GNUC__
#undef __linux__
#undef __GLIBC__
#define bswap16 fallback_bswap16
#define bswap32 fallback_bswap32
#define bswap64 fallback_bswap64
#include <crefl/bits.h>
#include <crefl/endian.h>
#define P fallback
#define HTOBE(T, x) htobe(x)
#define HTOLE(T, x) htole(x)
#define BETOH(T, x) betoh(x)
#define LETOH(T, x) letoh(x)
#include "prims.h"
