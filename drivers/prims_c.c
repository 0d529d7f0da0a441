#include <stdint.h>
#include <string.h>
#include <crefl/bits.h>
#include <crefl/endian.h>
// the generic byte order macros do not expand where the system defines these as macros
#define P c
#define HTOBE(T, x) (T)(sizeof(T) == 2 ? htobe16(x) : sizeof(T) == 4 ? htobe32(x) : htobe64(x))
#define HTOLE(T, x) (T)(sizeof(T) == 2 ? htole16(x) : sizeof(T) == 4 ? htole32(x) : htole64(x))
#define BETOH(T, x) (T)(sizeof(T) == 2 ? be16toh(x) : sizeof(T) == 4 ? be32toh(x) : be64toh(x))
#define LETOH(T, x) (T)(sizeof(T) == 2 ? le16toh(x) : sizeof(T) == 4 ? le32toh(x) : le64toh(x))
#include "prims.h"
