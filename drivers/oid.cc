// Driver for object identifier descriptions.
#include "drv.h"
#include <crefl/oid.h>
int main(int argc, char **argv)
{
    line_reader r(argv[1]); drv_init(argv[2]);
    while (r.next()) {
        arm();
        const std::string c = r.tok();
        if (c == "session") ev("Session").done();
        else if (c == "end") emit("{\"op\":\"End\"}");
        else if (c == "desc") { // octets asked for, octets that follow them in memory
            bytes o = r.hex(), t = r.hex();
            char *p = (char *)malloc(o.size() + t.size() ? o.size() + t.size() : 1);
            if (o.size()) memcpy(p, o.data(), o.size());
            if (t.size()) memcpy(p + o.size(), t.data(), t.size());
            const char *d = crefl_asn1_oid_desc(p, o.size());
            std::string s = d ? d : "<null>";
            free(p);
            ev e("Desc"); e.b("oid", o).str("result", s).done(); }
        else return 66;
    }
    flush_out();
    return 0;
}
