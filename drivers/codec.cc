// Driver for the byte buffer and the codecs: executes a script of calls on the real library and logs
// arguments, results, cursor and buffer contents.
#include "drv.h"
#include <crefl/types.h>
#include <crefl/asn1.h>

static crefl_buf *B;
static ev &fin(ev &e)
{
    e.u("off", crefl_buf_offset(B));
    return e.raw("buf", jbytes((uint8_t *)crefl_buf_data(B), B->data_size));
}
static bool fits(size_t n) { size_t o = crefl_buf_offset(B); return o <= B->data_size && n <= B->data_size - o; }
// what a call prints
template <typename F> static bytes captured(F f)
{
    fflush(stdout); int keep = dup(1); FILE *t = tmpfile(); if (!t) _exit(66); dup2(fileno(t), 1);
    f(); fflush(stdout); dup2(keep, 1); close(keep);
    bytes b; rewind(t); for (int ch; (ch = fgetc(t)) != EOF;) b.push_back((uint8_t)ch); fclose(t);
    return b;
}
static void newbuf(size_t cap) { if (B) crefl_buf_destroy(B); B = crefl_buf_new(cap); }
static asn1_oid rd_oid(line_reader &r)
{
    asn1_oid o; memset(&o, 0x5a, sizeof o); o.count = r.num();
    for (size_t i = 0; i < o.count; i++) o.oid[i] = r.u64();
    return o;
}
static std::string joid(const asn1_oid &o)
{
    std::string s = "["; size_t n = o.count > 15 ? 15 : o.count;
    for (size_t i = 0; i < n; i++) { if (i) s += ","; s += ju(o.oid[i]); }
    if (o.count > 15) s += (n ? ",[255,255]" : "[255,255]");
    return s + "]";
}
template <typename T, typename U> static T bitcast(U u) { T t; static_assert(sizeof t == sizeof u, ""); memcpy(&t, &u, sizeof t); return t; }

// encode: k api tag value...   api: ptr val der derval
static void do_enc(line_reader &r)
{
    std::string k = r.tok(), api = r.tok(); long tagn = r.num();
    bool val = api == "val" || api == "derval", der = api == "der" || api == "derval";
    asn1_tag tag = (asn1_tag)tagn;
    int ret = -2; bool hasp = false; size_t pl = 0; std::string jv;
    if (k == "oid") {
        asn1_oid o = rd_oid(r); jv = joid(o); pl = crefl_asn1_ber_oid_length(&o); hasp = true;
        ret = der ? crefl_asn1_der_oid_write(B, tag, &o) : crefl_asn1_ber_oid_write(B, pl, &o);
    } else if (k == "octets") {
        bytes b = r.hex(); char *p = (char *)malloc(b.size() ? b.size() : 1); memcpy(p, b.data(), b.size());
        asn1_string s; memset(&s, 0, sizeof s); s.str = (u8 *)p; s.count = b.size(); jv = jb(b);
        pl = crefl_asn1_ber_octets_length(&s); hasp = true;
        ret = der ? crefl_asn1_der_octets_write(B, tag, &s) : crefl_asn1_ber_octets_write(B, pl, &s);
        free(p);
    } else if (k == "null") {
        jv = "[]"; pl = crefl_asn1_ber_null_length(); hasp = true;
        ret = der ? crefl_asn1_der_null_write(B, tag) : crefl_asn1_ber_null_write(B, pl);
    } else if (k == "ident") {
        asn1_id id; memset(&id, 0, sizeof id); id._class = r.num(); id._constructed = r.num(); id._identifier = r.u64();
        jv = "{\"class\":" + ji(id._class) + ",\"cons\":" + ji(id._constructed) + ",\"num\":" + ju(id._identifier) + "}";
        pl = crefl_asn1_ber_ident_length(id); hasp = true; ret = crefl_asn1_ber_ident_write(B, id);
    } else {
        u64 v = r.u64(); s64 sv = (s64)v; double d = bitcast<double>(v); float f = bitcast<float>((u32)v);
        if (k == "tag") { pl = crefl_asn1_ber_tag_length(v); hasp = v < (1ull << 56); ret = crefl_asn1_ber_tag_write(B, v); jv = ju(v); }
        else if (k == "len") { pl = crefl_asn1_ber_length_length(v); hasp = true; ret = crefl_asn1_ber_length_write(B, v); jv = ju(v); }
        else if (k == "bool") { bool b = v != 0; pl = crefl_asn1_ber_boolean_length(&b); hasp = true; jv = b ? "[1]" : "[0]";
            ret = der ? crefl_asn1_der_boolean_write(B, tag, &b) : crefl_asn1_ber_boolean_write(B, pl, &b); }
        else if (k == "u64") { hasp = true; jv = ju(v); pl = val ? crefl_asn1_ber_integer_u64_length_byval(v) : crefl_asn1_ber_integer_u64_length(&v);
            ret = der ? (val ? crefl_asn1_der_integer_u64_write_byval(B, tag, v) : crefl_asn1_der_integer_u64_write(B, tag, &v))
                      : (val ? crefl_asn1_ber_integer_u64_write_byval(B, pl, v) : crefl_asn1_ber_integer_u64_write(B, pl, &v)); }
        else if (k == "s64") { hasp = true; jv = j8(v); pl = val ? crefl_asn1_ber_integer_s64_length_byval(sv) : crefl_asn1_ber_integer_s64_length(&sv);
            ret = der ? (val ? crefl_asn1_der_integer_s64_write_byval(B, tag, sv) : crefl_asn1_der_integer_s64_write(B, tag, &sv))
                      : (val ? crefl_asn1_ber_integer_s64_write_byval(B, pl, sv) : crefl_asn1_ber_integer_s64_write(B, pl, &sv)); }
        else if (k == "leu64") { hasp = true; jv = ju(v); pl = val ? crefl_le_ber_integer_u64_length_byval(v) : crefl_le_ber_integer_u64_length(&v);
            ret = val ? crefl_le_ber_integer_u64_write_byval(B, pl, v) : crefl_le_ber_integer_u64_write(B, pl, &v); }
        else if (k == "les64") { hasp = true; jv = j8(v); pl = val ? crefl_le_ber_integer_s64_length_byval(sv) : crefl_le_ber_integer_s64_length(&sv);
            ret = val ? crefl_le_ber_integer_s64_write_byval(B, pl, sv) : crefl_le_ber_integer_s64_write(B, pl, &sv); }
        else if (k == "leb") { jv = ju(v); ret = val ? crefl_leb_u64_write_byval(B, v) : crefl_leb_u64_write(B, &v); }
        else if (k == "vlu") { jv = ju(v); ret = val ? crefl_vlu_u64_write_byval(B, v) : crefl_vlu_u64_write(B, &v); }
        else if (k == "real") { hasp = true; jv = j8(v); pl = val ? crefl_asn1_ber_real_f64_length_byval(d) : crefl_asn1_ber_real_f64_length(&d);
            ret = der ? (val ? crefl_asn1_der_real_f64_write_byval(B, tag, d) : crefl_asn1_der_real_f64_write(B, tag, &d))
                      : (val ? crefl_asn1_ber_real_f64_write_byval(B, pl, d) : crefl_asn1_ber_real_f64_write(B, pl, &d)); }
        else if (k == "vf64") { jv = j8(v); ret = val ? crefl_vf_f64_write_byval(B, d) : crefl_vf_f64_write(B, &d); }
        else if (k == "vf32") { jv = j4((u32)v); ret = val ? crefl_vf_f32_write_byval(B, f) : crefl_vf_f32_write(B, &f); }
        else _exit(66);
    }
    ev e("Enc"); e.str("k", k).str("api", api).i("tag", der ? tagn : -1).raw("val", jv).raw("plen", hasp ? ju(pl) : "[-1]").i("ret", ret);
    fin(e).done();
}
// decode: k api tag len
static void do_dec(line_reader &r)
{
    std::string k = r.tok(), api = r.tok(); long tagn = r.num(); size_t len = r.u64();
    bool val = api == "val" || api == "derval", der = api == "der" || api == "derval";
    asn1_tag tag = (asn1_tag)tagn; int ret = -2; std::string jv = "[]";
    const u64 poison = 0xa5a5a5a5a5a5a5a5ull;
#define RES(T, call) { T x = call; ret = x.error < 0 ? -1 : (int)x.error; v = bitcast<u64>(x.value); }
    u64 v = poison;
    if (k == "oid") {
        asn1_oid o; memset(&o, 0xa5, sizeof o); ret = der ? crefl_asn1_der_oid_read(B, tag, &o) : crefl_asn1_ber_oid_read(B, len, &o); jv = joid(o);
    } else if (k == "null") { ret = der ? crefl_asn1_der_null_read(B, tag) : crefl_asn1_ber_null_read(B, len); }
    else if (k == "ident") {
        asn1_id id; memset(&id, 0, sizeof id); ret = crefl_asn1_ber_ident_read(B, &id);
        jv = "{\"class\":" + ji(id._class) + ",\"cons\":" + ji(id._constructed) + ",\"num\":" + ju(id._identifier) + "}";
    }
    else if (k == "tag") { ret = crefl_asn1_ber_tag_read(B, &v); jv = ju(v); }
    else if (k == "len") { ret = crefl_asn1_ber_length_read(B, &v); jv = ju(v); }
    else if (k == "bool") { union { bool b; uint8_t u; } x; x.u = 1; ret = der ? crefl_asn1_der_boolean_read(B, tag, &x.b) : crefl_asn1_ber_boolean_read(B, len, &x.b); jv = "[" + ji(x.u) + "]"; }
    else if (k == "u64") {
        if (val) { RES(u64_result, (der ? crefl_asn1_der_integer_u64_read_byval(B, tag) : crefl_asn1_ber_integer_u64_read_byval(B, len))) }
        else ret = der ? crefl_asn1_der_integer_u64_read(B, tag, &v) : crefl_asn1_ber_integer_u64_read(B, len, &v);
        jv = ju(v);
    } else if (k == "s64") {
        if (val) { RES(s64_result, (der ? crefl_asn1_der_integer_s64_read_byval(B, tag) : crefl_asn1_ber_integer_s64_read_byval(B, len))) }
        else ret = der ? crefl_asn1_der_integer_s64_read(B, tag, (s64 *)&v) : crefl_asn1_ber_integer_s64_read(B, len, (s64 *)&v);
        jv = j8(v);
    } else if (k == "leu64") {
        if (val) { RES(u64_result, crefl_le_ber_integer_u64_read_byval(B, len)) } else ret = crefl_le_ber_integer_u64_read(B, len, &v);
        jv = ju(v);
    } else if (k == "les64") {
        if (val) { RES(s64_result, crefl_le_ber_integer_s64_read_byval(B, len)) } else ret = crefl_le_ber_integer_s64_read(B, len, (s64 *)&v);
        jv = j8(v);
    } else if (k == "leb") { if (val) { RES(u64_result, crefl_leb_u64_read_byval(B)) } else ret = crefl_leb_u64_read(B, &v); jv = ju(v); }
    else if (k == "vlu") { if (val) { RES(u64_result, crefl_vlu_u64_read_byval(B)) } else ret = crefl_vlu_u64_read(B, &v); jv = ju(v); }
    else if (k == "real") {
        if (val) { RES(f64_result, (der ? crefl_asn1_der_real_f64_read_byval(B, tag) : crefl_asn1_ber_real_f64_read_byval(B, len))) }
        else ret = der ? crefl_asn1_der_real_f64_read(B, tag, (double *)&v) : crefl_asn1_ber_real_f64_read(B, len, (double *)&v);
        jv = j8(v);
    } else if (k == "vf64") { if (val) { RES(f64_result, crefl_vf_f64_read_byval(B)) } else ret = crefl_vf_f64_read(B, (double *)&v); jv = j8(v); }
    else if (k == "vf32") {
        u32 u = 0xa5a5a5a5;
        if (val) { f32_result x = crefl_vf_f32_read_byval(B); ret = x.error < 0 ? -1 : (int)x.error; u = bitcast<u32>(x.value); } else ret = crefl_vf_f32_read(B, (float *)&u);
        jv = j4(u);
    } else _exit(66);
    ev e(der ? "DerDec" : "Dec"); e.str("k", k).str("api", api).i("tag", tagn).u("len", len).i("ret", ret < 0 ? -1 : ret).raw("val", jv);
    fin(e).done();
}
static void do_octr(line_reader &r)   // octr api tag len ucount ask
{
    std::string api = r.tok(); bool der = api == "der"; long tag = r.num(); size_t len = r.u64(), uc = r.u64(); int ask = r.num();
    char *p = (char *)malloc(uc ? uc : 1); char *u = uc ? p : p + 1; memset(p, 0xa5, uc ? uc : 1);
    asn1_string s; memset(&s, 0, sizeof s); s.str = ask ? nullptr : (u8 *)u; s.count = uc;
    int ret = der ? crefl_asn1_der_octets_read(B, (asn1_tag)tag, &s) : crefl_asn1_ber_octets_read(B, len, &s);
    ev e(der ? "DerOctR" : "OctR"); e.i("tag", tag).u("len", len).i("ucount", uc).i("ask", ask).i("ret", ret).u("count", s.count);
    e.raw("user", ask ? "[]" : jbytes((uint8_t *)u, uc)); free(p);
    fin(e).done();
}
int main(int argc, char **argv)
{
    line_reader r(argv[1]); drv_init(argv[2]); newbuf(0);
    while (r.next()) {
        arm();
        const std::string c = r.tok();
        if (c == "session") { newbuf(0); ev("Session").done(); }
        else if (c == "end") { emit("{\"op\":\"End\"}"); }
        else if (c == "new") { size_t n = r.u64(); newbuf(n); ev e("New"); e.i("cap", n); fin(e).done(); }
        else if (c == "buf") { bytes b = r.hex(); newbuf(b.size()); memcpy(crefl_buf_data(B), b.data(), b.size()); ev e("Buf"); e.b("content", b); fin(e).done(); }
        else if (c == "seek") { u64 o = r.u64(); crefl_buf_seek(B, o); ev e("Seek"); e.u("to", o); fin(e).done(); }
        else if (c == "reset") { crefl_buf_reset(B); ev e("Reset"); fin(e).done(); }
        else if (c == "w" || c == "uw") {
            int n = r.num(); u64 v = r.u64(); size_t ret;
            if (c == "uw" && fits(n)) ret = n == 1 ? crefl_buf_write_unchecked_i8(B, (int8_t)v) : n == 2 ? crefl_buf_write_unchecked_i16(B, (int16_t)v) : n == 4 ? crefl_buf_write_unchecked_i32(B, (int32_t)v) : crefl_buf_write_unchecked_i64(B, (int64_t)v);
            else ret = n == 1 ? crefl_buf_write_i8(B, (int8_t)v) : n == 2 ? crefl_buf_write_i16(B, (int16_t)v) : n == 4 ? crefl_buf_write_i32(B, (int32_t)v) : crefl_buf_write_i64(B, (int64_t)v);
            uint8_t d[8]; for (int i = 0; i < 8; i++) d[i] = (uint8_t)(v >> (8 * i));
            ev e("Write"); e.raw("data", jbytes(d, n)).u("ret", ret); fin(e).done();
        }
        else if (c == "ur" && fits(atoi(r.peek()))) {
            int n = r.num(); u64 v = 0; size_t ret;
            if (n == 1) { int8_t x = 0x55; ret = crefl_buf_read_unchecked_i8(B, &x); v = (uint8_t)x; }
            else if (n == 2) { int16_t x = 0x5555; ret = crefl_buf_read_unchecked_i16(B, &x); v = (uint16_t)x; }
            else if (n == 4) { int32_t x = 0x55555555; ret = crefl_buf_read_unchecked_i32(B, &x); v = (uint32_t)x; }
            else { int64_t x = 0x5555555555555555ll; ret = crefl_buf_read_unchecked_i64(B, &x); v = x; }
            uint8_t d[8]; for (int i = 0; i < 8; i++) d[i] = (uint8_t)(v >> (8 * i));
            ev e("Read"); e.u("len", n).u("ret", ret).raw("val", jbytes(d, n)); fin(e).done();
        }
        else if (c == "r" || c == "ur") {
            int n = r.num(); u64 v = 0; size_t ret;
            if (n == 1) { int8_t x = 0x55; ret = crefl_buf_read_i8(B, &x); v = (uint8_t)x; if (!ret && x != 0x55) ret = 99; }
            else if (n == 2) { int16_t x = 0x5555; ret = crefl_buf_read_i16(B, &x); v = (uint16_t)x; if (!ret && x != 0x5555) ret = 99; }
            else if (n == 4) { int32_t x = 0x55555555; ret = crefl_buf_read_i32(B, &x); v = (uint32_t)x; if (!ret && x != 0x55555555) ret = 99; }
            else { int64_t x = 0x5555555555555555ll; ret = crefl_buf_read_i64(B, &x); v = x; if (!ret && x != 0x5555555555555555ll) ret = 99; }
            uint8_t d[8]; for (int i = 0; i < 8; i++) d[i] = (uint8_t)(v >> (8 * i));
            ev e("Read"); e.u("len", n).u("ret", ret).raw("val", ret ? jbytes(d, n) : "[]"); fin(e).done();
        }
        else if (c == "wb" || c == "uwb") { bytes b = r.hex(); char *p = (char *)malloc(b.size() ? b.size() : 1); memcpy(p, b.data(), b.size());
            size_t ret = c == "uwb" && fits(b.size()) ? crefl_buf_write_bytes_unchecked(B, p, b.size()) : crefl_buf_write_bytes(B, p, b.size()); free(p); ev e("Write"); e.b("data", b).u("ret", ret); fin(e).done(); }
        else if (c == "wbhuge") { u64 n = r.u64(); char *p = (char *)malloc(64); memset(p, 7, 64);
            size_t ret = crefl_buf_write_bytes(B, p, n); free(p); ev e("WriteHuge"); e.u("len", n).u("ret", ret); fin(e).done(); }
        else if (c == "rem") { if (!fits(0) && crefl_buf_offset(B) > B->data_size + 64) continue; crefl_span sp = crefl_buf_remaining(B); ev e("Remaining"); e.u("len", sp.length).u("at", (char *)sp.data - crefl_buf_data(B)); fin(e).done(); }
        else if (c == "glyph") { int v = r.num(); size_t n = r.u64(); char *p = (char *)malloc(n ? n : 1); memset(p, 0xa5, n ? n : 1); int ret = crefl_format_byte(p, n, (uint8_t)v);
            ev e("Glyph"); e.i("byte", v).i("size", n).i("ret", ret).raw("text", jbytes((uint8_t *)p, n)); free(p); fin(e).done(); }
        else if (c == "hexdump") { if (!fits(0)) continue; ev e("HexDump"); e.raw("text", jb(captured([] { crefl_buf_dump(B); }))); fin(e).done(); }
        else if (c == "rb" || c == "urb") { u64 n = r.u64(); size_t m = n < 65536 || fits(n) ? n : 64; char *p = (char *)malloc(m ? m : 1); memset(p, 0xa5, m ? m : 1);
            size_t ret = c == "urb" && fits(n) ? crefl_buf_read_bytes_unchecked(B, p, n) : crefl_buf_read_bytes(B, p, n); bool touched = false; if (!ret) for (size_t i = 0; i < m; i++) touched |= (uint8_t)p[i] != 0xa5;
            ev e("Read"); e.u("len", n).u("ret", ret).raw("val", ret || touched ? jbytes((uint8_t *)p, m) : "[]"); free(p); fin(e).done(); }
        else if (c == "enc") do_enc(r);
        else if (c == "dec") do_dec(r);
        else if (c == "octr") do_octr(r);
        else if (c == "octw") { size_t len = r.u64(); bytes b = r.hex(); char *p = (char *)malloc(b.size() ? b.size() : 1); memcpy(p, b.data(), b.size());
            asn1_string s; memset(&s, 0, sizeof s); s.str = (u8 *)p; s.count = b.size(); int ret = crefl_asn1_ber_octets_write(B, len, &s); free(p);
            ev e("OctW"); e.u("len", len).b("src", b).i("ret", ret); fin(e).done(); }
        else if (c == "totext") { size_t n = r.u64(); asn1_oid o = rd_oid(r); char *p = (char *)malloc(n ? n : 1); memset(p, 0xa5, n ? n : 1); size_t l = n;
            int ret = crefl_asn1_oid_to_string(n ? p : nullptr, &l, &o); size_t t = 0; while (t < n && p[t]) t++;
            ev e("ToText"); e.raw("oid", joid(o)).i("size", n).i("len", l).raw("text", t < n || !n ? jbytes((uint8_t *)p, n ? t : 0) : "[255]").i("guard", ret == 0); free(p); fin(e).done(); }
        else if (c == "fromtext") { bytes b = r.hex(); char *p = (char *)malloc(b.size() ? b.size() : 1); char *q = b.size() ? p : p + 1; memcpy(p, b.data(), b.size());
            asn1_oid o; memset(&o, 0xa5, sizeof o); int ret = crefl_asn1_oid_from_string(&o, q, b.size()); free(p);
            ev e("FromText"); e.b("text", b).i("ret", ret).raw("oid", joid(o)); fin(e).done(); }
        else { fprintf(stderr, "unknown op %s\n", c.c_str()); return 66; }
    }
    flush_out();
    return 0;
}
