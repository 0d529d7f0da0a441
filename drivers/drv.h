// Common parts of the drivers: reads a script of whitespace separated tokens, writes one JSON event per line.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>

typedef std::vector<uint8_t> bytes;
static int g_fd = -1;
static std::string g_out;

static inline void flush_out()
{
    size_t o = 0;
    while (o < g_out.size()) { ssize_t n = ::write(g_fd, g_out.data() + o, g_out.size() - o); if (n <= 0) _exit(66); o += n; }
    g_out.clear();
}
static inline void emit(const std::string &s) { g_out += s; g_out += '\n'; if (g_out.size() > 60000) flush_out(); }
static inline void die_with(const char *ev)
{
    flush_out();
    ssize_t n = ::write(g_fd, ev, strlen(ev)); (void)n;
}
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_death() { die_with("{\"op\":\"Crash\"}\n"); }
static void on_signal(int) { die_with("{\"op\":\"Crash\"}\n"); _exit(78); }
static void on_alarm(int) { die_with("{\"op\":\"Hang\"}\n"); _exit(79); }
static inline void drv_init(const char *path)
{
    g_fd = ::open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (g_fd < 0) _exit(66);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    else { signal(SIGSEGV, on_signal); signal(SIGBUS, on_signal); }
    signal(SIGABRT, on_signal); signal(SIGFPE, on_signal); signal(SIGILL, on_signal);
    signal(SIGALRM, on_alarm);
}
// each script line gets this long
static inline void arm(int s = 20) { alarm(s); }

static inline int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
// hex tokens; "-" is the empty string
static inline bytes unhex(const std::string &s)
{
    bytes b; if (s == "-") return b;
    for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t)(hexv(s[i]) * 16 + hexv(s[i + 1])));
    return b;
}
static inline std::string jbytes(const uint8_t *p, size_t n)
{
    std::string s = "["; char t[8];
    for (size_t i = 0; i < n; i++) { snprintf(t, sizeof t, i ? ",%u" : "%u", p[i]); s += t; }
    return s + "]";
}
static inline std::string jb(const bytes &b) { return jbytes(b.data(), b.size()); }
// unsigned word as little-endian octets without leading zeros
static inline std::string ju(uint64_t v) { uint8_t b[8]; size_t n = 0; while (v) { b[n++] = (uint8_t)v; v >>= 8; } return jbytes(b, n); }
// word as exactly eight little-endian octets
static inline std::string j8(uint64_t v) { uint8_t b[8]; for (int i = 0; i < 8; i++) b[i] = (uint8_t)(v >> (8 * i)); return jbytes(b, 8); }
static inline std::string j4(uint32_t v) { uint8_t b[4]; for (int i = 0; i < 4; i++) b[i] = (uint8_t)(v >> (8 * i)); return jbytes(b, 4); }
static inline std::string ji(long long v) { return std::to_string(v); }
static inline std::string js(const std::string &s)
{
    std::string o = "\""; char t[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { snprintf(t, sizeof t, "\\u%04x", c); o += t; } else o += (char)c; }
    return o + "\"";
}
struct ev
{
    std::string s;
    ev(const std::string &op) { s = "{\"op\":\"" + op + "\""; }
    ev &raw(const char *k, const std::string &v) { s += ",\""; s += k; s += "\":"; s += v; return *this; }
    ev &i(const char *k, long long v) { return raw(k, ji(v)); }
    ev &u(const char *k, uint64_t v) { return raw(k, ju(v)); }
    ev &w(const char *k, uint64_t v) { return raw(k, j8(v)); }
    ev &b(const char *k, const bytes &v) { return raw(k, jb(v)); }
    ev &str(const char *k, const std::string &v) { return raw(k, js(v)); }
    void done() { emit(s + "}"); }
};
struct line_reader
{
    std::ifstream f; std::vector<std::string> t; size_t p = 0;
    line_reader(const char *path) : f(path) { if (!f) _exit(66); }
    bool next() { std::string l; while (std::getline(f, l)) { t.clear(); p = 0; std::istringstream is(l); std::string x; while (is >> x) t.push_back(x); if (!t.empty()) return true; } return false; }
    const std::string &tok() { if (p >= t.size()) { fprintf(stderr, "short line: %s\n", t.empty() ? "" : t[0].c_str()); _exit(66); } return t[p++]; }
    const char *peek() { return p < t.size() ? t[p].c_str() : "0"; }
    bool more() { return p < t.size(); }
    long long num() { return atoll(tok().c_str()); }
    uint64_t u64() { return strtoull(tok().c_str(), nullptr, 0); }
    bytes hex() { return unhex(tok()); }
};
