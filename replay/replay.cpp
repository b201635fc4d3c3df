// Native side of the harness interface: reads the inputs of a counterexample or witness and runs the harness on the real code.
// usage: replay FUNCTION "int args" INPUTFILE      (input lines: name.i hexdouble-or-int [jitter])
// exit: 0 every assertion held, 1 assertion failed (FAIL line), 77 the inputs do not meet the assumptions, 3 exception escaped
#include "sym.h"
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <fstream>
#include <exception>
#include <new>
#include <unistd.h>

// the sanitizer's operator new ends the process where the standard one throws
static void* get(size_t n) { void* p = n > (size_t)4000 << 20 ? nullptr : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

static std::map<std::string, std::string> g_in;
static bool g_jitter = false, g_ill = false, g_validate = false; static double g_tol = 1e-9, g_scale = 1.0; static uint64_t g_rng;
static double rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return (double)(g_rng >> 11) / 9007199254740992.0; }
static std::string key(const char* n, int i) { return std::string(n) + "." + std::to_string(i); }
extern "C"
{
double sym_real(const char* name, int i, double lo, double hi)
{
    auto it = g_in.find(key(name, i)); double v = it == g_in.end() ? (lo + hi) / 2 : strtod(it->second.c_str(), nullptr);
    if (g_jitter && v != lo && v != hi) { v += (rnd() - 0.5) * 1e-3 * (std::fabs(v) + 1e-3); }
    if (!(v >= lo && v <= hi)) { printf("ASSUME range %s\n", key(name, i).c_str()); fflush(stdout); _exit(77); }
    if (hi - lo > 32 && (lo > 0 ? v < 0.25 || v > 4.0 : v < -8.0 || v > 8.0)) g_ill = true;
    return v;
}
int sym_int(const char* name, int i, int lo, int hi)
{
    auto it = g_in.find(key(name, i)); int v = it == g_in.end() ? lo : (int)strtoll(it->second.c_str(), nullptr, 10);
    if (v < lo || v > hi) { fflush(stdout); _exit(77); }
    return v;
}
double sym_double(const char* name, int i) { auto it = g_in.find(key(name, i)); return it == g_in.end() ? 0.0 : strtod(it->second.c_str(), nullptr); }
int sym_split(int v) { return v; }
void sym_assume(bool c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _exit(77); } }
void sym_prefer(bool c) { if (!c) g_ill = true; }
static void bad(const char* msg, const char* d) { if (g_ill && g_validate) { printf("ILL %s\n", msg); fflush(stdout); _exit(77); } printf("FAIL %s %s\n", msg, d); fflush(stdout); _exit(1); }
void sym_check(bool c, const char* msg) { if (!c) bad(msg, ""); }
static void cmp(double a, double b, double tol, const char* msg) { if (a == b || std::fabs(a - b) <= tol) return; char t[128]; snprintf(t, sizeof t, "(%.17g, expected %.17g)", a, b); bad(msg, t); }
void sym_eq(double a, double b, const char* msg) { cmp(a, b, g_tol * std::fmax(g_scale, std::fmax(std::fabs(a), std::fabs(b))), msg); }
void sym_same(double a, double b, const char* msg) { if (std::isnan(a) && std::isnan(b)) return; cmp(a, b, 0, msg); }
void sym_bits(double a, double b, const char* msg) { if (std::isnan(a) && std::isnan(b)) return; if (!std::memcmp(&a, &b, 8)) return; char t[128]; snprintf(t, sizeof t, "(%.17g, expected %.17g)", a, b); bad(msg, t); }
void sym_near(double a, double b, double tol, const char* msg) { cmp(a, b, tol + g_tol * std::fmin(1.0, std::fabs(b)), msg); }
void sym_le(double a, double b, const char* msg) { if (a <= b + g_tol * std::fmax(g_scale, std::fmax(std::fabs(a), std::fabs(b)))) return; char t[128]; snprintf(t, sizeof t, "(%.17g > %.17g)", a, b); bad(msg, t); }
void sym_out(const char* name, int i, double v) { printf("OUT %s %a\n", key(name, i).c_str(), v); }
void sym_reach(const char*) {}
void sym_scale(double s) { g_scale = std::fmax(1.0, s); }
void sym_stop() { fflush(stdout); _exit(0); }
int sym_symbolic() { return 0; }
}
int main(int argc, char** argv)
{
    if (argc < 4) return 2;
    std::ifstream f(argv[3]); std::string k, v;
    while (f >> k >> v) { if (k == "#validate") g_validate = true; else if (k == "#tol") g_tol = strtod(v.c_str(), nullptr); else if (k == "#jitter") { g_jitter = true; g_rng = strtoull(v.c_str(), nullptr, 10) * 0x9E3779B97F4A7C15ull + 1; } else g_in[k] = v; }
    void* p = dlsym(RTLD_DEFAULT, argv[1]); if (!p) { printf("no function %s\n", argv[1]); return 2; }
    int a[16] = {0}; int n = 0; for (char* s = strtok(argv[2], " "); s && n < 16; s = strtok(nullptr, " ")) a[n++] = atoi(s);
    try { ((void (*)(int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int))p)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]); }
    catch (const std::exception& e) { printf("FAIL exception escapes: %s\n", e.what()); fflush(stdout); _exit(3); }
    printf("OK\n"); fflush(stdout);
    _exit(0);
}
