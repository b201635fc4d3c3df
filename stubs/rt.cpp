// Definitions that libc++ keeps in its shared library, so that their bodies are available to the symbolic executor.
#define _LIBCPP_DISABLE_EXTERN_TEMPLATE
#include <string>
#include <vector>
#include <algorithm>
#include <stdexcept>
#include <cstring>
#include <cstdlib>
#include "vp_streams.h"

template class std::basic_string<char>;
template std::string std::operator+<char, std::char_traits<char>, std::allocator<char>>(const char*, const std::string&);
_LIBCPP_BEGIN_NAMESPACE_STD
template <class C, class It> void __sort(It b, It e, C c) { for (It i = b; i != e; ++i) for (It j = i; j != b && *j < *(j - 1); --j) { auto t = *j; *j = *(j - 1); *(j - 1) = t; } }
#define VP_SORT(T) template void __sort<__less<T>&, T*>(T* b, T* e, __less<T>& c);
VP_SORT(double) VP_SORT(float) VP_SORT(int) VP_SORT(unsigned) VP_SORT(long) VP_SORT(unsigned long) VP_SORT(char) VP_SORT(short)
double stod(const string& s, size_t* n)
{
    size_t i = 0; while (i < s.size() && vp_space((unsigned char)s[i])) i++;
    double d; size_t k = __vp_parse_double(s.data() + i, s.size() - i, &d);
    if (!k) throw std::invalid_argument("stod");
    if (n) *n = i + k;
    return d;
}
template <class I> static I vp_stoi(const string& s, size_t* n, int base)
{
    size_t i = 0; while (i < s.size() && vp_space((unsigned char)s[i])) i++;
    bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    size_t i0 = i; unsigned long long x = 0; for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; i++) { x = x * base + (s[i] - '0'); if (x > (unsigned long long)std::numeric_limits<I>::max() + neg) throw std::out_of_range("stoi"); }
    if (i == i0) throw std::invalid_argument("stoi");
    if (n) *n = i;
    return (I)(neg ? 0ull - x : x);
}
int stoi(const string& s, size_t* n, int base) { return vp_stoi<int>(s, n, base); }
long stol(const string& s, size_t* n, int base) { return vp_stoi<long>(s, n, base); }
long long stoll(const string& s, size_t* n, int base) { return vp_stoi<long long>(s, n, base); }
static string vp_dec(unsigned long long v, bool neg) { char b[32]; int n = 32; do { b[--n] = (char)('0' + v % 10); v /= 10; } while (v); if (neg) b[--n] = '-'; return string(b + n, 32 - n); }
string to_string(int v) { return v < 0 ? vp_dec(0ull - (unsigned long long)v, true) : vp_dec(v, false); }
string to_string(long v) { return v < 0 ? vp_dec(0ull - (unsigned long long)v, true) : vp_dec(v, false); }
string to_string(long long v) { return v < 0 ? vp_dec(0ull - (unsigned long long)v, true) : vp_dec(v, false); }
string to_string(unsigned v) { return vp_dec(v, false); }
string to_string(unsigned long v) { return vp_dec(v, false); }
string to_string(unsigned long long v) { return vp_dec(v, false); }
string to_string(double v) { char b[16]; size_t n = __vp_fmt_double(v, 1, 6, b); return string(b, n); }
_LIBCPP_END_NAMESPACE_STD

extern "C"
{
double strtod(const char* s, char** e)
{
    size_t i = 0; while (std::vp_space((unsigned char)s[i])) i++;
    double d = 0; size_t k = __vp_parse_double(s + i, strlen(s + i), &d);
    if (e) *e = const_cast<char*>(k ? s + i + k : s);
    return k ? d : 0.0;
}
long strtol(const char* s, char** e, int base)
{
    const char* p = s; while (std::vp_space((unsigned char)*p)) p++;
    bool neg = false; if (*p == '-' || *p == '+') neg = *p++ == '-';
    const char* q = p; unsigned long long x = 0; for (; *q >= '0' && *q <= '9'; q++) if (x < 1ull << 60) x = x * 10 + (*q - '0');
    if (e) *e = const_cast<char*>(q == p ? s : q);
    unsigned long long m = 0x7fffffffffffffffull + neg; if (x > m) x = m;
    return (long)(neg ? 0ull - x : x);
}
}
extern "C" __attribute__((used, noinline)) void vp_rt_keep() {}
