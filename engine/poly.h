// Exact multivariate polynomials and factored rational functions over Q.
#pragma once
#include <gmpxx.h>
#include <array>
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <stdexcept>
#include <algorithm>

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

// A monomial: sorted (variable, exponent) list, entry = var<<6 | exp, zero padded.
constexpr int MONO_MAX = 20;
struct Mono
{
    std::array<uint16_t, MONO_MAX> e{};
    int n = 0;
    bool operator==(const Mono& o) const { return n == o.n && std::memcmp(e.data(), o.e.data(), n * 2) == 0; }
};
inline int mvar(uint16_t x) { return x >> 6; }
inline int mexp(uint16_t x) { return x & 63; }
// lexicographic order (admissible): >0 when a is greater
inline int mcmp(const Mono& a, const Mono& b)
{
    int n = std::min(a.n, b.n);
    for (int i = 0; i < n; i++)
    {
        if (a.e[i] == b.e[i]) continue;
        int va = mvar(a.e[i]), vb = mvar(b.e[i]);
        if (va == vb) return mexp(a.e[i]) > mexp(b.e[i]) ? 1 : -1;
        return va < vb ? 1 : -1;
    }
    if (a.n == b.n) return 0;
    return a.n > b.n ? 1 : -1;
}
inline Mono mmul(const Mono& a, const Mono& b)
{
    Mono r; int i = 0, j = 0;
    while (i < a.n || j < b.n)
    {
        if (r.n >= MONO_MAX) throw Unsupported("monomial too wide");
        if (j >= b.n) r.e[r.n++] = a.e[i++];
        else if (i >= a.n) r.e[r.n++] = b.e[j++];
        else
        {
            int va = mvar(a.e[i]), vb = mvar(b.e[j]);
            if (va < vb) r.e[r.n++] = a.e[i++];
            else if (vb < va) r.e[r.n++] = b.e[j++];
            else
            {
                int ex = mexp(a.e[i]) + mexp(b.e[j]);
                if (ex > 63) throw Unsupported("exponent too large");
                r.e[r.n++] = uint16_t(va << 6 | ex); i++; j++;
            }
        }
    }
    return r;
}
inline bool mdiv(const Mono& a, const Mono& b, Mono& r)
{
    r = Mono{}; int i = 0, j = 0;
    while (i < a.n)
    {
        if (j < b.n && mvar(b.e[j]) < mvar(a.e[i])) return false;
        if (j < b.n && mvar(b.e[j]) == mvar(a.e[i]))
        {
            int ex = mexp(a.e[i]) - mexp(b.e[j]);
            if (ex < 0) return false;
            if (ex > 0) r.e[r.n++] = uint16_t(mvar(a.e[i]) << 6 | ex);
            i++; j++;
        }
        else r.e[r.n++] = a.e[i++];
    }
    return j == b.n;
}
struct MonoHash
{
    size_t operator()(const Mono& m) const
    {
        size_t h = 1469598103934665603ull;
        for (int i = 0; i < m.n; i++) { h ^= m.e[i]; h *= 1099511628211ull; }
        return h;
    }
};
struct MonoGreater { bool operator()(const Mono& a, const Mono& b) const { return mcmp(a, b) > 0; } };

struct Term { Mono m; mpq_class c; };

struct Poly
{
    std::vector<Term> t; // descending
    Poly() = default;
    explicit Poly(const mpq_class& c) { if (c != 0) t.push_back({Mono{}, c}); }
    static Poly var(int v) { Poly p; Term x; x.m.n = 1; x.m.e[0] = uint16_t(v << 6 | 1); x.c = 1; p.t.push_back(x); return p; }
    bool zero() const { return t.empty(); }
    bool isConst() const { return t.empty() || (t.size() == 1 && t[0].m.n == 0); }
    mpq_class constVal() const { return t.empty() ? mpq_class(0) : t[0].c; }
    int degree() const { int d = 0; for (auto& x : t) { int s = 0; for (int i = 0; i < x.m.n; i++) s += mexp(x.m.e[i]); d = std::max(d, s); } return d; }
};
inline size_t g_maxTerms = 400000;
inline Poly padd(const Poly& a, const Poly& b, const mpq_class& f)
{
    Poly r; r.t.reserve(a.t.size() + b.t.size());
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size())
    {
        int c = i >= a.t.size() ? -1 : j >= b.t.size() ? 1 : mcmp(a.t[i].m, b.t[j].m);
        if (c > 0) r.t.push_back(a.t[i++]);
        else if (c < 0) { r.t.push_back(b.t[j++]); r.t.back().c *= f; }
        else
        {
            mpq_class s = a.t[i].c + b.t[j].c * f;
            if (s != 0) r.t.push_back({a.t[i].m, s});
            i++; j++;
        }
    }
    return r;
}
inline Poly pscale(const Poly& a, const mpq_class& f)
{
    if (f == 0) return Poly();
    Poly r = a; for (auto& x : r.t) x.c *= f; return r;
}
inline Poly pmul(const Poly& a, const Poly& b)
{
    if (a.zero() || b.zero()) return Poly();
    if (a.isConst()) return pscale(b, a.constVal());
    if (b.isConst()) return pscale(a, b.constVal());
    Poly r;
    if (a.t.size() == 1 || b.t.size() == 1)
    {
        const Poly& s = a.t.size() == 1 ? a : b; const Poly& l = a.t.size() == 1 ? b : a;
        r.t.reserve(l.t.size());
        for (auto& x : l.t) r.t.push_back({mmul(x.m, s.t[0].m), x.c * s.t[0].c});
        return r; // lex order is multiplicative
    }
    std::unordered_map<Mono, mpq_class, MonoHash> acc;
    acc.reserve(a.t.size() * 2 + b.t.size() * 2);
    for (auto& x : a.t)
    {
        for (auto& y : b.t) acc[mmul(x.m, y.m)] += x.c * y.c;
        if (acc.size() > g_maxTerms) throw Unsupported("polynomial too large");
    }
    r.t.reserve(acc.size());
    for (auto& kv : acc) if (kv.second != 0) r.t.push_back({kv.first, kv.second});
    std::sort(r.t.begin(), r.t.end(), [](const Term& x, const Term& y) { return mcmp(x.m, y.m) > 0; });
    return r;
}
inline bool peq(const Poly& a, const Poly& b)
{
    if (a.t.size() != b.t.size()) return false;
    for (size_t i = 0; i < a.t.size(); i++) if (!(a.t[i].m == b.t[i].m) || a.t[i].c != b.t[i].c) return false;
    return true;
}
inline std::string pkey(const Poly& a)
{
    std::string s;
    for (auto& x : a.t)
    {
        s.append((const char*)x.m.e.data(), x.m.n * 2); s.push_back('|');
        s += x.c.get_str(36); s.push_back(';');
    }
    return s;
}
// primitive part: integer coprime coefficients, positive leading coefficient; a = f * result
inline Poly pprim(const Poly& a, mpq_class& f)
{
    if (a.zero()) { f = 1; return a; }
    mpz_class g = 0, l = 1;
    for (auto& x : a.t) { g = gcd(g, x.c.get_num()); l = lcm(l, x.c.get_den()); }
    f = mpq_class(g, l); f.canonicalize();
    if (a.t[0].c < 0) f = -f;
    return pscale(a, 1 / f);
}
// modular evaluation for quick divisibility rejection
constexpr uint64_t MODP = 2305843009213693951ull; // 2^61-1
inline uint64_t mulm(uint64_t a, uint64_t b) { return (unsigned __int128)a * b % MODP; }
inline uint64_t powm(uint64_t a, uint64_t e) { uint64_t r = 1; while (e) { if (e & 1) r = mulm(r, a); a = mulm(a, a); e >>= 1; } return r; }
inline uint64_t qmod(const mpq_class& q)
{
    static const mpz_class P("2305843009213693951");
    mpz_class n = q.get_num() % P; if (n < 0) n += P;
    mpz_class d = q.get_den() % P;
    return mulm(n.get_ui(), powm(d.get_ui(), MODP - 2));
}
inline uint64_t varRand(int v) { uint64_t x = (uint64_t)v * 0x9E3779B97F4A7C15ull + 0x1234567; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29; return x % MODP; }
inline uint64_t pevalm(const Poly& p, int ov, uint64_t oval)
{
    uint64_t s = 0;
    for (auto& x : p.t)
    {
        uint64_t m = qmod(x.c);
        for (int i = 0; i < x.m.n; i++)
        {
            int v = mvar(x.m.e[i]);
            m = mulm(m, powm(v == ov ? oval : varRand(v), mexp(x.m.e[i])));
        }
        s += m; if (s >= MODP) s -= MODP;
    }
    return s;
}
// exact division; false when not divisible
inline bool pdivexact(const Poly& a, const Poly& b, Poly& q)
{
    q = Poly();
    if (a.zero()) return true;
    if (b.isConst()) { q = pscale(a, 1 / b.constVal()); return true; }
    if (b.t.size() > a.t.size() * 4 + 8 && a.t.size() < b.t.size() / 8) return false;
    // quick test: if b is linear in some variable, evaluate a on the zero set of b
    for (int i = 0; i < b.t[0].m.n; i++)
    {
        int v = mvar(b.t[0].m.e[i]);
        bool lin = true;
        for (auto& x : b.t) for (int k = 0; k < x.m.n; k++) if (mvar(x.m.e[k]) == v && mexp(x.m.e[k]) > 1) lin = false;
        if (!lin) continue;
        uint64_t b0 = pevalm(b, v, 0), b1 = pevalm(b, v, 1);
        uint64_t c = (b1 + MODP - b0) % MODP;
        if (c == 0) continue;
        uint64_t root = mulm((MODP - b0) % MODP, powm(c, MODP - 2));
        if (pevalm(a, v, root) != 0) return false;
        break;
    }
    std::map<Mono, mpq_class, MonoGreater> rem;
    for (auto& x : a.t) rem.emplace_hint(rem.end(), x.m, x.c);
    while (!rem.empty())
    {
        auto it = rem.begin();
        Mono qm;
        if (!mdiv(it->first, b.t[0].m, qm)) return false;
        mpq_class qc = it->second / b.t[0].c;
        q.t.push_back({qm, qc});
        for (auto& y : b.t)
        {
            Mono m = mmul(qm, y.m);
            auto f = rem.find(m);
            if (f == rem.end()) rem.emplace(m, -qc * y.c);
            else { f->second -= qc * y.c; if (f->second == 0) rem.erase(f); }
        }
        if (q.t.size() > 200000) return false;
    }
    return true;
}

// interned primitive polynomials (denominator factors, sign facts)
struct Factors
{
    std::vector<Poly> p;
    std::unordered_map<std::string, int> idx;
    int intern(const Poly& prim)
    {
        std::string k = pkey(prim);
        auto it = idx.find(k);
        if (it != idx.end()) return it->second;
        int id = (int)p.size(); p.push_back(prim); idx.emplace(std::move(k), id); return id;
    }
};
inline Factors g_fac;

using Den = std::vector<std::pair<int, int>>; // (factor id, exponent), sorted; every factor is positive on the current path

struct RatFun { Poly num; Den den; };

inline Poly fpow(int id, int e) { Poly r(mpq_class(1)); for (int i = 0; i < e; i++) r = pmul(r, g_fac.p[id]); return r; }
inline void rcancel(RatFun& r)
{
    if (r.num.zero()) { r.den.clear(); return; }
    if (r.num.isConst()) return;
    for (size_t i = 0; i < r.den.size();)
    {
        Poly q;
        while (r.den[i].second > 0 && pdivexact(r.num, g_fac.p[r.den[i].first], q)) { r.num = std::move(q); r.den[i].second--; }
        if (r.den[i].second == 0) r.den.erase(r.den.begin() + i); else i++;
    }
}
inline RatFun radd(const RatFun& a, const RatFun& b, int sgn)
{
    RatFun r;
    if (a.den == b.den) { r.num = padd(a.num, b.num, sgn); r.den = a.den; }
    else
    {
        Poly ma(mpq_class(1)), mb(mpq_class(1));
        size_t i = 0, j = 0;
        while (i < a.den.size() || j < b.den.size())
        {
            if (j >= b.den.size() || (i < a.den.size() && a.den[i].first < b.den[j].first))
            { r.den.push_back(a.den[i]); mb = pmul(mb, fpow(a.den[i].first, a.den[i].second)); i++; }
            else if (i >= a.den.size() || b.den[j].first < a.den[i].first)
            { r.den.push_back(b.den[j]); ma = pmul(ma, fpow(b.den[j].first, b.den[j].second)); j++; }
            else
            {
                int ea = a.den[i].second, eb = b.den[j].second, m = std::max(ea, eb);
                r.den.push_back({a.den[i].first, m});
                if (m > ea) ma = pmul(ma, fpow(a.den[i].first, m - ea));
                if (m > eb) mb = pmul(mb, fpow(b.den[j].first, m - eb));
                i++; j++;
            }
        }
        r.num = padd(pmul(a.num, ma), pmul(b.num, mb), sgn);
    }
    rcancel(r);
    return r;
}
inline Den dmul(const Den& a, const Den& b)
{
    Den r; size_t i = 0, j = 0;
    while (i < a.size() || j < b.size())
    {
        if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
        else if (i >= a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
        else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; }
    }
    return r;
}
inline RatFun rmul(const RatFun& a, const RatFun& b)
{
    // cross-cancel before multiplying
    RatFun x{a.num, b.den}, y{b.num, a.den};
    if (!b.den.empty()) rcancel(x);
    if (!a.den.empty()) rcancel(y);
    RatFun r; r.num = pmul(x.num, y.num);
    if (r.num.zero()) return r;
    r.den = dmul(x.den, y.den);
    return r;
}
