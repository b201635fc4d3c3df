// Symbolic values and the byte-addressed memory of one execution path.
#pragma once
#include "solver.h"

enum VK : uint8_t { UNDEF, INT, SINT, SBOOL, REAL, RAT, SPEC, FPC, FPZ, AGG };

struct Val;
struct Box
{
    int rc = 0; bool sos = false; // sos: known to be non-negative (sum of squares)
    mpq_class q; RatFun r; std::vector<Val> agg;
    std::vector<Val> parts; char op = 0; // of a non-negative value: its non-negative summands ('+') or factors ('*')
};
struct Ref
{
    Box* p = nullptr;
    Ref() = default;
    explicit Ref(Box* b) : p(b) { if (p) p->rc++; }
    Ref(const Ref& o) : p(o.p) { if (p) p->rc++; }
    Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
    Ref& operator=(const Ref& o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
    Ref& operator=(Ref&& o) noexcept { if (this != &o) { drop(); p = o.p; o.p = nullptr; } return *this; }
    ~Ref() { drop(); }
    void drop();
    Box* operator->() const { return p; }
    explicit operator bool() const { return p; }
};
struct Val
{
    VK k = UNDEF; uint8_t w = 0;
    union { uint64_t i; double d; Z3_ast ast; Cons* c; };
    Ref b;
    Val() { i = 0; }
};
inline void Ref::drop() { if (p && --p->rc == 0) delete p; p = nullptr; }

inline uint64_t maskw(uint64_t v, unsigned w) { return w >= 64 ? v : (v & ((1ull << w) - 1)); }
inline int64_t sext(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v = maskw(v, w); return (int64_t)((v ^ m) - m); }
inline Val mkInt(uint64_t v, unsigned w) { Val x; x.k = INT; x.w = (uint8_t)w; x.i = maskw(v, w); return x; }
inline Val mkUndef() { return Val(); }
inline Val mkReal(const mpq_class& q) { Val x; x.k = REAL; x.b = Ref(new Box); x.b->q = q; return x; }
inline Val mkRat(RatFun r)
{
    if (r.den.empty() && r.num.isConst()) return mkReal(r.num.constVal());
    Val x; x.k = RAT; x.b = Ref(new Box); x.b->r = std::move(r); return x;
}
inline Val mkSpec(double d) { Val x; x.k = SPEC; x.d = d; return x; }
inline Val mkFpc(double d) { Val x; x.k = FPC; x.d = d; return x; }
inline Val mkFpz(Z3_ast a) { Val x; x.k = FPZ; x.ast = keep(a); return x; }
inline Val mkAgg(std::vector<Val> v) { Val x; x.k = AGG; x.b = Ref(new Box); x.b->agg = std::move(v); return x; }
inline Val mkBool(Cons* c) { Val x; x.k = SBOOL; x.w = 1; x.c = c; return x; }
inline mpq_class dToQ(double d) { mpq_class q; mpq_set_d(q.get_mpq_t(), d); return q; }
inline Val mkDouble(double d)
{
    if (g_fpMode) return mkFpc(d);
    if (d != d || d - d != d - d) return mkSpec(d);
    return mkReal(dToQ(d));
}
inline Val mkSint(Z3_ast a, unsigned w)
{
    Z3_inc_ref(Z, a);
    Z3_ast s = Z3_simplify(Z, a); Z3_inc_ref(Z, s);
    if (Z3_get_ast_kind(Z, s) == Z3_NUMERAL_AST)
    {
        uint64_t v = 0; 
        if (Z3_get_numeral_uint64(Z, s, &v)) return mkInt(v, w);
    }
    Val x; x.k = SINT; x.w = (uint8_t)w; x.ast = s; return x;
}
inline RatFun toRat(const Val& v)
{
    if (v.k == REAL) { RatFun r; r.num = Poly(v.b->q); return r; }
    if (v.k == RAT) return v.b->r;
    throw Unsupported("not a real value");
}
// nearest double
inline double qToD(const mpq_class& q)
{
    double d = q.get_d(); // truncates
    if (d == 0 && q == 0) return 0;
    double up = __builtin_nextafter(d, sgn(q) > 0 ? 1e400 : -1e400);
    if (up - up != 0) return d;
    mpq_class a = abs(q - dToQ(d)), b = abs(dToQ(up) - q);
    return b < a ? up : d;
}

// ---------------------------------------------------------------- memory
enum : uint8_t { B_UNINIT = 0, B_CONC = 1, B_HEAD = 2, B_CONT = 3 };
struct MemObj
{
    uint32_t size = 0; bool alive = true, ro = false; uint8_t kind = 0; // 0 heap, 1 stack, 2 global
    uint32_t baseOff = 0;
    std::vector<uint8_t> b, st;
    std::map<uint32_t, std::pair<Val, uint32_t>> cells;
    void init(uint32_t n, uint8_t k) { size = n; kind = k; b.assign(n, 0); st.assign(n, B_UNINIT); }
};
