// Arithmetic on symbolic values.
#pragma once
#include "value.h"
#include <cmath>

// ---- linear equalities of the current path, used as rewrite rules
struct Subst { std::map<int, Poly> m; };
inline Subst g_sub;

inline bool hasVar(const Poly& p, int v) { for (auto& t : p.t) for (int i = 0; i < t.m.n; i++) if (mvar(t.m.e[i]) == v) return true; return false; }
inline Poly psubst1(const Poly& p, int v, const Poly& e)
{
    Poly keepP, acc; std::map<int, Poly> byExp;
    for (auto& t : p.t)
    {
        int ex = 0; Mono m;
        for (int i = 0; i < t.m.n; i++) { if (mvar(t.m.e[i]) == v) ex = mexp(t.m.e[i]); else m.e[m.n++] = t.m.e[i]; }
        if (!ex) keepP.t.push_back(t); else { Poly one; one.t.push_back({m, t.c}); byExp[ex] = padd(byExp[ex], one, 1); }
    }
    acc = keepP;
    for (auto& kv : byExp)
    {
        Poly pw(mpq_class(1)); for (int i = 0; i < kv.first; i++) pw = pmul(pw, e);
        acc = padd(acc, pmul(kv.second, pw), 1);
    }
    return acc;
}
inline Poly psub(const Poly& p)
{
    if (g_sub.m.empty()) return p;
    Poly r = p;
    for (auto& kv : g_sub.m) if (hasVar(r, kv.first)) r = psubst1(r, kv.first, kv.second);
    return r;
}
inline void learnEq(const Poly& p0)
{
    Poly p = psub(p0);
    // a variable with a constant coefficient that occurs in no other monomial; prefer the latest variable
    int best = -1; mpq_class bc;
    for (auto& t : p.t)
    {
        if (t.m.n != 1 || mexp(t.m.e[0]) != 1) continue;
        int v = mvar(t.m.e[0]); int cnt = 0;
        for (auto& u : p.t) for (int i = 0; i < u.m.n; i++) if (mvar(u.m.e[i]) == v) cnt++;
        if (cnt == 1 && v > best) { best = v; bc = t.c; }
    }
    if (best < 0 || p.t.size() > 12) return;
    Poly e;
    for (auto& t : p.t) if (!(t.m.n == 1 && mvar(t.m.e[0]) == best)) e.t.push_back({t.m, -t.c / bc});
    for (auto& kv : g_sub.m) kv.second = psubst1(kv.second, best, e);
    g_sub.m[best] = e;
}
// a value under the equalities of the path
inline RatFun toRatS(const Val& v)
{
    RatFun r = toRat(v);
    if (g_sub.m.empty() || v.k == REAL) return r;
    auto touched = [](const Poly& p) { for (auto& kv : g_sub.m) if (hasVar(p, kv.first)) return true; return false; };
    bool ch = touched(r.num);
    if (ch) r.num = psub(r.num);
    Den d; mpq_class scale = 1; bool dch = false;
    for (auto& f : r.den)
    {
        if (!touched(g_fac.p[f.first])) { d.push_back(f); continue; }
        dch = true;
        Poly g = psub(g_fac.p[f.first]);
        if (g.zero()) return toRat(v); // contradicts the path; left to the solver
        if (g.isConst()) { for (int i = 0; i < f.second; i++) scale /= g.constVal(); continue; }
        mpq_class c; Poly pr = pprim(g, c);
        if (c < 0) { pr = pscale(pr, -1); c = -c; } // factors are positive on the path: kept as positive multiples
        for (int i = 0; i < f.second; i++) scale /= c;
        d.push_back({g_fac.intern(pr), f.second});
    }
    if (dch)
    {
        std::sort(d.begin(), d.end()); Den m;
        for (auto& f : d) if (!m.empty() && m.back().first == f.first) m.back().second += f.second; else m.push_back(f);
        r.den = m; r.num = pscale(r.num, scale);
    }
    if (ch || dch) rcancel(r);
    return r;
}
inline Cons* signCons(const Poly& raw, uint8_t mask, int& known);
inline std::set<int> g_asked; // per path: polynomials for which the answer was no
// is the polynomial known to be non-negative on this path? The answer is part of the recorded decisions, so that re-execution stays aligned.
inline int signByShape(const Poly& p);
inline bool askNonneg(const Poly& raw)
{
    Poly n = psub(raw);
    if (n.isConst()) return sgn(n.constVal()) >= 0;
    if (signByShape(n) == 1) return true;
    int known; Cons* c = signCons(n, S_NEG, known);
    if (known >= 0) return known == 0;
    int key = c->fid * 2 + (c->mask == S_NEG);
    if (g_asked.count(key)) return false;
    if (P.pos < P.dec.size()) { bool y = P.dec[P.pos++].choice == 1; if (y) learn(negCons(c)); else g_asked.insert(key); return y; }
    bool ok = evalCons(c, P.model) != 1 && checkSat({c}, nullptr, false, 1000) == 0;
    P.dec.push_back({ok ? 1 : 0, true, "nonneg"}); P.pos++;
    if (ok) learn(negCons(c)); else g_asked.insert(key);
    return ok;
}
inline bool isNN(const Val& v) { return v.k == REAL ? sgn(v.b->q) >= 0 : v.k == RAT && (v.b->sos || signByShape(v.b->r.num) == 1); }
// condition for a non-negative value to be zero, from its structure
inline Z3_ast zeroAst(const Val& v, std::map<Box*, Z3_ast>& memo, int& budget)
{
    if (v.k == REAL) return sgn(v.b->q) == 0 ? Z3_mk_true(Z) : Z3_mk_false(Z);
    auto it = memo.find(v.b.p); if (it != memo.end()) return it->second;
    Z3_ast r;
    if (v.b->op && budget-- > 0)
    {
        std::vector<Z3_ast> a;
        for (auto& x : v.b->parts) a.push_back(zeroAst(x, memo, budget));
        r = v.b->op == '+' ? Z3_mk_and(Z, a.size(), a.data()) : Z3_mk_or(Z, a.size(), a.data());
    }
    else
    {
        Poly n = psub(v.b->r.num);
        if (n.isConst()) r = sgn(n.constVal()) == 0 ? Z3_mk_true(Z) : Z3_mk_false(Z);
        else { mpq_class f; Poly pr = pprim(n, f); r = polyCons(g_fac.intern(pr), S_ZERO)->ast; }
    }
    memo[v.b.p] = r; return r;
}
// a value that is non-negative by construction: learn that it is positive where its structure shows it
inline void learnPositive(const Val& v)
{
    if (v.k != RAT || !v.b->sos) return;
    Poly p = psub(v.b->r.num);
    if (p.isConst()) return;
    mpq_class f; Poly pr = pprim(p, f); int fid = g_fac.intern(pr);
    uint8_t pos = f > 0 ? S_POS : S_NEG;
    auto it = P.facts.find(fid);
    if (it == P.facts.end() || (it->second & ~(pos | S_ZERO))) learn(polyCons(fid, pos | S_ZERO));
    it = P.facts.find(fid);
    if (!(it->second & S_ZERO) || !v.b->op) return;
    int key = -1 - fid;
    if (g_asked.count(key)) return;
    bool y;
    if (P.pos < P.dec.size()) y = P.dec[P.pos++].choice == 1;
    else
    {
        std::map<Box*, Z3_ast> memo; int budget = 20000;
        Cons* c = astCons(zeroAst(v, memo, budget), true);
        y = checkSat({c}, nullptr, false, 2000) == 0;
        P.dec.push_back({y ? 1 : 0, true, "positive"}); P.pos++;
    }
    if (y) learn(polyCons(fid, pos)); else g_asked.insert(key);
}
struct SignQ { bool known; int sign; int fid; int flip; }; // flip: sign(value) = flip * sign(prim)
inline std::vector<char> g_nonneg; // var is known >= 0 from its declared range (shared by all paths)
// sign by inspection: all variables non-negative and all coefficients of one sign
inline int signByShape(const Poly& p)
{
    int s = 0;
    for (auto& t : p.t) { int c = sgn(t.c); if (s == 0) s = c; else if (s != c) return 0; }
    for (auto& t : p.t) for (int i = 0; i < t.m.n; i++)
    {
        int v = mvar(t.m.e[i]);
        if (mexp(t.m.e[i]) % 2 == 1 && !(v < (int)g_nonneg.size() && g_nonneg[v])) return 0;
    }
    return s; // >=0 if 1, <=0 if -1
}
inline Cons* signCons(const Poly& raw, uint8_t mask, int& known)
{
    Poly p = psub(raw);
    known = -1;
    if (p.isConst()) { int s = sgn(p.constVal()); known = (mask & (s < 0 ? S_NEG : s == 0 ? S_ZERO : S_POS)) ? 1 : 0; return nullptr; }
    mpq_class f; Poly pr = pprim(p, f);
    if (f < 0) mask = uint8_t((mask & S_ZERO) | (mask & S_NEG ? S_POS : 0) | (mask & S_POS ? S_NEG : 0));
    int fid = g_fac.intern(pr);
    auto it = P.facts.find(fid);
    uint8_t can = it == P.facts.end() ? 7 : it->second;
    if (!(can & ~mask)) { known = 1; return nullptr; }
    if (!(can & mask)) { known = 0; return nullptr; }
    return polyCons(fid, mask);
}
inline void onChosen(Cons* c) { if (c->fid >= 0 && c->mask == S_ZERO) learnEq(g_fac.p[c->fid]); }
// decide the sign of a polynomial on this path: -1, 0, 1
inline int decideSign(const Poly& raw)
{
    Poly p = psub(raw);
    if (p.isConst()) return sgn(p.constVal());
    mpq_class f; Poly pr = pprim(p, f);
    int fl = f < 0 ? -1 : 1;
    int fid = g_fac.intern(pr);
    auto it = P.facts.find(fid);
    uint8_t can = it == P.facts.end() ? 7 : it->second;
    if (can == S_NEG) return -fl;
    if (can == S_POS) return fl;
    if (can == S_ZERO) return 0;
    std::vector<Cons*> alts; std::vector<int> sg;
    if (can & S_POS) { alts.push_back(polyCons(fid, S_POS)); sg.push_back(1); }
    if (can & S_ZERO) { alts.push_back(polyCons(fid, S_ZERO)); sg.push_back(0); }
    if (can & S_NEG) { alts.push_back(polyCons(fid, S_NEG)); sg.push_back(-1); }
    int ch = choose(alts);
    onChosen(alts[ch]);
    return sg[ch] * fl;
}
inline bool decideBool(const Val& v)
{
    if (v.k == INT) return v.i & 1;
    if (v.k == SBOOL)
    {
        std::vector<Cons*> alts{v.c, negCons(v.c)};
        int ch = choose(alts); onChosen(alts[ch]);
        return ch == 0;
    }
    if (v.k == SINT)
    {
        Cons* c = astCons(Z3_mk_eq(Z, v.ast, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1))));
        return choose({c, negCons(c)}) == 0;
    }
    throw Unsupported("condition of unexpected kind");
}
inline int specSign(const Val& v) { return std::signbit(v.d) ? -1 : 1; }
inline bool isNan(const Val& v) { return v.k == SPEC && v.d != v.d; }

inline Z3_ast fpAst(const Val& v)
{
    if (v.k == FPZ) return v.ast;
    if (v.k == FPC) return keep(Z3_mk_fpa_numeral_double(Z, v.d, FPSort));
    throw Unsupported("not a float value");
}
inline Val fpSimp(Z3_ast a)
{
    Z3_inc_ref(Z, a); return mkFpz(a);
}
inline bool sameRat(const RatFun& x, const RatFun& y)
{
    if (x.den != y.den || x.num.t.size() != y.num.t.size()) return false;
    for (size_t i = 0; i < x.num.t.size(); i++) if (mcmp(x.num.t[i].m, y.num.t[i].m) != 0 || x.num.t[i].c != y.num.t[i].c) return false;
    return true;
}
inline Val fbin(char op, const Val& a, const Val& b)
{
    if (a.k == UNDEF || b.k == UNDEF) return mkUndef();
    if (g_fpMode)
    {
        if (a.k == FPC && b.k == FPC)
        {
            switch (op) { case '+': return mkFpc(a.d + b.d); case '-': return mkFpc(a.d - b.d); case '*': return mkFpc(a.d * b.d); case '/': return mkFpc(a.d / b.d); case '%': return mkFpc(std::fmod(a.d, b.d)); }
        }
        Z3_ast x = fpAst(a), y = fpAst(b);
        switch (op)
        {
        case '+': return fpSimp(Z3_mk_fpa_add(Z, RNE, x, y));
        case '-': return fpSimp(Z3_mk_fpa_sub(Z, RNE, x, y));
        case '*': return fpSimp(Z3_mk_fpa_mul(Z, RNE, x, y));
        case '/': return fpSimp(Z3_mk_fpa_div(Z, RNE, x, y));
        }
        throw Unsupported("fp op");
    }
    if (a.k == SPEC || b.k == SPEC)
    {
        if (isNan(a) || isNan(b)) return mkSpec(NAN);
        if (op == '-') { Val nb = b; if (b.k == SPEC) nb.d = -b.d; else return a; if (a.k == SPEC) return mkSpec(a.d + nb.d); return nb; }
        if (op == '+') { if (a.k == SPEC && b.k == SPEC) return mkSpec(a.d + b.d); return a.k == SPEC ? a : b; }
        auto sg = [](const Val& v) { return v.k == SPEC ? specSign(v) : decideSign(toRat(v).num); };
        if (op == '*') { int s = sg(a) * sg(b); return s == 0 ? mkSpec(NAN) : mkSpec(s > 0 ? INFINITY : -INFINITY); }
        if (op == '/')
        {
            if (a.k == SPEC && b.k == SPEC) return mkSpec(NAN);
            if (b.k == SPEC) return mkReal(0);
            int s = sg(b); if (s == 0) s = 1;
            return mkSpec(specSign(a) * s > 0 ? INFINITY : -INFINITY);
        }
        throw Unsupported("special float op");
    }
    if (a.k == REAL && b.k == REAL)
    {
        const mpq_class &x = a.b->q, &y = b.b->q;
        switch (op)
        {
        case '+': return mkReal(x + y);
        case '-': return mkReal(x - y);
        case '*': return mkReal(x * y);
        case '/':
            if (y == 0) return mkSpec(x == 0 ? NAN : x > 0 ? INFINITY : -INFINITY);
            return mkReal(x / y);
        }
        throw Unsupported("real op");
    }
    // cheap identities
    if (op == '+' && a.k == REAL && a.b->q == 0) return b;
    if ((op == '+' || op == '-') && b.k == REAL && b.b->q == 0) return a;
    if (op == '*' && ((a.k == REAL && a.b->q == 0) || (b.k == REAL && b.b->q == 0))) return mkReal(0);
    if (op == '*' && a.k == REAL && a.b->q == 1) return b;
    if ((op == '*' || op == '/') && b.k == REAL && b.b->q == 1) return a;
    RatFun x = toRatS(a), y = toRatS(b);
    if (op == '+')
    {
        Val v = mkRat(radd(x, y, 1));
        if (v.k == RAT && isNN(a) && isNN(b)) { v.b->sos = true; v.b->op = '+'; v.b->parts = {a, b}; }
        return v;
    }
    if (op == '-') { Val v = mkRat(radd(x, y, -1)); if (v.k == RAT && v.b->r.num.degree() <= 1) v.b->sos = askNonneg(v.b->r.num); return v; }
    if (op == '*')
    {
        Val v = mkRat(rmul(x, y));
        if (v.k == RAT)
        {
            if (isNN(a) && isNN(b)) { v.b->sos = true; v.b->op = '*'; v.b->parts = {a, b}; }
            else v.b->sos = a.b.p == b.b.p || sameRat(x, y);
        }
        return v;
    }
    if (op == '/')
    {
        if (b.k == REAL)
        {
            if (b.b->q == 0) { int s = decideSign(x.num); return mkSpec(s == 0 ? NAN : s > 0 ? INFINITY : -INFINITY); }
            x.num = pscale(x.num, 1 / b.b->q);
            Val v = mkRat(x);
            if (v.k == RAT && b.b->q > 0 && isNN(a)) { v.b->sos = true; v.b->op = '*'; v.b->parts = {a}; }
            return v;
        }
        learnPositive(b);
        int s = decideSign(y.num);
        if (s == 0)
        {
            int sx = decideSign(x.num);
            return mkSpec(sx == 0 ? NAN : sx > 0 ? INFINITY : -INFINITY);
        }
        // x / y = x * den(y) / num(y)
        RatFun inv;
        Poly yn = psub(y.num);
        mpq_class f; Poly pr = pprim(yn, f);
        int prs = s * (f < 0 ? -1 : 1);
        if (prs < 0) { pr = pscale(pr, -1); f = -f; }
        inv.num = Poly(1 / f);
        if (!pr.isConst()) inv.den.push_back({g_fac.intern(pr), 1});
        else inv.num = Poly(1 / (f * pr.constVal()));
        // cancel equal factors of den(x) and den(y)
        RatFun xx = x; Den rest;
        for (auto& fd : y.den)
        {
            int e = fd.second;
            for (size_t i = 0; i < xx.den.size(); i++) if (xx.den[i].first == fd.first)
            {
                int c = std::min(e, xx.den[i].second); xx.den[i].second -= c; e -= c;
                if (xx.den[i].second == 0) xx.den.erase(xx.den.begin() + i);
                break;
            }
            if (e) rest.push_back({fd.first, e});
        }
        RatFun r = rmul(xx, inv);
        for (auto& fd : rest) { RatFun m; m.num = fpow(fd.first, fd.second); r = rmul(r, m); }
        Val v = mkRat(r);
        if (v.k == RAT && s > 0 && isNN(a)) { v.b->sos = true; v.b->op = '*'; v.b->parts = {a}; }
        return v;
    }
    throw Unsupported("real op");
}
inline Val fneg(const Val& a)
{
    switch (a.k)
    {
    case UNDEF: return a;
    case FPC: return mkFpc(-a.d);
    case FPZ: return fpSimp(Z3_mk_fpa_neg(Z, a.ast));
    case SPEC: return mkSpec(-a.d);
    case REAL: return mkReal(-a.b->q);
    case RAT: { RatFun r = a.b->r; r.num = pscale(r.num, -1); return mkRat(r); }
    default: throw Unsupported("fneg");
    }
}
// sign mask of a-b that makes the (ordered part of the) predicate true
inline uint8_t predMask(unsigned p) // LLVM FCmp numbering: bit0 EQ(1) bit1 GT(2) bit2 LT(4) bit3 UNO(8)
{
    return uint8_t((p & 1 ? S_ZERO : 0) | (p & 2 ? S_POS : 0) | (p & 4 ? S_NEG : 0));
}
inline std::map<int, Val> g_acosArg; // per path
inline const Val* acosArg(const Val& v)
{
    if (v.k != RAT || !v.b->r.den.empty() || v.b->r.num.t.size() != 1) return nullptr;
    auto& t = v.b->r.num.t[0];
    if (t.c != 1 || t.m.n != 1 || mexp(t.m.e[0]) != 1) return nullptr;
    auto it = g_acosArg.find(mvar(t.m.e[0])); return it == g_acosArg.end() ? nullptr : &it->second;
}
inline Val fcmp(unsigned p, const Val& a, const Val& b)
{
    if (!g_acosArg.empty()) { const Val *x = acosArg(a), *y = acosArg(b); if (x && y) return fcmp(p, *y, *x); }
    if (p == 0) return mkInt(0, 1);
    if (p == 15) return mkInt(1, 1);
    if (a.k == UNDEF || b.k == UNDEF) return mkUndef();
    uint8_t m = predMask(p);
    if (g_fpMode)
    {
        if (a.k == FPC && b.k == FPC)
        {
            if (a.d != a.d || b.d != b.d) return mkInt(p & 8 ? 1 : 0, 1);
            int s = a.d < b.d ? S_NEG : a.d == b.d ? S_ZERO : S_POS;
            return mkInt(m & s ? 1 : 0, 1);
        }
        Z3_ast x = fpAst(a), y = fpAst(b);
        std::vector<Z3_ast> o;
        if (m & S_ZERO && m & S_NEG) o.push_back(Z3_mk_fpa_leq(Z, x, y));
        else if (m & S_ZERO && m & S_POS) o.push_back(Z3_mk_fpa_geq(Z, x, y));
        else if (m & S_ZERO) o.push_back(Z3_mk_fpa_eq(Z, x, y));
        else { if (m & S_NEG) o.push_back(Z3_mk_fpa_lt(Z, x, y)); if (m & S_POS) o.push_back(Z3_mk_fpa_gt(Z, x, y)); }
        if (m == 7) { o.clear(); Z3_ast nn[2] = {Z3_mk_not(Z, Z3_mk_fpa_is_nan(Z, x)), Z3_mk_not(Z, Z3_mk_fpa_is_nan(Z, y))}; o.push_back(Z3_mk_and(Z, 2, nn)); }
        if (p & 8) { o.push_back(Z3_mk_fpa_is_nan(Z, x)); o.push_back(Z3_mk_fpa_is_nan(Z, y)); }
        Z3_ast r = o.size() == 1 ? o[0] : Z3_mk_or(Z, o.size(), o.data());
        Z3_inc_ref(Z, r);
        Z3_ast s = Z3_simplify(Z, r); Z3_inc_ref(Z, s);
        Z3_lbool bv = Z3_get_bool_value(Z, s);
        if (bv == Z3_L_TRUE) return mkInt(1, 1);
        if (bv == Z3_L_FALSE) return mkInt(0, 1);
        return mkBool(astCons(s));
    }
    if (isNan(a) || isNan(b)) return mkInt(p & 8 ? 1 : 0, 1);
    if (m == 7) return mkInt(1, 1);
    if (m == 0) return mkInt(0, 1);
    if (a.k == SPEC || b.k == SPEC)
    {
        double x = a.k == SPEC ? a.d : 0, y = b.k == SPEC ? b.d : 0;
        int s = x < y ? S_NEG : x == y ? S_ZERO : S_POS;
        return mkInt(m & s ? 1 : 0, 1);
    }
    if (a.k == REAL && b.k == REAL)
    {
        int c = cmp(a.b->q, b.b->q);
        int s = c < 0 ? S_NEG : c == 0 ? S_ZERO : S_POS;
        return mkInt(m & s ? 1 : 0, 1);
    }
    if (a.k == RAT && b.k == REAL && b.b->q == 0) learnPositive(a);
    if (b.k == RAT && a.k == REAL && a.b->q == 0) learnPositive(b);
    RatFun d = radd(toRatS(a), toRatS(b), -1);
    int known; Cons* c = signCons(d.num, m, known);
    if (known >= 0) return mkInt(known, 1);
    return mkBool(c);
}
inline Val fabsV(const Val& a)
{
    switch (a.k)
    {
    case UNDEF: return a;
    case FPC: return mkFpc(std::fabs(a.d));
    case FPZ: return fpSimp(Z3_mk_fpa_abs(Z, a.ast));
    case SPEC: return mkSpec(std::fabs(a.d));
    case REAL: return mkReal(abs(a.b->q));
    case RAT: { int s = decideSign(a.b->r.num); return s < 0 ? fneg(a) : s == 0 ? mkReal(0) : a; }
    default: throw Unsupported("fabs");
    }
}
// perfect square root of a polynomial, if it has one
inline bool psqrt(const Poly& p, Poly& r)
{
    r = Poly();
    if (p.zero()) return true;
    Poly rem = p;
    auto rootTerm = [](const Term& t, Term& o) {
        if (t.c < 0) return false;
        mpz_class n = sqrt(t.c.get_num()), d = sqrt(t.c.get_den());
        if (n * n != t.c.get_num() || d * d != t.c.get_den()) return false;
        o.c = mpq_class(n, d); o.m = Mono{};
        for (int i = 0; i < t.m.n; i++) { if (mexp(t.m.e[i]) & 1) return false; o.m.e[o.m.n++] = uint16_t(mvar(t.m.e[i]) << 6 | mexp(t.m.e[i]) / 2); }
        return true;
    };
    Term lead;
    if (!rootTerm(p.t[0], lead)) return false;
    r.t.push_back(lead);
    rem = padd(rem, pmul(r, r), -1);
    for (int it = 0; it < 200 && !rem.zero(); it++)
    {
        Mono q; 
        if (!mdiv(rem.t[0].m, lead.m, q)) return false;
        Poly t; t.t.push_back({q, rem.t[0].c / (2 * lead.c)});
        if (mcmp(q, r.t.back().m) >= 0) return false;
        Poly twice = pscale(r, 2);
        rem = padd(rem, pmul(t, padd(twice, t, 1)), -1);
        r = padd(r, t, 1);
    }
    return rem.zero();
}
inline int g_defCount = 0; // per path
inline int newDef(const char* pfx, bool nonneg)
{
    // separate names by sign class so that the shape rule stays valid for every path
    std::string nm = std::string("!") + pfx + std::to_string(g_defCount++);
    int v = getVar(nm, 0, false);
    if ((int)g_nonneg.size() <= v) g_nonneg.resize(v + 1, 0);
    if (nonneg) g_nonneg[v] = 1;
    return v;
}
inline void assertPoly(const Poly& p, uint8_t mask)
{
    int known; Cons* c = signCons(p, mask, known);
    if (known == 0) throw PathEnd{"infeasible"};
    if (known == 1) return;
    addCons(c);
}
inline void modelDef(int v, const mpq_class* q) { if (q) P.model.set(v, *q); else P.model.unset(v); }
inline bool evalRat(const RatFun& r, const Model& m, mpq_class& out)
{
    mpq_class n; if (!evalPoly(r.num, m, n)) return false;
    for (auto& f : r.den) { mpq_class d; if (!evalPoly(g_fac.p[f.first], m, d) || d == 0) return false; for (int i = 0; i < f.second; i++) n /= d; }
    out = n; return true;
}
inline Poly denPoly(const Den& d) { Poly r(mpq_class(1)); for (auto& f : d) r = pmul(r, fpow(f.first, f.second)); return r; }
inline std::map<std::string, int> g_sqrtCache; // per path
inline Val sqrtV(const Val& a)
{
    switch (a.k)
    {
    case UNDEF: return a;
    case FPC: return mkFpc(std::sqrt(a.d));
    case FPZ: return fpSimp(Z3_mk_fpa_sqrt(Z, RNE, a.ast));
    case SPEC: return mkSpec(std::sqrt(a.d));
    default: break;
    }
    RatFun r = toRatS(a);
    Poly D = denPoly(r.den), s1, s2;
    if (psqrt(r.num, s1) && psqrt(D, s2))
    {
        if (s1.zero()) return mkReal(0);
        int sg = decideSign(s1);
        Val n = mkRat(RatFun{sg < 0 ? pscale(s1, -1) : s1, {}});
        if (sg == 0) return mkReal(0);
        if (s2.isConst()) return fbin('/', n, mkReal(abs(s2.constVal())));
        Val dd = mkRat(RatFun{s2, {}});
        return fabsV(fbin('/', n, dd));
    }
    if (!a.b->sos && signByShape(r.num) != 1)
    {
        // sums of squares are not recognised by shape: ask
        int known; Cons* c = signCons(r.num, S_NEG, known);
        bool neg = false;
        if (known == 1) neg = true;
        else if (known < 0)
        {
            mpq_class q; bool byM = evalPoly(r.num, P.model, q);
            (void)byM;
            // every term a square with positive coefficient?
            bool sos = true;
            for (auto& t : r.num.t) { if (sgn(t.c) < 0) sos = false; }
            if (!sos) { std::vector<Cons*> alts{negCons(c), c}; neg = choose(alts) == 1; }
            else { std::vector<Cons*> alts{negCons(c), c}; neg = choose(alts) == 1; }
        }
        if (neg) return mkSpec(NAN);
    }
    std::string key = pkey(r.num) + "/" + pkey(D);
    auto it = g_sqrtCache.find(key);
    if (it != g_sqrtCache.end()) return mkRat(RatFun{Poly::var(it->second), {}});
    int v = newDef("sq", true);
    g_sqrtCache[key] = v;
    Poly pv = Poly::var(v);
    mpq_class q; bool have = evalRat(r, P.model, q);
    if (have)
    {
        mpz_class n = sqrt(q.get_num()), d = sqrt(q.get_den());
        have = q >= 0 && n * n == q.get_num() && d * d == q.get_den();
        if (have) { mpq_class s(n, d); modelDef(v, &s); }
    }
    if (!have) modelDef(v, nullptr);
    assertPoly(pv, S_ZERO | S_POS);
    assertPoly(padd(pmul(pmul(pv, pv), D), r.num, -1), S_ZERO);
    return mkRat(RatFun{pv, {}});
}
// max / min without a case split
inline Val lazyMax(const Val& a, const Val& b, bool isMax)
{
    RatFun x = toRat(a), y = toRat(b);
    bool nn = false;
    {
        auto nonneg = [](const Val& v, const RatFun& r) { return isNN(v) || askNonneg(r.num); };
        nn = isMax ? (nonneg(a, x) || nonneg(b, y)) : (nonneg(a, x) && nonneg(b, y));
    }
    int v = newDef(nn ? "mxp" : "mx", nn);
    Poly pv = Poly::var(v);
    mpq_class qa, qb; bool have = evalRat(x, P.model, qa) && evalRat(y, P.model, qb);
    if (have) { mpq_class q = isMax ? std::max(qa, qb) : std::min(qa, qb); modelDef(v, &q); } else modelDef(v, nullptr);
    RatFun m{pv, {}};
    RatFun d1 = radd(m, x, -1), d2 = radd(m, y, -1);
    uint8_t k = isMax ? (S_ZERO | S_POS) : (S_ZERO | S_NEG);
    assertPoly(d1.num, k); assertPoly(d2.num, k);
    if (nn) assertPoly(pv, S_ZERO | S_POS);
    assertPoly(pmul(d1.num, d2.num), S_ZERO);
    return mkRat(m);
}
