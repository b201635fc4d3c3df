// Path constraints, branch decisions and SMT queries (z3).
#pragma once
#include "poly.h"
#include <z3.h>
#include <chrono>
#include <set>
#include <memory>
#include <deque>

struct PathEnd { std::string why; };       // path finished (infeasible, stopped)
struct BudgetOut { std::string why; };     // whole scenario out of budget

enum : uint8_t { S_NEG = 1, S_ZERO = 2, S_POS = 4 };

inline Z3_context Z = nullptr;
inline Z3_sort RealSort, FPSort; inline Z3_ast RNE;
inline bool g_fpMode = false;

struct VarInfo { std::string name; Z3_ast ast; bool input; int kind; /*0 real,1 bv,2 fp*/ int width; };
inline std::vector<VarInfo> g_vars;                       // shared by all kinds
inline std::unordered_map<std::string, int> g_varByName;
inline std::unordered_map<unsigned, int> g_varByAst;      // ast id -> var

struct Cons
{
    Z3_ast ast = nullptr;
    std::vector<int> vars;
    bool nonlin = false, other = false; // other: bit-vectors / floats / boolean structure
    int fid = -1; uint8_t mask = 0;     // polynomial sign condition
};

inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Stats
{
    uint64_t paths = 0, forks = 0, instrs = 0, q_sat = 0, q_unsat = 0, q_unknown = 0, vc_total = 0, vc_trivial = 0, vc_proved = 0,
             vc_failed = 0, vc_unknown = 0, identities = 0, infeasible = 0, id_big = 0;
    double solver_s = 0;
    uint64_t maxTerms = 0;
};
inline Stats g_st;
inline unsigned g_qTimeout = 3000, g_vcTimeout = 20000;
inline double g_deadline = 1e300;

inline Z3_ast mkRat(const mpq_class& q)
{
    std::string s = q.get_str();
    return Z3_mk_numeral(Z, s.c_str(), RealSort);
}
inline int getVar(const std::string& name, int kind, bool input, int width = 0)
{
    auto it = g_varByName.find(name);
    if (it != g_varByName.end()) return it->second;
    int id = (int)g_vars.size();
    if (id >= 1023) throw Unsupported("too many variables");
    Z3_sort s = kind == 0 ? RealSort : kind == 1 ? Z3_mk_bv_sort(Z, width) : Z3_mk_bv_sort(Z, 64);
    Z3_ast a = Z3_mk_const(Z, Z3_mk_string_symbol(Z, name.c_str()), s);
    Z3_inc_ref(Z, a);
    g_vars.push_back({name, a, input, kind, width});
    g_varByName[name] = id;
    g_varByAst[Z3_get_ast_id(Z, a)] = id;
    return id;
}
inline Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
inline Z3_ast polyAst(const Poly& p)
{
    if (p.zero()) return mkRat(0);
    std::vector<Z3_ast> sum;
    for (auto& t : p.t)
    {
        std::vector<Z3_ast> pr;
        if (t.c != 1 || t.m.n == 0) pr.push_back(mkRat(t.c));
        for (int i = 0; i < t.m.n; i++)
            for (int e = 0; e < mexp(t.m.e[i]); e++) pr.push_back(g_vars[mvar(t.m.e[i])].ast);
        sum.push_back(pr.size() == 1 ? pr[0] : Z3_mk_mul(Z, pr.size(), pr.data()));
        keep(sum.back());
    }
    return keep(sum.size() == 1 ? sum[0] : Z3_mk_add(Z, sum.size(), sum.data()));
}
struct FacInfo { Z3_ast ast = nullptr; std::vector<int> vars; bool nonlin = false; std::map<int, Cons*> cons; };
inline std::deque<FacInfo> g_facInfo;
inline FacInfo& facInfo(int fid)
{
    while ((int)g_facInfo.size() <= fid) g_facInfo.emplace_back();
    FacInfo& f = g_facInfo[fid];
    if (!f.ast)
    {
        const Poly& p = g_fac.p[fid];
        f.ast = polyAst(p);
        std::set<int> vs;
        for (auto& t : p.t) for (int i = 0; i < t.m.n; i++) vs.insert(mvar(t.m.e[i]));
        f.vars.assign(vs.begin(), vs.end());
        f.nonlin = p.degree() > 1;
        g_st.maxTerms = std::max<uint64_t>(g_st.maxTerms, p.t.size());
    }
    return f;
}
inline Cons* polyCons(int fid, uint8_t mask)
{
    FacInfo& f = facInfo(fid);
    auto it = f.cons.find(mask);
    if (it != f.cons.end()) return it->second;
    Cons* c = new Cons; c->fid = fid; c->mask = mask; c->vars = f.vars; c->nonlin = f.nonlin;
    Z3_ast z = mkRat(0), a = nullptr;
    switch (mask)
    {
    case 0: a = Z3_mk_false(Z); break;
    case 1: a = Z3_mk_lt(Z, f.ast, z); break;
    case 2: a = Z3_mk_eq(Z, f.ast, z); break;
    case 3: a = Z3_mk_le(Z, f.ast, z); break;
    case 4: a = Z3_mk_gt(Z, f.ast, z); break;
    case 5: a = Z3_mk_not(Z, Z3_mk_eq(Z, f.ast, z)); break;
    case 6: a = Z3_mk_ge(Z, f.ast, z); break;
    default: a = Z3_mk_true(Z);
    }
    c->ast = keep(a);
    f.cons[mask] = c;
    return c;
}
inline void collectVars(Z3_ast a, std::set<unsigned>& seen, std::set<int>& vs)
{
    unsigned id = Z3_get_ast_id(Z, a);
    if (!seen.insert(id).second) return;
    auto it = g_varByAst.find(id);
    if (it != g_varByAst.end()) { vs.insert(it->second); return; }
    if (Z3_get_ast_kind(Z, a) != Z3_APP_AST) return;
    Z3_app ap = Z3_to_app(Z, a);
    unsigned n = Z3_get_app_num_args(Z, ap);
    for (unsigned i = 0; i < n; i++) collectVars(Z3_get_app_arg(Z, ap, i), seen, vs);
}
inline Cons* astCons(Z3_ast a, bool nonlin = false)
{
    Cons* c = new Cons; c->ast = keep(a); c->other = true; c->nonlin = nonlin;
    std::set<unsigned> seen; std::set<int> vs; collectVars(a, seen, vs);
    c->vars.assign(vs.begin(), vs.end());
    return c;
}
inline Cons* negCons(Cons* c)
{
    if (c->fid >= 0) return polyCons(c->fid, 7 & ~c->mask);
    return astCons(Z3_mk_not(Z, c->ast), c->nonlin);
}
inline Cons* andCons(Cons* a, Cons* b, bool isOr)
{
    if (a->fid >= 0 && a->fid == b->fid) return polyCons(a->fid, isOr ? (a->mask | b->mask) : (a->mask & b->mask));
    Z3_ast x[2] = {a->ast, b->ast};
    return astCons(isOr ? Z3_mk_or(Z, 2, x) : Z3_mk_and(Z, 2, x), a->nonlin || b->nonlin);
}

struct Decision { int choice; bool implied; std::string payload; };

struct Model
{
    std::vector<char> has; std::vector<mpq_class> val;
    bool get(int v, mpq_class& q) const { if (v < (int)has.size() && has[v]) { q = val[v]; return true; } return false; }
    void set(int v, const mpq_class& q) { if ((int)has.size() <= v) { has.resize(v + 1, 0); val.resize(v + 1); } has[v] = 1; val[v] = q; }
    void unset(int v) { if (v < (int)has.size()) has[v] = 0; }
};

struct PathState
{
    std::vector<Cons*> cons;
    std::unordered_map<int, uint8_t> facts;
    Model model;
    std::vector<Decision> dec; size_t pos = 0;
    std::vector<Cons*> prefs; // well-conditioned values, wanted for witnesses only
    bool tainted = false; // some feasibility answer was "unknown"
};
inline PathState P;
struct Work { std::vector<Decision> dec; Model model; };
inline std::vector<Work> g_work;

inline bool evalPoly(const Poly& p, const Model& m, mpq_class& out)
{
    out = 0; mpq_class q, t, pw;
    for (auto& x : p.t)
    {
        t = x.c;
        for (int i = 0; i < x.m.n; i++)
        {
            if (!m.get(mvar(x.m.e[i]), q)) return false;
            pw = q; for (int e = 1; e < mexp(x.m.e[i]); e++) pw *= q;
            t *= pw;
        }
        out += t;
    }
    return true;
}
// -1 unknown, 0 false, 1 true
inline int evalCons(Cons* c, const Model& m)
{
    if (c->fid < 0) return -1;
    mpq_class v;
    if (!evalPoly(g_fac.p[c->fid], m, v)) return -1;
    int s = sgn(v);
    return (c->mask & (s < 0 ? S_NEG : s == 0 ? S_ZERO : S_POS)) ? 1 : 0;
}
inline bool parseNumeral(Z3_ast a, mpq_class& q)
{
    if (Z3_get_ast_kind(Z, a) != Z3_NUMERAL_AST) return false;
    if (Z3_is_algebraic_number(Z, a)) return false;
    try { q = mpq_class(Z3_get_numeral_string(Z, a)); q.canonicalize(); } catch (...) { return false; }
    return true;
}
struct Query { int res; Z3_model model = nullptr; };
// satisfiability of path constraints (sliced to those connected with the query) + extra
inline int checkSat(const std::vector<Cons*>& extra, Model* outModel, bool full, unsigned timeout, std::map<int, std::string>* raw = nullptr,
                    std::map<int, mpq_class>* approx = nullptr)
{
    if (now() > g_deadline) throw BudgetOut{"time"};
    std::vector<char> inv(g_vars.size(), 0);
    for (auto c : extra) for (int v : c->vars) inv[v] = 1;
    std::vector<char> used(P.cons.size(), full ? 1 : 0);
    if (!full)
    {
        bool ch = true;
        while (ch)
        {
            ch = false;
            for (size_t i = 0; i < P.cons.size(); i++)
            {
                if (used[i]) continue;
                bool hit = false;
                for (int v : P.cons[i]->vars) if (inv[v]) { hit = true; break; }
                if (!hit) continue;
                used[i] = 1; ch = true;
                for (int v : P.cons[i]->vars) inv[v] = 1;
            }
        }
    }
    else for (auto c : P.cons) for (int v : c->vars) inv[v] = 1;
    bool nonlin = false, other = false;
    std::vector<Cons*> all;
    for (size_t i = 0; i < P.cons.size(); i++) if (used[i]) all.push_back(P.cons[i]);
    for (auto c : extra) all.push_back(c);
    for (auto c : all) { nonlin |= c->nonlin; other |= c->other; }
    bool bvfp = false;
    for (size_t v = 0; v < inv.size(); v++) if (inv[v] && g_vars[v].kind != 0) bvfp = true;
    double t0 = now();
    int res = 0;
    auto run = [&](Z3_solver s, unsigned to) -> Z3_lbool
    {
        Z3_solver_inc_ref(Z, s);
        Z3_params pr = Z3_mk_params(Z); Z3_params_inc_ref(Z, pr);
        Z3_params_set_uint(Z, pr, Z3_mk_string_symbol(Z, "timeout"), to);
        Z3_solver_set_params(Z, s, pr); Z3_params_dec_ref(Z, pr);
        for (auto c : all) Z3_solver_assert(Z, s, c->ast);
        Z3_lbool r = Z3_solver_check(Z, s);
        if (r == Z3_L_TRUE && (outModel || raw))
        {
            Z3_model m = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, m);
            for (size_t v = 0; v < inv.size(); v++)
            {
                if (!inv[v]) continue;
                Z3_ast o = nullptr;
                if (!Z3_model_eval(Z, m, g_vars[v].ast, true, &o)) { if (outModel) outModel->unset(v); continue; }
                Z3_inc_ref(Z, o);
                mpq_class q;
                if (g_vars[v].kind == 2)
                {
                    if (raw && parseNumeral(o, q)) (*raw)[v] = "bits:" + q.get_str();
                }
                else if (parseNumeral(o, q)) { if (outModel) outModel->set(v, q); if (raw) (*raw)[v] = q.get_str(); }
                else
                {
                    if (outModel) outModel->unset(v);
                    if (Z3_is_algebraic_number(Z, o))
                    {
                        Z3_ast lo = Z3_get_algebraic_number_lower(Z, o, 20); Z3_inc_ref(Z, lo);
                        if (parseNumeral(lo, q)) { if (raw) (*raw)[v] = q.get_str(); }
                        Z3_dec_ref(Z, lo);
                    }
                }
                Z3_dec_ref(Z, o);
            }
            Z3_model_dec_ref(Z, m);
        }
        Z3_solver_dec_ref(Z, s);
        return r;
    };
    Z3_lbool r = Z3_L_UNDEF;
    if (!bvfp && nonlin)
    {
        // refute with the linear part alone where that is enough
        std::vector<Cons*> lin, save = all;
        for (auto c : all) if (!c->nonlin) lin.push_back(c);
        bool extraLin = true; for (auto c : extra) if (c->nonlin) extraLin = false;
        if (extraLin && lin.size() < all.size())
        {
            Model* om = outModel; auto* rw = raw; outModel = nullptr; raw = nullptr;
            all = lin; r = run(Z3_mk_simple_solver(Z), timeout); all = save; outModel = om; raw = rw;
            if (r != Z3_L_FALSE) r = Z3_L_UNDEF;
        }
    }
    if (r == Z3_L_FALSE) {}
    else if (bvfp) r = run(Z3_mk_solver(Z), timeout);
    else if (nonlin)
    {
        r = run(Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_NRA")), timeout);
        if (r == Z3_L_UNDEF) r = run(Z3_mk_simple_solver(Z), timeout / 2 + 500);
    }
    else r = run(Z3_mk_simple_solver(Z), timeout);
    g_st.solver_s += now() - t0;
    if (r == Z3_L_TRUE) { g_st.q_sat++; res = 1; }
    else if (r == Z3_L_FALSE) { g_st.q_unsat++; res = 0; }
    else
    {
        g_st.q_unknown++; res = -1;
        if (getenv("SYMX_UNKNOWN")) for (auto c : extra) { std::string t = Z3_ast_to_string(Z, c->ast); fprintf(stderr, "UNKNOWN (%zu constraints) %.3000s\n", all.size(), t.c_str()); }
    }
    return res;
}
inline void learn(Cons* c)
{
    if (c->fid >= 0)
    {
        auto it = P.facts.find(c->fid);
        if (it == P.facts.end()) P.facts[c->fid] = c->mask; else it->second &= c->mask;
    }
}
inline void addCons(Cons* c) { P.cons.push_back(c); learn(c); }

// pick one of mutually exclusive, exhaustive alternatives
inline int choose(const std::vector<Cons*>& alts, const std::string& payload = "")
{
    if (P.pos < P.dec.size())
    {
        Decision& d = P.dec[P.pos++];
        if (!d.implied) addCons(alts[d.choice]); else learn(alts[d.choice]);
        return d.choice;
    }
    // path model first
    std::vector<int> feas; std::vector<Model> models;
    bool unk = false;
    int byModel = -1;
    for (size_t i = 0; i < alts.size(); i++) if (evalCons(alts[i], P.model) == 1) { byModel = (int)i; break; }
    for (size_t i = 0; i < alts.size(); i++)
    {
        if ((int)i == byModel) { feas.push_back(i); models.push_back(P.model); continue; }
        if (alts[i]->fid >= 0)
        {
            auto it = P.facts.find(alts[i]->fid);
            if (it != P.facts.end() && !(it->second & alts[i]->mask)) continue;
        }
        Model m = P.model;
        int r = checkSat({alts[i]}, &m, false, g_qTimeout);
        if (r != 0) { feas.push_back(i); if (r < 0) { unk = true; m = P.model; for (int v : alts[i]->vars) m.unset(v); } models.push_back(m); }
    }
    if (unk) P.tainted = true;
    if (feas.empty()) { g_st.infeasible++; throw PathEnd{"infeasible"}; }
    bool implied = feas.size() == 1;
    size_t pick = 0;
    if (byModel >= 0) for (size_t i = 0; i < feas.size(); i++) if (feas[i] == byModel) pick = i;
    for (size_t i = 0; i < feas.size(); i++)
    {
        if (i == pick) continue;
        std::vector<Decision> pre(P.dec.begin(), P.dec.begin() + P.pos);
        pre.push_back({feas[i], false, payload});
        g_work.push_back({std::move(pre), models[i]});
        g_st.forks++;
    }
    P.dec.push_back({feas[pick], implied, payload}); P.pos++;
    P.model = models[pick];
    if (!implied) addCons(alts[feas[pick]]); else learn(alts[feas[pick]]);
    return feas[pick];
}
