// Harness interface, C/C++ runtime and intrinsics.
#pragma once

struct InputRec { int var; mpq_class lo, hi; bool bounded; };
static vector<InputRec> g_inputs;                 // in creation order, per path
static vector<Val> g_tokens;                      // formatted numbers, per path
static std::set<string> g_unknownVc;

static string cstr(uint64_t a)
{
    string s;
    for (;; a++)
    {
        uint32_t off; MemObj* o = access(a, 1, "read (string)", off);
        if (o->st[off] != B_CONC) throw Unsupported("symbolic string");
        if (!o->b[off]) return s;
        s.push_back((char)o->b[off]);
        if (s.size() > 4096) return s;
    }
}
static string hexd(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }

static std::map<string, string> dumpInputs(const Model& m, const std::map<int, string>& raw, bool& exact)
{
    std::map<string, string> r; exact = true;
    for (auto& in : g_inputs)
    {
        auto& vi = g_vars[in.var]; mpq_class q;
        if (vi.kind == 0)
        {
            if (m.get(in.var, q)) { double d = qToD(q); if (dToQ(d) != q) exact = false; r[vi.name] = hexd(d) + " " + q.get_str(); }
            else if (raw.count(in.var)) { mpq_class x(raw.at(in.var)); x.canonicalize(); exact = false; r[vi.name] = hexd(qToD(x)) + " " + x.get_str(); }
            else { mpq_class x = in.bounded ? (in.lo + in.hi) / 2 : mpq_class(0); r[vi.name] = hexd(qToD(x)) + " " + x.get_str(); }
        }
        else if (vi.kind == 1)
        {
            string v = raw.count(in.var) ? raw.at(in.var) : (m.get(in.var, q) ? q.get_str() : "0");
            r[vi.name] = std::to_string(sext(std::stoull(v), vi.width));
        }
        else
        {
            string v = raw.count(in.var) ? raw.at(in.var).substr(5) : string("0");
            r[vi.name] = hexd(bitsd(std::stoull(v))) + " bits:" + v;
        }
    }
    return r;
}
static bool holdsAll(const Model& m, const vector<Cons*>& cs) { for (auto c : cs) if (evalCons(c, m) != 1) return false; return true; }
// move a counterexample away from degenerate values, towards round numbers and a large margin
static void improve(Model& m, Cons* neg, const RatFun* score)
{
    uint64_t rng = 88172645463325252ull;
    auto rnd = [&]() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
    vector<InputRec*> rs; for (auto& in : g_inputs) if (g_vars[in.var].kind == 0) rs.push_back(&in);
    if (rs.empty()) return;
    if (score && score->num.t.size() > 4000) return;
    auto sc = [&](const Model& x) -> double { mpq_class q; if (!score || !evalRat(*score, x, q)) return -1; return std::fabs(q.get_d()); };
    double best = sc(m); double t0 = now();
    std::unordered_map<int, vector<Cons*>> by;
    for (auto c : P.cons) for (int v : c->vars) by[v].push_back(c);
    auto ok = [&](const Model& x, int v) { for (auto c : by[v]) if (evalCons(c, x) != 1) return false; return !neg || evalCons(neg, x) == 1; };
    for (int it = 0; it < 400 && now() - t0 < 3; it++)
    {
        auto* in = rs[rnd() % rs.size()];
        mpq_class lo = in->bounded ? in->lo : mpq_class(-4), hi = in->bounded ? in->hi : mpq_class(4), old;
        bool had = m.get(in->var, old);
        int den = (it & 1) ? 64 : 16;
        mpq_class f((int)(rnd() % (den + 1)), den); f.canonicalize();
        mpq_class nv = lo + (hi - lo) * f;
        if (qToD(nv) != 0 || nv == 0) { double d = qToD(nv); nv = dToQ(d); }
        if (nv < lo || nv > hi) continue;
        Model x = m; x.set(in->var, nv);
        if (!ok(x, in->var)) continue;
        double s = sc(x);
        if (score ? s >= best : true) { m = x; best = s; } else (void)had;
    }
}
static void report(const string& kind, const string& msg, Cons* neg, Model m, bool haveModel, const RatFun* score)
{
    g_st.vc_failed++;
    string key = kind + "|" + msg;
    if (!g_violMsgs.insert(key).second && g_viol.size() >= 1 && std::count_if(g_viol.begin(), g_viol.end(), [&](const Violation& v) { return v.kind == kind && v.msg == msg; }) >= 2) return;
    if ((int)g_viol.size() >= g_maxViol * 3) return;
    std::map<int, string> raw;
    bool anyOther = false; for (auto& in : g_inputs) if (g_vars[in.var].kind != 0) anyOther = true;
    bool complete = haveModel; mpq_class q;
    for (auto& in : g_inputs) if (g_vars[in.var].kind == 0 && !m.get(in.var, q)) complete = false;
    if (!complete || anyOther)
    {
        vector<Cons*> ex; if (neg) ex.push_back(neg);
        Model fm = P.model;
        int r = checkSat(ex, &fm, true, g_vcTimeout, &raw);
        if (r == 1) m = fm;
    }
    if (!anyOther) improve(m, neg, score);
    Violation v; v.kind = kind; v.msg = msg; v.in = dumpInputs(m, raw, v.exact);
    g_viol.push_back(v);
    // a second, plainer model for the replay
}
// assertion: the condition "bad" must be unsatisfiable on this path
static void vc(Cons* bad, int known, const string& msg, const RatFun* score)
{
    g_st.vc_total++; g_vcThisPath++;
    if (known == 0) { g_st.vc_trivial++; return; }
    if (known == 1)
    {
        report("assert", msg, nullptr, P.model, true, score);
        throw PathEnd{"violated"};
    }
    if (evalCons(bad, P.model) == 1 && holdsAll(P.model, P.cons))
    {
        report("assert", msg, bad, P.model, true, score);
        throw PathEnd{"violated"};
    }
    Model m = P.model;
    int r = checkSat({bad}, &m, false, g_vcTimeout);
    if (r == 0) { g_st.vc_proved++; learn(negCons(bad)); return; }
    if (r < 0) { g_st.vc_unknown++; g_unknownVc.insert(msg); return; }
    report("assert", msg, bad, m, true, score);
    throw PathEnd{"violated"};
}
static void vcEq(const Val& a, const Val& b, const string& msg, bool bits = false)
{
    if (a.k == UNDEF || b.k == UNDEF) { g_st.vc_total++; g_vcThisPath++; report("uninitialised", msg + " (uninitialised value)", nullptr, P.model, true, nullptr); throw PathEnd{"violated"}; }
    if (g_fpMode)
    {
        // same value, NaN equal to NaN
        if (a.k == FPC && b.k == FPC) { vc(nullptr, ((a.d == b.d && (!bits || std::signbit(a.d) == std::signbit(b.d))) || (a.d != a.d && b.d != b.d)) ? 0 : 1, msg, nullptr); return; }
        Z3_ast x = fpAst(a), y = fpAst(b);
        Z3_ast o[2] = {Z3_mk_fpa_eq(Z, x, y), Z3_mk_eq(Z, x, y)};
        Val v = mkBoolAst(Z3_mk_not(Z, bits ? o[1] : Z3_mk_or(Z, 2, o))); // bits: the zeros differ, all NaNs are one
        if (v.k == INT) vc(nullptr, (int)v.i, msg, nullptr); else vc(v.c, -1, msg, nullptr);
        return;
    }
    if (a.k == SPEC || b.k == SPEC)
    {
        bool same = a.k == SPEC && b.k == SPEC && (a.d == b.d || (isNan(a) && isNan(b)));
        vc(nullptr, same ? 0 : 1, msg + (same ? "" : " (not finite)"), nullptr); return;
    }
    RatFun x = toRatS(a), y = toRatS(b), d = radd(x, y, -1);
    d.num = psub(d.num);
    if (d.num.zero())
    {
        // the solver confirms the cross-multiplied identity, each side normalised on its own
        g_st.vc_total++; g_vcThisPath++;
        if (x.num.isConst() && x.den.empty() && y.num.isConst() && y.den.empty()) { g_st.vc_trivial++; return; }
        if (x.den.empty() && y.den.empty() && x.num.t.size() == 1 && y.num.t.size() == 1) { g_st.vc_trivial++; return; } // the same input
        Poly l = psub(x.num), r = psub(y.num);
        if (x.den != y.den) { if (l.t.size() < 400 && r.t.size() < 400) { l = psub(pmul(l, denPoly(y.den))); r = psub(pmul(r, denPoly(x.den))); } else { g_nf++; g_st.identities++; g_st.vc_proved++; return; } }
        if (l.t.size() > 1500) { g_nf++; g_st.identities++; g_st.vc_proved++; return; }
        Z3_ast la = polyAst(l), ra = polyAst(r);
        double t0 = now();
        Z3_solver s = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, s);
        Z3_params pr = Z3_mk_params(Z); Z3_params_inc_ref(Z, pr); Z3_params_set_uint(Z, pr, Z3_mk_string_symbol(Z, "timeout"), 5000); Z3_solver_set_params(Z, s, pr); Z3_params_dec_ref(Z, pr);
        Z3_solver_assert(Z, s, Z3_mk_not(Z, Z3_mk_eq(Z, la, ra)));
        Z3_lbool rr = Z3_solver_check(Z, s); Z3_solver_dec_ref(Z, s);
        g_st.solver_s += now() - t0;
        g_st.identities++;
        if (rr == Z3_L_FALSE) { g_st.q_unsat++; g_st.vc_proved++; }
        else { g_nf++; g_st.vc_proved++; } // the normal form already decides it
        return;
    }
    int known; Cons* c = signCons(d.num, S_NEG | S_POS, known);
    vc(c, known, msg, &d);
}
// a <= b
static void vcLe(const Val& a, const Val& b, const string& msg)
{
    if (a.k == UNDEF || b.k == UNDEF) { g_st.vc_total++; g_vcThisPath++; report("uninitialised", msg + " (uninitialised value)", nullptr, P.model, true, nullptr); throw PathEnd{"violated"}; }
    Val c = fcmp(CmpInst::FCMP_OLE, a, b);
    if (c.k == INT) { vc(nullptr, c.i ? 0 : 1, msg, nullptr); return; }
    if (g_fpMode) { vc(negCons(c.c), -1, msg, nullptr); return; }
    RatFun d = radd(toRat(a), toRat(b), -1);
    vc(negCons(c.c), -1, msg, &d);
}
static void vcBool(const Val& c, const string& msg)
{
    if (c.k == UNDEF) { g_st.vc_total++; g_vcThisPath++; report("uninitialised", msg + " (uninitialised value)", nullptr, P.model, true, nullptr); throw PathEnd{"violated"}; }
    if (c.k == INT) { vc(nullptr, (c.i & 1) ? 0 : 1, msg, nullptr); return; }
    if (c.k == SBOOL) { vc(negCons(c.c), -1, msg, nullptr); return; }
    if (c.k == SINT) { Val b = icmpV(CmpInst::ICMP_NE, c, mkInt(0, c.w), c.w); vcBool(b, msg); return; }
    throw Unsupported("assertion kind");
}
static void assume(const Val& c)
{
    if (c.k == UNDEF) throw Unsupported("assumption on an uninitialised value");
    if (c.k == INT) { if (!(c.i & 1)) { g_assumeDead++; throw PathEnd{"assume"}; } return; }
    Cons* k = c.k == SBOOL ? c.c : icmpV(CmpInst::ICMP_NE, c, mkInt(0, c.w), c.w).c;
    if (evalCons(k, P.model) != 1)
    {
        Model m = P.model; int r = checkSat({k}, &m, false, g_qTimeout * 3);
        if (r == 0) { g_assumeDead++; throw PathEnd{"assume"}; }
        if (r == 1) P.model = m; else { P.tainted = true; for (int v : k->vars) P.model.unset(v); }
    }
    addCons(k); onChosen(k);
}
static Val symReal(const string& name, bool bounded, const mpq_class& lo, const mpq_class& hi)
{
    if (g_fpMode) throw Unsupported("real input in float mode");
    int v = getVar(name, 0, true);
    if ((int)g_nonneg.size() <= v) g_nonneg.resize(v + 1, 0);
    if (bounded && lo >= 0) g_nonneg[v] = 1;
    g_inputs.push_back({v, lo, hi, bounded});
    mpq_class q;
    if (!P.model.get(v, q))
    {
        uint64_t h = 1469598103934665603ull; for (char c : name) { h ^= (uint8_t)c; h *= 1099511628211ull; } h ^= h >> 29;
        mpq_class f((int)(h % 61 + 2), 64); f.canonicalize();
        mpq_class l = lo, h2 = hi; if (bounded && hi - lo > 32) { l = lo > 0 ? mpq_class(1, 4) : mpq_class(-8); h2 = lo > 0 ? 4 : 8; if (l < lo) l = lo; if (h2 > hi) h2 = hi; }
        P.model.set(v, bounded ? mpq_class(l + (h2 - l) * f) : mpq_class(f * 8 - 4));
    }
    Poly p = Poly::var(v);
    if (bounded)
    {
        assertPoly(padd(p, Poly(lo), -1), S_ZERO | S_POS);
        assertPoly(padd(p, Poly(hi), -1), S_ZERO | S_NEG);
    }
    return mkRat(RatFun{p, {}});
}
static Ret throwStd(const char* ti)
{
    g_exc = ExcState{alloc(64, 0), ti, nullptr}; g_excByObj[g_exc.obj] = g_exc;
    Ret r; r.unwind = true; return r;
}
static mpq_class realArg(const Val& v) { if (v.k == REAL) return v.b->q; if (v.k == FPC) return dToQ(v.d); throw Unsupported("bound must be a constant"); }

static Val mathConst(const string& n, const Val& a, const Val* b)
{
    auto d = [](const Val& v) -> double { if (v.k == FPC || v.k == SPEC) return v.d; if (v.k == REAL) return qToD(v.b->q); throw Unsupported("math function of a symbolic value"); };
    double x = d(a), y = b ? d(*b) : 0, r;
    if (n == "pow") r = std::pow(x, y); else if (n == "exp") r = std::exp(x); else if (n == "log") r = std::log(x); else if (n == "sin") r = std::sin(x);
    else if (n == "cos") r = std::cos(x); else if (n == "tan") r = std::tan(x); else if (n == "atan2") r = std::atan2(x, y); else if (n == "floor") r = std::floor(x);
    else if (n == "ceil") r = std::ceil(x); else if (n == "round") r = std::round(x); else if (n == "trunc") r = std::trunc(x); else if (n == "asin") r = std::asin(x);
    else if (n == "atan") r = std::atan(x); else if (n == "fmod") r = std::fmod(x, y); else if (n == "hypot") r = std::hypot(x, y); else if (n == "log2") r = std::log2(x);
    else if (n == "log10") r = std::log10(x); else if (n == "acos") r = std::acos(x); else if (n == "cbrt") r = std::cbrt(x); else if (n == "rint" || n == "nearbyint") r = std::nearbyint(x);
    else throw Unsupported("math function " + n);
    return mkDouble(r);
}
static Val powInt(const Val& a, int64_t n)
{
    if (n < 0 || n > 40) throw Unsupported("power");
    Val r = mkDouble(1); for (int64_t i = 0; i < n; i++) r = fbin('*', r, a); return r;
}
static Val acosV(const Val& a)
{
    if (a.k == UNDEF || a.k == SPEC || g_fpMode || a.k == REAL) { if (a.k == UNDEF) return a; if (a.k == FPZ) throw Unsupported("acos"); }
    if (a.k == SPEC) return mkSpec(NAN);
    // defined by monotonicity and range only
    Val one = mkReal(1), mone = mkReal(-1);
    if (!decideBool(fcmp(CmpInst::FCMP_OLE, a, one)) || !decideBool(fcmp(CmpInst::FCMP_OGE, a, mone))) return mkSpec(NAN);
    int v = newDef("acos", true); P.model.unset(v);
    Poly pv = Poly::var(v);
    assertPoly(pv, S_ZERO | S_POS); assertPoly(padd(pv, Poly(mpq_class(3141592654, 1000000000)), -1), S_ZERO | S_NEG);
    g_acosArg[v] = a; // comparisons of two such values compare the arguments
    return mkRat(RatFun{pv, {}});
}
static Val toSingle(const Val& v)
{
    if (v.k == UNDEF || v.k == SPEC) return v;
    if (g_fpMode) { if (v.k == FPC) return mkFpc((double)(float)v.d); throw Unsupported("single precision"); }
    if (v.k == REAL && dToQ((double)(float)qToD(v.b->q)) == v.b->q) return v;
    int e = newDef("sgl", false); P.model.set(e, 0); Poly pe = Poly::var(e); mpq_class bnd(1, 1 << 24);
    assertPoly(padd(pe, Poly(bnd), -1), S_ZERO | S_NEG); assertPoly(padd(pe, Poly(bnd), 1), S_ZERO | S_POS);
    return fbin('*', v, mkRat(RatFun{padd(pe, Poly(mpq_class(1)), 1), {}}));
}
static mpq_class pow10q(int n) { mpq_class r = 1; for (int i = 0; i < std::abs(n); i++) r *= 10; return n < 0 ? mpq_class(1 / r) : r; }
static mpq_class pow2q(int n) { mpq_class r = 1; for (int i = 0; i < std::abs(n); i++) r *= 2; return n < 0 ? mpq_class(1 / r) : r; }
// value recovered after printing v (mode 0 default/%g, 1 fixed, 2 scientific, 3 hexfloat) and reading it back
static Val printedValue(const Val& v, int mode, int prec)
{
    if (v.k == UNDEF) return v;
    if (g_fpMode)
    {
        if (v.k != FPC) throw Unsupported("text form of a symbolic float");
        char b[512]; snprintf(b, sizeof b, mode == 1 ? "%.*f" : mode == 2 ? "%.*e" : "%.*g", prec, v.d); return mkFpc(strtod(b, nullptr));
    }
    if (v.k == SPEC) return mkUndef();
    if (mode == 3) return v;
    if (v.k == REAL && dToQ(qToD(v.b->q)) == v.b->q)
    {
        char b[512]; double d = qToD(v.b->q);
        if (std::fabs(d) < 1e100) { snprintf(b, sizeof b, mode == 1 ? "%.*f" : mode == 2 ? "%.*e" : "%.*g", prec, d); return mkDouble(strtod(b, nullptr)); }
    }
    if (mode != 1)
    {
        int digits = mode == 2 ? prec + 1 : (prec == 0 ? 1 : prec);
        if (digits >= 17) return v;
        int e = newDef("rel", false); P.model.set(e, 0);
        mpq_class bnd = pow10q(1 - digits) / 2;
        Poly pe = Poly::var(e);
        assertPoly(padd(pe, Poly(bnd), -1), S_ZERO | S_NEG); assertPoly(padd(pe, Poly(bnd), 1), S_ZERO | S_POS);
        return fbin('*', v, mkRat(RatFun{padd(pe, Poly(mpq_class(1)), 1), {}}));
    }
    // fixed: exact when one unit in the last place exceeds the printed resolution
    int k = -1100; mpq_class res = pow10q(-prec);
    k = 0; while (pow2q(k - 52) > res) k--; while (!(pow2q(k - 52) > res)) k++;
    Val thr = mkReal(pow2q(k));
    if (decideBool(fcmp(CmpInst::FCMP_OGE, v, thr))) return v;
    if (decideBool(fcmp(CmpInst::FCMP_OLE, v, fneg(thr)))) return v;
    if (decideBool(fcmp(CmpInst::FCMP_OEQ, v, mkReal(0)))) return v;
    int e = newDef("abs", false); P.model.set(e, 0);
    Poly pe = Poly::var(e); mpq_class bnd = res; // printing rounds by at most half a digit, reading back the nearest double by at most as much again
    assertPoly(padd(pe, Poly(bnd), -1), S_ZERO | S_NEG); assertPoly(padd(pe, Poly(bnd), 1), S_ZERO | S_POS);
    return fbin('+', v, mkRat(RatFun{pe, {}}));
}

enum BI { B_NONE = 0, BI_symreal, BI_symint, BI_symdouble, BI_split, BI_assume, BI_prefer, BI_check, BI_eq, BI_same, BI_bits, BI_near, BI_le, BI_out, BI_reach, BI_stop, BI_mode, BI_fmt, BI_parse,
    BI_malloc, BI_calloc, BI_realloc, BI_free, BI_new, BI_delete, BI_memcpy, BI_memset, BI_memcmp, BI_memchr, BI_strlen, BI_sqrt, BI_fabs, BI_acos, BI_math1, BI_math2, BI_fmin, BI_fmax, BI_pow,
    BI_cxaalloc, BI_cxafree, BI_throw, BI_begin, BI_end, BI_rethrow, BI_getptr, BI_nop, BI_zero, BI_guardacq, BI_assertfail, BI_abort, BI_terminate, BI_isspace, BI_isdigit, BI_intr, BI_noret, BI_bcmp, BI_strtod, BI_exit, BI_memcpychk };
static const std::map<string, int>& biTable()
{
    static const std::map<string, int> t = {
        {"sym_real", BI_symreal}, {"sym_int", BI_symint}, {"sym_double", BI_symdouble}, {"sym_split", BI_split}, {"sym_assume", BI_assume}, {"sym_prefer", BI_prefer}, {"sym_check", BI_check}, {"sym_eq", BI_eq}, {"sym_same", BI_same}, {"sym_bits", BI_bits},
        {"sym_near", BI_near}, {"sym_le", BI_le}, {"sym_out", BI_out}, {"sym_reach", BI_reach}, {"sym_stop", BI_stop}, {"sym_scale", BI_nop}, {"sym_symbolic", BI_mode}, {"__vp_fmt_double", BI_fmt}, {"__vp_parse_double", BI_parse},
        {"malloc", BI_malloc}, {"calloc", BI_calloc}, {"realloc", BI_realloc}, {"free", BI_free}, {"_Znwm", BI_new}, {"_Znam", BI_new}, {"_ZnwmSt11align_val_t", BI_new}, {"_ZnwmRKSt9nothrow_t", BI_malloc}, {"aligned_alloc", BI_cxaalloc},
        {"_ZdlPv", BI_delete}, {"_ZdaPv", BI_delete}, {"_ZdlPvm", BI_delete}, {"_ZdaPvm", BI_delete}, {"_ZdlPvSt11align_val_t", BI_delete}, {"_ZdlPvmSt11align_val_t", BI_delete},
        {"memcpy", BI_memcpy}, {"memmove", BI_memcpy}, {"memset", BI_memset}, {"memcmp", BI_memcmp}, {"bcmp", BI_memcmp}, {"memchr", BI_memchr}, {"strlen", BI_strlen},
        {"sqrt", BI_sqrt}, {"fabs", BI_fabs}, {"acos", BI_acos}, {"fmin", BI_fmin}, {"fmax", BI_fmax}, {"pow", BI_pow},
        {"exp", BI_math1}, {"log", BI_math1}, {"sin", BI_math1}, {"cos", BI_math1}, {"tan", BI_math1}, {"floor", BI_math1}, {"ceil", BI_math1}, {"round", BI_math1}, {"asin", BI_math1}, {"atan", BI_math1}, {"log2", BI_math1}, {"log10", BI_math1}, {"cbrt", BI_math1}, {"trunc", BI_math1}, {"rint", BI_math1}, {"nearbyint", BI_math1},
        {"atan2", BI_math2}, {"fmod", BI_math2}, {"hypot", BI_math2},
        {"__cxa_allocate_exception", BI_cxaalloc}, {"__cxa_free_exception", BI_cxafree}, {"__cxa_throw", BI_throw}, {"__cxa_begin_catch", BI_begin}, {"__cxa_end_catch", BI_end}, {"__cxa_rethrow", BI_rethrow}, {"__cxa_get_exception_ptr", BI_getptr},
        {"__cxa_atexit", BI_zero}, {"__cxa_guard_acquire", BI_guardacq}, {"__cxa_guard_release", BI_nop}, {"__cxa_guard_abort", BI_nop}, {"__cxa_thread_atexit", BI_zero},
        {"__assert_fail", BI_assertfail}, {"abort", BI_abort}, {"_ZSt9terminatev", BI_terminate}, {"__cxa_pure_virtual", BI_abort}, {"_ZNSt3__122__libcpp_verbose_abortEPKcz", BI_assertfail}, {"__cxa_throw_bad_array_new_length", BI_noret},
        {"isspace", BI_isspace}, {"isdigit", BI_isdigit}, {"exit", BI_exit},
        {"_ZNSt13runtime_errorC1EPKc", BI_nop}, {"_ZNSt13runtime_errorC2EPKc", BI_nop}, {"_ZNSt13runtime_errorD1Ev", BI_nop}, {"_ZNSt13runtime_errorD2Ev", BI_nop}, {"_ZNSt13runtime_errorC1ERKS_", BI_nop}, {"_ZNSt13runtime_errorC2ERKS_", BI_nop},
        {"_ZNSt13runtime_errorC1ERKNSt3__112basic_stringIcNS0_11char_traitsIcEENS0_9allocatorIcEEEE", BI_nop}, {"_ZNSt13runtime_errorC2ERKNSt3__112basic_stringIcNS0_11char_traitsIcEENS0_9allocatorIcEEEE", BI_nop},
        {"_ZNSt11logic_errorC1EPKc", BI_nop}, {"_ZNSt11logic_errorC2EPKc", BI_nop}, {"_ZNSt11logic_errorD2Ev", BI_nop}, {"_ZNSt11logic_errorC2ERKNSt3__112basic_stringIcNS0_11char_traitsIcEENS0_9allocatorIcEEEE", BI_nop}, {"_ZNSt11logic_errorC1ERKNSt3__112basic_stringIcNS0_11char_traitsIcEENS0_9allocatorIcEEEE", BI_nop},
        {"_ZNSt16invalid_argumentD1Ev", BI_nop}, {"_ZNSt12out_of_rangeD1Ev", BI_nop}, {"_ZNSt12length_errorD1Ev", BI_nop}, {"_ZNSt12domain_errorD1Ev", BI_nop}, {"_ZNSt9bad_allocC1Ev", BI_nop}, {"_ZNSt9bad_allocD1Ev", BI_nop}, {"_ZNSt9exceptionD2Ev", BI_nop}, {"_ZNSt9exceptionD1Ev", BI_nop},
        {"_ZNSt11range_errorD1Ev", BI_nop}, {"_ZNSt14overflow_errorD1Ev", BI_nop}, {"_ZNSt16invalid_argumentD2Ev", BI_nop},
        {"_ZNSt20bad_array_new_lengthC1Ev", BI_nop}, {"_ZNSt20bad_array_new_lengthD1Ev", BI_nop}};
    return t;
}
static Val boolOf(const Val& c) { if (c.k == SINT && c.w != 1) return icmpV(CmpInst::ICMP_NE, c, mkInt(0, c.w), c.w); if (c.k == INT) return mkInt(c.i != 0, 1); return c; }
static bool allocSize(const Val& v, uint64_t& n)
{
    if (v.k == SINT)
    {
        Val c = icmpV(CmpInst::ICMP_ULE, v, mkInt(1 << 16, 64), 64);
        if (!decideBool(c)) return false;
        n = concretize(v); return true;
    }
    n = concretize(v);
    return n <= (64u << 20);
}
static void freeObj(const Val& p, bool isDelete)
{
    uint64_t a = ptr(p, "free"); (void)isDelete;
    if (!a) return;
    MemObj* o = obj(a, "free");
    if ((uint32_t)a || o->kind != 0) throw Trap{"memory", "free of a bad pointer"};
    if (!o->alive) throw Trap{"memory", "double free"};
    o->alive = false; o->b = {}; o->st = {}; o->cells.clear();
}
static bool callBuiltin(DFunc* f, DInst& x, vector<Val>& a, Ret& r)
{
    if (f->builtin == -1)
    {
        auto it = biTable().find(f->name);
        f->builtin = it != biTable().end() ? it->second : f->F->isIntrinsic() ? (int)BI_intr : (int)B_NONE;
        if (f->builtin == B_NONE && f->F->isDeclaration())
        {
            // destructors and message constructors of the standard exception classes
            string n = demangle(f->name);
            static const char* ex[] = {"std::runtime_error::", "std::logic_error::", "std::invalid_argument::", "std::out_of_range::", "std::length_error::", "std::exception::", "std::bad_alloc::", "std::domain_error::", "std::range_error::", "std::overflow_error::", "std::bad_cast::", "std::bad_array_new_length::"};
            for (auto e : ex) if (n.rfind(e, 0) == 0) f->builtin = BI_nop;
        }
    }
    switch (f->builtin)
    {
    case B_NONE: return false;
    case BI_symreal:
        r.v = symReal(cstr(ptr(a[0], "name")) + "." + std::to_string(sext(concretize(a[1]), 32)), true, realArg(a[2]), realArg(a[3])); return true;
    case BI_symint:
    {
        string n = cstr(ptr(a[0], "name")) + "." + std::to_string(sext(concretize(a[1]), 32));
        int v = getVar(n, 1, true, 32);
        g_inputs.push_back({v, 0, 0, false});
        Z3_ast x = g_vars[v].ast; Z3_sort s = Z3_mk_bv_sort(Z, 32);
        int64_t lo = sext(concretize(a[2]), 32), hi = sext(concretize(a[3]), 32);
        if (lo == hi) { Val k = mkInt((uint64_t)lo, 32); addCons(astCons(Z3_mk_eq(Z, x, Z3_mk_int64(Z, lo, s)))); r.v = k; return true; }
        if (lo > INT32_MIN) addCons(astCons(Z3_mk_bvsge(Z, x, Z3_mk_int64(Z, lo, s))));
        if (hi < INT32_MAX) addCons(astCons(Z3_mk_bvsle(Z, x, Z3_mk_int64(Z, hi, s))));
        Val k; k.k = SINT; k.w = 32; k.ast = x; r.v = k; return true;
    }
    case BI_symdouble:
    {
        string n = cstr(ptr(a[0], "name")) + "." + std::to_string(sext(concretize(a[1]), 32));
        if (!g_fpMode) { r.v = symReal(n, false, 0, 0); return true; }
        int v = getVar(n, 2, true); g_inputs.push_back({v, 0, 0, false});
        r.v = mkFpz(keep(Z3_mk_fpa_to_fp_bv(Z, g_vars[v].ast, FPSort))); return true;
    }
    case BI_split: r.v = mkInt(concretize(a[0]), 32); return true;
    case BI_assume: assume(boolOf(a[0])); return true;
    case BI_prefer: { Val c = boolOf(a[0]); if (c.k == SBOOL) P.prefs.push_back(c.c); return true; }
    case BI_check: vcBool(boolOf(a[0]), cstr(ptr(a[1], "msg"))); return true;
    case BI_eq: case BI_same: case BI_bits: vcEq(a[0], a[1], cstr(ptr(a[2], "msg")), f->builtin == BI_bits); return true;
    case BI_near: { string m = cstr(ptr(a[3], "msg")); Val d = fbin('-', a[0], a[1]); vcLe(d, a[2], m); vcLe(fneg(a[2]), d, m); return true; }
    case BI_le: vcLe(a[0], a[1], cstr(ptr(a[2], "msg"))); return true;
    case BI_out: g_outs.push_back({cstr(ptr(a[0], "name")), (int)sext(concretize(a[1]), 32), a[2]}); return true;
    case BI_reach: g_reach[cstr(ptr(a[0], "msg"))]++; return true;
    case BI_stop: throw PathEnd{"stop"};
    case BI_mode: r.v = mkInt(g_fpMode ? 2 : 1, 32); return true;
    case BI_fmt:
    {
        Val v = printedValue(a[0], (int)concretize(a[1]), (int)sext(concretize(a[2]), 32));
        g_tokens.push_back(v);
        char b[16]; snprintf(b, sizeof b, "\x01%06zx\x02", g_tokens.size() - 1);
        uint32_t off; MemObj* o = access(ptr(a[3], "fmt"), 8, "write", off);
        for (int i = 0; i < 8; i++) putVal(o, off + i, 1, mkInt((uint8_t)b[i], 8));
        r.v = mkInt(8, 64); return true;
    }
    case BI_parse:
    {
        // (const char* s, size_t n, double* out) -> characters consumed, 0 on failure
        uint64_t s = ptr(a[0], "parse"), n = concretize(a[1]); string t;
        for (uint64_t i = 0; i < n; i++) { uint32_t off; MemObj* o = access(s + i, 1, "read", off); Val c = loadVal(o, off, Type::getInt8Ty(M->getContext())); t.push_back((char)concretize(c)); }
        Val v; uint64_t used = 0;
        if (n >= 8 && t[0] == 1 && t[7] == 2) { size_t id = std::stoul(t.substr(1, 6), nullptr, 16); if (id < g_tokens.size()) { v = g_tokens[id]; used = 8; } }
        else { char* e; double d = strtod(t.c_str(), &e); used = e - t.c_str(); if (used && (isalpha((unsigned char)t[0]) || (t[0] == '-' && t.size() > 1 && isalpha((unsigned char)t[1])))) used = 0; v = mkDouble(d); }
        uint32_t off; MemObj* o = access(ptr(a[2], "parse"), 8, "write", off);
        if (used) putVal(o, off, 8, v);
        r.v = mkInt(used, 64); return true;
    }
    case BI_malloc: { uint64_t n; if (!allocSize(a[0], n)) r.v = mkInt(0, 64); else r.v = mkInt(alloc(n, 0), 64); return true; }
    case BI_cxaalloc: { uint64_t n = concretize(a[f->name == "aligned_alloc" ? 1 : 0]); r.v = mkInt(alloc(n < 16 ? 16 : n, 0), 64); return true; }
    case BI_new: { uint64_t n; if (!allocSize(a[0], n)) { r = throwStd("_ZTISt9bad_alloc"); return true; } r.v = mkInt(alloc(n, 0), 64); return true; }
    case BI_calloc: { uint64_t n = concretize(a[0]) * concretize(a[1]); uint64_t p = alloc(n, 0); std::fill(g_mem[p >> 32]->st.begin(), g_mem[p >> 32]->st.end(), B_CONC); r.v = mkInt(p, 64); return true; }
    case BI_realloc: { uint64_t n = concretize(a[1]); uint64_t p = alloc(n, 0); uint64_t q = ptr(a[0], "realloc"); if (q) { MemObj* o = obj(q, "realloc"); copyMem(p, q, std::min<uint64_t>(n, o->size)); freeObj(a[0], false); } r.v = mkInt(p, 64); return true; }
    case BI_free: case BI_delete: freeObj(a[0], f->builtin == BI_delete); return true;
    case BI_memcpy: { uint64_t n = concretize(a[2]); copyMem(ptr(a[0], "memcpy"), ptr(a[1], "memcpy"), n); r.v = a[0]; return true; }
    case BI_memset: { uint64_t n = concretize(a[2]); if (n) { uint32_t off; MemObj* o = access(ptr(a[0], "memset"), n, "write (fill)", off); clearRange(o, off, (uint32_t)n); uint8_t c = (uint8_t)concretize(a[1]); for (uint64_t i = 0; i < n; i++) { o->b[off + i] = c; o->st[off + i] = B_CONC; } } r.v = a[0]; return true; }
    case BI_memcmp:
    {
        uint64_t n = concretize(a[2]), p = ptr(a[0], "memcmp"), q = ptr(a[1], "memcmp"); Type* i8 = Type::getInt8Ty(M->getContext()); r.v = mkInt(0, 32);
        for (uint64_t i = 0; i < n; i++)
        {
            uint32_t o1, o2; MemObj* m1 = access(p + i, 1, "read (compare)", o1); MemObj* m2 = access(q + i, 1, "read (compare)", o2);
            Val c1 = loadVal(m1, o1, i8), c2 = loadVal(m2, o2, i8); Val e = icmpV(CmpInst::ICMP_EQ, c1, c2, 8);
            if (e.k == UNDEF) throw Trap{"uninitialised", "comparison of uninitialised memory"};
            if (!decideBool(e)) { bool lt = decideBool(icmpV(CmpInst::ICMP_ULT, c1, c2, 8)); r.v = mkInt(lt ? ~0ull : 1, 32); break; }
        }
        return true;
    }
    case BI_memchr:
    {
        uint64_t n = concretize(a[2]), p = ptr(a[0], "memchr"); Type* i8 = Type::getInt8Ty(M->getContext()); Val c = a[1].k == INT ? mkInt(a[1].i, 8) : mkInt(concretize(a[1]), 8); r.v = mkInt(0, 64);
        for (uint64_t i = 0; i < n; i++) { uint32_t o1; MemObj* m1 = access(p + i, 1, "read", o1); if (decideBool(icmpV(CmpInst::ICMP_EQ, loadVal(m1, o1, i8), c, 8))) { r.v = mkInt(p + i, 64); break; } }
        return true;
    }
    case BI_strlen: r.v = mkInt(cstr(ptr(a[0], "strlen")).size(), 64); return true;
    case BI_sqrt: r.v = sqrtV(a[0]); return true;
    case BI_fabs: r.v = fabsV(a[0]); return true;
    case BI_acos: r.v = acosV(a[0]); return true;
    case BI_math1: r.v = a[0].k == UNDEF ? a[0] : mathConst(f->name, a[0], nullptr); return true;
    case BI_math2: r.v = mathConst(f->name, a[0], &a[1]); return true;
    case BI_pow: if (a[1].k == REAL && a[1].b->q.get_den() == 1 && a[1].b->q >= 0 && a[1].b->q < 40) r.v = powInt(a[0], a[1].b->q.get_num().get_si()); else r.v = mathConst("pow", a[0], &a[1]); return true;
    case BI_fmin: case BI_fmax:
        if (isNan(a[0])) { r.v = a[1]; return true; } if (isNan(a[1])) { r.v = a[0]; return true; }
        if (g_fpMode) throw Unsupported("fmin/fmax in float mode");
        { bool lt = decideBool(fcmp(CmpInst::FCMP_OLT, a[0], a[1])); r.v = (f->builtin == BI_fmin) == lt ? a[0] : a[1]; } return true;
    case BI_cxafree: freeObj(a[0], false); return true;
    case BI_throw:
    {
        uint64_t o = ptr(a[0], "throw"), ti = ptr(a[1], "throw"); uint64_t id = ti >> 32;
        g_exc = ExcState{o, id < g_gByid.size() && g_gByid[id] ? g_gByid[id]->getName().str() : string("?"), nullptr}; g_excByObj[o] = g_exc;
        r.unwind = true; return true;
    }
    case BI_begin: { uint64_t o = ptr(a[0], "catch"); auto it = g_excByObj.find(o); if (it != g_excByObj.end()) g_caught.push_back(it->second); else g_caught.push_back(g_exc); r.v = a[0]; return true; }
    case BI_getptr: r.v = a[0]; return true;
    case BI_end: if (!g_caught.empty()) g_caught.pop_back(); return true;
    case BI_rethrow: if (g_caught.empty()) throw Trap{"exception", "rethrow without exception"}; g_exc = g_caught.back(); r.unwind = true; return true;
    case BI_nop: r.v = mkInt(0, 64); return true;
    case BI_zero: r.v = mkInt(0, 32); return true;
    case BI_guardacq:
    {
        uint32_t off; MemObj* o = access(ptr(a[0], "guard"), 1, "guard", off); bool done = o->st[off] == B_CONC && o->b[off];
        putVal(o, off, 1, mkInt(1, 8)); r.v = mkInt(done ? 0 : 1, 32); return true;
    }
    case BI_assertfail:
    {
        string m = "assertion failed";
        try { if (f->name == "__assert_fail") m = "assert(" + cstr(ptr(a[0], "")) + ")"; else m = "library hardening check"; } catch (Trap&) {} catch (Unsupported&) {}
        throw Trap{"assertion", m};
    }
    case BI_abort: throw Trap{"abort", "abort called"};
    case BI_exit: throw Trap{"abort", "exit called"};
    case BI_terminate: throw Trap{"abort", "std::terminate called"};
    case BI_noret: r = throwStd("_ZTISt20bad_array_new_length"); return true;
    case BI_isspace: case BI_isdigit:
        if (a[0].k == INT) { int c = (int)a[0].i; r.v = mkInt(f->builtin == BI_isspace ? (c == 32 || (c >= 9 && c <= 13)) : (c >= '0' && c <= '9'), 32); return true; }
        {
            Val lo = icmpV(CmpInst::ICMP_SGE, a[0], mkInt(f->builtin == BI_isspace ? 9 : '0', 32), 32), hi = icmpV(CmpInst::ICMP_SLE, a[0], mkInt(f->builtin == BI_isspace ? 13 : '9', 32), 32);
            Val in = ibin(Instruction::And, lo, hi, 1);
            if (f->builtin == BI_isspace) in = ibin(Instruction::Or, in, icmpV(CmpInst::ICMP_EQ, a[0], mkInt(32, 32), 32), 1);
            r.v = mkInt(decideBool(in), 32); return true;
        }
    case BI_intr: break;
    default: throw Unsupported("builtin " + f->name);
    }
    // LLVM intrinsics
    auto id = (Intrinsic::ID)f->F->getIntrinsicID();
    unsigned w = x.w;
    switch (id)
    {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = concretize(a[2]); copyMem(ptr(a[0], "memcpy"), ptr(a[1], "memcpy"), n); return true; }
    case Intrinsic::memset: case Intrinsic::memset_inline:
    {
        uint64_t n = concretize(a[2]); if (!n) return true;
        uint32_t off; MemObj* o = access(ptr(a[0], "memset"), n, "write (fill)", off); clearRange(o, off, (uint32_t)n);
        if (a[1].k == UNDEF) { for (uint64_t i = 0; i < n; i++) o->st[off + i] = B_UNINIT; return true; }
        uint8_t c = (uint8_t)concretize(a[1]); for (uint64_t i = 0; i < n; i++) { o->b[off + i] = c; o->st[off + i] = B_CONC; } return true;
    }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: r.v = a[0]; return true;
    case Intrinsic::is_constant: r.v = mkInt(0, 1); return true;
    case Intrinsic::objectsize: r.v = mkInt(~0ull, w); return true;
    case Intrinsic::stacksave: r.v = mkInt(0, 64); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::fabs: r.v = fabsV(a[0]); return true;
    case Intrinsic::sqrt: r.v = sqrtV(a[0]); return true;
    case Intrinsic::fmuladd: case Intrinsic::fma: r.v = fbin('+', fbin('*', a[0], a[1]), a[2]); return true;
    case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::minimum: case Intrinsic::maximum:
        if (a[0].k == UNDEF || a[1].k == UNDEF) { r.v = mkUndef(); return true; }
        if (isNan(a[0])) { r.v = a[1]; return true; } if (isNan(a[1])) { r.v = a[0]; return true; }
        { bool mn = id == Intrinsic::minnum || id == Intrinsic::minimum;
          if (g_lazyMax && !g_fpMode && a[0].k != SPEC && a[1].k != SPEC && (a[0].k == RAT || a[1].k == RAT)) { Val c = fcmp(CmpInst::FCMP_OLT, a[0], a[1]); if (c.k == INT) r.v = mn == (c.i == 1) ? a[0] : a[1]; else r.v = lazyMax(a[0], a[1], !mn); return true; }
          bool lt = decideBool(fcmp(CmpInst::FCMP_OLT, a[0], a[1])); r.v = mn == lt ? a[0] : a[1]; } return true;
    case Intrinsic::copysign:
        if (a[1].k == FPC && a[0].k == FPC) { r.v = mkFpc(std::copysign(a[0].d, a[1].d)); return true; }
        if (!g_fpMode && a[0].k != UNDEF && a[1].k != UNDEF && a[1].k != SPEC) { Val m = fabsV(a[0]); r.v = decideBool(fcmp(CmpInst::FCMP_OLT, a[1], mkReal(0))) ? fneg(m) : m; return true; }
        throw Unsupported("copysign");
    case Intrinsic::floor: r.v = mathConst("floor", a[0], nullptr); return true;
    case Intrinsic::ceil: r.v = mathConst("ceil", a[0], nullptr); return true;
    case Intrinsic::round: r.v = mathConst("round", a[0], nullptr); return true;
    case Intrinsic::trunc: r.v = mathConst("trunc", a[0], nullptr); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: r.v = mathConst("rint", a[0], nullptr); return true;
    case Intrinsic::pow: if (a[1].k == REAL && a[1].b->q.get_den() == 1 && a[1].b->q >= 0 && a[1].b->q < 40) r.v = powInt(a[0], a[1].b->q.get_num().get_si()); else r.v = mathConst("pow", a[0], &a[1]); return true;
    case Intrinsic::powi: r.v = powInt(a[0], sext(concretize(a[1]), 32)); return true;
    case Intrinsic::exp: r.v = mathConst("exp", a[0], nullptr); return true;
    case Intrinsic::log: r.v = mathConst("log", a[0], nullptr); return true;
    case Intrinsic::sin: r.v = mathConst("sin", a[0], nullptr); return true;
    case Intrinsic::cos: r.v = mathConst("cos", a[0], nullptr); return true;
    case Intrinsic::is_fpclass:
    {
        unsigned m = (unsigned)concretize(a[1]);
        if (a[0].k == UNDEF) { r.v = mkUndef(); return true; }
        if (a[0].k == FPZ)
        {
            vector<Z3_ast> o; Z3_ast v = a[0].ast; if (m & 3) o.push_back(Z3_mk_fpa_is_nan(Z, v));
            Z3_ast neg = Z3_mk_fpa_is_negative(Z, v), pos = Z3_mk_fpa_is_positive(Z, v);
            auto both = [&](Z3_ast p, Z3_ast q) { Z3_ast z[2] = {p, q}; return Z3_mk_and(Z, 2, z); };
            if (m & 4) o.push_back(both(Z3_mk_fpa_is_infinite(Z, v), neg)); if (m & 512) o.push_back(both(Z3_mk_fpa_is_infinite(Z, v), pos));
            if (m & 8) o.push_back(both(Z3_mk_fpa_is_normal(Z, v), neg)); if (m & 256) o.push_back(both(Z3_mk_fpa_is_normal(Z, v), pos));
            if (m & 16) o.push_back(both(Z3_mk_fpa_is_subnormal(Z, v), neg)); if (m & 128) o.push_back(both(Z3_mk_fpa_is_subnormal(Z, v), pos));
            if (m & 32) o.push_back(both(Z3_mk_fpa_is_zero(Z, v), neg)); if (m & 64) o.push_back(both(Z3_mk_fpa_is_zero(Z, v), pos));
            r.v = mkBoolAst(o.empty() ? Z3_mk_false(Z) : Z3_mk_or(Z, o.size(), o.data())); return true;
        }
        double d = a[0].k == FPC || a[0].k == SPEC ? a[0].d : 1.0; bool res = false;
        if (d != d) res = m & 3; else if (std::isinf(d)) res = m & (d < 0 ? 4 : 512); else res = (m & (8 | 256 | 64 | 128)) != 0;
        r.v = mkInt(res, 1); return true;
    }
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin:
    {
        unsigned p = id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
        Val c = icmpV(p, a[0], a[1], w); if (c.k == UNDEF) { r.v = c; return true; }
        if (c.k == INT) r.v = c.i ? a[0] : a[1]; else r.v = mkSint(Z3_mk_ite(Z, c.c->ast, bv(a[0], w), bv(a[1], w)), w); return true;
    }
    case Intrinsic::abs: { if (a[0].k == INT) { int64_t s = sext(a[0].i, w); r.v = mkInt((uint64_t)(s < 0 ? -s : s), w); } else { Val c = icmpV(CmpInst::ICMP_SLT, a[0], mkInt(0, w), w); r.v = decideBool(c) ? ibin(Instruction::Sub, mkInt(0, w), a[0], w) : a[0]; } return true; }
    case Intrinsic::ctlz: { uint64_t v = concretize(a[0]); unsigned n = 0; for (int i = (int)w - 1; i >= 0 && !(v >> i & 1); i--) n++; r.v = mkInt(n, w); return true; }
    case Intrinsic::cttz: { uint64_t v = concretize(a[0]); unsigned n = 0; for (unsigned i = 0; i < w && !(v >> i & 1); i++) n++; r.v = mkInt(n, w); return true; }
    case Intrinsic::ctpop: r.v = mkInt(__builtin_popcountll(concretize(a[0])), w); return true;
    case Intrinsic::bswap: { uint64_t v = concretize(a[0]), o = 0; for (unsigned i = 0; i < w / 8; i++) o |= ((v >> (8 * i)) & 255) << (w - 8 - 8 * i); r.v = mkInt(o, w); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr:
    {
        uint64_t p = concretize(a[0]), q = concretize(a[1]), s = concretize(a[2]) % w; if (id == Intrinsic::fshr) s = (w - s) % w;
        if (id == Intrinsic::fshr && s == 0) r.v = mkInt(q, w); else r.v = mkInt(s ? (p << s) | (q >> (w - s)) : p, w); return true;
    }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    {
        unsigned k = id == Intrinsic::sadd_with_overflow ? 0 : id == Intrinsic::ssub_with_overflow ? 1 : id == Intrinsic::smul_with_overflow ? 2 : id == Intrinsic::uadd_with_overflow ? 3 : id == Intrinsic::usub_with_overflow ? 4 : 5;
        r.v = ovf(k, a[0], a[1], x.I->getOperand(0)->getType()->getIntegerBitWidth()); return true;
    }
    case Intrinsic::usub_sat: { Val c = icmpV(CmpInst::ICMP_ULT, a[0], a[1], w); r.v = decideBool(c) ? mkInt(0, w) : ibin(Instruction::Sub, a[0], a[1], w); return true; }
    case Intrinsic::uadd_sat: { Val s = ibin(Instruction::Add, a[0], a[1], w); Val c = icmpV(CmpInst::ICMP_ULT, s, a[0], w); r.v = decideBool(c) ? mkInt(~0ull, w) : s; return true; }
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: throw Trap{"trap", id == Intrinsic::ubsantrap ? "undefined behaviour (integer overflow, division by zero or shift)" : "trap (library hardening check)"};
    case Intrinsic::eh_typeid_for: { uint64_t t = ptr(a[0], "typeid"); r.v = mkInt(t >> 32, 32); return true; }
    case Intrinsic::threadlocal_address: r.v = a[0]; return true;
    case Intrinsic::vector_reduce_fadd: { Val s = a[0]; for (auto& e : a[1].b->agg) s = fbin('+', s, e); r.v = s; return true; }
    case Intrinsic::load_relative: throw Unsupported("load.relative");
    default: throw Unsupported("intrinsic " + f->name);
    }
}
