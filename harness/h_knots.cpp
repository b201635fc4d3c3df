// C04, C05: knot vectors.
#include "util.h"
#include <cmath>
#include <stdexcept>
using namespace hx;

static bool goodSequence(const std::vector<double>& v)
{
    if (v.empty()) return false;
    if (!(v[0] >= 0.0)) return false;
    for (size_t i = 1; i < v.size(); i++) if (!(v[i] >= v[i - 1])) return false;
    return v.back() == 1.0;
}
// arbitrary doubles, any bit pattern
ENTRY c04_ctor(int n)
{
    std::vector<double> v;
    for (int i = 0; i < n; i++) v.push_back(sym_double("k", i));
    bool good = goodSequence(v), threw = false;
    KnotVector kv;
    try { kv = KnotVector(v); } catch (const std::exception&) { threw = true; }
    sym_check(threw != good, "construction from values succeeds exactly for good sequences");
    if (threw) return;
    sym_check(kv.Count() == n && (int)kv.Values().size() == n, "all values are stored");
    for (int i = 0; i < n; i++) sym_check(kv.Values()[i] == v[i] && kv[i] == v[i], "the values are stored in order");
}
ENTRY c04_pairs(int n, int mmax)
{
    std::vector<KnotVector::KnotPair> pairs; std::vector<double> v;
    for (int i = 0; i < n; i++)
    {
        double k = sym_double("k", i); int m = sym_int("m", i, 0, mmax);
        pairs.emplace_back(0, k, m);
        for (int j = 0; j < m; j++) v.push_back(k);
    }
    bool good = goodSequence(v), threw = false;
    KnotVector kv;
    try { kv = KnotVector(pairs); } catch (const std::exception&) { threw = true; }
    sym_check(threw != good, "construction from pairs succeeds exactly for good sequences");
    if (threw) return;
    sym_check(kv.Values().size() == v.size(), "all pairs are expanded");
    for (size_t i = 0; i < v.size(); i++) sym_check(kv.Values()[i] == v[i], "the pairs are expanded in order");
}
ENTRY c04_uniform(int pmax, int extra)
{
    int p = sym_split(sym_int("p", 0, 1, pmax)), e = sym_split(sym_int("e", 0, 0, extra)), n = 2 * (p + 1) + e;
    KnotVector kv = KnotVector::Uniform(p, n);
    auto& U = kv.Values();
    sym_check((int)U.size() == n, "uniform: requested length");
    for (int i = 0; i <= p; i++) { sym_same(U[i], 0.0, "uniform: clamped at 0"); sym_same(U[n - 1 - i], 1.0, "uniform: clamped at 1"); }
    for (int i = 1; i <= e; i++) sym_near(U[p + i], (double)i / (e + 1), 1e-14, "uniform: equally spaced");
    sym_check(kv.IsValid() && kv.IsClamped() && kv.IsUniform() && kv.DetectDegree() == p, "uniform: the queries say so");
}
// arbitrary content (Values() is writable): valid, clamped and degree queries; a0 zeros, m free values, a1 ones
ENTRY c04_facts(int a0, int m, int a1)
{
    std::vector<double> v(a0, 0.0);
    for (int i = 0; i < m; i++) v.push_back(sym_double("k", i));
    for (int i = 0; i < a1; i++) v.push_back(1.0);
    int n = (int)v.size();
    KnotVector kv; kv.Values() = v;
    bool valid = n >= 4 && v[0] == 0.0 && v[n - 1] == 1.0;
    for (int i = 1; i < n; i++) if (!(v[i] >= v[i - 1])) valid = false;
    sym_check(kv.IsValid() == valid, "valid exactly when sorted from 0 to 1 with at least four knots");
    int c0 = 0, c1 = 0;
    while (c0 < n && v[c0] == 0.0) c0++;
    while (c1 < n && v[n - 1 - c1] == 1.0) c1++;
    if (valid) sym_check(kv.IsClamped() == (c0 == c1), "clamped exactly when both end knots have the same multiplicity");
    if (c0 < n) sym_check(kv.DetectDegree() == c0 - 1, "degree from the multiplicity of the first knot");
    sym_check(kv.Count() == n, "number of knots");
}
// list of distinct knots: arbitrary sorted doubles
ENTRY c04_list(int a0, int m, int a1)
{
    std::vector<double> v(a0, 0.0);
    for (int i = 0; i < m; i++)
    {
        double k = sym_double("k", i);
        sym_assume(k >= v.back()); sym_assume(k <= 1.0);
        v.push_back(k);
    }
    for (int i = 0; i < a1; i++) v.push_back(1.0);
    KnotVector kv(v);
    auto pairs = kv.GetKnotPairs();
    int n = (int)v.size(), q = 0;
    for (int i = 0; i < n; q++)
    {
        int j = i; while (j < n && v[j] == v[i]) j++;
        sym_check(q < (int)pairs.size(), "one entry per distinct knot");
        sym_check(pairs[q].Value == v[i], "entry: value");
        sym_check(pairs[q].Multiplicity == j - i, "entry: multiplicity");
        sym_check(pairs[q].Index == i, "entry: first position");
        i = j;
    }
    sym_check(q == (int)pairs.size(), "no further entries");
}
// multiplicity, uniformity on knots that are equal or clearly apart
ENTRY c04_mult(int p, int pat)
{
    auto in = interior("t", pat, 0, GAP);
    auto U = knots(p, pat, in);
    KnotVector kv(U);
    double u = sym_real("u", 0, 0.0, 1.0);
    int e = 0;
    for (double t : U)
    {
        if (t == u) e++;
        else sym_assume(t - u > GAP || u - t > GAP);
    }
    int got = kv.GetMultiplicity(u);
    sym_check(got == e, "multiplicity counts the equal knots");
    sym_out("m", 0, got);
}
ENTRY c04_uni(int p, int pat)
{
    auto in = interior("t", pat, 0, GAP);
    auto U = knots(p, pat, in);
    KnotVector kv(U);
    int m = (int)in.size(); bool uni = true;
    double g0 = m ? in[0] : 1.0;
    for (int i = 1; i <= m; i++)
    {
        double g = (i == m ? 1.0 : in[i]) - in[i - 1];
        if (g == g0) continue;
        sym_assume(g - g0 > GAP || g0 - g > GAP);
        uni = false;
    }
    sym_check(kv.IsUniform() == uni, "uniform exactly when the distinct knots are equally spaced");
    sym_check(kv.IsValid() && kv.IsClamped() && kv.DetectDegree() == p, "valid, clamped, degree");
    for (size_t i = 0; i < U.size(); i++) sym_same(kv.Values()[i], U[i], "queries change nothing");
}
// C05: insertion among arbitrary sorted doubles
ENTRY c05_insert(int p, int m, int tmax)
{
    std::vector<double> v(p + 1, 0.0);
    for (int i = 0; i < m; i++)
    {
        double k = sym_double("k", i);
        sym_assume(k >= v.back()); sym_assume(k <= 1.0);
        v.push_back(k);
    }
    for (int i = 0; i <= p; i++) v.push_back(1.0);
    double x = sym_double("x", 0); sym_assume(x > 0.0 && x < 1.0);
    int times = sym_int("n", 0, 0, tmax);
    KnotVector kv(v);
    int r = kv.InsertKnot(x, times);
    int n = (int)v.size();
    sym_check(r >= 0 && r + 1 < n, "returned span exists in the original vector");
    sym_check(v[r] <= x && x < v[r + 1], "returned span of the original vector contains the value");
    std::vector<double> e;
    size_t i = 0;
    while (i < v.size() && v[i] <= x) e.push_back(v[i++]);
    for (int k = 0; k < times; k++) e.push_back(x);
    while (i < v.size()) e.push_back(v[i++]);
    sym_check(kv.Values().size() == e.size(), "one knot more per copy");
    for (size_t k = 0; k < e.size(); k++) sym_check(kv.Values()[k] == e[k], "sorted merge of old and inserted knots");
    // default: once
    KnotVector k1(v);
    int r1 = k1.InsertKnot(x);
    sym_check(r1 == r && k1.Values().size() == v.size() + 1, "single insertion");
}
ENTRY c05_reverse(int p, int pat)
{
    auto U = makeKnots("t", p, pat, 0);
    KnotVector kv(U);
    kv.Reverse();
    auto R = kv.Values(); size_t n = U.size();
    sym_check(R.size() == n, "same number of knots");
    for (size_t i = 0; i < n; i++) sym_eq(R[i], 1.0 - U[n - 1 - i], "knots t become 1 - t in reverse order");
    sym_check(kv.IsValid(), "the reversed vector is valid");
    kv.Reverse();
    for (size_t i = 0; i < n; i++) sym_eq(kv.Values()[i], U[i], "reversing twice gives the original vector");
}
ENTRY c05_reverse_fp(int p, int m, int order)
{
    std::vector<double> v(p + 1, 0.0);
    for (int i = 0; i < m; i++)
    {
        double k = sym_double("k", i);
        sym_assume(k >= v.back()); sym_assume(k <= 1.0);
        v.push_back(k);
    }
    for (int i = 0; i <= p; i++) v.push_back(1.0);
    KnotVector kv(v); kv.Reverse();
    int n = (int)v.size();
    sym_check(kv.Count() == n, "same number of knots");
    for (int i = 0; i < n; i++) sym_check(kv.Values()[i] == 1.0 - v[n - 1 - i], "knots t become 1 - t in reverse order (rounded)");
    if (order) for (int i = 1; i < n; i++) sym_check(kv.Values()[i] >= kv.Values()[i - 1], "sorted after reversing (rounded)");
    sym_check(kv.Values()[0] == 0.0 && kv.Values()[n - 1] == 1.0, "runs from 0 to 1 after reversing");
}

// many fixed knots (three copies of every third), the inserted value symbolic
ENTRY c05_many(int p, int n, int times)
{
    std::vector<double> v(p + 1, 0.0);
    for (int i = 1; i <= n; i++) for (int k = 0; k < (i % 3 ? 1 : 3); k++) v.push_back((double)i / (n + 1));
    for (int i = 0; i <= p; i++) v.push_back(1.0);
    double x = newKnot("x", 0);
    KnotVector kv(v); int r = kv.InsertKnot(x, times);
    sym_check(r >= 0 && r + 1 < (int)v.size(), "returned span exists in the original vector");
    sym_check(v[r] <= x && x < v[r + 1], "returned span of the original vector contains the value");
    exactKnots(kv.Values(), merged(v, x, times), "sorted merge of old and inserted knots");
    KnotVector w(v); w.Reverse();
    for (size_t i = 0; i < v.size(); i++) sym_eq(w.Values()[i], 1.0 - v[v.size() - 1 - i], "knots t become 1 - t in reverse order");
}
// queries on many knots: one interior knot is symbolic, the others are fixed
ENTRY c04_many(int p, int n, int at, int m)
{
    std::vector<double> U(p + 1, 0.0);
    double g = 1.0 / (n + 1), t = sym_real("t", 0, at * g, (at + 1) * g);
    for (int i = 1; i <= n; i++)
    {
        int c = i == at ? 1 : i % 4 == 3 ? 2 : 1;
        for (int k = 0; k < c; k++) U.push_back(i * g);
        if (i == at) for (int k = 0; k < m; k++) U.push_back(t);
    }
    for (int i = 0; i <= p; i++) U.push_back(1.0);
    sym_assume((t == at * g || t - at * g > GAP) && (t == (at + 1) * g || (at + 1) * g - t > GAP));
    KnotVector kv(U);
    auto pairs = kv.GetKnotPairs(); int q = 0, N = (int)U.size();
    for (int i = 0; i < N; q++)
    {
        int j = i; while (j < N && U[j] == U[i]) j++;
        sym_check(q < (int)pairs.size(), "one entry per distinct knot");
        sym_same(pairs[q].Value, U[i], "entry: value"); sym_check(pairs[q].Multiplicity == j - i, "entry: multiplicity"); sym_check(pairs[q].Index == i, "entry: first position");
        sym_check(kv.GetMultiplicity(U[i]) == j - i, "multiplicity counts the equal knots");
        i = j;
    }
    sym_check(q == (int)pairs.size(), "no further entries");
    sym_check(kv.IsValid() && kv.IsClamped() && kv.DetectDegree() == p && kv.Count() == N, "valid, clamped, degree, count");
    bool mid = m > 0 && t != at * g && t != (at + 1) * g;
    sym_assume(!mid || n > 1);
    if (!mid) sym_check(kv.IsUniform(), "uniform exactly when the distinct knots are equally spaced");
    else sym_check(!kv.IsUniform(), "not uniform with an additional knot between");
    KnotVector kp(pairs); exactKnots(kp.Values(), U, "the list of pairs gives the knot vector back");
}
// ---- the queries follow every change of the same object
static void queriesAgree(const KnotVector& kv, const std::vector<double>& U, int p)
{
    auto pairs = kv.GetKnotPairs(); int q = 0, N = (int)U.size();
    sym_check(kv.Count() == N && (int)kv.Values().size() == N, "number of knots");
    for (int i = 0; i < N; i++) sym_eq(kv.Values()[i], U[i], "values after the edit");
    for (int i = 0; i < N; q++)
    {
        int j = i; while (j < N && U[j] == U[i]) j++;
        sym_check(q < (int)pairs.size(), "one entry per distinct knot (after an edit)");
        sym_eq(pairs[q].Value, U[i], "entry: value (after an edit)"); sym_check(pairs[q].Multiplicity == j - i && pairs[q].Index == i, "entry: multiplicity and position (after an edit)");
        sym_check(kv.GetMultiplicity(U[i]) == j - i, "multiplicity counts the equal knots (after an edit)");
        i = j;
    }
    sym_check(q == (int)pairs.size(), "no further entries (after an edit)");
    sym_check(kv.IsValid() && kv.IsClamped() && kv.DetectDegree() == p, "valid, clamped, degree (after an edit)");
}
ENTRY c04_edits(int p, int pat, int way)
{
    auto in = interior("t", pat, 1, GAP); auto U = knots(p, pat, in), O = otherKnots(p, (int)U.size());
    double x = newKnot("x", 0); for (double t : in) if (t != x) apart(t, x);
    inside(x);
    KnotVector kv(U); queriesAgree(kv, U, p);
    auto rev = [](std::vector<double> v) { std::vector<double> r; for (size_t i = v.size(); i-- > 0;) r.push_back(1.0 - v[i]); return r; };
    if (way == 0) { kv.InsertKnot(x, 2); auto E = merged(U, x, 2); queriesAgree(kv, E, p); kv.Reverse(); queriesAgree(kv, rev(E), p); }
    else if (way == 1) { kv.Values() = O; queriesAgree(kv, O, p); kv.InsertKnot(x); for (double t : O) if (t != x) sym_assume(t - x > GAP || x - t > GAP); queriesAgree(kv, merged(O, x, 1), p); }
    else if (way == 2) { KnotVector o(O); queriesAgree(o, O, p); KnotVector k = kv; k.InsertKnot(x); queriesAgree(k, merged(U, x, 1), p); queriesAgree(kv, U, p); kv = o; queriesAgree(kv, O, p); queriesAgree(k, merged(U, x, 1), p); }
    else { kv.Reverse(); queriesAgree(kv, rev(U), p); kv.Values()[p + 1] = 1.0 / 1024; auto E = rev(U); E[p + 1] = 1.0 / 1024; queriesAgree(kv, E, p); kv = KnotVector::Uniform(p + 1, 2 * p + 7); std::vector<double> W(p + 2, 0.0); for (int i = 1; i <= 3; i++) W.push_back(i * 0.25); W.insert(W.end(), p + 2, 1.0); queriesAgree(kv, W, p + 1); sym_check(kv.IsUniform(), "uniform after replacing"); }
}
