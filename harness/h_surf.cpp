// C14-C18, C20, C21 and C30 (surfaces).
#include "util.h"
#include <sstream>
#include <cmath>
using namespace hx;

static double weightOf(const char* n, int i, int wmode) { return wmode == 0 ? 1.0 : wmode == 1 ? sym_real(n, i, WMIN, WMAX) : fixedWeight(i); }
// A surface's data in plain form: P[j * nu + i] belongs to place i in the u and j in the v direction
struct SRef { int p, q; std::vector<double> U, V; int nu, nv; std::vector<Vec4> P; };
// cmode 0: symbolic coordinates, 1: fixed, 2: one symbolic coordinate
static SRef makeS(int p, int pu, int ku, int q, int pv, int kv, int wmode, int cmode, double gap = GAP)
{
    SRef s; s.p = p; s.q = q; s.U = makeKnots("t", p, pu, ku, gap); s.V = makeKnots("r", q, pv, kv, gap);
    s.nu = (int)s.U.size() - p - 1; s.nv = (int)s.V.size() - q - 1;
    for (int k = 0; k < s.nu * s.nv; k++)
    {
        Vec4 v(fixedCoord(k, 0), fixedCoord(k, 1), fixedCoord(k, 2), 1.0);
        for (int c = 0; c < 3; c++) if (cmode == 0 || (cmode == 2 && c == 0)) v[c] = sym_real("P", 4 * k + c, -COORD, COORD);
        v[3] = weightOf("P", 4 * k + 3, wmode);
        if (wmode == 2) v[3] = fixedWeight(k);
        s.P.push_back(v);
    }
    return s;
}
static SRef otherS(const SRef& s)
{
    SRef o = s; o.U = otherKnots(s.p, (int)s.U.size()); o.V = otherKnots(s.q, (int)s.V.size());
    for (int k = 0; k < (int)o.P.size(); k++) o.P[k] = Vec4(fixedCoord(k + 3, 0), fixedCoord(k + 3, 1), fixedCoord(k + 3, 2), fixedWeight(k + 2));
    return o;
}
static void exercise(const Surface& s)
{
    (void)s.Evaluate(0.25, 0.5); (void)s.Evaluate(1.0, 1.0); (void)s.EvaluateAll(0.25, 0.5, 1, 2); (void)s.EvaluateDerivative(0.5, 0.25, 1, 0); (void)s.IsRational();
    Surface a = s.InsertKnotU(0.3125), b = s.InsertKnotV(0.3125); (void)a.RemoveKnotU(0.3125, 1, 1e-6); (void)b.RemoveKnotV(0.3125, 1, 1e-6);
    (void)s.InsertKnotU(0.625, s.DegreeU); (void)s.InsertKnotV(0.625, s.DegreeV);
    std::vector<double> l{0.71875, 0.15625}; (void)s.InsertKnotU(std::span<double>(l)); (void)s.InsertKnotV(std::span<double>(l));
    for (int t = 1; t <= 2; t++) { (void)s.ElevateDegreeU(t); (void)s.ElevateDegreeV(t); }
    (void)s.Transform(Mat3x3::Identity());
}
static void setSurf(Surface& r, const SRef& s)
{
    r.DegreeU = s.p; r.DegreeV = s.q; r.KnotsU.Values() = s.U; r.KnotsV.Values() = s.V; r.ControlPoints.UCount = s.nu; r.ControlPoints.VCount = s.nv; r.ControlPoints.Values.resize(s.nu * s.nv);
    for (int j = 0; j < s.nv; j++) for (int i = 0; i < s.nu; i++) r.ControlPoints.Get(i, j) = s.P[j * s.nu + i];
}
static Surface toSurf(const SRef& s)
{
    Surface r;
    if (warmFlag)
    {
        int keep = warmFlag; warmFlag = 0; r = toSurf(otherS(s)); exercise(r); setSurf(r, s); warmFlag = keep; return r;
    }
     r.DegreeU = s.p; r.DegreeV = s.q; r.KnotsU = KnotVector(s.U); r.KnotsV = KnotVector(s.V); r.ControlPoints = ControlPointGrid(s.nu, s.nv);
    for (int j = 0; j < s.nv; j++) for (int i = 0; i < s.nu; i++) r.ControlPoints.Get(i, j) = s.P[j * s.nu + i];
    return r;
}
static void shapeOk(const Surface& s)
{
    sym_check(s.ControlPoints.UCount > 0 && s.ControlPoints.VCount > 0 && s.ControlPoints.Values.size() == (size_t)s.ControlPoints.UCount * s.ControlPoints.VCount, "the grid has its declared size");
    sym_check((int)s.KnotsU.Values().size() == s.ControlPoints.UCount + s.DegreeU + 1, "u knots = control points + degree + 1");
    sym_check((int)s.KnotsV.Values().size() == s.ControlPoints.VCount + s.DegreeV + 1, "v knots = control points + degree + 1");
    for (auto& P : s.ControlPoints.Values) sym_check(P[3] > 0.0, "weights stay positive");
}
static SRef ofSurf(const Surface& s)
{
    SRef r{s.DegreeU, s.DegreeV, s.KnotsU.Values(), s.KnotsV.Values(), s.ControlPoints.UCount, s.ControlPoints.VCount, {}};
    for (int j = 0; j < r.nv; j++) for (int i = 0; i < r.nu; i++) r.P.push_back(s.ControlPoints.Get(i, j));
    return r;
}
static Vec4 homoDer(const SRef& s, double u, double v, int k, int l)
{
    Vec4 r = Vec4::Zero(); int su = spanOf(s.U, s.p, u), sv = spanOf(s.V, s.q, v);
    std::vector<double> N, M;
    for (int i = su - s.p; i <= su; i++) N.push_back(coxDeBoorDer(i, s.p, s.U, u, k));
    for (int j = sv - s.q; j <= sv; j++) M.push_back(coxDeBoorDer(j, s.q, s.V, v, l));
    for (int j = 0; j <= s.q; j++)
    {
        Vec4 t = Vec4::Zero();
        for (int i = 0; i <= s.p; i++)
        {
            const Vec4& P = s.P[(sv - s.q + j) * s.nu + su - s.p + i];
            for (int c = 0; c < 3; c++) t[c] += N[i] * (P[3] * P[c]);
            t[3] += N[i] * P[3];
        }
        for (int c = 0; c < 4; c++) r[c] += M[j] * t[c];
    }
    return r;
}
static void same(const SRef& a, const SRef& b, double u, double v, const char* m)
{
    Vec4 x = homoDer(a, u, v, 0, 0), y = homoDer(b, u, v, 0, 0);
    for (int c = 0; c < 3; c++) sym_eq(x[c] / x[3], y[c] / y[3], m);
}
static void sameS(const Surface& s, const SRef& r, const char* m)
{
    sym_check(s.DegreeU == r.p && s.DegreeV == r.q && s.ControlPoints.UCount == r.nu && s.ControlPoints.VCount == r.nv && s.ControlPoints.Values.size() == r.P.size(), m);
    exactKnots(s.KnotsU.Values(), r.U, m); exactKnots(s.KnotsV.Values(), r.V, m);
    for (int j = 0; j < r.nv; j++) for (int i = 0; i < r.nu; i++) for (int c = 0; c < 4; c++) sym_same(s.ControlPoints.Get(i, j)[c], r.P[j * r.nu + i][c], m);
}
static void unchanged(const Surface& s, const SRef& r) { sameS(s, r, "the receiver is unchanged"); }
static void outs(const Surface& s) { int k = 0; for (auto& P : s.ControlPoints.Values) for (int c = 0; c < 4; c++) sym_out("q", k++, P[c]); }
static double par(const char* n) { return sym_real(n, 0, 0.0, 1.0); }

ENTRY c14_eval(int p, int pu, int ku, int q, int pv, int kv, int wmode, int cmode)
{
    SRef r = makeS(p, pu, ku, q, pv, kv, wmode, cmode, TINY); Surface s = toSurf(r);
    double u = par("u"), v = par("v");
    Vec3 x = s.Evaluate(u, v); Vec4 h = homoDer(r, u, v, 0, 0);
    for (int c = 0; c < 3; c++) { sym_eq(x[c], h[c] / h[3], "the point is the weighted sum of the control points"); sym_out("x", c, x[c]); }
    unchanged(s, r);
}
ENTRY c14_corners(int p, int pu, int q, int pv)
{
    SRef r = makeS(p, pu, 0, q, pv, 0, 1, 0, TINY); Surface s = toSurf(r);
    for (int k = 0; k < 4; k++)
    {
        Vec3 x = s.Evaluate(k & 1 ? 1.0 : 0.0, k & 2 ? 1.0 : 0.0);
        const Vec4& P = r.P[(k & 2 ? r.nv - 1 : 0) * r.nu + (k & 1 ? r.nu - 1 : 0)];
        for (int c = 0; c < 3; c++) sym_eq(x[c], P[c], "corner control point is interpolated");
    }
    unchanged(s, r);
}
ENTRY c14_twice(int p, int pu, int ku, int q, int pv, int kv, int wmode, int cmode, int how)
{
    SRef r = makeS(p, pu, ku, q, pv, kv, wmode, cmode, TINY), o = otherS(r);
    double u = par("u"), v = par("v");
    auto is = [](const Surface& s, const SRef& r, double u, double v) { Vec3 x = s.Evaluate(u, v); Vec4 h = homoDer(r, u, v, 0, 0); for (int c = 0; c < 3; c++) sym_eq(x[c], h[c] / h[3], "the point does not depend on earlier calls"); };
    if (how == 0) { Surface s = toSurf(r); is(s, r, u, v); is(s, r, v, u); is(s, r, u, 0.5); is(s, r, 0.5, v); is(s, r, u, v); unchanged(s, r); }
    else if (how == 1) { Surface s = toSurf(o); is(s, o, u, v); setSurf(s, r); is(s, r, u, v); unchanged(s, r); for (auto& P : s.ControlPoints.Values) P[1] += 1.0; SRef m = ofSurf(s); is(s, m, u, v); }
    else { Surface a = toSurf(o), b = toSurf(r); is(a, o, u, v); is(b, r, u, v); is(a, o, u, v); Surface k = b; b = a; is(k, r, u, v); is(b, o, u, v); }
}
static long binom(int n, int k) { long r = 1; for (int i = 1; i <= k; i++) r = r * (n - i + 1) / i; return r; }
ENTRY c15_ders(int p, int pu, int ku, int q, int pv, int kv, int wmode, int cmode, int ou, int ov)
{
    SRef r = makeS(p, pu, ku, q, pv, kv, wmode, cmode, TINY); Surface s = toSurf(r);
    double u = par("u"), v = par("v");
    auto d = s.EvaluateAll(u, v, ou, ov);
    sym_check(d.UCount == ou + 1 && d.VCount == ov + 1 && d.Values.size() == size_t((ou + 1) * (ov + 1)), "one entry per pair of orders");
    std::vector<std::vector<Vec4>> h(ou + 1);
    for (int k = 0; k <= ou; k++) for (int l = 0; l <= ov; l++) h[k].push_back(homoDer(r, u, v, k, l));
    if (!sym_symbolic())
    {
        std::vector<std::vector<double>> N(ou + 1), M(ov + 1), m(ou + 1, std::vector<double>(ov + 1)); double top = 1;
        auto sum = [](int sp, int p, const std::vector<double>& U, double x, int k) { double a = 0; for (int i = sp - p; i <= sp; i++) a += std::fabs(coxDeBoorDer(i, p, U, x, k)); return a; };
        int su = spanOf(r.U, p, u), sv = spanOf(r.V, q, v);
        for (int k = 0; k <= ou; k++) for (int l = 0; l <= ov; l++)
        {
            double a = 32 * sum(su, p, r.U, u, k) * sum(sv, q, r.V, v, l);
            for (int i = 0; i <= k; i++) for (int j = 0; j <= l; j++) if (i + j) a += binom(k, i) * binom(l, j) * 4 * sum(su, p, r.U, u, i) * sum(sv, q, r.V, v, j) * m[k - i][l - j];
            m[k][l] = a / h[0][0][3]; top = std::max(top, m[k][l]);
        }
        sym_scale(top);
    }
    for (int k = 0; k <= ou; k++) for (int l = 0; l <= ov; l++) for (int c = 0; c < 3; c++)
    {
        double a = h[k][l][c];
        for (int i = 0; i <= k; i++) for (int j = 0; j <= l; j++) if (i + j) a -= binom(k, i) * binom(l, j) * h[i][j][3] * d.Get(k - i, l - j)[c];
        sym_eq(d.Get(k, l)[c], a / h[0][0][3], "mixed derivative of the rational surface");
    }
    for (int k = 0; k <= ou; k++) for (int l = 0; l <= ov; l++)
    {
        Vec3 e = s.EvaluateDerivative(u, v, k, l);
        for (int c = 0; c < 3; c++) sym_eq(e[c], d.Get(k, l)[c], "single order equals the entry of the grid");
    }
    for (int c = 0; c < 3; c++) sym_out("d", c, d.Get(ou < 2 ? ou : 2, ov < 2 ? ov : 2)[c]);
    unchanged(s, r);
}
// ---- C16: way 0 single, 1 times, 2 list of n values
ENTRY c16_insert(int dir, int p, int pu, int ku, int q, int pv, int kv, int wmode, int cmode, int way, int n, int at)
{
    SRef r = makeS(p, pu, ku, q, pv, kv, wmode, cmode, TINY); Surface s = toSurf(r);
    const std::vector<double>& K = dir == 0 ? r.U : r.V; int deg = dir == 0 ? p : q;
    std::vector<double> xs, E = K;
    for (int i = 0; i < n; i++) { double x = i && way < 2 ? xs[0] : at > 0 && i == 0 ? distinct(K)[at - 1] : newKnot("x", i); xs.push_back(x); E = merged(E, x, 1); }
    for (double x : xs) sym_assume(multOf(E, x) <= deg);
    Surface d;
    if (way == 0) d = dir == 0 ? s.InsertKnotU(xs[0]) : s.InsertKnotV(xs[0]);
    else if (way == 1) d = dir == 0 ? s.InsertKnotU(xs.empty() ? 0.5 : xs[0], n) : s.InsertKnotV(xs.empty() ? 0.5 : xs[0], n);
    else { auto ys = xs; d = dir == 0 ? s.InsertKnotU(std::span<double>(ys)) : s.InsertKnotV(std::span<double>(ys)); }
    unchanged(s, r);
    sym_check(d.DegreeU == p && d.DegreeV == q, "degrees kept");
    exactKnots((dir == 0 ? d.KnotsU : d.KnotsV).Values(), E, "knots merged");
    exactKnots((dir == 0 ? d.KnotsV : d.KnotsU).Values(), dir == 0 ? r.V : r.U, "the other direction's knots are kept");
    sym_check(d.ControlPoints.UCount == r.nu + (dir == 0 ? n : 0) && d.ControlPoints.VCount == r.nv + (dir == 1 ? n : 0), "one row or column per inserted knot");
    shapeOk(d);
    double u = par("u"), v = par("v");
    same(ofSurf(d), r, u, v, "same point after inserting knots");
    outs(d);
}
// rows (dir 0) or columns (dir 1) of the grid as curves in that direction
static SRef insertRef(const SRef& r, int dir, double x, int times)
{
    SRef o = r; std::vector<std::vector<Vec4>> rows; int n = dir == 0 ? r.nv : r.nu, m = dir == 0 ? r.nu : r.nv;
    for (int j = 0; j < n; j++)
    {
        Ref c; c.p = dir == 0 ? r.p : r.q; c.U = dir == 0 ? r.U : r.V;
        for (int i = 0; i < m; i++) c.P.push_back(dir == 0 ? r.P[j * r.nu + i] : r.P[i * r.nu + j]);
        Ref d = boehm(c, x, times); rows.push_back(d.P);
        (dir == 0 ? o.U : o.V) = d.U;
    }
    (dir == 0 ? o.nu : o.nv) = m + times;
    o.P.assign(o.nu * o.nv, Vec4::Zero());
    for (int j = 0; j < n; j++) for (int i = 0; i < m + times; i++) (dir == 0 ? o.P[j * o.nu + i] : o.P[i * o.nu + j]) = rows[j][i];
    return o;
}
static std::vector<double> without(std::vector<double> U, double x, int t) { for (int i = 0; i < t; i++) for (size_t k = 0; k < U.size(); k++) if (U[k] == x) { U.erase(U.begin() + k); break; } return U; }
// ---- C17: s copies that can be removed on top of what the surface has
ENTRY c17_removable(int dir, int p, int pu, int ku, int q, int pv, int kv, int wmode, int cmode, int s, int times, int at)
{
    SRef r = makeS(p, pu, ku, q, pv, kv, wmode, cmode);
    const std::vector<double>& K = dir == 0 ? r.U : r.V; int deg = dir == 0 ? p : q;
    double x = at > 0 ? distinct(K)[at - 1] : newKnot("x", 0);
    if (at == 0) { for (double t : distinct(K)) apart(t, x); inside(x); }
    int m0 = multOf(K, x);
    sym_assume(m0 + s <= deg);
    SRef big = insertRef(r, dir, x, s);
    Surface b = toSurf(big);
    auto [d, t] = dir == 0 ? b.RemoveKnotU(x, times, 1e-6) : b.RemoveKnotV(x, times, 1e-6);
    unchanged(b, big);
    sym_check(t >= 0 && t <= times && t <= m0 + s, "reported number within the request and the multiplicity");
    if (times <= s || m0 == 0) sym_check(t == (times < s ? times : s), "all requested copies of a removable knot are removed");
    if (t == 0) { sameS(d, big, "nothing removed: the result equals the original"); return; }
    sym_check(d.DegreeU == p && d.DegreeV == q, "degrees kept");
    exactKnots((dir == 0 ? d.KnotsU : d.KnotsV).Values(), without(dir == 0 ? big.U : big.V, x, t), "exactly the reported copies are gone");
    exactKnots((dir == 0 ? d.KnotsV : d.KnotsU).Values(), dir == 0 ? r.V : r.U, "the other direction's knots are kept");
    sym_check(d.ControlPoints.UCount == big.nu - (dir == 0 ? t : 0) && d.ControlPoints.VCount == big.nv - (dir == 1 ? t : 0), "one row or column less per removed knot");
    sym_check(d.ControlPoints.Values.size() == size_t(d.ControlPoints.UCount * d.ControlPoints.VCount), "the grid has its declared size");
    if (t <= s)
    {
        shapeOk(d);
        double u = par("u"), v = par("v");
        same(ofSurf(d), r, u, v, "same point after removing a removable knot");
    }
    outs(d);
}
// nothing but what is reported, one coordinate, arbitrary surface; bad: how many rows' points are displaced
ENTRY c17_any(int dir, int p, int pu, int q, int pv, int wmode, int at, int times, int s, int row)
{
    SRef r = makeS(p, pu, 1, q, pv, 1, wmode, 1);
    double x = at > 0 ? distinct(dir == 0 ? r.U : r.V)[at - 1] : 0.5;
    SRef big = insertRef(r, dir, x, s);
    // displace points of one row (or column): that row may no longer allow removal
    int k = dir == 0 ? row * big.nu + big.nu / 2 : (big.nv / 2) * big.nu + row;
    double e = sym_real("e", 0, -2.0, 2.0);
    big.P[k][0] += e;
    int m = multOf(dir == 0 ? big.U : big.V, x);
    Surface b = toSurf(big); double tol = 0.125;
    auto [d, t] = dir == 0 ? b.RemoveKnotU(x, times, tol) : b.RemoveKnotV(x, times, tol);
    unchanged(b, big);
    sym_check(t >= 0 && t <= times && t <= m, "reported number within the request and the multiplicity");
    if (t == 0) { sameS(d, big, "nothing removed: the result equals the original"); sym_reach("kept"); return; }
    sym_check(d.DegreeU == p && d.DegreeV == q, "degrees kept");
    exactKnots((dir == 0 ? d.KnotsU : d.KnotsV).Values(), without(dir == 0 ? big.U : big.V, x, t), "exactly the reported copies are gone");
    exactKnots((dir == 0 ? d.KnotsV : d.KnotsU).Values(), dir == 0 ? r.V : r.U, "the other direction's knots are kept");
    sym_check(d.ControlPoints.UCount == big.nu - (dir == 0 ? t : 0) && d.ControlPoints.VCount == big.nv - (dir == 1 ? t : 0), "one row or column less per removed knot");
    shapeOk(d);
    double u = par("u"), v = par("v");
    Vec4 y = homoDer(big, u, v, 0, 0), z = homoDer(ofSurf(d), u, v, 0, 0);
    sym_le(std::fabs(y[0] / y[3] - z[0] / z[3]), t * tol * 1.0000001, "within the tolerance per removed copy");
    sym_reach("removed");
}
// rows that differ in how many copies can be removed: digit k of `rem` (most significant first) is row k's number, out of m copies
ENTRY c17_mixed(int dir, int p, int other, int m, int rem, int times)
{
    int rows = patLen(rem); double x = 0.375, tol = 0.015625, e = sym_real("e", 0, -2.0, 2.0);
    SRef big; std::vector<double> K, O = makeKnots("o", other, rows - other - 1 > 0 ? (rows - other - 1 == 1 ? 1 : 11) : 0, 2);
    std::vector<std::vector<Vec4>> R; int least = m;
    for (int k = 0; k < rows; k++)
    {
        int s = patAt(rem, k) - 1; if (s < least) least = s; // digits are counted from 1, so that a leading row can have none
        Ref c; c.p = p; c.U = std::vector<double>(p + 1, 0.0); c.U.insert(c.U.end(), m - s, x); c.U.insert(c.U.end(), p + 1, 1.0);
        for (int i = 0; i < (int)c.U.size() - p - 1; i++) c.P.push_back(Vec4(fixedCoord(7 * k + i, 0) + (k == 0 && i == p / 2 ? e : 0.0), fixedCoord(7 * k + i, 1), fixedCoord(7 * k + i, 2), 1.0));
        Ref d = boehm(c, x, s); R.push_back(d.P); K = d.U;
    }
    int n = (int)R[0].size();
    big.p = dir == 0 ? p : other; big.q = dir == 0 ? other : p; big.U = dir == 0 ? K : O; big.V = dir == 0 ? O : K; big.nu = dir == 0 ? n : rows; big.nv = dir == 0 ? rows : n;
    for (int j = 0; j < big.nv; j++) for (int i = 0; i < big.nu; i++) big.P.push_back(dir == 0 ? R[j][i] : R[i][j]);
    Surface b = toSurf(big);
    auto [d, t] = dir == 0 ? b.RemoveKnotU(x, times, tol) : b.RemoveKnotV(x, times, tol);
    unchanged(b, big);
    sym_check(t >= 0 && t <= times && t <= m, "reported number within the request and the multiplicity");
    if (times <= least) sym_check(t == times, "all requested copies of a removable knot are removed");
    if (t == 0) { sameS(d, big, "nothing removed: the result equals the original"); sym_reach("kept"); return; }
    sym_check(d.DegreeU == big.p && d.DegreeV == big.q, "degrees kept");
    exactKnots((dir == 0 ? d.KnotsU : d.KnotsV).Values(), without(K, x, t), "exactly the reported copies are gone");
    exactKnots((dir == 0 ? d.KnotsV : d.KnotsU).Values(), O, "the other direction's knots are kept");
    sym_check(d.ControlPoints.UCount == big.nu - (dir == 0 ? t : 0) && d.ControlPoints.VCount == big.nv - (dir == 1 ? t : 0), "one row or column less per removed knot");
    shapeOk(d);
    double u = par("u"), v = par("v");
    Vec4 y = homoDer(big, u, v, 0, 0), z = homoDer(ofSurf(d), u, v, 0, 0);
    for (int c = 0; c < 3; c++) sym_le(std::fabs(y[c] / y[3] - z[c] / z[3]), t * tol * 1.0000001, "within the tolerance per removed copy");
    sym_reach("removed");
}
ENTRY c17_absent(int dir, int p, int pu, int q, int pv, int times)
{
    SRef r = makeS(p, pu, 1, q, pv, 1, 1, 1); Surface s = toSurf(r);
    double x = newKnot("x", 0);
    for (double t : distinct(dir == 0 ? r.U : r.V)) apart(t, x);
    inside(x);
    auto [d, t] = dir == 0 ? s.RemoveKnotU(x, times, 1e-9) : s.RemoveKnotV(x, times, 1e-9);
    sym_check(t == 0, "a knot that is not there is not removed");
    unchanged(s, r); sameS(d, r, "nothing removed: the result equals the original");
}
// ---- C18
ENTRY c18_elevate(int dir, int p, int pu, int ku, int q, int pv, int kv, int wmode, int cmode, int times)
{
    SRef r = makeS(p, pu, ku, q, pv, kv, wmode, cmode); Surface s = toSurf(r);
    Surface d = dir == 0 ? s.ElevateDegreeU(times) : s.ElevateDegreeV(times);
    unchanged(s, r);
    sym_check(d.DegreeU == p + (dir == 0 ? times : 0) && d.DegreeV == q + (dir == 1 ? times : 0), "degree raised in that direction only");
    exactKnots((dir == 0 ? d.KnotsU : d.KnotsV).Values(), raised(dir == 0 ? r.U : r.V, times), "every multiplicity raised");
    exactKnots((dir == 0 ? d.KnotsV : d.KnotsU).Values(), dir == 0 ? r.V : r.U, "the other direction's knots are kept");
    sym_check((dir == 0 ? d.ControlPoints.VCount == r.nv : d.ControlPoints.UCount == r.nu), "the other direction's size is kept");
    shapeOk(d);
    double u = par("u"), v = par("v");
    same(ofSurf(d), r, u, v, "same point after degree elevation");
    outs(d);
}
// ---- C20
// shape 0: planar grid along two axes (au, av with signs), interior points arbitrary; 1: arbitrary corner points
static double axisVal(const Vec3& v, int a) { return v[a]; }
ENTRY c20_planar(int p, int pu, int q, int pv, int au, int su, int av, int sv, int u_axis, int v_axis, int wmode)
{
    // grid edges along the axes au (u direction, sign su) and av (v direction, sign sv)
    SRef r; r.p = p; r.q = q; r.U = makeKnots("t", p, pu, 0); r.V = makeKnots("r", q, pv, 0);
    r.nu = (int)r.U.size() - p - 1; r.nv = (int)r.V.size() - q - 1;
    double a = sym_real("a", 0, 0.125, 8.0), b = sym_real("b", 0, 0.125, 8.0); Vec3 o; for (int c = 0; c < 3; c++) o[c] = sym_real("o", c, -8, 8);
    for (int j = 0; j < r.nv; j++) for (int i = 0; i < r.nu; i++)
    {
        Vec4 P; for (int c = 0; c < 3; c++) P[c] = o[c];
        bool corner = (i == 0 || i == r.nu - 1) && (j == 0 || j == r.nv - 1);
        if (corner) { if (i) P[au] += su * a; if (j) P[av] += sv * b; }
        else { double f = sym_real("f", 2 * (j * r.nu + i), 0, 1), g = sym_real("f", 2 * (j * r.nu + i) + 1, 0, 1); P[au] += su * a * f; P[av] += sv * b * g; }
        P[3] = weightOf("w", j * r.nu + i, wmode);
        r.P.push_back(P);
    }
    Surface s = toSurf(r);
    Surface d = s.AlignParameterDomain((Surface::AlignAxis)u_axis, (Surface::AlignAxis)v_axis);
    unchanged(s, r);
    shapeOk(d);
    SRef e = ofSurf(d);
    bool straight = au == u_axis && av == v_axis, crossed = au == v_axis && av == u_axis;
    double u = par("u"), v = par("v");
    if (straight || crossed)
    {
        // the parameter change is known
        double cu = straight ? u : v, cv = straight ? v : u; // original u is driven by ...
        double ou = su > 0 ? cu : 1.0 - cu, ov = sv > 0 ? cv : 1.0 - cv;
        Vec4 x = homoDer(e, u, v, 0, 0), y = homoDer(r, ou, ov, 0, 0);
        for (int c = 0; c < 3; c++) sym_eq(x[c] / x[3], y[c] / y[3], "the same surface after the exchange and reversal");
        Vec4 c00 = e.P[0], c10 = e.P[e.nu - 1], c01 = e.P[(e.nv - 1) * e.nu];
        sym_check(c10[u_axis] > c00[u_axis], "u runs along the positive first axis");
        sym_check(c01[v_axis] > c00[v_axis], "v runs along the positive second axis");
        sym_reach("aligned");
    }
}
// whatever the corners are: the grid is one of the eight exchanges and reversals of the original
ENTRY c20_any(int nu, int nv, int dim, int u_axis, int v_axis, int p, int q)
{
    SRef r; r.p = p; r.q = q; int pu = 0, pv = 0; for (int i = p + 1; i < nu; i++) pu = pu * 10 + 1; for (int i = q + 1; i < nv; i++) pv = pv * 10 + 1;
    r.U = makeKnots("t", p, pu, 1); r.V = makeKnots("r", q, pv, 1); r.nu = nu; r.nv = nv;
    for (int j = 0; j < nv; j++) for (int i = 0; i < nu; i++)
    {
        // the weight labels the place
        Vec4 P(fixedCoord(j * nu + i, 0), fixedCoord(j * nu + i, 1), fixedCoord(j * nu + i, 2), 1 + j * nu + i);
        bool corner = (i == 0 || i == nu - 1) && (j == 0 || j == nv - 1);
        if (corner) for (int c = 0; c < 3; c++) P[c] = (dim >> c) & 1 ? sym_real("P", 4 * (j * nu + i) + c, -4, 4) : (dim >> (c + 3)) & 1 ? (double)((i ? 1 : 0) + (j ? 2 : 0)) : 0.0;
        r.P.push_back(P);
    }
    Surface s = toSurf(r);
    Surface d = s.AlignParameterDomain((Surface::AlignAxis)u_axis, (Surface::AlignAxis)v_axis);
    unchanged(s, r);
    shapeOk(d);
    SRef e = ofSurf(d); bool any = false;
    for (int k = 0; k < 8 && !any; k++)
    {
        bool sw = k & 1, ru = k & 2, rv = k & 4;
        if (e.p != (sw ? q : p) || e.q != (sw ? p : q) || e.nu != (sw ? nv : nu) || e.nv != (sw ? nu : nv)) continue;
        bool ok = true;
        for (int j = 0; j < e.nv && ok; j++) for (int i = 0; i < e.nu && ok; i++)
        {
            int ii = ru ? e.nu - 1 - i : i, jj = rv ? e.nv - 1 - j : j; // place in the exchanged grid
            int oi = sw ? jj : ii, oj = sw ? ii : jj;
            if (e.P[j * e.nu + i][3] != 1 + oj * nu + oi) ok = false;
        }
        const std::vector<double>&KU = sw ? r.V : r.U, &KV = sw ? r.U : r.V;
        for (size_t i = 0; i < KU.size() && ok; i++) if (e.U[i] != (ru ? 1.0 - KU[KU.size() - 1 - i] : KU[i])) ok = false;
        for (size_t i = 0; i < KV.size() && ok; i++) if (e.V[i] != (rv ? 1.0 - KV[KV.size() - 1 - i] : KV[i])) ok = false;
        if (!ok) continue;
        any = true;
        for (int j = 0; j < e.nv; j++) for (int i = 0; i < e.nu; i++)
        {
            const Vec4& P = e.P[j * e.nu + i]; int o = (int)P[3] - 1;
            for (int c = 0; c < 3; c++) sym_same(P[c], r.P[o][c], "the control points are the original ones");
        }
    }
    sym_check(any, "the result is an exchange and reversal of the original");
}
// ---- C21
ENTRY c21_surf(int p, int pu, int ku, int q, int pv, int kv, int wmode, int cmode)
{
    SRef r = makeS(p, pu, ku, q, pv, kv, wmode, cmode, TINY); Surface s = toSurf(r);
    Mat3x3 R; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R(i, j) = sym_real("R", 3 * i + j, -4, 4);
    Surface d = s.Transform(R);
    unchanged(s, r);
    sym_check(d.DegreeU == p && d.DegreeV == q && d.ControlPoints.UCount == r.nu && d.ControlPoints.VCount == r.nv && d.ControlPoints.Values.size() == r.P.size(), "sizes and degrees kept");
    exactKnots(d.KnotsU.Values(), r.U, "u knots kept"); exactKnots(d.KnotsV.Values(), r.V, "v knots kept");
    for (int j = 0; j < r.nv; j++) for (int i = 0; i < r.nu; i++) sym_same(d.ControlPoints.Get(i, j)[3], r.P[j * r.nu + i][3], "weights kept");
    double u = par("u"), v = par("v");
    Vec4 a = homoDer(r, u, v, 0, 0), b = homoDer(ofSurf(d), u, v, 0, 0);
    for (int i = 0; i < 3; i++) { double x = 0; for (int j = 0; j < 3; j++) x += R(i, j) * (a[j] / a[3]); sym_eq(b[i] / b[3], x, "every point is transformed"); }
}
ENTRY c21_srational(int nu, int nv)
{
    Surface s; s.DegreeU = s.DegreeV = 1; s.ControlPoints = ControlPointGrid(nu, nv); bool e = false;
    std::vector<double> w;
    for (int i = 0; i < nu * nv; i++) { w.push_back(sym_double("w", i)); sym_assume(w[i] > 0.0); s.ControlPoints.Values[i] = Vec4(i, 0, 0, w[i]); }
    for (int i = 0; i < nu * nv; i++) for (int j = 0; j < i; j++) if (w[i] != w[j]) e = true;
    sym_check(s.IsRational() == e, "rational exactly when two weights differ (any doubles)");
}
// ---- C30: operations by decimal digit: 1/2 insert in u/v, 3/4 elevate u/v, 5/6 remove the knot inserted last in u/v,
// 7 save and load in binary form, 8/9 insert a list of two in u/v
ENTRY c30_schain(int p, int pu, int q, int pv, int wmode, int cmode, int ops)
{
    SRef r = makeS(p, pu, 1, q, pv, 1, wmode, cmode); Surface s = toSurf(r);
    static const double fx[] = {0.5, 0.3125, 0.8125, 0.125, 0.625, 0.1875, 0.6875, 0.0625}; double lu = -1, lv = -1; int n = patLen(ops), xi = 0;
    for (int i = 0; i < n; i++)
    {
        SRef before = ofSurf(s); Surface d;
        switch (patAt(ops, i))
        {
        case 1: lu = fx[xi++]; d = s.InsertKnotU(lu); break;
        case 2: lv = fx[xi++]; d = s.InsertKnotV(lv); break;
        case 3: d = s.ElevateDegreeU(1); break;
        case 4: d = s.ElevateDegreeV(1); break;
        case 5: { auto [x, t] = s.RemoveKnotU(lu, 1, 1e-6); sym_check(t == 1, "a knot just inserted can be removed (u)"); d = x; break; }
        case 7: { std::stringstream ss; s.SaveToFile(ss, true); unchanged(s, before); d = toSurf(r); d.LoadFromFile(ss); break; }
        case 8: { double l[] = {fx[xi], fx[xi + 1]}; xi += 2; d = s.InsertKnotU(std::span<double>(l)); lu = l[1]; break; }
        case 9: { double l[] = {fx[xi], fx[xi + 1]}; xi += 2; d = s.InsertKnotV(std::span<double>(l)); lv = l[1]; break; }
        default: { auto [x, t] = s.RemoveKnotV(lv, 1, 1e-6); sym_check(t == 1, "a knot just inserted can be removed (v)"); d = x; break; }
        }
        unchanged(s, before);
        s = d; shapeOk(s);
        sym_check(s.KnotsU.IsValid() && s.KnotsU.IsClamped() && s.KnotsV.IsValid() && s.KnotsV.IsClamped(), "the knot vectors stay valid");
    }
    double u = par("u"), v = par("v");
    same(ofSurf(s), r, u, v, "same point after the chain");
    outs(s);
}
WARMED(c14_eval, (int p, int pu, int ku, int q, int pv, int kv, int wmode, int cmode), p, pu, ku, q, pv, kv, wmode, cmode)
WARMED(c15_ders, (int p, int pu, int ku, int q, int pv, int kv, int wmode, int cmode, int ou, int ov), p, pu, ku, q, pv, kv, wmode, cmode, ou, ov)
WARMED(c16_insert, (int dir, int p, int pu, int ku, int q, int pv, int kv, int wmode, int cmode, int way, int n, int at), dir, p, pu, ku, q, pv, kv, wmode, cmode, way, n, at)
WARMED(c17_removable, (int dir, int p, int pu, int ku, int q, int pv, int kv, int wmode, int cmode, int s, int times, int at), dir, p, pu, ku, q, pv, kv, wmode, cmode, s, times, at)
WARMED(c18_elevate, (int dir, int p, int pu, int ku, int q, int pv, int kv, int wmode, int cmode, int times), dir, p, pu, ku, q, pv, kv, wmode, cmode, times)
WARMED(c21_surf, (int p, int pu, int ku, int q, int pv, int kv, int wmode, int cmode), p, pu, ku, q, pv, kv, wmode, cmode)
ENTRY c15_twice(int p, int pu, int q, int pv, int wmode, int cmode, int how, int ou, int ov)
{
    SRef r = makeS(p, pu, 1, q, pv, 2, wmode, cmode), o = otherS(r);
    double u = par("u"), v = par("v");
    auto is = [&](const Surface& s, const SRef& r, double u, double v, int ou, int ov)
    {
        auto d = s.EvaluateAll(u, v, ou, ov);
        sym_check(d.UCount == ou + 1 && d.VCount == ov + 1 && d.Values.size() == size_t((ou + 1) * (ov + 1)), "one entry per pair of orders");
        std::vector<std::vector<Vec4>> h(ou + 1);
        for (int k = 0; k <= ou; k++) for (int l = 0; l <= ov; l++) h[k].push_back(homoDer(r, u, v, k, l));
        if (!sym_symbolic()) { double m = 1; for (auto& x : h) for (auto& y : x) m = std::max(m, y.cwiseAbs().maxCoeff() * 64); sym_scale(m * m); }
        for (int k = 0; k <= ou; k++) for (int l = 0; l <= ov; l++) for (int c = 0; c < 3; c++)
        {
            double a = h[k][l][c];
            for (int i = 0; i <= k; i++) for (int j = 0; j <= l; j++) if (i + j) a -= binom(k, i) * binom(l, j) * h[i][j][3] * d.Get(k - i, l - j)[c];
            sym_eq(d.Get(k, l)[c], a / h[0][0][3], "the derivatives do not depend on earlier calls");
        }
        Vec3 e = s.EvaluateDerivative(u, v, ou, ov);
        for (int c = 0; c < 3; c++) sym_eq(e[c], d.Get(ou, ov)[c], "single order equals the entry of the grid");
    };
    if (how == 0) { Surface s = toSurf(r); is(s, r, u, v, ou, ov); is(s, r, v, u, ou, ov); is(s, r, u, v, ov, ou); is(s, r, u, v, ou, ov); }
    else if (how == 1) { Surface s = toSurf(o); is(s, o, u, v, ou, ov); setSurf(s, r); is(s, r, u, v, ou, ov); }
    else { Surface a = toSurf(o), b = toSurf(r); is(a, o, u, v, ou, ov); is(b, r, u, v, ou, ov); is(a, o, u, v, ou, ov); }
}
