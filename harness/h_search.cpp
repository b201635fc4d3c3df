// C13, C19: parameter searches on curves and surfaces.
#include "util.h"
#include <cmath>
using namespace hx;

static Curve straight(int p, const Vec3& a, const Vec3& b)
{
    Ref r; r.p = p; r.U = makeKnots("t", p, 0, 1);
    for (int i = 0; i <= p; i++) { double f = (double)i / p; r.P.push_back(Vec4(a[0] + (b[0] - a[0]) * f, a[1] + (b[1] - a[1]) * f, a[2] + (b[2] - a[2]) * f, 1.0)); }
    return toCurve(r);
}
// directions with exact lengths
static Vec3 direction(int k) { static const double d[][3] = {{1, 0, 0}, {0, 2, 0}, {0, 0, -0.5}, {3, 4, 0}, {0.25, -0.5, 0.5}, {2, 3, 6}, {0, 0.125, 0}}; return Vec3(d[k][0], d[k][1], d[k][2]); }
static double lengthOf(int k) { static const double l[] = {1, 2, 0.5, 5, 0.75, 7, 0.125}; return l[k]; }
static void inRange(double u) { sym_check(u >= 0.0 && u <= 1.0, "the parameter lies in [0,1]"); }

// a point of a uniformly parametrised straight segment is found from every start
ENTRY c13_line(int p, int dir, int epsInv, int iter)
{
    Vec3 a(0.5, -1.0, 0.25), b = a + direction(dir); Curve c = straight(p, a, b); Ref r = ofCurve(c);
    double s = sym_real("s", 0, 0.0, 1.0), u0 = sym_real("u0", 0, 0.0, 1.0), eps = 1.0 / epsInv;
    Vec3 q = a + s * direction(dir);
    double u = c.SearchParameter(q, u0, eps, iter);
    unchanged(c, r); inRange(u);
    double e = (u - s) * lengthOf(dir);
    sym_le(e, eps, "the point is found within epsilon"); sym_le(-e, eps, "the point is found within epsilon");
    sym_out("u", 0, u);
}
ENTRY c13_bisect(int p, int dir, int epsInv, int iter)
{
    Vec3 a(0.5, -1.0, 0.25), b = a + direction(dir); Curve c = straight(p, a, b); Ref r = ofCurve(c);
    double s = sym_real("s", 0, 0.0, 1.0), eps = 1.0 / epsInv;
    Vec3 q = a + s * direction(dir);
    double u = c.BinarySearchParameter(q, eps, iter);
    unchanged(c, r); inRange(u);
    double w = 0.5; for (int i = 0; i < iter; i++) w *= 0.5; double tol = w > eps ? w : eps;
    sym_le(u - s, tol, "found within epsilon or the last bisection width"); sym_le(s - u, tol, "found within epsilon or the last bisection width");
    sym_out("u", 0, u);
}
// the same on a segment of arbitrary length along an axis, arbitrary epsilon
ENTRY c13_line_any(int p, int axis, int iter, int kind)
{
    double L = sym_real("L", 0, -4.0, 4.0); sym_assume(L >= 0.25 || L <= -0.25);
    Vec3 a(0.5, -1.0, 0.25), d = Vec3::Zero(); d[axis] = L; Curve c = straight(p, a, a + d); Ref r = ofCurve(c);
    double s = sym_real("s", 0, 0.0, 1.0), eps = sym_real("eps", 0, 0.0009765625, 0.25);
    Vec3 q = a + s * d;
    double u = kind == 0 ? c.SearchParameter(q, sym_real("u0", 0, 0.0, 1.0), eps, iter) : c.BinarySearchParameter(q, eps, iter);
    unchanged(c, r); inRange(u);
    if (kind == 0) { double e = (u - s) * L; sym_le(e, eps, "the point is found within epsilon"); sym_le(-e, eps, "the point is found within epsilon"); }
    else
    {
        double w = 0.5; for (int i = 0; i < iter; i++) w *= 0.5; double tol = w > eps ? w : eps;
        sym_le(u - s, tol, "found within epsilon or the last bisection width"); sym_le(s - u, tol, "found within epsilon or the last bisection width");
    }
}
// a fixed curve along an axis (it may turn back); kind 0: any query point, 1: any start, 2: bisection, any query point
ENTRY c13_range_fixed(int p, int pat, int wmode, int seed, int iter, int kind)
{
    Ref r; r.p = p; r.U = makeKnots("t", p, pat, 1); int n = (int)r.U.size() - p - 1;
    for (int i = 0; i < n; i++) r.P.push_back(Vec4(0.0, fixedCoord(i + seed, 1), 0.0, wmode ? fixedWeight(i) : 1.0));
    Curve c = toCurve(r); Vec3 q(0.0, kind == 1 ? fixedCoord(seed, 2) : sym_real("q", 0, -4.0, 4.0), 0.0);
    double u = kind < 2 ? c.SearchParameter(q, kind == 1 ? sym_real("u0", 0, 0.0, 1.0) : 0.25, 0.0009765625, iter) : c.BinarySearchParameter(q, 0.0078125, iter);
    unchanged(c, r); inRange(u);
    sym_reach("returned");
}
// one symbolic coordinate per control point and of the query point, others fixed
static Ref anyRef(int p, int pat, int wmode)
{
    Ref r; r.p = p; r.U = makeKnots("t", p, pat, 1); int n = (int)r.U.size() - p - 1;
    for (int i = 0; i < n; i++) r.P.push_back(Vec4(sym_real("P", i, -2.0, 2.0), 0.0, 0.0, wmode ? fixedWeight(i) : 1.0));
    return r;
}
ENTRY c13_range(int p, int pat, int wmode, int iter, int kind)
{
    Ref r = anyRef(p, pat, wmode); Curve c = toCurve(r);
    Vec3 q(sym_real("q", 0, -4.0, 4.0), 0.0, 0.0);
    double u;
    if (kind == 0) u = c.SearchParameter(q, sym_real("u0", 0, 0.0, 1.0), 0.0009765625, iter);
    else { double eps = sym_real("eps", 0, 0.0, 2.0); sym_assume(eps > 0.0); u = c.BinarySearchParameter(q, eps, iter); }
    unchanged(c, r); inRange(u);
    sym_reach("returned");
}

// ---- surfaces ---------------------------------------------------------------------------------------------------------
static Surface toSurf(int p, int q, const std::vector<double>& U, const std::vector<double>& V, const std::vector<Vec4>& P)
{
    int nu = (int)U.size() - p - 1, nv = (int)V.size() - q - 1;
    Surface s; s.DegreeU = p; s.DegreeV = q; s.KnotsU = KnotVector(U); s.KnotsV = KnotVector(V); s.ControlPoints = ControlPointGrid(nu, nv);
    for (int i = 0; i < nu; i++) for (int j = 0; j < nv; j++) s.ControlPoints.Get(i, j) = P[i * nv + j];
    return s;
}
static void unchangedS(const Surface& s, int p, int q, const std::vector<double>& U, const std::vector<double>& V, const std::vector<Vec4>& P)
{
    int nu = (int)U.size() - p - 1, nv = (int)V.size() - q - 1;
    sym_check(s.DegreeU == p && s.DegreeV == q && s.ControlPoints.UCount == nu && s.ControlPoints.VCount == nv && s.KnotsU.Values().size() == U.size() && s.KnotsV.Values().size() == V.size(), "the receiver is unchanged (sizes)");
    exactKnots(s.KnotsU.Values(), U, "the receiver is unchanged (knots)"); exactKnots(s.KnotsV.Values(), V, "the receiver is unchanged (knots)");
    for (int i = 0; i < nu; i++) for (int j = 0; j < nv; j++) for (int c = 0; c < 4; c++) sym_same(s.ControlPoints.Get(i, j)[c], P[i * nv + j][c], "the receiver is unchanged (control points)");
}
static void kept(const std::pair<double, double>& r, int direction, double k) { sym_same(direction == 0 ? r.first : r.second, k, "the fixed coordinate is returned unchanged in its place"); inRange(r.first); inRange(r.second); }
static double freeOf(const std::pair<double, double>& r, int direction) { return direction == 0 ? r.second : r.first; }

// affine patch a + u*(length along one axis) + v*(length along another); kind 0: search, 1: bisection
ENTRY c19_line(int p, int q, int direction, int epsInv, int iter, int kind, int lengths)
{
    static const double L[][2] = {{1, 2}, {0.5, 1}, {4, 0.25}, {3, 3}, {0.125, 2}};
    double Lu = L[lengths][0], Lv = L[lengths][1];
    std::vector<double> U = makeKnots("t", p, 0, 1), V = makeKnots("r", q, 0, 1); std::vector<Vec4> P;
    for (int i = 0; i <= p; i++) for (int j = 0; j <= q; j++) P.push_back(Vec4(0.5 + Lu * i / p, -1.0, 0.25 - Lv * j / q, 1.0));
    Surface sf = toSurf(p, q, U, V, P);
    double s = sym_real("s", 0, 0.0, 1.0), k = sym_real("k", 0, 0.0, 1.0), eps = 1.0 / epsInv, len = direction == 0 ? Lv : Lu;
    double u = direction == 0 ? k : s, v = direction == 0 ? s : k;
    Vec3 x(0.5 + Lu * u, -1.0, 0.25 - Lv * v);
    auto r = kind == 0 ? sf.SearchParameterOn(x, direction, k, sym_real("u0", 0, 0.0, 1.0), eps, iter) : sf.BinarySearchParameterOn(x, direction, k, eps, iter);
    unchangedS(sf, p, q, U, V, P); kept(r, direction, k);
    double t = freeOf(r, direction);
    if (kind == 0) { sym_le((t - s) * len, eps, "the point is found within epsilon"); sym_le((s - t) * len, eps, "the point is found within epsilon"); }
    else
    {
        double w = 0.5; for (int i = 0; i < iter; i++) w *= 0.5; double tol = w > eps ? w : eps;
        sym_le(t - s, tol, "found within epsilon or the last bisection width"); sym_le(s - t, tol, "found within epsilon or the last bisection width");
    }
    sym_out("t", 0, t);
}
// any line length and epsilon
ENTRY c19_line_any(int p, int q, int direction, int iter, int kind)
{
    double len = sym_real("L", 0, -4.0, 4.0); sym_assume(len >= 0.25 || len <= -0.25);
    double Lu = direction == 0 ? 1.5 : len, Lv = direction == 0 ? len : 1.5;
    std::vector<double> U = makeKnots("t", p, 0, 1), V = makeKnots("r", q, 0, 1); std::vector<Vec4> P;
    for (int i = 0; i <= p; i++) for (int j = 0; j <= q; j++) P.push_back(Vec4(0.5 + Lu * ((double)i / p), -1.0, 0.25 - Lv * ((double)j / q), 1.0));
    Surface sf = toSurf(p, q, U, V, P);
    double s = sym_real("s", 0, 0.0, 1.0), k = 0.375, eps = sym_real("eps", 0, 0.0009765625, 0.25);
    double u = direction == 0 ? k : s, v = direction == 0 ? s : k;
    Vec3 x(0.5 + Lu * u, -1.0, 0.25 - Lv * v);
    auto r = kind == 0 ? sf.SearchParameterOn(x, direction, k, sym_real("u0", 0, 0.0, 1.0), eps, iter) : sf.BinarySearchParameterOn(x, direction, k, eps, iter);
    unchangedS(sf, p, q, U, V, P); kept(r, direction, k);
    double t = freeOf(r, direction);
    if (kind == 0) { sym_le((t - s) * len, eps, "the point is found within epsilon"); sym_le((s - t) * len, eps, "the point is found within epsilon"); }
    else
    {
        double w = 0.5; for (int i = 0; i < iter; i++) w *= 0.5; double tol = w > eps ? w : eps;
        sym_le(t - s, tol, "found within epsilon or the last bisection width"); sym_le(s - t, tol, "found within epsilon or the last bisection width");
    }
}
// a patch whose straight uniform line at the fixed parameter is embedded in a surface that is not affine (ruled: bilinear twist)
ENTRY c19_ruled(int direction, int epsInv, int iter, int kind)
{
    std::vector<double> B{0, 0, 1, 1}; std::vector<Vec4> P;
    // corners (0,0),(0,1),(1,0),(1,1): all in one axis so that residuals stay linear; S = x00(1-u)(1-v)+...
    double c[4] = {0.0, 2.0, 1.0, 4.0}; for (int i = 0; i < 4; i++) P.push_back(Vec4(0.0, c[i], 0.0, 1.0));
    Surface sf = toSurf(1, 1, B, B, P);
    double s = sym_real("s", 0, 0.0, 1.0), k = sym_real("k", 0, 0.0, 1.0), eps = 1.0 / epsInv;
    double u = direction == 0 ? k : s, v = direction == 0 ? s : k;
    Vec3 x(0.0, c[0] * (1 - u) * (1 - v) + c[1] * (1 - u) * v + c[2] * u * (1 - v) + c[3] * u * v, 0.0);
    double len = direction == 0 ? (1 - k) * (c[1] - c[0]) + k * (c[3] - c[2]) : (1 - k) * (c[2] - c[0]) + k * (c[3] - c[1]);
    auto r = kind == 0 ? sf.SearchParameterOn(x, direction, k, 0.5, eps, iter) : sf.BinarySearchParameterOn(x, direction, k, eps, iter);
    unchangedS(sf, 1, 1, B, B, P); kept(r, direction, k);
    double t = freeOf(r, direction);
    if (kind == 0) { sym_le((t - s) * len, eps, "the point is found within epsilon"); sym_le((s - t) * len, eps, "the point is found within epsilon"); }
    else
    {
        double w = 0.5; for (int i = 0; i < iter; i++) w *= 0.5; double tol = w > eps ? w : eps;
        sym_le(t - s, tol, "found within epsilon or the last bisection width"); sym_le(s - t, tol, "found within epsilon or the last bisection width");
    }
}
// fixed surface over one axis; what: 0/1 search on a line (direction), 2/3 bisection, 4 free search; sel: 0 any query point, 1 any start / constant
ENTRY c19_range(int p, int pu, int q, int pv, int wmode, int seed, int iter, int what, int sel)
{
    std::vector<double> U = makeKnots("t", p, pu, 1), V = makeKnots("r", q, pv, 1); std::vector<Vec4> P;
    int nu = (int)U.size() - p - 1, nv = (int)V.size() - q - 1;
    for (int i = 0; i < nu * nv; i++) P.push_back(Vec4(0.0, 0.0, fixedCoord(i + seed, 1), wmode ? fixedWeight(i) : 1.0));
    Surface sf = toSurf(p, q, U, V, P);
    Vec3 x(0.0, 0.0, sel == 1 ? fixedCoord(seed, 2) : sym_real("q", 0, -4.0, 4.0));
    double k = sel == 1 ? sym_real("k", 0, 0.0, 1.0) : 0.375, u0 = sel == 1 ? sym_real("u0", 0, 0.0, 1.0) : 0.25;
    int d = what & 1;
    auto r = what < 2 ? sf.SearchParameterOn(x, d, k, u0, 0.0009765625, iter) : what < 4 ? sf.BinarySearchParameterOn(x, d, k, 0.0078125, iter) : sf.SearchParameter(x, u0, k, 0.0009765625, iter);
    unchangedS(sf, p, q, U, V, P); inRange(r.first); inRange(r.second);
    if (what < 4) kept(r, d, k);
    if (what == 4 && iter == 0) { sym_same(r.first, u0, "no iteration: the start value"); sym_same(r.second, k, "no iteration: the start value"); }
    sym_reach("returned");
}
// a flat affine patch along one axis each: free search from any start to any point
ENTRY c19_free(int lengths, int iter, int axis, int sel)
{
    static const double L[][2] = {{1, 1}, {1, 0.5}, {2, 1}, {0.5, 0.5}};
    std::vector<double> B{0, 0, 1, 1}; std::vector<Vec4> P;
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { Vec4 w = Vec4::Zero(); w[axis] = L[lengths][0] * i; w[(axis + 1) % 3] = L[lengths][1] * j; w[3] = 1; P.push_back(w); }
    Surface sf = toSurf(1, 1, B, B, P);
    Vec3 x = Vec3::Zero(); x[axis] = sel & 1 ? 0.25 : sym_real("qu", 0, -1.0, 3.0); x[(axis + 1) % 3] = sel & 2 ? 0.375 : sym_real("qv", 0, -1.0, 3.0);
    double u0 = sel & 4 ? 0.5 : sym_real("u0", 0, 0.0, 1.0), v0 = sel & 8 ? 0.125 : sym_real("v0", 0, 0.0, 1.0);
    auto r = sf.SearchParameter(x, u0, v0, 0.0009765625, iter);
    unchangedS(sf, 1, 1, B, B, P); inRange(r.first); inRange(r.second);
    sym_reach("returned");
}
// a search started at a parameter of the query point returns that parameter
ENTRY c13_start(int p, int pat, int wmode, int iter)
{
    Ref r; r.p = p; r.U = makeKnots("t", p, pat, 1); int n = (int)r.U.size() - p - 1; r.P = makePoints("P", n, wmode);
    Curve c = toCurve(r); double u0 = sym_real("u0", 0, 0.0, 1.0);
    Vec3 q = c.Evaluate(u0);
    double u = c.SearchParameter(q, u0, 0.0009765625, iter);
    unchanged(c, r); inRange(u); sym_eq(u, u0, "started at the point: its parameter");
}
ENTRY c19_start(int p, int pu, int q, int pv, int wmode, int iter, int what)
{
    std::vector<double> U = makeKnots("t", p, pu, 1), V = makeKnots("r", q, pv, 1);
    int nu = (int)U.size() - p - 1, nv = (int)V.size() - q - 1; std::vector<Vec4> P = makePoints("P", nu * nv, wmode);
    Surface sf = toSurf(p, q, U, V, P);
    double u0 = sym_real("u0", 0, 0.0, 1.0), v0 = sym_real("v0", 0, 0.0, 1.0);
    Vec3 x = sf.Evaluate(u0, v0);
    auto r = what == 0 ? sf.SearchParameterOn(x, 0, u0, v0, 0.0009765625, iter) : what == 1 ? sf.SearchParameterOn(x, 1, v0, u0, 0.0009765625, iter) : sf.SearchParameter(x, u0, v0, 0.0009765625, iter);
    unchangedS(sf, p, q, U, V, P); sym_eq(r.first, u0, "started at the point: its parameters"); sym_eq(r.second, v0, "started at the point: its parameters");
    if (what == 0) kept(r, 0, u0);
    if (what == 1) kept(r, 1, v0);
    inRange(r.first); inRange(r.second);
}
