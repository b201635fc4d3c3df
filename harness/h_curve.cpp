// C06, C07, C21 (curves): evaluation, derivatives, transforms.
#include "util.h"
#include <cmath>
#include <algorithm>
using namespace hx;

static double paramU(int where) { return where == 1 ? 0.0 : where == 2 ? 1.0 : sym_real("u", 0, 0.0, 1.0); }
static long binom(int n, int k) { long r = 1; for (int i = 1; i <= k; i++) r = r * (n - i + 1) / i; return r; }

ENTRY c06_eval(int p, int pat, int kind, int wmode, int cmode)
{
    Ref r = makeRef(p, pat, kind, wmode, cmode, TINY);
    Curve c = toCurve(r);
    double u = sym_real("u", 0, 0.0, 1.0);
    Vec3 x = c.Evaluate(u);
    Vec4 h = homo(r, u);
    for (int k = 0; k < 3; k++) { sym_eq(x[k], h[k] / h[3], "the point is the weighted sum of the control points"); sym_out("x", k, x[k]); }
    unchanged(c, r);
}
ENTRY c06_ends(int p, int pat, int kind)
{
    Ref r = makeRef(p, pat, kind, 1, 0, TINY);
    Curve c = toCurve(r);
    Vec3 a = c.Evaluate(0.0), b = c.Evaluate(1.0);
    for (int k = 0; k < 3; k++) { sym_eq(a[k], r.P.front()[k], "starts at the first control point"); sym_eq(b[k], r.P.back()[k], "ends at the last control point"); }
    // at a knot of full multiplicity the curve passes through a control point
    auto in = r.U; int idx = p;
    for (int i = 0; i < patLen(pat); i++)
    {
        int m = patAt(pat, i); double t = r.U[idx + 1];
        if (m == p) { Vec3 y = c.Evaluate(t); for (int k = 0; k < 3; k++) sym_eq(y[k], r.P[idx + 1 - 1][k], "passes through the control point at a full knot"); }
        idx += m;
    }
    unchanged(c, r);
}
// several evaluations: how 0: of one curve at two parameters, 1: of an object whose contents were replaced in between, 2: of two curves in turn
ENTRY c06_twice(int p, int pat, int kind, int wmode, int cmode, int how)
{
    Ref r = makeRef(p, pat, kind, wmode, cmode, TINY), o = otherRef(r);
    double u = sym_real("u", 0, 0.0, 1.0);
    auto is = [](const Vec3& x, const Ref& r, double u) { Vec4 h = homo(r, u); for (int k = 0; k < 3; k++) sym_eq(x[k], h[k] / h[3], "the point does not depend on earlier calls"); };
    if (how == 0)
    {
        Curve c = toCurve(r); double v = sym_real("v", 0, 0.0, 1.0);
        is(c.Evaluate(v), r, v); is(c.Evaluate(u), r, u); is(c.Evaluate(v), r, v); unchanged(c, r);
    }
    else if (how == 1)
    {
        Curve c = toCurve(o); is(c.Evaluate(u), o, u); (void)c.EvaluateAll(u, 2);
        setCurve(c, r); is(c.Evaluate(u), r, u); unchanged(c, r);
        for (auto& P : c.ControlPoints) P[0] += 1.0;
        Ref m = ofCurve(c); is(c.Evaluate(u), m, u);
    }
    else
    {
        Curve a = toCurve(o), b = toCurve(r);
        is(a.Evaluate(u), o, u); is(b.Evaluate(u), r, u); is(a.Evaluate(u), o, u);
        Curve k = b; b = a; is(k.Evaluate(u), r, u); is(b.Evaluate(u), o, u);
        Ref e = r; e.p = p + 1; e.U.insert(e.U.begin(), 0.0); e.U.push_back(1.0); e.P.push_back(Vec4(1, 2, 3, 1)); Curve d = toCurve(e); // same knots inside, one degree higher
        is(d.Evaluate(u), e, u); is(k.Evaluate(u), r, u);
    }
}
ENTRY c07_twice(int p, int pat, int kind, int wmode, int cmode, int how, int order)
{
    Ref r = makeRef(p, pat, kind, wmode, cmode, TINY), o = otherRef(r);
    double u = sym_real("u", 0, 0.0, 1.0);
    auto is = [&](const Curve& c, const Ref& r, double u, int order)
    {
        auto d = c.EvaluateAll(u, order); sym_check((int)d.size() == order + 1, "one entry per order");
        std::vector<Vec4> h; for (int k = 0; k <= order; k++) h.push_back(homoDer(r, u, k));
        if (!sym_symbolic()) { double m = 1; for (auto& x : h) m = std::max(m, x.cwiseAbs().maxCoeff() * 64); sym_scale(m * m); }
        for (int k = 0; k <= order; k++) for (int c3 = 0; c3 < 3; c3++)
        {
            double s = h[k][c3]; for (int i = 1; i <= k; i++) s -= binom(k, i) * h[i][3] * d[k - i][c3];
            sym_eq(d[k][c3], s / h[0][3], "the derivatives do not depend on earlier calls");
        }
        Vec3 e = c.EvaluateDerivative(u, order); for (int c3 = 0; c3 < 3; c3++) sym_eq(e[c3], d[order][c3], "single order equals the entry of the list");
    };
    if (how == 0)
    {
        Curve c = toCurve(r); double v = sym_real("v", 0, 0.0, 1.0);
        is(c, r, v, order); is(c, r, u, order); is(c, r, u, 1); is(c, r, u, order); is(c, r, v, order);
    }
    else if (how == 1) { Curve c = toCurve(o); is(c, o, u, order); setCurve(c, r); is(c, r, u, order); }
    else { Curve a = toCurve(o), b = toCurve(r); is(a, o, u, order); is(b, r, u, order); is(a, o, u, order); }
}
// Leibniz: sum_i C(k,i) W^(i) C^(k-i) = A^(k)
ENTRY c07_ders(int p, int pat, int kind, int wmode, int cmode, int order)
{
    Ref r = makeRef(p, pat, kind, wmode, cmode, TINY);
    Curve c = toCurve(r);
    double u = sym_real("u", 0, 0.0, 1.0);
    auto d = c.EvaluateAll(u, order);
    sym_check((int)d.size() == order + 1, "one entry per order");
    std::vector<Vec4> h;
    for (int k = 0; k <= order; k++) h.push_back(homoDer(r, u, k));
    if (!sym_symbolic())
    {
        // magnitude of the terms of the quotient rule
        std::vector<double> s; int sp = spanOf(r.U, p, u);
        for (int k = 0; k <= order; k++)
        {
            double a = 0; for (int i = sp - p; i <= sp; i++) a += 32 * std::fabs(coxDeBoorDer(i, p, r.U, u, k));
            for (int i = 1; i <= k; i++) { double w = 0; for (int j = sp - p; j <= sp; j++) w += 4 * std::fabs(coxDeBoorDer(j, p, r.U, u, i)); a += binom(k, i) * w * s[k - i]; }
            s.push_back(a / h[0][3]);
        }
        double m = 1; for (double x : s) m = std::max(m, x);
        sym_scale(m);
    }
    for (int k = 0; k <= order; k++)
    {
        for (int c3 = 0; c3 < 3; c3++)
        {
            double s = h[k][c3];
            for (int i = 1; i <= k; i++) s -= binom(k, i) * h[i][3] * d[k - i][c3];
            sym_eq(d[k][c3], s / h[0][3], "derivative of the rational curve");
        }
    }
    for (int k = 0; k <= order; k++)
    {
        Vec3 e = c.EvaluateDerivative(u, k);
        for (int c3 = 0; c3 < 3; c3++) sym_eq(e[c3], d[k][c3], "single order equals the entry of the list");
    }
    for (int c3 = 0; c3 < 3; c3++) sym_out("d", c3, d[order < 3 ? order : 3][c3]);
    unchanged(c, r);
}
ENTRY c21_curve(int p, int pat, int kind, int wmode, int cmode)
{
    Ref r = makeRef(p, pat, kind, wmode, cmode, TINY);
    Curve c = toCurve(r);
    Mat3x3 R; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R(i, j) = sym_real("R", 3 * i + j, -4, 4);
    Curve d = c.Transform(R);
    unchanged(c, r);
    sym_check(d.Degree == p && d.Knots.Values().size() == r.U.size() && d.ControlPoints.size() == r.P.size(), "sizes and degree kept");
    for (size_t i = 0; i < r.U.size(); i++) sym_same(d.Knots.Values()[i], r.U[i], "knots kept");
    for (size_t i = 0; i < r.P.size(); i++) sym_same(d.ControlPoints[i][3], r.P[i][3], "weights kept");
    double u = sym_real("u", 0, 0.0, 1.0);
    Vec4 a = homo(r, u), b = homo(ofCurve(d), u);
    for (int i = 0; i < 3; i++)
    {
        double s = 0; for (int j = 0; j < 3; j++) s += R(i, j) * (a[j] / a[3]);
        sym_eq(b[i] / b[3], s, "every point is transformed");
    }
}
ENTRY c21_rational(int n)
{
    Curve c; c.Degree = 1; bool e = false;
    for (int i = 0; i < n; i++) c.ControlPoints.push_back(Vec4(i, 0, 0, sym_real("w", i, WMIN, WMAX)));
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (c.ControlPoints[i][3] != c.ControlPoints[j][3]) e = true;
    sym_check(c.IsRational() == e, "rational exactly when two weights differ");
}
ENTRY c21_rational_fp(int n)
{
    Curve c; c.Degree = 1; bool e = false;
    for (int i = 0; i < n; i++) { double w = sym_double("w", i); sym_assume(w > 0.0); c.ControlPoints.push_back(Vec4(i, 0, 0, w)); }
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (c.ControlPoints[i][3] != c.ControlPoints[j][3]) e = true;
    sym_check(c.IsRational() == e, "rational exactly when two weights differ (any doubles)");
}
WARMED(c06_eval, (int p, int pat, int kind, int wmode, int cmode), p, pat, kind, wmode, cmode)
WARMED(c07_ders, (int p, int pat, int kind, int wmode, int cmode, int order), p, pat, kind, wmode, cmode, order)
WARMED(c21_curve, (int p, int pat, int kind, int wmode, int cmode), p, pat, kind, wmode, cmode)
