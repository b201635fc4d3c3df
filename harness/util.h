// Shared builders and reference definitions for the harnesses.
#pragma once
#include "sym.h"
#include <libnurbs/Core/Typedefs.hpp>
#include <libnurbs/Core/KnotVector.hpp>
#include <libnurbs/Core/Grid.hpp>
#include <libnurbs/Core/BoundingBox.hpp>
#include <libnurbs/Algorithm/MathUtils.hpp>
#include <libnurbs/Basis/BSplineBasis.hpp>
#include <libnurbs/Curve/Curve.hpp>
#include <libnurbs/Surface/Surface.hpp>
#include <libnurbs/Geometry/GeomRect.hpp>
#include <libnurbs/Geometry/GeomSegment.hpp>
#include <vector>
#include <span>

namespace hx
{
using namespace libnurbs;

// Ranges of the symbolic values. Distinct knots are GAP apart where the library compares with a tolerance of 1e-6, otherwise TINY. Witnesses for the comparison with a native run are preferably well conditioned (GOOD_GAP).
constexpr double COORD = 1024.0, WMIN = 0.0009765625, WMAX = 1024.0, GAP = 0.000003814697265625, TINY = 0.0000000000145519152283668518, GOOD_GAP = 0.015625;
// x is `g` away from t, or further
inline void apart(double t, double x) { sym_assume(t - x >= GAP || x - t >= GAP); sym_prefer(t - x >= GOOD_GAP || x - t >= GOOD_GAP); }
inline void inside(double x) { sym_assume(x >= GAP); sym_assume(x <= 1.0 - GAP); sym_prefer(x >= GOOD_GAP && x <= 1.0 - GOOD_GAP); }

// Multiplicity patterns of the interior knots: decimal digits of `pat`, most significant first (pat = 0: none; pat < 0: -pat simple knots).
inline int patLen(int pat) { int n = 0; if (pat < 0) return -pat; while (pat) { n++; pat /= 10; } return n; }
inline int patAt(int pat, int i) { if (pat < 0) return 1; int n = patLen(pat); for (int k = n - 1; k > i; k--) pat /= 10; return pat % 10; }
inline int patSum(int pat) { if (pat < 0) return -pat; int s = 0; while (pat) { s += pat % 10; pat /= 10; } return s; }

// kind 0: symbolic interior knot values (distinct, gap apart), 1: fixed uneven values, 2: fixed even values
inline std::vector<double> interior(const char* name, int pat, int kind, double gap)
{
    static const double fixed[] = {0.25, 0.375, 0.75, 0.875, 0.9375, 0.96875, 0.984375, 0.9921875, 0.99609375};
    int n = patLen(pat);
    std::vector<double> v;
    for (int i = 0; i < n; i++)
    {
        if (kind == 1) v.push_back(n > 9 ? (i + 1.0) / (n + 1) * (0.5 + 0.5 * (i + 1.0) / (n + 1)) : fixed[i]);
        else if (kind == 2) v.push_back((i + 1.0) / (n + 1));
        else
        {
            double t = sym_real(name, i, 0.0, 1.0);
            sym_assume(t >= (i ? v[i - 1] : 0.0) + gap); sym_prefer(t >= (i ? v[i - 1] : 0.0) + GOOD_GAP);
            v.push_back(t);
        }
    }
    if (n && kind == 0) { sym_assume(v[n - 1] <= 1.0 - gap); sym_prefer(v[n - 1] <= 1.0 - GOOD_GAP); }
    return v;
}
inline std::vector<double> knots(int p, int pat, const std::vector<double>& in)
{
    std::vector<double> k(p + 1, 0.0);
    for (int i = 0; i < (int)in.size(); i++) for (int m = 0; m < patAt(pat, i); m++) k.push_back(in[i]);
    for (int i = 0; i <= p; i++) k.push_back(1.0);
    return k;
}
inline std::vector<double> makeKnots(const char* name, int p, int pat, int kind, double gap = GAP) { return knots(p, pat, interior(name, pat, kind, gap)); }

// k-th derivative of basis function i: the Cox-de Boor recursion up to degree p - k, then k steps of the derivative recursion,
// both written from the definition (right-closed last interval) and evaluated bottom-up.
inline double coxDeBoorDer(int i, int p, const std::vector<double>& U, double u, int k)
{
    if (k > p) return 0.0;
    std::vector<double> N(p + 1);
    for (int j = 0; j <= p; j++)
    {
        double a = U[i + j], b = U[i + j + 1];
        bool in = a <= u && u < b;
        if (!in && u == U.back() && a < b && b == U.back()) in = true;
        N[j] = in ? 1.0 : 0.0;
    }
    for (int d = 1; d <= p; d++) for (int j = 0; j <= p - d; j++)
    {
        double r = 0.0, d1 = U[i + j + d] - U[i + j], d2 = U[i + j + d + 1] - U[i + j + 1];
        if (d <= p - k)
        {
            if (d1 != 0.0) r += (u - U[i + j]) / d1 * N[j];
            if (d2 != 0.0) r += (U[i + j + d + 1] - u) / d2 * N[j + 1];
        }
        else
        {
            if (d1 != 0.0) r += d / d1 * N[j];
            if (d2 != 0.0) r -= d / d2 * N[j + 1];
        }
        N[j] = r;
    }
    return N[0];
}
inline double coxDeBoor(int i, int p, const std::vector<double>& U, double u) { return coxDeBoorDer(i, p, U, u, 0); }
// knot span [U_s, U_s+1) that contains u, right-closed at the end
inline int spanOf(const std::vector<double>& U, int p, double u)
{
    int n = (int)U.size() - p - 2, s = p;
    for (int i = p; i <= n; i++) if (U[i] < U[i + 1] && U[i] <= u) s = i;
    return s;
}

inline Vec4 symPoint(const char* name, int i, double w)
{
    Vec4 p;
    for (int c = 0; c < 3; c++) p[c] = sym_real(name, i * 4 + c, -COORD, COORD);
    p[3] = w < 0 ? sym_real(name, i * 4 + 3, WMIN, WMAX) : w;
    return p;
}
inline double fixedWeight(int i) { static const double w[] = {1.0, 2.0, 0.5, 1.5, 3.0, 0.75, 2.5}; return w[i % 7]; }
inline double fixedCoord(int i, int c)
{
    static const double v[] = {0.5, -1.25, 2.0, 3.5, -0.75, 1.5, -2.5, 4.0, 0.25, -3.0, 1.75};
    return v[(i * 5 + c * 3) % 11];
}
// wmode 0: unit weights, 1: symbolic weights, 2: fixed uneven weights; cmode 0: symbolic coordinates, 1: fixed, 2: only the first coordinate symbolic, 3: only two points symbolic
inline std::vector<Vec4> makePoints(const char* name, int n, int wmode, int cmode = 0)
{
    std::vector<Vec4> v;
    for (int i = 0; i < n; i++)
    {
        double w = wmode == 0 ? 1.0 : wmode == 1 ? -1.0 : fixedWeight(i);
        if (cmode == 0) v.push_back(symPoint(name, i, w));
        else if (cmode == 3 && (i == n / 2 || i == n - 2)) v.push_back(symPoint(name, i, w));
        else v.push_back(Vec4(cmode == 2 ? sym_real(name, i * 4, -COORD, COORD) : fixedCoord(i, 0), fixedCoord(i, 1), fixedCoord(i, 2), w < 0 ? sym_real(name, i * 4 + 3, WMIN, WMAX) : w));
    }
    return v;
}
// A curve's data in plain form, and its point by the definition
struct Ref { int p; std::vector<double> U; std::vector<Vec4> P; };
// warmFlag: the object under test held other contents before, every operation was used on them, and the contents were then
// replaced in place; nothing remembered from before may show.
inline int warmFlag = 0;
inline std::vector<double> otherKnots(int p, int count)
{
    std::vector<double> k(p + 1, 0.0); int n = count - 2 * p - 2;
    for (int i = 0; i < n; i++) { double t = (i + 1.0) / (n + 1.0); k.push_back(t * t); }
    for (int i = 0; i <= p; i++) k.push_back(1.0);
    return k;
}
inline Ref otherRef(const Ref& r)
{
    Ref o; o.p = r.p; o.U = otherKnots(r.p, (int)r.U.size());
    for (int i = 0; i < (int)r.P.size(); i++) o.P.push_back(Vec4(fixedCoord(i + 3, 0), fixedCoord(i + 3, 1), fixedCoord(i + 3, 2), fixedWeight(i + 2)));
    return o;
}
inline void exercise(const Curve& c)
{
    int p = c.Degree;
    (void)c.Evaluate(0.25); (void)c.Evaluate(1.0); (void)c.EvaluateAll(0.25, 2); (void)c.EvaluateDerivative(0.5, 1);
    (void)c.IsRational(); (void)c.Knots.GetKnotPairs(); (void)c.Knots.GetMultiplicity(0.5); (void)c.Knots.FindSpan(0.5);
    Curve d = c.InsertKnot(0.3125); (void)d.RemoveKnot(0.3125, 1, 1e-6); (void)c.InsertKnot(0.625, p);
    std::vector<double> l{0.71875, 0.15625}; (void)c.InsertKnot(std::span<double>(l));
    for (int t = 1; t <= 3; t++) (void)c.ElevateDegree(t);
    (void)c.ExtractBezier(); (void)c.GetBoundingBox(1000.0); (void)c.Transform(Mat3x3::Identity());
}
inline void setCurve(Curve& c, const Ref& r)
{
    c.Degree = r.p; c.Knots.Values() = r.U; c.ControlPoints.resize(r.P.size());
    for (size_t i = 0; i < r.P.size(); i++) c.ControlPoints[i] = r.P[i];
}
inline Curve toCurve(const Ref& r)
{
    Curve c;
    if (warmFlag)
    {
        int keep = warmFlag; warmFlag = 0;
        Ref o = otherRef(r); c.Degree = o.p; c.Knots = KnotVector(o.U); c.ControlPoints = o.P;
        exercise(c); setCurve(c, r); warmFlag = keep;
        return c;
    }
    c.Degree = r.p; c.Knots = KnotVector(r.U); c.ControlPoints = r.P; return c;
}
#define WARMED(f, params, ...) ENTRY f##_w params { hx::warmFlag = 1; f(__VA_ARGS__); hx::warmFlag = 0; }
inline Ref ofCurve(const Curve& c) { return Ref{c.Degree, c.Knots.Values(), c.ControlPoints}; }
inline Ref makeRef(int p, int pat, int kind, int wmode, int cmode = 0, double gap = GAP)
{
    Ref r; r.p = p; r.U = makeKnots("t", p, pat, kind, gap); r.P = makePoints("P", (int)r.U.size() - p - 1, wmode, cmode); return r;
}
// homogeneous point / derivative by the definition, sum over the basis functions that can be non-zero at u
inline Vec4 homoDer(const Ref& r, double u, int k)
{
    Vec4 s = Vec4::Zero(); int sp = spanOf(r.U, r.p, u);
    for (int i = sp - r.p; i <= sp; i++)
    {
        double n = coxDeBoorDer(i, r.p, r.U, u, k);
        for (int c = 0; c < 3; c++) s[c] += n * (r.P[i][3] * r.P[i][c]);
        s[3] += n * r.P[i][3];
    }
    return s;
}
inline Vec4 homo(const Ref& r, double u) { return homoDer(r, u, 0); }
inline void sameInts(int a, int b, const char* m) { sym_check(a == b, m); }
inline void sameKnots(const std::vector<double>& a, const std::vector<double>& b, const char* m)
{
    sym_check(a.size() == b.size(), m);
    for (size_t i = 0; i < a.size(); i++) sym_eq(a[i], b[i], m);
}
inline void samePoints(const std::vector<Vec4>& a, const std::vector<Vec4>& b, const char* m)
{
    sym_check(a.size() == b.size(), m);
    for (size_t i = 0; i < a.size(); i++) for (int c = 0; c < 4; c++) sym_eq(a[i][c], b[i][c], m);
}
inline void unchanged(const Curve& c, const Ref& r)
{
    sym_check(c.Degree == r.p, "the receiver is unchanged (degree)");
    sym_check(c.Knots.Values().size() == r.U.size() && c.ControlPoints.size() == r.P.size(), "the receiver is unchanged (sizes)");
    for (size_t i = 0; i < r.U.size(); i++) sym_same(c.Knots.Values()[i], r.U[i], "the receiver is unchanged (knots)");
    for (size_t i = 0; i < r.P.size(); i++) for (int k = 0; k < 4; k++) sym_same(c.ControlPoints[i][k], r.P[i][k], "the receiver is unchanged (control points)");
}
// both descriptions have the same point at u: A/W = B/V
inline void samePointAt(const Ref& a, const Ref& b, double u, const char* m)
{
    Vec4 x = homo(a, u), y = homo(b, u);
    for (int c = 0; c < 3; c++) sym_eq(x[c] / x[3], y[c] / y[3], m);
}
inline void shapeOk(const Ref& r)
{
    sym_check((int)r.U.size() == (int)r.P.size() + r.p + 1, "number of knots = control points + degree + 1");
    for (size_t i = 0; i < r.P.size(); i++) sym_check(r.P[i][3] > 0.0, "weights stay positive");
}
// ---- reference knot insertion (Boehm), in homogeneous form, from the definition -------------------------------------
inline Ref boehm(const Ref& r, double x, int times)
{
    Ref q = r;
    for (auto& P : q.P) for (int c = 0; c < 3; c++) P[c] *= P[3];
    for (int t = 0; t < times; t++)
    {
        int p = q.p, k = spanOf(q.U, p, x);
        std::vector<Vec4> N;
        for (int i = 0; i <= (int)q.P.size(); i++)
        {
            if (i <= k - p) { N.push_back(q.P[i]); continue; }
            if (i > k) { N.push_back(q.P[i - 1]); continue; }
            if (q.U[i] == x && q.U[i + p] == x) { N.push_back(q.P[i - 1]); continue; }
            double a = (x - q.U[i]) / (q.U[i + p] - q.U[i]);
            Vec4 v; for (int c = 0; c < 4; c++) v[c] = a * q.P[i][c] + (1.0 - a) * q.P[i - 1][c];
            N.push_back(v);
        }
        q.P = N; q.U.insert(q.U.begin() + k + 1, x);
    }
    for (auto& P : q.P) for (int c = 0; c < 3; c++) P[c] /= P[3];
    return q;
}
inline std::vector<double> merged(std::vector<double> U, double x, int times)
{
    size_t i = 0; while (i < U.size() && U[i] <= x) i++;
    U.insert(U.begin() + i, times, x); return U;
}
inline int multOf(const std::vector<double>& U, double x) { int m = 0; for (double t : U) if (t == x) m++; return m; }
inline void exactKnots(const std::vector<double>& a, const std::vector<double>& b, const char* m)
{
    sym_check(a.size() == b.size(), m);
    for (size_t i = 0; i < a.size(); i++) sym_same(a[i], b[i], m);
}
inline double newKnot(const char* n, int i) { double x = sym_real(n, i, 0.0, 1.0); sym_assume(x > 0.0); sym_assume(x < 1.0); return x; }
inline void outs(const Ref& r) { for (size_t i = 0; i < r.P.size(); i++) for (int c = 0; c < 4; c++) sym_out("q", (int)i * 4 + c, r.P[i][c]); }

// at: 0 the value is anywhere in (0,1), k > 0: it is the k-th interior knot
inline double knotAt(const std::vector<double>& in, int at) { return at > 0 ? in[at - 1] : newKnot("x", 0); }
inline std::vector<double> distinct(const std::vector<double>& U) { std::vector<double> d; for (double t : U) if (t != 0.0 && t != 1.0 && (d.empty() || d.back() != t)) d.push_back(t); return d; }
inline std::vector<double> raised(const std::vector<double>& U, int t)
{
    std::vector<double> V;
    for (size_t i = 0; i < U.size(); i++) { V.push_back(U[i]); if (i + 1 == U.size() || U[i + 1] != U[i]) for (int k = 0; k < t; k++) V.push_back(U[i]); }
    return V;
}
}
