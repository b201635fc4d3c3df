// C08-C12, C30 (curves): knot insertion, knot removal, degree elevation, Bezier segments, bounding box, chains.
#include "util.h"
#include <sstream>
#include <span>
#include <cmath>
using namespace hx;

// ---- C08 ------------------------------------------------------------------------------------------------------------
ENTRY c08_single(int p, int pat, int kind, int wmode, int at, int cmode)
{
    Ref r = makeRef(p, pat, kind, wmode, cmode, TINY); Curve c = toCurve(r);
    double x = knotAt(distinct(r.U), at);
    sym_assume(multOf(r.U, x) < p);
    Curve d = c.InsertKnot(x);
    unchanged(c, r);
    Ref q = ofCurve(d);
    sym_check(q.p == p, "degree kept"); exactKnots(q.U, merged(r.U, x, 1), "knots merged"); shapeOk(q);
    double u = sym_real("u", 0, 0.0, 1.0);
    samePointAt(q, r, u, "same point after inserting a knot");
    outs(q);
}
ENTRY c08_times(int p, int pat, int kind, int wmode, int times, int at, int cmode)
{
    Ref r = makeRef(p, pat, kind, wmode, cmode, TINY); Curve c = toCurve(r);
    double x = knotAt(distinct(r.U), at);
    sym_assume(multOf(r.U, x) + times <= p);
    Curve d = c.InsertKnot(x, times);
    unchanged(c, r);
    Ref q = ofCurve(d);
    sym_check(q.p == p, "degree kept"); exactKnots(q.U, merged(r.U, x, times), "knots merged"); shapeOk(q);
    double u = sym_real("u", 0, 0.0, 1.0);
    samePointAt(q, r, u, "same point after inserting a knot several times");
    outs(q);
}
ENTRY c08_list(int p, int pat, int kind, int wmode, int n, int cmode)
{
    Ref r = makeRef(p, pat, kind, wmode, cmode, TINY); Curve c = toCurve(r);
    std::vector<double> xs, U = r.U;
    for (int i = 0; i < n; i++) { double x = newKnot("x", i); U = merged(U, x, 1); xs.push_back(x); }
    for (double x : xs) sym_assume(multOf(U, x) <= p);
    std::vector<double> ys = xs;
    Curve d = c.InsertKnot(std::span<double>(ys));
    unchanged(c, r);
    Ref q = ofCurve(d);
    sym_check(q.p == p, "degree kept"); exactKnots(q.U, U, "knots merged"); shapeOk(q);
    double u = sym_real("u", 0, 0.0, 1.0);
    samePointAt(q, r, u, "same point after inserting a list of knots");
    outs(q);
}
// the three ways give the same curve
ENTRY c08_ways(int p, int pat, int kind, int wmode, int times, int at, int cmode)
{
    Ref r = makeRef(p, pat, kind, wmode, cmode, TINY); Curve c = toCurve(r);
    double x = knotAt(distinct(r.U), at);
    sym_assume(multOf(r.U, x) + times <= p);
    Curve a = c; for (int i = 0; i < times; i++) a = a.InsertKnot(x);
    Curve b = c.InsertKnot(x, times);
    std::vector<double> l(times, x); Curve d = c.InsertKnot(std::span<double>(l));
    Ref A = ofCurve(a), B = ofCurve(b), D = ofCurve(d), E = boehm(r, x, times);
    exactKnots(A.U, B.U, "same knots"); exactKnots(D.U, B.U, "same knots");
    samePoints(A.P, B.P, "same control points one by one and at once"); samePoints(D.P, B.P, "same control points as list"); samePoints(B.P, E.P, "control points by the insertion formula");
    Curve z = c.InsertKnot(x, 0); Ref Z = ofCurve(z);
    exactKnots(Z.U, r.U, "inserting nothing"); samePoints(Z.P, r.P, "inserting nothing");
}

// ---- C09 ------------------------------------------------------------------------------------------------------------
// a curve from which `s` copies of a knot can be removed exactly; m0: copies it has besides
static void sameRef(const Ref& a, const Ref& b, const char* m) { sym_check(a.p == b.p, m); exactKnots(a.U, b.U, m); samePoints(a.P, b.P, m); }
ENTRY c09_removable(int p, int pat, int kind, int wmode, int s, int times, int at, int cmode)
{
    Ref r = makeRef(p, pat, kind, wmode, cmode);
    double x = knotAt(distinct(r.U), at);
    for (double t : distinct(r.U)) if (at == 0) apart(t, x);
    if (at == 0) inside(x);
    int m0 = multOf(r.U, x);
    sym_assume(m0 + s <= p);
    Ref big = boehm(r, x, s);
    Curve c = toCurve(big);
    auto [d, t] = c.RemoveKnot(x, times, 1e-6);
    unchanged(c, big);
    int want = times < s ? times : s;
    if (times <= s) sym_check(t == times, "all requested copies of a removable knot are removed");
    else sym_check(t >= want && t <= m0 + s, "at least the removable copies are removed, at most the multiplicity");
    Ref q = ofCurve(d);
    sym_check(q.p == p, "degree kept");
    sym_check(q.P.size() == big.P.size() - t, "one control point less per removed knot");
    if (t <= s) shapeOk(q);
    auto U = big.U; for (int i = 0; i < t; i++) for (size_t k = 0; k < U.size(); k++) if (U[k] == x) { U.erase(U.begin() + k); break; }
    exactKnots(q.U, U, "exactly the reported copies are gone");
    if (t <= s)
    {
        double u = sym_real("u", 0, 0.0, 1.0);
        samePointAt(q, r, u, "same point after removing a removable knot");
    }
    outs(q);
}
// arbitrary curve: nothing but what is reported
ENTRY c09_any(int p, int pat, int kind, int wmode, int at, int times, int dim)
{
    Ref r; r.p = p; r.U = makeKnots("t", p, pat, kind);
    int n = (int)r.U.size() - p - 1;
    for (int i = 0; i < n; i++)
    {
        Vec4 P = Vec4(0, 0, 0, 1);
        for (int c = 0; c < dim; c++) P[c] = sym_real("P", 4 * i + c, -4, 4);
        if (wmode == 1) P[3] = sym_real("P", 4 * i + 3, 0.25, 4); else if (wmode == 2) P[3] = fixedWeight(i);
        r.P.push_back(P);
    }
    Curve c = toCurve(r);
    double x = distinct(r.U)[at - 1]; int s = multOf(r.U, x);
    double tol = 0.0625;
    auto [d, t] = c.RemoveKnot(x, times, tol);
    unchanged(c, r);
    sym_check(t >= 0 && t <= times && t <= s, "reported number within the request and the multiplicity");
    Ref q = ofCurve(d);
    if (t == 0) { sameRef(q, r, "nothing removed: the result equals the original"); return; }
    auto U = r.U; for (int i = 0; i < t; i++) for (size_t k = 0; k < U.size(); k++) if (U[k] == x) { U.erase(U.begin() + k); break; }
    exactKnots(q.U, U, "exactly the reported copies are gone");
    sym_check(q.P.size() == r.P.size() - t && q.p == p, "one control point less per removed knot");
    double u = sym_real("u", 0, 0.0, 1.0);
    Vec4 a = homo(r, u), b = homo(q, u);
    for (int k = 0; k < dim; k++) sym_le(std::fabs(a[k] / a[3] - b[k] / b[3]), t * tol * 1.0000001, "within the tolerance per removed copy");
    sym_reach("removed");
}
// s removable copies on top of copies that are not: fixed points but for one coordinate
ENTRY c09_partial(int p, int pat, int wmode, int s, int times, int at)
{
    Ref r = makeRef(p, pat, 1, wmode, 1);
    int n = (int)r.P.size();
    r.P[n / 2][1] = sym_real("y", 0, 5, 8);
    double x = distinct(r.U)[at - 1]; int m0 = multOf(r.U, x);
    sym_assume(m0 + s <= p);
    Ref big = boehm(r, x, s);
    Curve c = toCurve(big);
    auto [d, t] = c.RemoveKnot(x, times, 1e-6);
    unchanged(c, big);
    sym_check(t == (times < s ? times : s), "exactly the removable copies are removed");
    Ref q = ofCurve(d);
    sym_check(q.p == p && q.P.size() == big.P.size() - t, "one control point less per removed knot");
    auto U = big.U; for (int i = 0; i < t; i++) for (size_t k = 0; k < U.size(); k++) if (U[k] == x) { U.erase(U.begin() + k); break; }
    exactKnots(q.U, U, "exactly the reported copies are gone");
    if (t == 0) { sameRef(q, big, "nothing removed: the result equals the original"); return; }
    double u = sym_real("u", 0, 0.0, 1.0);
    samePointAt(q, r, u, "same point after a partial removal");
    outs(q);
}
// rational curve of degree 1 with a knot that can be removed within the tolerance: weight and position perturbed
ENTRY c09_tol(int mode)
{
    double w = mode == 0 ? 0.25 : mode == 1 ? 1.0 : 4.0, X = 8.0, tol = 0.0625;
    Ref r; r.p = 1; r.U = {0, 0, 0.5, 1, 1};
    double w1 = sym_real("w", 0, w, w + 0.125), x1 = sym_real("x", 0, 7.5, 8.0);
    r.P = {Vec4(X, 0, 0, w), Vec4(x1, 0, 0, w1), Vec4(X, 0, 0, w)};
    Curve c = toCurve(r);
    auto [d, t] = c.RemoveKnot(0.5, 1, tol);
    unchanged(c, r);
    if (t == 0) { sameRef(ofCurve(d), r, "nothing removed: the result equals the original"); return; }
    sym_check(t == 1, "one copy");
    Ref q = ofCurve(d);
    double u = sym_real("u", 0, 0.0, 1.0);
    Vec4 a = homo(r, u), b = homo(q, u);
    sym_le(a[0] / a[3] - b[0] / b[3], tol, "within the tolerance (above)");
    sym_le(b[0] / b[3] - a[0] / a[3], tol, "within the tolerance (below)");
    sym_reach("removed");
}
// the same with uneven end weights and positions along any axis: every deviation the removal accepts stays within the tolerance
ENTRY c09_tol2(int axis, int w0i, int w2i, int x0, int x2, int tolInv, int mid, int at8)
{
    double w0 = w0i / 16.0, w2 = w2i / 16.0, tol = 1.0 / tolInv, at = at8 / 8.0, wm = (1.0 - at) * w0 + at * w2, xm = ((1.0 - at) * w0 * x0 + at * w2 * x2) / wm;
    Ref r; r.p = 1; r.U = {0, 0, at, 1, 1};
    double dw = sym_real("w", 0, -0.25, 0.25), w1 = wm * (1.0 + dw), x1 = xm + sym_real("x", 0, -1.0, 1.0);
    r.P = {Vec4(0, 0, 0, w0), Vec4(0, 0, 0, w1), Vec4(0, 0, 0, w2)}; r.P[0][axis] = x0; r.P[1][axis] = x1; r.P[2][axis] = x2;
    Curve c = toCurve(r);
    auto [d, t] = c.RemoveKnot(at, 1, tol);
    unchanged(c, r);
    if (t == 0) { sameRef(ofCurve(d), r, "nothing removed: the result equals the original"); return; }
    sym_check(t == 1, "one copy");
    Ref q = ofCurve(d);
    double u = mid ? at : sym_real("u", 0, 0.0, 1.0);
    Vec4 a = homo(r, u), b = homo(q, u);
    sym_le(a[axis] / a[3] - b[axis] / b[3], tol, "within the tolerance (above)");
    sym_le(b[axis] / b[3] - a[axis] / a[3], tol, "within the tolerance (below)");
    sym_reach("removed");
}
// fixed control points that cannot be removed: nothing happens; absent knots
ENTRY c09_not(int p, int pat, int kind, int wmode, int times)
{
    Ref r = makeRef(p, pat, kind, wmode, 1);
    Curve c = toCurve(r);
    double x = newKnot("x", 0);
    for (double t : distinct(r.U)) apart(t, x);
    inside(x);
    auto [d, t] = c.RemoveKnot(x, times, 1e-9);
    sym_check(t == 0, "a knot that is not there is not removed");
    unchanged(c, r);
    sameRef(ofCurve(d), r, "nothing removed: the result equals the original");
}

// ---- C10 ------------------------------------------------------------------------------------------------------------
ENTRY c10_elevate(int p, int pat, int kind, int wmode, int cmode, int times)
{
    Ref r = makeRef(p, pat, kind, wmode, cmode); Curve c = toCurve(r);
    Curve d = c.ElevateDegree(times);
    unchanged(c, r);
    Ref q = ofCurve(d);
    sym_check(q.p == p + times, "degree raised");
    exactKnots(q.U, raised(r.U, times), "every multiplicity raised");
    shapeOk(q);
    double u = sym_real("u", 0, 0.0, 1.0);
    samePointAt(q, r, u, "same point after degree elevation");
    outs(q);
}

// after a fixed curve of degree q was raised by tq
ENTRY c10_after(int q, int tq, int p, int pat, int times)
{
    Ref o; o.p = q; o.U = otherKnots(q, 2 * q + 3); for (int i = 0; i < q + 2; i++) o.P.push_back(Vec4(fixedCoord(i, 0), fixedCoord(i, 1), fixedCoord(i, 2), fixedWeight(i)));
    Curve oc = toCurve(o), od = oc.ElevateDegree(tq);
    Ref r = makeRef(p, pat, 1, 2, 2); Curve c = toCurve(r); Curve d = c.ElevateDegree(times);
    unchanged(c, r);
    Ref e = ofCurve(d);
    sym_check(e.p == p + times, "degree raised"); exactKnots(e.U, raised(r.U, times), "every multiplicity raised"); shapeOk(e);
    double u = sym_real("u", 0, 0.0, 1.0);
    samePointAt(e, r, u, "same point after degree elevation, whatever was raised before");
    Curve oe = oc.ElevateDegree(tq); samePoints(ofCurve(oe).P, ofCurve(od).P, "the same call gives the same curve again");
}
// ---- C11 ------------------------------------------------------------------------------------------------------------
ENTRY c11_bezier(int p, int pat, int kind, int wmode, int cmode)
{
    Ref r = makeRef(p, pat, kind, wmode, cmode, TINY); Curve c = toCurve(r);
    auto segs = c.ExtractBezier();
    unchanged(c, r);
    auto in = distinct(r.U);
    sym_check(segs.size() == in.size() + 1, "one segment per non-empty span");
    double s = sym_real("s", 0, 0.0, 1.0);
    for (size_t k = 0; k <= in.size(); k++)
    {
        Ref g = ofCurve(segs[k]);
        sym_check(g.p == p && (int)g.P.size() == p + 1 && (int)g.U.size() == 2 * p + 2, "Bezier segment: degree and sizes");
        for (int i = 0; i <= p; i++) { sym_same(g.U[i], 0.0, "Bezier knots"); sym_same(g.U[p + 1 + i], 1.0, "Bezier knots"); }
        shapeOk(g);
        double a = k == 0 ? 0.0 : in[k - 1], b = k == in.size() ? 1.0 : in[k];
        // the polynomial piece of span k, taken at a + s (b - a): at s = 1 it is the limit from the left
        Vec4 y = homo(g, s);
        double u = a + s * (b - a);
        if (s == 1.0 && k < in.size()) u = b;
        Vec4 x = homo(r, u);
        for (int i = 0; i < 3; i++) sym_eq(y[i] / y[3], x[i] / x[3], "segment equals the curve on its span");
        for (int i = 0; i < 3; i++) sym_out("y", (int)k * 3 + i, y[i] / y[3]);
    }
}

// ---- C30 (curves) -----------------------------------------------------------------------------------------------------
// a sequence of operations given by the decimal digits of `ops`: 1 insert, 2 insert twice, 3 elevate, 4 remove the last inserted, 5 insert at an existing knot,
// 6 save and load in binary form (into an object used before), 7 remove two copies of the last inserted, 8 elevate by two, 9 insert a list of two
ENTRY c30_chain(int p, int pat, int kind, int wmode, int cmode, int ops)
{
    Ref r = makeRef(p, pat, kind, wmode, cmode); Curve c = toCurve(r);
    int n = patLen(ops), xi = 0; double last = -1; 
    static const double fx[] = {0.5, 0.3125, 0.8125, 0.125, 0.625, 0.1875, 0.6875, 0.0625};
    for (int i = 0; i < n; i++)
    {
        Ref before = ofCurve(c); Curve d;
        switch (patAt(ops, i))
        {
        case 1: case 2:
        {
            double x = xi == 0 && kind == 0 ? newKnot("x", xi) : fx[xi]; xi++;
            for (double t : distinct(before.U)) apart(t, x);
            if (xi == 1) inside(x);
            d = patAt(ops, i) == 1 ? c.InsertKnot(x) : c.InsertKnot(x, 2); last = x; break;
        }
        case 3: d = c.ElevateDegree(1); break;
        case 4: { auto res = c.RemoveKnot(last, 1, 1e-6); sym_check(std::get<1>(res) == 1, "a knot just inserted can be removed"); d = std::get<0>(res); break; }
        case 6: { std::stringstream ss; c.SaveToFile(ss, true); unchanged(c, before); d = toCurve(r); d.LoadFromFile(ss); break; }
        case 7: { auto res = c.RemoveKnot(last, 2, 1e-6); sym_check(std::get<1>(res) == 2, "two copies just inserted can be removed"); d = std::get<0>(res); break; }
        case 8: d = c.ElevateDegree(2); break;
        case 9: { double l[] = {fx[xi], fx[xi + 1]}; for (double x : l) for (double t : distinct(before.U)) apart(t, x); xi += 2; d = c.InsertKnot(std::span<double>(l)); last = l[1]; break; }
        default: { double x = distinct(before.U)[0]; sym_assume(multOf(before.U, x) < before.p); d = c.InsertKnot(x); last = x; break; }
        }
        unchanged(c, before);
        c = d;
        Ref now = ofCurve(c); shapeOk(now);
        sym_check(c.Knots.IsValid() && c.Knots.IsClamped(), "the knot vector stays valid");
    }
    double u = sym_real("u", 0, 0.0, 1.0);
    samePointAt(ofCurve(c), r, u, "same point after the chain");
    outs(ofCurve(c));
}

// ---- objects that held and used other contents before
WARMED(c08_single, (int p, int pat, int kind, int wmode, int at, int cmode), p, pat, kind, wmode, at, cmode)
WARMED(c08_times, (int p, int pat, int kind, int wmode, int times, int at, int cmode), p, pat, kind, wmode, times, at, cmode)
WARMED(c08_list, (int p, int pat, int kind, int wmode, int n, int cmode), p, pat, kind, wmode, n, cmode)
WARMED(c09_removable, (int p, int pat, int kind, int wmode, int s, int times, int at, int cmode), p, pat, kind, wmode, s, times, at, cmode)
WARMED(c09_partial, (int p, int pat, int wmode, int s, int times, int at), p, pat, wmode, s, times, at)
WARMED(c10_elevate, (int p, int pat, int kind, int wmode, int cmode, int times), p, pat, kind, wmode, cmode, times)
WARMED(c11_bezier, (int p, int pat, int kind, int wmode, int cmode), p, pat, kind, wmode, cmode)
