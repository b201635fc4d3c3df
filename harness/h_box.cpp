// C12: bounding boxes of curves.
#include "util.h"
#include <cmath>
#include <algorithm>
using namespace hx;

// which coordinates are symbolic: bit c of `dims`; the others are fixed. range: |coordinate| <= R
static Ref boxRef(int p, int pat, int kind, int wmode, int dims, double R, int seed)
{
    Ref r; r.p = p; r.U = makeKnots("t", p, pat, kind); int n = (int)r.U.size() - p - 1;
    for (int i = 0; i < n; i++)
    {
        Vec4 v;
        for (int c = 0; c < 3; c++) v[c] = (dims >> c) & 1 ? sym_real("P", 4 * i + c, -R, R) : (c + seed) % 3 == 0 ? 0.125 * i : (c + seed) % 3 == 1 ? 0.25 : 0.5 - 0.0625 * i;
        v[3] = wmode == 0 ? 1.0 : wmode == 1 ? sym_real("P", 4 * i + 3, 0.5, 2.0) : fixedWeight(i);
        r.P.push_back(v);
    }
    return r;
}
// degree 1: the box is the box of the control points
ENTRY c12_line(int pat, int kind, int wmode)
{
    Ref r = boxRef(1, pat, kind, wmode, 7, 8.0, 0); Curve c = toCurve(r);
    double eps = sym_real("eps", 0, 0.0, 4.0); sym_assume(eps > 0.0);
    BoundingBox b = c.GetBoundingBox(eps);
    unchanged(c, r);
    for (int k = 0; k < 3; k++)
    {
        double lo = r.P[0][k], hi = lo;
        for (auto& P : r.P) { if (P[k] < lo) lo = P[k]; if (P[k] > hi) hi = P[k]; }
        double e = eps > 1e-6 ? eps : 1e-6;
        sym_check(b.Min[k] >= lo && b.Max[k] <= hi, "the box is no larger than the curve");
        sym_check(b.Min[k] <= lo + e && b.Max[k] >= hi - e, "the box encloses the curve");
    }
}
// any degree, fixed control points but for one or two symbolic values (s1, s2: 4 * point + coordinate, coordinate 3 is the weight;
// -1 none): enclosure of the point at every parameter, and tightness against the points at `grid` parameters per span. When
// the bounds are right, the points at the grid parameters come within `slack` of them.
static double hull(int i, int c, int seed) { static const double v[] = {0.0, 1.0, 0.25, -0.75, 0.5, -1.0, 0.875, -0.25, 1.25, -0.5, 0.75}; return c == 0 ? v[(i * 2 + seed) % 11] : c == 1 ? v[(i * 3 + 4 + seed) % 11] : v[(i * 5 + 7 + seed) % 11]; }
ENTRY c12_box(int p, int pat, int wmode, int seed, int s1, int s2, int epsInv, int grid, int slackInv)
{
    Ref r; r.p = p; r.U = makeKnots("t", p, pat, 1); int n = (int)r.U.size() - p - 1;
    for (int i = 0; i < n; i++)
    {
        Vec4 v;
        for (int c = 0; c < 4; c++)
            v[c] = 4 * i + c == s1 || 4 * i + c == s2 ? (c == 3 ? sym_real("P", 4 * i + c, 0.5, 2.0) : sym_real("P", 4 * i + c, -2.0, 2.0)) : c == 3 ? (wmode == 0 ? 1.0 : fixedWeight(i + seed)) : hull(i, c, seed);
        r.P.push_back(v);
    }
    Curve c = toCurve(r);
    double eps = 1.0 / epsInv;
    BoundingBox b = c.GetBoundingBox(eps);
    unchanged(c, r);
    double u = sym_real("u", 0, 0.0, 1.0), e = eps > 1e-6 ? eps : 1e-6;
    Vec4 h = homo(r, u);
    for (int k = 0; k < 3; k++)
    {
        sym_le(b.Min[k] - e, h[k] / h[3], "every point lies in the box enlarged by epsilon (lower bound)");
        sym_le(h[k] / h[3], b.Max[k] + e, "every point lies in the box enlarged by epsilon (upper bound)");
        sym_out("min", k, b.Min[k]); sym_out("max", k, b.Max[k]);
    }
    std::vector<double> in = distinct(r.U); in.insert(in.begin(), 0.0); in.push_back(1.0);
    double slack = 1.0 / slackInv;
    bool lo[3] = {false, false, false}, hi[3] = {false, false, false};
    for (size_t s = 0; s + 1 < in.size(); s++) for (int g = 0; g <= grid; g++)
    {
        double t = g == grid ? in[s + 1] : in[s] + (in[s + 1] - in[s]) * ((double)g / grid);
        Vec4 y = homo(r, t);
        for (int k = 0; k < 3; k++) { double v = y[k] / y[3]; lo[k] = lo[k] | (v <= b.Min[k] + slack); hi[k] = hi[k] | (v >= b.Max[k] - slack); }
    }
    for (int k = 0; k < 3; k++) sym_check(lo[k] & hi[k], "the box is no larger than the curve");
}
// a peak of height h over nearly coinciding ends, the inner weights large: enclosure needs the subdivision to go on
ENTRY c12_peak(int p, int axis, int w, int epsInv, int dxInv)
{
    Ref r; r.p = p; r.U = std::vector<double>(p + 1, 0.0); r.U.insert(r.U.end(), p + 1, 1.0);
    double h = sym_real("h", 0, -0.5, 0.5);
    for (int i = 0; i <= p; i++) { Vec4 v(0, 0, 0, i == 0 || i == p ? 1.0 : w); v[(axis + 1) % 3] = (double)i / (p * dxInv); if (i != 0 && i != p) v[axis] = h; r.P.push_back(v); }
    Curve c = toCurve(r); double eps = 1.0 / epsInv;
    BoundingBox b = c.GetBoundingBox(eps);
    unchanged(c, r);
    double u = sym_real("u", 0, 0.0, 1.0); Vec4 y = homo(r, u);
    for (int k = 0; k < 3; k++)
    {
        sym_le(b.Min[k] - eps, y[k] / y[3], "every point lies in the box enlarged by epsilon (lower bound)");
        sym_le(y[k] / y[3], b.Max[k] + eps, "every point lies in the box enlarged by epsilon (upper bound)");
    }
    double m = homo(r, 0.5)[axis] / homo(r, 0.5)[3], lo = m < 0.0 ? m : 0.0, hi = m > 0.0 ? m : 0.0; // symmetric: the extreme is at the middle
    sym_check(b.Min[axis] >= lo && b.Max[axis] <= hi, "the box is no larger than the curve");
}
// a slight bump over ends that are far apart, epsilon below the flatness limit of 1e-6: enclosure within 1e-6
ENTRY c12_bump(int p, int axis, int w, int hInv, int epsInv)
{
    Ref r; r.p = p; r.U = std::vector<double>(p + 1, 0.0); r.U.insert(r.U.end(), p + 1, 1.0);
    double h = sym_real("h", 0, -1.0 / hInv, 1.0 / hInv);
    for (int i = 0; i <= p; i++) { Vec4 v(0, 0, 0, i == 0 || i == p ? 1.0 : w); v[(axis + 1) % 3] = (double)i / p; if (i != 0 && i != p) v[axis] = h; r.P.push_back(v); }
    Curve c = toCurve(r); double eps = 1.0 / epsInv, e = eps > 1e-6 ? eps : 1e-6;
    BoundingBox b = c.GetBoundingBox(eps);
    unchanged(c, r);
    double u = sym_real("u", 0, 0.0, 1.0); Vec4 y = homo(r, u);
    for (int k = 0; k < 3; k++)
    {
        sym_le(b.Min[k] - e, y[k] / y[3], "every point lies in the box enlarged by epsilon (lower bound)");
        sym_le(y[k] / y[3], b.Max[k] + e, "every point lies in the box enlarged by epsilon (upper bound)");
    }
    double m = homo(r, 0.5)[axis] / homo(r, 0.5)[3], lo = m < 0.0 ? m : 0.0, hi = m > 0.0 ? m : 0.0;
    sym_check(b.Min[axis] >= lo && b.Max[axis] <= hi, "the box is no larger than the curve");
}
