// C22 grids, C23 builders, C28 boxes, C29 helpers.
#include "util.h"
#include <cmath>
using namespace hx;

// ---- C22 ------------------------------------------------------------------------------------------------------------
template <class T> static Grid<T> fill(int U, int V, std::vector<T>& cells, T (*mk)(int))
{
    Grid<T> g(U, V);
    cells.clear();
    for (int j = 0; j < V; j++) for (int i = 0; i < U; i++) { T x = mk(j * U + i); g.Get(i, j) = x; cells.push_back(x); }
    return g;
}
static double mkD(int i) { return sym_real("c", i, -1e6, 1e6); }
static int mkI(int i) { return sym_int("c", i, -1000000, 1000000); }
static void cell(double a, double b, const char* m) { sym_same(a, b, m); }
static void cell(int a, int b, const char* m) { sym_check(a == b, m); }
template <class T> static void gridCase(int U, int V, T (*mk)(int))
{
    std::vector<T> c;
    Grid<T> g = fill<T>(U, V, c, mk);
    auto same = [&](const Grid<T>& h, const char* m) { sym_check(h.UCount == U && h.VCount == V && (int)h.Values.size() == U * V && h.Count() == U * V, m); for (int j = 0; j < V; j++) for (int i = 0; i < U; i++) cell(h.Get(i, j), c[j * U + i], m); };
    same(g, "every written cell reads back");
    int i = sym_split(sym_int("i", 0, 0, U - 1)), j = sym_split(sym_int("j", 0, 0, V - 1));
    auto col = g.GetU(i); sym_check((int)col.size() == V, "length of a line of constant u");
    for (int k = 0; k < V; k++) cell(col[k], c[k * U + i], "line of constant u");
    auto row = g.GetV(j); sym_check((int)row.size() == U, "length of a line of constant v");
    for (int k = 0; k < U; k++) cell(row[k], c[j * U + k], "line of constant v");
    same(g, "reading changes nothing");
    T x = mk(1000);
    Grid<T> h = g; h.Get(i, j) = x;
    for (int b = 0; b < V; b++) for (int a = 0; a < U; a++) cell(h.Get(a, b), a == i && b == j ? x : c[b * U + a], "writing one cell");
    h = g; std::vector<T> nu; for (int k = 0; k < V; k++) nu.push_back(mk(2000 + k));
    h.SetU(i, nu);
    for (int b = 0; b < V; b++) for (int a = 0; a < U; a++) cell(h.Get(a, b), a == i ? nu[b] : c[b * U + a], "writing a line of constant u");
    h = g; std::vector<T> nv; for (int k = 0; k < U; k++) nv.push_back(mk(3000 + k));
    h.SetV(j, nv);
    for (int b = 0; b < V; b++) for (int a = 0; a < U; a++) cell(h.Get(a, b), b == j ? nv[a] : c[b * U + a], "writing a line of constant v");
    sym_check(h.UCount == U && h.VCount == V && h.Count() == U * V, "writing keeps the size");
    h = g; h.InsertU(i, x);
    sym_check(h.UCount == U + 1 && h.VCount == V && (int)h.Values.size() == (U + 1) * V, "inserting in u: size");
    for (int b = 0; b < V; b++) for (int a = 0; a <= U; a++) cell(h.Get(a, b), a == i ? x : c[b * U + (a > i ? a - 1 : a)], "inserting in u: cells");
    h = g; h.InsertV(j, x);
    sym_check(h.UCount == U && h.VCount == V + 1 && (int)h.Values.size() == U * (V + 1), "inserting in v: size");
    for (int b = 0; b <= V; b++) for (int a = 0; a < U; a++) cell(h.Get(a, b), b == j ? x : c[(b > j ? b - 1 : b) * U + a], "inserting in v: cells");
    h = g; h.InsertU(i); h.InsertV(j);
    for (int b = 0; b <= V; b++) for (int a = 0; a <= U; a++) cell(h.Get(a, b), a == i || b == j ? T() : c[(b > j ? b - 1 : b) * U + (a > i ? a - 1 : a)], "inserting default values");
    Grid<T> z(U, V, T(x));
    for (int b = 0; b < V; b++) for (int a = 0; a < U; a++) cell(z.Get(a, b), x, "filled grid");
}
static double mkF(int i) { return i * 0.25 + 1; }
// contents fixed (all different), the index symbolic: larger grids
ENTRY c22_big(int U, int V)
{
    gridCase<double>(U, V, mkF);
}
ENTRY c22_grid(int U, int V) { gridCase<double>(U, V, mkD); }
ENTRY c22_gridint(int U, int V) { gridCase<int>(U, V, mkI); }
// the inserted value may be a cell of the grid itself
ENTRY c22_alias(int U, int V)
{
    std::vector<double> c; Grid<double> g = fill<double>(U, V, c, mkD);
    int i = sym_split(sym_int("i", 0, 0, U - 1)), j = sym_split(sym_int("j", 0, 0, V - 1)), a = sym_split(sym_int("a", 0, 0, U - 1)), b = sym_split(sym_int("b", 0, 0, V - 1));
    double x = c[b * U + a];
    Grid<double> h = g; h.InsertU(i, h.Get(a, b));
    for (int q = 0; q < V; q++) for (int p = 0; p <= U; p++) cell(h.Get(p, q), p == i ? x : c[q * U + (p > i ? p - 1 : p)], "inserting a copy of a cell in u");
    h = g; h.InsertV(j, h.Get(a, b));
    for (int q = 0; q <= V; q++) for (int p = 0; p < U; p++) cell(h.Get(p, q), q == j ? x : c[(q > j ? q - 1 : q) * U + p], "inserting a copy of a cell in v");
}
ENTRY c22_vec(int U, int V)
{
    Grid<Vec4> g(U, V); std::vector<Vec4> c;
    for (int j = 0; j < V; j++) for (int i = 0; i < U; i++) { Vec4 x = symPoint("c", j * U + i, -1.0); g.Get(i, j) = x; c.push_back(x); }
    int i = sym_split(sym_int("i", 0, 0, U - 1)), j = sym_split(sym_int("j", 0, 0, V - 1));
    Vec4 x = symPoint("x", 0, -1.0);
    auto eq = [](const Vec4& a, const Vec4& b, const char* m) { for (int k = 0; k < 4; k++) sym_same(a[k], b[k], m); };
    auto col = g.GetU(i); for (int k = 0; k < V; k++) eq(col[k], c[k * U + i], "line of constant u");
    auto row = g.GetV(j); for (int k = 0; k < U; k++) eq(row[k], c[j * U + k], "line of constant v");
    auto h = g; h.InsertU(i, x);
    for (int b = 0; b < V; b++) for (int a = 0; a <= U; a++) eq(h.Get(a, b), a == i ? x : c[b * U + (a > i ? a - 1 : a)], "inserting in u: cells");
    h = g; h.InsertV(j, x);
    for (int b = 0; b <= V; b++) for (int a = 0; a < U; a++) eq(h.Get(a, b), b == j ? x : c[(b > j ? b - 1 : b) * U + a], "inserting in v: cells");
}

// ---- C23 ------------------------------------------------------------------------------------------------------------
static Vec3 sym3(const char* n, int i = 0) { return Vec3(sym_real(n, 3 * i, -COORD, COORD), sym_real(n, 3 * i + 1, -COORD, COORD), sym_real(n, 3 * i + 2, -COORD, COORD)); }
static Vec3 point(const Ref& r, double u) { Vec4 h = homo(r, u); return Vec3(h[0] / h[3], h[1] / h[3], h[2] / h[3]); }
static void uniformOk(const KnotVector& kv, int p, int n)
{
    auto& U = kv.Values(); int e = n - p - 1;
    sym_check((int)U.size() == n + p + 1, "knot count");
    for (int i = 0; i <= p; i++) { sym_same(U[i], 0.0, "knots clamped at 0"); sym_same(U[n + i], 1.0, "knots clamped at 1"); }
    for (int i = 1; i <= e; i++) sym_near(U[p + i], (double)i / (e + 1), 1e-14, "knots equally spaced");
}
ENTRY c23_segment(int p, int n)
{
    Vec3 l = sym3("L"), r = sym3("R");
    GeomSegment s = GeomSegment::Make(l, r); s.Degree = p; s.ControlPointCount = n;
    Curve c = s.GetCurve();
    sym_check(c.Degree == p && (int)c.ControlPoints.size() == n, "degree and count");
    uniformOk(c.Knots, p, n);
    Ref f = ofCurve(c);
    for (int i = 0; i < n; i++)
    {
        sym_same(f.P[i][3], 1.0, "unit weights");
        for (int k = 0; k < 3; k++) sym_eq(f.P[i][k], l[k] + (r[k] - l[k]) * i / (n - 1), "control points equally spaced on the segment");
    }
    double u = sym_real("u", 0, 0, 1);
    Vec3 a = c.Evaluate(0.0), b = c.Evaluate(1.0);
    for (int k = 0; k < 3; k++) { sym_eq(a[k], l[k], "starts at the left point"); sym_eq(b[k], r[k], "ends at the right point"); }
    Vec3 x = c.Evaluate(u), y = point(f, u);
    // x = l + s (r - l) with 0 <= s <= 1: s is the point of the unit segment
    Ref g = f; for (int i = 0; i < n; i++) g.P[i] = Vec4((double)i / (n - 1), 0, 0, 1);
    double t = point(g, u)[0];
    sym_le(0.0, t, "parameter on the segment"); sym_le(t, 1.0, "parameter on the segment");
    for (int k = 0; k < 3; k++) { sym_eq(x[k], y[k], "point by the definition"); sym_eq(x[k], l[k] + t * (r[k] - l[k]), "on the segment"); }
    if (n == p + 1) for (int k = 0; k < 3; k++) sym_eq(x[k], l[k] + u * (r[k] - l[k]), "affine parametrisation");
    for (int k = 0; k < 3; k++) sym_out("x", k, x[k]);
}
ENTRY c23_rect(int p, int n, int q, int m)
{
    Vec3 lb = sym3("A"), rb = sym3("B"), lt = sym3("C"), rt;
    for (int k = 0; k < 3; k++) rt[k] = rb[k] + lt[k] - lb[k];
    GeomRect g = GeomRect::Make(lb, rb, lt, rt);
    g.DegreeU = p; g.DegreeV = q; g.ControlPointCountU = n; g.ControlPointCountV = m;
    Surface s = g.GetSurface();
    sym_check(s.DegreeU == p && s.DegreeV == q && s.ControlPoints.UCount == n && s.ControlPoints.VCount == m && (int)s.ControlPoints.Values.size() == n * m, "degrees and counts");
    uniformOk(s.KnotsU, p, n); uniformOk(s.KnotsV, q, m);
    for (int j = 0; j < m; j++) for (int i = 0; i < n; i++)
    {
        Vec4 P = s.ControlPoints.Get(i, j);
        sym_same(P[3], 1.0, "unit weights");
        for (int k = 0; k < 3; k++) sym_eq(P[k], lb[k] + (rb[k] - lb[k]) * i / (n - 1) + (lt[k] - lb[k]) * j / (m - 1), "control points in the lattice of the parallelogram");
    }
    Vec3 c00 = s.Evaluate(0, 0), c10 = s.Evaluate(1, 0), c01 = s.Evaluate(0, 1), c11 = s.Evaluate(1, 1);
    for (int k = 0; k < 3; k++) { sym_eq(c00[k], lb[k], "corner (0,0)"); sym_eq(c10[k], rb[k], "corner (1,0)"); sym_eq(c01[k], lt[k], "corner (0,1)"); sym_eq(c11[k], rt[k], "corner (1,1)"); }
    if (n == p + 1 && m == q + 1)
    {
        double u = sym_real("u", 0, 0, 1), v = sym_real("v", 0, 0, 1);
        Vec3 x = s.Evaluate(u, v);
        for (int k = 0; k < 3; k++) { sym_eq(x[k], lb[k] + u * (rb[k] - lb[k]) + v * (lt[k] - lb[k]), "affine map"); sym_out("x", k, x[k]); }
    }
}

// ---- C28 ------------------------------------------------------------------------------------------------------------
static double mn(double a, double b) { return a < b ? a : b; }
static double mx(double a, double b) { return a > b ? a : b; }
// every operation works coordinate by coordinate: coordinate `c` is symbolic, the others are fixed by `mode`
static double other(int mode, int c, int i) { static const double v[3][4] = {{1, 2, 3, 4}, {3, -1, 2, 5}, {-2, -4, -3, -1}}; return v[(mode + c) % 3][i % 4]; }
ENTRY c28_box(int c, int mode)
{
    Vec3 a, b, p, q, r;
    for (int k = 0; k < 3; k++) { a[k] = other(mode, k, 0); b[k] = other(mode, k, 1); p[k] = other(mode, k, 2); q[k] = other(mode, k, 3); r[k] = other(mode, k, 2); }
    a[c] = sym_real("a", 0, -1e6, 1e6); b[c] = sym_real("b", 0, -1e6, 1e6); p[c] = sym_real("p", 0, -1e6, 1e6); q[c] = sym_real("q", 0, -1e6, 1e6); r[c] = sym_real("r", 0, -1e6, 1e6);
    BoundingBox x(a, b);
    for (int k = 0; k < 3; k++) { sym_eq(x.Min[k], mn(a[k], b[k]), "box of two points: lower bound"); sym_eq(x.Max[k], mx(a[k], b[k]), "box of two points: upper bound"); }
    Vec3 len = x.Length(), ce = x.Center(); double vol = 1;
    for (int k = 0; k < 3; k++) { sym_eq(len[k], x.Max[k] - x.Min[k], "edge lengths"); sym_eq(ce[k], (x.Max[k] + x.Min[k]) / 2, "centre"); vol *= x.Max[k] - x.Min[k]; }
    sym_eq(x.Volume(), vol, "volume");
    bool in = true; for (int k = 0; k < 3; k++) if (p[k] < x.Min[k] || p[k] > x.Max[k]) in = false;
    sym_check(x.Contains(p) == in, "containment of a point");
    BoundingBox y = x; y.ExpandToInclude(p);
    for (int k = 0; k < 3; k++) { sym_eq(y.Min[k], mn(x.Min[k], p[k]), "extended by a point: lower bound"); sym_eq(y.Max[k], mx(x.Max[k], p[k]), "extended by a point: upper bound"); }
    BoundingBox z(q, r), w = x; w.ExpandToInclude(z);
    for (int k = 0; k < 3; k++) { sym_eq(w.Min[k], mn(x.Min[k], z.Min[k]), "extended by a box: lower bound"); sym_eq(w.Max[k], mx(x.Max[k], z.Max[k]), "extended by a box: upper bound"); }
    sym_check(w.Contains(x) && w.Contains(z) && w.Contains(a) && w.Contains(q), "contains what it was extended by");
}
ENTRY c28_contains(int mode)
{
    // all coordinates symbolic
    BoundingBox x(Vec3(-1, -2, -3), Vec3(4, 5, 6)), z;
    Vec3 p = sym3("p"), q = sym3("q");
    bool inP = true, inQ = true;
    for (int k = 0; k < 3; k++) { if (p[k] < x.Min[k] || p[k] > x.Max[k]) inP = false; if (q[k] < x.Min[k] || q[k] > x.Max[k]) inQ = false; }
    if (mode == 0) { sym_check(x.Contains(p) == inP, "containment of a point"); return; }
    z = BoundingBox(p, q);
    sym_check(x.Contains(z) == (inP && inQ), "containment of a box");
}

// ---- C29 ------------------------------------------------------------------------------------------------------------
ENTRY c29_ints(int lo, int hi)
{
    int n = sym_split(sym_int("n", 0, lo, hi)), k = sym_split(sym_int("k", 0, 0, hi + 2));
    static long t[33][34]; // Pascal's triangle
    for (int i = 0; i < 33; i++) for (int j = 0; j < 34; j++) t[i][j] = j == 0 ? 1 : i == 0 ? 0 : t[i - 1][j - 1] + t[i - 1][j];
    sym_check(Binomial(n, k) == t[n][k], "binomial coefficient");
    if (n <= 9) { long f = 1; for (int i = 2; i <= n; i++) f *= i; sym_check(Factorial(n) == f, "factorial"); }
}
ENTRY c29_approx()
{
    double a = sym_real("a", 0, -1e6, 1e6), b = sym_real("b", 0, -1e6, 1e6), e = sym_real("e", 0, 0, 1e3);
    double d = a > b ? a - b : b - a;
    sym_check(Approx(a, b, e) == (d < e), "approximate comparison of numbers");
    sym_check(Approx(a, b) == (d < 1e-6), "approximate comparison, default precision");
}
ENTRY c29_approxv(int mode)
{
    double e = sym_real("e", 0, 0, 1), m = 0;
    Vec3 a = Vec3(1, 2, 3), b = Vec3(1, 2, 3);
    for (int k = 0; k < 3; k++) if (mode >> k & 1) { a[k] = sym_real("a", k, -10, 10); b[k] = sym_real("b", k, -10, 10); }
    for (int k = 0; k < 3; k++) { double d = a[k] > b[k] ? a[k] - b[k] : b[k] - a[k]; if (d > m) m = d; }
    sym_check(Approx(a, b, e) == (m < e), "approximate comparison of vectors");
}
ENTRY c29_approx_fp()
{
    double a = sym_double("a", 0), b = sym_double("b", 0), e = sym_double("e", 0);
    double d = a - b; if (d < 0) d = -d;
    sym_check(Approx(a, b, e) == (d < e), "approximate comparison of arbitrary doubles");
}
ENTRY c29_homo()
{
    Vec4 v(sym_real("v", 0, -1e6, 1e6), sym_real("v", 1, -1e6, 1e6), sym_real("v", 2, -1e6, 1e6), sym_real("v", 3, -1e6, 1e6));
    Vec4 h = ToHomo(v);
    for (int k = 0; k < 3; k++) sym_eq(h[k], v[k] * v[3], "homogeneous position");
    sym_same(h[3], v[3], "homogeneous weight");
    if (v[3] > 1e-6 || v[3] < -1e-6)
    {
        Vec4 b = FromHomo(h), d = FromHomo(v);
        for (int k = 0; k < 3; k++) { sym_eq(b[k], v[k], "converting back restores the position"); sym_eq(d[k] * v[3], v[k], "converting from homogeneous divides"); }
        sym_same(b[3], v[3], "converting back keeps the weight"); sym_same(d[3], v[3], "converting keeps the weight");
    }
    for (int k = 0; k < 4; k++) sym_out("h", k, h[k]);
}
