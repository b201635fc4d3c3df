#include "util.h"
#include <cmath>
#include <algorithm>
using namespace hx;

// C01: values of the basis functions
ENTRY c01_values(int p, int pat, int kind)
{
    auto U = makeKnots("t", p, pat, kind, TINY);
    KnotVector kv(U);
    double u = sym_real("u", 0, 0.0, 1.0);
    VecX N = BSplineBasis::Evaluate(p, kv, u);
    sym_check(N.size() == p + 1, "number of non-zero basis functions");
    int s = spanOf(U, p, u);
    double sum = 0;
    for (int i = 0; i <= p; i++)
    {
        sym_le(0.0, N[i], "basis function is non-negative");
        sum += N[i];
        sym_eq(N[i], coxDeBoor(s - p + i, p, U, u), "basis function equals the Cox-de Boor recursion");
        sym_out("N", i, N[i]);
    }
    sym_eq(sum, 1.0, "basis functions sum to one");
    VecX M = BSplineBasis::Evaluate(p, U, s, u);
    sym_check(M.size() == p + 1, "number of basis functions (span given)");
    for (int i = 0; i <= p; i++) sym_eq(M[i], N[i], "evaluation with a given span agrees");
    MatX A = BSplineBasis::EvaluateAll(p, kv, u, 0);
    sym_check(A.rows() == 1 && A.cols() == p + 1, "size of the table");
    for (int i = 0; i <= p; i++) sym_eq(A(0, i), N[i], "row 0 of the derivative table agrees");
    for (size_t i = 0; i < U.size(); i++) sym_same(kv.Values()[i], U[i], "the knot vector is unchanged");
}
// C02: derivatives of the basis functions
ENTRY c02_ders(int p, int pat, int kind, int order)
{
    auto U = makeKnots("t", p, pat, kind, TINY);
    KnotVector kv(U);
    double u = sym_real("u", 0, 0.0, 1.0);
    MatX D = BSplineBasis::EvaluateAll(p, kv, u, order);
    sym_check(D.rows() == order + 1 && D.cols() == p + 1, "size of the derivative table");
    int s = spanOf(U, p, u);
    for (int k = 0; k <= order; k++)
    {
        if (!sym_symbolic()) { double m = 1; for (int i = 0; i <= p; i++) m = std::max(m, std::fabs(D(k, i))); sym_scale(m); }
        for (int i = 0; i <= p; i++)
        {
            if (k > p) sym_eq(D(k, i), 0.0, "derivative above the degree is zero");
            else sym_eq(D(k, i), coxDeBoorDer(s - p + i, p, U, u, k), "derivative of the basis function");
            sym_out("D", k * 100 + i, D(k, i));
        }
    }
    VecX R = BSplineBasis::EvaluateDerivative(p, kv, u, order);
    sym_check(R.size() == p + 1, "size of the single derivative row");
    for (int i = 0; i <= p; i++) sym_eq(R[i], D(order, i), "single order equals the row of the table");
    VecX R2 = BSplineBasis::EvaluateDerivative(p, U, s, u, order);
    for (int i = 0; i <= p; i++) sym_eq(R2[i], D(order, i), "single order with a given span");
    MatX D2 = BSplineBasis::EvaluateAll(p, U, s, u, order);
    for (int k = 0; k <= order; k++) for (int i = 0; i <= p; i++) sym_eq(D2(k, i), D(k, i), "table with a given span");
}
// C03, real values: symbolic knots and multiplicities
ENTRY c03_span(int p, int pat)
{
    auto in = interior("t", pat, 0, 1.0 / 1073741824);
    auto U = knots(p, pat, in);
    KnotVector kv(U);
    double u = sym_real("u", 0, 0.0, 1.0);
    int i = kv.FindSpanIndex(p, u);
    int n = (int)U.size() - p - 2;
    sym_check(i >= p && i <= n, "span index in range");
    sym_check(U[i] <= u && (u < U[i + 1] || (u == 1.0 && U[i + 1] == 1.0 && U[i] < 1.0)), "the span contains the parameter");
    auto sp = kv.FindSpan(u);
    int m = patLen(pat), k = 0;                       // ordinal of the span among the distinct knots
    for (int q = 0; q < m; q++) if (in[q] <= u) k = q + 1;
    sym_check(sp.Index == k, "ordinal of the span");
    double l = k == 0 ? 0.0 : in[k - 1], r = k == m ? 1.0 : in[k];
    sym_same(sp.Left.Value, l, "left knot of the span");
    sym_same(sp.Right.Value, r, "right knot of the span");
    sym_check(sp.Left.Multiplicity == (k == 0 ? p + 1 : patAt(pat, k - 1)), "multiplicity of the left knot");
    sym_check(sp.Right.Multiplicity == (k == m ? p + 1 : patAt(pat, k)), "multiplicity of the right knot");
    sym_out("i", 0, i); sym_out("k", 0, k);
    for (size_t q = 0; q < U.size(); q++) sym_same(kv.Values()[q], U[q], "the knot vector is unchanged");
}
// C03, bit-precise: arbitrary doubles, sorted, equal or not
ENTRY c03_fp(int p, int m)
{
    std::vector<double> U(p + 1, 0.0);
    for (int i = 0; i < m; i++)
    {
        double t = sym_double("t", i);
        sym_assume(t >= U.back());
        sym_assume(t > 0.0 && t < 1.0);
        U.push_back(t);
    }
    for (int i = 0; i <= p; i++) U.push_back(1.0);
    KnotVector kv(U);
    double u = sym_double("u", 0);
    sym_assume(u >= 0.0 && u <= 1.0);
    int i = kv.FindSpanIndex(p, u);
    int n = (int)U.size() - p - 2;
    sym_check(i >= p && i <= n, "span index in range");
    sym_check(U[i] <= u, "span starts at or before the parameter");
    sym_check(u < U[i + 1] || (u == 1.0 && U[i + 1] == 1.0), "span ends after the parameter");
    auto sp = kv.FindSpan(u);
    sym_check(sp.Left.Value <= u && (u < sp.Right.Value || (u == 1.0 && sp.Right.Value == 1.0)), "the span by value contains the parameter");
    sym_check(sp.Left.Value < sp.Right.Value, "the span by value is not empty");
    int cl = 0, cr = 0; for (double t : U) { if (t == sp.Left.Value) cl++; if (t == sp.Right.Value) cr++; }
    sym_check(cl == sp.Left.Multiplicity && cr == sp.Right.Multiplicity, "multiplicities of the neighbouring knots");
    for (double t : U) sym_check(t <= sp.Left.Value || t >= sp.Right.Value, "no knot inside the span");
}

// ---- several calls in a row: nothing remembered from an earlier one may show
static void basisIs(int p, const KnotVector& kv, const std::vector<double>& U, double u, int order)
{
    int s = spanOf(U, p, u);
    if (order < 0)
    {
        VecX N = BSplineBasis::Evaluate(p, kv, u); sym_check(N.size() == p + 1, "number of non-zero basis functions");
        for (int i = 0; i <= p; i++) sym_eq(N[i], coxDeBoor(s - p + i, p, U, u), "basis functions do not depend on earlier calls");
        return;
    }
    MatX D = BSplineBasis::EvaluateAll(p, kv, u, order); sym_check(D.rows() == order + 1 && D.cols() == p + 1, "size of the derivative table");
    for (int k = 0; k <= order; k++)
    {
        if (!sym_symbolic()) { double m = 1; for (int i = 0; i <= p; i++) m = std::max(m, std::fabs(D(k, i))); sym_scale(m); }
        for (int i = 0; i <= p; i++) sym_eq(D(k, i), k > p ? 0.0 : coxDeBoorDer(s - p + i, p, U, u, k), "derivatives do not depend on earlier calls");
    }
    VecX R = BSplineBasis::EvaluateDerivative(p, kv, u, order);
    sym_check(R.size() == p + 1, "size of the single derivative row");
    for (int i = 0; i <= p; i++) sym_eq(R[i], D(order, i), "single order equals the row of the table");
}
static void twice(int p, int pat, int kind, int how, int order)
{
    auto U = makeKnots("t", p, pat, kind, TINY), O = otherKnots(p, (int)U.size());
    double u = sym_real("u", 0, 0.0, 1.0); int low = order < 0 ? order : order > 0 ? order - 1 : 0;
    if (how == 0)
    {
        KnotVector kv(U); double v = sym_real("v", 0, 0.0, 1.0);
        basisIs(p, kv, U, v, order); basisIs(p, kv, U, u, order); basisIs(p, kv, U, u, low); basisIs(p, kv, U, v, order);
    }
    else if (how == 1) { KnotVector kv(O); basisIs(p, kv, O, u, order); kv.Values() = U; basisIs(p, kv, U, u, order); kv = KnotVector(O); basisIs(p, kv, O, u, order); }
    else
    {
        KnotVector a(O), b(U); auto W = U; W.insert(W.begin(), 0.0); W.push_back(1.0); KnotVector c(W);
        basisIs(p, a, O, u, order); basisIs(p, b, U, u, order); basisIs(p + 1, c, W, u, order); basisIs(p, a, O, u, order); basisIs(p, b, U, u, order);
    }
}
ENTRY c01_twice(int p, int pat, int kind, int how) { twice(p, pat, kind, how, -1); }
ENTRY c02_twice(int p, int pat, int kind, int how, int order) { twice(p, pat, kind, how, order); }
ENTRY c03_twice(int p, int pat, int kind, int how)
{
    auto U = makeKnots("t", p, pat, kind, TINY), O = otherKnots(p, (int)U.size());
    double u = sym_real("u", 0, 0.0, 1.0), v = sym_real("v", 0, 0.0, 1.0);
    auto is = [&](const KnotVector& kv, const std::vector<double>& U, double u)
    {
        int i = kv.FindSpanIndex(p, u); auto sp = kv.FindSpan(u);
        sym_check(i == spanOf(U, p, u), "the span does not depend on earlier calls");
        sym_same(sp.Left.Value, U[spanOf(U, p, u)], "the span by value does not depend on earlier calls");
        sym_same(sp.Right.Value, U[spanOf(U, p, u) + 1], "the span by value does not depend on earlier calls");
        sym_check(sp.Left.Multiplicity == multOf(U, sp.Left.Value) && sp.Right.Multiplicity == multOf(U, sp.Right.Value), "multiplicities do not depend on earlier calls");
    };
    if (how == 0) { KnotVector kv(U); is(kv, U, v); is(kv, U, u); is(kv, U, v); }
    else if (how == 1) { KnotVector kv(O); is(kv, O, u); kv.Values() = U; is(kv, U, u); is(kv, U, v); }
    else if (how == 2) { KnotVector a(O), b(U); is(a, O, u); is(b, U, v); is(a, O, u); }
    else { KnotVector kv(U); is(kv, U, v); kv.InsertKnot(0.5); auto W = merged(U, 0.5, 1); is(kv, W, v); kv.Reverse(); auto X = W; for (size_t i = 0; i < W.size(); i++) X[i] = 1.0 - W[W.size() - 1 - i]; is(kv, X, v); is(kv, X, u); }
}
