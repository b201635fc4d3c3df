"""Properties, their harnesses, scenarios (tier, harness function, shape arguments, options) and bounds."""
import itertools
ASSUMPTIONS = []
PROPS = {}
Q, T = "quick", "thorough"
def pats(top, longest, shortest=0):
    """multiplicity patterns of up to `longest` interior knots, multiplicities 1..top (0: no interior knot)"""
    r = [] if shortest else [0]
    for n in range(max(1, shortest), longest + 1):
        r += [int("".join(map(str, d))) for d in itertools.product(range(1, top + 1), repeat=n)]
    return r
PROPS["C01"] = dict(harness="h_basis.cpp", bounds="x", scenarios=
  [(Q, "c01_values", (p, pat, 0)) for p, n in ((1, 5), (2, 4), (3, 3), (4, 2), (5, 2), (6, 1), (7, 1), (8, 1)) for pat in pats(p, n)] +
  [(Q, "c01_values", (p, pat, k)) for p, pat, k in ((1, 111111111, 2), (2, 121212121, 2), (3, 111111111, 1), (3, 123321123, 1), (4, 41411, 1), (5, 15351, 2), (6, 162, 1), (8, 182, 2), (9, 19, 1), (10, 11, 2), (12, 11, 1))] +
  [(T, "c01_values", (p, pat, 0)) for p, n in ((4, 3), (5, 3), (6, 2)) for pat in pats(p, n, n)])
PROPS["C02"] = dict(harness="h_basis.cpp", bounds="x", scenarios=
  [(Q, "c02_ders", (p, pat, 0, o)) for p, n, o in ((1, 4, 3), (2, 3, 4), (3, 2, 5), (4, 1, 6), (5, 1, 6), (6, 1, 7)) for pat in pats(p, n)] +
  [(Q, "c02_ders", (p, pat, 0, o)) for p, pat, o in ((1, 1, 0), (1, 1, 1), (1, 1, 2), (1, 1, 12), (2, 11, 1), (2, 12, 2), (2, 1, 3), (3, 12, 1), (3, 21, 2), (3, 111, 3), (3, 1, 10), (4, 12, 3), (4, 111, 2), (5, 11, 4))] +
  [(Q, "c02_ders", (p, pat, k, o)) for p, pat, k, o in ((2, 111111111, 1, 3), (3, 123321123, 2, 4), (5, 15351, 2, 6), (6, 162, 1, 7), (8, 182, 2, 9), (9, 19, 1, 10), (10, 11, 2, 12))] +
  [(T, "c02_ders", (p, pat, 0, o)) for p, n, o in ((3, 3, 4), (4, 2, 5), (5, 2, 6)) for pat in pats(p, n, n)])
PROPS["C03"] = dict(harness="h_basis.cpp", bounds="x", scenarios=
  [(Q, "c03_span", (p, pat)) for p, n in ((1, 6), (2, 4), (3, 3), (4, 2), (5, 2), (7, 1), (9, 1)) for pat in pats(p, n)] + [(Q, "c03_span", (p, pat)) for p, pat in ((1, 111111111), (2, 121212121), (3, 123321123), (8, 181818))] +
  [(Q, "c03_fp", (p, m), dict(flags=["--fp"])) for p in (1, 2, 3) for m in (0, 1, 2, 3)] + [(T, "c03_fp", (p, m), dict(flags=["--fp"])) for p in (1, 2, 5) for m in (4, 5)])
FP = dict(flags=["--fp"])
PROPS["C04"] = dict(harness="h_knots.cpp", bounds="x", scenarios=
  [(Q, "c04_ctor", (n,), FP) for n in range(0, 7)] + [(T, "c04_ctor", (n,), FP) for n in (7, 8)] + [(Q, "c04_pairs", a, FP) for a in ((0, 3), (1, 3), (2, 3), (3, 1))] + [(T, "c04_pairs", (3, 3), FP)] +
  [(Q, "c04_uniform", (5, 6)), (Q, "c04_uniform", (9, 20))] +
  [(Q, "c04_facts", a, FP) for a in ((0, 1, 0), (0, 2, 0), (0, 3, 0), (0, 4, 0), (0, 5, 0), (2, 1, 2), (2, 2, 2), (2, 3, 2), (3, 2, 2), (2, 2, 3), (3, 2, 3))] +
  [(Q, "c04_list", a, FP) for a in ((1, 2, 1), (2, 3, 2), (2, 4, 2), (3, 2, 3), (1, 4, 1))] +
  [(Q, "c04_mult", (p, pat)) for p, pat in ((1, 0), (1, 11), (2, 12), (2, 21), (3, 131), (2, 1111))] +
  [(Q, "c04_uni", (p, pat)) for p, pat in ((1, 0), (1, 1), (1, 11), (2, 12), (2, 211), (3, 31), (2, 1111))] +
  [(Q, "c04_many", a) for a in ((1, 5, 2, 0), (2, 12, 7, 1), (2, 12, 7, 2), (3, 30, 3, 3), (1, 60, 59, 1), (5, 20, 1, 5), (4, 100, 50, 2))] +
  [(Q, "c04_facts", a, FP) for a in ((5, 2, 5), (9, 1, 9), (9, 1, 8), (12, 2, 13), (1, 3, 1))] + [(Q, "c04_mult", (p, pat)) for p, n in ((1, 4), (2, 3), (3, 2), (5, 1)) for pat in pats(p, n)] + [(Q, "c04_uni", (p, pat)) for p, n in ((1, 4), (2, 2), (3, 1)) for pat in pats(p, n)])
PROPS["C05"] = dict(harness="h_knots.cpp", bounds="x", scenarios=
  [(Q, "c05_insert", (p, m, 3), FP) for p in (1, 2) for m in range(0, 4)] +
  [(Q, "c05_reverse", (p, pat)) for p, pat in ((1, 0), (1, 1), (2, 12), (2, 21), (3, 131), (2, 1111))] +
  [(Q, "c05_reverse_fp", a, FP) for a in ((1, 0, 1), (1, 1, 1), (1, 2, 0), (2, 3, 0))] + [(T, "c05_reverse_fp", (1, 2, 1), dict(flags=["--fp", "--vct=600000"]))] +
  [(Q, "c05_insert", (3, m, 2), FP) for m in (1, 2)] + [(Q, "c05_insert", (1, 4, 2), FP)] + [(Q, "c05_many", a) for a in ((1, 10, 1), (2, 33, 3), (3, 60, 2), (4, 100, 9), (2, 7, 0))] + [(Q, "c05_reverse", (p, pat)) for p, n in ((1, 5), (2, 3), (3, 2), (5, 1)) for pat in pats(p, n)])
PROPS["C22"] = dict(harness="h_misc.cpp", bounds="x", scenarios=
  [(Q, "c22_grid", (u, v)) for u in range(1, 5) for v in range(1, 5)] + [(Q, "c22_gridint", (2, 3)), (Q, "c22_gridint", (3, 2)), (Q, "c22_vec", (2, 3)), (Q, "c22_vec", (3, 2))] +
  [(Q, "c22_alias", a) for a in ((1, 1), (1, 3), (2, 2), (3, 1), (3, 2), (2, 3))] +
  [(Q, "c22_big", a) for a in ((9, 7), (1, 12), (12, 1), (5, 8), (8, 5), (16, 3), (3, 17), (7, 7), (20, 12))])
PROPS["C23"] = dict(harness="h_misc.cpp", bounds="x", scenarios=
  [(Q, "c23_segment", (p, n)) for p in range(1, 5) for n in range(p + 1, p + 5)] +
  [(Q, "c23_rect", a) for a in ((1, 2, 1, 2), (2, 3, 1, 2), (1, 2, 2, 3), (2, 3, 3, 4), (3, 4, 2, 3), (1, 3, 2, 5), (2, 4, 1, 4), (3, 5, 2, 4), (3, 4, 3, 4))] +
  [(Q, "c23_segment", (p, n)) for p, n in ((5, 6), (6, 9), (7, 8), (8, 9), (9, 10), (1, 10), (1, 16), (2, 12), (3, 20), (4, 17), (2, 40))] +
  [(Q, "c23_rect", a) for a in ((5, 6, 1, 2), (1, 2, 5, 6), (1, 9, 1, 7), (2, 12, 3, 5), (3, 5, 2, 12), (4, 5, 4, 5), (1, 20, 1, 17), (6, 8, 3, 4))])
PROPS["C28"] = dict(harness="h_misc.cpp", bounds="x", scenarios=
  [(Q, "c28_box", (c, m)) for c in range(3) for m in range(3)] + [(Q, "c28_contains", (m,)) for m in (0, 1)])
PROPS["C29"] = dict(harness="h_misc.cpp", bounds="x", scenarios=
  [(Q, "c29_ints", (a, b)) for a, b in ((0, 7), (8, 11), (12, 14), (15, 17), (18, 20), (21, 23), (24, 25), (26, 27), (28, 29))] + [(Q, "c29_approx", ()), (Q, "c29_homo", ()), (Q, "c29_approx_fp", (), FP)] + [(Q, "c29_approxv", (m,)) for m in range(1, 8)])
PROPS["C06"] = dict(harness="h_curve.cpp", bounds="x", scenarios=
  [(Q, "c06_eval", (p, pat, 0, 1, 0)) for p, n in ((1, 5), (2, 3), (3, 2), (4, 1), (5, 1), (6, 1)) for pat in pats(p, n)] +
  [(Q, "c06_eval", (p, pat, k, w, c)) for p, pat, k, w, c in ((1, 111111111, 2, 1, 0), (2, 121212121, 1, 1, 0), (3, 123321123, 2, 1, 0), (3, 111, 0, 1, 0), (4, 121, 1, 1, 0), (5, 15351, 2, 2, 0), (6, 162, 1, 2, 0), (8, 182, 2, 2, 0), (9, 19, 1, 2, 0), (10, 11, 2, 2, 1), (3, 1111, 0, 0, 0))] +
  [(Q, "c06_ends", (p, pat, 0)) for p, pat in ((1, 111), (2, 0), (2, 12), (3, 3), (3, 131), (4, 4), (5, 5), (4, 1444), (7, 7), (9, 91))])
PROPS["C07"] = dict(harness="h_curve.cpp", bounds="x", scenarios=
  [(Q, "c07_ders", a) for a in ((1, 0, 0, 1, 0, 3), (1, 1, 0, 1, 0, 3), (1, 11, 0, 1, 0, 2), (2, 0, 0, 1, 0, 3), (2, 1, 0, 1, 0, 2), (2, 2, 0, 1, 0, 3), (2, 11, 0, 1, 0, 1), (3, 0, 0, 1, 0, 2), (3, 1, 0, 1, 0, 1), (2, 1, 1, 2, 0, 4), (3, 1, 1, 2, 0, 4), (3, 12, 1, 2, 1, 5), (4, 1, 1, 2, 1, 6), (3, 1, 0, 0, 0, 4), (4, 1, 0, 0, 0, 5))] +
  [(Q, "c07_ders", (p, pat, 0, 0, 0, o)) for p, n, o in ((1, 3, 3), (2, 3, 3), (3, 2, 4), (5, 1, 6)) for pat in pats(p, n)] +
  [(Q, "c07_ders", (p, pat, 1, 2, 2, o)) for p, n, o in ((1, 3, 4), (2, 2, 5), (3, 2, 3), (4, 1, 3)) for pat in pats(p, n)] +
  [(Q, "c07_ders", a) for a in ((1, 1, 0, 1, 0, 1), (1, 1, 0, 1, 0, 0), (2, 12, 0, 1, 0, 1), (2, 21, 0, 1, 0, 0), (3, 3, 0, 1, 0, 1), (4, 0, 0, 1, 0, 1), (2, 111111111, 1, 2, 2, 2), (3, 123321123, 2, 2, 1, 3), (5, 15, 2, 2, 1, 4), (6, 16, 1, 2, 1, 2), (8, 1, 2, 0, 0, 3), (1, 1, 2, 2, 1, 9), (2, 0, 1, 2, 1, 8), (1, 0, 0, 0, 0, 14))])
PROPS["C21"] = dict(harness="h_curve.cpp", bounds="x", scenarios=
  [(Q, "c21_curve", (p, pat, 0, 1, 0)) for p, n in ((1, 2), (2, 1), (3, 0), (4, 0)) for pat in pats(p, n)] + [(Q, "c21_curve", a) for a in ((1, 111111111, 2, 2, 1), (2, 121212121, 1, 2, 1), (3, 123321123, 1, 2, 1), (3, 11, 1, 2, 2), (5, 15, 2, 2, 1), (8, 1, 2, 2, 1), (2, 11, 1, 1, 2))] + [(Q, "c21_rational", (n,)) for n in (1, 2, 3, 4, 5, 8)] + [(Q, "c21_rational_fp", (n,), FP) for n in (1, 2, 3, 4, 5, 6)])
PROPS["C08"] = dict(harness="h_ck.cpp", bounds="x", scenarios=
  [(Q, "c08_single", (p, pat, 0, 1, at, 0)) for p, n in ((1, 3), (2, 2), (3, 1), (4, 1), (5, 0)) for pat in pats(p, n) for at in range(len(str(pat)) + 1 if pat else 1) if at == 0 or int(str(pat)[at - 1]) < p] +
  [(Q, "c08_single", (p, pat, k, w, at, c)) for p, pat, k, w, at, c in ((3, 12, 0, 1, 1, 0), (3, 21, 0, 1, 1, 0), (3, 111, 0, 1, 2, 0), (1, 111111111, 2, 1, 0, 0), (2, 121212121, 1, 2, 0, 0), (3, 123321123, 2, 2, 0, 2), (3, 212312211, 1, 2, 4, 2), (5, 153, 2, 2, 3, 2), (6, 16, 1, 2, 0, 2), (8, 1, 2, 2, 1, 1), (9, 0, 2, 2, 0, 1))] +
  [(Q, "c08_times", (p, pat, 0, 1, t, at, 0)) for p, n in ((2, 1), (3, 1), (4, 0)) for pat in pats(p, n) for at in range(len(str(pat)) + 1 if pat else 1) for t in range(2, p + 1 - (int(str(pat)[at - 1]) if at else 0))] +
  [(Q, "c08_times", (p, pat, k, w, t, at, c)) for p, pat, k, w, t, at, c in ((3, 11, 0, 1, 2, 0, 0), (4, 1, 0, 1, 3, 1, 0), (3, 123321123, 2, 2, 3, 0, 2), (4, 1213, 1, 2, 3, 1, 2), (5, 15351, 2, 2, 4, 1, 2), (5, 0, 2, 2, 5, 0, 2), (6, 2, 1, 2, 4, 1, 2), (8, 1, 2, 2, 7, 1, 1))] +
  [(Q, "c08_list", (p, pat, 0, 1, n, 0)) for p, pat, n in ((1, 0, 2), (2, 0, 2), (2, 1, 2), (3, 0, 2), (2, 0, 3), (1, 0, 3), (1, 1, 3), (2, 2, 2), (3, 1, 2), (1, 11, 2))] +
  [(Q, "c08_list", (p, pat, k, w, n, c)) for p, pat, k, w, n, c in ((1, 1, 2, 2, 4, 2), (2, 11, 2, 2, 3, 2), (3, 12, 1, 2, 3, 2), (2, 0, 2, 2, 4, 1), (4, 1, 2, 2, 2, 2), (5, 11, 1, 2, 2, 1))] +
  [(Q, "c08_ways", (p, pat, k, w, t, at, c)) for p, pat, k, w, t, at, c in ((1, 1, 0, 1, 1, 0, 0), (2, 1, 0, 1, 2, 0, 0), (2, 1, 0, 1, 1, 1, 0), (3, 1, 0, 1, 2, 1, 0), (3, 0, 0, 1, 3, 0, 0), (3, 11, 0, 1, 2, 0, 0), (4, 12, 0, 1, 2, 2, 0), (4, 1, 0, 1, 4, 0, 0), (3, 111111111, 2, 2, 3, 0, 2), (3, 121212121, 1, 2, 2, 3, 2), (5, 15351, 1, 2, 4, 5, 2), (6, 2, 2, 2, 6, 0, 2), (8, 1, 2, 2, 7, 1, 2))] +
  [(T, "c08_list", (p, pat, 0, 1, n, 0)) for p, pat, n in ((1, 0, 4), (2, 1, 3), (2, 0, 4), (3, 0, 3))])
PROPS["C09"] = dict(harness="h_ck.cpp", bounds="x", scenarios=
  [(Q, "c09_removable", (p, pat, 0, w, s, t, at, 0)) for p, pat, w, s, t, at in ((1, 0, 1, 1, 1, 0), (1, 1, 1, 1, 1, 0), (2, 0, 1, 1, 1, 0), (2, 1, 1, 1, 1, 0), (2, 1, 1, 1, 1, 1), (2, 0, 1, 2, 2, 0), (2, 0, 1, 2, 1, 0), (3, 0, 1, 1, 1, 0), (3, 1, 1, 2, 2, 0), (3, 0, 1, 2, 3, 0), (3, 0, 1, 3, 3, 0), (3, 0, 1, 3, 2, 0), (3, 1, 1, 2, 2, 1), (3, 1, 1, 1, 1, 1), (4, 0, 1, 2, 2, 0), (4, 1, 1, 3, 2, 1))] +
  [(Q, "c09_removable", (p, pat, k, w, s, t, at, c)) for p, pat, k, w, s, t, at, c in [(p, pat, 1, 2, s, t, at, 2) for p, n in ((1, 2), (2, 2), (3, 1), (4, 1)) for pat in pats(p, n) for at in range(len(str(pat)) + 1 if pat else 1) for s in range(1, p + 1 - (int(str(pat)[at - 1]) if at else 0)) for t in range(1, s + (1 if at else 2)) if (p, pat, s) != (4, 4, 1)] + [(3, 121212121, 2, 2, 2, 2, 0, 1), (3, 111111111, 1, 2, 1, 1, 3, 1), (5, 15, 1, 2, 3, 2, 1, 1), (5, 15, 2, 2, 4, 4, 1, 1), (6, 1, 2, 2, 3, 3, 0, 1)]] +
  [(Q, "c09_any", (p, pat, 1, w, at, t, 1)) for p, pat, w, at, t in ((1, 1, 0, 1, 1), (1, 11, 0, 1, 1), (1, 11, 0, 2, 2), (2, 1, 2, 1, 1))] +
  [(T, "c09_any", (p, pat, 1, w, at, t, 1)) for p, pat, w, at, t in ((2, 1, 0, 1, 1), (2, 2, 0, 1, 2), (2, 2, 0, 1, 1), (3, 1, 0, 1, 1), (3, 2, 0, 1, 2), (2, 1, 0, 1, 2))] + [(T, "c09_removable", (4, 4, 1, 2, 1, t, 0, 2)) for t in (1, 2)] + [(T, "c09_removable", (p, pat, 1, 2, s, s + 1, 1, 2)) for p, pat, s in ((2, 1, 1), (3, 1, 1), (4, 1, 1), (4, 1, 2), (4, 2, 2))] +
  [(Q, "c09_partial", a) for a in ((2, 1, 2, 1, 2, 1), (3, 1, 2, 1, 2, 1), (3, 1, 2, 1, 3, 1), (3, 2, 2, 1, 2, 1), (3, 2, 2, 1, 3, 1), (3, 1, 2, 2, 3, 1), (3, 12, 2, 1, 3, 2), (4, 2, 2, 2, 3, 1), (4, 2, 2, 2, 4, 1), (2, 1, 2, 0, 1, 1), (3, 2, 2, 0, 2, 1))] +
  [(Q, "c09_partial", (p, m, w, s, t, 1)) for w in (0, 2) for p in (2, 3, 4, 5) for m in range(1, p + 1) for s in range(0, p + 1 - m) for t in range(max(1, s), s + m + 2)] +
  [(Q, "c09_tol", (m,)) for m in (0, 1, 2)] +
  [(Q, "c09_not", (p, pat, 0, 2, t)) for p, pat, t in ((1, 0, 1), (2, 0, 1), (2, 1, 2), (3, 1, 1), (2, 12, 1), (3, 11, 3), (5, 1, 2), (1, 1111, 1))])
PROPS["C10"] = dict(harness="h_ck.cpp", bounds="x", scenarios=
  [(Q, "c10_elevate", a) for a in [(p, pat, 0, 1, 0, t) for p, pat, t in ((1, 0, 1), (1, 1, 1), (1, 11, 1), (2, 0, 1), (2, 1, 1), (2, 2, 1), (3, 0, 1), (3, 1, 1), (1, 0, 3), (1, 1, 2), (2, 0, 2), (2, 1, 2), (2, 11, 1), (2, 11, 2), (1, 111, 2), (3, 2, 2), (2, 12, 3), (4, 0, 1), (3, 111, 1), (3, 11, 1), (3, 11, 2), (4, 1, 1), (4, 1, 2), (5, 0, 1))] + [(4, 11, 1, 1, 2, 1), (4, 12, 1, 2, 0, 2), (4, 111, 1, 2, 0, 1), (5, 1, 1, 2, 0, 1), (5, 12, 1, 2, 0, 1), (5, 1, 1, 2, 0, 3), (6, 1, 1, 2, 0, 1)]] +
  [(Q, "c10_elevate", (p, pat, 0, 1, 0, t)) for p, n, ts in ((1, 2, (1, 2, 3, 4)), (2, 2, (1, 2)), (3, 1, (1, 2, 3)), (2, 0, (4, 5)), (4, 0, (2,))) for pat in pats(p, n) for t in ts] +
  [(Q, "c10_elevate", (p, pat, k, 2, 2, t)) for p, pat, k, t in [(2, pat, 1, 1) for pat in pats(2, 3, 3)] + [(3, pat, 2, 1) for pat in pats(3, 2, 2)] + [(3, pat, 1, 2) for pat in pats(3, 2, 2)] + [(4, pat, 1, 1) for pat in pats(4, 2, 1)] + [(1, 111111111, 1, 2), (2, 121212121, 2, 1), (3, 123321123, 1, 1), (3, 111111, 2, 3), (5, 15351, 2, 1), (6, 0, 1, 4), (7, 1, 2, 2), (8, 0, 1, 1), (9, 1, 1, 1)]])
PROPS["C11"] = dict(harness="h_ck.cpp", bounds="x", scenarios=
  [(Q, "c11_bezier", (p, pat, 0, 1, 0)) for p, n in ((1, 4), (2, 2), (3, 1), (4, 0)) for pat in pats(p, n)] + [(Q, "c11_bezier", (3, pat, 0, 1, 0)) for pat in (11, 13, 31, 23)] +
  [(Q, "c11_bezier", (p, pat, k, 2, c)) for p, pat, k, c in [(2, pat, 1, 2) for pat in pats(2, 3, 3)] + [(3, pat, 2, 2) for pat in pats(3, 2, 2)] + [(4, pat, 1, 2) for pat in pats(4, 1, 1)] + [(2, 121212121, 2, 1), (3, 123321123, 1, 1), (3, 111111, 2, 2), (5, 153, 2, 1), (6, 1, 1, 1), (7, 2, 1, 1)]])
PROPS["C30"] = dict(harness="h_ck.cpp", bounds="x", scenarios=
  [(Q, "c30_chain", (p, pat, k, w, c, o)) for p, pat, k, w, c, o in ((2, 0, 0, 1, 0, 14), (2, 0, 0, 1, 0, 13), (2, 1, 0, 1, 0, 31), (2, 0, 1, 2, 0, 314), (2, 1, 1, 2, 0, 1314), (3, 1, 1, 2, 0, 244), (3, 0, 1, 2, 0, 2413), (2, 1, 1, 2, 0, 35), (3, 1, 1, 2, 0, 54))] +
  [(Q, "c30_chain", (p, pat, 1, 2, 2, o)) for p, pat, o in ((1, 1, 3131), (2, 1, 11134), (2, 2, 3214), (3, 12, 1113), (2, 11, 5313), (3, 1, 2143), (3, 1, 2134), (3, 2, 534), (1, 11, 333), (4, 1, 1324), (3, 0, 1121))])

S = "h_surf.cpp"
SHAPES = [(p, pu, q, pv) for p in (1, 2, 3) for q in (1, 2, 3) for pu in (0, 1, p) for pv in (0, 1, q)]
SHAPES = sorted(set(SHAPES))
BIG = [(1, 1111, 1, 111), (1, 11111111, 2, 1), (2, 1, 1, 11111111), (2, 1212, 3, 11), (3, 11, 2, 2121), (3, 123, 1, 11), (1, 11, 4, 4), (4, 13, 2, 1), (5, 1, 2, 0), (2, 0, 5, 2), (4, 0, 4, 0), (6, 0, 1, 0), (1, 0, 6, 1)]
PROPS["C14"] = dict(harness=S, bounds="x", scenarios=
  [(Q, "c14_eval", a) for a in ((1, 0, 0, 1, 0, 0, 1, 0), (1, 1, 0, 2, 0, 0, 1, 0), (2, 0, 0, 1, 1, 0, 1, 0), (2, 1, 0, 2, 0, 0, 1, 0), (2, 0, 0, 2, 1, 0, 1, 0), (2, 2, 0, 1, 11, 0, 1, 0), (3, 0, 0, 2, 0, 0, 1, 0), (1, 11, 0, 3, 1, 0, 1, 0), (3, 1, 0, 2, 2, 0, 1, 0), (3, 1, 0, 3, 1, 0, 2, 0), (2, 11, 0, 3, 12, 0, 2, 0))] +
  [(Q, "c14_corners", a) for a in ((1, 0, 1, 0), (1, 1, 2, 0), (2, 0, 1, 11), (2, 1, 3, 2), (3, 1, 2, 2))] +
  [(Q, "c14_eval", (p, pu, 2, q, pv, 1, 2, 0)) for p, pu, q, pv in SHAPES] + [(Q, "c14_eval", (p, pu, 1, q, pv, 2, 2, 2)) for p, pu, q, pv in BIG] + [(Q, "c14_eval", (8, 0, 2, 3, 1, 1, 2, 1)), (Q, "c14_eval", (3, 1, 2, 8, 0, 1, 2, 1))] +
  [(Q, "c14_eval", (p, pu, 0, q, pv, 0, 1, 0)) for p, pu, q, pv in SHAPES if p + q <= 3 or (p + q == 4 and pu == pv == 0)])
PROPS["C15"] = dict(harness=S, bounds="x", scenarios=
  [(Q, "c15_ders", a) for a in ((1, 0, 0, 1, 0, 0, 1, 0, 1, 1), (1, 0, 0, 1, 0, 0, 1, 0, 2, 2), (2, 0, 0, 1, 0, 0, 1, 0, 2, 1), (1, 0, 0, 2, 0, 0, 1, 0, 1, 2), (2, 1, 0, 1, 0, 0, 2, 0, 2, 1), (1, 1, 0, 2, 1, 1, 2, 0, 2, 2), (2, 1, 1, 2, 0, 1, 2, 0, 3, 2), (2, 0, 1, 3, 1, 1, 2, 1, 2, 4), (3, 1, 1, 2, 1, 1, 2, 1, 3, 1), (3, 0, 0, 2, 0, 0, 0, 0, 3, 3), (2, 1, 0, 3, 0, 0, 0, 0, 1, 4), (1, 0, 0, 1, 0, 0, 2, 0, 0, 4), (1, 0, 0, 1, 0, 0, 2, 0, 4, 0))] +
  [(Q, "c15_ders", (p, pu, 2, q, pv, 1, 2, 1, 1, 1)) for p, pu, q, pv in SHAPES] + [(Q, "c15_ders", (p, pu, 1, q, pv, 2, 0, 2, 2, 2)) for p, pu, q, pv in SHAPES if p + q <= 5] + [(Q, "c15_ders", (p, pu, 1, q, pv, 2, 2, 1, 1, 1)) for p, pu, q, pv in BIG] +
  [(Q, "c15_ders", a) for a in ((1, 1, 1, 1, 1, 1, 2, 2, 0, 0), (1, 1, 1, 1, 1, 1, 2, 1, 0, 1), (1, 1, 1, 1, 1, 1, 2, 1, 1, 0), (2, 1, 1, 3, 1, 1, 2, 1, 0, 3), (3, 1, 1, 2, 1, 1, 2, 1, 4, 0), (1, 0, 1, 1, 0, 1, 2, 1, 5, 1), (1, 0, 1, 1, 0, 1, 2, 1, 1, 5), (2, 0, 1, 2, 0, 1, 2, 1, 4, 4), (1, 0, 1, 1, 0, 1, 2, 1, 3, 3), (4, 0, 1, 1, 0, 1, 0, 2, 5, 2), (1, 0, 1, 4, 0, 1, 0, 2, 2, 5), (3, 0, 1, 3, 0, 1, 0, 1, 4, 4))])
PROPS["C16"] = dict(harness=S, bounds="x", scenarios=
  [(Q, "c16_insert", (d,) + a) for d in (0, 1) for a in ((1, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0), (2, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0), (1, 0, 0, 2, 0, 0, 1, 0, 0, 1, 0), (2, 1, 0, 1, 1, 0, 1, 0, 0, 1, 0), (1, 1, 0, 2, 1, 0, 2, 0, 0, 1, 0), (2, 1, 0, 2, 1, 0, 2, 2, 0, 1, 1), (3, 1, 1, 3, 1, 1, 2, 2, 0, 1, 0), (2, 0, 0, 2, 0, 0, 2, 2, 1, 2, 0), (3, 1, 1, 3, 1, 1, 2, 2, 1, 2, 1), (2, 0, 1, 2, 0, 1, 2, 2, 2, 2, 0), (3, 0, 1, 2, 1, 1, 2, 2, 1, 2, 0), (2, 1, 1, 3, 0, 1, 2, 2, 1, 2, 0), (2, 0, 1, 2, 0, 1, 2, 2, 1, 0, 0))] +
  [(Q, "c16_insert", (d, p, pu, 2, q, pv, 1, 2, 2, 0, 1, 0)) for d in (0, 1) for p, pu, q, pv in SHAPES] +
  [(Q, "c16_insert", (d, p, pu, 2, q, pv, 1, 2, 1, 1, n, at)) for d in (0, 1) for p, pu, q, pv in SHAPES for at in (0, 1) for n in (((p if d == 0 else q) - ((pu if d == 0 else pv) if at else 0)),) if n > 0 and (not at or (pu if d == 0 else pv))] +
  [(Q, "c16_insert", (d, p, pu, 1, q, pv, 2, 2, 1, 0, 1, 0)) for d in (0, 1) for p, pu, q, pv in BIG] +
  [(Q, "c16_insert", (d, p, pu, 2, q, pv, 1, 2, 1, 2, n, 0)) for d in (0, 1) for p, pu, q, pv, n in ((1, 0, 1, 0, 3), (2, 1, 2, 1, 2), (2, 0, 3, 1, 2), (3, 1, 2, 0, 2), (1, 1, 2, 1, 3), (2, 1, 1, 1, 3))])
PROPS["C17"] = dict(harness=S, bounds="x", scenarios=
  [(Q, "c17_removable", (d,) + a) for d in (0, 1) for a in ((1, 0, 0, 1, 0, 0, 1, 2, 1, 1, 0), (2, 0, 0, 1, 0, 0, 1, 2, 1, 1, 0), (1, 0, 0, 2, 0, 0, 1, 2, 1, 1, 0), (2, 1, 1, 2, 1, 1, 2, 0, 1, 1, 1), (2, 0, 1, 2, 0, 1, 2, 0, 2, 2, 0), (2, 0, 1, 2, 0, 1, 2, 0, 2, 1, 0), (3, 1, 1, 3, 0, 1, 2, 2, 2, 2, 0), (3, 0, 1, 3, 1, 1, 2, 2, 2, 2, 0), (2, 0, 1, 2, 0, 1, 2, 2, 1, 2, 0), (3, 0, 1, 3, 0, 1, 2, 2, 1, 3, 0), (3, 0, 1, 3, 0, 1, 2, 2, 2, 3, 0), (2, 1, 1, 1, 11, 1, 2, 2, 0, 1, 1))] + [(T, "c17_removable", (d, 3, 1, 1, 3, 1, 1, 2, 2, 1, 2, 1)) for d in (0, 1)] +
  [(Q, "c17_any", (d,) + a) for d in (0, 1) for a in ((1, 0, 1, 0, 0, 0, 1, 1, 0), (1, 0, 1, 0, 0, 0, 1, 1, 1), (2, 0, 2, 0, 0, 0, 1, 1, 1), (2, 0, 2, 0, 0, 0, 2, 2, 2), (1, 1, 1, 1, 0, 0, 1, 1, 2))] +
  [(Q, "c17_mixed", (d,) + a) for d in (0, 1) for a in ((2, 1, 2, 23, 2), (2, 1, 2, 32, 2), (2, 1, 2, 13, 2), (2, 1, 2, 31, 1), (3, 1, 2, 23, 2), (3, 1, 3, 24, 3), (3, 2, 3, 243, 3), (3, 1, 3, 342, 2), (3, 1, 2, 332, 2), (4, 1, 3, 43, 3))] +
  [(Q, "c17_absent", (d,) + a) for d in (0, 1) for a in ((1, 1, 2, 0, 1), (2, 0, 1, 1, 2), (2, 1, 2, 1, 3))] +
  [(Q, "c17_removable", (d, p, pu, 1, q, pv, 2, 2, 1, s, s, at)) for d in (0, 1) for p, pu, q, pv in SHAPES for at in (0, 1) for s in (((p if d == 0 else q) - ((pu if d == 0 else pv) if at else 0)),) if s > 0 and (not at or (pu if d == 0 else pv))] +
  [(Q, "c17_removable", (d, p, pu, 1, q, pv, 2, 2, 1, 1, 1, 0)) for d in (0, 1) for p, pu, q, pv in ((1, 1111, 1, 111), (2, 121, 1, 1), (1, 1, 2, 112), (3, 12, 1, 1), (1, 11, 3, 2), (4, 1, 1, 0), (1, 0, 4, 1))])
PROPS["C18"] = dict(harness=S, bounds="x", scenarios=
  [(Q, "c18_elevate", (d,) + a) for d in (0, 1) for a in ((1, 0, 0, 1, 0, 0, 1, 0, 1), (2, 0, 0, 1, 0, 0, 1, 2, 1), (1, 0, 0, 2, 0, 0, 1, 2, 1), (1, 1, 0, 1, 1, 0, 2, 0, 1), (2, 1, 1, 1, 0, 1, 2, 0, 1), (1, 0, 1, 2, 1, 1, 2, 0, 1), (1, 11, 1, 1, 11, 1, 2, 2, 2), (2, 0, 1, 2, 0, 1, 2, 2, 2), (3, 1, 1, 2, 1, 1, 2, 2, 1), (2, 12, 1, 2, 12, 1, 2, 2, 1))] +
  [(Q, "c18_elevate", (d, p, pu, 2, q, pv, 1, 2, 1, t)) for d in (0, 1) for p, pu, q, pv in SHAPES for t in (1, 2)] + [(Q, "c18_elevate", (d, p, pu, 1, q, pv, 2, 2, 1, 1)) for d in (0, 1) for p, pu, q, pv in BIG] +
  [(Q, "c18_elevate", (d, 1, 1, 2, 1, 1, 2, 2, 2, t)) for d in (0, 1) for t in (3, 4, 5)])
PROPS["C20"] = dict(harness=S, bounds="x", scenarios=
  [(Q, "c20_planar", (p, pu, q, pv, au, su, av, sv, ua, va, w)) for p, pu, q, pv, w in ((1, 0, 2, 0, 2), (2, 1, 1, 0, 2)) for au in range(3) for av in range(3) if au != av for su in (1, -1) for sv in (1, -1) for ua, va in ((au, av), (av, au))] +
  [(Q, "c20_any", (nu, nv, dim, ua, va, p, q)) for nu, nv, p, q in ((2, 2, 1, 1), (2, 3, 1, 2), (3, 2, 1, 1)) for dim in (1, 1 | 16, 2 | 8 | 32) for ua in range(3) for va in range(3)])
PROPS["C21"]["harness"] += " " + S
PROPS["C21"]["scenarios"] += (
  [(Q, "c21_surf", a + (0,)) for a in ((1, 0, 0, 1, 0, 0, 1), (2, 0, 0, 1, 1, 0, 1), (1, 1, 0, 2, 0, 0, 1), (2, 1, 1, 2, 0, 1, 2))] + [(Q, "c21_surf", (p, pu, 1, q, pv, 2, 2, 1)) for p, pu, q, pv in BIG + SHAPES] + [(Q, "c21_srational", a, FP) for a in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (5, 1), (1, 5), (2, 3), (3, 2))])
PROPS["C30"]["harness"] += " " + S
PROPS["C30"]["scenarios"] += (
  [(Q, "c30_schain", a) for a in ((1, 0, 1, 0, 2, 0, 12), (1, 0, 1, 0, 2, 0, 15), (1, 0, 1, 0, 2, 0, 26), (1, 0, 2, 0, 2, 2, 1256), (2, 0, 1, 1, 2, 2, 34), (2, 1, 1, 0, 2, 2, 135), (1, 0, 2, 1, 2, 2, 246), (2, 1, 2, 1, 2, 2, 1324))])
NOT_APPLICABLE = {}
IO = "h_io.cpp"
PROPS["C24"] = dict(harness=IO, bounds="x", scenarios=
  [(Q, "c24_curve", a, FP) for a in ((0, 0, 0, 0, 0), (1, 0, 0, 0, 0), (0, 1, 2, 2, 0), (4, 2, 0, 0, 0), (4, 2, 6, 4, 0), (3, 4, 1, 1, 0), (5, 3, 2, 7, 1), (4, 2, 0, 0, 2), (4, 2, 3, 1, 3), (8, 5, 12, 8, 0), (12, 8, 3, 2, 1))] +
  [(Q, "c24_surf", a, FP) for a in ((0, 0, 1, 1, 0, 0, 0, 0), (4, 4, 2, 2, 0, 0, 0, 0), (4, 5, 2, 3, 0, 0, 0, 0), (5, 3, 3, 2, 4, 3, 3, 0), (2, 6, 1, 4, 2, 2, 2, 1), (6, 2, 4, 1, 9, 5, 2, 1), (4, 4, 2, 2, 3, 2, 1, 2), (3, 3, 1, 2, 2, 1, 1, 3), (6, 7, 4, 3, 2, 2, 2, 0))] +
  [(Q, "c24_many", a, FP) for a in ((2, 1, 1, 2), (4, 2, 2, 2), (3, 5, 3, 1))] +
  [(Q, "c24_curve", a, FP) for a in ((40, 30, 0, 0, 0), (70, 64, 3, 2, 0), (130, 20, 0, 0, 1), (20, 130, 140, 135, 0), (257, 3, 0, 0, 0))] +
  [(Q, "c24_surf", a, FP) for a in ((12, 9, 9, 7, 0, 0, 0, 0), (9, 20, 3, 17, 30, 2, 2, 0), (20, 9, 17, 3, 2, 9, 9, 1), (40, 4, 1, 12, 0, 0, 0, 0), (4, 40, 12, 1, 0, 0, 0, 0))])
PROPS["C25"] = dict(harness=IO, bounds="x", scenarios=
  [(Q, "c25_curve", a) for a in ((1, 1, 2, 0), (2, 1, 2, 0), (3, 2, 2, 0), (4, 2, 2, 0), (6, 4, 2, 0), (12, 8, 2, 0), (4, 2, 2, 1), (4, 2, 2, 3), (2, 3, 2, 2), (2, 1, 3, 0), (0, 0, 3, 0), (0, 1, 3, 0), (2, 0, 3, 0))] + [(T, "c25_curve", (1, 1, 1, 0)), (T, "c25_curve", (3, 1, 1, 0))] +
  [(Q, "c25_surf", a) for a in ((1, 1, 1, 1, 2, 0), (2, 3, 1, 2, 2, 0), (3, 2, 2, 1, 2, 0), (4, 4, 2, 2, 2, 0), (4, 5, 3, 2, 2, 0), (4, 5, 2, 3, 2, 0), (6, 7, 4, 3, 2, 0), (2, 3, 1, 3, 2, 1), (4, 2, 2, 1, 2, 3), (2, 2, 1, 2, 3, 0))] + [(T, "c25_surf", (1, 1, 1, 1, 1, 0))] +
  [(Q, "c25_state", (k,)) for k in range(3)] +
  [(Q, "c25_curve", a) for a in ((30, 20, 4, 0), (70, 5, 4, 0), (3, 40, 4, 1), (130, 70, 4, 0), (9, 7, 2, 0))] + [(Q, "c25_surf", a) for a in ((12, 9, 9, 7, 4, 0), (8, 20, 3, 17, 4, 0), (20, 8, 17, 3, 4, 1), (5, 6, 1, 9, 4, 0), (5, 6, 9, 1, 4, 0), (20, 17, 16, 13, 4, 0))])
PROPS["C26"] = dict(harness=IO, bounds="x", scenarios=
  [(Q, "c26_header", (s, b, p)) for s in (0, 1) for b in (0, 1) for p in range(0, 20)] + [(Q, "c26_type", (k,), FP) for k in range(4)] + [(Q, "c26_type", (k,), FP) for k in range(4, 12)] +
  [(Q, "c26_cut_curve", a, FP) for a in ((0, 0), (1, 1), (4, 2), (6, 4))] + [(Q, "c26_cut_surf", a, FP) for a in ((0, 0, 1, 1), (1, 2, 1, 1), (4, 4, 2, 2), (3, 2, 2, 1))] +
  [(Q, "c26_counts_curve", a, FP) for a in ((0, 0, 0), (0, 2, 1), (1, 2, 0), (1, 1, 2))] + [(Q, "c26_counts_surf", a, FP) for a in ((0, 1, 1, 1), (1, 1, 1, 1), (2, 1, 1, 1), (2, 0, 2, 1), (3, 0, 1, 1), (3, 0, 1, 2))] +
  [(Q, "c26_text_curve", (d,)) for d in list(range(11)) + [20]] + [(Q, "c26_text_surf", (d,)) for d in list(range(16)) + [20]] +
  [(Q, "c26_char", (s, k, k + 3)) for s in (0, 1) for k in range(0, 116, 4)])
PROPS["C27"] = dict(harness=IO, bounds="x", scenarios=
  [(Q, "c27_curve", (b,) + a) for b in (0, 1) for a in ((2, 1, 0, 0, 0), (3, 2, 5, 4, 0), (4, 2, 4, 2, 0), (4, 3, 1, 1, 0), (2, 2, 3, 3, 1), (6, 4, 2, 1, 2))] +
  [(Q, "c27_surf", (b,) + a) for b in (0, 1) for a in ((2, 2, 1, 1, 0, 0, 0, 0), (2, 3, 1, 2, 4, 3, 3, 0), (3, 2, 2, 2, 2, 1, 1, 0), (4, 4, 2, 2, 4, 2, 2, 0), (2, 2, 3, 1, 3, 1, 3, 1), (3, 3, 2, 1, 5, 4, 1, 2))] +
  [(Q, "c27_partial", (0, w)) for w in range(8)] + [(Q, "c27_partial", (1, w)) for w in range(16)] +
  [(Q, "c27_curve", (b,) + a) for b in (0, 1) for a in ((20, 16, 30, 25, 0), (3, 2, 40, 33, 0), (40, 33, 3, 2, 0), (5, 3, 0, 6, 0), (5, 3, 6, 0, 0))] + [(Q, "c27_surf", (b,) + a) for b in (0, 1) for a in ((9, 8, 6, 5, 20, 9, 7, 0), (4, 3, 2, 1, 3, 1, 12, 0), (4, 3, 1, 12, 3, 12, 1, 0), (12, 11, 9, 8, 2, 1, 1, 1))])
PROPS["C31"] = dict(harness=IO, bounds="x", scenarios=
  [(Q, "c31_curve", (b,) + a) for b in (0, 1) for a in ((0, 0), (1, 1), (4, 2), (6, 4))] + [(Q, "c31_surf", (b,) + a) for b in (0, 1) for a in ((1, 1, 1, 1), (4, 4, 2, 2), (4, 5, 2, 3), (3, 2, 3, 1))] +
  [(Q, "c31_named", (b, s, w)) for b in (0, 1) for s in (0, 1) for w in range(4)] +
  [(Q, "c31_curve", (b,) + a) for b in (0, 1) for a in ((12, 9), (20, 3), (3, 17))] + [(Q, "c31_surf", (b,) + a) for b in (0, 1) for a in ((8, 9, 5, 4), (3, 3, 1, 9), (3, 3, 9, 1))])


NL = dict(flags=["--nolazymax"])
PROPS["C12"] = dict(harness="h_box.cpp", bounds="x", scenarios=
  [(Q, "c12_line", a) for a in ((0, 0, 1), (1, 0, 1), (11, 0, 1), (111, 0, 1))] +
  [(Q, "c12_box", a, NL) for a in ((2, 0, 0, 0, 4, -1, 2, 8, 8), (2, 0, 0, 0, 5, -1, 4, 8, 8), (2, 0, 0, 1, 6, -1, 8, 8, 8), (2, 0, 2, 0, 7, -1, 4, 32, 8), (3, 0, 0, 0, 4, -1, 4, 8, 8), (2, 1, 0, 0, 9, -1, 4, 8, 8), (2, 0, 2, 1, 4, -1, 4, 32, 8))] + [(T, "c12_box", (4, 0, 0, 0, 8, -1, 8, 16, 8), NL)] +
  [(Q, "c12_box", (p, pat, w, seed, -1, -1, e, 64, 50), NL) for p, pat, seed, e in ((2, 0, 1, 1024), (2, 1, 2, 1024), (2, 11, 3, 256), (2, 2, 4, 256), (3, 0, 5, 1024), (3, 1, 6, 256), (3, 2, 7, 256), (3, 12, 8, 64), (4, 0, 9, 256), (4, 1, 10, 64), (5, 0, 1, 64)) for w in (0, 2)] +
  [(T, "c12_box", a, dict(flags=["--nolazymax"], time=1500)) for a in ((2, 0, 0, 0, 4, 8, 4, 8, 8), (2, 0, 2, 2, 5, -1, 8, 32, 8), (3, 0, 2, 1, 7, -1, 8, 32, 8), (2, 11, 2, 1, 11, -1, 8, 32, 8), (2, 0, 0, 2, 7, -1, 16, 32, 8), (2, 0, 0, 0, 7, -1, 64, 32, 8), (3, 0, 0, 0, 5, -1, 32, 16, 8), (3, 1, 0, 3, 10, -1, 8, 16, 8))])

PROPS["C13"] = dict(harness="h_search.cpp", bounds="x", scenarios=
  [(Q, "c13_line", (p, d, e, it), NL) for p, d, e, it in ((1, 0, 1024, 8), (1, 1, 1024, 8), (2, 3, 1024, 8), (1, 2, 1024, 8), (3, 4, 1024, 8), (2, 5, 1 << 16, 8), (1, 6, 1 << 12, 8), (4, 1, 1 << 20, 8))] +
  [(Q, "c13_line_any", a, NL) for a in ((1, 0, 6, 0), (2, 1, 6, 0), (3, 2, 6, 0), (1, 0, 3, 1), (2, 1, 4, 1))] +
  [(Q, "c13_bisect", (p, d, e, it), NL) for p, d, e, it in ((1, 0, 1024, 4), (2, 3, 64, 6), (1, 2, 8, 8), (3, 4, 256, 6), (1, 5, 16, 12))] +
  [(Q, "c13_range_fixed", a, NL) for a in ((1, 1, 0, 0, 2, 0), (1, 1, 0, 0, 2, 1), (2, 0, 0, 1, 1, 0), (2, 0, 0, 1, 2, 0), (2, 0, 0, 1, 1, 1), (2, 0, 2, 1, 1, 0), (3, 0, 0, 2, 1, 0), (1, 1, 0, 2, 4, 0), (2, 0, 0, 3, 2, 1), (2, 1, 2, 0, 4, 2), (3, 1, 0, 1, 4, 2))] +
  [(T, "c13_range_fixed", a, NL) for a in ((2, 0, 0, 1, 3, 0), (2, 0, 0, 3, 3, 0), (3, 0, 0, 2, 2, 0), (2, 1, 0, 4, 3, 0), (1, 11, 0, 3, 3, 1))] +
  [(Q, "c13_start", a, NL) for a in ((1, 0, 1, 3), (1, 11, 2, 3), (2, 1, 0, 3), (2, 1, 1, 3), (3, 0, 1, 3), (3, 12, 2, 5), (4, 1, 2, 2))] +
  [(Q, "c13_range", (p, pat, w, it, k), NL) for p, pat, w, it, k in ((1, 0, 0, 0, 0), (2, 1, 0, 0, 1), (1, 0, 0, 1, 0), (1, 0, 0, 3, 1), (2, 0, 0, 2, 1))] + [(T, "c13_range", (p, pat, w, it, k), NL) for p, pat, w, it, k in ((1, 0, 0, 2, 0), (2, 0, 0, 1, 0), (1, 1, 0, 1, 0))])
C19_DEEP = {((1, 0, 1, 0, 0, 2, 2), 4, 0), ((1, 1, 2, 0, 0, 3, 1), 1, 1), ((2, 0, 1, 1, 2, 4, 1), 0, 1), ((2, 0, 1, 1, 2, 4, 1), 1, 1), ((1, 1, 2, 0, 0, 3, 1), 0, 1), ((1, 0, 1, 0, 0, 1, 1), 4, 1), ((1, 0, 1, 0, 0, 2, 2), 4, 1), ((1, 1, 2, 0, 0, 3, 1), 4, 1), ((2, 0, 1, 1, 2, 4, 1), 4, 1), ((1, 0, 1, 0, 0, 2, 2), 0, 1)}
PROPS["C19"] = dict(harness="h_search.cpp", bounds="x", scenarios=
  [(Q, "c19_line", (p, q, d, e, it, k, l), NL) for d in (0, 1) for p, q, e, it, k, l in ((1, 1, 1024, 8, 0, 0), (1, 2, 1024, 8, 0, 1), (2, 1, 4096, 8, 0, 2), (2, 3, 1 << 16, 8, 0, 3), (1, 1, 64, 4, 1, 0), (2, 1, 256, 6, 1, 2), (1, 1, 1024, 0, 1, 0), (1, 2, 16, 10, 1, 4))] +
  [(Q, "c19_line_any", (p, q, d, it, k), NL) for d in (0, 1) for p, q, it, k in ((1, 1, 6, 0), (1, 2, 6, 0), (2, 1, 6, 0), (1, 1, 3, 1), (2, 2, 3, 1))] +
  [(Q, "c19_ruled", (d, e, it, k), NL) for d in (0, 1) for e, it, k in ((1024, 6, 0), (64, 5, 1))] +
  [(T if (a, w, s) in C19_DEEP else Q, "c19_range", a + (w, s), NL) for w in range(5) for s in (0, 1) for a in ((1, 0, 1, 0, 0, 0, 0), (1, 0, 1, 0, 0, 1, 1), (1, 0, 1, 0, 0, 2, 2), (1, 1, 2, 0, 0, 3, 1), (2, 0, 1, 1, 2, 4, 1))] +
  [(Q, "c19_start", a, NL) for w in (0, 1, 2) for a in ((1, 0, 1, 0, 1, 3, w), (1, 1, 2, 0, 0, 3, w), (2, 1, 2, 0, 2, 3, w), (1, 0, 2, 1, 1, 3, w), (3, 1, 1, 11, 2, 2, w))] +
  [(Q, "c19_free", (l, it, ax, s), NL) for l, it, ax, s in ((0, 1, 0, 12), (2, 1, 2, 3), (3, 1, 0, 13), (0, 2, 0, 13), (1, 2, 1, 14), (2, 2, 0, 7))] +
  [(T, "c19_free", a, NL) for a in ((1, 1, 1, 12), (1, 3, 0, 13))])
# ---- histories: objects that held and used other contents before, and several calls in a row
def more(p, l): PROPS[p]["scenarios"] += [(Q,) + x for x in l]
more("C01", [("c01_twice", (p, pat, k, h)) for p, pat, k in ((1, 1, 0), (2, 11, 1), (3, 12, 1), (3, 1, 2), (4, 1, 1)) for h in (0, 1, 2)])
more("C02", [("c02_twice", (p, pat, k, h, o)) for p, pat, k, o in ((1, 1, 0, 2), (2, 11, 1, 2), (3, 12, 1, 3), (3, 1, 2, 4), (4, 1, 1, 2)) for h in (0, 1, 2)])
more("C03", [("c03_twice", (p, pat, k, h)) for p, pat, k in ((1, 11, 1), (2, 12, 1), (3, 121, 1), (2, 1, 0)) for h in (0, 1, 2)] + [("c03_twice", (p, pat, 1, 3)) for p, pat in ((1, 1), (2, 12), (3, 31))])
more("C06", [("c06_twice", (p, pat, k, 2, 2, h)) for p, pat, k in ((1, 11, 1), (2, 1, 1), (3, 12, 1), (3, 0, 1)) for h in (0, 1, 2)] + [("c06_eval_w", a) for a in ((2, 1, 1, 2, 0), (3, 12, 1, 2, 0))])
more("C07", [("c07_twice", (p, pat, k, 2, 2, h, o)) for p, pat, k, o in ((1, 11, 1, 2), (2, 1, 1, 3), (3, 12, 1, 2), (3, 0, 1, 4)) for h in (0, 1, 2)] + [("c07_ders_w", a) for a in ((2, 1, 1, 2, 0, 3), (3, 12, 1, 2, 0, 2))])
more("C08", [("c08_single_w", a) for a in ((2, 1, 1, 2, 0, 0), (3, 12, 1, 2, 0, 0))] + [("c08_times_w", a) for a in ((2, 1, 1, 2, 1, 1, 0), (3, 1, 1, 2, 3, 0, 0), (3, 2, 1, 2, 1, 1, 0))] + [("c08_list_w", a) for a in ((2, 1, 1, 2, 2, 2), (1, 0, 1, 2, 3, 2))])
more("C09", [("c09_removable_w", a) for a in ((2, 0, 1, 2, 2, 2, 0, 0), (3, 1, 1, 2, 2, 1, 0, 0), (3, 1, 1, 2, 1, 1, 1, 0))] + [("c09_partial_w", a) for a in ((3, 1, 2, 1, 2, 1), (3, 2, 2, 1, 1, 1))])
more("C10", [("c10_elevate_w", (p, pat, 1, 2, 0, t)) for p, pat in ((1, 1), (2, 1), (3, 12), (3, 0), (4, 1)) for t in (1, 2, 3)])
more("C11", [("c11_bezier_w", (p, pat, 1, 2, 0)) for p, pat in ((1, 11), (2, 1), (3, 12))])
more("C14", [("c14_twice", (p, pu, 1, q, pv, 2, 2, 2, h)) for p, pu, q, pv in ((1, 1, 1, 1), (2, 1, 2, 1), (2, 1, 1, 1)) for h in (0, 1, 2)] + [("c14_eval_w", a) for a in ((2, 1, 1, 2, 1, 2, 2, 0), (1, 11, 1, 3, 1, 2, 2, 0))])
more("C15", [("c15_twice", (p, pu, q, pv, 2, 2, h, ou, ov)) for p, pu, q, pv, ou, ov in ((1, 1, 1, 1, 1, 2), (2, 1, 2, 1, 2, 1), (2, 0, 1, 1, 1, 1)) for h in (0, 1, 2)] + [("c15_ders_w", a) for a in ((2, 1, 1, 2, 1, 2, 2, 1, 2, 1), (1, 1, 1, 3, 1, 2, 2, 1, 1, 2))])
more("C16", [("c16_insert_w", (d, p, pu, 1, q, pv, 2, 2, 2, w, n, 0)) for d in (0, 1) for p, pu, q, pv in ((2, 1, 2, 1), (1, 1, 3, 0)) for w, n in ((0, 1), (1, 1))] + [("c16_insert_w", (d, 2, 1, 1, 2, 1, 2, 2, 1, 2, 2, 0)) for d in (0, 1)])
more("C17", [("c17_removable_w", (d, p, pu, 1, q, pv, 2, 2, 2, 1, 1, 0)) for d in (0, 1) for p, pu, q, pv in ((2, 1, 2, 1), (1, 1, 3, 0))])
more("C18", [("c18_elevate_w", (d, p, pu, 1, q, pv, 2, 2, 2, t)) for d in (0, 1) for p, pu, q, pv in ((2, 1, 2, 1), (1, 1, 3, 0)) for t in (1, 2)])
more("C21", [("c21_curve_w", (2, 1, 1, 2, 0)), ("c21_surf_w", (2, 1, 1, 1, 1, 2, 2, 0))])
more("C04", [("c04_edits", (p, pat, w)) for p, pat in ((1, 1), (2, 12), (3, 111), (4, 31)) for w in range(4)])
more("C09", [("c09_tol2", (ax, w0, w2, x0, x2, ti, mid, 4)) for ax in (0, 1, 2) for w0, w2, x0, x2, ti, mid in ((4, 64, 8, 8, 16, 1), (64, 4, 8, 8, 16, 1), (16, 16, 16, 16, 8, 1), (4, 16, -8, 8, 16, 0), (32, 8, 0, 4, 8, 0), (16, 16, -16, 16, 8, 0), (4, 64, -16, 16, 8, 0), (64, 4, -16, 16, 8, 0))])
more("C09", [("c09_removable", (p, 0, 1, 2, s, s, 0, 3)) for p, s in ((5, 5), (6, 6), (7, 7), (8, 6), (9, 9))] + [("c09_removable", (p, p - s, 2, 2, s, s, 1, 3)) for p, s in ((7, 6), (8, 7))])
more("C10", [("c10_after", (q, tq, p, pat, t)) for q, tq, p, pat, t in ((1, 3, 2, 1, 2), (2, 2, 1, 1, 3), (3, 1, 2, 1, 2), (2, 2, 3, 1, 1), (2, 3, 2, 1, 1), (2, 1, 2, 1, 3), (4, 1, 3, 12, 2), (1, 1, 1, 11, 4))])
more("C18", [("c18_elevate_w", (d, p, pu, 1, q, pv, 2, 2, 2, t)) for d, p, pu, q, pv, t in ((0, 2, 1, 1, 1, 1), (0, 3, 0, 2, 1, 1), (1, 1, 1, 2, 1, 1), (0, 1, 1, 2, 1, 3))])
more("C12", [("c12_peak", (p, ax, w, e, dx), NL) for p, ax, w, e, dx in ((2, 0, 3, 4, 64), (2, 1, 8, 4, 8), (2, 2, 16, 8, 64), (3, 0, 4, 4, 64), (3, 1, 8, 8, 16), (4, 2, 4, 4, 64))])
more("C24", [("c24_curve", a, FP) for a in ((16, 16, 0, 0, 0), (32, 32, 0, 0, 0), (64, 64, 0, 0, 0), (65, 33, 0, 0, 1), (128, 128, 0, 0, 0), (129, 129, 0, 0, 0), (255, 2, 0, 0, 0), (256, 2, 0, 0, 0), (2, 200, 0, 0, 0))] + [("c24_surf", a, FP) for a in ((16, 16, 12, 12, 0, 0, 0, 0), (128, 3, 2, 2, 0, 0, 0, 0), (3, 128, 2, 2, 0, 0, 0, 0), (3, 3, 128, 1, 0, 0, 0, 0), (3, 3, 1, 128, 0, 0, 0, 0))])
more("C09", [("c09_tol2", (ax, w0, w2, 8, 8, 8, 1, at)) for ax in (0, 1, 2) for w0, w2, at in ((1, 16, 1), (16, 1, 7), (2, 64, 1), (64, 2, 7), (1, 4, 2))])
more("C30", [("c30_chain", (p, pat, 1, 2, 2, o)) for p, pat, o in ((2, 1, 636), (1, 11, 6163), (3, 1, 2676), (2, 0, 27), (3, 2, 276), (2, 1, 81), (1, 1, 8164), (2, 1, 9463), (3, 1, 98), (2, 11, 194), (4, 1, 2763), (1, 0, 838), (3, 12, 3614), (2, 2, 86), (3, 0, 1616164), (2, 1, 31436))] + [("c30_chain", (p, pat, 0, 1, 0, o)) for p, pat, o in ((2, 0, 61), (1, 1, 164), (2, 1, 64), (1, 0, 86), (2, 0, 27)) if o != 64])
more("C30", [("c30_schain", (p, pu, q, pv, 2, 2, o)) for p, pu, q, pv, o in ((1, 0, 2, 1, 737), (2, 1, 1, 0, 175), (2, 1, 2, 0, 857), (1, 1, 3, 0, 967), (2, 0, 2, 1, 1742), (1, 1, 1, 1, 12567), (2, 1, 3, 1, 32746), (3, 0, 1, 1, 895), (2, 1, 2, 1, 41523))])
more("C12", [("c12_bump", (p, ax, w, h, e), NL) for p, ax, w, h, e in ((2, 0, 1, 1 << 16, 1 << 24), (2, 1, 2, 1 << 16, 1 << 24), (3, 2, 1, 1 << 16, 1 << 22), (2, 2, 1, 1 << 14, 1 << 21), (4, 1, 1, 1 << 17, 1 << 30))])

# ---- large shapes: many knots (a negative pattern is that many simple interior knots) and high degrees
more("C01", [("c01_values", a) for a in ((3, -33, 2), (5, -20, 1), (16, 1, 2), (20, 0, 2), (32, 1, 2))])
more("C02", [("c02_ders", a) for a in ((3, -33, 1, 4), (16, 1, 2, 17), (20, 0, 2, 5))])
more("C03", [("c03_span", a) for a in ((3, -40), (1, -44), (20, 1))])
more("C06", [("c06_eval", a) for a in ((3, -40, 1, 2, 2), (2, -70, 2, 2, 2), (16, 1, 2, 2, 2), (20, 1, 2, 2, 1), (12, 12, 0, 2, 2))])
more("C07", [("c07_ders", a) for a in ((3, -33, 2, 2, 2, 3), (16, 1, 2, 2, 1, 2))])
more("C08", [("c08_times", a) for a in ((3, -36, 2, 2, 2, 5, 3), (16, 1, 2, 2, 9, 1, 2))] + [("c08_single", (16, 1, 2, 2, 0, 2))])
more("C09", [("c09_removable", (12, 0, 1, 2, 2, 2, 0, 3))])
more("C10", [("c10_elevate", (p, m, 1, 2, 2, t)) for p in (5, 6, 7) for m in range(0, p + 1) for t in (1, 2)] + [("c10_elevate", (5, pat, 2, 2, 2, 1)) for pat in pats(5, 2, 2)])
more("C10", [("c10_elevate", a) for a in ((2, -36, 1, 2, 3, 1), (3, -24, 1, 2, 3, 2), (12, 1, 1, 2, 2, 1), (16, 0, 1, 2, 2, 1), (16, 1, 1, 2, 2, 3))])
more("C11", [("c11_bezier", a) for a in ((3, -36, 1, 2, 3), (12, 1, 1, 2, 2), (16, 2, 1, 2, 2))] + [("c11_bezier", (p, m, 1, 2, 2)) for p in (5, 6) for m in range(1, p + 1)])
more("C14", [("c14_eval", a) for a in ((3, -40, 1, 2, 0, 2, 2, 2), (1, 0, 1, 2, -40, 2, 2, 2), (2, -20, 1, 1, -12, 2, 2, 2), (16, 1, 1, 2, 0, 2, 2, 2), (1, 0, 1, 16, 1, 2, 2, 2))])
more("C15", [("c15_ders", a) for a in ((2, -20, 1, 2, 1, 2, 2, 1, 1, 1), (1, 1, 1, 2, -20, 2, 2, 1, 1, 1), (12, 1, 1, 2, 0, 2, 2, 1, 2, 1), (2, 0, 1, 12, 1, 2, 2, 1, 1, 2))])
more("C18", [("c18_elevate", (d,) + a + (2, 2, 2, 1)) for d, a in ((0, (8, 1, 1, 1, 0)), (1, (1, 0, 1, 8, 1)), (0, (5, 4, 1, 1, 0)), (1, (1, 0, 1, 5, 4)))])

# ---- what the encodings assume and cover -------------------------------------------------------------------------------
ASSUMPTIONS += [
  "The library's sources are compiled by clang 18 at -O1 without vectorisation to LLVM IR (Eigen and libc++ headers included); the symbolic executor in /verif/engine interprets that IR. Its faithfulness is checked by replaying a solver-made witness of decided paths against a native build (sanitizers on) and comparing the outputs, and every counterexample has to fail natively before it is reported.",
  "Streams, formatted input and output and files are the model in /verif/stubs (format of numbers, rounding of printing and reading, failure at any byte); the native replay uses the real library.",
  "Memory allocation succeeds up to 1 GB and fails above; one thread; the C locale.",
  "clang 18, z3 4.8.12 and the native toolchain are trusted. Assertions that the encoding simplifies to the constant true (identical terms, concrete integers) are counted as trivial and not sent to the solver.",
]
REAL = "doubles are real numbers in these encodings: rounding, overflow and values outside the stated ranges are outside the claim."
BITS = "doubles are IEEE-754 bit patterns in these encodings (z3's floating-point theory), NaN payloads aside."
MIX = "scenarios marked --fp treat doubles as IEEE-754 values (z3's floating-point theory); in the others they are real numbers and rounding is outside the claim."
VALS = " Values: interior knots anywhere in (0,1) at least %s apart and from the ends, every parameter in [0,1], coordinates in [-1024,1024], weights in [2^-10,2^10]; shapes too large for all of it at once fix knots (uneven or even), weights or all but one coordinate, as the scenario's arguments say."
FAR, NEARBY = VALS % "2^-18 (the library compares knots within 1e-6)", VALS % "2^-36"
def say(p, bounds, outside, model=REAL): PROPS[p].update(bounds=bounds, outside=outside, model=model)
say("C01", "degrees 1-8 with every multiplicity pattern of up to 5 (degree 1), 4 (2), 3 (3), 2 (4, 5), 1 (6-8) interior knots, larger shapes up to degree 32 and 33 interior knots; calls repeated after other calls." + NEARBY, "larger degrees and more interior knots, knots closer together.")
say("C02", "degrees 1-6 with every multiplicity pattern of up to 4/3/2/1/1/1 interior knots and all orders up to degree+1 or more (order 12 for degree 1), larger shapes up to degree 20 and 33 interior knots; calls repeated after other calls." + NEARBY, "larger degrees, orders and knot vectors, knots closer together.")
say("C03", "degrees 1-9, every multiplicity pattern of up to 6/4/3/2/2/1 interior knots, single shapes up to degree 20 and 44 interior knots; bit-precise with up to 3 (thorough 5) arbitrary sorted doubles as interior knots; calls in a row." + NEARBY, "longer knot vectors.", MIX)
say("C04", "construction from up to 6 (thorough 8) arbitrary doubles including NaN and infinities, from up to 3 pairs with multiplicity up to 3; queries on up to 3 (lists: 4) arbitrary doubles between repeated ends, on all small multiplicity patterns, and on up to 100 fixed knots with one symbolic; the uniform generator up to degree 9 and 20 knots; edits of one object between queries.", "longer sequences; knots unequal but within 1e-6 where the query uses that tolerance.", MIX)
say("C05", "insertion of any double in (0,1) up to 3 times among up to 4 arbitrary sorted interior doubles (bit-precise), and among up to 100 fixed knots; reversal of every multiplicity pattern of up to 5 interior knots in real numbers, and bit-precise validity of the result for up to 3 interior doubles.", "longer knot vectors; reversing twice is exact in real numbers only (1-(1-t) rounds).", MIX)
say("C06", "degrees 1-6 with every multiplicity pattern of up to 5/3/2/1/1/1 interior knots, larger shapes up to degree 20 and 70 interior knots; several evaluations of the same and of changed objects." + NEARBY, "larger shapes.")
say("C07", "degrees 1-5, every multiplicity pattern of up to 3/3/2/1/1 interior knots, orders up to degree+1 and beyond (14 for degree 1), single shapes up to degree 16 and 33 interior knots; calls in a row." + NEARBY, "larger shapes and orders.")
say("C08", "degrees 1-5 (single insertion, all patterns of up to 3/2/1/1/0 interior knots, at new and existing knots), 2-8 (repeated insertion), single shapes up to degree 16 and 36 interior knots, lists of up to 4 values in every order and coincidence, agreement of the three ways; objects used before." + NEARBY, "larger shapes; more inserted values.")
say("C09", "exactly removable copies: degrees 1-9 and 12, up to 9 copies, on top of existing copies; knots removable only in part: degrees 2-5 with all multiplicities; tolerance: degree 1 with a symbolic weight and deviation along every axis, uneven end weights and positions; absent knots; objects used before." + FAR, "tolerances on removals that are inexact for degree 2 and more are covered for fixed points with one symbolic coordinate only; other knots within 1e-6 of the removed one.")
say("C10", "degrees 1-4 (all patterns of up to 2/2/1/0 interior knots, symbolic points and weights), degrees 5-7 with an interior knot of every multiplicity (5: every two), up to degree 16 and 36 interior knots with fixed parts, elevation by up to 5; elevations in a row." + FAR, "larger shapes; Binomial overflows from n = 30 on.")
say("C11", "degrees 1-4 with every pattern of up to 4/2/1/0 interior knots symbolic, degrees 5 and 6 with every multiplicity, up to degree 16 and 36 interior knots with fixed knots." + NEARBY, "larger shapes.")
say("C12", "degree 1 with up to three interior knots and fully symbolic points; degrees 2-5, fixed points but one symbolic value (a coordinate or weight), epsilon 1/2 to 1/1024, tightness against up to 64 points per span; a symbolic peak over nearly coinciding ends and a symbolic low bump at small epsilon for degrees 2-4.", "curves with several symbolic points, smaller epsilon (the subdivision depth grows), tightness between the grid points (slack stated by the scenario).")
say("C13", "straight segments of degree 1-4 along directions with exact length, every start and target, epsilon to 2^-20, up to 8 iterations; axis-parallel segments of any length and any epsilon; range for fixed curves with any query point or any start (1-4 iterations), for curves with symbolic coordinates along one axis (0-3 iterations); own parameter as start for any epsilon.", "more iterations on general curves; convergence on curved shapes is not claimed.")
say("C14", "degrees 1-3 by 1-3 with no, one simple or one full interior knot per direction, larger ones up to degree 16 or 40 interior knots; symbolic knots, points and weights for small shapes, else one symbolic coordinate; repeated and exchanged objects." + NEARBY, "larger shapes.")
say("C15", "the shapes of C14 (up to degree 12 or 20 interior knots) with orders up to 4 by 4, weights symbolic for the smallest." + NEARBY, "larger shapes and orders.")
say("C16", "single, repeated and list insertion in both directions on degrees 1-3 by 1-3, larger shapes up to degree 6 and eight interior knots; new and existing knots." + NEARBY, "larger shapes.")
say("C17", "exactly removable knots in both directions for the shapes of C16; rows that differ in how many copies can be removed; arbitrary surfaces with one symbolic coordinate." + FAR, "larger shapes; inexact removals with more than one symbolic coordinate.")
say("C18", "degrees 1-3 by 1-3 in both directions by 1 and 2 (bilinear: up to 5), larger shapes up to degree 8 and eight interior knots; elevations in a row." + FAR, "larger shapes.")
say("C19", "affine patches and a twisted ruled patch: every start and target, both directions, epsilon to 2^-16, up to 10 iterations; any line length and epsilon; range for five fixed surfaces with any query point, or any start and constant (up to 2 iterations); free search on flat affine patches up to 3 iterations; own parameters as start.", "more iterations on general surfaces; convergence on curved surfaces is not claimed.")
say("C20", "planar patches (grids 2x3 and 4x2) along every ordered pair of axes with both signs, inner points and sizes symbolic; any corner positions on 2x2, 2x3 and 3x2 grids for every pair of requested axes.", "larger grids; orientation is claimed for planar axis-parallel patches only, as in the statement.")
say("C21", "curves of degree 1-8 and surfaces of the shapes of C14 with a symbolic 3x3 matrix (entries in [-1024,1024]); rationality for any doubles as weights, up to 6 curve points (8 in real numbers) and 6 surface points." + NEARBY, "larger shapes; NaN weights.", MIX)
say("C22", "grids from 1x1 to 4x4 with symbolic contents and index, up to 20x12 with fixed different contents and symbolic index; numbers, integers and vectors as cells; inserted values that are cells of the grid.", "larger grids, other cell types.")
say("C23", "segments of degree 1-9 with up to 40 points, rectangles of degrees 1-6 with up to 20x17 points; symbolic corners and parameter.", "larger counts; corners that are not a parallelogram.")
say("C24", "curves with up to 257 knots and 200 points, surfaces up to 128 knots and 17x3 / 12x12 points, every number any double; into objects with other contents, through streams, positioned streams, named files, several objects per stream.", "larger objects (the count is a 32-bit integer); NaN payload bits.", BITS)
say("C25", "curves with up to 130 knots and 70 points, surfaces up to 16x13 points, one knot and one coordinate arbitrary, the others in [0.5,8]; streams, named files, streams with other format flags.", "objects with more than two arbitrary numbers at once (small shapes in the thorough tier only); not-finite numbers.", "numbers are real; printing and reading are modelled by their rounding bounds.")
say("C26", "any other character at any place of the header (first 20) and of a text file of each type (one at a time); binary files of up to 6 knots and 4 points cut at every byte; any 32-bit counts; the listed defects at every place of small files.", "several defects at once; files larger than these.", MIX)
say("C27", "objects of up to 40 knots and 33 points holding larger, smaller or equal contents before, both formats; text files lacking any subset of sections.", "larger objects.")
say("C28", "each coordinate symbolic in turn in [-1024,1024] against three settings of the others; two points in any order, points and boxes added.", "not-finite coordinates.")
say("C29", "all n from 0 to 29 (beyond 20 where no intermediate overflows) and all k; approximate comparison for any doubles and for vectors with any subset of coordinates symbolic; homogeneous conversion for every weight from 2^-10 to 2^10 and its negative.", "n of 30 and more overflows; weights closer to zero.", MIX)
say("C30", "40 curve chains of two to seven operations and 17 surface chains of two to five on degrees 1-4: insertion of new and existing knots, one, two or a list, removal of one or two copies, elevation by one or two, binary save and load." + FAR, "longer chains; text save and load inside a chain (its rounding is C25).")
say("C31", "curves with up to 20 knots and 17 points, surfaces up to 5x4 points, both formats, the destination failing at any byte; named files in a missing directory and on a full file system; streams that have failed already.", "larger objects; failures reported only when the kernel writes back later.", "the bytes' numbers are real values or fixed; the failing byte is symbolic.")
assert not [p for p in PROPS if PROPS[p]["bounds"] == "x"]
