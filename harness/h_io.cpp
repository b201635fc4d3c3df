// C24-C27, C31: saving and loading.
#include "util.h"
#include <sstream>
#include <fstream>
#include <string>
#include <streambuf>
#include <exception>
using namespace hx;
using std::string;

namespace
{
// mode of the numbers: 0 arbitrary doubles (float mode), 1 arbitrary reals, 2 reals in [0.5, 8] except one knot and one coordinate, which are arbitrary, 3, 4 reals in [0.5, 8]
int g_mode = 0;
double num(const char* n, int i)
{
    if (g_mode == 0) return sym_double(n, i);
    if (g_mode >= 3 || (g_mode == 2 && !(i == 0 && n[0] == 't' && !n[1]) && !(i == 1 && n[0] == 'P' && !n[1]))) return sym_real(n, i, 0.5, 8.0);
    return sym_real(n, i, -1e6, 1e6);
}
std::vector<double> nums(const char* n, int k) { std::vector<double> v; for (int i = 0; i < k; i++) v.push_back(num(n, i)); return v; }
std::vector<Vec4> pts(const char* n, int k, int m = 0) { std::vector<Vec4> v; for (int i = 0; i < k; i++) { Vec4 p; for (int c = 0; c < 4; c++) p[c] = num(n, m + i * 4 + c); v.push_back(p); } return v; }
Curve curve(const char* tn, const char* pn, int deg, int nk, int nc, int m = 0) { Curve c; c.Degree = deg; c.Knots.Values() = nums(tn, nk); c.ControlPoints = pts(pn, nc, m); return c; }
Surface surf(const char* un, const char* vn, const char* pn, int du, int dv, int ku, int kv, int nu, int nv, int m = 0)
{
    Surface s; s.DegreeU = du; s.DegreeV = dv; s.KnotsU.Values() = nums(un, ku); s.KnotsV.Values() = nums(vn, kv);
    s.ControlPoints.UCount = nu; s.ControlPoints.VCount = nv; s.ControlPoints.Values = pts(pn, nu * nv, m); return s;
}
// content an object may hold before it is loaded: fixed numbers
Curve oldCurve(int nk, int nc) { Curve c; c.Degree = 77; for (int i = 0; i < nk; i++) c.Knots.Values().push_back(0.125 * i); for (int i = 0; i < nc; i++) c.ControlPoints.push_back(Vec4(9, 8, 7, 6 + i)); if (!nk && !nc) c = Curve(); return c; }
Surface oldSurf(int nk, int nu, int nv)
{
    Surface s; if (!nk && !nu) return s;
    s.DegreeU = 77; s.DegreeV = 78; for (int i = 0; i < nk; i++) { s.KnotsU.Values().push_back(0.125 * i); s.KnotsV.Values().push_back(0.0625 * i); }
    s.ControlPoints.UCount = nu; s.ControlPoints.VCount = nv; for (int i = 0; i < nu * nv; i++) s.ControlPoints.Values.push_back(Vec4(9, 8, 7, 6 + i)); return s;
}
int g_cmp = 0; // 0: exactly, 1: as text preserves numbers
void sameNum(double a, double b, const char* m)
{
    if (g_cmp == 0) { sym_bits(a, b, m); return; }
    bool big = b >= 0.1 || b <= -0.1 || b == 0.0;
    if (big) sym_same(a, b, m); else sym_check(a - b <= 1e-17 && b - a <= 1e-17, m);
}
void sameNums(const std::vector<double>& a, const std::vector<double>& b, const char* m) { sym_check(a.size() == b.size(), m); for (size_t i = 0; i < b.size(); i++) sameNum(a[i], b[i], m); }
void samePts(const std::vector<Vec4>& a, const std::vector<Vec4>& b, const char* m) { sym_check(a.size() == b.size(), m); for (size_t i = 0; i < b.size(); i++) for (int c = 0; c < 4; c++) sameNum(a[i][c], b[i][c], m); }
int g_out = 0;
void outAll(const std::vector<double>& t) { for (double x : t) sym_out("l", g_out++, x); }
void outAll(const std::vector<Vec4>& t) { for (auto& x : t) for (int c = 0; c < 4; c++) sym_out("l", g_out++, x[c]); }
void same(const Curve& a, const Curve& b)
{
    if (g_cmp == 1) { outAll(a.Knots.Values()); outAll(a.ControlPoints); }
    sym_check(a.Degree == b.Degree, "the degree is that of the saved curve");
    sameNums(a.Knots.Values(), b.Knots.Values(), "the knots are those of the saved curve");
    samePts(a.ControlPoints, b.ControlPoints, "the control points are those of the saved curve");
}
void same(const Surface& a, const Surface& b)
{
    if (g_cmp == 1) { outAll(a.KnotsU.Values()); outAll(a.KnotsV.Values()); outAll(a.ControlPoints.Values); }
    sym_check(a.DegreeU == b.DegreeU && a.DegreeV == b.DegreeV, "the degrees are those of the saved surface");
    sameNums(a.KnotsU.Values(), b.KnotsU.Values(), "the u knots are those of the saved surface");
    sameNums(a.KnotsV.Values(), b.KnotsV.Values(), "the v knots are those of the saved surface");
    sym_check(a.ControlPoints.UCount == b.ControlPoints.UCount && a.ControlPoints.VCount == b.ControlPoints.VCount, "the grid dimensions are those of the saved surface");
    samePts(a.ControlPoints.Values, b.ControlPoints.Values, "the control points are those of the saved surface");
}
template <class O> void exact(const O& a, const O& b) { int c = g_cmp; g_cmp = 0; same(a, b); g_cmp = c; }
// way 0: a stream, 1: a named file, 2: a stream that is positioned behind other data, 3: a named file that held something longer
template <class O> void roundTrip(const O& a, O& b, bool bin, int way)
{
    const O keep = a;
    if (way == 0) { std::stringstream s; a.SaveToFile(s, bin); O& r = b.LoadFromFile(s); sym_check(&r == &b, "loading returns the object itself"); }
    else if (way == 2) { std::stringstream s; s << "x\n"; a.SaveToFile(s, bin); string l; std::getline(s, l); b.LoadFromFile(s); }
    else
    {
        string f = way == 4 ? "a.b" : "object";
        if (way == 3) { std::ofstream o(f); for (int i = 0; i < 40; i++) o << "*Degree: 5 and what was in the file before\n"; }
        a.SaveToFile(f, bin); b.LoadFromFile(f);
    }
    exact(a, keep);
    same(b, a);
}
}

// --- C24: binary ---------------------------------------------------------------------------------------------------------
ENTRY c24_curve(int nk, int nc, int ok, int oc, int way)
{
    Curve a = curve("t", "P", sym_int("deg", 0, -2147483647, 2147483647), nk, nc), b = oldCurve(ok, oc);
    roundTrip(a, b, true, way);
    sym_reach("curve round trip");
}
ENTRY c24_surf(int ku, int kv, int nu, int nv, int ok, int ou, int ov, int way)
{
    Surface a = surf("t", "s", "P", sym_int("deg", 0, -2147483647, 2147483647), sym_int("deg", 1, -2147483647, 2147483647), ku, kv, nu, nv), b = oldSurf(ok, ou, ov);
    roundTrip(a, b, true, way);
    sym_reach("surface round trip");
}
// several objects in one stream
ENTRY c24_many(int nk, int nc, int nu, int nv)
{
    Curve a = curve("t", "P", sym_int("deg", 0, 0, 1000000), nk, nc), c = curve("t3", "P3", sym_int("deg", 3, 0, 1000000), nc, nk);
    Surface b = surf("t1", "t2", "P1", sym_int("deg", 1, 0, 1000000), sym_int("deg", 2, 0, 1000000), nk, nc, nu, nv);
    std::stringstream s; a.SaveToFile(s, true); b.SaveToFile(s, true); c.SaveToFile(s, true);
    Curve x, z; Surface y; x.LoadFromFile(s); y.LoadFromFile(s); z.LoadFromFile(s);
    same(x, a); same(y, b); same(z, c);
    // and again into the same objects
    std::stringstream q; c.SaveToFile(q, true); b.SaveToFile(q, true); a.SaveToFile(q, true);
    x.LoadFromFile(q); y.LoadFromFile(q); z.LoadFromFile(q);
    same(x, c); same(y, b); same(z, a);
    sym_reach("three objects");
}

// --- C25: text -----------------------------------------------------------------------------------------------------------
ENTRY c25_curve(int nk, int nc, int mode, int way)
{
    g_mode = mode; g_cmp = 1;
    Curve a = curve("t", "P", mode == 3 ? sym_int("deg", 0, 0, 120) : 3, nk, nc), b;
    roundTrip(a, b, false, way);
    sym_reach("curve text round trip");
}
ENTRY c25_surf(int ku, int kv, int nu, int nv, int mode, int way)
{
    g_mode = mode; g_cmp = 1;
    Surface a = surf("t", "s", "P", mode == 3 ? sym_int("deg", 0, 0, 12) : 3, mode == 3 ? sym_int("deg", 1, 0, 12) : 2, ku, kv, nu, nv), b;
    roundTrip(a, b, false, way);
    sym_reach("surface text round trip");
}
// saving twice to one stream, after other formatted output: the second save is not affected by the state of the stream
ENTRY c25_state(int what)
{
    g_mode = 2; g_cmp = 1;
    Curve a = curve("t", "P", 2, 2, 1), b;
    std::stringstream s; s.precision(2); if (what == 1) s << std::scientific; if (what == 2) s << std::fixed << std::setprecision(1);
    a.SaveToFile(s, false); b.LoadFromFile(s);
    same(b, a);
    Surface c = surf("t1", "t2", "P1", 1, 2, 2, 2, 1, 1), d;
    std::stringstream q; q.precision(2); if (what == 1) q << std::scientific; if (what == 2) q << std::fixed << std::setprecision(1);
    c.SaveToFile(q, false); d.LoadFromFile(q);
    same(d, c);
    sym_reach("saved to a stream with its own format");
}

// --- C27: loading replaces -----------------------------------------------------------------------------------------------
ENTRY c27_curve(int bin, int nk, int nc, int ok, int oc, int way)
{
    g_mode = 1; g_cmp = 1; if (!bin) g_mode = 3;
    Curve a; a.Degree = sym_int("deg", 0, 0, 9); for (int i = 0; i < nk; i++) a.Knots.Values().push_back(sym_real("t", i, 0.5, 8.0));
    for (int i = 0; i < nc; i++) { Vec4 p; for (int c = 0; c < 4; c++) p[c] = sym_real("P", i * 4 + c, 0.5, 8.0); a.ControlPoints.push_back(p); }
    Curve b = oldCurve(ok, oc);
    roundTrip(a, b, bin, way);
    // twice, and the other format
    std::stringstream s; a.SaveToFile(s, !bin); b.LoadFromFile(s); same(b, a);
    sym_reach("loaded into a curve that held data");
}
ENTRY c27_surf(int bin, int ku, int kv, int nu, int nv, int ok, int ou, int ov, int way)
{
    g_cmp = 1;
    Surface a; a.DegreeU = sym_int("deg", 0, 0, 9); a.DegreeV = 3; for (int i = 0; i < ku; i++) a.KnotsU.Values().push_back(sym_real("t", i, 0.5, 8.0));
    for (int i = 0; i < kv; i++) a.KnotsV.Values().push_back(sym_real("s", i, 0.5, 8.0));
    a.ControlPoints.UCount = nu; a.ControlPoints.VCount = nv;
    for (int i = 0; i < nu * nv; i++) { Vec4 p; for (int c = 0; c < 4; c++) p[c] = sym_real("P", i * 4 + c, 0.5, 8.0); a.ControlPoints.Values.push_back(p); }
    Surface b = oldSurf(ok, ou, ov);
    roundTrip(a, b, bin, way);
    std::stringstream s; a.SaveToFile(s, !bin); b.LoadFromFile(s); same(b, a);
    sym_reach("loaded into a surface that held data");
}

// a text file that lacks a part, loaded into an object that held data, gives what a fresh object gets
ENTRY c27_partial(int surface, int which)
{
    if (surface)
    {
        Surface f, o = oldSurf(3, 2, 2); string s;
        std::stringstream t; oldSurf(1, 1, 1).SaveToFile(t, false); std::getline(t, s); s += "\n";
        if (which & 1) s += "*DegreeU: 2\n";
        if (which & 2) s += "*KnotsU:\n0.5, 1.0\n";
        if (which & 4) s += "*KnotsV:\n0.25\n*DegreeV: 4\n";
        if (which & 8) s += "*ControlPoints:\n1 2\n1 2 3 4\n5 6 7 8\n";
        std::stringstream a(s), b(s); f.LoadFromFile(a); o.LoadFromFile(b);
        sym_check(f.DegreeU == o.DegreeU && f.DegreeV == o.DegreeV, "nothing of the previous degrees remains");
        sym_check(f.KnotsU.Values() == o.KnotsU.Values() && f.KnotsV.Values() == o.KnotsV.Values(), "nothing of the previous knots remains");
        sym_check(f.ControlPoints.UCount == o.ControlPoints.UCount && f.ControlPoints.VCount == o.ControlPoints.VCount && f.ControlPoints.Values.size() == o.ControlPoints.Values.size(), "nothing of the previous grid remains");
    }
    else
    {
        Curve f, o = oldCurve(3, 2); string s;
        std::stringstream t; oldCurve(1, 1).SaveToFile(t, false); std::getline(t, s); s += "\n";
        if (which & 1) s += "*Degree: 2\n";
        if (which & 2) s += "*Knots:\n0.5, 1.0\n";
        if (which & 4) s += "*ControlPoints:\n1 2 3 4, 5 6 7 8\n";
        std::stringstream a(s), b(s); f.LoadFromFile(a); o.LoadFromFile(b);
        sym_check(f.Degree == o.Degree, "nothing of the previous degree remains");
        sym_check(f.Knots.Values() == o.Knots.Values() && f.ControlPoints.size() == o.ControlPoints.size(), "nothing of the previous knots and points remains");
    }
    sym_reach("partial file");
}

// --- C26: what is not a saved object is rejected ---------------------------------------------------------------------------
namespace
{
// gives out the first `end` bytes of s
struct CutBuf : std::streambuf
{
    string s; int end, g = 0; char cur = 0;
    CutBuf(const string& x, int e) : s(x), end(e) {}
    int_type underflow() override { return g < end ? traits_type::to_int_type(s[g]) : traits_type::eof(); }
    int_type uflow() override { return g < end ? traits_type::to_int_type(s[g++]) : traits_type::eof(); }
    std::streamsize xsgetn(char* d, std::streamsize n) override { std::streamsize i = 0; for (; i < n && g < end; i++) d[i] = s[g++]; return i; }
};
template <class O> bool rejects(O& o, std::istream& is) { try { o.LoadFromFile(is); } catch (const std::exception&) { return true; } return false; }
template <class O> bool rejects(O& o, const string& s) { std::stringstream is(s); return rejects(o, is); }
Curve plainCurve() { Curve c; c.Degree = 1; c.Knots.Values() = {0, 0, 1, 1}; c.ControlPoints = {Vec4(1, 2, 3, 1), Vec4(4, 5, 6, 1)}; return c; }
Surface plainSurf() { Surface s; s.DegreeU = 1; s.DegreeV = 1; s.KnotsU.Values() = {0, 0, 1, 1}; s.KnotsV.Values() = {0, 0, 1, 1}; s.ControlPoints.UCount = 1; s.ControlPoints.VCount = 2; s.ControlPoints.Values = {Vec4(1, 2, 3, 1), Vec4(4, 5, 6, 1)}; return s; }
template <class O> string saved(const O& o, bool bin) { std::stringstream s; o.SaveToFile(s, bin); return s.str(); }
void putInt(string& s, size_t at, int v) { unsigned u = (unsigned)v; for (int k = 0; k < 4; k++) s[at + k] = (char)(u >> (8 * k)); }
void addInt(string& s, int v) { s.append(4, 0); putInt(s, s.size() - 4, v); }
string head(bool surface, bool bin) { string s = surface ? saved(plainSurf(), bin) : saved(plainCurve(), bin); return s.substr(0, s.find('\n') + 1); }
}
// a saved file with one character of its header line replaced by any other
ENTRY c26_header(int surface, int bin, int pos)
{
    string s = surface ? saved(plainSurf(), bin) : saved(plainCurve(), bin);
    size_t n = s.find('\n'); if (pos >= (int)n) { sym_check(true, "no such position"); return; }
    int c = sym_int("c", 0, 0, 255); char o = s[pos];
    sym_assume((unsigned char)o != c);
    bool sp = o == ' '; if (sp) sym_assume(!(c == ' ' || (c >= 9 && c <= 13)));
    s[pos] = (char)c;
    bool r; if (surface) { Surface x; r = rejects(x, s); } else { Curve x; r = rejects(x, s); }
    sym_check(r, "a file with a damaged header line is rejected");
    sym_reach("damaged header");
}
// the file of the other type, an empty file, a file without header
ENTRY c26_type(int which)
{
    Curve c = curve("t", "P", 2, 3, 2); Surface s = surf("t1", "t2", "P1", 1, 2, 2, 2, 1, 2);
    bool r = false;
    if (which == 0) { Surface x; r = rejects(x, saved(c, true)); }
    if (which == 1) { Curve x; r = rejects(x, saved(s, true)); }
    if (which == 2) { Curve x; r = rejects(x, string()); }
    if (which == 3) { Surface x; r = rejects(x, string()); }
    if (which == 4) { Surface x; r = rejects(x, saved(plainCurve(), false)); }
    if (which == 5) { Curve x; r = rejects(x, saved(plainSurf(), false)); }
    if (which == 6) { Curve x; r = rejects(x, string("LIBNURBS\n")); }
    if (which == 7) { Surface x; r = rejects(x, string("LIBNURBS BIN\n")); }
    if (which == 8) { Curve x; try { x.LoadFromFile(string("no-such-file")); } catch (const std::exception&) { r = true; } }
    if (which == 9) { Surface x; try { x.LoadFromFile(string("no-such-file")); } catch (const std::exception&) { r = true; } }
    if (which == 10) { std::stringstream f; f.setstate(std::ios::failbit); Curve x; r = rejects(x, f); }
    if (which == 11) { std::stringstream f; f.setstate(std::ios::badbit); Surface x; r = rejects(x, f); }
    sym_check(r, "a file of another kind is rejected");
    sym_reach("other file");
}
// a binary file cut at any byte
ENTRY c26_cut_curve(int nk, int nc)
{
    Curve c = oldCurve(nk, nc); c.Degree = sym_int("deg", 0, 0, 1000); string s = saved(c, true);
    int n = (int)s.size(), e = sym_int("cut", 0, 0, n - 1);
    CutBuf b(s, e); std::istream is(&b); Curve x = oldCurve(2, 1);
    sym_check(rejects(x, is), "a binary curve cut at any byte is rejected");
    sym_reach("cut");
}
ENTRY c26_cut_surf(int ku, int kv, int nu, int nv)
{
    Surface c = oldSurf(ku, nu, nv); c.DegreeV = sym_int("deg", 0, 0, 1000); c.KnotsV.Values().resize(kv, 0.5); string s = saved(c, true);
    int n = (int)s.size(), e = sym_int("cut", 0, 0, n - 1);
    CutBuf b(s, e); std::istream is(&b); Surface x = oldSurf(2, 1, 2);
    sym_check(rejects(x, is), "a binary surface cut at any byte is rejected");
    sym_reach("cut");
}
// arbitrary counts in a binary curve: `have` doubles follow the knot count, `pts` points the other
ENTRY c26_counts_curve(int which, int have, int npts)
{
    string s = head(false, true); addInt(s, 2);
    int k = which == 0 ? sym_int("count", 0, -2147483647 - 1, 2147483647) : have;
    addInt(s, k); s.append((size_t)have * 8, 0);
    int m = which == 1 ? sym_int("count", 1, -2147483647 - 1, 2147483647) : npts;
    if (which == 0) sym_assume(k != have && (k <= 24 || k > 8192));
    else sym_assume((m > npts && (m <= 8 || m > 2048)) || m < 0);
    if (which == 1) { addInt(s, m); s.append((size_t)npts * 32, 0); } // otherwise nothing that could stand in for knots
    Curve x; bool r = rejects(x, s);
    if (which == 1 || k < 0 || k > have) sym_check(r, "a count the file does not hold is rejected");
    else if (!r) sym_check((int)x.Knots.Values().size() == k, "as many knots as counted");
    sym_reach("any count");
}
ENTRY c26_counts_surf(int which, int have, int nu, int nv)
{
    string s = head(true, true); addInt(s, 1); addInt(s, 1);
    int k = which == 0 ? sym_int("count", 0, -2147483647 - 1, 2147483647) : have, l = which == 1 ? sym_int("count", 1, -2147483647 - 1, 2147483647) : have;
    int u = nu, v = nv;
    static const int some[] = {1, 2, 3, 0, -1, 5, -2147483647 - 1, 2147483647, 65536, 65537, 131072, 1 << 30, 46341};
    if (which == 2 || which == 3)
    {
        int i = sym_int("i", 0, 0, 12), a = 0; for (int j = 0; j < 13; j++) if (i == j) a = some[j];
        int b = sym_int("count", 2, -2147483647 - 1, 2147483647); sym_assume(b <= 8 || b > 2048);
        u = which == 2 ? a : b; v = which == 2 ? b : a; sym_assume(u <= 0 || v <= 0 || (long long)u * v > (long long)nu * nv);
    }
    if (which == 0) sym_assume(k < 0 || (k > have && (k <= 24 || k > 8192)));
    if (which == 1) sym_assume(l < 0 || (l > have && (l <= 24 || l > 8192)));
    addInt(s, k); s.append((size_t)have * 8, 0); addInt(s, l); s.append((size_t)have * 8, 0);
    addInt(s, u); addInt(s, v); s.append((size_t)nu * nv * 32, 0);
    if (which < 2) s = s.substr(0, s.size() - (nu * nv * 32 + 8)); // nothing behind the knots that could stand in for them
    Surface x; bool r = rejects(x, s);
    sym_check(r, "a count the file does not hold is rejected");
    sym_reach("any count");
}
// the listed defects in a text file; `at` selects the place
ENTRY c26_text_curve(int d)
{
    const int at = sym_int("at", 0, 0, 3);
    string deg = "*Degree: 1\n", kn[4] = {"0.0", "0.25", "1.0", "1.0"}, cp[4] = {"1.0 2.0 3.0 1.0", "1.0 2.0 3.0 1.0", "4.0 5.0 6.0 0.5", "4.0 5.0 6.0 2.0"}, num4[4] = {"1.5", "-2.0", "3.0", "1.0"};
    string pre, post, knkey = "*Knots:\n", cpkey = "*ControlPoints:\n";
    static const char* const bad[] = {"abc", "-", "x1.0", ":", "*"};
    if (d == 0) { pre = at == 0 ? "*Unknown: 1\n" : at == 1 ? "*degree: 1\n" : at == 2 ? "*KnotsU:\n0.0\n" : "*Point: 0 0 0 1\n"; }
    if (d == 1) { post = at == 0 ? "*Unknown: 1\n" : at == 1 ? "*Knot:\n0.5\n" : at == 2 ? "*Weights: 1\n" : "*X:\n"; }
    if (d == 2) deg = at == 0 ? "*Degree:\n" : at == 1 ? "*Degree: \n" : at == 2 ? "*Degree: abc\n" : "*Degree: 1\n2\n";
    if (d == 3) kn[at] = bad[0];
    if (d == 4) kn[at] = bad[1];
    if (d == 5) kn[at] = bad[2];
    if (d == 6) { num4[at] = ""; }
    if (d == 7) { num4[at] = "abc"; }
    if (d == 8) { num4[at] = "-"; }
    if (d == 9) { pre = at == 0 ? "1 2 3\n" : at == 1 ? "Degree: 1\n" : at == 2 ? "0.0, 1.0\n" : "garbage\n"; }
    if (d == 10) { for (int i = 0; i < 4; i++) if (i > at) num4[i] = ""; if (at == 3) num4[0] = "*"; }
    if (d >= 6) { cp[1] = num4[0] + " " + num4[1] + " " + num4[2] + " " + num4[3]; if (d == 9) cp[1] = "1 2 3 4"; }
    string s = head(false, false) + pre + deg + knkey + kn[0] + ", " + kn[1] + ", " + kn[2] + ", " + kn[3] + "\n" + cpkey + cp[0] + ", " + cp[1] + ", " + cp[2] + ", " + cp[3] + "\n" + post;
    Curve x;
    bool r = rejects(x, s);
    if (d == 20) { sym_check(!r && x.Degree == 1 && x.Knots.Values().size() == 4 && x.ControlPoints.size() == 4, "the undamaged file is accepted"); }
    else sym_check(r, "a damaged text curve is rejected");
    sym_reach("damaged text");
}
ENTRY c26_text_surf(int d)
{
    const int at = sym_int("at", 0, 0, 3);
    string dg = "*DegreeU: 1\n*DegreeV: 1\n", ku[4] = {"0.0", "0.25", "1.0", "1.0"}, kv[4] = {"0.0", "0.0", "0.75", "1.0"}, num4[4] = {"1.5", "-2.0", "3.0", "1.0"};
    string pre, post, dims = "2 2\n", cps[4] = {"1 2 3 1\n", "4 5 6 1\n", "7 8 9 1\n", "1 1 1 1\n"};
    if (d == 0) pre = at == 0 ? "*Unknown: 1\n" : at == 1 ? "*Degree: 1\n" : at == 2 ? "*Knots:\n0.0\n" : "*Point: 0 0 0 1\n";
    if (d == 1) post = at == 0 ? "*Unknown: 1\n" : at == 1 ? "*KnotU:\n0.5\n" : at == 2 ? "*Weights: 1\n" : "*X:\n";
    if (d == 2) dg = at == 0 ? "*DegreeU:\n*DegreeV: 1\n" : at == 1 ? "*DegreeU: 1\n*DegreeV:\n" : at == 2 ? "*DegreeU: abc\n*DegreeV: 1\n" : "*DegreeU: 1\n*DegreeV: x\n";
    if (d == 3) ku[at] = "abc";
    if (d == 4) kv[at] = "-";
    if (d == 5) kv[at] = "x1.0";
    if (d == 6) num4[at] = "";
    if (d == 7) num4[at] = "abc";
    if (d == 8) num4[at] = "-";
    if (d == 9) pre = at == 0 ? "1 2 3\n" : at == 1 ? "DegreeU: 1\n" : at == 2 ? "0.0, 1.0\n" : "garbage\n";
    if (d == 10) cps[at] = "";
    if (d == 11) cps[at] += "0 0 0 1\n";
    if (d == 12) dims = at == 0 ? "2\n" : at == 1 ? "2 x\n" : at == 2 ? "\n" : "3 2\n";
    if (d == 13) dims = at == 0 ? "-2 -2\n" : at == 1 ? "0 4\n" : at == 2 ? "4 0\n" : "2 3\n";
    if (d == 14) { dims = at == 0 ? "65536 65536\n" : at == 1 ? "4294967296 1\n" : at == 2 ? "1 4294967300\n" : "1073741825 4\n"; if (at == 0) for (auto& c : cps) c = ""; }
    if (d == 15) { dims = ""; for (auto& c : cps) c = ""; }
    if (d >= 6 && d <= 8) cps[1] = num4[0] + " " + num4[1] + " " + num4[2] + " " + num4[3] + "\n";
    string s = head(true, false) + pre + dg + "*KnotsU:\n" + ku[0] + ", " + ku[1] + ", " + ku[2] + ", " + ku[3] + "\n*KnotsV:\n" + kv[0] + ", " + kv[1] + ", " + kv[2] + ", " + kv[3] + "\n*ControlPoints:\n" + dims + cps[0] + cps[1] + cps[2] + cps[3] + post;
    Surface x;
    bool r = rejects(x, s);
    if (d == 20) { sym_check(!r && x.DegreeU == 1 && x.KnotsV.Values().size() == 4 && x.ControlPoints.Values.size() == 4, "the undamaged file is accepted"); }
    else sym_check(r, "a damaged text surface is rejected");
    sym_reach("damaged text");
}
// any one character of a text file replaced by any other: accepted or rejected, never a crash
ENTRY c26_char(int surface, int from, int to)
{
    string s = surface ? head(true, false) + "*DegreeU: 1\n*DegreeV: 2\n*KnotsU:\n0.0, 1.0\n*KnotsV:\n0.5\n*ControlPoints:\n1 1\n1 2 3 1\n" : head(false, false) + "*Degree: 1\n*Knots:\n0.0, 1.0\n*ControlPoints:\n1 2 3 1, 4 5 6 1\n";
    int p = sym_int("pos", 0, from, to); sym_assume(p < (int)s.size());
    for (int i = from; i <= to; i++) if (p == i) s[i] = (char)sym_int("c", 0, 0, 255);
    if (surface)
    {
        Surface x; bool r = rejects(x, s);
        if (!r) sym_check((x.ControlPoints.UCount < 0 && x.ControlPoints.Values.empty()) || (int)x.ControlPoints.Values.size() == x.ControlPoints.UCount * x.ControlPoints.VCount, "the grid holds as many points as its dimensions say");
    }
    else { Curve x; bool r = rejects(x, s); if (!r) sym_check(x.Knots.Values().size() + x.ControlPoints.size() <= 16, "nothing but what the file holds is loaded"); }
    sym_reach("any character");
}

// --- C31: a save that returns has delivered ----------------------------------------------------------------------------------
namespace
{
// accepts `cap` bytes and no more
struct LimitedBuf : std::streambuf
{
    int cap, used = 0;
    explicit LimitedBuf(int c) : cap(c) {}
    int_type overflow(int_type c) override { if (used >= cap) return traits_type::eof(); used++; return c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { if (used + n <= cap) { used += (int)n; return n; } n = cap - used; used = cap; return n; }
};
template <class O> bool refuses(const O& o, const string& f, bool bin) { try { o.SaveToFile(f, bin); } catch (const std::exception&) { return true; } return false; }
template <class O> void limited(const O& o, bool bin)
{
    const O keep = o;
    std::stringstream s; o.SaveToFile(s, bin); int n = (int)s.str().size();
    int cap = sym_int("cap", 0, 0, 100000); sym_assume(cap <= n);
    LimitedBuf b(cap); std::ostream os(&b); bool ok = true;
    try { o.SaveToFile(os, bin); } catch (const std::exception&) { ok = false; }
    if (cap < n) sym_check(!ok, "a save to a destination that stops accepting data throws");
    else sym_check(ok && b.used == n, "a save to a destination with enough room delivers everything");
    exact(o, keep);
}
}
ENTRY c31_curve(int bin, int nk, int nc)
{
    Curve a; a.Degree = 3; for (int i = 0; i < nk; i++) a.Knots.Values().push_back(sym_real("t", i, 0.5, 8.0));
    for (int i = 0; i < nc; i++) { Vec4 p; for (int c = 0; c < 4; c++) p[c] = sym_real("P", i * 4 + c, 0.5, 8.0); a.ControlPoints.push_back(p); }
    limited(a, bin);
    sym_reach("limited room");
}
ENTRY c31_surf(int bin, int ku, int kv, int nu, int nv)
{
    Surface a; a.DegreeU = 3; a.DegreeV = 2; for (int i = 0; i < ku; i++) a.KnotsU.Values().push_back(sym_real("t", i, 0.5, 8.0)); for (int i = 0; i < kv; i++) a.KnotsV.Values().push_back(sym_real("s", i, 0.5, 8.0));
    a.ControlPoints.UCount = nu; a.ControlPoints.VCount = nv; for (int i = 0; i < nu * nv; i++) { Vec4 p; for (int c = 0; c < 4; c++) p[c] = sym_real("P", i * 4 + c, 0.5, 8.0); a.ControlPoints.Values.push_back(p); }
    limited(a, bin);
    sym_reach("limited room");
}
// named files: a full file system, a directory that does not exist; and a stream that has failed already
ENTRY c31_named(int bin, int surface, int where)
{
    Curve c; c.Degree = 1; c.Knots.Values() = {sym_real("t", 0, 0.5, 8.0), sym_real("t", 1, 0.5, 8.0)}; c.ControlPoints = {Vec4(sym_real("P", 0, 0.5, 8.0), 2, 3, 1)};
    Surface s; s.DegreeU = s.DegreeV = 1; s.KnotsU.Values() = {sym_real("t", 2, 0.5, 8.0)}; s.KnotsV.Values() = {1.0}; s.ControlPoints.UCount = s.ControlPoints.VCount = 1; s.ControlPoints.Values = {Vec4(sym_real("P", 4, 0.5, 8.0), 2, 3, 1)};
    if (where == 2 || where == 3)
    {
        std::stringstream os; os.setstate(where == 2 ? std::ios::failbit : std::ios::badbit); bool r = false;
        try { if (surface) s.SaveToFile(os, bin); else c.SaveToFile(os, bin); } catch (const std::exception&) { r = true; }
        sym_check(r, "a save to a failed stream throws");
    }
    else
    {
        string f = where == 0 ? "/dev/full" : "missing-dir/object";
        sym_check(surface ? refuses(s, f, bin) : refuses(c, f, bin), where == 0 ? "a save to a full file system throws" : "a save to a file that cannot be created throws");
    }
    sym_reach("named destination");
}
