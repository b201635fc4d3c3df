# writes seeded/<id>/ folders from tools/seeds/*.py-style entries: (id, property, file, [(old,new)...], demo body, needs, what)
import os, sys, json, subprocess, importlib.util
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
spec = importlib.util.spec_from_file_location("seeds", os.path.join(V, "tools/seeds.py")); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
HEAD = '''#include <libnurbs/Curve/Curve.hpp>
#include <libnurbs/Surface/Surface.hpp>
#include <libnurbs/Basis/BSplineBasis.hpp>
#include <libnurbs/Geometry/GeomRect.hpp>
#include <libnurbs/Geometry/GeomSegment.hpp>
#include <libnurbs/Core/BoundingBox.hpp>
#include <libnurbs/Core/Grid.hpp>
#include <libnurbs/Algorithm/MathUtils.hpp>
#include <cstdio>
#include <cmath>
#include <sstream>
#include <vector>
using namespace libnurbs;
static int fails = 0;
#define EXPECT(c) do { if (!(c)) { std::printf("FAILED line %d: %s\\n", __LINE__, #c); ++fails; } } while (0)
static bool near(double a, double b, double e = 1e-9) { return std::abs(a - b) <= e; }
static bool near(const Vec3& a, const Vec3& b, double e = 1e-9) { return (a - b).norm() <= e; }
static Curve curve(int p, std::vector<double> U, std::vector<Vec4> P) { Curve c; c.Degree = p; c.Knots = KnotVector(U); c.ControlPoints = P; return c; }
static Surface surface(int p, int q, std::vector<double> U, std::vector<double> W, int seed = 1)
{
    Surface s; s.DegreeU = p; s.DegreeV = q; s.KnotsU = KnotVector(U); s.KnotsV = KnotVector(W);
    int nu = (int)U.size() - p - 1, nv = (int)W.size() - q - 1; s.ControlPoints = {nu, nv};
    for (int i = 0; i < nu; ++i) for (int j = 0; j < nv; ++j)
        s.ControlPoints.Get(i, j) = Vec4(i + 0.1 * ((i * 3 + j * 5 + seed) % 4), j + 0.1 * ((i * 7 + j * 2 + seed) % 3), 0.3 * ((i * 2 + j * 3 + seed) % 5), 1.0 + 0.5 * ((i + 2 * j + seed) % 3));
    return s;
}
'''
SH = '''#!/bin/bash
# builds demo.cpp against the sources in the current directory (the repository) and runs it
set -u
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
F="-std=c++23 -stdlib=libc++ -O0 -g0 -w -Iinclude -I/usr/include/eigen3 @X@"
pids=""; n=0
for f in $(find src -name '*.cpp') "$here/demo.cpp"; do n=$((n+1)); clang++-18 $F -c "$f" -o "$tmp/o$n.o" & pids="$pids $!"; done
for p in $pids; do wait $p || { echo "does not compile"; exit 2; }; done
clang++-18 $F "$tmp"/o*.o -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 60 ./demo
'''
only = sys.argv[1:]
for s in m.SEEDS:
    if only and s["id"] not in only: continue
    d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    for f, old, new in s["edits"]:
        p = "/repo/" + f; t = open(p).read()
        n = t.count(old)
        if n < 1 or (n > 1 and not s.get("nth")): print(s["id"], "pattern count", n); subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."]); sys.exit(1)
        if s.get("nth"):
            parts = t.split(old); k = s["nth"]; t = old.join(parts[:k]) + new + old.join(parts[k:])
        else: t = t.replace(old, new)
        open(p, "w").write(t)
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(HEAD + s.get("pre", "") + "int main()\n{\n" + s["demo"] + "\n    if (!fails) std::printf(\"ok\\n\");\n    return fails ? 1 : 0;\n}\n")
    open(d + "/demo.sh", "w").write(SH.replace("@X@", s.get("flags", ""))); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
