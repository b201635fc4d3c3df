KV="src/Core/KnotVector.cpp"; BB="src/Basis/BSplineBasis.cpp"; CU="src/Curve/Curve.cpp"; SU="src/Surface/Surface.cpp"; KR="src/Algorithm/KnotRemoval.cpp"; DA="src/Algorithm/DegreeAlgo.cpp"; SE="src/Utils/Serialization.cpp"; GR="include/libnurbs/Core/Grid.hpp"; BX="include/libnurbs/Core/BoundingBox.hpp"; MU="include/libnurbs/Algorithm/MathUtils.hpp"; TD="include/libnurbs/Core/Typedefs.hpp"; GRC="src/Geometry/GeomRect.cpp"
SEEDS = []
def seed(id, prop, edits, demo, needs, what, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, what=what, **k))

seed("c03-findspan-at-knot", "C03", [(KV, "        if (pair.Value <= u)\n", "        if (pair.Value < u || i == 0)\n")], """
    KnotVector k(std::vector<double>{0, 0, 0, 0.25, 0.5, 0.5, 1, 1, 1});
    auto s = k.FindSpan(0.5);
    EXPECT(s.Left.Value == 0.5 && s.Right.Value == 1.0);
    EXPECT(s.Index == 2);
    auto r = k.FindSpan(0.375);
    EXPECT(r.Left.Value == 0.25 && r.Right.Value == 0.5);
    EXPECT(k.FindSpan(0.0).Left.Value == 0.0);
""", "a parameter exactly equal to an interior knot", "the span query returns the span left of the knot, which does not contain the parameter")

seed("c05-reverse-middle", "C05", [(KV, """    ranges::reverse(m_Values);
    for (auto& t : m_Values)
    {
        t = 1.0 - t;
    }""", """    for (size_t i = 0, j = m_Values.size(); i + 1 < j; ++i)
    {
        const Numeric last = m_Values[--j];
        m_Values[j] = 1.0 - m_Values[i];
        m_Values[i] = 1.0 - last;
    }""")], """
    KnotVector k(std::vector<double>{0, 0, 0, 0.25, 1, 1, 1});
    k.Reverse();
    EXPECT(k.Values()[3] == 0.75);
    KnotVector e(std::vector<double>{0, 0, 0.25, 0.5, 1, 1});
    e.Reverse();
    EXPECT(e.Values()[2] == 0.5 && e.Values()[3] == 0.75);
""", "an odd number of knots whose middle one is not 0.5", "the middle knot is not mirrored when a knot vector with an odd number of knots is reversed")

seed("c08-list-order", "C08", [(CU, """    for (auto knot_value : knots_to_insert)
    {
        int k = result.Knots.FindSpanIndex(Degree, knot_value);
        points.insert""", """    int inserted = 0;
    for (auto knot_value : knots_to_insert)
    {
        int k = Knots.FindSpanIndex(Degree, knot_value) + inserted++;
        points.insert""")], """
    auto c = curve(2, {0, 0, 0, 0.5, 1, 1, 1}, {Vec4(0, 0, 0, 1), Vec4(1, 2, 0, 2), Vec4(3, 1, 1, 1), Vec4(4, 0, 2, 0.5)});
    for (std::vector<double> l : {std::vector<double>{0.25, 0.75}, {0.75, 0.25}, {0.5, 0.25}})
    {
        auto d = c.InsertKnot(std::span<double>(l));
        bool sorted = true;
        for (size_t i = 1; i < d.Knots.Values().size(); ++i) sorted = sorted && d.Knots.Values()[i - 1] <= d.Knots.Values()[i];
        EXPECT(sorted);
        if (sorted) for (int i = 0; i <= 16; ++i) EXPECT(near(c.Evaluate(i / 16.0), d.Evaluate(i / 16.0)));
    }
""", "a list of knots to insert that is not in ascending order", "the span of a later value is computed from the original knots plus the number inserted so far, which is wrong when a larger value came first")

seed("c09-second-removal-residual", "C09", [(KR, "dist = ((alphai * temp[ii + t + 1] + (1.0 - alphai) * temp[ii - 1]) - points[i]).norm();", "dist = ((alphai * temp[ii + 1] + (1.0 - alphai) * temp[ii - 1]) - points[i]).norm();")], """
    auto c = curve(3, {0, 0, 0, 0, 1, 1, 1, 1}, {Vec4(0, 0, 0, 1), Vec4(1, 2, 0, 2), Vec4(3, 1, 1, 1), Vec4(4, 0, 2, 0.5)});
    for (int n = 1; n <= 3; ++n)
    {
        auto d = c.InsertKnot(0.375, n);
        auto [r, t] = d.RemoveKnot(0.375, n, 1e-6);
        EXPECT(t == n);
        EXPECT(r.ControlPoints.size() == d.ControlPoints.size() - t);
        for (int i = 0; i <= 16; ++i) EXPECT(near(c.Evaluate(i / 16.0), r.Evaluate(i / 16.0)));
    }
""", "removing a knot of multiplicity two or more, so that the residual of a later removal pass falls on a single middle point", "the residual of the second pass is computed from the wrong control point: knots that could be removed exactly are kept")

seed("c10-elevation-window", "C10", [(DA, "                    first =  first - 1;\n                    last = last + 1;", "                    first =  first - 1;")], """
    auto c = curve(4, {0, 0, 0, 0, 0, 0.25, 0.625, 1, 1, 1, 1, 1}, {Vec4(0, 0, 0, 1), Vec4(1, 2, 0, 2), Vec4(3, 1, 1, 1), Vec4(4, 0, 2, 0.5), Vec4(5, 3, 1, 1), Vec4(6, -1, 0, 1.5), Vec4(7, 0, 1, 1)});
    for (int t = 1; t <= 3; ++t)
    {
        auto d = c.ElevateDegree(t);
        for (int i = 0; i <= 32; ++i) EXPECT(near(c.Evaluate(i / 32.0), d.Evaluate(i / 32.0)));
    }
""", "a curve of degree 4 or more (degree minus multiplicity at least three) with an interior knot", "the knot removal inside degree elevation does not widen its window on the right, which changes the curve")

seed("c15-mixed-binomial", "C15", [(SU, "Aders.noalias() -= bi * Binomial(ov, j) * Wders * result.Get(ou - i, ov - j);", "Aders.noalias() -= bi * Wders * result.Get(ou - i, ov - j);")], """
    auto s = surface(2, 2, {0, 0, 0, 1, 1, 1}, {0, 0, 0, 0.5, 1, 1, 1});
    double h = 1e-4, u = 0.4, v = 0.3;
    auto mixed = s.EvaluateDerivative(u, v, 1, 2);
    Vec3 num = (s.EvaluateDerivative(u, v + h, 1, 1) - s.EvaluateDerivative(u, v - h, 1, 1)) / (2 * h);
    EXPECT(near(mixed, num, 1e-4));
    Vec3 num2 = (s.EvaluateDerivative(u + h, v, 1, 1) - s.EvaluateDerivative(u - h, v, 1, 1)) / (2 * h);
    EXPECT(near(s.EvaluateDerivative(u, v, 2, 1), num2, 1e-4));
""", "a rational surface and a mixed derivative of order two or more in v", "the quotient rule loses a binomial factor, so mixed derivatives of order >= 2 in v are wrong for rational surfaces")

seed("c17-agreement", "C17", [(SU, "if (t_tmp == 0 || it_u != 0 && t != t_tmp) return {*this, 0};", "if (t_tmp < t || t_tmp == 0) return {*this, 0};")], """
    // the first column allows one removal, the second two
    Surface s; s.DegreeU = 1; s.DegreeV = 3; s.KnotsU = KnotVector(std::vector<double>{0, 0, 1, 1});
    auto line = curve(3, {0, 0, 0, 0, 1, 1, 1, 1}, {Vec4(0, 0, 0, 1), Vec4(1, 0, 0, 1), Vec4(2, 0, 0, 1), Vec4(3, 0, 0, 1)}).InsertKnot(0.5, 2);
    auto once = curve(3, {0, 0, 0, 0, 0.5, 1, 1, 1, 1}, {Vec4(0, 1, 0, 1), Vec4(1, 1, 3, 1), Vec4(2, 1, -2, 1), Vec4(3, 1, 5, 1), Vec4(4, 1, 0, 1)}).InsertKnot(0.5, 1);
    s.KnotsV = line.Knots; s.ControlPoints = {2, 6};
    for (int j = 0; j < 6; ++j) { s.ControlPoints.Get(0, j) = once.ControlPoints[j]; s.ControlPoints.Get(1, j) = line.ControlPoints[j]; }
    auto [r, t] = s.RemoveKnotV(0.5, 2, 1e-6);
    EXPECT((int)r.KnotsV.Values().size() == r.ControlPoints.VCount + 3 + 1);
    EXPECT(r.ControlPoints.VCount == 6 - t);
    if (!fails) for (int i = 0; i <= 8; ++i) for (int j = 0; j <= 8; ++j) EXPECT(near(s.Evaluate(i / 8.0, j / 8.0), r.Evaluate(i / 8.0, j / 8.0), 1e-5));
""", "a surface whose columns differ in how many copies of the knot can be removed, the first allowing fewer than a later one", "columns of different lengths are put together: knot vector and grid size do not match or data is read outside the column", flags="-fsanitize=address")

seed("c20-swap-sign", "C20", [(SU, """            std::swap(current_u_axis, current_v_axis);
            std::swap(u_sign, v_sign);""", """            std::swap(current_u_axis, current_v_axis);""")], """
    // u runs along -y, v along +x
    Surface s; s.DegreeU = 1; s.DegreeV = 2; s.KnotsU = KnotVector(std::vector<double>{0, 0, 0.25, 1, 1}); s.KnotsV = KnotVector(std::vector<double>{0, 0, 0, 1, 1, 1}); s.ControlPoints = {3, 3};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) s.ControlPoints.Get(i, j) = Vec4(j * 1.5, 2.0 - i, 0.1 * i * j, 1);
    auto a = s.AlignParameterDomain(Surface::AlignAxis::XAxis, Surface::AlignAxis::YAxis);
    EXPECT(a.Evaluate(1, 0).x() > a.Evaluate(0, 0).x());
    EXPECT(a.Evaluate(0, 1).y() > a.Evaluate(0, 0).y());
    EXPECT(near(a.Evaluate(0.25, 0.25), s.Evaluate(0.75, 0.25)));
""", "a surface whose u and v axes have to be exchanged and whose directions point in opposite senses", "the direction flags stay with the old axes after the exchange, so the wrong parameter direction is reversed")

seed("c22-getu-stride", "C22", [(GR, """                result[i] = Values[i * UCount + index_u];
            }
            return result;
        }

        [[nodiscard]] std::vector<T> GetV""", """                result[i] = Values[i * std::max(UCount, VCount) + index_u];
            }
            return result;
        }

        [[nodiscard]] std::vector<T> GetV""")], """
    Grid<double> g(2, 4);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 4; ++j) g.Get(i, j) = 10 * i + j;
    auto r = g.GetU(1);
    for (int j = 0; j < 4; ++j) EXPECT(r[j] == 10 + j);
    Grid<double> h(4, 2);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 2; ++j) h.Get(i, j) = 10 * i + j;
    auto q = h.GetU(2);
    for (int j = 0; j < 2; ++j) EXPECT(q[j] == 20 + j);
""", "a grid with more cells in the v direction than in the u direction", "the line at a fixed u index is read with the wrong stride and beyond the stored values", flags="-fsanitize=address")

seed("c25-text-digits", "C25", [(CU, "std::setprecision(std::numeric_limits<double>::digits10 + 2)", "std::setprecision(std::numeric_limits<double>::digits10)")], """
    auto c = curve(1, {0, 0, 1.0 / 3, 1, 1}, {Vec4(0.1234567890123456, 2.0 / 3, -1.0 / 7, 1), Vec4(1, 2, 3, 1.0 / 9), Vec4(4, 5, 6, 1)});
    std::stringstream ss; c.SaveToFile(ss, false);
    Curve d; d.LoadFromFile(ss);
    EXPECT(std::abs(d.Knots.Values()[2] - 1.0 / 3) <= 1e-16);
    EXPECT(std::abs(d.ControlPoints[0].y() - 2.0 / 3) <= 2e-16);
    EXPECT(std::abs(d.ControlPoints[1].w() - 1.0 / 9) <= 1e-16);
""", "values with more than 15 significant decimals in a text file", "text files keep two digits fewer, so loading does not restore the saved values")

seed("c26-partial-point", "C26", [(SE, """        is.read(reinterpret_cast<char*>(vec.data()), sizeof(Numeric) * 4);
        if (is.fail())""", """        is.read(reinterpret_cast<char*>(vec.data()), sizeof(Numeric) * 4);
        if (is.gcount() == 0)""")], """
    auto c = curve(1, {0, 0, 1, 1}, {Vec4(1, 2, 3, 1), Vec4(4, 5, 6, 1)});
    std::stringstream ss; c.SaveToFile(ss, true);
    std::string all = ss.str();
    for (size_t n = 0; n < all.size(); ++n)
    {
        std::stringstream cut(all.substr(0, n)); Curve d; bool thrown = false;
        try { d.LoadFromFile(cut); } catch (const std::exception&) { thrown = true; }
        EXPECT(thrown);
    }
""", "a binary file cut in the middle of its last control point", "a truncated file is accepted and the last control point holds leftover values")

seed("c27-shrinking-load", "C27", [(CU, "ControlPoints.resize(cp_count);", "if ((int)ControlPoints.size() < cp_count) ControlPoints.resize(cp_count);")], """
    auto big = curve(1, {0, 0, 0.5, 1, 1}, {Vec4(1, 2, 3, 1), Vec4(4, 5, 6, 1), Vec4(7, 8, 9, 1)});
    auto small = curve(1, {0, 0, 1, 1}, {Vec4(0, 0, 0, 1), Vec4(1, 0, 0, 1)});
    std::stringstream ss; small.SaveToFile(ss, true);
    big.LoadFromFile(ss);
    EXPECT(big.ControlPoints.size() == 2);
""", "loading a binary file into an object that already holds more control points than the file", "control points of the previous contents remain behind the loaded ones")

seed("c31-text-full", "C31", [(SU, """                os << cp.x() << " " << cp.y() << " " << cp.z() << " " << cp.w() << "\\n";
            }
        }
    }

    if (os.fail())
    {
        throw std::runtime_error("Failed to write data to stream.");
    }""", """                os << cp.x() << " " << cp.y() << " " << cp.z() << " " << cp.w() << "\\n";
            }
            if (os.fail() && v + 1 < ControlPoints.VCount)
            {
                throw std::runtime_error("Failed to write data to stream.");
            }
        }
    }""")], """
    auto s = surface(1, 1, {0, 0, 1, 1}, {0, 0, 1, 1});
    std::stringstream ref; s.SaveToFile(ref, false);
    size_t total = ref.str().size();
    for (size_t limit = 0; limit < total; ++limit)
    {
        Limited buf; buf.left = limit; std::ostream os(&buf); bool thrown = false;
        try { s.SaveToFile(os, false); } catch (const std::exception&) { thrown = true; }
        EXPECT(thrown);
    }
""", "a destination that fills up while the last row of control points is written in text mode", "saving returns normally although the end of the file was lost", pre="#include <streambuf>\n#include <ostream>\nstruct Limited : std::streambuf { size_t left; int_type overflow(int_type c) override { if (!left) return traits_type::eof(); --left; return c; } std::streamsize xsputn(const char*, std::streamsize n) override { if ((size_t)n > left) { n = left; } left -= n; return n; } };\n")

seed("c11-partial-multiplicity", "C11", [(CU, "        if (mult >= Degree)\n            continue;", "        if (mult > 1)\n            continue;")], """
    auto c = curve(3, {0, 0, 0, 0, 0.25, 0.5, 0.5, 1, 1, 1, 1}, {Vec4(0, 0, 0, 1), Vec4(1, 2, 0, 2), Vec4(3, 1, 1, 1), Vec4(4, 0, 2, 0.5), Vec4(5, 3, 1, 1), Vec4(6, -1, 0, 1.5), Vec4(7, 0, 1, 1)});
    auto s = c.ExtractBezier();
    double k[] = {0, 0.25, 0.5, 1};
    EXPECT(s.size() == 3);
    for (int i = 0; i < 3 && i < (int)s.size(); ++i) for (int j = 0; j <= 8; ++j) EXPECT(near(s[i].Evaluate(j / 8.0), c.Evaluate(k[i] + (k[i + 1] - k[i]) * j / 8.0)));
""", "a curve of degree 3 or more with an interior knot of multiplicity between 2 and degree-1", "knots that are repeated but not to the full degree are not filled up, so the segments are cut in wrong places")

seed("c06-skip-division", "C06", [(CU, "    return result.head<3>() / result.w();\n}\n\n\nvector<Vec4> Curve::Homog", "    if (!IsRational())\n        return result.head<3>(); // no projection needed\n    return result.head<3>() / result.w();\n}\n\n\nvector<Vec4> Curve::Homog")], """
    auto c = curve(2, {0, 0, 0, 1, 1, 1}, {Vec4(1, 2, 3, 2), Vec4(2, 4, 1, 2), Vec4(3, 0, 1, 2)});
    EXPECT(near(c.Evaluate(0), Vec3(1, 2, 3)));
    EXPECT(near(c.Evaluate(0.5), Vec3(2, 2.5, 1.5)));
    auto d = curve(2, {0, 0, 0, 1, 1, 1}, {Vec4(1, 2, 3, 2), Vec4(2, 4, 1, 1), Vec4(3, 0, 1, 2)});
    EXPECT(near(d.Evaluate(1), Vec3(3, 0, 1)));
""", "a curve whose weights are all equal but not one", "the projection of the homogeneous point is skipped, so the returned point is scaled by the weight")

seed("c16-alpha-buffer", "C16", [(SU, "    vector<Numeric> alpha_list(result.DegreeV);", "    vector<Numeric> alpha_list(result.DegreeU);")], """
    auto s = surface(1, 3, {0, 0, 1, 1}, {0, 0, 0, 0, 0.5, 1, 1, 1, 1});
    auto d = s.InsertKnotV(0.25);
    for (int i = 0; i <= 8; ++i) for (int j = 0; j <= 8; ++j) EXPECT(near(s.Evaluate(i / 8.0, j / 8.0), d.Evaluate(i / 8.0, j / 8.0)));
""", "a surface whose degree in v is larger than in u", "inserting a knot in v writes behind the buffer of blending factors", flags="-fsanitize=address")

seed("c23-segment-steps", "C23", [("src/Geometry/GeomSegment.cpp", "curve.ControlPoints[i].head<3>() = LeftPoint + i * k;", "curve.ControlPoints[i].head<3>() = LeftPoint + std::min(i, 2 * Degree + 1) * k;")], """
    auto r = GeomSegment::Make(Vec3(0, 0, 0), Vec3(2, 4, 6));
    r.Degree = 1; r.ControlPointCount = 6;
    auto s = r.GetCurve();
    EXPECT(near(s.Evaluate(1), Vec3(2, 4, 6)));
    EXPECT(near(s.Evaluate(0.5), Vec3(1, 2, 3)));
    r.Degree = 2; r.ControlPointCount = 6;
    EXPECT(near(r.GetCurve().Evaluate(1), Vec3(2, 4, 6)));
""", "a segment with more than twice as many control points as its degree needs", "the end of the segment is not where it was asked for")

seed("c14-shared-basis", "C14", [(SU, """    VecX basis_v = BSplineBasis::Evaluate(DegreeV, KnotsV.Values(), index_span_v, v);
    assert(basis_u.size() == DegreeU + 1);""", """    VecX basis_v = (u == v && DegreeU == DegreeV && KnotsU.Values().size() == KnotsV.Values().size() && index_span_u == index_span_v)
                       ? basis_u
                       : BSplineBasis::Evaluate(DegreeV, KnotsV.Values(), index_span_v, v);
    assert(basis_u.size() == DegreeU + 1);""")], """
    auto s = surface(2, 2, {0, 0, 0, 0.5, 1, 1, 1}, {0, 0, 0, 0.75, 1, 1, 1});
    // points on the diagonal are the limit of points next to it
    for (int i = 1; i < 32; ++i) EXPECT(near(s.Evaluate(i / 32.0, i / 32.0), s.Evaluate(i / 32.0, i / 32.0 + 1e-7), 1e-4));
    for (int i = 1; i < 32; ++i) EXPECT(near(s.Evaluate(i / 32.0, i / 32.0), s.Evaluate(i / 32.0 + 1e-7, i / 32.0), 1e-4));
""", "equal degrees, u equal to v in the same span number, and knot vectors that differ", "the u basis is reused for v although the knot vectors differ")

seed("c28-box-contains", "C28", [(BX, "return Contains(box.Min) && Contains(box.Max);", "return Contains(box.Min) && Contains(box.Center());")], """
    BoundingBox a(Vec3(0, 0, 0), Vec3(4, 4, 4)), b(Vec3(1, 1, 1), Vec3(5, 2, 2));
    EXPECT(!a.Contains(b));
    EXPECT(a.Contains(BoundingBox(Vec3(1, 1, 1), Vec3(4, 2, 2))));
""", "a box that reaches over another box's upper bound by less than half its length", "containment of boxes is reported although part of the box lies outside")

seed("c07-high-order", "C07", [(CU, "        for (int i = 1; i <= k; i++)\n        {\n            Numeric Wders", "        for (int i = 1; i <= std::min(k, Degree - 1); i++)\n        {\n            Numeric Wders")], """
    auto c = curve(2, {0, 0, 0, 1, 1, 1}, {Vec4(0, 0, 0, 1), Vec4(1, 2, 0, 3), Vec4(3, 1, 1, 1)});
    double h = 1e-4, u = 0.4;
    auto a = c.EvaluateAll(u, 3);
    for (int k = 1; k <= 3; ++k) { Vec3 n = (c.EvaluateAll(u + h, 3)[k - 1] - c.EvaluateAll(u - h, 3)[k - 1]) / (2 * h); EXPECT(near(a[k], n, 1e-3)); }
""", "a rational curve and a derivative order of at least its degree", "the highest derivative of the weight function is left out of the quotient rule")

seed("c21-transform-affine", "C21", [(SU, "        point.head<3>() = R * point.head<3>();", "        point.head<3>() = R.transpose().inverse() * point.head<3>();")], """
    auto s = surface(1, 2, {0, 0, 1, 1}, {0, 0, 0, 1, 1, 1});
    Mat3x3 R; R << 2, 1, 0, 0, 1, 0, 0, 0, 3;
    auto t = s.Transform(R);
    EXPECT(near(t.Evaluate(0.3, 0.7), Vec3(R * s.Evaluate(0.3, 0.7))));
""", "a matrix that is not orthogonal (scaling or shear)", "the surface is transformed with the inverse transpose, which equals the matrix only for rotations")


seed("c01-basis-memo", "C01", [(BB, """        auto index_span = knot_vec.FindSpanIndex(degree, x);
        return BSplineBasis::Evaluate(degree, knots, index_span, x);""", """        auto index_span = knot_vec.FindSpanIndex(degree, x);
        // searches evaluate the same parameter again and again
        static thread_local int last_degree = -1, last_span = -1;
        static thread_local Numeric last_x = 0.0;
        static thread_local VecX last_result;
        if (last_degree != degree || last_span != index_span || last_x != x)
        {
            last_result = BSplineBasis::Evaluate(degree, knots, index_span, x);
            last_degree = degree;
            last_span = index_span;
            last_x = x;
        }
        return last_result;""")], """
    KnotVector a(std::vector<double>{0, 0, 0, 0.5, 1, 1, 1}), b(std::vector<double>{0, 0, 0, 0.25, 1, 1, 1});
    VecX x = BSplineBasis::Evaluate(2, a, 0.125);
    VecX y = BSplineBasis::Evaluate(2, b, 0.125);
    VecX z = BSplineBasis::Evaluate(2, b.Values(), b.FindSpanIndex(2, 0.125), 0.125);
    for (int i = 0; i <= 2; ++i) EXPECT(near(y[i], z[i]));
    EXPECT(near(x[0], 0.5625));
    EXPECT(near(y[0], 0.25));
""", "two calls in a row with equal degree, span number and parameter but different knots", "the second call gets the basis values of the first call's knot vector")

seed("c02-derivative-table", "C02", [(BB, "            a(0, 0) = 1.0;\n            for (int k = 1; k <= order; k++)", "            a(s1, 0) = r == 0 || order % 2 != 0 ? 1.0 : a(s1, 0);\n            for (int k = 1; k <= order; k++)")], """
    KnotVector a(std::vector<double>{0, 0, 0, 0, 0.25, 0.5, 1, 1, 1, 1});
    for (double u : {0.0, 0.125, 0.3, 0.6, 1.0})
    {
        auto all = BSplineBasis::EvaluateAll(3, a, u, 4);
        auto all3 = BSplineBasis::EvaluateAll(3, a, u, 3);
        for (int k = 0; k <= 3; ++k) for (int i = 0; i <= 3; ++i) EXPECT(near(all(k, i), all3(k, i), 1e-6));
        for (int i = 0; i <= 3; ++i) EXPECT(near(all(4, i), 0.0, 1e-6));
    }
""", "an even derivative order of at least two, and then only where the working row was overwritten", "the working row of the recursion is not reset for the later basis functions")

seed("c04-nearly-one", "C04", [(KV, "    if (last_value != 1.0) return false;", "    if (last_value < 1.0 || last_value > 1.0 + 1e-9) return false;")], """
    auto ok = [](std::vector<double> v) { try { KnotVector k(v); return true; } catch (const std::exception&) { return false; } };
    EXPECT(ok({0, 0, 1, 1}));
    EXPECT(!ok({0, 0, 1, std::nextafter(1.0, 2.0)}));
    EXPECT(!ok({0, 0, 1, 2}));
    EXPECT(!ok({0, 0, 0.5, std::nextafter(1.0, 0.0)}));
""", "a last knot above 1 by less than 1e-9", "a knot vector that ends above 1 is accepted")

seed("c04-uniform-tail", "C04", [(KV, "        if (interval == 0) interval = curr;\n        else if (!Approx(curr, interval) && curr != 0) return false;", "        if (interval == 0 || val == 1.0) interval = std::max(interval, curr);\n        else if (!Approx(curr, interval) && curr != 0) return false;")], """
    EXPECT(KnotVector(std::vector<double>{0, 0, 0.25, 0.5, 0.75, 1, 1}).IsUniform());
    EXPECT(!KnotVector(std::vector<double>{0, 0, 0.25, 0.5, 1, 1}).IsUniform());
    EXPECT(!KnotVector(std::vector<double>{0, 0, 0.5, 0.75, 1, 1}).IsUniform());
""", "a knot vector whose only irregular interval is the last one", "a non-uniform knot vector is reported as uniform")

seed("c12-box-split", "C12", [(CU, "                R[r] = b_view[p - r, r];", "                R[r] = b_view[std::min(p - r, 3), r];")], """
    std::vector<Vec4> P;
    for (int i = 0; i <= 5; ++i) P.push_back(Vec4(i, i == 2 ? 100 : 0, i * i * 0.25, 1));
    auto c = curve(5, {0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1}, P);
    auto b = c.GetBoundingBox(1e-3);
    Vec3 lo = c.Evaluate(0), hi = lo;
    for (int i = 0; i <= 4096; ++i)
    {
        Vec3 x = c.Evaluate(i / 4096.0);
        lo = lo.cwiseMin(x); hi = hi.cwiseMax(x);
        for (int d = 0; d < 3; ++d) EXPECT(x[d] >= b.Min[d] - 1e-3 && x[d] <= b.Max[d] + 1e-3);
    }
    for (int d = 0; d < 3; ++d) EXPECT(b.Min[d] >= lo[d] - 1e-3 && b.Max[d] <= hi[d] + 1e-3);
""", "a curve of degree four or more that is subdivided", "the right half of a subdivided segment starts at the wrong point")

seed("c13-search-clamp", "C13", [(CU, "        Numeric u_final = u_last - alpha * Hk * gk;\n        return std::clamp(u_final, Numeric(0), Numeric(1));", "        Numeric u_final = u_last - alpha * Hk * gk;\n        return std::clamp(u_final, Numeric(0), std::max(Numeric(1), u_final - 0.5));")], """
    // none of the trial steps improves the residual enough, and the last one is long
    for (int i = 0; i < 2000; ++i)
    {
        double f = (i % 50) - 25, g = (i / 50) * 3 - 60;
        auto c = curve(2, {0, 0, 0, 1, 1, 1}, {Vec4(0, 0, 0, 1), Vec4(f, g, 0, 1), Vec4(20, 30, 0, 1)});
        double u = c.SearchParameter(Vec3(5, 5, 0), 0.5, 1e-8, 12);
        EXPECT(u >= 0 && u <= 1);
        if (fails) break;
    }
""", "a line search that fails all twenty trials and whose last step reaches beyond 1.5", "the search continues with, and may return, a parameter above 1")

seed("c18-bezier-coefficients", "C18", [(DA, """        std::vector bezalfs(degree + times + 1, std::vector<Numeric>(degree + 1));
        bezalfs[0][0]""", """        // the coefficients are the same for every row and column of a surface
        static thread_local std::vector<std::vector<Numeric>> bezalfs;
        const bool cached = (int)bezalfs.size() == ph + 1 && (int)bezalfs[0].size() >= degree + 1;
        if (!cached) bezalfs.assign(ph + 1, std::vector<Numeric>(degree + 1));
        bezalfs[0][0]"""), (DA, "        for (int i = 1; i <= ph2; i++)\n        {\n            double inv", "        for (int i = 1; i <= ph2 && !cached; i++)\n        {\n            double inv"), (DA, "        for (int i = ph2 + 1; i <= ph - 1; i++)\n        {\n            int mpi", "        for (int i = ph2 + 1; i <= ph - 1 && !cached; i++)\n        {\n            int mpi")], """
    auto s = surface(3, 2, {0, 0, 0, 0, 0.5, 1, 1, 1, 1}, {0, 0, 0, 1, 1, 1});
    auto t = s.ElevateDegreeU(1).ElevateDegreeV(2);
    for (int i = 0; i <= 8; ++i) for (int j = 0; j <= 8; ++j) EXPECT(near(s.Evaluate(i / 8.0, j / 8.0), t.Evaluate(i / 8.0, j / 8.0)));
    auto r = s.ElevateDegreeV(2);
    for (int i = 0; i <= 8; ++i) for (int j = 0; j <= 8; ++j) EXPECT(near(s.Evaluate(i / 8.0, j / 8.0), r.Evaluate(i / 8.0, j / 8.0)));
""", "two elevations to the same degree from different degrees, the lower one second", "the coefficients of the first elevation are reused for the second")

seed("c19-fixed-coordinate", "C19", [(SU, """    Numeric final_val = (low + high) / 2.0;
    return direction == 0
               ? std::make_pair(constant, final_val)
               : std::make_pair(final_val, constant);""", """    Numeric final_val = (low + high) / 2.0;
    return direction == 0 || mid_residual < epsilon
               ? std::make_pair(constant, final_val)
               : std::make_pair(final_val, constant);""")], """
    auto s = surface(1, 1, {0, 0, 1, 1}, {0, 0, 1, 1});
    for (auto& p : s.ControlPoints.Values) p.w() = 1;
    s.ControlPoints.Get(0, 0) = Vec4(0, 0, 0, 1); s.ControlPoints.Get(1, 0) = Vec4(0.5, 0, 0, 1); s.ControlPoints.Get(0, 1) = Vec4(0, 0.5, 0, 1); s.ControlPoints.Get(1, 1) = Vec4(0.5, 0.5, 0, 1);
    for (int n = 1; n <= 20; ++n) for (int d = 0; d <= 1; ++d) for (double x : {0.1, 0.37, 0.49, 0.8})
    {
        Vec3 q = d == 0 ? s.Evaluate(0.25, x) : s.Evaluate(x, 0.25);
        auto [u, v] = s.BinarySearchParameterOn(q, d, 0.25, 0.01, n);
        EXPECT((d == 0 ? u : v) == 0.25);
    }
""", "a bisection along u that runs out of iterations while the last residual is already below epsilon", "the fixed coordinate and the found one are exchanged")

seed("c24-subnormal", "C24", [(SE, "        os.write(reinterpret_cast<const char*>(vec.data()), sizeof(Numeric) * 4);", "        const Vec4 stored = (vec.array().abs() < std::numeric_limits<Numeric>::min()).select(0.0, vec);\n        os.write(reinterpret_cast<const char*>(stored.data()), sizeof(Numeric) * 4);")], """
    auto c = curve(1, {0, 0, 1, 1}, {Vec4(1e-310, -0.0, 3, 1), Vec4(1, 2, 0.0, 1)});
    std::stringstream ss;
    c.SaveToFile(ss, true);
    Curve d; d.LoadFromFile(ss);
    for (int i = 0; i < 2; ++i) for (int k = 0; k < 4; ++k) EXPECT(d.ControlPoints[i][k] == c.ControlPoints[i][k] && std::signbit(d.ControlPoints[i][k]) == std::signbit(c.ControlPoints[i][k]));
""", "a coordinate that is subnormal or minus zero", "the coordinate is written as plus zero")

seed("c29-binomial-order", "C29", [(MU, "        for (int i = 1; i <= k; i++)\n        {\n            result *= (n - i + 1);\n            result /= i;\n        }", "        for (int i = 1; i <= k; i++)\n        {\n            const int factor = n - i + 1;\n            if (factor % i == 0) result *= factor / i;\n            else if (result % i == 0) result = result / i * factor;\n            else result = result / i * factor + result % i * (factor / i);\n        }")], """
    for (int n = 0; n <= 20; ++n)
    {
        long row[22] = {1};
        for (int i = 1; i <= n; ++i) for (int j = i; j >= 1; --j) row[j] += row[j - 1];
        for (int k = 0; k <= n; ++k) EXPECT(Binomial(n, k) == row[k]);
    }
""", "an n and k where neither the factor nor the partial result is divisible by the index", "the division rounds down and the coefficient is too small")

seed("c30-repeated-knot", "C30", [(KR, "        int j = (2 * r - s - degree) / 2, i = j;", "        int j = (2 * r - std::min(s, std::max(2, degree - 2)) - degree) / 2, i = j;")], """
    auto c = curve(4, {0, 0, 0, 0, 0, 0.5, 0.5, 1, 1, 1, 1, 1}, {Vec4(0, 0, 0, 1), Vec4(1, 2, 0, 2), Vec4(3, 1, 1, 1), Vec4(4, 0, 2, 0.5), Vec4(5, 1, 1, 1), Vec4(6, -1, 0, 2), Vec4(7, 2, 1, 1)});
    for (int n = 1; n <= 2; ++n)
    {
        auto d = c.InsertKnot(0.5, n);
        auto [e, t] = d.RemoveKnot(0.5, n, 1e-6);
        EXPECT(t == n);
        for (int i = 0; i <= 16; ++i) EXPECT(near(c.Evaluate(i / 16.0), e.Evaluate(i / 16.0)));
    }
    auto f = c.InsertKnot(0.25, 2);
    auto [g, v] = f.RemoveKnot(0.25, 2, 1e-6);
    for (int i = 0; i <= 16; ++i) EXPECT(near(c.Evaluate(i / 16.0), g.Evaluate(i / 16.0)));
""", "a knot inserted up to full multiplicity and removed again", "the wrong control point is dropped")
