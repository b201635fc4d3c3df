# writes /verif/properties.jsonl
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
KV="src/Core/KnotVector.cpp"; BB="src/Basis/BSplineBasis.cpp"; CU="src/Curve/Curve.cpp"; SU="src/Surface/Surface.cpp"; KR="src/Algorithm/KnotRemoval.cpp"; DA="src/Algorithm/DegreeAlgo.cpp"; SE="src/Utils/Serialization.cpp"; GR="include/libnurbs/Core/Grid.hpp"; BX="include/libnurbs/Core/BoundingBox.hpp"; MU="include/libnurbs/Algorithm/MathUtils.hpp"; TD="include/libnurbs/Core/Typedefs.hpp"
prop("C01","Basis functions are the B-spline basis: Cox-de Boor, non-negative, sum to 1",
 "For every degree, every clamped knot vector on [0,1] and every parameter in [0,1], the degree+1 basis values returned for the parameter are exactly the non-zero B-spline basis functions defined by the Cox-de Boor recursion on the knot span containing the parameter (the last span is closed on the right). They are non-negative and sum to one.",
 ["inputs"],"all degrees, knot values and multiplicities, parameters including knots and both ends","unit tests compare a few degrees on one or two fixed knot vectors at a handful of parameters",
 [BB,KV],[("triangular table for basis values","BSplineBasis::Evaluate")],["BSplineBasis::Evaluate (both overloads)","BSplineBasis::EvaluateAll row 0"])
prop("C02","Basis derivatives of every order are the derivatives of the basis functions",
 "For every degree, clamped knot vector, parameter in [0,1] and order k >= 0, the k-th row of the returned derivative table is the k-th derivative (from the right, at the right end from the left) of the non-zero basis functions, identically zero for k above the degree. Requesting one order alone gives the same row as requesting all orders.",
 ["inputs"],"all degrees, knots, multiplicities, parameters and orders","tests check first and second derivatives for one fixed knot vector",
 [BB],[("derivative table from basis differences","BSplineBasis::EvaluateAll")],["BSplineBasis::EvaluateAll","BSplineBasis::EvaluateDerivative"])
prop("C03","Span lookup returns the knot span that contains the parameter",
 "For every valid clamped knot vector and every parameter in [0,1] the span lookup returns the index i with knot[i] <= u < knot[i+1] (for u equal to the last knot, the last non-empty span), for repeated knots the span to the right of the whole group. The span query by value returns the neighbouring distinct knots left and right of u with their multiplicities and the ordinal of that span.",
 ["inputs"],"every double parameter and knot values, bit-precisely, any multiplicities","tests look up fewer than twenty parameters in three knot vectors",
 [KV],[("upper_bound search with end-point special cases","KnotVector::FindSpanIndex"),("scan of distinct knots","KnotVector::FindSpan")],["KnotVector::FindSpanIndex","KnotVector::FindSpan"])
prop("C04","Knot vectors are validated on construction and described correctly by queries",
 "Constructing a knot vector from values or from (value, multiplicity) pairs succeeds exactly when the sequence is non-empty, non-decreasing, starts at a value >= 0 and ends at exactly 1 (values that are not numbers are rejected), and then stores exactly the given sequence; the uniform generator yields a clamped vector of the requested length with equally spaced interior knots. The queries agree with the stored sequence: the list of distinct knots gives each value, its first position and its multiplicity, multiplicity counts equal knots, and the valid / clamped / uniform / degree queries report exactly those facts.",
 ["inputs"],"all sequences of doubles (including NaN and infinities) up to the length bound, all pair lists, all degrees and counts","tests construct about five vectors and query three",
 [KV,"include/libnurbs/Core/KnotVector.hpp"],[("ValidateKnots","KnotVector constructors"),("run-length scan","KnotVector::GetKnotPairs")],["KnotVector constructors, Uniform, GetKnotPairs, GetMultiplicity, IsValid, IsClamped, IsUniform, DetectDegree"])
prop("C05","Editing a knot vector keeps it sorted and keeps every other knot",
 "Inserting a value in (0,1) any number of times into a valid knot vector yields the sorted merge of the old knots and the inserted copies, all other knots unchanged in order, and returns the index of the span of the original vector that contains the value. Reversing maps every knot t to 1-t in reverse order, so the result is again valid and reversing twice gives the original vector.",
 ["inputs","histories"],"all knot vectors, values (equal to existing knots or not) and repeat counts, and sequences of edits","tests insert into one vector and never reverse an asymmetric one with repeated knots",
 [KV],[("upper_bound + insert","KnotVector::InsertKnot"),("reverse and complement","KnotVector::Reverse")],["KnotVector::InsertKnot","KnotVector::Reverse"])
prop("C06","Curve evaluation returns the point of the rational B-spline curve",
 "For every degree, clamped knot vector, control points, positive weights and parameter u in [0,1], evaluating a curve returns sum(N_i(u) w_i P_i) / sum(N_i(u) w_i). In particular the curve starts at the first and ends at the last control point, and evaluation leaves the curve unchanged.",
 ["inputs"],"all degrees, knots, control points, weights and parameters","curve tests are not built by the pinned test configuration for evaluation paths, and would sample single curves",
 [CU,BB,KV,TD],[("weighted sum in homogeneous coordinates","Curve::Evaluate")],["Curve::Evaluate"])
prop("C07","Curve derivatives of every order are the derivatives of the rational curve",
 "For every curve with positive weights, parameter in [0,1] and order k >= 0, the returned list holds for each j <= k the j-th derivative of the curve point (one-sided at knots: from the right, at the end from the left), including orders above the degree. The single-order query returns the same vector as the last entry of the full list.",
 ["inputs"],"all curves, weights, parameters and orders","sampled first derivatives only",
 [CU,BB,MU],[("quotient-rule recursion with binomials","Curve::EvaluateAll")],["Curve::EvaluateAll","Curve::EvaluateDerivative"])
prop("C08","Inserting knots into a curve does not change the curve",
 "Inserting one knot value, one value several times, or a list of values (in any order, with repetitions, resulting multiplicities at most the degree) into a curve returns a curve that has the same degree, the same point at every parameter, positive weights, and a knot vector that is exactly the old one merged with the inserted values, with one more control point per inserted knot. The original curve is unchanged and the ways of inserting the same knots give the same curve.",
 ["inputs","histories"],"all curves, inserted values (new or existing knots), repeat counts and list orders","one or two fixed insertions are compared at sampled parameters",
 [CU,KV],[("Boehm's algorithm in homogeneous coordinates","Curve::InsertKnot")],["Curve::InsertKnot (three overloads)"])
prop("C09","Removing knots from a curve removes exactly what it reports and keeps the curve",
 "Knot removal returns a number t between 0 and the requested number (and at most the knot's multiplicity): the result is the curve with exactly t copies of that knot and t control points fewer, and it describes the same curve up to the given tolerance per removed copy; with t = 0 the result equals the original curve. If the knot can be removed exactly, as after inserting it, the requested number of copies is removed and the result has the same points as the original.",
 ["inputs","histories"],"all curves, knots (present or not), requested counts, multiplicities and tolerances","tests remove one knot from one curve",
 [CU,KR],[("backward/forward elimination with tolerance test","KnotRemoval")],["Curve::RemoveKnot"])
prop("C10","Degree elevation does not change the curve",
 "Elevating a curve's degree by t >= 1 returns a curve of degree p+t that has the same point at every parameter, positive weights, and in whose knot vector every distinct knot has multiplicity increased by exactly t, with the matching number of control points. The original curve is unchanged.",
 ["inputs"],"all degrees, knot vectors with any multiplicities, control points, weights and elevation counts","tests elevate one curve once or twice",
 [CU,DA],[("Bezier-wise elevation with knot removal","NurbsDegreeElevation")],["Curve::ElevateDegree"])
prop("C11","Bezier extraction yields the curve's segments in order",
 "Extracting Bezier segments from a curve returns one segment per non-empty knot span, in order, each of the curve's degree on the Bezier knot vector, and segment k at s equals the curve at a+s(b-a) for the k-th span [a,b]. The original curve is unchanged.",
 ["inputs"],"all curves, multiplicities up to the degree, weights, parameters","no existing test checks segments against the curve on all spans",
 [CU],[("insert knots up to multiplicity p, cut control polygon","Curve::ExtractBezier")],["Curve::ExtractBezier"])
prop("C12","The bounding box of a curve encloses it tightly",
 "For every curve with positive weights and every epsilon > 0, every point of the curve lies in the returned box enlarged by the larger of epsilon and 1e-6 on every side, and the box is no larger than the smallest axis-parallel box around the curve's points.",
 ["inputs"],"all curves (rational or not), all parameters and epsilon","one curve is boxed in the tests, with the default epsilon",
 [CU,BX],[("recursive subdivision of Bezier segments","Curve::GetBoundingBox")],["Curve::GetBoundingBox"])
prop("C13","Curve parameter searches stay in [0,1] and find points of straight segments",
 "For every curve, query point, start value in [0,1], epsilon and iteration limit both searches return a parameter in [0,1] and change nothing; on any curve the search started at the query point's own parameter returns it. On a uniformly parametrised straight segment a query point on the segment is found: the search started anywhere returns its parameter within the precision its residual test demands, and the bisection search returns it within epsilon or the last bisection width.",
 ["inputs"],"all curves, points, start values, epsilons and iteration counts up to the bound","a few points of one curve are searched with default settings",
 [CU],[("quasi-Newton iteration with clamped line search","Curve::SearchParameter"),("bisection on residuals","Curve::BinarySearchParameter")],["Curve::SearchParameter","Curve::BinarySearchParameter"])
prop("C14","Surface evaluation returns the point of the rational tensor-product surface",
 "For all degrees, clamped knot vectors, control point grids, positive weights and (u,v) in [0,1]^2, evaluating a surface returns sum(N_i(u) M_j(v) w_ij P_ij) / sum(N_i(u) M_j(v) w_ij), with i running over the u direction and j over the v direction of the grid. The four corner control points are interpolated.",
 ["inputs"],"all degree pairs, knots, grids, weights and parameters","a few square surfaces are sampled",
 [SU,BB,KV,GR],[("nested weighted sums","Surface::Evaluate")],["Surface::Evaluate"])
prop("C15","Surface partial derivatives are the derivatives of the rational surface",
 "For every surface with positive weights, (u,v) in [0,1]^2 and orders k,l >= 0, the returned grid holds at (i,j) the mixed partial derivative of order i in u and j in v of the surface point (one-sided at knots), for all i <= k and j <= l, including orders above the degrees. The single-order query returns the same vector as the corresponding grid entry.",
 ["inputs"],"all surfaces, weights, parameters and order pairs","sampled low orders on polynomial surfaces",
 [SU,BB,MU],[("two-variable quotient rule","Surface::EvaluateAll")],["Surface::EvaluateAll","Surface::EvaluateDerivative"])
prop("C16","Inserting knots into a surface does not change the surface",
 "Inserting a knot value, a value several times or a list of values in the u or the v direction (resulting multiplicities at most the degree) returns a surface with the same point at every (u,v), the other direction's knots and degree untouched, that direction's knots exactly merged with the inserted values, and one more row or column of control points per inserted knot. The original surface is unchanged.",
 ["inputs","histories"],"all surfaces (also non-square), directions, values, counts and lists","one insertion per direction is sampled",
 [SU,KV,GR],[("Boehm's algorithm per row/column","Surface::InsertKnotU / InsertKnotV")],["Surface::InsertKnotU/V"])
prop("C17","Removing knots from a surface removes exactly what it reports and keeps it",
 "Surface knot removal in either direction returns t between 0 and the requested number: with t > 0 the result has exactly t copies of the knot and t rows or columns of control points fewer, the other direction is untouched, and it is the same surface up to the tolerance per removed copy; with t = 0 the result equals the original. A knot that was just inserted can be removed again, giving the original surface.",
 ["inputs","histories"],"all surfaces (also non-square), directions, knots, counts and tolerances","one removal per direction is sampled",
 [SU,KR,GR],[("per-row removal with agreement test","Surface::RemoveKnotU / RemoveKnotV")],["Surface::RemoveKnotU/V"])
prop("C18","Degree elevation in u or v does not change the surface",
 "Elevating a surface's degree in one direction by t >= 1 returns a surface with the same point at every (u,v), that direction's degree and every knot multiplicity increased by exactly t with the matching grid size, and the other direction untouched. The original surface is unchanged.",
 ["inputs"],"all surfaces, multi-span and non-square, directions and elevation counts","tests elevate single-span surfaces",
 [SU,DA,GR],[("per-row elevation","Surface::ElevateDegreeU / ElevateDegreeV")],["Surface::ElevateDegreeU/V"])
prop("C19","Surface parameter searches stay in the domain and hold the fixed coordinate",
 "For every surface, query point, start values in [0,1], epsilon and iteration limit the surface searches return parameters in [0,1]; the searches along an isoparametric line return the given constant in the given direction's place unchanged, and a non-bisection search started at the query point's own parameters returns them. On a straight, uniformly parametrised isoparametric line a query point on the line is found within the precision the stopping test demands (for bisection within epsilon or the last bisection width).",
 ["inputs"],"all surfaces, points, directions, constants, start values and iteration counts up to the bound","a few points on one surface are searched",
 [SU],[("BFGS with clamped line search","Surface::SearchParameter"),("one-dimensional search","Surface::SearchParameterOn"),("bisection","Surface::BinarySearchParameterOn")],["Surface::SearchParameter","Surface::SearchParameterOn","Surface::BinarySearchParameterOn"])
prop("C20","Aligning the parameter domain only swaps or reverses parameters",
 "Aligning a surface to two axes returns the same point set: the result at (u,v) equals the original at the parameters after one fixed exchange of u and v and/or replacement of u by 1-u or v by 1-v. When the grid edges of a planar patch run along the two requested coordinate axes, the result's u direction points along the positive first axis and its v direction along the positive second axis. The original surface is unchanged.",
 ["inputs"],"all surfaces incl. non-square grids, different degrees and asymmetric knots, all axis choices","tests use one symmetric patch",
 [SU,KV],[("corner analysis, transpose and reversal of grid and knots","Surface::AlignParameterDomain")],["Surface::AlignParameterDomain"])
prop("C21","Linear transforms and rationality queries act on the geometry exactly",
 "Transforming a curve or surface by a 3x3 matrix R returns an object whose point at every parameter is R times the original point, with weights, knots and degrees unchanged, and leaves the original unchanged. The rationality query is true exactly when some two weights differ.",
 ["inputs"],"all matrices (including singular), control points, weights and parameters","no test transforms a rational object at all parameters",
 [CU,SU],[("per-point matrix product","Curve::Transform / Surface::Transform"),("weight comparison","IsRational")],["Transform","IsRational"])
prop("C22","Grid rows, columns and insertions address the right cells",
 "For every grid size, reading or writing a single cell, a full row or a full column touches exactly the addressed cells, reading back gives what was written, and no cell outside is changed. Inserting a row or column at an index puts the given value in the new cells and keeps every other cell's value at its shifted position.",
 ["inputs","histories"],"all grid shapes up to the bound, all indices, all cell values, sequences of insertions","tests use one or two square grids",
 [GR],[("index arithmetic","Grid")],["Grid Get/GetU/GetV/SetU/SetV/InsertU/InsertV/Count"])
prop("C23","Segment and rectangle builders produce the affine shapes",
 "A segment builder with any degree >= 1 and control point count > degree yields a curve of that degree and count, with unit weights and a valid uniform knot vector, that runs from the left to the right point and stays on the segment between them; with count = degree+1 it is the affine parametrisation. A rectangle builder yields likewise a surface whose corners are the given parallelogram's corners in the right parametric places and which is the affine map when both counts are degree+1.",
 ["inputs"],"all degrees, control point counts, end points and parameters","the segment builder is untested in the pinned configuration, the rectangle is sampled",
 ["src/Geometry/GeomSegment.cpp","src/Geometry/GeomRect.cpp",KV],[("even spacing of control points","GetCurve / GetSurface")],["GeomSegment::GetCurve","GeomRect::GetSurface"])
prop("C24","Binary save and load is a lossless round trip",
 "Saving any curve or surface in binary form and loading it into any object yields exactly the saved degrees, knots, grid dimensions and control points, bit for bit, whatever the object held before. The same holds through a named file and for several objects written one after the other to one stream.",
 ["inputs","histories"],"all degrees, counts up to the bound, all values, previous contents","one object per type is round-tripped",
 [CU,SU,SE],[("raw reads and writes","Serialization helpers, SaveToFile / LoadFromFile")],["SaveToFile","LoadFromFile"])
prop("C25","Text save and load preserves the object",
 "Saving any curve or surface in text form and loading it yields the same degrees, counts, order of knots and control points; every finite number that is zero or has magnitude at least 0.1 is recovered exactly and every smaller one within 1e-17. Saving does not change the object, and the same holds through a named file.",
 ["inputs"],"all values and counts up to the bound","one object with short decimal values is round-tripped",
 [CU,SU,SE],[("fixed notation with 17 digits, line parser","SaveToFile / LoadFromFile")],["SaveToFile","LoadFromFile"])
prop("C26","Malformed or truncated input is rejected with an exception",
 "Loading from a stream that is not a saved object of the expected type - wrong magic word, mode or type, a binary file cut at any byte, negative or overflowing counts, a text file with an unknown key, content before the first key, a degree with no or with more than one value line, a control point with fewer than four numbers, a surface point count that differs from the grid dimensions, or text where a number is expected - throws an exception derived from the standard exception class. It never crashes, reads outside its buffers, or returns an object with control points or knots that were not in the file.",
 ["inputs","crash_points"],"every truncation point of binary files, arbitrary header bytes and counts, and the listed text defects","tests feed only well-formed files",
 [CU,SU,SE],[("stream state and count checks","LoadFromFile")],["LoadFromFile"])
prop("C27","Loading replaces the object's previous contents",
 "Loading a curve or surface, in either format, into an object that already holds data gives the same result as loading into a fresh object; nothing of the previous contents remains.",
 ["inputs","histories"],"all previous contents and all loaded objects up to the bound, both formats, repeated loads","tests load only into fresh objects",
 [CU,SU,SE],[("assignment of parsed values","LoadFromFile")],["LoadFromFile"])
prop("C28","Bounding boxes grow, contain and measure correctly",
 "A box built from two points is the smallest box containing both, in whatever order they are given; extending it by a point or box gives the smallest box containing the old box and the addition. Containment is true exactly for points (boxes) with every coordinate between the bounds, and centre, edge lengths and volume follow from the bounds.",
 ["inputs","histories"],"all boxes, points and sequences of extensions","no existing test covers the box class",
 [BX],[("component-wise min/max","BoundingBox")],["BoundingBox"])
prop("C29","Numeric helpers compute what their names say",
 "The binomial helper returns n choose k for all 0 <= n <= 20 (0 for k > n), the factorial helper n! for 0 <= n <= 9, the approximate comparison is true exactly when the (largest component) difference is below epsilon. Conversion to homogeneous coordinates multiplies the position by the weight and keeps the weight, and converting back restores the point for every non-zero weight.",
 ["inputs"],"all arguments in the stated ranges","a few values are tested",
 [MU,TD],[("closed forms","MathUtils.hpp, Typedefs.hpp")],["Binomial","Factorial","Approx","ToHomo","FromHomo"])
prop("C30","Chains of shape-preserving operations keep the shape",
 "Any sequence of knot insertions, removals of knots just inserted, degree elevations and save/load round trips applied to a curve or surface leaves the point at every parameter unchanged, keeps the knot vector valid and keeps the number of knots equal to control points plus degree plus one. No operation of such a sequence changes its receiver.",
 ["inputs","histories"],"all short sequences of operations on all curves and surfaces up to the bound","tests apply single operations",
 [CU,SU,KR,DA,KV,SE],[("each operation's invariants","Curve / Surface operations")],["Curve and Surface operations in sequence"])
prop("C31","A save that returns normally has delivered the complete object",
 "Saving a curve or surface, in either format, to a destination that stops accepting data at any point throws an exception instead of returning normally; this includes a named file that cannot be created and a file system that is full. When saving returns normally, everything needed to load the object back has reached the destination.",
 ["fault_sequences","inputs"],"every byte at which the destination stops accepting data, both formats, streams and named files","tests never write to a failing destination",
 [CU,SU,SE],[("stream state checks after writing","SaveToFile")],["SaveToFile"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
