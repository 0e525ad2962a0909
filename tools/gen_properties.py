import json
P=[]
def add(id,title,st,over,qt,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
M="matslise/"
SB=M+"util/sectorbuilder.cpp"; MS=M+"matslise/matslise.cpp"; SE=M+"matslise/sector.cpp"; MH=M+"matslise.h"
HF=M+"matslise/halfrange.cpp"; PE=M+"matslise/periodic.cpp"; LI=M+"liouville/liouville.cpp"; SL=M+"liouville/sturm_liouville.cpp"
MC=M+"matscs/matscs.cpp"; MCS=M+"matscs/sector.cpp"
add("C01","A generated mesh tiles the domain exactly",
 "For every domain, sector count, tolerance and potential, the mesh built by the uniform or the automatic strategy consists of sectors of strictly positive width, sorted from left to right, the first starting exactly at the lower end of the domain, the last ending exactly at the upper end, and each starting exactly where the previous one ends. A uniform mesh has exactly the requested number of sectors.",
 ["inputs"],"all domains, all sector counts/tolerances, every outcome of the local error estimates and of the comparison between sectors",
 "Tests build a handful of meshes for smooth potentials; which way the mesh grows and when a step is refused depends on error estimates and comparisons that tests hit only for those potentials, and gaps at the join are masked by tolerances.",
 [SB,SB.replace(".cpp",".h"),MH],[("UniformSectorBuilder::operator()",SB),("AutomaticSectorBuilder::operator() / automaticNextSector",SB)],
 [("sectors","the mesh of a problem",MH)],["Matslise::sectors"])
add("C02","Declared jumps of the potential always fall on sector boundaries",
 "When discontinuities strictly inside the domain are declared, in increasing order, to the automatic mesh strategy, every declared point is an end point of a sector of the resulting mesh, so that no sector has a declared jump in its interior. The mesh construction ends for every such list and still covers the domain.",
 ["inputs"],"all increasing lists of jumps inside the domain, wherever they lie relative to the internal starting point, and every outcome of the error estimates",
 "No C++ test passes a jump list at all, and which of the two growing fronts meets a jump depends on potential and domain.",
 [SB],[("jump iterators of AutomaticSectorBuilder",SB)],None,["Matslise::sectors"])
add("C03","Mesh orientation and matching point are consistent",
 "In every built mesh the matching index designates an existing sector; all sectors up to and including it are oriented forward and all later ones backward. When there are at least two sectors the matching point lies strictly inside the domain, and each construction step extends the mesh on the side whose potential is the higher one, so that the two fronts meet in the potential's valley.",
 ["inputs"],"all domains, sector counts and every outcome of the comparisons and error estimates",
 "Tests only look at resulting eigenvalues, which remain nearly right for a badly placed matching point on the sampled potentials.",
 [SB,MH],[("matchIndex computation",SB),("Sector::compare",MH)],[("matchIndex","sector left of the matching point",MH)],["Matslise::matchIndex","Sector::direction"])
add("C04","The automatic mesh honours the requested tolerance",
 "Every sector of an automatically built mesh either has an error estimate not exceeding the requested tolerance, or was accepted only because the step had already been reduced ten times or was not larger than 1e-3. A sector is never enlarged past the gap still to be covered, and an enlargement that fails the tolerance is rolled back to the previous, accepted sector.",
 ["inputs"],"all tolerances, all domains, all sequences of error estimates (including zero estimates)",
 "The refine/enlarge loop takes its decisions from error estimates; tests exercise only the sequences that a few potentials produce.",
 [SB],[("automaticNextSector",SB)],None,["Sector::error","Matslise::sectors"])
add("C05","Propagation serves every point of the domain and refuses all others",
 "A request to propagate a solution between two points is refused with an error if either point lies outside the closed domain, and is answered for every pair of points inside it, including end points and sector boundaries. The sectors applied are exactly those that lie between the two points, each over exactly its overlap with the requested interval.",
 ["inputs"],"all meshes up to the bound, all pairs of points, both directions, both boundaries",
 "Tests propagate between a few fixed interior points, never outside the domain and rarely on a sector boundary.",
 [MS,M+"util/find_sector.h",MH],[("Matslise::propagate",MS),("find_sector",M+"util/find_sector.h"),("Domain::contains",MH)],None,["Matslise::propagate"])
add("C06","Propagation is a reversible flow",
 "Propagating a solution and its derivative with respect to the energy from a to c gives the same result as propagating from a to b and then from b to c; propagating there and back restores the original values, and propagating over an empty interval changes nothing. Propagation is linear in the initial values and a two-column propagation equals two one-column propagations.",
 ["inputs"],"all meshes up to the bound, all points a, b, c of the domain in any order, all initial values, both sector orientations",
 "Tests check accuracy against known solutions at sampled points; they never compare split or reversed propagations, nor the energy derivative.",
 [MS,SE,M+"util/y.h"],[("Matslise::propagate",MS),("Sector::propagate / propagateDelta",SE),("T::operator* and T::operator/",M+"util/y.h")],None,["Matslise::propagate","Sector::propagate"])
add("C07","The orientation of a sector does not change the physics",
 "A sector describes the same potential whichever orientation it was built with or was switched to afterwards, and switching the orientation back and forth restores it exactly. A backward sector propagates a solution as the mirrored forward sector of the mirrored potential propagates the mirrored solution.",
 ["inputs"],"all potentials (as arbitrary coefficients), all sector intervals, all sequences of orientation switches up to the bound, all propagation intervals and initial values",
 "Tests never switch the orientation of a sector and never compare mirrored problems sector by sector.",
 [SE],[("Sector::Sector / Sector::setDirection",SE),("Y::reverse",M+"util/y.h"),("propagateDelta",SE)],[("vs","scaled Legendre coefficients of the potential on the sector",MH)],["Sector::vs","Sector::propagate"])
add("C08","The sector transfer matrix solves the Schrodinger equation to its order",
 "On a sector on which the potential is any polynomial with the given coefficients, the transfer matrix computed for a sub-interval starts as the identity, satisfies y'' = (V - E) y up to terms beyond the order of the method, and so has determinant one up to such terms. The dedicated full-sector formula agrees with the general formula at the sector's end up to such terms.",
 ["inputs"],"all potentials (coefficients), energies, sector lengths and sub-interval lengths within the stated bounds",
 "A wrong coefficient in the generated tables changes results only slightly and only for potentials with the corresponding derivative; tests sample a few potentials at loose tolerances.",
 [M+"matslise/matslise_formulas.cpp",SE],[("calculate_tcoeff_matrix",M+"matslise/matslise_formulas.cpp"),("Sector::calculateT",SE)],None,["Sector::calculateT"])
add("C09","Reported energy derivatives are the derivatives of the reported values",
 "The energy-derivative part of every sector transfer matrix is the derivative with respect to the energy of its value part (to the truncation order), both in the general and in the full-sector formula, and for every product and inverse application of transfer matrices the derivative part of the result is the derivative of its value part.",
 ["inputs"],"all potentials (coefficients), energies, sector lengths, sub-interval lengths and initial values",
 "No test looks at an energy derivative; Newton's iteration merely converges more slowly when it is wrong.",
 [SE,M+"util/y.h"],[("Sector::calculateT (dt)",SE),("T::operator* / operator/",M+"util/y.h")],None,["Sector::calculateT","T::operator*","T::operator/"])
add("C10","The special functions of the method are right for every argument",
 "For every real argument Z and every number of requested functions, the returned sequence starts with cos(sqrt(-Z)) and sin(sqrt(-Z))/sqrt(-Z) (their hyperbolic counterparts for positive Z), satisfies the defining three-term recurrence, and is continuous where the evaluation strategy switches. The array version returns the same values argument by argument.",
 ["inputs"],"all Z in the stated range, including zero, negative, and the switch points",
 "Tests sample a few arguments; an error in one branch or near a switch point between strategies shows only for special Z.",
 [M+"util/calculateEta.h"],[("calculateEta",M+"util/calculateEta.h")],None,["calculateEta"])
add("C11","Legendre projection is exact for polynomials",
 "For every polynomial of degree below the number of coefficients and every interval, projecting it returns its exact (scaled, shifted) Legendre coefficients, converting these back to a polynomial on the unit interval reproduces the polynomial, and integration over the interval is exact, for every table and every scalar type shipped with the library.",
 ["inputs"],"all polynomials (coefficients) up to the degree of the table, all intervals within the bounds, all table sizes and scalar types",
 "Tests use two or three concrete functions and one table size; a wrong digit in a node or weight of another table stays unnoticed.",
 [M+"util/legendre.h",M+"util/legendre_data.h"],[("Legendre::integrate / getCoefficients / asPolynomial",M+"util/legendre.h"),("nodes and weights tables",M+"util/legendre_data.h")],None,["legendre::getCoefficients","Legendre::asPolynomial","Legendre::integrate"])
add("C12","Polynomial arithmetic is ring arithmetic",
 "Sums, differences, products, scalar operations, evaluation, derivatives of any order (as polynomials and at a point) and integrals of fixed-degree polynomials agree with the mathematical operations for all coefficients and arguments, also when the operands have different degrees. In particular differentiating an integral gives back the polynomial and an integral vanishes at zero.",
 ["inputs"],"all coefficients, all arguments, the stated degree combinations",
 "Tests use concrete integer coefficients and a few degree combinations.",
 [M+"util/polynomial.h"],[("Polynomial operators",M+"util/polynomial.h")],None,["Polynomial"])
add("C13","The oscillation angle follows the solution and counts its zeros",
 "The angle accumulated while propagating a solution equals, up to a multiple of pi that is the same for equal initial data, the angle of the (scaled) solution vector at the end, advances through a multiple of pi exactly when the solution passes a zero, and is antisymmetric under reversing the propagation. Multiplying the initial values by a non-zero constant does not change the advance.",
 ["inputs"],"all initial and final values, energies above and below the potential, all phase advances within the bound",
 "Tests compare a few angles with a known value; branch decisions at axis crossings, sign changes and the classically forbidden/allowed switch are not covered.",
 [SE,M+"util/theta.h",MS],[("pruferHelper / theta0",SE),("atan_safe",M+"util/theta.h")],None,["Matslise::propagate","Sector::prufer","Sector::theta0"])
add("C14","Requesting eigenvalues by index returns exactly those eigenvalues",
 "For every problem and every index range [Imin, Imax), the result contains each eigenvalue with index Imin, ..., Imax-1 exactly once, labelled with its own index, in increasing order, and nothing with an index outside the range. This holds wherever the eigenvalues lie, in particular when one coincides with an energy that the search itself evaluates or brackets with.",
 ["inputs"],"all increasing angle functions (eigenvalue distributions) within the bound, all index ranges up to the bound",
 "The search's bisection tree depends on where eigenvalues fall relative to dyadic energies; tests have some forty concrete spectra, none aligned with bisection points.",
 [MS],[("Matslise::eigenvaluesByIndex bracketing",MS),("computeEigenvaluesHelper",MS),("newtonIteration",MS)],None,["Matslise::eigenvaluesByIndex"])
add("C15","Requesting eigenvalues in an energy range misses none",
 "For every problem and every energy range, the result contains every eigenvalue lying in the half-open range from the lower limit (included) to the upper limit exactly once, with its own index, in increasing order, and no eigenvalue outside the range (up to the tolerance).",
 ["inputs"],"all increasing angle functions (eigenvalue distributions) within the bound, all energy ranges, limits coinciding with eigenvalues included",
 "Tests use a few spectra and ranges whose limits are not eigenvalues.",
 [MS],[("Matslise::eigenvalues",MS),("computeEigenvaluesHelper",MS)],None,["Matslise::eigenvalues"])
add("C16","Invalid requests are rejected, valid ones are not",
 "A request with a negative first index, with a last index below the first, with different boundary conditions on the two sides of a half-range problem, or (half-range) with an unsorted list of evaluation points ends with an error instead of a result. Every request that satisfies these conditions is answered.",
 ["inputs"],"all index pairs within the bound, all boundary vectors, all lists of points up to the bound",
 "No test makes an invalid request.",
 [MS,HF,MH],[("computeEigenvaluesHelper checks",MS),("checkSymmetry",MH),("EigenfunctionHalf sortedness check",HF)],None,["Matslise::eigenvaluesByIndex","MatsliseHalf::eigenfunction","AbstractMatslise::eigenvalues"])
add("C17","The matching error is the mismatch of left and right solutions",
 "For every energy and all boundary conditions the reported matching error is the cross product of the left and the right solution values at the matching point, its reported derivative is the derivative of that expression, and the reported angle is the difference of the two accumulated angles. The matching error vanishes exactly when the two solutions are proportional there.",
 ["inputs"],"all energies, all boundary vectors, all meshes up to the bound, all sector transfer matrices",
 "Tests observe it only through converged eigenvalues.",
 [MS],[("Matslise::matchingError",MS)],None,["Matslise::matchingError"])
add("C18","Eigenfunctions are normalised, continuous and satisfy both boundary conditions",
 "At an eigenvalue, the returned eigenfunction takes values proportional to the given boundary vectors at both ends of the domain, is continuous together with its derivative at every sector boundary and at the matching point, and has unit norm as given by the energy-derivative formula. This holds wherever the matching point lies and also when the solution or its derivative vanishes there.",
 ["inputs"],"all meshes up to the bound, all sector transfer matrices for which the energy is an eigenvalue, all boundary vectors and evaluation points",
 "Tests check norms for a few problems in which the solution and derivative at the matching point are both far from zero, and never compare derivatives.",
 [MS],[("propagationSteps",MS),("MEigenfunction",MS)],None,["Matslise::eigenfunction"])
add("C19","Evaluating an eigenfunction at many points equals evaluating point by point",
 "For every list of points, in any order and with repetitions, the list evaluation of an eigenfunction returns for each point the value and derivative that the single-point evaluation returns there (at an energy that is no eigenvalue the function has a jump at the matching point; nothing is claimed about which of its two values is returned exactly there). Points outside the domain get zero, all points inside the closed domain, sector boundaries and end points included, get the value of the solution.",
 ["inputs"],"all lists of points up to the bound in any order, all meshes up to the bound",
 "Tests evaluate sorted interior grids; the incremental search state only matters for unsorted or boundary points.",
 [MS],[("MEigenfunction::operator() (scalar and array)",MS),("findSector",MS)],None,["Eigenfunction::operator()"])
add("C20","A half-range problem reports the spectrum of the full problem",
 "For a symmetric problem, the half-range solver's eigenvalues by index or by range are exactly the even states (Neumann at the origin) with even indices and the odd states (Dirichlet at the origin) with odd indices, merged in increasing index order, each index of the requested range exactly once and no other. The same parity is used for the error estimate and the eigenfunction of an index.",
 ["inputs"],"all index ranges up to the bound, all pairs of half-range spectra",
 "Tests request ranges that start at an even index only.",
 [HF],[("MatsliseHalf::eigenvaluesByIndex",HF),("mergeEigenvalues",HF),("isEven",HF)],None,["MatsliseHalf::eigenvaluesByIndex","MatsliseHalf::eigenvalues"])
add("C21","Half-range eigenfunctions are exactly even or odd and normalised",
 "For every point x the half-range eigenfunction satisfies y(-x) = y(x) and y'(-x) = -y'(x) for even indices, and y(-x) = -y(x) and y'(-x) = y'(x) for odd indices, in the single-point and in the list evaluation alike. Values for x >= 0 are those of the half problem scaled so that the full-range norm is one.",
 ["inputs"],"all points, all sorted lists of points up to the bound, both parities, all half-problem solutions",
 "Tests compare absolute values at positive points only and never the derivative.",
 [HF],[("EigenfunctionHalf",HF)],None,["MatsliseHalf::eigenfunction"])
add("C22","The periodic solver reports every eigenvalue with its index and multiplicity",
 "For every quasi-periodic problem and every index range, each eigenvalue in the range is reported once, in increasing order, labelled with its index, as multiplicity two exactly when two consecutive eigenvalues coincide. The reported energies are zeros of the determinant of the mismatch between the propagated boundary conditions.",
 ["inputs"],"all interlacing pairs of angle functions and discriminants within the bound, all index ranges up to the bound, periodic and antiperiodic",
 "Four concrete problems are tested, two of them always with double eigenvalues and ranges starting at zero.",
 [PE],[("eigenpairsHelper / eigenvaluePair / binarySearch",PE),("PeriodicMatslise::matchingError",PE)],None,["PeriodicMatslise::eigenvaluesByIndex","PeriodicMatslise::matchingError"])
add("C23","Periodic eigenfunctions satisfy the periodicity condition",
 "Every eigenfunction reported for a periodic eigenvalue, whether through the eigenpairs or by asking for the eigenfunctions at that energy, has boundary values at the right end that equal the periodicity matrix applied to its boundary values at the left end. For a double eigenvalue two linearly independent eigenfunctions are reported.",
 ["inputs"],"all mismatch matrices with a kernel, all periodicity matrices, all transfer matrices for which the energy is an eigenvalue",
 "Tests call the eigenfunctions on one symmetric problem and check no boundary values.",
 [PE],[("PeriodicMatslise::eigenfunction",PE),("eigenpairsHelper",PE)],None,["PeriodicMatslise::eigenpairsByIndex","PeriodicMatslise::eigenfunction"])
add("C24","The Liouville change of variable is an increasing bijection",
 "For all positive coefficient functions the computed map from the original to the transformed variable is continuous and increasing over the whole domain, its pieces cover the original and the transformed domain without gap or overlap, and mapping a point there and back returns it up to the bisection tolerance, end points and piece boundaries included.",
 ["inputs"],"all piecewise maps up to the bound (number of pieces, coefficients), all points of the domain",
 "Tests map a few points of three concrete problems.",
 [LI,M+"liouville.h"],[("r2x / x2r / findPiece / x2r_impl",LI),("constructPiecewise / setXMin",LI)],None,["LiouvilleTransformation::r2x","LiouvilleTransformation::x2r","LiouvilleTransformation::xDomain"])
add("C25","The transformed potential is the Liouville potential",
 "At every point the transformed potential equals q/w plus the second-derivative term of the fourth root of p*w with respect to the transformed variable, as obtained from the representation of p, w and p*w on the piece containing the point. Each piece represents p, w and the change of variable exactly when these are polynomials of the supported degree. A piece is split as long as its halves disagree with it.",
 ["inputs"],"all piece representations (coefficients), all points, all q",
 "Three concrete problems are compared at sampled points.",
 [LI],[("LiouvilleTransformation::V",LI),("Piece::Piece",LI)],None,["LiouvilleTransformation::V"])
add("C26","Boundary values are transformed consistently in both directions",
 "Mapping boundary values (and their energy derivatives) of the original problem to the transformed problem and back returns them for every point of the domain. The mapping is the one induced by z = sigma * y with sigma = (p w)^(-1/4): values and derivatives in the transformed problem belong to the same function as in the original problem.",
 ["inputs"],"all values, derivatives, and piece representations, all points",
 "The mapping back is tested for values only, never for the derivative.",
 [LI],[("z2y / y2z",LI)],None,["LiouvilleTransformation::z2y","LiouvilleTransformation::y2z"])
add("C27","Sturm-Liouville results are the transformed Schrodinger results",
 "Eigenvalues, eigenpairs and error estimates of a Sturm-Liouville problem are those of the transformed problem with the left boundary values transformed at the left end and the right boundary values transformed at the right end, with unchanged indices and order. The eigenfunction evaluated at a point is the back-transformed Schrodinger eigenfunction at the mapped point, and evaluation of a list equals evaluation point by point.",
 ["inputs"],"all boundary vectors, all points and lists of points up to the bound, all eigenpair lists up to the bound",
 "Tests use a handful of problems, compare eigenfunction values with loose tolerance and never derivatives.",
 [SL,M+"liouville.h"],[("SturmLiouville::eigenpairsByIndex / eigenvaluesByIndex",SL),("SLEigenfunction",SL)],None,["SturmLiouville::eigenpairsByIndex"])
add("C28","Coupled-channel propagation is a reversible flow",
 "For coupled systems, propagation between points outside the domain is refused, propagation over adjacent intervals composes, propagation there and back restores the initial values, a propagation of several columns equals the propagation of each column, and a system with one channel propagates as the scalar problem with the same potential.",
 ["inputs"],"all meshes up to the bound, all points, all initial matrices, all orientations, channel counts up to the bound",
 "The only test propagates one concrete system and looks at the angle.",
 [MC,MCS,M+"util/y.h"],[("Matscs::propagate / propagateColumn",MC),("Sector::propagateColumn / propagateDeltaColumn",MCS)],None,["Matscs::propagateColumn","Matscs::propagate"])
add("C29","The coupled-channel transfer matrix solves the coupled equation to its order",
 "On a sector on which the potential matrix is any matrix polynomial with the given coefficients, the coupled transfer matrix starts as the identity, satisfies y'' = (V - E) y up to terms beyond the order of the method, and the full-sector formula agrees with the general one at the sector's end; its energy-derivative part is the derivative of its value part.",
 ["inputs"],"all coefficient matrices (as non-commuting symbols or with symbolic entries up to the bound), energies and lengths",
 "A wrong term in the generated tables, in particular one that vanishes for commuting matrices, is visible to no test.",
 [M+"matscs/matscs_formulas.cpp",MCS],[("calculate_tcoeff_matrix",M+"matscs/matscs_formulas.cpp"),("calculateTFromVEd",MCS)],None,["Matscs::Sector::calculateT"])
add("C30","Propagating the ratio matrix agrees with propagating the solution",
 "For coupled systems, propagating the matrix quotient of solution and derivative from a to b gives the quotient of the propagated solution and derivative, for every pair of points of the domain in either order, every mesh and every sector orientation.",
 ["inputs"],"all meshes up to the bound, all pairs of points, all orientations, all transfer matrices for which the quotient exists",
 "One concrete system is propagated in the favourable direction; the test is not among the reliably passing ones.",
 [MC,MCS],[("Matscs::propagatePsi",MC),("propagatePsi_delta",MCS)],None,["Matscs::propagatePsi"])
add("C31","The eigenvalue error estimate is the distance to the refined eigenvalue",
 "The reported error estimate of an eigenvalue is non-negative and equals the distance between the given energy and the energy to which Newton's iteration, started there on the reference (not the simplified full-sector) propagation with the same boundary conditions, converges; the half-range solver estimates with the boundary conditions of the state's own parity.",
 ["inputs"],"all energies, boundary vectors and mismatch functions within the bound",
 "Tests only check that the estimate is small for a few eigenvalues.",
 [MS,HF],[("Matslise::eigenvalueError",MS),("newtonIteration",MS),("MatsliseHalf::eigenvalueError",HF)],None,["Matslise::eigenvalueError","MatsliseHalf::eigenvalueError"])
add("C32","The language bindings return what the C++ library returns",
 "Every result obtained through the Python or JavaScript interface equals the result of the corresponding C++ call with the same problem, boundary conditions and index range.",
 ["inputs"],"all calls of the bindings",
 "Bindings are tested with a few concrete problems, and not at all in this environment.",
 [M+"pyslise/pyslise.cpp",M+"js/matslise.cpp"],[("pybind11 module",M+"pyslise/pyslise.cpp"),("emscripten module",M+"js/matslise.cpp")],None,["pyslise","js module"])
add("C33","The angle of a coupled solution counts its full turns",
 "For coupled systems, the angle returned with a propagated solution is the continuous change of the argument of det((Y'+iY)(Y'-iY)^-1) from the start to the end: it equals the difference of the arguments modulo a full turn, is the exact count for a potential that is constant over the step, follows a deviation from it by less than half a turn, adds up over consecutive steps, and does not depend on the order or the orthonormal basis of the channels, the direction of the propagation or the orientation of a sector.",
 ["inputs"],"all initial values, transfer matrices and mesh points within the bounds; channel counts and numbers of half turns up to the bound",
 "The index of an eigenvalue of a coupled system hangs on this count; the only test compares one channel for a few energies.",
 [MC,MCS],[("Matscs::propagate",MC),("Sector::propagateDelta",MCS)],None,["Matscs::propagate"])
with open('/verif/properties.jsonl','w') as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
