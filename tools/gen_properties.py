#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that ids and anchors stay in one place)."""
import json, os
P = []
S = "src/MathUtils/"
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": [S+f for f in files],
                  "mechanism": [{"name": n, "where": S+w} for n, w in mech],
                  "observe_at": observe or ["return values of the public API"], "hook_needed": None}})

p("C01","1D linear interpolation is the piecewise-linear interpolant",
  "For every table of strictly increasing abscissae and every abscissa inside the table range (both ends and every node included), all linear 1D interpolation methods return the value of the straight segment joining the two neighbouring table points, hence exactly the tabulated value at a node. Evaluating a vector of abscissae gives the scalar results in the same order, the call operator and Eval agree, and this holds for real and complex ordinates.",
  ["inputs"],"all strictly increasing tables of at least two points, all ordinates, all query abscissae in range","the tests compare one 99-point sine table at one abscissa to 1e-2",
  ["Interp1d.h"],[("segment coefficients","Interp1d.h:Interp1dLinearBase::Initialize"),("segment search","Interp1d.h:Interp1dLinearBase::PrivEval")])
p("C02","1D interpolation out-of-range policies and factory",
  "Outside the table range the strict linear interpolator terminates the process with exit status 1, the saturating one returns the ordinate of the nearest table end, and the extrapolating one continues the first (below) or last (above) segment as a straight line. The factory returns an interpolator with exactly the requested policy and terminates with status 1 for a method that is not available.",
  ["inputs","configurations"],"all tables, all abscissae strictly outside the range on either side, all methods","tests check one point below the range for the strict and extrapolating policies and never extrapolate above the range",
  ["Interp1d.h"],[("range test","Interp1d.h:Interp1dLinear::PrivEval"),("clamping","Interp1d.h:Interp1dLinearSaturate::PrivEval"),("extrapolation","Interp1d.h:Interp1dLinearExtrapolate::PrivEval"),("factory","Interp1d.h:MakeInterp1d")])
p("C03","1D lookup tables keep independent named series",
  "After any sequence of series additions, evaluating a 1D lookup table under a name returns the interpolant of the data that was first added under that name with the table's own interpolation method, whatever other series were added. Adding a name that already exists returns false and changes nothing, an unknown name raises an exception, counts and ranges reflect the accepted additions, and moving a table (construction or assignment) preserves all of this, including the method used for later additions.",
  ["histories","inputs"],"all histories of additions (new and duplicate names), moves and re-initialisations; all data and abscissae","the test adds two fixed series once and prints one value",
  ["LookupTable1D.h","Interp1d.h"],[("name association","LookupTable1D.h:AddY"),("dispatch","LookupTable1D.h:Eval"),("move operations","LookupTable1D.h:operator=")])
p("C04","2D interpolation is the bilinear interpolant",
  "For every rectangular grid with strictly increasing axes, data stored row by row along x, and every point inside the grid (edges and nodes included), 2D linear interpolation returns the bilinear blend of the four corners of the cell containing the point, hence exactly the tabulated value at a node. Evaluating a list of points gives the scalar results in order, and re-initialising an interpolator makes it depend on the new grid and data only; the factory refuses an unknown method with an exception.",
  ["inputs","histories"],"all grids of at least 2x2 nodes (nx and ny different), all data, all points in range","one fixed grid sampled at a few points",
  ["Interp2d.h"],[("cell coefficients","Interp2d.h:Interp2dLinear::Initialize"),("cell search and index","Interp2d.h:Interp2dLinear::Eval")])
p("C05","2D lookup tables keep independent named series",
  "After any sequence of additions, evaluating a 2D lookup table under a name - with two scalars, a coordinate pair or a list of pairs - returns the bilinear interpolant of the data first added under that name. Adding an existing name returns false and changes nothing, an unknown name raises an exception, and the presence test and the counts of series and samples reflect the accepted additions.",
  ["histories","inputs"],"all histories of additions and queries, all data and points in range","the repository's tests evaluate one table with one series",
  ["LookupTable2D.h","Interp2d.h"],[("name association","LookupTable2D.h:AddData"),("dispatch","LookupTable2D.h:Eval")])
p("C06","N-dimensional grid interpolation is clamped multilinear interpolation",
  "For every grid with strictly increasing axes in every dimension, the regular-grid interpolator returns the multilinear blend of the corners of the cell containing the point, the tabulated value at nodes, and outside the grid the value at the point clamped to the grid. With bound checking on it throws exactly when a coordinate is outside the grid; axes that are not strictly increasing are rejected with an exception, adding a superfluous axis or data before all axes terminates with a failure status and data whose count does not match the axes are rejected with an exception; axes, limits, dimension and node values are reported as given.",
  ["inputs","configurations"],"all grids and data in 1 to 3 dimensions, all points inside and outside, bound check on and off","tests use one 2D grid and a few points",
  ["RegularGridInterpolator.h","thirdparty/linterp.h"],[("cell search","thirdparty/linterp.h:find_cell"),("corner values","thirdparty/linterp.h:get_f_val"),("blend","thirdparty/linterp.h:linterp_nd_unitcube"),("validation","RegularGridInterpolator.h:AddCoord/AddVar/Interp")])
p("C07","Grid interpolator and nearest-grid copies are independent equals",
  "A copy (constructed or assigned) of a regular-grid interpolator or nearest-node grid, including one that is not completely filled yet, is in the same state as its source and gives the same answers as its source at the time of the copy, and keeps giving them after the source is changed, reassigned or destroyed. An interpolator reports itself valid exactly when it has been given its data.",
  ["histories","inputs"],"all copy/assign/destroy histories, all grids, data and points","tests never copy a grid",
  ["RegularGridInterpolator.h","RegularGridNearest.h"],[("copy assignment","RegularGridInterpolator.h:operator="),("copy assignment","RegularGridNearest.h:operator=")])
p("C08","Nearest-node lookup returns a closest grid node and its datum",
  "For every grid with increasing axes and every point, the nearest-node query returns in each dimension the index and coordinate of a grid node that no other node is closer to the point than, with the datum stored at these indices; points outside are attached to the boundary node. The data query returns the datum of that node. Superfluous axes and queries or data before all axes are given are refused with a failure status.",
  ["inputs"],"all grids and data in 1 to 3 dimensions, all points inside and outside the grid, ties included","tests use one 3x3 unit grid and interior points",
  ["RegularGridNearest.h"],[("cell search and midpoint rule","RegularGridNearest.h:Nearest"),("data query","RegularGridNearest.h:GetData")])
p("C09","Surrounding-node query returns the corners of the containing cell",
  "For every grid with increasing axes and every point, the surrounding-nodes query returns the 2^N corners of the cell containing the point, ordered with the last dimension varying fastest, each with its indices, coordinates and datum. In a dimension where the point lies below the grid all returned indices are the first one, and at or above the last node they are the last one.",
  ["inputs"],"all grids and data in 1 to 3 dimensions, all points inside and outside","tests query one interior point of one 2D grid",
  ["RegularGridNearest.h"],[("cell search","RegularGridNearest.h:GetSurroundingGridNodes"),("corner selection","RegularGridNearest.h:GetNode")])
p("C10","Angle normalisation lands in its documented half-open range",
  "For every finite double-precision angle, normalisation to [0,360[, ]-180,180], [0,2pi[ and ]-pi,pi] returns a value inside that half-open interval (with the library's own double value of pi), including for tiny negative, huge, and boundary inputs.",
  ["inputs"],"all finite IEEE-754 doubles","tests sample a few multiples of 90 degrees; rounding at the interval ends is missed by sampling",
  ["Angles.h"],[("wrap-around","Angles.h:Normalize_0_360"),("wrap-around","Angles.h:Normalize__180_180"),("wrap-around","Angles.h:Normalize_0_2PI"),("wrap-around","Angles.h:Normalize__PI_PI")])
p("C11","Angle normalisation preserves the direction and fixes normalised angles",
  "Each angle normalisation changes the angle by an integer number of full turns only (up to rounding), leaves an angle already in its target interval unchanged, and the degree and radian versions agree. The modulo helpers return the remainder, with the sign of the argument, of the division by a full turn.",
  ["inputs"],"all angles within a stated number of turns","tests sample a few multiples of 90 degrees",
  ["Angles.h"],[("remainder","Angles.h:modulo360/modulo2pi"),("wrap-around","Angles.h:Normalize_*")])
p("C12","Speed, angle and vector unit conversions are consistent",
  "A nautical knot is 1852 m per hour and a km/h is 1000 m per hour: every velocity conversion between m/s, knot and km/h, by named function or by the generic converter, is multiplication by the corresponding ratio, so conversions there and back are the identity and composition through any third unit is the direct conversion. Degree/radian and knot conversions of vectors scale every element by the same factor as the scalar ones, in place or into a second vector whose source is left untouched.",
  ["inputs","configurations"],"all velocities, all ordered pairs of units, all vectors","tests convert a handful of values",
  ["Unit.h","Constants.h"],[("ratios","Constants.h"),("converter","Unit.h:convert_velocity_unit"),("vector versions","Unit.h:deg2rad/rad2deg/kt2ms")])
p("C13","Frequency and period conversions are consistent",
  "Conversions between Hz, rad/s, deg/s, deg/min, rpm and period in seconds, by named function or by the generic converter, agree with the definitions (1 Hz = 2 pi rad/s = 360 deg/s = 60 rpm = 21600 deg/min = period of one second). Converting there and back is the identity and conversion through any third unit equals the direct one, for every nonzero frequency.",
  ["inputs","configurations"],"all nonzero values, all ordered pairs and triples of the six units","tests convert a handful of values",
  ["Unit.h","Constants.h"],[("pivot in Hz","Unit.h:convert_frequency")])
p("C14","2D frame projections are mutually inverse rotations",
  "For every vector, angle and angle unit, projecting from the local to the North-East frame rotates the vector by the angle (north = c*x - s*y, east = s*x + c*y) and projecting back is its exact inverse; both preserve the norm. In-place, output-argument and free-function versions, the single-axis projections and the setter from local coordinates all agree, and the velocity helper is the projection of the unit-converted speeds.",
  ["inputs","configurations"],"all vectors, all angles in both units, all speed units","the test prints values for one vector",
  ["Vector2d.h","Angles.h"],[("rotation","Vector2d.h:ProjectLocalOnNED"),("inverse rotation","Vector2d.h:ProjectNEDOnLocal"),("axis projections","Vector2d.h:ProjectOn*")])
p("C15","Velocity transport follows the rigid-body formula",
  "Transporting a planar velocity to a point (px,py) with yaw rate w in any supported frequency unit adds (-w*py, w*px) with w expressed in rad/s; in-place, output-argument and free-function versions agree and only the designated output changes, so transport to a point and back with the opposite offset is the identity.",
  ["inputs","configurations"],"all vectors, points and rates, all frequency units","the test prints one transported vector",
  ["Vector2d.h","Unit.h"],[("transport","Vector2d.h:TransportAtPoint")])
p("C16","Quaternion and rotation matrix conversions are consistent",
  "For every unit quaternion the conversion to a matrix gives a proper rotation matrix (orthonormal, determinant one) that rotates vectors like the quaternion does, the same matrix for q and -q. Converting a rotation matrix to a quaternion gives a unit quaternion representing the same rotation, in every branch of the conversion.",
  ["inputs"],"all unit quaternions / all rotation matrices","tests sample one Euler triple",
  ["Geometry.h"],[("matrix from quaternion","Geometry.h:quaternionToRotationMatrix"),("quaternion from matrix","Geometry.h:RotationMatrixToQuaternion")])
p("C17","Euler ZYX, quaternion and matrix conversions describe one rotation",
  "For all roll, pitch and yaw the quaternion built from ZYX Euler angles is a unit quaternion and represents the same rotation as the matrix built from them, which is Rz(yaw)*Ry(pitch)*Rx(roll). Extracting Euler angles from a unit quaternion or a rotation matrix away from gimbal lock gives angles of that same rotation with pitch in [-pi/2, pi/2].",
  ["inputs"],"all roll, pitch, yaw; all unit quaternions and rotation matrices","tests check one triple of angles",
  ["Geometry.h"],[("forward maps","Geometry.h:eulerAnglesZYXTo*"),("extraction","Geometry.h:*ToEulerAnglesZYX")])
p("C18","Euler extraction is defined for every normalised quaternion",
  "Extracting ZYX Euler angles from any quaternion that has unit norm up to rounding gives finite angles with pitch in [-pi/2, pi/2], also at and around gimbal lock.",
  ["inputs"],"all double-precision quaternions with norm one up to a few ulp","tests stay away from gimbal lock",
  ["Geometry.h"],[("pitch extraction","Geometry.h:quaternionToEulerAnglesZYX")])
p("C19","Sample-vector generators produce the documented grids",
  "linspace(a,b,n) returns n non-decreasing equally spaced samples from exactly a to exactly b; logspace returns the given base raised to these samples; arange(a,b,s) returns the floor((b-a)/s) samples a, a+s, a+2s, ... all below b, spaced by s.",
  ["inputs"],"all bounds, counts and steps satisfying the asserted preconditions","tests use generators only to build other inputs",
  ["VectorGeneration.h"],[("generators","VectorGeneration.h:linspace/logspace/arange")])
p("C20","Elementwise vector arithmetic",
  "Add, subtract, multiply and divide of two vectors of equal length, adding a scalar, scaling, negating and raising to a power act on every element independently and in order, the sum is the sum of all elements, and the arguments that are not outputs are unchanged; unequal lengths are refused by assertion.",
  ["inputs"],"all vectors of any (bounded) length, all scalars","there is no test of these functions",
  ["StdVector.h"],[("elementwise loops","StdVector.h")])
p("C21","Step, door, ramp, impulse and sinc samplers",
  "For every sample the Heaviside sampler gives 0 below the step, 1 above and 0.5 on it; the door is height times the difference of the two steps; the ramp is constant at its left and right values outside its interval and linear in between, hence continuous; the impulse has the given height exactly on samples strictly within half a sampling step of the impulse; sinc is sin(x)/x with value 1 at zero.",
  ["inputs"],"all sample vectors and parameters satisfying the asserted preconditions","tests only use the Heaviside sampler to build a spline",
  ["Functions.h"],[("samplers","Functions.h")])
p("C22","Scalar helpers: sign, saturation, closeness and parity",
  "sgn returns -1, 0 or 1 according to the sign; saturation returns its argument when it lies within the bounds and otherwise the violated bound, for floating-point and for every integer type without loss of precision; the signed square root r satisfies r*|r| = x; closeness holds exactly when |a-b| <= atol + rtol*|b| (for vectors: for all elements); a number is even exactly when it is divisible by two and odd otherwise, negatives included.",
  ["inputs"],"all doubles and all machine integers","no test covers these helpers on boundary values",
  ["Maths.h","Check.h"],[("helpers","Maths.h"),("closeness","Check.h:IsClose")])
p("C23","Complex vector parts, amplitude and phase",
  "For every vector of complex numbers the real-part, imaginary-part, amplitude and phase extractors return a vector of the same length whose elements are the parts, the modulus, and the argument (in radians, or degrees on request) of the corresponding element, so that amplitude and phase reconstruct the number.",
  ["inputs","configurations"],"all complex vectors, both angle units","used only indirectly by the FFT test",
  ["Complex.h"],[("extractors","Complex.h")])
p("C24","Horner evaluation equals the polynomial and its derivative",
  "For every coefficient vector (lowest degree first) and every real or complex point, Horner evaluation returns the sum of a_k x^k and the derivative version returns the sum of k a_k x^(k-1), zero for a constant; the coefficients are left unchanged.",
  ["inputs"],"all coefficients, all degrees up to the bound, all points","tests evaluate one polynomial",
  ["Polynomial.h"],[("Horner scheme","Polynomial.h:Horner/Horner_derivative")])
p("C25","Power series evaluate the polynomial of the mapped coordinates",
  "For all coefficients and any orders (different per axis), 1D, 2D and 3D power series over closed, half-open and mixed domains return the polynomial with these coefficients evaluated at the mapped coordinates, where a closed segment is mapped affinely onto [-1,1] and a half-open one by 1 - 2*min/x; the limit at infinity is the value at mapped coordinate 1.",
  ["inputs","configurations"],"all coefficients, domains and points, all domain types, orders up to the bound","tests approximate a few fixed functions",
  ["PowerSeries1d.h","PowerSeries2d.h","PowerSeries3d.h","Polynomial.h"],[("nested Horner","PowerSeries*.h:Evaluate_unit"),("coordinate maps","PowerSeries*.h:AffineTransformationSegmentToUnit_*")])
p("C26","Power series derivatives are the partial derivatives of the series",
  "For all coefficients, domains and points, every x-, y- and z-derivative returned by a 1D, 2D or 3D power series is the exact partial derivative, with respect to the domain coordinate, of the value returned by the same series.",
  ["inputs","configurations"],"all coefficients, domains and points, all domain types, orders up to the bound","tests compare to the derivative of a few fixed functions within a loose tolerance",
  ["PowerSeries1d.h","PowerSeries2d.h","PowerSeries3d.h","Polynomial.h"],[("derivative sums","PowerSeries*.h:Evaluate_derivative_*"),("chain-rule factor","PowerSeries*.h:CoefficientDerivative_*")])
p("C27","3D power series shortcuts agree with the plain evaluations",
  "For every 3D power series and domain type, the combined value-and-derivatives evaluation, and the evaluations through coefficients reduced for a predefined z or for z at infinity, give the same value, x-derivative and y-derivative as the plain evaluations at that z; reported orders, limits, coefficients and type describe the series as constructed.",
  ["inputs","configurations"],"all coefficients, domains and points, all domain types","tests use the predefined-z shortcuts on the closed domain only",
  ["PowerSeries3d.h"],[("shortcuts","PowerSeries3d.h:Evaluate_f_dfdx_dfdy*, Compute_cij*, *_z_predefined, *_zinf")])
p("C28","Chebyshev approximation interpolates and reproduces polynomials",
  "For any approximated function, orders and domain type, the 1D, 2D and 3D Chebyshev approximation coincides with the function at the Chebyshev nodes of the domain, and for a function that is a polynomial of the mapped coordinates of degree at most the order it coincides everywhere on the domain. Computing the coefficients again leaves the approximation unchanged.",
  ["inputs","configurations","histories"],"all functions (arbitrary node values), all points of the domain, all domain types, orders up to the bound","tests approximate one smooth function per domain type",
  ["ChebyshevSeries1d.h","ChebyshevSeries2d.h","ChebyshevSeries3d.h","BoostFunctions.h"],[("discrete orthogonality sums","ChebyshevSeries*.h:Compute_a*"),("Clenshaw summation","ChebyshevSeries*.h:Evaluate")])
p("C29","Chebyshev derivatives are the partial derivatives of the approximation",
  "For any approximated function, orders and domain type, each derivative returned by a 1D, 2D or 3D Chebyshev approximation is the partial derivative, with respect to the domain coordinate, of the approximation it returns.",
  ["inputs","configurations"],"all node values, all points of the domain, all domain types, orders up to the bound","tests compare with the derivative of one smooth function within tolerance",
  ["ChebyshevSeries1d.h","ChebyshevSeries2d.h","ChebyshevSeries3d.h"],[("derivative sums","ChebyshevSeries*.h:Evaluate_derivative_*"),("chain-rule factor","ChebyshevSeries*.h:CoefficientDerivative_*")])
p("C30","Chebyshev to power series conversion preserves the approximation",
  "The power-series coefficients obtained from a 1D, 2D or 3D Chebyshev approximation, given to the power series of the same domain, evaluate to the same approximation at every point of the domain; orders above 18 are refused.",
  ["inputs","configurations"],"all node values and points, all domain types, orders up to the bound","tests convert the approximation of one function per domain type",
  ["ChebyshevSeries1d.h","ChebyshevSeries2d.h","ChebyshevSeries3d.h","PowerSeries1d.h","PowerSeries2d.h","PowerSeries3d.h"],[("basis change","ChebyshevSeries*.h:Compute_b*/TransformationCoefficient")])
p("C31","1D integration is the trapezoidal rule of the sampled data",
  "Integrating at least two samples with uniform or given abscissae returns the trapezoidal sum, hence the exact integral of an affine function and of the piecewise-linear interpolant of the data. The integrator object applied to samples or to a function on [xmin,xmax] returns the trapezoidal sum for its current bounds and method after any sequence of bound changes and queries.",
  ["inputs","histories"],"all sample vectors, bounds and setter/getter histories","tests integrate two fixed functions once",
  ["Integration1d.h"],[("trapezoidal sums","Integration1d.h:Trapz/ComputeTrapz"),("result cache","Integration1d.h:Get/SetXmin/SetXmax")])
p("C32","Triangle quadrature of order n is exact for polynomials of degree n",
  "For every order from 1 to 8 and every triangle in space, the quadrature of a polynomial integrand of degree at most the order equals its integral over the triangle up to the precision of the tabulated coefficients (1e-10 relative), whatever the orientation of the triangle; scalar, vector and complex integrands give the componentwise result.",
  ["inputs","configurations"],"all polynomial integrands of degree at most the order, all triangles, all orders","tests integrate a few monomials on one triangle to loose tolerances",
  ["Integration2dTriangle.h","Integration2d.h","QuadratureTables.h"],[("tables","Integration2dTriangle.h:constructor"),("sum","Integration2dTriangle.h:Compute")])
p("C33","FFT is the discrete Fourier transform with a matching inverse",
  "For every real signal the forward transform returns the DFT of the signal (all N bins, or the first N/2+1 in half-spectrum mode) and, with scaling on, the inverse transform returns the original signal (for an even number of samples in half-spectrum mode); the frequency vector has one entry per returned bin with entry k equal to k*fs/N in the requested unit.",
  ["inputs","configurations","histories"],"all signals, lengths up to the bound including odd and non powers of two, both spectrum modes, scaling on/off switched in any order","tests transform one signal",
  ["FFT.h"],[("transform","FFT.h:fft/ifft"),("modes","FFT.h:HalfSpectrumON/OFF, ScalingON/OFF"),("frequencies","FFT.h:GetFrequencyVector")])
p("C34","Convolution is the trapezoidal integral of kernel times signal",
  "The convolution of a kernel of at least two samples with the contents of a circular buffer returns the trapezoidal integral, with the given step, of the product of the kernel with the first samples of the buffer in buffer order, or in reverse order of these samples when requested; it is bilinear in kernel and signal, independent of where the buffer wraps, and refuses a buffer shorter than the kernel.",
  ["inputs","configurations"],"all kernels, signals, steps, buffer rotations, both directions","one fixed kernel and signal",
  ["Convolution.h","Integration1d.h"],[("integrand","Convolution.h:NaiveConvolution")])
p("C35","LU, QR and Cholesky factors reproduce the matrix",
  "For every square matrix the LU decomposition returns a permutation P, unit lower triangular L and upper triangular U with P*A = L*U; for every matrix with at least as many rows as columns the thin and full QR decompositions return Q with orthonormal columns and upper triangular R whose product (first columns for the full one) is A; for symmetric positive definite matrices Cholesky returns lower triangular L with positive diagonal and L*L^T = A, its rank-one update that of A + sigma*v*v^T, and it throws for non-square, non-symmetric or indefinite matrices.",
  ["inputs"],"all matrices of the bounded sizes (fixed 3x3, 6x6 and dynamic)","tests factor a few random matrices of one size",
  ["Matrix.h","Matrix33.h","Matrix66.h"],[("wrappers","Matrix*.h:Get*Decomposition, *CholeskyUpdate")])
p("C36","Inverses and linear solvers solve the system",
  "For every invertible matrix, in-place inversion and the returned inverse are two-sided inverses (the latter leaving the matrix unchanged), and for every right-hand side with any number of columns the LU and QR solvers return x with A*x = b.",
  ["inputs"],"all invertible matrices and right-hand sides of the bounded sizes (fixed 3x3, 6x6 and dynamic)","tests solve one fixed system",
  ["Matrix.h","Matrix33.h","Matrix66.h"],[("inversion","Matrix*.h:Inverse/GetInverse"),("solvers","Matrix*.h:LUSolver/QRSolver")])
p("C37","Least-squares solvers satisfy the optimality conditions",
  "For every right-hand side the least-squares solver returns x whose residual is orthogonal to the columns of A, and the constrained one returns x with C*x = d whose residual is orthogonal to A applied to the null space of C. The pseudo-inverse satisfies the Moore-Penrose conditions and maps a right-hand side to that least-squares solution.",
  ["inputs"],"all right-hand sides, for a stated family of concrete full-rank matrices","tests solve one fixed problem",
  ["Matrix.h","Matrix33.h","Matrix66.h"],[("solvers","Matrix.h:LeastSquareSolver/LeastSquareSolverConstraint/GetPseudoInverse")])
p("C38","Matrix predicates and structural operations",
  "For every matrix: element access, rows, columns, diagonal and sizes designate the corresponding entries; transposition swaps indices; symmetrising from the upper (lower) triangle returns the symmetric matrix sharing that triangle; the identity, square, symmetric and orthogonal predicates hold exactly when the matrix has the property up to tolerance; comparison holds exactly when the norm of the difference is within epsilon times the smaller norm.",
  ["inputs"],"all matrices of the bounded sizes, fixed 3x3, 6x6 and dynamic","tests print most of these results without checking them",
  ["Matrix.h","Matrix33.h","Matrix66.h"],[("predicates","Matrix*.h:Is*"),("structure","Matrix*.h:at/GetRow/GetColumn/GetDiag/Transpose/MakeSymmetric*")])
p("C39","Vector operations: sort, reverse, norms, products, angles",
  "For every vector: sorting returns a permutation of the elements in ascending (descending) order, reversing reverses; the infinity norm is the largest absolute element for every vector class; default construction and nulling give zeros and setters set the named components; outer and inner products, matrix square and diagonal matrix have their usual entries; the projected angles around each axis are those of the projected vector in the requested unit; normalisation gives a unit vector in the same direction.",
  ["inputs","configurations"],"all 2-, 3-, 6- and N-vectors","tests print most of these results without checking them",
  ["VectorN.h","Vector2d.h","Vector3d.h","Vector6d.h"],[("operations","VectorN.h, Vector2d.h, Vector3d.h, Vector6d.h")])
p("C40","Struve and exponential integral approximations stay within their accuracy",
  "On their whole domain the zero- and first-order Struve functions, the approximations of Ei and E1, and exp(-x)*Ei(x) differ from the mathematical functions by at most their published accuracy (1e-7 for Struve, a relative 1e-8 for the exponential integrals, absolute where the value is below one), including at the boundaries between the approximation ranges (arguments of the exponential integrals within 1e-8 of zero count as zero); arguments outside the domain terminate the process.",
  ["inputs"],"all arguments of the domain of each approximation","tests sample a few points per range",
  ["BoostFunctions.h"],[("coefficients and range selection","BoostFunctions.h:Struve_*, Ei_approximation, expEi, E1_approximation")])
p("C41","Special-function wrappers satisfy derivative identities",
  "For every order and positive argument, the wrappers return the function of the requested kind, order and argument, and the derivative wrappers of the Bessel (first, second kind, modified), and Hankel functions return the derivative as expressed by the standard recurrences, with order zero included; the derivative of the zero-order Struve function is 2/pi minus the first-order one.",
  ["inputs"],"all orders up to the bound, all positive arguments, for arbitrary function values obeying the three-term recurrences","tests sample a few orders and points",
  ["BoostFunctions.h"],[("derivative formulas","BoostFunctions.h:Cyl_*_derivative")])
p("C42","Orthogonal polynomial and factorial wrappers",
  "For every degree up to the bound and every x in [-1,1], the Chebyshev and Legendre wrappers return the polynomial of that degree and its derivative, the shifted version the polynomial at 2x-1, the recurrence step the next polynomial; factorial returns n! and the gamma wrapper satisfies Gamma(n+1) = n!.",
  ["inputs"],"all x in [-1,1], all degrees up to the bound","tests sample a few degrees and points",
  ["BoostFunctions.h"],[("wrappers","BoostFunctions.h:Chebyshev_*, Legendre_*, Factorial")])
p("C43","Splines pass through their data points",
  "For every data set over increasing abscissae, the spline built from Eigen or standard vectors takes the tabulated value at every abscissa, depends linearly on the ordinates, and reproduces every polynomial of degree at most the spline degree (and the number of points minus one) between the data points.",
  ["inputs","configurations"],"all ordinates, for stated abscissae, number of points and degrees","one Heaviside-shaped data set is plotted",
  ["Spline.h"],[("scaling and fitting","Spline.h")])
p("C44","Singular values, eigenvalues and definiteness",
  "The singular value decomposition returns orthonormal U and V and non-negative decreasing singular values with U*S*V^T = A; the eigenvalues of a square matrix, with multiplicity, are the roots of its characteristic polynomial; a matrix is reported positive semi-definite exactly when it is square and the real parts of all its eigenvalues are above minus the tolerance.",
  ["inputs"],"all 2x2 matrices of stated sign patterns, all multiples of a family of matrices, diagonal matrices, sizes 1 to 6","tests print these results for one random matrix",
  ["Matrix.h","Matrix33.h","Matrix66.h"],[("wrappers","Matrix*.h:GetSVDDecomposition/Eigenvalues/IsPositiveSemiDefinite")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False)+"\n")
print(len(P))
