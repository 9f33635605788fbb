import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
I=["inputs"]
p("C01","abs, copysign and signum are exact on every bit pattern",
 "For every f32 bit pattern (NaNs, infinities, subnormals and both zeros included) abs clears only the sign bit, copysign keeps the magnitude bits of its receiver and takes the sign bit of its argument, and signum is NaN for NaN and otherwise 1.0 or -1.0 according to the sign bit.",
 I,"all 2^32 bit patterns, all 2^64 pairs for copysign","The unit tests try about a dozen values per function; a mask or branch error on other exponents, on subnormals or on NaN payloads is invisible to them.",
 ["src/float/abs.rs","src/float/copysign.rs","src/float/signum.rs"],[("sign-bit masking","src/float/abs.rs, src/float/copysign.rs"),("NaN test before copysign","src/float/signum.rs")],["F32Ext::abs/copysign/signum","F32::abs/copysign/signum"])
p("C02","floor and ceil return the exact mathematical floor and ceiling",
 "For every finite f32, floor returns the largest integer not above the argument and ceil the smallest integer not below it, numerically exact at every magnitude including beyond the range of a 32-bit integer. Infinities and NaN are returned unchanged in kind (the sign of a zero result is not specified).",
 I,"all 2^32 bit patterns","The tests use small magnitudes only; saturation of the integer conversion, the 2^23 boundary and negative fractions next to an integer are not sampled.",
 ["src/float/floor.rs","src/float/ceil.rs"],[("early return when no fraction bits exist, integer conversion and correction","src/float/floor.rs"),("ceil(x) = -floor(-x)","src/float/ceil.rs")],["F32Ext::floor/ceil"])
p("C03","round returns the nearest integer, ties away from zero",
 "For every finite f32, round returns the integer nearest to the argument, and a value exactly half way between two integers goes to the one farther from zero, numerically exact at every magnitude. Infinities and NaN are returned unchanged in kind.",
 I,"all 2^32 bit patterns","Double rounding shows up only at values one ulp from a half or above 2^23, which the handful of sampled values does not contain.",
 ["src/float/round.rs","src/float/trunc.rs"],[("exact comparison of the fraction with one half","src/float/round.rs")],["F32Ext::round"])
p("C04","trunc and fract split every value exactly",
 "For every finite f32, trunc returns the integer part (rounded toward zero, numerically exact at every magnitude), fract returns exactly the difference between the value and its integer part, both carry the sign of the argument (zero results included), and their sum is the argument. trunc maps infinities to themselves, fract maps them to zero of the same sign, and both map NaN to NaN.",
 I,"all 2^32 bit patterns","The functions shift mantissa bits by the exponent; wrong shifts appear only for particular exponents (for example 32 and above) that the sampled values do not reach.",
 ["src/float/trunc.rs","src/float/fract.rs"],[("mantissa masking by exponent","src/float/trunc.rs"),("re-normalisation of the fraction bits","src/float/fract.rs")],["F32Ext::trunc/fract"])
p("C05","sin and cos stay within 0.002 of the true values",
 "For every f32 x with |x| <= 8000 (radians), cos(x) and sin(x) differ from the true cosine and sine by at most 0.002. sin_cos returns the same pair of values that sin and cos return separately.",
 I,"all f32 in [-8000, 8000] (about 2.3 billion values); sin_cos for every f32","The tests check a few dozen multiples of pi/8 within one or two turns, and accept any error of one sign; range reduction for larger angles and the values between the samples are not settled.",
 ["src/float/cos.rs","src/float/sin.rs","src/float/sin_cos.rs"],[("range reduction by floor and parabolic approximation","src/float/cos.rs"),("phase shift","src/float/sin.rs")],["F32Ext::sin/cos/sin_cos"])
p("C06","tan stays within 0.6 of the true tangent away from its poles",
 "For every f32 x with |x| <= 1000 (radians) whose true tangent has magnitude at most 20, tan(x) differs from the true tangent by at most 0.6; where the true tangent has magnitude at most 1 the difference is at most 0.006.",
 I,"all f32 in [-1000, 1000] with |tan| <= 20","The tests use a table of multiples of pi/8 with a one-sided comparison.",
 ["src/float/tan.rs","src/float/sin.rs","src/float/cos.rs"],[("quotient of sin and cos","src/float/tan.rs")],["F32Ext::tan"])
p("C07","atan stays within 0.00285 rad of the true arctangent everywhere",
 "For every f32 x that is not NaN, infinities included, atan(x) differs from the true arctangent by at most 0.00285 radians, and atan_norm(x) lies in [-1, 1] and differs from the true arctangent divided by pi/2 by at most 0.00182. Both results carry the sign of x (zero included).",
 I,"all non-NaN f32","The tests sample 20 values of moderate size; overflow of intermediate products for large arguments and the peak of the approximation error lie between the samples.",
 ["src/float/atan.rs"],[("rational approximation of the first quadrant, sign bit restored","src/float/atan.rs")],["F32Ext::atan/atan_norm"])
p("C08","atan2 gives the right quadrant and an angle within 0.003 rad",
 "For all finite f32 y and x of any magnitude and either sign, not both zero, atan2(y, x) is within 0.003 radians of the true four-quadrant angle (modulo a full turn) and has magnitude at most 3.1416; atan2_norm(y, x) is that angle in quarter turns, within 0.0019 modulo 4, and lies in [0, 4). When both arguments are zero of either sign, both functions return 0. Non-zero arguments whose magnitudes are below 1e-37 are exempt from the accuracy bound.",
 I,"all pairs of finite f32","The tests use a table of about 20 pairs of moderate size; overflow or underflow of products, the axes, and quadrant boundaries with unequal magnitudes are not covered.",
 ["src/float/atan2.rs"],[("quadrant from sign bits, scaled ratio, rational approximation","src/float/atan2.rs")],["F32Ext::atan2/atan2_norm"])
p("C09","asin and acos are accurate on [-1, 1] and NaN outside it",
 "For every f32 x in [-1, 1], asin(x) is within 0.02 radians of the true arcsine and acos(x) within 0.03 radians of the true arccosine, asin(x) lies in [-pi/2, pi/2] and acos(x) in [0, pi] up to an excess of 0.001. For every x outside [-1, 1] and for NaN both return NaN.",
 I,"all 2^32 bit patterns","The tests sample a table of values with a one-sided comparison; the neighbourhoods of 0 and of +-1 where the square root approximation and the division are extreme are not sampled.",
 ["src/float/asin.rs","src/float/acos.rs","src/float/atan.rs","src/float/sqrt.rs","src/float/invsqrt.rs"],[("arctangent of x*invsqrt(1-x^2)","src/float/asin.rs"),("arctangent of sqrt(1-x^2)/x with shift by pi","src/float/acos.rs")],["F32Ext::asin/acos"])
p("C10","exp and cosh are accurate over their whole range",
 "For every f32 x in [-87, 88.7], exp(x) is positive and within a relative error of 0.0025 of e^x; below -87 it is in [0, 2e-38], above 88.8 it is positive infinity, between 88.7 and 88.8 it is either accurate or infinite, exp of a zero is exactly 1, and NaN gives NaN. cosh(x) is within 0.003 of the true value for 0 <= x <= pi and within 0.1 for pi <= x <= 2pi.",
 I,"all 2^32 bit patterns","The tests sample a small table; the reassembly of the exponent at powers of two, underflow and overflow boundaries and negative arguments are hit only at isolated points.",
 ["src/float/exp.rs","src/float/cosh.rs"],[("split into 2^n times a short series","src/float/exp.rs"),("average of two exponentials","src/float/cosh.rs")],["F32Ext::exp","F32::cosh"])
p("C11","Logarithms are accurate for every positive normal number",
 "For every positive normal f32 x, ln(x) is within 0.0001 of the true natural logarithm, log2(x) within 0.00016 and log10(x) within 0.00005; for x in [1e-30, 1e30] and a base b in [1.5, 1e6] or [1e-6, 0.6], log(x, b) is within 0.0002*(1+|log_b x|)/|ln b| of the true log_b x. ln, log2 and log10 of 1 are exactly 0, of positive infinity are positive infinity, and of NaN or of any number below zero are NaN.",
 I,"all 2^32 bit patterns; all pairs (x, base) in the stated ranges","The tests sample integers and a few powers; numbers below 1, mantissas between the samples and extreme exponents are not settled.",
 ["src/float/ln.rs","src/float/log2.rs","src/float/log10.rs","src/float/log.rs"],[("exponent times ln 2 plus polynomial in the mantissa","src/float/ln.rs"),("change of base by multiplication","src/float/log2.rs, log10.rs, log.rs")],["F32Ext::ln/log2/log10/log"])
p("C12","sqrt, invsqrt and hypot keep their relative error bounds",
 "For every positive normal f32 x, sqrt(x)/true lies in [0.999999, 1.0608] and invsqrt(x)/true in [0.965, 1.035]; both return NaN for every number below zero and for NaN, and sqrt of either zero is at most 1e-18 in magnitude. For all f32 x and y with 1e-18 <= max(|x|,|y|) <= 1e19, hypot(x, y) divided by the true length lies in [0.9999, 1.0612].",
 I,"all 2^32 bit patterns for sqrt and invsqrt, all pairs in range for hypot","The tests compare a few values with a tolerance of about 5 percent on selected inputs; the constant and the shift act differently on odd and even exponents and on each mantissa.",
 ["src/float/sqrt.rs","src/float/invsqrt.rs","src/float/hypot.rs"],[("bit-level square root","src/float/sqrt.rs"),("bit-level inverse square root","src/float/invsqrt.rs"),("sqrt of the sum of squares","src/float/hypot.rs")],["F32Ext::sqrt/invsqrt/hypot"])
p("C13","inv and recip approximate 1/x with the right sign",
 "For every f32 x with 1.2e-38 <= |x| <= 8.5e37, inv(x)*x lies in [1, 1.1251] and recip(x)*x in [0.999975, 1.000025], so both have the sign of x. For |x| above 8.5e37 and for infinities inv(x) is between 0 and 1.3e-38 in magnitude and recip(x) is within 1e-42 of 1/x, and NaN gives NaN.",
 I,"all 2^32 bit patterns with |x| >= 1.2e-38, NaN","The tests use positive integers 1 to 50 and a few extremes; other mantissas, negative inputs and the largest exponents are not covered.",
 ["src/float/inv.rs","src/float/recip.rs"],[("bit-level reciprocal with sign restored","src/float/inv.rs"),("bit-level start value and polynomial refinement","src/float/recip.rs")],["F32Ext::inv/recip"])
p("C14","powi computes integer powers with a few ulps per multiplication",
 "For every f32 x and every i32 n with |n| <= 64, where the true x^n lies in [1e-36, 1e36] in magnitude powi(x, n) has a relative error of at most (|n|+2)*1.2e-7; a true magnitude above 1e39 gives an infinity of the right sign and one below 1e-46 gives zero. For every n, powi(x, 0) is 1 for every x including NaN, a NaN x with n != 0 gives NaN, and the result is never negative when the sign bit of x is clear or n is even.",
 I,"all f32 x and all i32 n (accuracy for |n| <= 64)","The tests use a table of exponents between about -3 and 200 with one-sided comparisons; early exits for particular exponent products and negative powers of particular bases lie outside it.",
 ["src/float/powi.rs"],[("square-and-multiply loop","src/float/powi.rs"),("early exit on exponent estimate","src/float/powi.rs")],["F32Ext::powi"])
p("C15","powf follows the sign and NaN rules of real powers and is accurate",
 "For x in [1e-6, 1e6] and |n| <= 6 powf(x, n) is within a relative error of 0.004 of x^n. For every x below zero, powf(x, n) is NaN when n is finite and not an integer, equals powf(-x, n) when n is an even integer and -powf(-x, n) when n is an odd integer; powf(x, 0) is 1 for every finite positive x; NaN as x gives NaN.",
 I,"all pairs of f32 for the sign and NaN rules, all pairs in range for accuracy","The tests use a table of integral and a few fractional exponents; parity and integrality for other magnitudes of n, and accuracy between the samples, are not settled.",
 ["src/float/powf.rs","src/float.rs","src/float/exp.rs","src/float/ln.rs"],[("exp(n*ln(x))","src/float/powf.rs"),("integrality and parity tests on the exponent bits","src/float.rs")],["F32Ext::powf"])
p("C16","div_euclid and rem_euclid form a Euclidean division",
 "For all finite f32 x and finite non-zero y, rem_euclid(x, y) lies in [0, |y|] and equals the IEEE remainder x % y when that is not negative and otherwise that remainder plus |y| (rounded once). div_euclid(x, y) equals trunc(x / y) when x % y is not negative and otherwise is one less than that for positive y and one more for negative y.",
 I,"all pairs of finite f32 with y != 0","The tests use one pair of values with the four sign combinations.",
 ["src/float/div_euclid.rs","src/float/rem_euclid.rs","src/float/trunc.rs"],[("correction of the truncated quotient","src/float/div_euclid.rs"),("correction of the remainder","src/float/rem_euclid.rs")],["F32Ext::div_euclid/rem_euclid"])
p("C17","NaN inputs always give NaN",
 "Every function of one f32 in the extension trait (abs, acos, asin, atan, atan_norm, ceil, cos, exp, floor, fract, inv, invsqrt, ln, log2, log10, round, signum, sin, sqrt, tan, trunc, and cosh of the wrapper type) returns NaN for every NaN bit pattern. So do hypot, atan2, div_euclid, rem_euclid, mul_add and log when any argument is NaN.",
 I,"all NaN bit patterns, with every value of the other argument","Only some functions have a NaN test, with a single NaN bit pattern; functions that manipulate bits treat other payloads as ordinary numbers.",
 ["src/float"],[("explicit NaN tests or arithmetic propagation","src/float/*.rs")],["F32Ext"])
p("C18","No float function panics, whatever the input",
 "No method of the f32 extension trait and none of the corresponding methods of the wrapper type panics for any combination of argument values (NaN, infinities, subnormals, i32::MIN included), with debug assertions and integer overflow checks enabled.",
 I,"all argument tuples of all float functions","A panic needs one particular exponent or a value such as i32::MIN; the tests call each function with a few dozen ordinary values.",
 ["src/float.rs","src/float"],[("exponent arithmetic, set-exponent assertion, integer conversions","src/float.rs, src/float/exp.rs, powi.rs, invsqrt.rs, fract.rs")],["F32Ext, F32"])
p("C19","The F32 wrapper's arithmetic is plain f32 arithmetic",
 "For all values, +, -, *, /, % and their assigning forms, between two wrappers, wrapper and f32, and f32 and wrapper, and negation, give exactly the result of the same operation on the wrapped f32 values (any NaN counts as equal to any NaN). mul_add(x, a, b) is x*a + b, rounded after the product and after the sum.",
 I,"all pairs of f32 bit patterns","There are 3 variants of 10 operators generated by hand; tests touch few of them and a swapped operand or wrong operator in one variant is not exercised.",
 ["src/float.rs","src/float/mul_add.rs"],[("operator impls delegating to f32","src/float.rs")],["operators on F32"])
p("C20","The f32 extension trait and the F32 wrapper agree bit for bit",
 "For all arguments, each method of the f32 extension trait returns bit for bit the value (or any NaN where that is NaN) that the method of the same name on the wrapper type returns, with the arguments in the same order.",
 I,"all argument tuples of all 33 methods","Most tests call the wrapper directly, so a trait method that forwards to a neighbouring function or swaps its arguments passes them.",
 ["src/f32ext.rs"],[("one-line delegations","src/f32ext.rs")],["F32Ext"])
p("C21","F32 comparisons, conversions, classification and folds match f32",
 "For all values, ==, !=, <, <=, >, >= and partial_cmp between wrappers and f32 in either position agree with f32; from/into f32, from_bits/to_bits, conversions from i8, i16, u8 and u16, the default value, is_nan, is_infinite, is_finite, is_sign_positive and is_sign_negative agree with f32, and the associated constants equal those of f32. Sum and Product over a sequence of wrappers equal the left-to-right f32 sum starting from 0 and product starting from 1.",
 I,"all pairs of f32 bit patterns, all small integers, all sequences of up to 2^24 items","Comparison and conversion impls are hand written per variant; tests exercise few of them.",
 ["src/float.rs"],[("delegating impls","src/float.rs")],["F32"])
p("C22","Vector addition, subtraction and scaling act per component",
 "For 2D and 3D vectors of every component type (i8, i16, i32, u8, u16, u32, f32, and the float wrapper), +, -, vector*scalar, scalar*vector and vector/scalar, their assigning forms, and Sum over vectors apply the component type's operation to each component independently and in place; for integer components they panic exactly when the component operation overflows or divides by zero.",
 I,"all component values of all 16 vector types","Tests use one or two small vectors of a few types; a mistake in one component, one type's impl or one assigning operator is not sampled.",
 ["src/vector/vector2d.rs","src/vector/vector3d.rs","src/vector/commutative.rs"],[("component-wise impls","src/vector/vector2d.rs, vector3d.rs"),("scalar*vector macro","src/vector/commutative.rs")],["operators on Vector2d, Vector3d"])
p("C23","Dot, cross and perpendicular products satisfy their definitions",
 "For integer vectors without overflow, dot (inherent and trait), cross, the * between vectors, perpendicular_dot and magnitude_sq equal the exact algebraic expressions (the cross product of 2D vectors is that of the same vectors with z = 0). For f32 vectors with components of magnitude at most 1e18 each differs from the exact expression by at most 5e-7 times the sum of the absolute values of its terms, plus 1e-40.",
 I,"all component values of all vector types","Tests use one pair of small vectors; an index or sign slip in one term can be masked by zero or equal components.",
 ["src/vector/vector2d.rs","src/vector/vector3d.rs","src/vector.rs"],[("inner and outer product formulas","src/vector/vector2d.rs, vector3d.rs"),("fold over the component iterator","src/vector.rs")],["Vector2d/Vector3d::dot, cross, perpendicular_dot, magnitude_sq, Mul"])
p("C24","Vector construction, access, iteration and conversion agree",
 "For every vector type and all component values, conversions from and to tuples, arrays, slices and iterators keep the components in x, y, (z) order; indexing, get, iter and to_array report the same components; map calls its function once per component in that order and takes its results as the components; widening conversions to f32 vectors are exact and 2D to 3D sets z to zero. Indexing out of range and building from a sequence with too few or too many items panic, and get out of range returns None. Two vectors compare equal exactly when all their components do.",
 I,"all component values, all indices, all sequence lengths","Tests cover a few conversions of one type; order mistakes with equal components and the out-of-range cases of each type are not sampled.",
 ["src/vector.rs","src/vector/iter.rs","src/vector/vector2d.rs","src/vector/vector3d.rs"],[("From/Index/FromIterator impls, component iterator","src/vector/*.rs")],["Vector2d, Vector3d, Vector, Iter"])
p("C25","Magnitude, distance and normalization of vectors",
 "For f32 vectors (and, for magnitude and distance, integer vectors that convert losslessly) whose sum of squares lies in [1e-36, 1e38], magnitude divided by the true Euclidean length, and distance divided by the true length of the difference, lie in [0.9999, 1.0612] as compiled for a no_std user. normalized divides each component by that magnitude, so it keeps the direction (up to f32 rounding) and its true length lies in [0.94, 1.0002].",
 I,"all component values in range","Tests compare one or two vectors, and unit tests link the standard library's exact square root instead of the one users get.",
 ["src/vector.rs","src/float/sqrt.rs"],[("sum of squares and square root approximation","src/vector.rs")],["Vector::magnitude, distance, normalized"])
p("C26","Quaternion algebra obeys the Hamilton rules",
 "For all components, the product of two quaternions equals the Hamilton product, and dot and norm equal a1*a2+b1*b2+c1*c2+d1*d2 and a²+b²+c²+d², each component within 1e-6 times the sum of the absolute values of its terms plus 1e-40, when all components are at most 1e18 in magnitude. +, -, their assigning forms, scaling by a scalar on either side and conj act exactly per component (conj negates the three imaginary parts), and construction, w/x/y/z accessors and conversions from and to tuples and arrays keep (w, x, y, z) order. Two quaternions compare equal exactly when all their components do.",
 I,"all component values","Tests multiply basis-like or one pair of quaternions; a sign or index slip in one of 16 terms can vanish against zeros.",
 ["src/quaternion.rs"],[("Hamilton product formula and component-wise impls","src/quaternion.rs")],["Quaternion operators"])
p("C27","Rotating a vector equals conjugation by the quaternion",
 "For all quaternions q and vectors v with components of magnitude at most 1e9, rotate(v) (and q * v, for f32 and small-integer vectors) equals the vector part of q v conj(q), each component within 2e-6 times the sum of the absolute values of the expanded terms, plus 1e-30. So a unit quaternion preserves lengths and angles up to rounding.",
 I,"all components of quaternion and vector","Tests rotate one or two axis-aligned vectors, for which most of the 30 terms are zero.",
 ["src/quaternion.rs"],[("expanded rotation matrix","src/quaternion.rs")],["Quaternion::rotate, Quaternion * Vector3d"])
p("C28","Quaternion inverse, normalization, magnitude and axis-angle",
 "For quaternions whose true norm (sum of squares) lies in [1e-36, 1e36]: magnitude is within a factor [0.9999, 1.0612] of the true length; normalize keeps the direction (up to f32 rounding) and the true length of its result is in [0.964, 1.036]; the exact product of q and inv(q) has a real part in [0.999, 1.126] and imaginary parts of at most 1e-5. normalize and inv panic exactly when norm() is zero, for every quaternion, and axis_angle(v, t) is (cos(t/2), v*sin(t/2)) with the crate's cos and sin.",
 I,"all component values and angles","Tests use single quaternions; the bounds rest on approximations that vary with every mantissa, and the division by zero guard needs a zero norm.",
 ["src/quaternion.rs","src/float/sqrt.rs","src/float/invsqrt.rs","src/float/inv.rs"],[("scaling by approximations of the norm","src/quaternion.rs")],["Quaternion::inv, normalize, magnitude, axis_angle"])
p("C29","from_two_vectors builds a rotation taking one direction to the other",
 "For f32 vectors u and v whose components are at most 1000 in magnitude and whose lengths are at least 0.001, from_two_vectors(u, v) has a squared length in [0.93, 1.075], and rotating u with it gives a vector whose direction is within 0.01 radians of the direction of v, also when the vectors are parallel, opposite or nearly so.",
 I,"all pairs of vectors in range","Tests use a few axis-aligned pairs; opposite vectors in other directions and near-opposite pairs are not sampled.",
 ["src/quaternion.rs","src/float/sqrt.rs","src/float/invsqrt.rs"],[("half-angle construction with an orthogonal fallback axis","src/quaternion.rs")],["Quaternion::from_two_vectors"])
p("C30","to_euler returns the standard roll, pitch and yaw",
 "For every quaternion (w, x, y, z) with components of magnitude at most 1e18, to_euler returns roll = atan2(2(wx+yz), 1-2(x²+y²)), pitch = asin of 2(wy-xz) clamped to [-1, 1], and yaw = atan2(2(wz+xy), 1-2(y²+z²)), with the crate's atan2 and asin and each argument within 1e-6 times the sum of the absolute values of its terms, plus 1e-40. The pitch is never NaN there.",
 I,"all component values","Tests convert a couple of quaternions; index slips vanish against zero components and gimbal-lock rounding needs specific values.",
 ["src/quaternion.rs"],[("Euler angle formulas","src/quaternion.rs")],["Quaternion::to_euler"])
p("C31","mean, variance and stddev follow their definitions",
 "For every sequence of n f32 values (n at most 2^24) of magnitude at most 1e15, mean is their sum divided by n (n >= 1) and variance is the sum of squared deviations from that mean, as this crate computes it, divided by n-1 (n >= 2), each within rounding of the exact value: at most (n+8)*1.2e-7 times the same expression with all terms taken positive. For every sequence of any values stddev is the crate's sqrt of that variance, and items of other types convert to f32 first.",
 I,"all sequences of values of every length up to 2^24","Tests use one array of five or six values; a wrong divisor, an item skipped or counted twice at other lengths is not sampled.",
 ["src/statistics/mean.rs","src/statistics/variance.rs","src/statistics/stddev.rs"],[("accumulation loops","src/statistics/mean.rs, variance.rs")],["Mean::mean, Variance::variance, StdDev::stddev"])
p("C32","trim keeps exactly the items within the threshold, in order",
 "For every slice of at most 2^24 items and every threshold t, trim_at(t) yields, in order and unchanged, exactly the items x with |x - mean| / s < t, where mean and s are the arithmetic mean and standard deviation of the whole slice as this crate computes them, and trim() does so for t = 2.",
 I,"all slices of up to 2^24 items and thresholds","Tests use one slice with the default threshold.",
 ["src/statistics/trim.rs"],[("filtering iterator","src/statistics/trim.rs")],["Trim::trim, trim_at"],
 [("mean, stddev, threshold","fixed when the iterator is made","src/statistics/trim.rs")])
p("C33","The num-traits implementations of the wrapper agree with f32",
 "With the num-traits feature, zero() and one() are 0.0 and 1.0, is_zero is true exactly for both zeros and is_one exactly for 1.0, for every value, and the Inv trait's inv equals the wrapper's own inv bit for bit (any NaN where that is NaN).",
 I,"all 2^32 bit patterns","The one test calls inv on a few values.",
 ["src/float.rs"],[("trait impls","src/float.rs")],["num_traits::{Zero, One, Inv} for F32"])
p("C34","Text formatting and parsing of the wrapper match f32",
 "For every value, formatting the wrapper with Display, LowerExp and UpperExp ({}, {:e} and {:E} without further options) produces the text that f32 gives for the wrapped value, and FromStr (and from_str_radix in radix 10) accept exactly the texts f32 accepts and give the same value.",
 I,"all values and all texts","Tests do not exercise formatting or parsing.",
 ["src/float.rs"],[("delegating impls","src/float.rs")],["Display, LowerExp, UpperExp, FromStr, Num::from_str_radix"])
p("C35","Every feature combination builds and exposes the same behaviour",
 "For every subset of the cargo features the crate compiles without the standard library, and enabling a feature does not change the result of any function available without it.",
 ["configurations"],"all subsets of the cargo features","Upstream builds three feature sets and the tests run with all features.",
 ["Cargo.toml","src/lib.rs","src/quaternion.rs"],[("cfg(feature) gates","src/lib.rs, src/quaternion.rs")],["cargo build"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
