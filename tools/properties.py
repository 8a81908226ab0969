#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: one source for both."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
F = lambda n: f"src/float/{n}.rs"

def prop(id, title, statement, qtext, why, files, mech, technique, note, over=("inputs",)):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=["return values of the public API"], hook_needed=None),
                  technique=technique, note=note))

SAN = "Built with overflow checks and debug assertions, so a panic or an arithmetic overflow in the code under test is a violation, and so is a call that takes 20 s of CPU."

prop("C01", "floor, ceil, trunc, round and fract are exact",
     "For every f32, floor, ceil, trunc and round return exactly the integer that std's function of the same name returns (round: halves away from zero), and fract returns exactly x - trunc(x); the sign of a zero result is unspecified. "
     "NaN gives NaN, and infinities are their own floor, ceil, trunc and round (their fract is unspecified).",
     "all 2^32 f32 bit patterns, through F32 and through F32Ext",
     "The tests look at a few dozen values between -100 and 100; a wrong mask or cast shows at integers beyond i32, near 2^23, at halves, or at infinities.",
     [F("floor"), F("ceil"), F("trunc"), F("round"), F("fract")],
     [("cast to integer and correct by one", F("floor")), ("negated floor", F("ceil")), ("masking of the fractional mantissa bits", F("trunc") + ", " + F("fract")), ("half-up by sign", F("round"))],
     "runtime monitor with an exact integer oracle on every f32 bit pattern", "Exhaustive over f32, so the verdict is complete for the build under test. " + SAN)
prop("C02", "Sign, magnitude and classification of a float are exact",
     "For every f32, abs clears the sign bit, copysign(x, y) has the magnitude bits of x and the sign bit of y, signum is +1 or -1 by the sign bit (NaN for NaN), and negation flips the sign. "
     "is_nan, is_infinite, is_finite, is_sign_positive and is_sign_negative of F32 agree with f32's own, and to_bits/from_bits round-trip every bit pattern.",
     "all 2^32 f32 bit patterns (copysign: each with both signs, and random pairs)",
     "The tests try a handful of numbers; NaN, signed zeros, subnormals and infinities are not among them.",
     [F("abs"), F("copysign"), F("signum"), "src/float.rs"], [("sign mask", F("abs") + ", " + F("copysign")), ("classification", "src/float.rs: F32::is_nan and following")],
     "runtime monitor on the bits of every f32 bit pattern", "Exhaustive for the unary operations; copysign pairs are sampled. " + SAN)
prop("C03", "Euclidean division and remainder are those of std",
     "div_euclid and rem_euclid return what f32::div_euclid and f32::rem_euclid of std return for the same two arguments (the sign of a zero is unspecified, and all NaNs are one value). "
     "In particular rem_euclid by a non-zero divisor is in [0, |y|] for every finite x.",
     "all pairs of f32", "The tests check one pair or so per operation; four sign combinations, exact multiples, zero and infinite divisors and huge quotients are untested.",
     [F("div_euclid"), F("rem_euclid"), F("trunc"), F("abs")], [("truncated quotient corrected by the sign of the remainder", F("div_euclid")), ("remainder made non-negative", F("rem_euclid"))],
     "runtime monitor comparing with std on hostile pairs and exhaustive grids", "150 million random hostile pairs (3 billion thorough), a full grid of multiples of 1/8, all pairs of special values; not all 2^64 pairs. " + SAN)
prop("C04", "Sine and cosine stay within 0.002",
     "For |x| <= 4096, sin(x) and cos(x) differ from the true value by at most 0.002, and for |x| <= 2^20 by at most 0.002 + 2e-7 |x|; sin_cos(x) is exactly the pair (sin(x), cos(x)). "
     "Every finite argument, however large, gives a result of at most 1.000001 in magnitude, and NaN and the infinities give NaN.",
     "all 2^32 f32 bit patterns", "The tests check multiples of a step over a few turns with the same tolerance; they cannot see a wrong fold for large or negative arguments, or a sliver between two samples.",
     [F("sin"), F("cos"), F("sin_cos")], [("parabola with a correction term over the folded turn", F("cos")), ("phase shift by a quarter turn", F("sin"))],
     "runtime monitor with an f64 oracle on every f32 bit pattern", "Exhaustive over f32. The oracle is f64 sin and cos of libm. " + SAN)
prop("C05", "Tangent stays within its error away from the poles",
     "For |x| <= 4096 with |tan x| <= 16, tan(x) differs from the true value by at most 0.0025 (1 + tan^2 x), and by at most 0.6. Every finite argument gives a result that is not NaN, and NaN and the infinities give NaN.",
     "all 2^32 f32 bit patterns", "The tests sample a few angles.", [F("tan"), F("sin"), F("cos")], [("quotient of sine and cosine", F("tan"))],
     "runtime monitor with an f64 oracle on every f32 bit pattern", "Exhaustive over f32. " + SAN)
prop("C06", "Arctangent stays within 0.1645 degrees",
     "For every f32, atan(x) differs from the true arctangent by at most 0.00287 rad, with at most 7% relative error for |x| <= 1, is odd, and lies in [-pi/2, pi/2]; atan_norm is the same angle in units of a quarter turn, in [-1, 1], within 0.1645 degrees. "
     "NaN gives NaN and the infinities give +-pi/2.",
     "all 2^32 f32 bit patterns", "The tests check some 60 values, all of moderate size.", [F("atan")], [("rational approximation of the normalized arctangent", F("atan") + ": F32::atan_norm")],
     "runtime monitor with an f64 oracle on every f32 bit pattern", "Exhaustive over f32. The documentation names 0.1620 degrees, reached at 0.16203; the bound leaves 1.5%. " + SAN)
prop("C07", "Four-quadrant arctangent is right in every quadrant and at every scale",
     "atan2(y, x) differs from the true angle of (x, y) by at most 0.00287 rad modulo a full turn, lies in [-pi, pi], is not negative for y > 0 or y = +0 (pi, not -pi, on the negative x axis), is not positive for y < 0 unless within that error of the negative x axis, and is 0 at the origin. "
     "atan2_norm is the same angle in quarter turns, in [0, 4), within 0.1645 degrees modulo a turn. This holds whatever the sizes of the coordinates, for one infinite coordinate too, and a NaN coordinate gives NaN (two infinite ones are unspecified).",
     "all pairs of f32", "The tests check about 40 pairs with coordinates around one; axes, the origin, huge, tiny and infinite coordinates and the seam at zero are untested.",
     [F("atan2")], [("octant reduction, atan of the ratio", F("atan2") + ": F32::atan2_norm"), ("half turn taken off beyond two quarters", F("atan2") + ": F32::atan2")],
     "runtime monitor with an f64 oracle on hostile pairs, circles and exhaustive rays", "150 million random pairs, 20 million points on circles of all radii, all pairs of specials, and every f32 against +-1; not all 2^64 pairs. " + SAN)
prop("C08", "Arcsine and arccosine stay within 0.02 and 0.03",
     "For |x| <= 1, asin(x) differs from the true value by at most 0.02 rad (and by at most 10% for |x| <= 1e-3), is odd and lies in [-pi/2, pi/2], and acos(x) differs by at most 0.03 rad and lies in [0, pi]. Outside of [-1, 1] and for NaN both give NaN.",
     "all 2^32 f32 bit patterns", "The tests check five to ten values each.", [F("asin"), F("acos"), F("atan"), F("invsqrt"), F("sqrt")],
     [("arctangent of x / sqrt(1 - x^2)", F("asin")), ("arctangent of sqrt(1 - x^2) / x, shifted for negatives", F("acos"))],
     "runtime monitor with an f64 oracle on every f32 bit pattern", "Exhaustive over f32. " + SAN)
prop("C09", "Square root, inverse square root and hypotenuse stay within 6.1% and 3.45%",
     "For every normal positive x, sqrt(x) is within 6.1% and invsqrt(x) within 3.45% of the true value; sqrt of +-0 and of subnormals is within 2e-19 of it, sqrt(+inf) = +inf, and negative numbers and NaN give NaN from both. "
     "hypot(x, y) is within 6.1% of sqrt(x^2 + y^2) when that sum of squares is a normal f32 (within 2.5e-19 when it underflows), ignores signs and order of its arguments, and is +inf for an infinite argument. Averaged over all inputs the errors of sqrt and hypot stay below 5%.",
     "all 2^32 f32 bit patterns; for hypot all pairs of f32", "The tests check ten numbers or so to 5% relative error.", [F("sqrt"), F("invsqrt"), F("hypot")],
     [("halving of the exponent bits", F("sqrt")), ("the constant of the fast inverse square root", F("invsqrt")), ("sqrt of the sum of squares", F("hypot"))],
     "runtime monitor with an f64 oracle on every f32 bit pattern and on hostile pairs", "Exhaustive for sqrt and invsqrt; hypot on 150 million random pairs, Pythagorean and integer grids, specials. " + SAN)
prop("C10", "Reciprocals stay within 12.6% (inv) and 1e-5 (recip)",
     "For 2^-126 <= |x| < 2^126, inv(x) is within 12.6% of 1/x and exact for powers of two, and recip(x) is within 1e-5 relative of 1/x; beyond, up to the largest finite number, inv is within 1.2e-38 of it and recip within 1e-5 relative up to the rounding of a subnormal result. "
     "Both keep the sign of x, infinities give zero, inv of zeros and subnormals is at least 8e37 in magnitude and recip(+-0) is the infinity of that sign; NaN gives NaN, and num_traits::Inv for F32 is inv.",
     "all 2^32 f32 bit patterns", "The tests check some thirty positive numbers.", [F("inv"), F("recip"), "src/float.rs"],
     [("subtraction from a magic constant, sign carried over", F("inv")), ("Newton steps from a bit-trick guess", F("recip"))],
     "runtime monitor with an f64 oracle on every f32 bit pattern", "Exhaustive over f32. " + SAN)
prop("C11", "Exponential and hyperbolic cosine stay within their relative error",
     "exp(x) is within 0.1% of e^x for x > 0 and 0.25% for x < 0, within 1e-6 relative for |x| <= 1e-3, exactly 1 at 0, never negative, +inf where e^x exceeds the f32 range by more than 0.4%, within 1.2e-38 where e^x is below the normal range, 0 at -inf and NaN for NaN. "
     "cosh is even, within 0.003 of the true value for |x| <= pi, within 0.1 up to 2 pi and within 0.1% beyond until it overflows to +inf.",
     "all 2^32 f32 bit patterns", "The tests check nine values of exp and those of a table for cosh.", [F("exp"), F("cosh")],
     [("division by ln 2, power series of the remainder, exponent set", F("exp")), ("half the sum of two exponentials, rational form near zero", F("cosh"))],
     "runtime monitor with an f64 oracle on every f32 bit pattern", "Exhaustive over f32. " + SAN)
prop("C12", "Logarithms stay within 1e-4",
     "For every positive finite x, subnormals included, ln(x) differs from the true value by at most 1e-4 and log2 and log10 by at most 1e-4 in terms of ln (1.45e-4 and 4.4e-5), and all three are 0 at 1, -inf at +-0, +inf at +inf, and NaN for negative numbers and NaN. "
     "log(x, b), for positive finite x and b with |ln b| >= 0.01, differs from ln x / ln b by at most 1e-4 (1 + |ln x / ln b|) / (|ln b| - 1e-4); a negative x or a NaN gives NaN.",
     "all 2^32 f32 bit patterns; for log all pairs", "The tests check eight values or so per function, all in 1e-20..1e20.", [F("ln"), F("log"), F("log2"), F("log10")],
     [("exponent extraction and a polynomial on [1, 2)", F("ln")), ("multiples of ln", F("log2") + ", " + F("log10")), ("quotient of two logarithms", F("log"))],
     "runtime monitor with an f64 oracle on every f32 bit pattern and hostile pairs", "Exhaustive for ln, log2, log10; log on 150 million random pairs and a grid of integers. " + SAN)
prop("C13", "Powers with float exponents follow x^n over the whole plane",
     "For x != 0 and n with x^n in the normal f32 range, |powf(x, n)| is e^t within |n| 1e-4 + |t| 3e-7 + 0.0025 in the logarithm, where t = n ln|x|; its sign is negative exactly for negative x and odd integer n, and a negative x with a finite n that is not an integer gives NaN. "
     "Results whose logarithm is out of range by more than that become infinite or smaller than 2.4e-38. powf(x, 0) is 1 for every x, NaN included; another NaN argument gives NaN, and 0 to a positive (negative) power is 0 (infinite).",
     "all pairs of f32", "The tests check positive bases with nine exponents and a handful of negative ones.", [F("powf"), F("exp"), F("ln"), "src/float.rs"],
     [("exponential of n ln x", F("powf")), ("parity of the exponent", "src/float.rs: F32::is_integer, F32::is_even")],
     "runtime monitor with an f64 oracle on hostile pairs and exhaustive lines", "200 million random pairs aimed at the whole range of results, grids, specials, and whole lines x^0.5, x^2, x^3, 2^n, (-3)^n; not all 2^64 pairs. " + SAN)
prop("C14", "Integer powers follow x^n for every i32 exponent",
     "For every x and i32 n with x^n in the f32 range, powi(x, n) is x^n within (|n| + 2) 1.3e-7 in the logarithm (or 3e-45), with the sign of x^n; results beyond the range by more than that become infinite or 0. "
     "powi(x, 0) is 1 for every x, NaN included; for other n, NaN gives NaN, and 0 and infinite bases give 0 or an infinity of the right sign. Every exponent works, i32::MIN included.",
     "all pairs of f32 and i32", "The tests check a table of bases and exponents up to about 15; negative exponents with tiny bases, i32::MIN and odd exponents of negative bases beyond it are untested.", [F("powi")],
     [("square and multiply over the bits of |n|", F("powi"))],
     "runtime monitor with an f64 oracle on hostile pairs and exhaustive lines", "150 million random pairs, a grid, every exponent in blocks for eight bases and every base for three exponents; not all 2^64 pairs. " + SAN)
prop("C15", "Every operation returns for every argument, and NaN is not lost",
     "No numeric operation of F32 or F32Ext, and no magnitude, dot product, rotation, Euler angle, mean, variance, standard deviation or trimming of f32 values, panics, overflows an integer or loops, whatever the arguments (only inverting or normalizing a quaternion whose norm is 0 may panic). "
     "An operation on floats with a NaN argument returns NaN, except powf and powi with exponent 0, the classifications, and copysign's second argument.",
     "all f32 bit patterns per operation, and all tuples of arguments", "Tests use ordinary arguments, mostly in one build; a cast or shift that overflows for a few exponents panics in debug builds only.",
     ["src/float.rs", "src/float", "src/quaternion.rs", "src/vector", "src/statistics"], [("guards for NaN, zero and infinity before bit manipulation", "src/float/*.rs"), ("saturating casts", F("exp") + ", " + F("floor"))],
     "runtime totality monitor under overflow checks, debug assertions and a hang watchdog", "Every unary operation on a stride of 1/11 of the bit patterns and all NaNs (thorough: all bit patterns), random hostile tuples for the rest.")
prop("C16", "F32Ext on f32 computes what F32 computes",
     "Each method of the F32Ext trait, called on f32 values, returns bit for bit what the method of the same name of F32 returns for the same values, so code may be moved between the two without a change of result; atan2_norm of the trait is atan2 in quarter turns and acos of the trait is the arccosine.",
     "all f32 bit patterns per method, all tuples", "No test calls more than a few methods of the trait; a delegation to the wrong method or with swapped arguments compiles.",
     ["src/f32ext.rs"], [("delegation of each method", "src/f32ext.rs: impl F32Ext for f32")],
     "differential runtime monitor of two APIs on the same inputs", "A stride of 1/7 of the bit patterns (thorough: all) for unary methods, 100 million hostile tuples for the others.")
prop("C17", "F32 is transparent: operators, comparisons, conversions and text are f32's",
     "+, -, *, /, % and their assigning forms in every mix of F32 and f32, unary minus, ==, <, partial_cmp, conversion from and to f32 and from i8, i16, u8 and u16, Display, LowerExp, UpperExp, FromStr and from_str_radix give what f32 gives for every value, text and radix, with format options honoured and errors passed on. "
     "The associated constants, zero, one and default are those of f32, Sum and Product are those of the values within rounding, and mul_add(a, b) is self * a + b within two roundings.",
     "all pairs of f32, all integers of the narrow types, all format options", "No test covers the operators or the formatting.", ["src/float.rs", F("mul_add")],
     [("operator impls that unwrap and rewrap", "src/float.rs"), ("forwarding of formatters and parsers", "src/float.rs: impl Display, FromStr, Num")],
     "differential runtime monitor against f32's own operations", "80 million hostile pairs, all pairs of specials, every bit pattern for the conversions, 2 million values as text with 20 format options and into full sinks, 4 million strange texts.")
prop("C18", "Vector arithmetic is component-wise, and products are the algebraic ones",
     "For Vector2d and Vector3d of every component type (i8, i16, i32, u8, u16, u32, f32, F32), +, -, * scalar on either side where offered, / scalar, their assigning forms and Sum act on each component as the component type does, dot is the sum of products, the 3D cross product (and *) has components y z' - z y', z x' - x z', x y' - y x', and the 2D perpendicular dot is x y' - y x', in which cross and * of 2D put it into z. "
     "Integer results are exact wherever they and their intermediate terms are representable; single float operations are correctly rounded, and sums of products are within one rounding per term.",
     "all vectors of all component types", "The tests try one pair of vectors per operator for a few types.", ["src/vector.rs", "src/vector/vector2d.rs", "src/vector/vector3d.rs", "src/vector/commutative.rs"],
     [("operator impls", "src/vector/vector2d.rs, src/vector/vector3d.rs"), ("scalar-on-the-left macros", "src/vector/commutative.rs")],
     "runtime monitor with exact i128 and f64 oracles", "Exhaustive for 2D i8 and u8 pairs and scalars; random hostile vectors for the other types. Integer overflow is unspecified. " + SAN)
prop("C19", "What is put into a vector comes out again, in place and in order",
     "For every component type, constructing a vector from fields, tuple, array, slice or iterator and reading it by fields, get, index, iter, map, tuple or array yields the same components in the order x, y, z; get beyond the last axis is None, indexing there panics, iterators end for good after the last axis and their size hints are valid. "
     "from_slice and FromIterator accept exactly as many components as there are axes and panic otherwise; 2D to 3D appends a default z, widening to f32 vectors preserves every value of i8, u8, i16, u16 and F32, equality is that of the components, and the default is zero.",
     "all component values, all indices, all lengths, all component types", "The tests look at single vectors of one type or two.", ["src/vector.rs", "src/vector/iter.rs", "src/vector/vector2d.rs", "src/vector/vector3d.rs", "src/vector/component.rs"],
     [("conversions", "src/vector/vector2d.rs, src/vector/vector3d.rs"), ("iteration by index until get is None", "src/vector/iter.rs")],
     "runtime round-trip monitor", "Exhaustive over values for the widening conversions of i8, u8, i16, u16; random components, indices and lengths 0 to 6 for the rest.")
prop("C20", "Vector magnitude, distance and normalization are right to 6.15%",
     "For vectors of every component type that converts to f32, magnitude and distance are within 6.15% of the Euclidean length and distance when the sum of squares is a normal f32, close to zero when it underflows, and +inf for infinite components; distance is symmetric, is the magnitude of the difference, and is at most 3e-19 from a vector to itself. "
     "magnitude_sq is the dot product with itself, exact for integers that can represent it. normalized keeps the direction to 3e-7 and gives a length within 6.6% of one, and NaN components give NaN.",
     "all vectors of the component types i8, u8, i16, u16, f32, F32", "The tests try one or two vectors.", ["src/vector.rs", F("sqrt"), F("inv"), F("invsqrt")],
     [("sqrt of the dot product", "src/vector.rs: magnitude, distance"), ("scaling by the inverse magnitude", "src/vector.rs: normalized")],
     "runtime monitor with an f64 oracle", "62 million random hostile vectors, and every positive normal float (in a stride) as a vector along an axis. " + SAN)
prop("C21", "Quaternion arithmetic is Hamilton's",
     "Products of quaternions follow Hamilton's table (i j = k, j k = i, k i = j, squares -1), each component within one rounding per term; +, -, * scalar, scale, conj and their assigning forms act component by component; dot and norm are the sum of products and of squares; and the identity, new, w, x, y, z, to_array and conversions from and to arrays, tuples and vectors (real part 0) keep each component in place. "
     "On small integers, where floats are exact, multiplication is associative and distributes, the norm is multiplicative, conj(pq) = conj(q) conj(p), and q conj(q) is the norm.",
     "all pairs and triples of quaternions", "The tests multiply two or three quaternions.", ["src/quaternion.rs"],
     [("Hamilton product", "src/quaternion.rs: impl Mul"), ("component-wise impls", "src/quaternion.rs: impl Add, Sub")],
     "runtime monitor with an f64 oracle and exact algebraic laws", "40 million random hostile pairs, 20 million exact triples, the whole multiplication table. " + SAN)
prop("C22", "Quaternions rotate: vectors, axis and angle, between vectors, Euler angles",
     "rotate(v) and q * v are the vector part of q v q* within rounding; axis_angle(v, theta) is cos(theta/2) and sin(theta/2) v within 0.002 (|theta| <= 8192); from_two_vectors(u, v), for lengths from 1e-6 to 1e6 and any angle including opposite vectors, has length within 3.55% of one, and takes the direction of u to that of v, with the half angle and an axis perpendicular to both, to 2e-3. "
     "to_euler of a quaternion of about unit length gives the roll, pitch and yaw (rotations about x, y, z) to 0.00287, 0.0201 and 0.00287 rad, roll and yaw being unspecified within 1e-3 of gimbal lock.",
     "all quaternions, vectors and angles in these ranges, float and integer vectors", "The tests try a right angle, one pair of opposite vectors and a few Euler angles.", ["src/quaternion.rs", F("sin_cos"), F("asin"), F("atan2"), F("invsqrt")],
     [("cross product formula", "src/quaternion.rs: rotate"), ("half-way quaternion, and an arbitrary perpendicular when opposite", "src/quaternion.rs: from_two_vectors"), ("Euler angle formulas", "src/quaternion.rs: to_euler")],
     "runtime monitor with an f64 oracle", "150 million random cases of all kinds, near-parallel, near-opposite and near-lock ones included. " + SAN)
prop("C23", "Inverse, magnitude and normalization of quaternions",
     "For a quaternion whose norm (sum of squares) is a normal f32 below 2^126, magnitude is within 6.15% of its length, normalize keeps the direction to 3e-7 with length within 3.55% of one, and inv is the conjugate divided by the norm within 12.65% as one common factor, its direction kept to 3e-7. "
     "inv and normalize panic exactly when norm() is zero, and a NaN component gives NaN.",
     "all quaternions", "The tests try single quaternions.", ["src/quaternion.rs", F("sqrt"), F("invsqrt"), F("inv")],
     [("conjugate scaled by the inverse norm", "src/quaternion.rs: inv"), ("scaling by the inverse square root", "src/quaternion.rs: normalize")],
     "runtime monitor with an f64 oracle", "60 million random hostile quaternions, 50 million along axes. " + SAN)
prop("C24", "Mean, variance and standard deviation are right for samples of any length",
     "For samples of any length, element type and order, with finite sums, mean is the arithmetic mean and variance the sum of squared deviations from the mean over n - 1, within the rounding error of one f32 operation per element, and stddev is within 6.1% of the square root of the variance; none is negative except the mean, and f32, F32 and small integers of equal values give equal results. "
     "The mean of no values, and variance and deviation of fewer than two, are NaN, and a NaN value makes all three NaN.",
     "all finite samples", "The tests use one sample of three numbers.", ["src/statistics/mean.rs", "src/statistics/variance.rs", "src/statistics/stddev.rs"],
     [("running sum and count", "src/statistics/mean.rs"), ("two passes", "src/statistics/variance.rs"), ("square root of the variance", "src/statistics/stddev.rs")],
     "runtime monitor with a rigorous f64 error-bound oracle", "11 million random samples, to 135 000 elements: large offsets, outliers, constants, hostile values. " + SAN)
prop("C25", "Trimming keeps, in order, just the values within the threshold",
     "trim_at(t) and Iter::new(s, t) yield a subsequence of the sample in its order: every value closer to the mean than t standard deviations and none farther, but for the error (6.15%) of the approximate deviation, and consistently with the mean and stddev that the crate itself gives for the sample (to 0.1%). "
     "No value is kept that lies farther from the mean than one that is dropped, a threshold of 0 or less keeps nothing, equal values are all kept at t >= 1.1, trim() is trim_at(2), and the iterator stays at its end with valid size hints.",
     "all samples and thresholds", "The test is one sample of five numbers with a gross outlier.", ["src/statistics/trim.rs"],
     [("mean and deviation taken once", "src/statistics/trim.rs: Iter::new"), ("comparison per value", "src/statistics/trim.rs: Iter::next")],
     "runtime trace monitor of the yielded sequence against an f64 oracle", "8.5 million random samples of 0 to 135 000 values of five types with hostile thresholds. " + SAN)
prop("C26", "A result depends on the arguments alone",
     "Every operation returns the same value for the same arguments whatever the optimization level, debug assertions, target CPU features and cargo features, whatever was called before, in whatever order, and whatever other threads call meanwhile.",
     "all builds, all call histories, all schedules, all arguments", "Tests run in one build, one order, and never call an operation twice with the same arguments.",
     ["src/lib.rs", "src/float.rs", "src/float", "src/vector", "src/quaternion.rs", "src/statistics"], [("pure functions without state, forbid(unsafe_code)", "src/lib.rs"), ("core arithmetic only", "src/float")],
     "differential runtime monitor over builds, histories and threads", "Seven builds compared block by block on 200 000 hostile cases for each of 43 groups of operations; 8 million call histories; runs of 16 million calls of every group (thorough: a billion); 8 million batches on eight threads; x86-64 only.",
     over=("configurations", "histories", "schedules", "inputs"))
prop("C27", "Nothing below core, under every choice of features",
     "The library builds for a program with no std, no allocator and no C library under each of the 32 sets of the features quaternion, statistics, vector, num-traits and defmt, that program runs, and no operation allocates. Features only add operations: what exists under a set of features returns the same under every larger set.",
     "all sets of features, all operations", "Tests run on a host with std and one set of features.", ["Cargo.toml", "src/lib.rs", "src/quaternion.rs"],
     [("no_std attribute", "src/lib.rs"), ("feature gates", "src/lib.rs")],
     "runtime monitor: counting allocator, and a freestanding program run under every feature set", "16 feature sets are linked and run without anything but core, the 32 with defmt only built; 6 million calls under the counting allocator.",
     over=("configurations", "inputs"))
prop("C28", "Order is preserved where the function is monotone",
     "A larger argument never gives a smaller result (or, for decreasing functions, a larger one): exactly for floor, ceil, trunc and round; to 1e-6 relative for sqrt, inv and invsqrt on positive normal numbers, 3e-5 for recip, 1e-4 for exp and cosh, 3e-3 + 1e-4 |n| for powf(x, n) in x and 2e-4 in n, 1e-5 for powi and 2e-6 for hypot; to 3e-5 plus 1e-6 relative for ln (6e-5 for log2, 2e-5 for log10); and to 2e-6 for atan, asin, acos, atan2, for sin on [-pi/2, pi/2], cos on [0, pi], and tan on [-1.5, 1.5] (with 1e-5 relative). "
     "The slack concerns rising arguments across the whole domain of the function, adjacent or far apart.",
     "all pairs of arguments", "Tests compare each result with a table value to several percent, which a local step backwards does not exceed.",
     ["src/float", F("sqrt"), F("inv"), F("ln"), F("exp")], [("piecewise linear bit tricks that are continuous across binades", F("sqrt") + ", " + F("inv")), ("polynomials continuous at the seams of the reduction", F("ln") + ", " + F("exp") + ", " + F("cos"))],
     "runtime trace monitor of walks over adjacent and strided floats", "All adjacent floats of the cheap functions, those in 2^-20..2^20 of the slow ones and a share of the rest (thorough: all), 3 million strided walks, 3 million walks of two-argument functions.")
prop("C29", "The same results on every target",
     "On 32-bit and on big-endian targets every operation returns for the same arguments the same value, bit for bit (NaN being one value), as on x86-64, panics for the same arguments, and overflows nothing. "
     "The library builds, under every set of features, for microcontrollers without floating-point unit and without atomic read-modify-write instructions, and for wasm32.",
     "all targets, all arguments", "Tests run on the host, which is 64-bit and little-endian, only.",
     ["src/lib.rs", "src/float.rs", "src/float", "src/vector", "src/quaternion.rs", "src/statistics"], [("bit manipulation through to_bits and from_bits of fixed-width integers", "src/float.rs"), ("core only", "src/lib.rs, Cargo.toml")],
     "differential runtime monitor across targets: wasm32 run by node, powerpc and arm interpreted by Miri, x86-64", "400 000 hostile cases per operation on wasm32 (thorough: 8 million), 640 on powerpc and on arm (8 000), 8 feature sets built for thumbv6m. Miri also reports undefined behaviour.",
     over=("configurations", "inputs"))
prop("C30", "Every call takes little work and little stack, whatever its arguments",
     "Every operation on scalars, vectors and quaternions does an amount of work that does not grow with the magnitude of its arguments (at most 1000 basic blocks for a scalar function), statistics and sums take time linear in the number of values (also when a trimmed iterator is read to its end), and none needs more than 4 KiB of stack. "
     "Collecting an iterator into a vector asks it for at most one item more than the vector has axes; mean and sums ask for every item once.",
     "all arguments, samples and iterators", "Tests do not measure, and use small exponents, angles and samples.",
     ["src/float", "src/statistics", "src/vector"], [("closed formulas instead of loops over the magnitude", "src/float"), ("square-and-multiply", F("powi")), ("mean and deviation computed once", "src/statistics/trim.rs: Iter::new"), ("collection that stops at the first surplus item", "src/vector/vector2d.rs, src/vector/vector3d.rs: FromIterator")],
     "runtime monitor on compiler instrumentation: SanitizerCoverage calls of every basic block, counted per call, with the stack pointer", "31 million hostile cases, samples to 135 000 values. Counts are deterministic: no clock is involved. The blocks of core's own functions are not counted.")
prop("C31", "What is logged through defmt are the values",
     "With the feature defmt, an F32 is logged as the f32 that it holds, a vector as (x, y) or (x, y, z) and a quaternion as (w, x, y, z), each component with its own type and every bit of it.",
     "all values of F32, Quaternion and the vectors of every component type", "No test has a defmt logger; what is sent is bytes and the address of a format string, which only a host can put together.",
     ["src/float.rs", "src/quaternion.rs", "src/vector/vector2d.rs", "src/vector/vector3d.rs"], [("defmt::Format impls", "src/float.rs, src/quaternion.rs, src/vector/vector2d.rs, src/vector/vector3d.rs")],
     "runtime monitor of the logged bytes, decoded with the format strings of the running program", "1 million random tuples (50 million thorough), each in 19 types.")
prop("C32", "Units and mirror images: results scale and flip with their arguments, exactly",
     "Multiplying arguments by a power of two multiplies results accordingly and exactly, as long as nothing overflows or underflows: sqrt(4x) = 2 sqrt(x), invsqrt(4x) = invsqrt(x)/2, inv(2x) = inv(x)/2, recip(2x) = recip(x)/2, hypot, rem_euclid and the lengths, distances, products and rotations of vectors and quaternions, mean, variance (squared) and stddev scale with k; atan2, div_euclid, normalized, quaternion normalize, from_two_vectors and the values kept by trim_at do not change with k. "
     "round, trunc, fract, inv, recip, asin, atan and signum are odd and cosh is even, floor(-x) = -ceil(x), hypot and distance are symmetric and blind to signs, powi and powf of -x differ from those of x by the sign of odd exponents, the cross product is antisymmetric, -q rotates as q, and statistics of negated samples are mirrored. All exactly, zeros of either sign being one value.",
     "all arguments and powers of two within range", "Tests sample one scale and one sign; a threshold in absolute units, or a special case for one sign, is invisible there.",
     ["src/float", "src/vector.rs", "src/quaternion.rs", "src/statistics"], [("arithmetic that is free of absolute thresholds", "src/float, src/vector.rs, src/quaternion.rs, src/statistics"), ("bit tricks that are exact under a shift of the exponent", F("sqrt") + ", " + F("inv") + ", " + F("invsqrt"))],
     "metamorphic runtime monitor: each call against its scaled and mirrored call", "One in 16 bit patterns for unary operations (thorough: all), 110 million random tuples with components from 2^-48 to 2^46 and two factors each, 2 million samples. " + SAN)
prop("C33", "Different ways to the same quantity give the same result",
     "What the crate offers twice agrees, to 2e-6 of the value or of its terms, for all arguments for which the common quantity stays in range: tan and sin / cos; sin_cos and the two; atan and atan_norm, atan2 and atan2_norm; log2, log10, log(x, b) and quotients of ln; trunc + fract and x; q y + r of div_euclid and rem_euclid and x; hypot, the 2D and 3D magnitude, distance from zero, magnitude of the quaternion of a vector, and sqrt of magnitude_sq; 2D and 3D dot, perpendicular dot and cross; dot of type and trait; "
     "u.u and magnitude_sq, q.q, norm and q conj(q); products of quaternions of vectors and minus dot, cross; k * q, q * k and scale; (p q) rotating and p after q; q v conj(q), q * v and rotate; inv and conj / norm, normalize and q but for one common factor; stddev and sqrt of variance. Vectors and samples of integers and of F32 give the lengths, distances, rotations, quaternions, variances, deviations and trimmed values of the same numbers as f32.",
     "all arguments within range, every component type", "Tests look at one function at a time with tolerances of per cents; programs mix the ways and rely on their agreement.",
     ["src/float", "src/vector.rs", "src/vector/vector2d.rs", "src/vector/vector3d.rs", "src/quaternion.rs", "src/statistics"], [("functions defined by one another", "src/float/tan.rs, src/float/log2.rs, src/float/log10.rs, src/float/atan.rs, src/float/atan2.rs"), ("generic lengths, distances and rotations", "src/vector.rs, src/quaternion.rs"), ("variance and trimming", "src/statistics")],
     "runtime monitor that evaluates each quantity in every way on offer and compares", "One in 64 bit patterns for unary operations (thorough: all), 79 million random tuples at every scale, 3 million samples. " + SAN)
prop("C34", "No jumps: arguments next to each other give results next to each other",
     "Where the true function is continuous, moving an argument to the next float moves the result by no more than the derivative explains plus rounding, although the results are only approximate: 5e-7 relative for sqrt and invsqrt, 6e-7 for inv, 2e-5 for recip, 1e-6 relative for hypot, vector and quaternion lengths, 1e-6 plus a few times the step for sin and cos (|x| <= 8192), tan (|x| <= 1.5), atan, asin, acos, atan2 (modulo a turn, also across the axes), components of normalized vectors and quaternions, inv, axis_angle, rotate and from_two_vectors (unless almost opposite). "
     "Where pieces are joined the step is at most 1e-3 relative for exp of positive numbers and cosh, 3e-3 for exp of negative ones, 1.4e-4 for ln, 2e-4 for log2, 6e-5 for log10, and for powf that of exp plus |n| times that of ln.",
     "every pair of adjacent floats in the domain", "Tests look at a few dozen isolated points; control loops and animations feel a step of 3% where the tolerance is 6%.",
     ["src/float", "src/vector.rs", "src/quaternion.rs"], [("range reduction and piecewise formulas", "src/float/cos.rs, src/float/atan.rs, src/float/atan2.rs, src/float/exp.rs, src/float/ln.rs"), ("bit tricks", F("sqrt") + ", " + F("invsqrt") + ", " + F("inv"))],
     "runtime monitor of the differences along walks over adjacent floats, and of tuples moved by one float", "All adjacent pairs with magnitude from 1e-5 to 5000 and one block in 1 to 8 beyond (thorough: all), 40 million tuples; walks of vectors and quaternions of which those two steps are subdivided, down to adjacent floats, where the error changes most. " + SAN)
prop("C35", "Exact values at the anchor points",
     "Where an exact result is expected it is exact: sqrt(4^k) = 2^k, inv(2^k) = 2^-k (recip to 1e-6), lengths and distances along an axis by powers of two, their normalized vectors, hypot(2^k, 0), powi of integers and powers of two where f32 holds the power, powi(x, 1), powi(x, 2), powi and powf to 0 and of 1, exp(0), cosh(0), cos(0), sin(0), tan(0), atan(0), asin(0), logarithms of 1, the mean of one value, the variance of two equal ones, multiplication and rotation by the identity, half turns about the axes, and the Euler angles of the identity. "
     "To rounding (1e-6 plus 3e-7 |x|): sin, cos, tan and axis_angle at quarter turns, exp(+-1), atan(+-1), atan(inf), asin(+-1), acos(0) and acos(+-1), Euler angles of quarter turns, and atan2 at multiples of 45 degrees for points at any distance.",
     "all powers of two, all multiples of a quarter turn up to |x| = 4096, all scales, all values for the neutral elements", "Tests accept per cents around these points.",
     ["src/float", "src/vector.rs", "src/quaternion.rs", "src/statistics"], [("constants of the approximations", "src/float")],
     "runtime monitor over the enumerated anchor points", "All powers of two, turns and integer powers; one in 32 floats for compass and neutral elements (thorough: all). " + SAN)

prop("C36", "What users implement works like what is built in",
     "The traits are open. For a type with any number of axes that implements Vector, iter yields what get gives for 0, 1, 2, ... until get gives None, and stays at its end; map calls its function once for each component, in order; from_slice collects the slice; magnitude and distance are within 6.15% of the Euclidean ones, magnitude_sq is the sum of the squares, and normalized keeps the direction. "
     "For component types that users define, the operations of Vector2d and Vector3d act on components by the operators of that type, and lengths, distances, rotations and quaternions are those of the components converted to f32. For sample types that convert to f32, variance, stddev and trim_at are those of the converted numbers, and trimming yields the very items of the sample, equal values being all kept or all dropped. trim() of a type that implements Trim is its trim_at(2). mean takes what any iterator yields up to its first None, and so does collecting into vectors, whatever the size hint says.",
     "vectors of 1 to 300 axes; double precision, fixed point and tagged types; iterators that resume after None or give odd size hints", "Tests use built-in types with two or three axes only.",
     ["src/vector.rs", "src/vector/iter.rs", "src/statistics", "src/quaternion.rs"], [("Vector trait", "src/vector.rs"), ("component iterator", "src/vector/iter.rs"), ("trimming", "src/statistics/trim.rs")],
     "runtime monitor over types defined outside of the crate", "Random values for 10 numbers of axes, 3 component types, samples up to 400. " + SAN)

prop("C37", "Fit for processors without FPU: single precision, few operations",
     "Compiled for a processor without floating-point unit, where every operation on floats is a call of a library routine, every operation on scalars, vectors, quaternions and samples returns what it returns with such a unit, bit for bit (NaN being one value); it computes in single precision only, without any conversion to or operation on double precision; and, whatever its arguments, it takes at most 120 operations on floats (arithmetic, comparisons, conversions from and to integers), a statistic 16 more for every value of the sample. Parsing and formatting are not meant.",
     "every public operation on floats, all arguments", "Tests run on a processor with a unit for both precisions, where one double-precision operation costs nothing; on the microcontrollers that the crate is made for it costs hundreds of cycles and kilobytes of code.",
     ["src/float", "src/vector.rs", "src/quaternion.rs", "src/statistics"], [("bit tricks and polynomials in place of double precision and loops", "src/float"), ("lengths, rotations and statistics in single precision", "src/vector.rs, src/quaternion.rs, src/statistics")],
     "runtime monitor that counts the calls of soft-float routines of every operation, and compares results", "2 million sets of arguments to each of 150 operations, 200 000 samples of up to 20 000 values; x86-64 compiled without SSE stands for the processors without floating-point unit.")

prop("C38", "An operation and its inverse lead back to the start",
     "One after the other, an operation and its inverse give the argument again, for all arguments between the ends of their range: to 12.6% sqrt(x)^2, 6.1% sqrt(x^2), 7% invsqrt(x)^2 x, 26% inv(inv(x)), also of quaternions, whose direction is kept to 2e-6, 2e-5 recip(recip(x)); to 2.7e-3 exp(ln(x)) (relative) and ln(exp(x)); sin(asin(x)) to 0.017, asin(sin(x)) on [-1.5, 1.5] to 0.021, cos(acos(x)) to 0.0225, acos(cos(x)) on [0.07, 3.07] to 0.0315, atan(tan(x)) on [-1.57, 1.57] to 0.0045 and tan(atan(x)) for |x| <= 100 to 0.0045 (1 + x^2); a point from its hypot and atan2 to 6.45%; powf(powf(x, n), 1/n) to 2.7e-3 (1 + 1/|n|), log(powf(b, n), b) to 1.7e-3 (1 + |n|) and powf(b, log(x, b)) to 2.8e-3, both divided by |ln b| where this is less than one, powi(x, n) powi(x, -n) to 2e-6 (1 + |n|). "
     "u + v - v and u k / k, of vectors and quaternions, to rounding, of integers exactly; what conj(q) rotates after q to 2e-6, up to the squared norm; axis_angle by an angle and by its opposite to 2.4e-3; from_two_vectors(u, v) and conj(from_two_vectors(v, u)) to 2e-6 for vectors less than 154 degrees apart; Euler angles of the rotation by Euler angles (pitch within 1.42) to 0.06, and the rotation by the Euler angles of a rotation to 0.0115. abs(x) with the sign of x, and x written and read again, are x, bit for bit.",
     "all arguments between the ends of the range of the operation", "Tests look at one direction, for a few values; programs transform there and back, again and again.",
     ["src/float", "src/vector/vector2d.rs", "src/vector/vector3d.rs", "src/quaternion.rs"], [("pairs of approximations that match", "src/float"), ("rotations, Euler angles", "src/quaternion.rs")],
     "runtime monitor that applies an operation and its inverse in turn", "One in 32 bit patterns for unary operations (thorough: all), 53 million random tuples. " + SAN)

with open(f"{ROOT}/properties.jsonl", "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if k not in ("technique", "note")}
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(q) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none", enable="no hooks: the checks use the public API only", source_commits=[]),
         checks=[dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {p['id']}",
                      evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration", level_note=p["note"]) for p in P],
         not_applicable=[])
with open(f"{ROOT}/MANIFEST.json", "w") as f:
    f.write(json.dumps(m, indent=1) + "\n")
