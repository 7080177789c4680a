#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
H = "include/boost/numeric/interval/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[H + f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Arithmetic operators never lose a possible result",
 "For any two non-empty intervals X and Y (bounded or unbounded) and any real x in X, y in Y, the exact real values -x, x+y, x-y, x*y and (when y is not 0) x/y lie in the interval returned for -X, X+Y, X-Y, X*Y, X/Y, and the same holds when either operand is a plain finite number of the base type and for the functions add, sub, mul and div of two finite numbers. This holds for every base type and every rounding policy the library provides for it, including overflow to infinity, underflow and subnormal bounds.",
 ["inputs", "configurations"], "all interval/number operand pairs of float, double, long double and user-defined base types; std/opp/exact rounding policies, protected and unprotected",
 "The tests sample a handful of small operands with exactly representable results, mostly on a symbolic test type that only compares which primitive was called; overflow, underflow, unbounded operands and the hardware rounding itself are not explored.",
 ["arith.hpp", "arith3.hpp", "detail/division.hpp", "rounded_arith.hpp", "hw_rounding.hpp"],
 [("sign case analysis of operator*", H+"arith.hpp: operator*"), ("div_non_zero / div_positive / div_negative / div_zero", H+"detail/division.hpp"), ("directed rounding primitives", H+"rounded_arith.hpp")],
 observe=["returned interval's lower()/upper()"])
prop("C02", "Arithmetic results are the tightest representable enclosure",
 "For non-empty operands with bounded or unbounded ends, the bounds returned by unary minus, +, -, *, / (divisor not containing zero) and by add, sub, mul, div of two numbers are exactly the infimum of the set of exact real results rounded down to the base type and its supremum rounded up: no wider enclosure is returned, so operations on exactly representable results are exact. This is the same for every operand form (interval with interval, interval with number, number with interval).",
 ["inputs", "configurations"], "all operand pairs and operand forms, all hardware base types and user-defined base types with correctly rounded primitives",
 "Equality of bounds is tested only for a few values; a bound that is one unit in the last place (or grossly) too wide for one sign combination still satisfies every membership test.",
 ["arith.hpp", "arith3.hpp", "detail/division.hpp", "rounded_arith.hpp"],
 [("operator+,-,*,/", H+"arith.hpp"), ("rounded_arith_std / rounded_arith_opp negation tricks", H+"rounded_arith.hpp")],
 observe=["returned bounds, compared bit for bit as exact rationals"])
prop("C03", "Division by an interval containing zero encloses and splits correctly",
 "When the divisor contains zero, x/Y, X/Y and multiplicative_inverse(Y) return the smallest interval enclosing every quotient by a non-zero element of Y (a half-line when Y touches zero only with one end and the numerator has one sign, the whole line when both signs of quotient are unbounded, zero when the numerator is exactly zero), and the empty interval when Y is exactly zero. division_part1 with its flag and division_part2 return one or two intervals whose union contains all those quotients and, when the flag is set, exclude the gap around zero down to rounding.",
 ["inputs", "configurations"], "all numerators, all divisors with zero inside or at an end, every checking policy",
 "The tests divide by a few fixed intervals on one symbolic type; the sign of the unbounded half-line, a numerator touching zero, number-operand forms and part1/part2 agreement for all sign patterns are not covered.",
 ["arith.hpp", "arith2.hpp", "detail/division.hpp"],
 [("operator/ dispatch on zero bounds", H+"arith.hpp"), ("div_positive, div_negative, div_zero, div_zero_part1/2", H+"detail/division.hpp"), ("multiplicative_inverse, division_part1/2", H+"arith2.hpp")],
 observe=["returned intervals and the boolean flag"])
prop("C04", "square and pow enclose every power with the right sign and parity",
 "square(X) is exactly the rounded range of t*t over X, and pow(X, n) contains t^n for every t in X and every integer n (negative n meaning the reciprocal, with t not 0), is never negative for even n, is odd-symmetric for odd n, contains X unchanged for n = 1 and equals [1,1] for n = 0 unless X is exactly zero. The enclosure is no wider than repeated outward-rounded multiplication explains.",
 ["inputs", "configurations"], "all intervals (negative, mixed, positive, unbounded), all exponents of both parities and signs including large ones",
 "Tests use a few exponents on small integers where no rounding or overflow occurs.",
 ["arith2.hpp"],
 [("pow_dn / pow_up binary powering", H+"arith2.hpp: detail::pow_dn, pow_up"), ("sign/parity cases", H+"arith2.hpp: pow"), ("square", H+"arith2.hpp: square")],
 observe=["returned interval"])
prop("C05", "sqrt and nth_root enclose the real root, respect the domain, terminate",
 "sqrt(X) is the correctly outward-rounded square root of the non-negative part of X and is empty when X is entirely negative. nth_root(X, k), k >= 1, (k representable in the base type) terminates for every X and contains the real k-th root of every t in X for which it exists (t >= 0 when k is even, any t when k is odd), is empty when no such t exists, has the sign of its argument, and is X itself for k = 1.",
 ["inputs", "configurations"], "all intervals of the base type (subnormal, huge, infinite, mixed sign) and all root orders",
 "The Newton iteration behind nth_root is tested on a few integers; termination and enclosure must hold for every bound and order.",
 ["arith2.hpp", "rounded_arith.hpp"],
 [("interval Newton iteration", H+"arith2.hpp: detail::root_aux"), ("sign/parity cases", H+"arith2.hpp: nth_root"), ("sqrt", H+"arith2.hpp: sqrt")],
 observe=["returned interval; return within the time limit"])
prop("C06", "abs, norm, min and max return the exact range",
 "abs(X) is exactly the range of |t| over X, norm(X) its largest value, and min/max of two intervals, or of an interval and a number in either order, are exactly [min(xl,yl),min(xu,yu)] and [max(xl,yl),max(xu,yu)], with no rounding at all.",
 ["inputs", "configurations"], "all operand pairs and operand orders, bounded and unbounded, all base types",
 "Tests check a handful of bounded values and not every operand form.",
 ["utility.hpp"],
 [("abs, norm, min, max", H+"utility.hpp")], observe=["returned interval or number"])
prop("C07", "Set predicates and set operations are exact",
 "in, zero_in, subset, proper_subset, overlap, singleton, equal and empty answer exactly as the corresponding relations between the closed real sets denoted by their arguments (bounds included, empty sets treated as sets), intersect returns exactly the set intersection (empty when disjoint, a single point when only bounds touch) and hull, in all its forms, the smallest interval containing both arguments.",
 ["inputs", "configurations"], "all pairs of intervals (empty, singleton, touching, nested, unbounded), numbers and checking policies that admit empty intervals",
 "The tests cover one configuration of each relation; a boundary (touching bounds, shared lower bound, equal intervals, empty operand) can be wrong and stay unnoticed.",
 ["utility.hpp", "interval.hpp"],
 [("set-like functions", H+"utility.hpp"), ("interval::hull, empty, whole", H+"interval.hpp")], observe=["returned truth value or interval"])
prop("C08", "width, median, bisect and widen describe and split the interval soundly",
 "For a non-empty interval X, width(X) is the difference of its bounds rounded up, and for bounded X median(X) is a number of X (the midpoint rounded to nearest up to underflow) and, for bounded X, bisect(X) returns two non-empty intervals that share one point and whose union is exactly X; widen(X, v) is exactly [lower-v rounded down, upper+v rounded up]. For an empty interval width is zero, median is not a number and bisect returns two empty intervals.",
 ["inputs", "configurations"], "all intervals, from singletons and adjacent numbers to the largest finite bounds",
 "The tests bisect two intervals; coverage of X by the two halves for every X (adjacent bounds, huge bounds, subnormals) cannot be enumerated by examples.",
 ["utility.hpp", "rounded_arith.hpp"],
 [("bisect, median, width, widen", H+"utility.hpp"), ("rounding policy median", H+"rounded_arith.hpp")], observe=["returned pair, number or interval"])
prop("C09", "Default comparisons answer only when certain and throw otherwise",
 "For the default comparison operators, X op Y and X op y (op in <, <=, >, >=, ==, !=) return true only if the relation holds for every pair of elements, return false only if it holds for no pair, and otherwise, or if an operand is empty or not a number, throw comparison_error; they always answer in the cases where all pairs, or no pair, satisfy the relation.",
 ["inputs", "configurations"], "all pairs of intervals and numbers including touching, nested, equal singleton, unbounded and empty operands, and both operand orders with numbers",
 "Tests check three relative positions with fixed small numbers; strictness at touching bounds for each operator and form is a larger space.",
 ["interval.hpp"],
 [("operator<,<=,>,>=,==,!= with interval_holder and number_holder", H+"interval.hpp")], observe=["returned bool or thrown comparison_error"])
prop("C10", "Certain, possible and three-valued comparisons agree with set semantics",
 "With compare::certain (and cerlt, cerle, cergt, cerge, cereq, cerne) a comparison is true iff the relation holds for all pairs of elements, with compare::possible (and poslt ... posne) iff it holds for some pair, and with compare::tribool it is true, false or indeterminate according to whether all, none or only some pairs satisfy it, for interval/interval, interval/number and (explicit functions) number/interval operands. The operators in those namespaces throw comparison_error for an empty or not-a-number operand, also when the two operands have different policies; consequently certain implies possible and certain(a<b) = not possible(a>=b).",
 ["inputs", "configurations"], "all operand pairs, operators, operand forms and namespaces",
 "The tests check each operator on three relative positions; the duality between namespaces and strictness at shared bounds needs every pair.",
 ["compare/certain.hpp", "compare/possible.hpp", "compare/tribool.hpp", "compare/explicit.hpp"],
 [("compare::certain", H+"compare/certain.hpp"), ("compare::possible", H+"compare/possible.hpp"), ("compare::tribool", H+"compare/tribool.hpp"), ("cer*/pos* functions", H+"compare/explicit.hpp")], observe=["returned bool / tribool / exception"])
prop("C11", "Lexicographic and set orders are consistent orders",
 "compare::lexicographic orders intervals totally by lower bound and then upper bound (a number counting as the singleton interval), its six operators are mutually consistent, and it throws comparison_error for empty or not-a-number operands; compare::set makes < and <= proper and plain inclusion, == and != equality of sets, and throws comparison_error when one operand is a number.",
 ["inputs", "configurations"], "all operand pairs and triples (transitivity), all operators and operand forms",
 "Order laws quantify over triples and over every shared-bound pattern; the tests check a few pairs.",
 ["compare/lexicographic.hpp", "compare/set.hpp", "utility.hpp"],
 [("compare::lexicographic", H+"compare/lexicographic.hpp"), ("compare::set", H+"compare/set.hpp")], observe=["returned bool / exception"])
prop("C12", "Construction, assignment and conversion never lose the value",
 "Constructing, assigning or converting an interval from a number, a pair of numbers or another interval of any base type or policy yields the smallest representable interval containing the given values (bounds rounded outward when the base types differ), copies are exact, a pair with lower > upper or a not-a-number becomes the empty interval as the checking policy prescribes, and assign, hull, empty, whole, lower, upper, checked_lower and checked_upper report what was stored. (The two numbers of a pair have the same type.)",
 ["inputs", "configurations"], "all source values of int, unsigned, long long, float, double, long double and user types into all target base types and policies; all ordered and unordered pairs",
 "Conversions that are not exact, extreme integers and NaN bounds depend on the individual value; the tests convert two or three values.",
 ["interval.hpp", "rounded_arith.hpp", "checking.hpp", "utility.hpp"],
 [("converting constructors and operator=", H+"interval.hpp"), ("conv_down / conv_up", H+"rounded_arith.hpp")],
 state=[("lower/upper", "the stored bounds", H+"interval.hpp: low, up")], observe=["lower(), upper(), empty()"])
prop("C13", "Empty intervals and NaN are handled as the checking policy states",
 "Under checking policies that admit empty intervals, any arithmetic, algebraic, transcendental or min/max/abs operation with an empty interval or not-a-number operand returns the empty interval, and predicates treat it as the empty set; under policies that forbid empty intervals, the creation of one throws the policy's exception and no operation returns one; under policies that catch not-a-number, the policy's exception is thrown whenever such a number is given to an operation (with a not-a-number and an empty operand together, either consequence).",
 ["inputs", "configurations"], "every operation, every operand form, with empty/NaN operands in each position, under each predefined checking policy (base, no_empty, no_nan, catch_nan, strict and their combinations)",
 "The product of operations, operand positions and checking policies is far larger than the tests' single policy.",
 ["checking.hpp", "detail/test_input.hpp", "interval.hpp", "arith.hpp", "arith2.hpp", "arith3.hpp", "transc.hpp", "utility.hpp"],
 [("checking policies", H+"checking.hpp"), ("test_input", H+"detail/test_input.hpp")], observe=["returned interval / exception type"])
prop("C14", "Operations leave the floating-point rounding mode untouched",
 "Every public operation on intervals with a state-saving rounding policy leaves the ambient rounding mode exactly as it found it, whether it returns normally or by exception, and gives the same result whatever that ambient mode was; nested and unprotected computations under a live rounding object give the same results and the mode is restored when the last such object dies.",
 ["histories", "inputs", "configurations"], "all operations from each of the four ambient rounding modes, all nestings of rounding objects, all exits including exceptions at any internal step",
 "Tests run in the default mode only and never compare the mode before and after; exceptions in the middle of an operation are not provoked.",
 ["rounding.hpp", "rounded_arith.hpp", "hw_rounding.hpp", "detail/c99sub_rounding_control.hpp", "detail/c99_rounding_control.hpp", "arith.hpp", "arith2.hpp", "transc.hpp"],
 [("save_state constructor/destructor", H+"rounding.hpp"), ("rounded_arith_* init and mode switches", H+"rounded_arith.hpp")],
 state=[("rounding mode", "the FPU control state shared by the whole thread", H+"detail/c99sub_rounding_control.hpp")], observe=["fegetround() before/after each operation"])
prop("C15", "Rounding policies are interchangeable",
 "For the same operands, every operation gives the same bounds with the std and opp arithmetic policies, with a protected type, with its unprotected variant used under a live rounding object, and through change_rounding, change_checking and unprotect, for every hardware base type and for user base types.",
 ["inputs", "configurations"], "all operations and operands, all pairs of policies that are documented as equivalent",
 "Tests use each policy on separate examples and never compare them on the same inputs.",
 ["rounded_arith.hpp", "rounding.hpp", "policies.hpp", "hw_rounding.hpp", "arith.hpp", "arith2.hpp"],
 [("rounded_arith_std vs rounded_arith_opp", H+"rounded_arith.hpp"), ("unprotect / change_rounding / change_checking", H+"policies.hpp")], observe=["bounds returned under each policy"])
prop("C16", "Mixed, compound and aliased forms agree with the plain operation",
 "For every operator, using a number of the base type (or, with the integer extension, an int, converted to the base type) gives the same interval as using the singleton interval of that number, wherever the latter is bounded, and x op= y leaves in x exactly the value of x op y, including when y is x itself or a reference to one of x's own bounds. Compound operators return a reference to their left operand.",
 ["inputs", "configurations"], "all operators, operand forms, alias patterns and values",
 "Aliased calls such as x -= x or x += x.lower() depend on evaluation order and are never tested; the equality of forms must hold for every value.",
 ["arith.hpp", "interval.hpp", "ext/integer.hpp"],
 [("operator+=,-=,*=,/=", H+"arith.hpp"), ("number operand overloads", H+"arith.hpp"), ("integer extension", H+"ext/integer.hpp")], observe=["resulting bounds"])
prop("C17", "A modifying operation that throws leaves its operand unchanged",
 "If a compound arithmetic assignment, assignment from a number or interval of the same base type, or assign() exits with an exception raised by the checking policy or by the base type's own arithmetic, the target interval still holds its previous bounds and is well formed.",
 ["inputs", "fault_sequences", "configurations"], "all modifying operations, with an exception raised at every possible internal primitive or by the checking policy",
 "No test raises an exception from the base type or from the policy in the middle of a modification.",
 ["interval.hpp", "arith.hpp", "checking.hpp"],
 [("compute-then-set in compound operators", H+"arith.hpp"), ("set_empty / assign", H+"interval.hpp")], observe=["bounds after the exception"])
prop("C18", "exp, log, inverse-trigonometric and hyperbolic functions enclose the range",
 "exp, log, asin, acos, atan, sinh, cosh, tanh, asinh, acosh and atanh of an interval contain the exact function value at every point of the interval that belongs to the function's domain (given base-type functions that round in the requested direction; with the C library, up to its accuracy), are empty when no point does, use the exact limit (minus/plus infinity, zero, one, or an enclosure of pi or pi/2) where the interval reaches past the domain or the extremum, and add nothing beyond the rounding of the bounds.",
 ["inputs", "configurations"], "all intervals and all rounding policies for transcendental functions, given base-type functions that are rounded in the requested direction",
 "The tests do not exercise most of these functions numerically; domain clipping, monotonicity direction and rounding direction have to hold for every interval.",
 ["transc.hpp", "rounded_transc.hpp"],
 [("exp .. atanh", H+"transc.hpp"), ("rounded_transc_std/opp/exact", H+"rounded_transc.hpp")], observe=["returned interval"])
prop("C19", "sin, cos and tan enclose the range including interior extrema",
 "cos(X), sin(X) and tan(X) contain the exact function value at every point of X (for tan, where defined), for intervals of any width, sign and magnitude; cos and sin results always stay within [-1,1] and reach exactly 1 or -1 when X contains an extremum, and tan returns the whole line when X contains a pole. Narrow intervals away from extrema and of moderate magnitude give correspondingly narrow results.",
 ["inputs", "configurations"], "all intervals, in particular ends near multiples of pi/2, wide and unbounded intervals, negative ends",
 "Argument reduction and the split into monotone pieces depend on the position relative to every multiple of pi; the tests check a few intervals with one test type.",
 ["transc.hpp", "arith2.hpp", "constants.hpp"],
 [("argument reduction by fmod and monotone cases", H+"transc.hpp: cos, sin, tan")], observe=["returned interval"])
prop("C20", "Pi constants enclose pi as tightly as documented",
 "pi, pi_half and pi_twice for every base type (the generic ones are small integers, which the type must represent) are intervals that contain the real number with lower < upper, and for float and double the bounds are two adjacent numbers of the type.",
 ["configurations"], "all base types (float, double, long double, generic) and the three constants",
 "Only membership consistency between types is tested, not the position of the real number pi.",
 ["constants.hpp"], [("pi_lower / pi_upper and multiples", H+"constants.hpp")], observe=["bounds of the constants"])
prop("C21", "fmod subtracts an integer multiple that brings the lower end into one period",
 "For a finite non-empty X and positive bounded Y, fmod(X, Y) (and its number-operand forms) contains x - n*y for every x in X and y in Y for one integer n independent of x and y, and when the quotient fits the precision its lower bound is not negative and lies below one period.",
 ["inputs", "configurations"], "all intervals X of either sign and all positive divisors, interval and number forms",
 "Tests evaluate fmod on three intervals; the choice of the dividing bound by sign and the rounding of the quotient matter for all others.",
 ["arith2.hpp", "rounded_arith.hpp"],
 [("fmod", H+"arith2.hpp"), ("int_down / to_int", H+"rounded_arith.hpp")], observe=["returned interval"])
prop("C22", "Any history keeps intervals well formed and true to their witnesses",
 "Starting from valid intervals and one real number chosen inside each of them, after any sequence of public operations applied in parallel to the intervals and exactly to the numbers, every interval is either empty or has lower <= upper with neither bound not-a-number, and every number still defined lies inside its interval.",
 ["histories", "inputs", "configurations"], "all finite histories of construction, assignment, arithmetic, algebraic, set and splitting operations over several variables, with aliasing",
 "Tests execute operations one at a time on fresh operands; overflowed, unbounded, empty or degenerate intermediate results only arise in long histories.",
 ["interval.hpp", "arith.hpp", "arith2.hpp", "utility.hpp", "detail/division.hpp"],
 [("all operators", H+"arith.hpp"), ("closure of the representation", H+"interval.hpp")],
 state=[("lower/upper", "the bounds of each live interval", H+"interval.hpp: low, up")], observe=["bounds after every step"])
prop("C23", "Operations are inclusion-isotonic",
 "Enlarging the operands never loses results: if X is contained in X' and Y in Y' then the results of unary minus, +, -, *, /, square, sqrt, pow, abs, min, max, hull, intersect, exp, log and multiplicative_inverse on the small operands are contained in the results on the large ones.",
 ["inputs", "configurations"], "all nested pairs of operands, across the boundaries of the sign cases and including unbounded and zero-touching enlargements",
 "The law relates two calls that usually take different branches of the case analysis; example tests look at single calls.",
 ["arith.hpp", "arith2.hpp", "utility.hpp", "transc.hpp", "detail/division.hpp"],
 [("case analyses agree at their boundaries", H+"arith.hpp"), ("division cases", H+"detail/division.hpp")], observe=["two returned intervals"])
prop("C24", "Rounding-policy primitives round in the direction they name",
 "For the provided rounding policies and every hardware base type, each *_down primitive (conversion from every arithmetic type, add, sub, mul, div, sqrt, integer part) returns the largest representable value not above the exact result and each *_up primitive the smallest not below it (integer parts: the largest integer not above and the smallest not below), while the transcendental primitives of the std and opp policies pass the rounding direction they name to the base type's function.",
 ["inputs", "configurations"], "all operands, primitives, base types (float, double, long double, user types), std and opp policies, protected and unprotected",
 "Tests call no primitive directly on inexact operands of all base types; each value rounds differently.",
 ["rounded_arith.hpp", "rounded_transc.hpp", "detail/c99_rounding_control.hpp", "detail/c99sub_rounding_control.hpp", "detail/x86_rounding_control.hpp", "detail/x86gcc_rounding_control.hpp", "ext/x86_fast_rounding_control.hpp", "rounding.hpp"],
 [("rounded_arith_std / _opp", H+"rounded_arith.hpp"), ("rounded_transc_std / _opp", H+"rounded_transc.hpp"), ("rounding_control", H+"detail/c99_rounding_control.hpp")], observe=["value returned by each primitive"])
prop("C25", "Text output and numeric limits tell the truth about the interval",
 "Writing an interval to a stream prints [] for an empty interval and otherwise the two bounds exactly as the stream (with no field width set) would print them, in order, between brackets and separated by a comma; numeric_limits of an interval type reports singletons of the base type's limits, the whole line as infinity and the empty interval as quiet NaN.",
 ["inputs", "configurations"], "all intervals, stream formats (precision, fixed, scientific, hex) and base types",
 "The tests print two intervals in the default format and do not instantiate the limits.",
 ["io.hpp", "limits.hpp"], [("operator<<", H+"io.hpp"), ("std::numeric_limits specialisation", H+"limits.hpp")], observe=["stream contents; values returned by numeric_limits"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
    print("valid", len(P))
except ImportError:
    print("written", len(P))
