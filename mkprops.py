#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
I='include/boost/numeric/interval/'
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[f if f.startswith('include') else I+f for f in files],
        mechanism=[dict(name=a,where=I+b) for a,b in mech],observe_at=obs,hook_needed=hook))
    if state: d['anchors']['state']=state
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('P01','Interval + - * / enclose every real result of their operands',
 'For intervals over float, double and long double, the result of unary minus, +, -, *, / (between intervals, between an interval and a finite number on either side, in compound-assignment form, or through add, sub, mul, div on two finite numbers) contains x op y for every real x and y in the operands for which x op y is defined. '
 'This holds for every sign pattern, for zero, subnormal, huge, half-infinite and unbounded operands, and when bounds overflow or underflow. '
 'A result that is not empty is a proper interval (lower <= upper, no NaN bound).',
 ['inputs'],'all pairs of valid operands of the three floating-point types, all four operators and their interval/number/compound forms',
 'The tests try a handful of sign patterns with small exactly representable values, where rounding, overflow and infinities never matter.',
 ['arith.hpp','arith3.hpp','detail/division.hpp','rounded_arith.hpp','hw_rounding.hpp','detail/c99_rounding_control.hpp'],
 [('sign-case selection of bounds','arith.hpp'),('opposite trick for downward rounding','rounded_arith.hpp')],
 ['bounds of the returned interval'])
p('P02','Arithmetic and elementary algebraic results are the tightest representable',
 'With the default rounding policy of float, double and long double, the bounds of +, -, *, / (all interval/number forms), unary minus, abs, square, sqrt, min, max, multiplicative inverse and of add, sub, mul, div on numbers are the best possible: lower is the largest representable number not above the exact infimum, upper the smallest one not below the exact supremum. '
 'In particular a result that is exactly representable is not widened at all. '
 'When a bound is unbounded or overflows, the result uses the closest representable number or the infinite bound, whichever is tightest.',
 ['inputs'],'all valid operands of the three floating-point types for the listed operations',
 'Tests compare with exact small values; one lost ulp in one sign case, one exponent range or one type is invisible to them.',
 ['arith.hpp','arith2.hpp','arith3.hpp','utility.hpp','detail/division.hpp','rounded_arith.hpp','detail/c99_rounding_control.hpp'],
 [('directed rounding of each bound','rounded_arith.hpp'),('forced rounding of intermediate results','detail/c99_rounding_control.hpp')],
 ['bounds of the returned interval'])
p('P03','Division by an interval containing zero is the right set',
 'x/y is the smallest interval containing all a/b with a in x and b nonzero in y: half-lines when zero is a bound of y, the whole line when zero is interior and x is not [0,0], [0,0] when x is [0,0] and y is not, and the empty interval when y is [0,0]; multiplicative inverse is 1/y in that sense. '
 'The two-part division returns, together with its flag, two intervals whose union contains every quotient, each bounded by the exact quotient bounds, with the gap between them free of quotients; when the flag is false the first part alone contains everything and the second part is empty. '
 'This holds for interval and number dividends in every sign pattern.',
 ['inputs'],'all dividends (interval or number) and all divisors containing zero, three floating-point types',
 'The division tests use exact integers and few sign patterns; number dividends and infinite bounds are not combined with zero-containing divisors.',
 ['arith.hpp','arith2.hpp','detail/division.hpp','utility.hpp'],
 [('dispatch on the bounds of the divisor','arith.hpp'),('half-line and two-part divisions','detail/division.hpp')],
 ['bounds of the quotients','flag of the two-part division'])
p('P04','Algebraic functions enclose the exact image and terminate',
 'sqrt, square, abs, pow with any int exponent (negative, zero, odd, even, extreme), nth_root with any positive index, min, max and widen return an interval containing the exact image of every real point of their arguments, for all signs and for zero, subnormal, huge and infinite bounds, and they always return. '
 'Even powers and squares are never negative, x to the power 0 is 1, nth_root(pow(x,k),k) encloses x (or |x| for even k). '
 'Results stay close to the image: an excess of a few roundings per elementary step, not a gross overestimate.',
 ['inputs'],'all valid intervals of the three types, all int exponents and positive root indexes',
 'pow and nth_root are tested on a few integer points; negative and large exponents, indexes above 10, subnormal and overflowing intermediate results are never reached.',
 ['arith2.hpp','utility.hpp','rounded_arith.hpp'],
 [('directed power by squaring','arith2.hpp'),('interval Newton iteration for roots','arith2.hpp'),('max/min/abs/widen','utility.hpp')],
 ['bounds of the returned interval'])
p('P05','Different ways of writing the same operation agree',
 'An operation with a finite number gives the same result as with the singleton interval of that number (also when the number comes from an int representable in the base type, through the mixed-integer operators), and a compound assignment gives the same result as the plain operator. '
 'Sums and products commute, x-y equals x+(-y) and -(y-x), and square, abs, min, max, hull agree with their mirrored forms. '
 'Operands that are the same object, or a number that is a bound of the object being modified, give the same results as distinct copies.',
 ['inputs','programs'],'all operators and mixed interval/number/int forms, all valid operands, all aliasing patterns between operands and destination',
 'Each form is tested separately on few values; agreement between overloads, argument order and aliasing is not checked.',
 ['arith.hpp','utility.hpp','arith3.hpp','ext/integer.hpp','interval.hpp'],
 [('overloads on numbers','arith.hpp'),('overloads on int','ext/integer.hpp'),('bound assignment','interval.hpp')],
 ['bounds of the results of both forms'])
p('P06','Elementary functions enclose the exact image',
 'With a rounding policy whose one-argument functions are correctly rounded, exp, log, sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh and atanh of an interval contain the exact value of the function at every real point of the interval inside its domain, including intervals with infinite, subnormal or huge bounds and, for the periodic functions, extrema, poles and any number of periods. '
 'Monotone functions return exactly the policy\'s rounded values of the end points; sin and cos stay within [-1,1]; tan is the whole line when the interval contains a pole. '
 'The periodic functions are not grossly loose: their excess over the exact image is of the order of the rounding of the argument reduction.',
 ['inputs','configurations'],'all valid intervals of float, double and long double, the three predefined transcendental policies over a base type with correctly rounded functions',
 'Only a few points are tested for the periodic functions, with a tolerance, and nothing for the image inclusion of the others.',
 ['transc.hpp','constants.hpp','rounded_transc.hpp','arith2.hpp'],
 [('argument reduction and monotone pieces','transc.hpp'),('rounded elementary functions','rounded_transc.hpp'),('enclosures of pi','constants.hpp')],
 ['bounds of the returned interval'])
p('P07','Functions with a restricted domain clip to it, and are empty outside it',
 'sqrt, log, asin, acos, acosh, atanh, even nth_root and division return the empty interval exactly when no point of the argument lies in the domain of the function (for closed domains, touching the boundary is enough to be inside), and otherwise enclose the image of the part of the argument inside the domain. '
 'A boundary point yields the exact limit: 0 for sqrt, acosh and acos, minus infinity for log, plus or minus infinity for atanh, an enclosure of plus or minus pi/2 or of pi for asin and acos. '
 'No NaN bound ever appears in a non-empty result.',
 ['inputs'],'all valid intervals below, touching, straddling and above each domain boundary, including one-ulp neighbours, signed zeros and infinities',
 'No test exercises the domain boundaries of the inverse and logarithmic functions.',
 ['transc.hpp','arith2.hpp'],
 [('domain tests before evaluating','transc.hpp'),('domain tests of sqrt and nth_root','arith2.hpp')],
 ['emptiness and bounds of the returned interval'])
p('P08','fmod subtracts one integer multiple and lands in the first period',
 'For a finite dividend and a strictly positive finite divisor (interval or number) whose quotient does not overflow, fmod(x,y) contains, for one integer n that does not depend on the points, a - n*b for every a in x and b in y. '
 'n is the floor of the quotient, rounded down, of the lower bound of x by the bound of y that makes it smallest, so the lower bound of the result is never negative, and it is below the divisor up to the width contributed by n*y and rounding. '
 'The three interval/number forms agree.',
 ['inputs'],'dividends of any sign and magnitude, positive divisors (intervals and numbers), three floating-point types',
 'The fmod test uses small integers with exact quotients.',
 ['arith2.hpp','rounded_arith.hpp','detail/c99sub_rounding_control.hpp'],
 [('choice of the quotient','arith2.hpp'),('rounding to an integer','detail/c99sub_rounding_control.hpp')],
 ['bounds of the returned interval'])
p('P09','Operations leave the caller\'s rounding mode alone and do not depend on it',
 'With the default policies, every interval operation, constructor, conversion and comparison returns, or exits with an exception, with the floating-point rounding mode the caller had, whichever of the four modes that was, and a rounding object restores on destruction the mode found at its construction, nested objects included. '
 'The result of an operation does not depend on the rounding mode of the caller. '
 'Ordinary floating-point code between interval operations therefore sees its own rounding mode.',
 ['inputs','configurations','histories','fault_sequences'],'all operations of the library, the four ambient rounding modes, normal and exceptional exits, nested rounding objects',
 'Tests run in the default rounding mode only and never look at the mode afterwards, let alone after an exception.',
 ['rounding.hpp','hw_rounding.hpp','detail/c99sub_rounding_control.hpp','arith.hpp','arith2.hpp','transc.hpp'],
 [('save and restore in constructor/destructor','rounding.hpp'),('setting and reading the mode','detail/c99sub_rounding_control.hpp')],
 ['rounding mode before and after each call','result bits under each ambient mode'])
p('P10','Unprotected and alternative rounding policies compute the same results',
 'While a rounding object is alive, operations on the unprotected interval type give the same results as on the protected one, for single operations and for long mixed sequences in any order. '
 'The switching and the opposite-trick implementations of a rounding policy give the same results, with or without state saving as long as the mode they need is established, and every rounding-policy function leaves the policy ready for the next call. '
 'Changing the rounding or checking policy of an interval type keeps its other policy.',
 ['inputs','histories','configurations'],'all operations, policies built from the predefined rounding classes, protected/unprotected, sequences of operations',
 'Tests instantiate one or two policies and never compare them with each other, nor sequences of calls under one rounding object.',
 ['rounding.hpp','rounded_arith.hpp','rounded_transc.hpp','policies.hpp','hw_rounding.hpp'],
 [('unprotected rounding types','rounding.hpp'),('std and opp implementations','rounded_arith.hpp'),('policy changers','policies.hpp')],
 ['bounds computed by each policy','rounding mode after each policy call'])
p('P11','Comparisons implement their for-all / exists meaning',
 'For valid non-empty intervals and numbers, the default operators <, <=, >, >=, ==, != return true if the relation holds for all pairs of points, false if it holds for none, and throw the uncertain-comparison error otherwise; the certain, possible and three-valued comparison namespaces return for the third case false, true and indeterminate respectively. '
 'The explicit certainly/possibly functions give the for-all/exists answer in all their interval/number forms. '
 'An empty interval operand or an invalid (NaN) number recognised by the checking policy makes all these operators throw the same error (or the exception of a policy that itself raises one on invalid numbers), and operands with different policies compare alike.',
 ['inputs','configurations'],'all pairs of intervals and numbers (disjoint, touching, overlapping, nested, equal, singleton, infinite, empty, NaN), all operators, namespaces and policies',
 'Tests check a fixed list of integer intervals; bounds at infinity, signed zeros, mixed policies and the complete relation table between operators are not covered.',
 ['interval.hpp','compare/certain.hpp','compare/possible.hpp','compare/tribool.hpp','compare/explicit.hpp'],
 [('default comparison operators','interval.hpp'),('certain','compare/certain.hpp'),('possible','compare/possible.hpp'),('tribool','compare/tribool.hpp'),('explicit','compare/explicit.hpp')],
 ['returned truth value or exception'])
p('P12','Lexicographic and set comparisons are the orders they claim to be',
 'The lexicographic operators order intervals (and numbers, as singletons) by lower bound and then by upper bound, form a total order consistent between <, <=, >, >=, == and !=, and throw the uncertain-comparison error on empty intervals or invalid numbers. '
 'The set operators <=, <, >=, >, ==, != are the subset, proper subset, superset, proper superset, set equality and inequality relations, with the empty interval a subset of everything, for operands of the same or of different policies; with a number they always throw the uncertain-comparison error. '
 'Both families agree with the sets the intervals denote for every operand.',
 ['inputs'],'all pairs and triples of intervals and numbers, empty intervals included',
 'Tests list a few pairs; totality, transitivity, emptiness and number operands are sampled at best.',
 ['compare/lexicographic.hpp','compare/set.hpp','utility.hpp'],
 [('lexicographic operators','compare/lexicographic.hpp'),('set operators','compare/set.hpp'),('subset and equality','utility.hpp')],
 ['returned truth value or exception'])
p('P13','Set functions and predicates behave as on sets of reals',
 'intersect is exactly the set intersection, hull the smallest interval containing both arguments (intervals or numbers; invalid numbers and empty intervals contribute nothing), and empty, in, zero_in, singleton, equal, subset, proper_subset and overlap answer exactly what the sets they are given imply. '
 'bisect returns two intervals that share their only common point, whose union is the original and whose bounds are the original bounds and the median, for every valid interval including huge and unbounded ones. '
 'Set functions are exact: no rounding ever moves a bound.',
 ['inputs','configurations'],'all pairs of intervals and numbers, empty ones included, three floating-point types, all checking policies that allow the operand',
 'Tests cover a few integer intervals; empties, infinities, touching bounds and huge bounds with bisect are missing.',
 ['utility.hpp','utility_fwd.hpp','interval.hpp','detail/test_input.hpp','rounded_arith.hpp'],
 [('set functions','utility.hpp'),('static hull','interval.hpp'),('median','rounded_arith.hpp')],
 ['returned interval or truth value'])
p('P14','Checking policies decide empties, invalid numbers and infinities everywhere',
 'Under a policy that allows empties and NaN, every operation with an empty interval or an invalid number operand produces an empty interval (or the policy\'s invalid number, false, or width 0), never a valid-looking one; under a policy that forbids empties, every operation whose result would be empty raises the policy\'s exception ("empty interval created" by default) and under one that catches invalid numbers every operation given one raises its exception ("invalid number" by default). '
 'A constructor, assignment or hull given inverted or invalid bounds follows the same rule. '
 'Empty bounds, infinite bounds and invalid numbers are always obtained from the checking policy, including a user-written one with its own representations and tests.',
 ['inputs','configurations'],'all functions, all operand positions, the predefined checking policies and their combinations, user-written checking policies',
 'Tests mostly use one policy each and a couple of functions; the matrix function x position x policy is not covered.',
 ['checking.hpp','detail/test_input.hpp','interval.hpp','arith.hpp','arith2.hpp','arith3.hpp','utility.hpp','transc.hpp'],
 [('checking policies','checking.hpp'),('test of the inputs','detail/test_input.hpp')],
 ['returned interval or value','exception type and text','calls made to the checking policy'])
p('P15','An operation that throws leaves its operands unchanged',
 'When an operation, compound assignment or reassignment of bounds exits with an exception raised by the checking policy or by a comparison, the interval it would have modified and its operands keep their previous bounds. '
 'The interval object remains usable, and repeating the operation on valid operands gives the normal result. '
 'Plain copies, assignments and swaps keep bounds bit for bit.',
 ['inputs','fault_sequences','histories'],'all compound assignments, assign() and assignments, all throwing checking policies, any operand, failure at each call into the policy, sequences of failing and succeeding operations',
 'Exceptions are only tested for being thrown, not for what they leave behind.',
 ['interval.hpp','arith.hpp','checking.hpp'],
 [('compound operators','arith.hpp'),('set and set_empty','interval.hpp')],
 ['bounds before and after a throwing call'])
p('P16','Constructors, assignments and conversions give the tightest enclosure',
 'Constructing or assigning an interval from a number of another arithmetic type (any built-in integer or floating-point type), from a pair of bounds (of any two such types), or from an interval of another base type yields the tightest interval of the destination type containing the source values: exact when representable, otherwise the two neighbouring numbers. '
 'Conversions between intervals of the same base type with different policies keep the bounds exactly, and empty intervals stay empty. '
 'A pair whose lower bound is above its upper one gives the empty interval (or the policy\'s exception), never an inverted one. '
 'The default constructor gives [0,0], a number its singleton, and whole and empty give the whole line and the empty set.',
 ['inputs','configurations'],'all values of all built-in source types, both constructors and assignment forms, all destination types and policies',
 'Tests convert a couple of float/double values; integers at the limits of their type, unsigned types, overflow and long double are not tried.',
 ['interval.hpp','rounded_arith.hpp','checking.hpp','hw_rounding.hpp'],
 [('converting constructors and assignments','interval.hpp'),('conv_down/conv_up','rounded_arith.hpp')],
 ['bounds of the constructed interval'])
p('P17','Scalar functions of an interval are correctly bounded',
 'width is the smallest representable number not below upper-lower, median is the representable number nearest to the exact midpoint (never outside the interval, 0 for the whole line), norm is the largest absolute value of a point, widen moves both bounds outward by the given amount with outward rounding, and lower, upper and their checked forms return the stored bounds. '
 'This holds for subnormal, huge and unbounded intervals. '
 'For an empty interval, width is 0 and median, norm and the checked bounds return the checking policy\'s invalid number.',
 ['inputs'],'all intervals of the three floating-point types, empty ones included',
 'Tests check widths and medians of a few integer intervals.',
 ['utility.hpp','rounded_arith.hpp'],
 [('width, median, norm, widen','utility.hpp'),('rounded median','rounded_arith.hpp')],
 ['returned number'])
p('P18','Constants and numeric limits of intervals are right for every base type',
 'The intervals pi, pi/2 and 2*pi strictly contain the real constants, tightest possible for float and double, within double precision for long double, and with integer bounds for other base types. '
 'numeric_limits of an interval type gives singletons for min, max, epsilon and denorm_min, the whole line for infinity, empty intervals for the NaNs, and inherits the other traits of the base type except rounding style and IEC 559 conformance. '
 'These values do not depend on the rounding mode at the time of use or of program start.',
 ['configurations','inputs'],'float, double, long double and user base types, all policies, the four rounding modes',
 'Only float and double pi are tested, with a tolerance; nothing tests numeric_limits.',
 ['constants.hpp','limits.hpp'],
 [('exact constants','constants.hpp'),('specialisation of the limits','limits.hpp')],
 ['returned intervals and traits'])
p('P19','The guarantees carry over to user-supplied base types',
 'For a base type with exact arithmetic (rational or integer numbers) results are exact, and for a base type with directed rounding control the predefined rounding classes give enclosures for every operation, including the elementary functions and conversions, and the tightest ones in that type wherever the operation makes a single rounding per bound. '
 'Only the operations required of a number are used: comparisons, unary minus, conversion from small ints and what the chosen rounding policy provides. '
 'Sign tests go through the user-specialisable predicates and infinities, NaNs and empties through the checking policy.',
 ['inputs','configurations'],'every pair of intervals of small floating-point formats (enumerated), rational and integer base types, exact/std/opp rounding classes',
 'Tests use a few rational or int values; no test enumerates a format or checks what is required of the base type.',
 ['rounded_arith.hpp','rounded_transc.hpp','rounding.hpp','arith.hpp','arith2.hpp','transc.hpp','utility.hpp','detail/interval_prototype.hpp','checking.hpp'],
 [('exact, std and opp classes','rounded_arith.hpp'),('transcendental classes','rounded_transc.hpp'),('user predicates','arith.hpp')],
 ['bounds of the results','operations requested from the base type'])
p('P20','Threads can use intervals independently of each other',
 'Interval computations in different threads on different objects, and concurrent reads of a shared interval, are free of data races and give the same results as when run alone. '
 'A thread\'s rounding mode is never changed by interval operations of another thread, even when these run under other ambient modes, are interrupted anywhere or exit with exceptions. '
 'This includes first use of the constants and of every policy from several threads at once.',
 ['schedules','inputs'],'interleavings of up to tens of threads running mixed operations under different ambient rounding modes',
 'The tests are single-threaded.',
 ['rounding.hpp','constants.hpp','detail/c99sub_rounding_control.hpp','rounded_arith.hpp'],
 [('per-thread rounding state','detail/c99sub_rounding_control.hpp'),('state kept in rounding objects','rounding.hpp')],
 ['race reports','per-thread results and rounding modes'])
p('P21','No undefined behaviour, invalid memory access or endless loop',
 'No call of the library with valid arguments (any intervals, numbers, exponents and indexes allowed by the documentation, empties and NaN where the checking policy allows them) executes undefined behaviour, reads uninitialised or freed memory, exhausts the stack, aborts on an assertion, or fails to return. '
 'Results do not refer to temporaries or to operands that have since changed. '
 'This holds at every optimisation level and language standard the library supports.',
 ['inputs','configurations'],'all functions with extreme and random valid arguments, under address, undefined-behaviour and memory sanitizers, several compilers and standards',
 'Tests run without sanitizers and with a few benign values.',
 ['interval.hpp','arith.hpp','arith2.hpp','arith3.hpp','utility.hpp','transc.hpp','rounded_arith.hpp','rounded_transc.hpp','detail/division.hpp','detail/c99sub_rounding_control.hpp','compare/explicit.hpp'],
 [('bounded recursion and iteration','arith2.hpp'),('references to bounds','utility.hpp')],
 ['sanitizer reports','termination of each call'])
p('P22','The rounding and checking policies are used as documented',
 'The library calls the functions of a rounding policy only while an object of that policy is alive, only with valid (non-NaN) arguments inside the mathematical domain of the function (closed at its finite ends; nonzero divisors), and creates unprotected rounding objects only while a protected one is alive. '
 'Each lower bound comes from downward functions and each upper bound from upward ones, so a policy that widens its results widens the interval outward. '
 'Policies with state in the object, non-inlined functions, or a counting/lazy checking class see every creation matched by a destruction, exceptions included.',
 ['inputs','histories','configurations'],'all functions with all valid operands (finite and half-infinite), instrumented user-written policies',
 'No test observes the calls made to a policy.',
 ['arith.hpp','arith2.hpp','arith3.hpp','utility.hpp','transc.hpp','interval.hpp','detail/division.hpp','rounding.hpp'],
 [('creation of rounding objects','arith.hpp'),('unprotected computations','transc.hpp'),('unprotected computations','arith2.hpp')],
 ['trace of policy calls: construction, destruction, function, arguments'])
p('P23','Stream output shows the bounds with the stream\'s own formatting',
 'Writing an interval to an output stream prints "[lower,upper]", each bound exactly as the stream would print the number under its current flags and precision, and "[]" for an empty interval. '
 'This holds for narrow and wide streams, any base type, any checking policy, and the stream itself is returned. '
 'Formatting flags other than the field width persist unchanged, and output errors are reported through the stream as usual.',
 ['inputs','configurations'],'all intervals, formatting flags, precisions and character types',
 'Nothing in the test suite prints an interval.',
 ['io.hpp','utility.hpp'],
 [('output operator','io.hpp')],
 ['characters produced, stream state'])
p('P24','The alternative x87 rounding back ends give the same guarantees',
 'With the x87 control-word back ends (regular and fast), selected instead of the C99 one on x86, interval arithmetic over float, double and long double encloses the exact results; results of the regular back end are the tightest representable ones. '
 'The rounding direction of the caller is restored on normal and exceptional exit, and rounding to integers honours the direction in force. '
 'The fast back end sets precision control to the type in use and restores the caller\'s control word.',
 ['inputs','configurations'],'operands of the three types, the four ambient modes, code compiled for x87 arithmetic',
 'On x86-64 the tests only build the C99 back end.',
 ['detail/x86_rounding_control.hpp','detail/x86gcc_rounding_control.hpp','ext/x86_fast_rounding_control.hpp','rounded_arith.hpp'],
 [('control words','detail/x86_rounding_control.hpp'),('fldcw, fnstcw, frndint','detail/x86gcc_rounding_control.hpp'),('precision-specific control words','ext/x86_fast_rounding_control.hpp')],
 ['bounds of the results','x87 control word before and after'])
p('P25','Composite expressions enclose the exact value (fundamental theorem)',
 'Replacing numbers by intervals in any expression or program built from the library\'s operations yields an interval containing the exact real value of the expression at every choice of points in the inputs, however long the program, whether it runs on protected or unprotected intervals, with exceptions raised and caught on the way, and with assignments, conversions between base types and set operations mixed in. '
 'The rounding mode of the surrounding code stays correct throughout. '
 'Iterated computations therefore never lose the true solution.',
 ['programs','inputs','histories'],'random straight-line programs of tens of operations over all functions and types, random point selections',
 'Tests apply one operation at a time.',
 ['arith.hpp','arith2.hpp','arith3.hpp','utility.hpp','transc.hpp','interval.hpp','rounding.hpp','rounded_arith.hpp'],
 [('composition of enclosures','arith.hpp'),('protection across operations','rounding.hpp')],
 ['intermediate and final bounds against a high-precision shadow execution'])
p('P26','Operations are inclusion-isotone',
 'If each operand of an operation is contained in the corresponding operand of a second evaluation, the first result is contained in the second: for +, -, *, / (zero-containing divisors included), unary minus, abs, square, sqrt, pow, min, max, widen, hull, intersect, multiplicative inverse, conversions and the monotone elementary functions, in interval and number forms. '
 'An empty operand is contained in everything and yields an empty result where the operation maps points. '
 'Predicates follow: a certain comparison stays certain, and a disjointness stays, when operands shrink.',
 ['inputs'],'all pairs of nested operand tuples, nested by one ulp, by a random amount, by a degenerate point or by infinity',
 'No test relates two evaluations of the same operation.',
 ['arith.hpp','arith2.hpp','utility.hpp','detail/division.hpp','transc.hpp','rounded_arith.hpp','compare/explicit.hpp'],
 [('monotone selection of bounds','arith.hpp'),('monotone directed rounding','rounded_arith.hpp')],
 ['bounds of both results'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
