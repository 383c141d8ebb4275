"""What each check builds and runs."""
import json, os
_here = os.path.dirname(os.path.abspath(__file__))
TITLES = {}
for _l in open(os.path.join(_here, 'properties.jsonl')):
    _p = json.loads(_l)
    TITLES[_p['id']] = _p['title']

MP = 'MPFR (directed rounding, 192 bits) computes the exact real set that is compared with'
FP = 'the FPU and the C library\'s fesetround/fegetround work'

X87 = '-mfpmath=387 -fexcess-precision=fast -include x87.hpp'

def B(src, **k):
    k['src'] = src
    return k

SPECS = {
 'P01': dict(mult=3,
  builds=[B('p_arith.cpp', flags='-O2'), B('p_arith.cpp', cxx='clang++', flags='-O2', scale=0.3), B('p_arith.cpp', flags='-O0', scale=0.3)],
  rule='operand intervals from a generator of special, boundary, subnormal, huge, half-infinite and random bounds, every sign pattern, plus all pairs of a grid of 117 special intervals; non-trivial: no operand is [0,0]; distinct by operation, type and operand bits',
  assumptions=[MP, FP]),
 'P02': dict(mult=3,
  builds=[B('p_arith.cpp', defs=['TIGHT'], flags='-O2'), B('p_arith.cpp', defs=['TIGHT'], cxx='clang++', flags='-O2', scale=0.3)],
  rule='as for P01, with abs, square, sqrt, min, max and multiplicative inverse added; the oracle is the correctly rounded hull of the exact set; non-trivial: no operand is [0,0]',
  assumptions=[MP, FP]),
 'P03': dict(mult=3,
  builds=[B('p_div.cpp', flags='-O2', scale=2), B('p_div.cpp', cxx='clang++', flags='-O2', scale=0.6)],
  rule='dividends and divisors of every sign pattern with zero bounds, zero inside, half-lines; single and two-part division; non-trivial: the divisor is not [0,0]',
  assumptions=[MP, FP]),
 'P04': dict(mult=3,
  builds=[B('p_alg.cpp', flags='-O2', scale=2), B('p_alg.cpp', cxx='clang++', flags='-O2', scale=0.6), B('p_alg.cpp', flags='-O0', scale=0.3)],
  rule='intervals of every sign pattern and magnitude with exponents and indexes from small to extreme; non-trivial: the argument is not [0,0]',
  assumptions=[MP, FP]),
 'P09': dict(mult=2,
  builds=[B('p_round.cpp', flags='-O0', defs=['TSEL=1'], cost=2), B('p_round.cpp', flags='-O0', defs=['TSEL=2'], cost=2),
          B('p_round.cpp', flags='-O0', defs=['TSEL=4'], cost=2), B('p_round.cpp', flags='-O2', defs=['TSEL=8']),
          B('p_round.cpp', flags='-O1', defs=['TSEL=2'], scale=0.5, thorough_only=True), B('p_round.cpp', cxx='clang++', flags='-O1', defs=['TSEL=1'], scale=0.5, thorough_only=True)],
  rule='every operation of a catalogue of about 230 over 8 policies, from each of the four ambient modes, the full FPU state compared before and after and the results compared between modes; non-trivial: every call',
  assumptions=[FP, 'gcc and clang may move floating-point operations across fesetround inside inlined code; operands are forced to memory at call boundaries']),
 'P10': dict(mult=2,
  builds=[B('p_prot.cpp', flags='-O1', defs=['TSEL=8']), B('p_prot.cpp', flags='-O0', defs=['TSEL=17']), B('p_prot.cpp', flags='-O0', defs=['TSEL=18']),
          B('p_prot.cpp', flags='-O0', defs=['TSEL=20']), B('p_prot.cpp', flags='-O0', defs=['TSEL=33']), B('p_prot.cpp', flags='-O0', defs=['TSEL=34']),
          B('p_prot.cpp', flags='-O0', defs=['TSEL=36'])],
  rule='random sequences of up to 40 catalogue operations on the protected type and again on the unprotected type under one rounding object; every predefined rounding class against another and against MPFR; non-trivial: every call',
  assumptions=[MP, FP]),
 'P14': dict(mult=2,
  builds=[B('p_check.cpp', flags='-O0', defs=['TSEL=1'], cost=2), B('p_check.cpp', flags='-O0', defs=['TSEL=2'], cost=2),
          B('p_check.cpp', flags='-O0', defs=['TSEL=4'], cost=2), B('p_check.cpp', flags='-O2', defs=['TSEL=2'], thorough_only=True)],
  rule='every operation of the catalogue under 7 checking policies (predefined, combined and user-written) with empty, invalid and valid operands; the policy decides what each result must be; non-trivial: an operand is empty or invalid, or the exact result is empty',
  assumptions=[MP, FP]),
 'P15': dict(mult=2,
  builds=[B('p_check.cpp', flags='-O0', defs=['TSEL=1', 'STRONG'], cost=2), B('p_check.cpp', flags='-O0', defs=['TSEL=2', 'STRONG'], cost=2),
          B('p_check.cpp', flags='-O0', defs=['TSEL=4', 'STRONG'], cost=2), B('p_check.cpp', flags='-O2', defs=['TSEL=2', 'STRONG'], thorough_only=True)],
  rule='as for P14, operand bits recorded before each call and compared after every exception; non-trivial: the call threw',
  assumptions=[FP]),
 'P06': dict(mult=3,
  builds=[B('p_transc.cpp', flags='-O2'), B('p_transc.cpp', flags='-O0', scale=0.7), B('p_transc.cpp', cxx='clang++', flags='-O1', scale=0.3)],
  rule='14 functions over intervals around their zeros, extrema, poles, domain ends and overflow thresholds, multiples of pi/4 up to 2^44, huge, tiny and infinite bounds; rounding policies whose functions are correctly rounded by MPFR, and the predefined transc classes over a user number type whose functions follow the rounding mode; non-trivial: the image is not empty',
  assumptions=[MP, FP]),
 'P07': dict(mult=3,
  builds=[B('p_transc.cpp', flags='-O2', defs=['DOM']), B('p_transc.cpp', flags='-O0', defs=['DOM'], scale=0.7)],
  rule='intervals ending at, around and beyond the domain boundaries, under policies that allow empties and that throw; non-trivial: every call',
  assumptions=[MP, FP]),
 'P08': dict(mult=3,
  builds=[B('p_transc.cpp', flags='-O2', defs=['FMOD']), B('p_transc.cpp', flags='-O0', defs=['FMOD'], scale=0.7)],
  rule='dividends and divisors with exact, nearly exact, huge, negative and zero quotients in the three call forms; non-trivial: every call',
  assumptions=[MP, FP, 'policies that switch rounding modes are monitored without optimisation: gcc merges a*b computed in two modes']),
 'P11': dict(
  builds=[B('p_cmp.cpp', flags='-O1', cost=2), B('p_cmp.cpp', flags='-O0', scale=0.4, cost=2), B('p_cmp.cpp', cxx='clang++', flags='-O1', scale=0.4)],
  rule='pairs of intervals and numbers that touch, nest, coincide, lie apart or are infinite or empty, compared by every operator of every namespace and by the certainly/possibly functions, under policies that allow, detect or catch invalid numbers and with different policies on both sides; the for-all/exists truth is computed from the exact bounds; non-trivial: the pair overlaps or an operand is empty or NaN',
  assumptions=['the FPU compares numbers of one type correctly']),
 'P12': dict(
  builds=[B('p_cmp.cpp', flags='-O1', defs=['ORDERS'], cost=2), B('p_cmp.cpp', flags='-O0', defs=['ORDERS'], scale=0.4, cost=2)],
  rule='as for P11 with the lexicographic and the set operators, and triples of intervals for the order laws; non-trivial: bounds are shared or an operand is empty or NaN',
  assumptions=['the FPU compares numbers of one type correctly']),
 'P13': dict(mult=2,
  builds=[B('p_set.cpp', flags='-O1', cost=2), B('p_set.cpp', flags='-O0', scale=0.5, cost=2), B('p_set.cpp', cxx='clang++', flags='-O1', scale=0.4)],
  rule='pairs of intervals and numbers in every relative position, with shared, zero, huge, subnormal and infinite bounds and empties; sets are computed independently from the bounds; non-trivial: neither operand is [0,0]',
  assumptions=[MP, FP]),
 'P17': dict(mult=3,
  builds=[B('p_set.cpp', flags='-O1', defs=['SCALARS'], cost=2), B('p_set.cpp', flags='-O0', defs=['SCALARS'], scale=0.5, cost=2)],
  rule='intervals of every magnitude and sign pattern, adjacent and equal bounds, subnormal, huge, unbounded and empty, width amounts of every magnitude; MPFR rounds the exact value; non-trivial: the interval is not [0,0]',
  assumptions=[MP, FP]),
 'P05': dict(mult=1.5,
  builds=[B('p_forms.cpp', flags='-O1', scale=2), B('p_forms.cpp', flags='-O0', defs=['STDP'], scale=0.7), B('p_forms.cpp', cxx='clang++', flags='-O1', scale=0.6)],
  rule='every operation written in all its forms (number, singleton, int, compound, mirrored, aliased) over several policies and types; results are compared bit for bit; non-trivial: the operands are not all zero',
  assumptions=['policies that switch rounding modes are monitored without optimisation: gcc merges a*b computed in two modes']),
 'P16': dict(
  builds=[B('p_conv.cpp', flags='-O2', scale=2), B('p_conv.cpp', flags='-O0', defs=['STDP'], scale=0.7), B('p_conv.cpp', cxx='clang++', flags='-O2', scale=0.6)],
  rule='sources of 16 arithmetic types (integers around every power of two, halves between destination numbers, subnormal, overflowing, infinite), pairs and intervals, converted into every destination and policy; MPFR gives the exact source and rounds it; non-trivial: every call',
  assumptions=[MP, FP]),
 'P18': dict(
  builds=[B('p_const.cpp', flags='-O2', shards=1), B('p_const.cpp', flags='-O0', shards=1), B('p_const.cpp', cxx='clang++', flags='-O2', shards=1), B('p_const.cpp', flags='-O2', std='c++11', shards=1), B('p_const.cpp', flags='-O2', std='c++20', shards=1)],
  rule='constants and limits of every base type, read before main and in it under the four rounding modes; compared with MPFR and with the limits of the base type; non-trivial: every value',
  assumptions=[MP, FP]),
 'P19': dict(
  builds=[B('p_soft.cpp', flags='-O2'), B('p_user.cpp', flags='-O1', scale=4, must_compile=True), B('p_user.cpp', cxx='clang++', flags='-O0', scale=0.5), B('p_soft.cpp', cxx='clang++', flags='-O2', scale=0.5, thorough_only=True), B('p_user.cpp', flags='-O0', std='c++11', scale=1, thorough_only=True)],
  rule='all intervals of two tiny floating-point formats with a directed rounding mode (20 and 12 magnitudes), all their pairs, and samples of two larger ones; rational intervals with huge numerators; integers; a type with only the documented operations that notes comparisons with zero, under a user-written rounding policy; oracles: exact rationals, exact integers, enumeration of the format, the same computation on double; non-trivial: every call',
  assumptions=['GMP and MPFR compute correctly']),
 'P20': dict(
  builds=[B('p_thread.cpp', flags='-O1 -fsanitize=thread', san=True, libs='-lpthread', scale=4), B('p_thread.cpp', cxx='clang++', flags='-O1 -fsanitize=thread', san=True, libs='-lpthread', scale=2),
          B('p_thread.cpp', flags='-O0', libs='-lpthread', scale=5), B('p_thread.cpp', flags='-O2', libs='-lpthread', scale=5)],
  technique='ThreadSanitizer, injected yields and a comparison of concurrent with sequential runs',
  rule='programs of random catalogue operations on 3 types and 5 policies run by 2 to 10 threads at the same time, each operation from its own ambient mode, a quarter of them on shared constant intervals, with exceptions, yields injected between each mode change and its use, and first use in fresh processes; each log is compared with a run alone; non-trivial: every thread program',
  assumptions=['ThreadSanitizer sees the races of the interleavings that occur; races between relaxed atomics are left to the comparison of results']),
 'P21': dict(
  builds=[B('p_san.cpp', flags='-O1 -fsanitize=address,undefined -fno-sanitize-recover=all', san=True, libs='', defs=['PART=%d' % p], scale=s, cost=3) for p, s in ((1, 8), (2, 8), (4, 8), (8, 4), (16, 4))] +
         [B('p_san.cpp', cxx='clang++', flags='-O1 -fsanitize=memory -D_GLIBCXX_EXTERN_TEMPLATE=0', san=True, libs='', defs=['NOSTREAM', 'PART=%d' % p], scale=s, cost=2) for p, s in ((1, 8), (2, 8), (8, 4), (16, 4))] +
         [B('p_san.cpp', flags=f, libs='', defs=['PART=25'], scale=10, cost=2) for f in ('-O3', '-O0')] +
         [B('p_std.cpp', cxx=c, std=s, flags=f, san='sanit' in f, libs='', must_compile=True, scale=2) for c, s, f in
            (('g++', 'c++98', '-O1 -fsanitize=address,undefined -fno-sanitize-recover=all'), ('clang++', 'c++98', '-O2'), ('g++', 'c++11', '-O3'), ('clang++', 'c++20', '-O1 -fsanitize=address,undefined -fno-sanitize-recover=all'), ('g++', 'c++23', '-Os'))] +
         [B('p_san.cpp', cxx='clang++', flags='-O0 -fsanitize=address,undefined -fno-sanitize-recover=all', san=True, libs='', defs=['PART=%d' % p], scale=8, cost=3, thorough_only=True) for p in (4, 8, 16)] +
         [B('p_san.cpp', std=s, flags='-Os', libs='', defs=['PART=31'], scale=10, cost=3, thorough_only=True) for s in ('c++11', 'c++20', 'c++23')] +
         [B('p_std.cpp', cxx=c, std=s, flags=f, libs='', must_compile=True, scale=2, thorough_only=True) for c in ('g++', 'clang++') for s in ('c++98', 'c++11', 'c++14', 'c++17', 'c++20', 'c++23') for f in ('-O0', '-O2', '-O3 -march=native')],
  technique='address, undefined-behaviour and memory sanitizers, result and reference monitors, CPU-time watchdog',
  rule='every catalogue operation and transcendental function with arbitrary valid bounds (empty, NaN, infinite, subnormal where the policy allows them) and extreme exponents and indexes; results of temporaries kept in references, operands inside the modified object, a number type on the heap with canaries, integer bases near their limits; every bit of a result is used; non-trivial: every call',
  assumptions=['a sanitizer reports the violations of the executed paths; MemorySanitizer builds leave out streams (uninstrumented library)', 'memory owned by libstdc++ or libm is not instrumented']),
 'P22': dict(mult=2,
  builds=[B('p_trace.cpp', flags='-O1', defs=['PART=%d' % p], scale=20, tscale=8, must_compile=True, cost=2) for p in (1, 2, 4)] + [B('p_trace.cpp', cxx='clang++', flags='-O0', defs=['PART=7'], scale=4, must_compile=True, cost=2)],
  technique='trace monitor in a user-written rounding policy, injected exceptions, differential run with a widening policy',
  rule='every catalogue operation and elementary function over valid operands with a rounding policy that records its objects and the argument of each call, again with one that widens each result by 2^-10 or one unit, with exceptions injected at a random call, under throwing checks, and on unprotected intervals below one object; non-trivial: every call of the library',
  assumptions=[MP, FP, 'sin, cos and tan of unbounded intervals may subtract infinities']),
 'P23': dict(
  builds=[B('p_io.cpp', flags='-O1', libs='', scale=20, tscale=10, must_compile=True), B('p_io.cpp', cxx='clang++', flags='-O2', std='c++11', libs='', scale=10, tscale=5, must_compile=True),
          B('p_io.cpp', flags='-O1 -fsanitize=address,undefined -fno-sanitize-recover=all', std='c++20', san=True, libs='', scale=5, must_compile=True, cost=2)],
  technique='differential monitor on stream buffers with injected write failures',
  rule='intervals of 16 number types (with user types whose output throws or uses the stream\'s own storage) over narrow, wide and custom-traits streams with random flags, precision, width, fill, locale grouping, rounding mode; buffers that fail or throw after a random number of characters; the expected text is joined from the bounds printed alone; non-trivial: every interval',
  assumptions=['the C++ library prints single numbers correctly', 'padding for a field width may go anywhere: fill characters are removed before comparing']),
 'P24': dict(
  builds=[B('p_x87.cpp', flags='-O0 ' + X87, defs=['STDP', 'EXACTPC'], scale=2), B('p_x87.cpp', flags='-O2 ' + X87, scale=4),
          B('p_x87.cpp', flags='-O1 ' + X87, scale=2, thorough_only=True), B('p_x87.cpp', flags='-O3 ' + X87, scale=2, thorough_only=True),
          B('p_arith.cpp', flags='-O2 ' + X87, defs=['TIGHT'], scale=0.5), B('p_arith.cpp', flags='-O0 ' + X87, defs=['TIGHT'], scale=0.2),
          B('p_div.cpp', flags='-O2 ' + X87, scale=0.6), B('p_alg.cpp', flags='-O2 ' + X87, scale=0.6), B('p_transc.cpp', flags='-O2 ' + X87, defs=['FMOD'], scale=0.5),
          B('p_conv.cpp', flags='-O0 ' + X87, scale=0.3), B('p_forms.cpp', flags='-O0 ' + X87, scale=0.3),
          B('p_set.cpp', flags='-O0 ' + X87, scale=0.2), B('p_set.cpp', flags='-O0 ' + X87, defs=['SCALARS'], scale=0.2),
          B('p_round.cpp', flags='-O0 ' + X87, defs=['TSEL=2'], scale=0.4, cost=2), B('p_round.cpp', flags='-O0 ' + X87, defs=['TSEL=8'], scale=0.4),
          B('p_round.cpp', flags='-O0 ' + X87, defs=['TSEL=1'], thorough_only=True), B('p_round.cpp', flags='-O0 ' + X87, defs=['TSEL=4'], thorough_only=True),
          B('p_prot.cpp', flags='-O0 ' + X87, defs=['TSEL=18'], scale=0.4, cost=2), B('p_prot.cpp', flags='-O1 ' + X87, defs=['TSEL=8'], scale=0.4),
          B('p_prot.cpp', flags='-O0 ' + X87, defs=['TSEL=17'], thorough_only=True), B('p_prot.cpp', flags='-O0 ' + X87, defs=['TSEL=20'], thorough_only=True),
          B('p_prot.cpp', flags='-O0 ' + X87, defs=['TSEL=33'], thorough_only=True), B('p_prot.cpp', flags='-O0 ' + X87, defs=['TSEL=34'], thorough_only=True), B('p_prot.cpp', flags='-O0 ' + X87, defs=['TSEL=36'], thorough_only=True)],
  technique='MPFR comparison of results computed on the x87 unit, with the control word read back around and inside operations',
  rule='the monitors of P01-P05, P08-P10, P13, P16, P17 built for x87 arithmetic with the x87 back end in place of the C99 one, and a monitor of the control words, the rounding to integers and the fast back end (operands of moderate range, precision control and rounding of the caller varied, exceptional exits); non-trivial: as there',
  assumptions=[MP, 'the x87 header is selected by hiding __x86_64__ from hw_rounding.hpp; the C library functions of x86-64 do not use the x87 unit, so sqrt is replaced by fsqrt and other library functions are left out', 'where compilers move x87 instructions across fldcw (conversions, classes that switch modes) code is built without optimisation']),
 'P26': dict(mult=3,
  builds=[B('p_iso.cpp', flags='-O1', defs=['TSEL=9'], scale=9, cost=2), B('p_iso.cpp', flags='-O1', defs=['TSEL=2'], scale=9, cost=2), B('p_iso.cpp', flags='-O1', defs=['TSEL=4'], scale=9, cost=2),
          B('p_iso.cpp', flags='-O0', defs=['STDP', 'TSEL=3'], scale=2), B('p_iso.cpp', flags='-O0', defs=['STDP', 'TSEL=4'], thorough_only=True),
          B('p_iso.cpp', cxx='clang++', flags='-O1', defs=['TSEL=11'], scale=2, thorough_only=True)],
  technique='metamorphic monitor: pairs of evaluations on nested operands',
  rule='chains of operands, each within the previous one (one ulp, a point, a random part, infinite bounds dropped, finally empty, an interval replaced by a number it holds), through every isotone operation and every predicate of the catalogue, in random ambient modes; each result must lie within the previous one; non-trivial: the result differs from the previous one, or a decided predicate had to stay decided',
  assumptions=[FP]),
 'P25': dict(mult=3,
  builds=[B('p_prog.cpp', flags='-O1', defs=['TSEL=1'], scale=3, cost=2), B('p_prog.cpp', flags='-O1', defs=['TSEL=2'], scale=3, cost=2), B('p_prog.cpp', flags='-O1', defs=['TSEL=4'], scale=8, cost=2),
          B('p_prog.cpp', flags='-O0', defs=['TSEL=8'], scale=2, cost=2), B('p_prog.cpp', flags='-O2', defs=['TSEL=7'], thorough_only=True)],
  technique='shadow execution of random programs at points of the inputs with rigorous 320-bit balls',
  rule='straight-line programs of up to 300 steps over 45 kinds of operation on three register files (float, double, long double) with conversions between them, throwing policies, unprotected regions with protected calls inside, and native arithmetic of the surrounding code in a random mode; interval Newton, elimination, long sums, series and continued fractions; four points followed through every step; non-trivial: a finite result compared with a defined exact value',
  assumptions=[MP, FP, 'elementary functions come from a policy correctly rounded by MPFR', 'a value outside by less than 2^-300 of the magnitude would be missed']),
}
