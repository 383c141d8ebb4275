// Forced in front of a monitor (-include): selects the x87 back end as on 32-bit
// x86, in a build that computes with the x87 unit (-mfpmath=387).
#ifndef X87_HPP
#define X87_HPP
#include <cfenv>
#include <cmath>
#include <climits>
#include <limits>
#include <algorithm>
#include <boost/config.hpp>
#include <boost/limits.hpp>
#include <boost/config/no_tr1/cmath.hpp>
#include <boost/numeric/interval/rounding.hpp>
#include <boost/numeric/interval/rounded_arith.hpp>
// the square root of the x87 unit, as a 32-bit C library has it
extern "C" __attribute__((noinline)) double sqrt(double x) noexcept { long double r = x; __asm__ __volatile__("fsqrt" : "+t"(r)); volatile double d = (double)r; return d; }
extern "C" __attribute__((noinline)) float sqrtf(float x) noexcept { long double r = x; __asm__ __volatile__("fsqrt" : "+t"(r)); volatile float d = (float)r; return d; }
#undef __x86_64__
#define __i386__ 1
#include <boost/numeric/interval/hw_rounding.hpp>
#undef __i386__
#define __x86_64__ 1
#endif
