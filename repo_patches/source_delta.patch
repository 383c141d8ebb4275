From 4764879a9b711b912630a3ba7d1f0eb176c1bd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 01/20] fix: lower bound of conversions from built-in integers

rounded_arith_opp::conv_down negated its argument in its own type, which wraps
for unsigned types and overflows for the smallest signed value:
interval<double>(5u) was [-4294967291,5].
---
 include/boost/numeric/interval/rounded_arith.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/rounded_arith.hpp b/include/boost/numeric/interval/rounded_arith.hpp
index 4bb8691..db48680 100644
--- a/include/boost/numeric/interval/rounded_arith.hpp
+++ b/include/boost/numeric/interval/rounded_arith.hpp
@@ -13,6 +13,8 @@
 #include <boost/numeric/interval/rounding.hpp>
 #include <boost/numeric/interval/detail/bugs.hpp>
 #include <boost/config/no_tr1/cmath.hpp>
+#include <boost/type_traits/integral_constant.hpp>
+#include <boost/type_traits/is_integral.hpp>
 
 namespace boost {
 namespace numeric {
@@ -90,7 +92,8 @@ struct rounded_arith_opp: Rounding {
     return r
 # define BOOST_UP(EXPR) return this->force_rounding(EXPR)
 # define BOOST_UP_NEG(EXPR) return -this->force_rounding(EXPR)
-  template<class U> T conv_down(U const &v) { BOOST_UP_NEG(-v); }
+  template<class U> T conv_down(U const &v)
+  { return conv_down_impl(v, boost::integral_constant<bool, boost::is_integral<U>::value>()); }
   template<class U> T conv_up  (U const &v) { BOOST_UP(v); }
   T add_down(const T& x, const T& y) { BOOST_UP_NEG((-x) - y); }
   T sub_down(const T& x, const T& y) { BOOST_UP_NEG(y - x); }
@@ -107,6 +110,15 @@ struct rounded_arith_opp: Rounding {
   { BOOST_NUMERIC_INTERVAL_using_math(sqrt); BOOST_UP(sqrt(x)); }
   T int_down(const T& x) { return -this->to_int(-x); }
   T int_up  (const T& x) { return  this->to_int(x); }
+private:
+  template<class U> T conv_down_impl(U const &v, boost::false_type const &)
+  { BOOST_UP_NEG(-v); }
+  // The opposite of a built-in integer may not be representable (unsigned
+  // types, smallest signed value), so the trick can't be used. The value goes
+  // through a volatile variable so that the compiler does not share the
+  // conversion with the one done by conv_up in another rounding mode.
+  template<class U> T conv_down_impl(U const &v, boost::true_type const &)
+  { U const volatile w = v; BOOST_DN(static_cast<U>(w)); }
 # undef BOOST_DN
 # undef BOOST_NR
 # undef BOOST_UP
-- 
2.43.0


From e782648d96f9217281d219ede6faffc47bff6056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 02/20] fix: assign() when the new upper bound is the current
 lower bound

x.assign(0, x.lower()) on [1,2] produced [0,0] since the lower bound was
overwritten before being read.
---
 include/boost/numeric/interval/interval.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/interval.hpp b/include/boost/numeric/interval/interval.hpp
index e89af48..2f2a68f 100644
--- a/include/boost/numeric/interval/interval.hpp
+++ b/include/boost/numeric/interval/interval.hpp
@@ -259,8 +259,9 @@ void interval<T, Policies>::assign(const T& l, const T& u)
 template<class T, class Policies> inline
 void interval<T, Policies>::set(const T& l, const T& u)
 {
+  T const new_up(u); // u may refer to the lower bound of this interval
   low = l;
-  up  = u;
+  up  = new_up;
 }
 
 template<class T, class Policies> inline
-- 
2.43.0


From d9066b2733ec5cfa1ea61e3a91d57435cf5bea09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:19 +0000
Subject: [PATCH 03/20] fix: median (and bisect) of huge and of unbounded
 intervals

median([1e308,1.7e308]) was +inf, which lies outside of the interval and made
bisect return [+inf,1.7e308]; median([-inf,+inf]) was NaN, which made bisect
return two empty intervals for the whole line.
---
 .../boost/numeric/interval/rounded_arith.hpp  | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/boost/numeric/interval/rounded_arith.hpp b/include/boost/numeric/interval/rounded_arith.hpp
index db48680..c5d6646 100644
--- a/include/boost/numeric/interval/rounded_arith.hpp
+++ b/include/boost/numeric/interval/rounded_arith.hpp
@@ -52,7 +52,6 @@ struct rounded_arith_exact: Rounding {
 template<class T, class Rounding>
 struct rounded_arith_std: Rounding {
 # define BOOST_DN(EXPR) this->downward();   return this->force_rounding(EXPR)
-# define BOOST_NR(EXPR) this->to_nearest(); return this->force_rounding(EXPR)
 # define BOOST_UP(EXPR) this->upward();     return this->force_rounding(EXPR)
   void init() { }
   template<class U> T conv_down(U const &v) { BOOST_DN(v); }
@@ -65,7 +64,15 @@ struct rounded_arith_std: Rounding {
   T sub_up  (const T& x, const T& y) { BOOST_UP(x - y); }
   T mul_up  (const T& x, const T& y) { BOOST_UP(x * y); }
   T div_up  (const T& x, const T& y) { BOOST_UP(x / y); }
-  T median(const T& x, const T& y) { BOOST_NR((x + y) / 2); }
+  T median(const T& x, const T& y)
+  {
+    if (x == -y) return static_cast<T>(0); // infinite bounds included
+    this->to_nearest();
+    T r = this->force_rounding((x + y) / 2);
+    if ((r < x && r < y) || (x < r && y < r)) // x + y has overflowed
+      r = this->force_rounding(x / 2 + y / 2);
+    return r;
+  }
   T sqrt_down(const T& x)
   { BOOST_NUMERIC_INTERVAL_using_math(sqrt); BOOST_DN(sqrt(x)); }
   T sqrt_up  (const T& x)
@@ -73,7 +80,6 @@ struct rounded_arith_std: Rounding {
   T int_down(const T& x) { this->downward(); return this->to_int(x); }
   T int_up  (const T& x) { this->upward();   return this->to_int(x); }
 # undef BOOST_DN
-# undef BOOST_NR
 # undef BOOST_UP
 };
   
@@ -85,11 +91,6 @@ struct rounded_arith_opp: Rounding {
     T r = this->force_rounding(EXPR); \
     this->upward(); \
     return r
-# define BOOST_NR(EXPR) \
-    this->to_nearest(); \
-    T r = this->force_rounding(EXPR); \
-    this->upward(); \
-    return r
 # define BOOST_UP(EXPR) return this->force_rounding(EXPR)
 # define BOOST_UP_NEG(EXPR) return -this->force_rounding(EXPR)
   template<class U> T conv_down(U const &v)
@@ -103,7 +104,16 @@ struct rounded_arith_opp: Rounding {
   T sub_up  (const T& x, const T& y) { BOOST_UP(x - y); }
   T mul_up  (const T& x, const T& y) { BOOST_UP(x * y); }
   T div_up  (const T& x, const T& y) { BOOST_UP(x / y); }
-  T median  (const T& x, const T& y) { BOOST_NR((x + y) / 2); }
+  T median  (const T& x, const T& y)
+  {
+    if (x == -y) return static_cast<T>(0); // infinite bounds included
+    this->to_nearest();
+    T r = this->force_rounding((x + y) / 2);
+    if ((r < x && r < y) || (x < r && y < r)) // x + y has overflowed
+      r = this->force_rounding(x / 2 + y / 2);
+    this->upward();
+    return r;
+  }
   T sqrt_down(const T& x)
   { BOOST_NUMERIC_INTERVAL_using_math(sqrt); BOOST_DN(sqrt(x)); }
   T sqrt_up  (const T& x)
@@ -120,7 +130,6 @@ private:
   template<class U> T conv_down_impl(U const &v, boost::true_type const &)
   { U const volatile w = v; BOOST_DN(static_cast<U>(w)); }
 # undef BOOST_DN
-# undef BOOST_NR
 # undef BOOST_UP
 # undef BOOST_UP_NEG
 };
-- 
2.43.0


From ade66520da0dea2215cd92de9b6655116a005cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 04/20] fix: pow with the smallest int as exponent

-pwr overflowed and pow recursed until the stack was exhausted.
---
 include/boost/numeric/interval/arith2.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index eec87e0..f5456ef 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -15,6 +15,7 @@
 #define BOOST_NUMERIC_INTERVAL_ARITH2_HPP
 
 #include <boost/config.hpp>
+#include <boost/limits.hpp>
 #include <boost/numeric/interval/detail/interval_prototype.hpp>
 #include <boost/numeric/interval/detail/test_input.hpp>
 #include <boost/numeric/interval/detail/bugs.hpp>
@@ -154,6 +155,9 @@ T pow_up(const T& x_, int pwr, Rounding& rnd) // x and pwr are positive
 } // namespace detail
 } // namespace interval_lib
 
+template<class T, class Policies> inline
+interval<T, Policies> square(const interval<T, Policies>& x);
+
 template<class T, class Policies> inline
 interval<T, Policies> pow(const interval<T, Policies>& x, int pwr)
 {
@@ -171,6 +175,8 @@ interval<T, Policies> pow(const interval<T, Policies>& x, int pwr)
       return I::empty();
     else
       return I(static_cast<T>(1));
+  else if (pwr < -(std::numeric_limits<int>::max)()) // -pwr is not representable
+    return square(pow(x, pwr / 2));
   else if (pwr < 0)
     return interval_lib::multiplicative_inverse(pow(x, -pwr));
 
-- 
2.43.0


From 491429c16d710b526916c1ae7e352223f691d169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 05/20] fix: pow([0,0],0)

The documentation says: "when the power is 0 and the interval is not empty,
the result is 1, even if the input interval contains 0". The result was empty
(or an exception, depending on the checking policy) for [0,0].
---
 include/boost/numeric/interval/arith2.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index f5456ef..8f21ec1 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -170,11 +170,7 @@ interval<T, Policies> pow(const interval<T, Policies>& x, int pwr)
     return I::empty();
 
   if (pwr == 0)
-    if (interval_lib::user::is_zero(x.lower())
-        && interval_lib::user::is_zero(x.upper()))
-      return I::empty();
-    else
-      return I(static_cast<T>(1));
+    return I(static_cast<T>(1));
   else if (pwr < -(std::numeric_limits<int>::max)()) // -pwr is not representable
     return square(pow(x, pwr / 2));
   else if (pwr < 0)
-- 
2.43.0


From 7aa00f5f95a829b11c72dfe85eb9c2af2dfa00c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 06/20] fix: nth_root of intervals with an infinite or a
 subnormal bound

The Newton iteration computed inf/inf: nth_root([1,+inf],3) was [1,NaN] and
nth_root([1e-320,1],3) was [NaN,1] (1/1e-320 overflows).
---
 include/boost/numeric/interval/arith2.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index 8f21ec1..3974d31 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -233,6 +233,9 @@ I root_aux(typename I::base_type const &x, int k) // x and k are bigger than one
   typedef typename I::base_type T;
   T tk(k);
   I y(static_cast<T>(1), x, true);
+  typename I::traits_type::rounding rnd;
+  // if x is infinite, the iteration below would create invalid numbers
+  if (rnd.div_down(x, static_cast<T>(2)) == x) return y;
   for(;;) {
     T y0 = median(y);
     I yy = intersect(y, y0 - (pow(I(y0, y0, true), k) - x) / (tk * pow(y, k - 1)));
-- 
2.43.0


From ea9b4c1e13b7891ac67d65986dd7cdaefb08cf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 07/20] fix: division of [a,0] by an interval with one zero
 bound

[-1,0]/[0,2] was the whole line although the smallest enclosure is [-inf,0];
the mirror cases ([0,1]/[0,2], [0,1]/[-2,0]) were tight already.
---
 include/boost/numeric/interval/detail/division.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/interval/detail/division.hpp b/include/boost/numeric/interval/detail/division.hpp
index 24fb025..dc0b7a4 100644
--- a/include/boost/numeric/interval/detail/division.hpp
+++ b/include/boost/numeric/interval/detail/division.hpp
@@ -75,7 +75,7 @@ interval<T, Policies> div_positive(const interval<T, Policies>& x, const T& yu)
   const T& xl = x.lower();
   const T& xu = x.upper();
   typedef typename Policies::checking checking;
-  if (::boost::numeric::interval_lib::user::is_neg(xu))
+  if (!::boost::numeric::interval_lib::user::is_pos(xu))
     return I(checking::neg_inf(), rnd.div_up(xu, yu), true);
   else if (::boost::numeric::interval_lib::user::is_neg(xl))
     return I(checking::neg_inf(), checking::pos_inf(), true);
@@ -110,7 +110,7 @@ interval<T, Policies> div_negative(const interval<T, Policies>& x, const T& yl)
   const T& xl = x.lower();
   const T& xu = x.upper();
   typedef typename Policies::checking checking;
-  if (::boost::numeric::interval_lib::user::is_neg(xu))
+  if (!::boost::numeric::interval_lib::user::is_pos(xu))
     return I(rnd.div_down(xu, yl), checking::pos_inf(), true);
   else if (::boost::numeric::interval_lib::user::is_neg(xl))
     return I(checking::neg_inf(), checking::pos_inf(), true);
-- 
2.43.0


From 52c5efbcdee8aff7140fad2d12d67157c9276ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 08/20] fix: lower bounds of odd functions and of acosh in
 rounded_transc_opp

-force_rounding(-f(x)) evaluates f rounded upward, so the lower bound was above
the image. The opposite trick has to be applied to the argument of an odd
function; acosh is not odd and has to be evaluated in downward mode.
---
 include/boost/numeric/interval/rounded_transc.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/numeric/interval/rounded_transc.hpp b/include/boost/numeric/interval/rounded_transc.hpp
index ef6e28b..666eac1 100644
--- a/include/boost/numeric/interval/rounded_transc.hpp
+++ b/include/boost/numeric/interval/rounded_transc.hpp
@@ -100,7 +100,7 @@ struct rounded_transc_opp: Rounding
 # define BOOST_NUMERIC_INTERVAL_new_func(f) \
     T f##_down(const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_math(f); \
-      return -this->force_rounding(-f(x)); } \
+      return -this->force_rounding(f(-x)); } \
     T f##_up  (const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_math(f); \
       return this->force_rounding(f(x)); }
@@ -119,17 +119,17 @@ struct rounded_transc_opp: Rounding
     T f##_up  (const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
       return this->force_rounding(f(x)); }
-  BOOST_NUMERIC_INTERVAL_new_func(asinh)
-  BOOST_NUMERIC_INTERVAL_new_func(atanh)
+  BOOST_NUMERIC_INTERVAL_new_func(acosh)
 # undef BOOST_NUMERIC_INTERVAL_new_func
 # define BOOST_NUMERIC_INTERVAL_new_func(f) \
     T f##_down(const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
-      return -this->force_rounding(-f(x)); } \
+      return -this->force_rounding(f(-x)); } \
     T f##_up  (const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
       return this->force_rounding(f(x)); }
-  BOOST_NUMERIC_INTERVAL_new_func(acosh)
+  BOOST_NUMERIC_INTERVAL_new_func(asinh)
+  BOOST_NUMERIC_INTERVAL_new_func(atanh)
 # undef BOOST_NUMERIC_INTERVAL_new_func
 };
   
-- 
2.43.0


From a6e9c073d46cbddecfb4ffe189114b576bd3d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 09/20] fix: typo in numeric_limits<interval>::signaling_NaN

It did not compile when used.
---
 include/boost/numeric/interval/limits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/limits.hpp b/include/boost/numeric/interval/limits.hpp
index ce080dd..7004ccc 100644
--- a/include/boost/numeric/interval/limits.hpp
+++ b/include/boost/numeric/interval/limits.hpp
@@ -36,7 +36,7 @@ public:
   static I infinity () BOOST_NOEXCEPT_OR_NOTHROW { return I::whole(); }
   static I quiet_NaN() BOOST_NOEXCEPT_OR_NOTHROW { return I::empty(); }
   static I signaling_NaN() BOOST_NOEXCEPT_OR_NOTHROW
-  { return I(bl::signaling_NaN(), bl::signaling_Nan()); }
+  { return I(bl::signaling_NaN(), bl::signaling_NaN()); }
   static I denorm_min() BOOST_NOEXCEPT_OR_NOTHROW
   { return I(bl::denorm_min(), bl::denorm_min()); }
 private:
-- 
2.43.0


From 75675016be6edaa3d7146496488afdd0c61d98fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:11 +0000
Subject: [PATCH 10/20] fix: rounding of long double to an integer

rint(double) was used for all the types: int_down and int_up (hence fmod) lost
the precision of long double values and overflowed outside of the range of double.
---
 .../boost/numeric/interval/detail/c99sub_rounding_control.hpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp b/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
index a8684df..00084c9 100644
--- a/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
+++ b/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
@@ -18,7 +18,7 @@ namespace numeric {
 namespace interval_lib {
 namespace detail {
 
-extern "C" { double rint(double); }
+extern "C" { double rint(double); long double rintl(long double); }
 
 struct c99_rounding_control
 {
@@ -33,6 +33,7 @@ struct c99_rounding_control
 
   template<class T>
   static T to_int(const T& r) { return rint(r); }
+  static long double to_int(const long double& r) { return rintl(r); }
 };
 
 } // namespace detail
-- 
2.43.0


From bc72cda97c2f3d2096b5b206efacc801b27f8b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:02 +0000
Subject: [PATCH 11/20] fix: nth_root computed without a rounding object alive

nth_root uses the unprotected rounding policy but created no rounding object:
its bounds were computed in the rounding mode of the caller (hence not
guaranteed), and it left the rounding mode set to upward.
---
 include/boost/numeric/interval/arith2.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index 3974d31..a797e0b 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -278,6 +278,8 @@ interval<T, Policies> nth_root(interval<T, Policies> const &x, int k)
   if (interval_lib::detail::test_input(x)) return I::empty();
   assert(k > 0);
   if (k == 1) return x;
+  typename Policies::rounding rnd;
+  (void)&rnd;
   typedef typename interval_lib::unprotect<I>::type R;
   if (!interval_lib::user::is_pos(x.upper())) {
     if (interval_lib::user::is_zero(x.upper())) {
-- 
2.43.0


From 57fbf049ba28678e20115aea1bd52a9dabc24350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:18 +0000
Subject: [PATCH 12/20] fix: widen by an invalid number

The amount was not given to the checking policy: with a policy that catches
invalid numbers, or that forbids empty intervals, widen(x, NaN) returned
an interval with invalid bounds instead of raising the exception.
---
 include/boost/numeric/interval/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/utility.hpp b/include/boost/numeric/interval/utility.hpp
index 8e784b8..08ffcc6 100644
--- a/include/boost/numeric/interval/utility.hpp
+++ b/include/boost/numeric/interval/utility.hpp
@@ -82,7 +82,7 @@ T median(const interval<T, Policies>& x)
 template<class T, class Policies> inline
 interval<T, Policies> widen(const interval<T, Policies>& x, const T& v)
 {
-  if (interval_lib::detail::test_input(x))
+  if (interval_lib::detail::test_input(x, v))
     return interval<T, Policies>::empty();
   typename Policies::rounding rnd;
   return interval<T, Policies>(rnd.sub_down(x.lower(), v),
-- 
2.43.0


From df5cd74345452bd9a31fa3f42bf2c1fe451749ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 13/20] fix: subset (and set <=, >=) of intervals with
 different policies

---
 include/boost/numeric/interval/utility.hpp     | 6 +++---
 include/boost/numeric/interval/utility_fwd.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/numeric/interval/utility.hpp b/include/boost/numeric/interval/utility.hpp
index 08ffcc6..f2661ff 100644
--- a/include/boost/numeric/interval/utility.hpp
+++ b/include/boost/numeric/interval/utility.hpp
@@ -120,9 +120,9 @@ bool in(const T& x, const interval<T, Policies>& y)
   return y.lower() <= x && x <= y.upper();
 }
 
-template<class T, class Policies> inline
-bool subset(const interval<T, Policies>& x,
-            const interval<T, Policies>& y)
+template<class T, class Policies1, class Policies2> inline
+bool subset(const interval<T, Policies1>& x,
+            const interval<T, Policies2>& y)
 {
   if (empty(x)) return true;
   return !empty(y) && y.lower() <= x.lower() && x.upper() <= y.upper();
diff --git a/include/boost/numeric/interval/utility_fwd.hpp b/include/boost/numeric/interval/utility_fwd.hpp
index 5fce06c..368affd 100644
--- a/include/boost/numeric/interval/utility_fwd.hpp
+++ b/include/boost/numeric/interval/utility_fwd.hpp
@@ -58,11 +58,11 @@ namespace boost { namespace numeric {
     template <class T, class Policies>
     bool in(const T& x, const interval<T,Policies>& y);
 
-    template <class T, class Policies>
+    template <class T, class Policies1, class Policies2>
     bool
         subset(
-            const interval<T,Policies>& x
-          , const interval<T,Policies>& y
+            const interval<T,Policies1>& x
+          , const interval<T,Policies2>& y
         );
 
     template <class T, class Policies1, class Policies2>
-- 
2.43.0


From 77945b8cc033edd42a090e3d5a0572de7dc16726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:56 +0000
Subject: [PATCH 14/20] fix: NaNs of numeric_limits<interval> under a policy
 that forbids empties

The exception of the checking policy met a noexcept specification, so that
the program was terminated.
---
 include/boost/numeric/interval/limits.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/numeric/interval/limits.hpp b/include/boost/numeric/interval/limits.hpp
index 7004ccc..9ac8ae2 100644
--- a/include/boost/numeric/interval/limits.hpp
+++ b/include/boost/numeric/interval/limits.hpp
@@ -33,9 +33,10 @@ public:
   BOOST_STATIC_CONSTANT(float_round_style, round_style = round_indeterminate);
   BOOST_STATIC_CONSTANT(bool, is_iec559 = false);
 
-  static I infinity () BOOST_NOEXCEPT_OR_NOTHROW { return I::whole(); }
-  static I quiet_NaN() BOOST_NOEXCEPT_OR_NOTHROW { return I::empty(); }
-  static I signaling_NaN() BOOST_NOEXCEPT_OR_NOTHROW
+  // these ones may throw, it depends on the checking policy
+  static I infinity () { return I::whole(); }
+  static I quiet_NaN() { return I::empty(); }
+  static I signaling_NaN()
   { return I(bl::signaling_NaN(), bl::signaling_NaN()); }
   static I denorm_min() BOOST_NOEXCEPT_OR_NOTHROW
   { return I(bl::denorm_min(), bl::denorm_min()); }
-- 
2.43.0


From 0f9d44f6741e7c237699c9e95a4726a743255f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 15/20] fix: unary plus returns an interval, not a reference to
 its operand

The result referred to the operand, so that it dangled when the operand was
a temporary and changed when the operand was assigned to. The documentation
gives a return by value.
---
 include/boost/numeric/interval/arith.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/arith.hpp b/include/boost/numeric/interval/arith.hpp
index 0d598be..e9919c4 100644
--- a/include/boost/numeric/interval/arith.hpp
+++ b/include/boost/numeric/interval/arith.hpp
@@ -26,7 +26,7 @@ namespace numeric {
  */
 
 template<class T, class Policies> inline
-const interval<T, Policies>& operator+(const interval<T, Policies>& x)
+interval<T, Policies> operator+(const interval<T, Policies>& x)
 {
   return x;
 }
-- 
2.43.0


From 3cf3d2aebcda5bbae73265e23d213043bee12f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 16/20] fix: lower and upper of an interval return a number,
 not a reference into it

The reference dangled when the interval was a temporary. The documentation
gives a return by value.
---
 include/boost/numeric/interval/utility.hpp     | 4 ++--
 include/boost/numeric/interval/utility_fwd.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/interval/utility.hpp b/include/boost/numeric/interval/utility.hpp
index f2661ff..9e17ed3 100644
--- a/include/boost/numeric/interval/utility.hpp
+++ b/include/boost/numeric/interval/utility.hpp
@@ -29,13 +29,13 @@ namespace numeric {
  */
 
 template<class T, class Policies> inline
-const T& lower(const interval<T, Policies>& x)
+T lower(const interval<T, Policies>& x)
 {
   return x.lower();
 }
 
 template<class T, class Policies> inline
-const T& upper(const interval<T, Policies>& x)
+T upper(const interval<T, Policies>& x)
 {
   return x.upper();
 }
diff --git a/include/boost/numeric/interval/utility_fwd.hpp b/include/boost/numeric/interval/utility_fwd.hpp
index 368affd..8536c9b 100644
--- a/include/boost/numeric/interval/utility_fwd.hpp
+++ b/include/boost/numeric/interval/utility_fwd.hpp
@@ -25,10 +25,10 @@ namespace boost { namespace numeric {
      */
 
     template<class T, class Policies>
-    const T& lower(const interval<T,Policies>& x);
+    T lower(const interval<T,Policies>& x);
 
     template<class T, class Policies>
-    const T& upper(const interval<T,Policies>& x);
+    T upper(const interval<T,Policies>& x);
 
     template<class T, class Policies>
     T checked_lower(const interval<T,Policies>& x);
-- 
2.43.0


From fbd0ef4494c05b5d9a8ad5d70a04db5984e9fbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 17/20] fix: x87 rounding to integer must not be merged across
 a change of rounding mode

The frndint statement depends on the control word, which the compiler does
not see: without volatile, int_down(x) and int_up(x) became one rounding.
---
 .../boost/numeric/interval/detail/x86gcc_rounding_control.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/detail/x86gcc_rounding_control.hpp b/include/boost/numeric/interval/detail/x86gcc_rounding_control.hpp
index dcdc7e2..f829ec1 100644
--- a/include/boost/numeric/interval/detail/x86gcc_rounding_control.hpp
+++ b/include/boost/numeric/interval/detail/x86gcc_rounding_control.hpp
@@ -38,7 +38,7 @@ struct x86_rounding
   static T to_int(T r)
   {
     T r_;
-    __asm__ ("frndint" : "=&t"(r_) : "0"(r));
+    __asm__ __volatile__ ("frndint" : "=&t"(r_) : "0"(r));
     return r_;
   }
 };
-- 
2.43.0


From d26305efdc72652bc04ecb2b5641209cc2bd316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 18/20] fix: an exception of empty_upper must not leave a
 half-assigned interval

set_empty and set_whole stored the lower bound before they asked the checking
policy for the upper one.
---
 include/boost/numeric/interval/interval.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/interval/interval.hpp b/include/boost/numeric/interval/interval.hpp
index 2f2a68f..6d38a9d 100644
--- a/include/boost/numeric/interval/interval.hpp
+++ b/include/boost/numeric/interval/interval.hpp
@@ -267,15 +267,13 @@ void interval<T, Policies>::set(const T& l, const T& u)
 template<class T, class Policies> inline
 void interval<T, Policies>::set_empty()
 {
-  low = checking::empty_lower();
-  up  = checking::empty_upper();
+  set(checking::empty_lower(), checking::empty_upper());
 }
 
 template<class T, class Policies> inline
 void interval<T, Policies>::set_whole()
 {
-  low = checking::neg_inf();
-  up  = checking::pos_inf();
+  set(checking::neg_inf(), checking::pos_inf());
 }
 
 template<class T, class Policies> inline
-- 
2.43.0


From 957ddf33bc025dfadf449671d6ea3070668b4add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 19/20] fix: accept a negative signed lower bound together with
 an unsigned upper bound

interval(l, u) compared bounds of two types with the built-in <=, which
converts negative integers to unsigned: interval<double>(-1, 5u) was taken
for an inverted pair, and interval<double>(5u, -1) for a valid one.
---
 include/boost/numeric/interval/interval.hpp | 22 ++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/interval.hpp b/include/boost/numeric/interval/interval.hpp
index 6d38a9d..e5179e4 100644
--- a/include/boost/numeric/interval/interval.hpp
+++ b/include/boost/numeric/interval/interval.hpp
@@ -10,6 +10,7 @@
 #ifndef BOOST_NUMERIC_INTERVAL_INTERVAL_HPP
 #define BOOST_NUMERIC_INTERVAL_INTERVAL_HPP
 
+#include <limits>
 #include <stdexcept>
 #include <string>
 #include <boost/numeric/interval/detail/interval_prototype.hpp>
@@ -28,6 +29,24 @@ public:
   { }
 };
 
+namespace detail {
+
+// l <= u for bounds of any two types; the built-in comparison of a signed
+// integer with an unsigned one would convert the negative values
+template<class T1, class T2> inline
+bool ordered_bounds(T1 const &l, T2 const &u)
+{
+  typedef std::numeric_limits<T1> L;
+  typedef std::numeric_limits<T2> U;
+  if (L::is_integer && U::is_integer && L::is_signed != U::is_signed) {
+    if (L::is_signed && l < static_cast<T1>(0)) return true;
+    if (U::is_signed && u < static_cast<T2>(0)) return false;
+  }
+  return l <= u;
+}
+
+} // namespace detail
+
 } // namespace interval_lib
 
 /*
@@ -156,7 +175,8 @@ interval<T, Policies>::interval(T1 const &v)
 template<class T, class Policies> template<class T1, class T2> inline
 interval<T, Policies>::interval(T1 const &l, T2 const &u)
 {
-  if (checking::is_nan(l) || checking::is_nan(u) || !(l <= u)) set_empty();
+  if (checking::is_nan(l) || checking::is_nan(u) ||
+      !interval_lib::detail::ordered_bounds(l, u)) set_empty();
   else {
     rounding rnd;
     low = rnd.conv_down(l);
-- 
2.43.0


From 1bd5f53362aecd34e92742bdd7406231b14a2c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 20/20] fix: no inverted interval from two bounds whose
 comparison was inexact

An integer and a floating-point bound are compared after the integer has been
rounded: interval<double>(16777217, 16777216.f) was [16777217,16777216].
---
 include/boost/numeric/interval/interval.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/interval/interval.hpp b/include/boost/numeric/interval/interval.hpp
index e5179e4..14461da 100644
--- a/include/boost/numeric/interval/interval.hpp
+++ b/include/boost/numeric/interval/interval.hpp
@@ -181,6 +181,8 @@ interval<T, Policies>::interval(T1 const &l, T2 const &u)
     rounding rnd;
     low = rnd.conv_down(l);
     up  = rnd.conv_up  (u);
+    // the bounds may have been compared with less precision than that of T
+    if (!(low <= up)) set_empty();
   }
 }
 
-- 
2.43.0

