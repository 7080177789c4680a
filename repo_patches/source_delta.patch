From 9a28088db810a48d897e07c0f26fea99f8296cbe Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 01/14] fix: division of an interval touching zero from below
 by an interval touching zero is a half-line

div_positive and div_negative tested the upper bound of the numerator with
is_neg, so [-5,0]/[0,2] and [-5,0]/[-2,0] returned the whole line although
the symmetric [0,5]/[0,2] returned the half-line that encloses every quotient.
---
 include/boost/numeric/interval/detail/division.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/interval/detail/division.hpp b/include/boost/numeric/interval/detail/division.hpp
index 24fb025..dc0b7a4 100644
--- a/include/boost/numeric/interval/detail/division.hpp
+++ b/include/boost/numeric/interval/detail/division.hpp
@@ -75,7 +75,7 @@ interval<T, Policies> div_positive(const interval<T, Policies>& x, const T& yu)
   const T& xl = x.lower();
   const T& xu = x.upper();
   typedef typename Policies::checking checking;
-  if (::boost::numeric::interval_lib::user::is_neg(xu))
+  if (!::boost::numeric::interval_lib::user::is_pos(xu))
     return I(checking::neg_inf(), rnd.div_up(xu, yu), true);
   else if (::boost::numeric::interval_lib::user::is_neg(xl))
     return I(checking::neg_inf(), checking::pos_inf(), true);
@@ -110,7 +110,7 @@ interval<T, Policies> div_negative(const interval<T, Policies>& x, const T& yl)
   const T& xl = x.lower();
   const T& xu = x.upper();
   typedef typename Policies::checking checking;
-  if (::boost::numeric::interval_lib::user::is_neg(xu))
+  if (!::boost::numeric::interval_lib::user::is_pos(xu))
     return I(rnd.div_down(xu, yl), checking::pos_inf(), true);
   else if (::boost::numeric::interval_lib::user::is_neg(xl))
     return I(checking::neg_inf(), checking::pos_inf(), true);
-- 
2.43.0


From bb242ad3fedff504f126517d6dadb903f9658d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:28 +0000
Subject: [PATCH 02/14] fix: nth_root of an unbounded interval

The Newton iteration of root_aux computes oo - oo when its argument is infinite, so nth_root([1,oo], k) was empty (or threw) instead of enclosing the roots.
---
 include/boost/numeric/interval/arith2.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index eec87e0..33e5331 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -22,6 +22,7 @@
 #include <boost/numeric/interval/arith.hpp>
 #include <boost/numeric/interval/policies.hpp>
 #include <algorithm>
+#include <limits>
 #include <cassert>
 #include <boost/config/no_tr1/cmath.hpp>
 
@@ -231,6 +232,8 @@ I root_aux(typename I::base_type const &x, int k) // x and k are bigger than one
   typedef typename I::base_type T;
   T tk(k);
   I y(static_cast<T>(1), x, true);
+  if (std::numeric_limits<T>::has_infinity && x == std::numeric_limits<T>::infinity())
+    return y; // the iteration below needs a finite x
   for(;;) {
     T y0 = median(y);
     I yy = intersect(y, y0 - (pow(I(y0, y0, true), k) - x) / (tk * pow(y, k - 1)));
-- 
2.43.0


From d47e74ec45d7d2ba1d99cb0a0f65d11c1d0b0505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:21 +0000
Subject: [PATCH 03/14] fix: median and bisect of an interval with huge bounds

x + y may overflow although (x + y) / 2 does not: median was then infinite, outside of a bounded interval, and bisect did not split it.
---
 .../boost/numeric/interval/rounded_arith.hpp  | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/boost/numeric/interval/rounded_arith.hpp b/include/boost/numeric/interval/rounded_arith.hpp
index 4bb8691..e4efed0 100644
--- a/include/boost/numeric/interval/rounded_arith.hpp
+++ b/include/boost/numeric/interval/rounded_arith.hpp
@@ -50,7 +50,6 @@ struct rounded_arith_exact: Rounding {
 template<class T, class Rounding>
 struct rounded_arith_std: Rounding {
 # define BOOST_DN(EXPR) this->downward();   return this->force_rounding(EXPR)
-# define BOOST_NR(EXPR) this->to_nearest(); return this->force_rounding(EXPR)
 # define BOOST_UP(EXPR) this->upward();     return this->force_rounding(EXPR)
   void init() { }
   template<class U> T conv_down(U const &v) { BOOST_DN(v); }
@@ -63,7 +62,12 @@ struct rounded_arith_std: Rounding {
   T sub_up  (const T& x, const T& y) { BOOST_UP(x - y); }
   T mul_up  (const T& x, const T& y) { BOOST_UP(x * y); }
   T div_up  (const T& x, const T& y) { BOOST_UP(x / y); }
-  T median(const T& x, const T& y) { BOOST_NR((x + y) / 2); }
+  T median(const T& x, const T& y) {
+    this->to_nearest();
+    T r = this->force_rounding((x + y) / 2);
+    if (x <= r && r <= y) return r;
+    return this->force_rounding(x / 2 + y / 2); // x + y overflowed
+  }
   T sqrt_down(const T& x)
   { BOOST_NUMERIC_INTERVAL_using_math(sqrt); BOOST_DN(sqrt(x)); }
   T sqrt_up  (const T& x)
@@ -71,7 +75,6 @@ struct rounded_arith_std: Rounding {
   T int_down(const T& x) { this->downward(); return this->to_int(x); }
   T int_up  (const T& x) { this->upward();   return this->to_int(x); }
 # undef BOOST_DN
-# undef BOOST_NR
 # undef BOOST_UP
 };
   
@@ -83,11 +86,6 @@ struct rounded_arith_opp: Rounding {
     T r = this->force_rounding(EXPR); \
     this->upward(); \
     return r
-# define BOOST_NR(EXPR) \
-    this->to_nearest(); \
-    T r = this->force_rounding(EXPR); \
-    this->upward(); \
-    return r
 # define BOOST_UP(EXPR) return this->force_rounding(EXPR)
 # define BOOST_UP_NEG(EXPR) return -this->force_rounding(EXPR)
   template<class U> T conv_down(U const &v) { BOOST_UP_NEG(-v); }
@@ -100,7 +98,13 @@ struct rounded_arith_opp: Rounding {
   T sub_up  (const T& x, const T& y) { BOOST_UP(x - y); }
   T mul_up  (const T& x, const T& y) { BOOST_UP(x * y); }
   T div_up  (const T& x, const T& y) { BOOST_UP(x / y); }
-  T median  (const T& x, const T& y) { BOOST_NR((x + y) / 2); }
+  T median  (const T& x, const T& y) {
+    this->to_nearest();
+    T r = this->force_rounding((x + y) / 2);
+    if (!(x <= r && r <= y)) r = this->force_rounding(x / 2 + y / 2); // x + y overflowed
+    this->upward();
+    return r;
+  }
   T sqrt_down(const T& x)
   { BOOST_NUMERIC_INTERVAL_using_math(sqrt); BOOST_DN(sqrt(x)); }
   T sqrt_up  (const T& x)
@@ -108,7 +112,6 @@ struct rounded_arith_opp: Rounding {
   T int_down(const T& x) { return -this->to_int(-x); }
   T int_up  (const T& x) { return  this->to_int(x); }
 # undef BOOST_DN
-# undef BOOST_NR
 # undef BOOST_UP
 # undef BOOST_UP_NEG
 };
-- 
2.43.0


From 4985e52e2976414df80a222c8d0a76c7fc6f4609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:44 +0000
Subject: [PATCH 04/14] fix: conversion of the least int and of unsigned
 numbers with the opp rounding policy

conv_down computed the opposite of the value in the source type, which does not exist for the least signed integers and wraps around for unsigned ones: interval<double>(5u) was not [5,5].
---
 include/boost/numeric/interval/rounded_arith.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/boost/numeric/interval/rounded_arith.hpp b/include/boost/numeric/interval/rounded_arith.hpp
index e4efed0..72f1e8d 100644
--- a/include/boost/numeric/interval/rounded_arith.hpp
+++ b/include/boost/numeric/interval/rounded_arith.hpp
@@ -89,6 +89,18 @@ struct rounded_arith_opp: Rounding {
 # define BOOST_UP(EXPR) return this->force_rounding(EXPR)
 # define BOOST_UP_NEG(EXPR) return -this->force_rounding(EXPR)
   template<class U> T conv_down(U const &v) { BOOST_UP_NEG(-v); }
+  // the opposite of an integer may not exist in its type
+# define BOOST_CONV_DN(U) \
+    T conv_down(U const &v) { volatile U w = v; BOOST_DN(w); }
+  BOOST_CONV_DN(int)
+  BOOST_CONV_DN(long)
+  BOOST_CONV_DN(unsigned int)
+  BOOST_CONV_DN(unsigned long)
+# ifdef BOOST_HAS_LONG_LONG
+  BOOST_CONV_DN(boost::long_long_type)
+  BOOST_CONV_DN(boost::ulong_long_type)
+# endif
+# undef BOOST_CONV_DN
   template<class U> T conv_up  (U const &v) { BOOST_UP(v); }
   T add_down(const T& x, const T& y) { BOOST_UP_NEG((-x) - y); }
   T sub_down(const T& x, const T& y) { BOOST_UP_NEG(y - x); }
-- 
2.43.0


From f87049dd5c0196b1d6edfdc76cabeb7e5d239c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:50 +0000
Subject: [PATCH 05/14] fix: integer part of long double numbers

to_int rounded its argument to double first, so int_down and int_up, and fmod, of a long double were wrong.
---
 .../boost/numeric/interval/detail/c99sub_rounding_control.hpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp b/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
index a8684df..00084c9 100644
--- a/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
+++ b/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
@@ -18,7 +18,7 @@ namespace numeric {
 namespace interval_lib {
 namespace detail {
 
-extern "C" { double rint(double); }
+extern "C" { double rint(double); long double rintl(long double); }
 
 struct c99_rounding_control
 {
@@ -33,6 +33,7 @@ struct c99_rounding_control
 
   template<class T>
   static T to_int(const T& r) { return rint(r); }
+  static long double to_int(const long double& r) { return rintl(r); }
 };
 
 } // namespace detail
-- 
2.43.0


From 85f4161a46a0c4618a8b3d817be8f016346436b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:55 +0000
Subject: [PATCH 06/14] fix: lower bounds of odd functions and acosh with the
 opp transcendental policy

-f(x) is evaluated as the opposite of f(x) rounded upward, so the lower bound was rounded upward too; evaluate the odd functions at -x instead, and acosh, which is not odd, with the rounding mode switched downward.
---
 include/boost/numeric/interval/rounded_transc.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/boost/numeric/interval/rounded_transc.hpp b/include/boost/numeric/interval/rounded_transc.hpp
index ef6e28b..b699693 100644
--- a/include/boost/numeric/interval/rounded_transc.hpp
+++ b/include/boost/numeric/interval/rounded_transc.hpp
@@ -100,7 +100,7 @@ struct rounded_transc_opp: Rounding
 # define BOOST_NUMERIC_INTERVAL_new_func(f) \
     T f##_down(const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_math(f); \
-      return -this->force_rounding(-f(x)); } \
+      return -this->force_rounding(f(-x)); } \
     T f##_up  (const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_math(f); \
       return this->force_rounding(f(x)); }
@@ -120,16 +120,8 @@ struct rounded_transc_opp: Rounding
     { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
       return this->force_rounding(f(x)); }
   BOOST_NUMERIC_INTERVAL_new_func(asinh)
-  BOOST_NUMERIC_INTERVAL_new_func(atanh)
-# undef BOOST_NUMERIC_INTERVAL_new_func
-# define BOOST_NUMERIC_INTERVAL_new_func(f) \
-    T f##_down(const T& x) \
-    { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
-      return -this->force_rounding(-f(x)); } \
-    T f##_up  (const T& x) \
-    { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
-      return this->force_rounding(f(x)); }
   BOOST_NUMERIC_INTERVAL_new_func(acosh)
+  BOOST_NUMERIC_INTERVAL_new_func(atanh)
 # undef BOOST_NUMERIC_INTERVAL_new_func
 };
   
-- 
2.43.0


From dfaf4c06b0d4168b44853a0aeb82423293c05a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:57 +0000
Subject: [PATCH 07/14] fix: numeric_limits<interval>::signaling_NaN

The member name was misspelt, so the function could not be instantiated.
---
 include/boost/numeric/interval/limits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/limits.hpp b/include/boost/numeric/interval/limits.hpp
index ce080dd..7004ccc 100644
--- a/include/boost/numeric/interval/limits.hpp
+++ b/include/boost/numeric/interval/limits.hpp
@@ -36,7 +36,7 @@ public:
   static I infinity () BOOST_NOEXCEPT_OR_NOTHROW { return I::whole(); }
   static I quiet_NaN() BOOST_NOEXCEPT_OR_NOTHROW { return I::empty(); }
   static I signaling_NaN() BOOST_NOEXCEPT_OR_NOTHROW
-  { return I(bl::signaling_NaN(), bl::signaling_Nan()); }
+  { return I(bl::signaling_NaN(), bl::signaling_NaN()); }
   static I denorm_min() BOOST_NOEXCEPT_OR_NOTHROW
   { return I(bl::denorm_min(), bl::denorm_min()); }
 private:
-- 
2.43.0


From 2359f69cda6229a20332b2456f704374c36904f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:54 +0000
Subject: [PATCH 08/14] fix: assign an upper bound that is the interval's own
 lower bound

x.assign(v, x.lower()) overwrote the lower bound before reading it through the reference, and stored [v, v].
---
 include/boost/numeric/interval/interval.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/interval.hpp b/include/boost/numeric/interval/interval.hpp
index e89af48..98cb275 100644
--- a/include/boost/numeric/interval/interval.hpp
+++ b/include/boost/numeric/interval/interval.hpp
@@ -259,8 +259,9 @@ void interval<T, Policies>::assign(const T& l, const T& u)
 template<class T, class Policies> inline
 void interval<T, Policies>::set(const T& l, const T& u)
 {
+  T const u_ = u; // u may refer to low
   low = l;
-  up  = u;
+  up  = u_;
 }
 
 template<class T, class Policies> inline
-- 
2.43.0


From 0d852c201187ace52380c4d583b70b737466161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:33 +0000
Subject: [PATCH 09/14] fix: widen an interval by a not-a-number

widen ignored its number operand when checking its input, unlike the arithmetic operations, and returned bounds that are not numbers under policies that forbid empty intervals or catch not-a-number.
---
 include/boost/numeric/interval/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/utility.hpp b/include/boost/numeric/interval/utility.hpp
index 8e784b8..08ffcc6 100644
--- a/include/boost/numeric/interval/utility.hpp
+++ b/include/boost/numeric/interval/utility.hpp
@@ -82,7 +82,7 @@ T median(const interval<T, Policies>& x)
 template<class T, class Policies> inline
 interval<T, Policies> widen(const interval<T, Policies>& x, const T& v)
 {
-  if (interval_lib::detail::test_input(x))
+  if (interval_lib::detail::test_input(x, v))
     return interval<T, Policies>::empty();
   typename Policies::rounding rnd;
   return interval<T, Policies>(rnd.sub_down(x.lower(), v),
-- 
2.43.0


From b1930b8021c09c7383a652f7a1284ae7f234c47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:13 +0000
Subject: [PATCH 10/14] fix: fmod of an interval without lower bound

The number of periods to subtract was infinite and the result had
not-a-number bounds; nothing is known about it, so return the whole line.
---
 include/boost/numeric/interval/arith2.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index 33e5331..b343d6a 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -29,6 +29,21 @@
 namespace boost {
 namespace numeric {
 
+namespace interval_lib {
+namespace detail {
+
+// the number of periods that fmod subtracts is known
+template<class T, class Policies> inline
+bool fmod_finite(const T& n)
+{
+  typedef typename Policies::checking checking;
+  return !std::numeric_limits<T>::has_infinity ||
+         (checking::neg_inf() < n && n < checking::pos_inf());
+}
+
+} // namespace detail
+} // namespace interval_lib
+
 template<class T, class Policies> inline
 interval<T, Policies> fmod(const interval<T, Policies>& x,
                            const interval<T, Policies>& y)
@@ -39,6 +54,8 @@ interval<T, Policies> fmod(const interval<T, Policies>& x,
   typedef typename interval_lib::unprotect<interval<T, Policies> >::type I;
   T const &yb = interval_lib::user::is_neg(x.lower()) ? y.lower() : y.upper();
   T n = rnd.int_down(rnd.div_down(x.lower(), yb));
+  if (!interval_lib::detail::fmod_finite<T, Policies>(n))
+    return interval<T, Policies>::whole();
   return (const I&)x - n * (const I&)y;
 }
 
@@ -50,6 +67,8 @@ interval<T, Policies> fmod(const interval<T, Policies>& x, const T& y)
   typename Policies::rounding rnd;
   typedef typename interval_lib::unprotect<interval<T, Policies> >::type I;
   T n = rnd.int_down(rnd.div_down(x.lower(), y));
+  if (!interval_lib::detail::fmod_finite<T, Policies>(n))
+    return interval<T, Policies>::whole();
   return (const I&)x - n * I(y);
 }
 
@@ -62,6 +81,8 @@ interval<T, Policies> fmod(const T& x, const interval<T, Policies>& y)
   typedef typename interval_lib::unprotect<interval<T, Policies> >::type I;
   T const &yb = interval_lib::user::is_neg(x) ? y.lower() : y.upper();
   T n = rnd.int_down(rnd.div_down(x, yb));
+  if (!interval_lib::detail::fmod_finite<T, Policies>(n))
+    return interval<T, Policies>::whole();
   return x - n * (const I&)y;
 }
 
-- 
2.43.0


From 72da670965a494db4b9f9ff2d7a910dd01b32f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:20 +0000
Subject: [PATCH 11/14] fix: inverse hyperbolic functions of long double

With C++11 and libstdc++ the global ::asinh, ::acosh and ::atanh are the
double functions; std::asinh etc. have the overloads.
---
 include/boost/numeric/interval/detail/bugs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/detail/bugs.hpp b/include/boost/numeric/interval/detail/bugs.hpp
index e15bd0c..e544307 100644
--- a/include/boost/numeric/interval/detail/bugs.hpp
+++ b/include/boost/numeric/interval/detail/bugs.hpp
@@ -25,7 +25,7 @@
 #else
 #  define BOOST_NUMERIC_INTERVAL_using_math(a) using std::a
 #  if defined(BOOST_HAS_INV_HYPERBOLIC)
-#    if defined(__GLIBCPP__) || defined(__GLIBCXX__)
+#    if defined(__GLIBCPP__) || (defined(__GLIBCXX__) && __cplusplus < 201103L)
 #    define BOOST_NUMERIC_INTERVAL_using_ahyp(a) using ::a
 #    else
 #    define BOOST_NUMERIC_INTERVAL_using_ahyp(a) using std::a
-- 
2.43.0


From 9cc7f3a1d7b878351edce5e4ae815b3fd25b04e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:45 +0000
Subject: [PATCH 12/14] fix: nth_root without a live rounding object

nth_root computes with unprotected intervals but did not create the
rounding object they need: it left the rounding mode changed, and with the
opp policy its first division was rounded to nearest.
---
 include/boost/numeric/interval/arith2.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index b343d6a..564e70a 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -297,6 +297,8 @@ interval<T, Policies> nth_root(interval<T, Policies> const &x, int k)
   if (interval_lib::detail::test_input(x)) return I::empty();
   assert(k > 0);
   if (k == 1) return x;
+  typename Policies::rounding rnd;
+  (void)&rnd;
   typedef typename interval_lib::unprotect<I>::type R;
   if (!interval_lib::user::is_pos(x.upper())) {
     if (interval_lib::user::is_zero(x.upper())) {
-- 
2.43.0


From 5ac6065df4c1f0ffec8266cd96da5900d7a1e842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:48 +0000
Subject: [PATCH 13/14] fix: pow of an interval to the least int

---
 include/boost/numeric/interval/arith2.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index 564e70a..125c7d9 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -193,8 +193,11 @@ interval<T, Policies> pow(const interval<T, Policies>& x, int pwr)
       return I::empty();
     else
       return I(static_cast<T>(1));
-  else if (pwr < 0)
+  else if (pwr < 0) {
+    if (pwr < -(std::numeric_limits<int>::max)()) // -pwr would overflow
+      return interval_lib::multiplicative_inverse(square(pow(x, -(pwr / 2))));
     return interval_lib::multiplicative_inverse(pow(x, -pwr));
+  }
 
   typename Policies::rounding rnd;
   
-- 
2.43.0


From 80f7699985ce1b8dcbac7a7cf6d4db30b975b4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 14/14] fix: norm of an interval of unsigned numbers

---
 include/boost/numeric/interval/utility.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/interval/utility.hpp b/include/boost/numeric/interval/utility.hpp
index 08ffcc6..df868f3 100644
--- a/include/boost/numeric/interval/utility.hpp
+++ b/include/boost/numeric/interval/utility.hpp
@@ -251,6 +251,7 @@ T norm(const interval<T, Policies>& x)
     typedef typename Policies::checking checking;
     return checking::nan();
   }
+  if (!interval_lib::user::is_neg(x.lower())) return x.upper(); // T may be unsigned
   BOOST_USING_STD_MAX();
   return max BOOST_PREVENT_MACRO_SUBSTITUTION(static_cast<T>(-x.lower()), x.upper());
 }
-- 
2.43.0

