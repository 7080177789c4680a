// Base types of our own for instantiating the interval templates:
//  Mini<P,QMIN,QMAX>  soft floating point (P-bit significand, quantum exponents QMIN..QMAX,
//                     infinities and NaN) with an observable global rounding mode and an
//                     optional fault raised at the k-th primitive;
//  Rat                exact rationals (for the exact rounding policies).
#ifndef VERIF_MINI_HPP
#define VERIF_MINI_HPP
#include <boost/numeric/interval/rounding.hpp>
#include <boost/numeric/interval/constants.hpp>
#include <cmath>
#include <ostream>
#include <limits>
#include <numeric>
#include <cstdlib>
#include <type_traits>

struct Fault {};
struct MiniEnv { static int mode; static long fuse; static long ticks;
  static void tick() { ++ticks; if (fuse > 0 && --fuse == 0) throw Fault(); } };
enum { M_NEAR = 0, M_DOWN = 1, M_UP = 2, M_ZERO = 3 };

// round the real number x (held in a long double that is exact, or correct to far more bits than
// the format has) to P bits
template<int P, int QMIN, int QMAX> inline double mini_round(long double x, int mode) {
  if (!(x - x == 0) || x == 0) return (double)x;
  bool ng = x < 0; long double m = ng ? -x : x;
  int e; frexpl(m, &e); int q = e - P; if (q < QMIN) q = QMIN;
  long double s = ldexpl(m, -q), f = floorl(s), r = s - f;
  bool up = mode == M_NEAR ? (r > 0.5L || (r == 0.5L && fmodl(f, 2) == 1)) : mode == M_DOWN ? (ng && r > 0) : mode == M_UP ? (!ng && r > 0) : false;
  if (up) f += 1;
  long double v = ldexpl(f, q), mx = ldexpl(ldexpl(1, P) - 1, QMAX);
  if (v > mx) { bool inf = mode == M_NEAR || (mode == M_DOWN && ng) || (mode == M_UP && !ng); v = inf ? INFINITY : mx; }
  return ng ? -(double)v : (double)v;
}

template<int P, int QMIN, int QMAX> struct Mini {
  double v;
  static double rnd(long double x) { return mini_round<P, QMIN, QMAX>(x, MiniEnv::mode); }
  Mini() : v(0) {}
  template<class U, class = typename std::enable_if<std::is_arithmetic<U>::value>::type> Mini(U u) : v(rnd((long double)u)) {}
  static Mini raw(double d) { Mini m; m.v = d; return m; }
  static Mini op(long double x) { MiniEnv::tick(); return raw(rnd(x)); }
  friend Mini operator+(Mini a, Mini b) { return op((long double)a.v + b.v); }
  friend Mini operator-(Mini a, Mini b) { return op((long double)a.v - b.v); }
  friend Mini operator*(Mini a, Mini b) { return op((long double)a.v * b.v); }
  friend Mini operator/(Mini a, Mini b) { return op((long double)a.v / b.v); }
  Mini operator-() const { return raw(-v); }
  Mini operator+() const { return *this; }
  Mini& operator+=(Mini b) { return *this = *this + b; }
  Mini& operator-=(Mini b) { return *this = *this - b; }
  Mini& operator*=(Mini b) { return *this = *this * b; }
  Mini& operator/=(Mini b) { return *this = *this / b; }
  friend bool operator<(Mini a, Mini b) { return a.v < b.v; }
  friend bool operator<=(Mini a, Mini b) { return a.v <= b.v; }
  friend bool operator>(Mini a, Mini b) { return a.v > b.v; }
  friend bool operator>=(Mini a, Mini b) { return a.v >= b.v; }
  friend bool operator==(Mini a, Mini b) { return a.v == b.v; }
  friend bool operator!=(Mini a, Mini b) { return a.v != b.v; }
  friend Mini floor(Mini a) { return raw(std::floor(a.v)); }
  friend Mini ceil(Mini a) { return raw(std::ceil(a.v)); }
  friend Mini trunc(Mini a) { return raw(std::trunc(a.v)); }
  friend Mini abs(Mini a) { return raw(std::fabs(a.v)); }
  friend Mini fabs(Mini a) { return raw(std::fabs(a.v)); }
  friend bool isnan(Mini a) { return a.v != a.v; }
  friend bool isinf(Mini a) { return std::isinf(a.v); }
  friend bool isfinite(Mini a) { return std::isfinite(a.v); }
  friend bool signbit(Mini a) { return std::signbit(a.v); }
  // elementary functions, rounded in the current mode
#define MINI_FN(f) friend Mini f(Mini a) { return op(f##l((long double)a.v)); }
  MINI_FN(sqrt) MINI_FN(exp) MINI_FN(log) MINI_FN(sin) MINI_FN(cos) MINI_FN(tan) MINI_FN(asin) MINI_FN(acos) MINI_FN(atan)
  MINI_FN(sinh) MINI_FN(cosh) MINI_FN(asinh) MINI_FN(acosh) MINI_FN(atanh)
  friend Mini tanh(Mini a) { long double t = tanhl((long double)a.v); return op(t == 1 && a.v - a.v == 0 ? nextafterl(1, 0) : t == -1 && a.v - a.v == 0 ? nextafterl(-1, 0) : t); }
#undef MINI_FN
  template<class Ch, class Tr> friend std::basic_ostream<Ch, Tr>& operator<<(std::basic_ostream<Ch, Tr>& s, Mini a) { return s << a.v; }
};

namespace std {
template<int P, int QMIN, int QMAX> struct numeric_limits< Mini<P, QMIN, QMAX> > {
  typedef Mini<P, QMIN, QMAX> T;
  static const bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false, has_infinity = true,
    has_quiet_NaN = true, has_signaling_NaN = false, is_iec559 = false, is_bounded = true, is_modulo = false, traps = false, tinyness_before = false, has_denorm_loss = false;
  static const int digits = P, digits10 = 0, radix = 2;
  static const float_round_style round_style = round_to_nearest;
  static const float_denorm_style has_denorm = denorm_present;
  static T infinity() { return T::raw(INFINITY); }
  static T quiet_NaN() { return T::raw(NAN); }
  static T max() { return T::raw(ldexp(ldexp(1, P) - 1, QMAX)); }
  static T lowest() { return T::raw(-ldexp(ldexp(1, P) - 1, QMAX)); }
  static T min() { return T::raw(ldexp(1, QMIN + P - 1)); }
  static T denorm_min() { return T::raw(ldexp(1, QMIN)); }
  static T epsilon() { return T::raw(ldexp(1, 1 - P)); }
};
}

namespace boost { namespace numeric { namespace interval_lib {
template<int P, int QMIN, int QMAX> struct rounding_control< Mini<P, QMIN, QMAX> > {
  typedef int rounding_mode;
  static void get_rounding_mode(int& m) { m = MiniEnv::mode; }
  static void set_rounding_mode(int m) { MiniEnv::mode = m; }
  static void upward() { MiniEnv::mode = M_UP; }
  static void downward() { MiniEnv::mode = M_DOWN; }
  static void to_nearest() { MiniEnv::mode = M_NEAR; }
  static Mini<P, QMIN, QMAX> to_int(const Mini<P, QMIN, QMAX>& x) {
    MiniEnv::tick();
    double d = x.v; switch (MiniEnv::mode) { case M_UP: d = std::ceil(d); break; case M_DOWN: d = std::floor(d); break; case M_ZERO: d = std::trunc(d); break; default: d = std::nearbyint(d); }
    return Mini<P, QMIN, QMAX>::raw(d); }
  static Mini<P, QMIN, QMAX> force_rounding(const Mini<P, QMIN, QMAX>& x) { return x; }
};
} } }

// --------------------------------------------------------------- rationals
struct Rat {
  long long n, d;
  Rat() : n(0), d(1) {}
  Rat(int v) : n(v), d(1) {}
  Rat(long long a, long long b) : n(a), d(b) { norm(); }
  void norm() { if (d == 0) abort(); if (d < 0) { n = -n; d = -d; } long long g = std::gcd(n, d); if (g > 1) { n /= g; d /= g; } }
  friend Rat operator+(Rat a, Rat b) { MiniEnv::tick(); return Rat(a.n * b.d + b.n * a.d, a.d * b.d); }
  friend Rat operator-(Rat a, Rat b) { MiniEnv::tick(); return Rat(a.n * b.d - b.n * a.d, a.d * b.d); }
  friend Rat operator*(Rat a, Rat b) { MiniEnv::tick(); return Rat(a.n * b.n, a.d * b.d); }
  friend Rat operator/(Rat a, Rat b) { MiniEnv::tick(); return Rat(a.n * b.d, a.d * b.n); }
  Rat operator-() const { return Rat(-n, d); }
  Rat& operator+=(Rat b) { return *this = *this + b; }
  Rat& operator-=(Rat b) { return *this = *this - b; }
  Rat& operator*=(Rat b) { return *this = *this * b; }
  Rat& operator/=(Rat b) { return *this = *this / b; }
  friend bool operator<(Rat a, Rat b) { return a.n * b.d < b.n * a.d; }
  friend bool operator<=(Rat a, Rat b) { return a.n * b.d <= b.n * a.d; }
  friend bool operator>(Rat a, Rat b) { return b < a; }
  friend bool operator>=(Rat a, Rat b) { return b <= a; }
  friend bool operator==(Rat a, Rat b) { return a.n == b.n && a.d == b.d; }
  friend bool operator!=(Rat a, Rat b) { return !(a == b); }
};
#endif
