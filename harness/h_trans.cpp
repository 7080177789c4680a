// C18 exp, log, inverse trigonometric and hyperbolic functions; C19 sin, cos, tan
#define VERIF_MAIN
#include "mini.hpp"
namespace boost { namespace numeric { namespace interval_lib { namespace constants { // as a user specialises them for a base type
typedef Mini<8, -10, 4> M8_;
template<> inline M8_ pi_lower<M8_>() { return M8_::raw(3.140625); } template<> inline M8_ pi_upper<M8_>() { return M8_::raw(3.15625); }
template<> inline M8_ pi_half_lower<M8_>() { return M8_::raw(1.5703125); } template<> inline M8_ pi_half_upper<M8_>() { return M8_::raw(1.578125); }
template<> inline M8_ pi_twice_lower<M8_>() { return M8_::raw(6.28125); } template<> inline M8_ pi_twice_upper<M8_>() { return M8_::raw(6.3125); }
} } } }
#include "common.hpp"
using namespace boost::numeric;
template<class T, class C> using CT = Cfg<T, typename Pol<T>::TOpp, C, TagOpp>;
template<class T, class C> using CS = Cfg<T, typename Pol<T>::TStd, C, TagStd>;
template<class T, class C> using CTU = Cfg<T, typename Pol<T>::TOpp::unprotected_rounding, C, TagOppU, typename Pol<T>::TOpp>;
template<class T, class C> using CSU = Cfg<T, typename Pol<T>::TStd::unprotected_rounding, C, TagStdU, typename Pol<T>::TStd>;
template<class T> using All = L<CS<T, ChkBase<T> >, CT<T, ChkBase<T> >, CSU<T, ChkBase<T> >, CTU<T, ChkBase<T> >, CT<T, ChkSt<T> >, CS<T, ChkNe<T> > >;
#define U(fn) run_all(cs, #fn ".i", "", {x}, [&](auto c) { typedef IT(c) I; return show(fn(mk<I>(x))); });
template<class T, class Q> void one(Q cs, const Arg<T>& x) {
  if (g_prop == "C18") { U(exp) U(log) U(asin) U(acos) U(atan) U(sinh) U(cosh) U(tanh) U(asinh) U(acosh) U(atanh) }
  else { U(sin) U(cos) U(tan) } }
template<class T> Arg<T> near(T l, T u) { return l <= u ? Arg<T>::V(l, u) : Arg<T>::V(u, l); }
template<class T> void hw(Rng& r, int n) { typedef std::numeric_limits<T> nl; T inf = nl::infinity(); All<T> cs;
  const T hp = std::acos(T(0));
  for (int i = 0; i < n; i++) { T a, w; Arg<T> x = Arg<T>::E();
    switch (r.below(g_prop == "C18" ? 8 : 10)) {
      case 0: x = hw_iv<T>(r); break;
      case 1: a = std::ldexp(T((long)(r.u() >> 40)) , -22) - 2; w = std::ldexp(T(1 + (long)(r.u() >> 40)), -24 - (int)r.below(30)); x = near<T>(a, a + w); break;
      case 2: a = T((long)r.below(4001) - 2000) / 16; w = T(r.below(65)) / 16; x = near<T>(a, a + w); break;
      case 3: { static const T e[] = {-1, 0, 1}; a = e[r.below(3)]; x = near<T>(r.one(2) ? a : std::nextafter(a, r.one(2) ? inf : -inf), r.one(2) ? a : a + std::ldexp(T(1), -(int)r.below(40))); break; }
      case 4: a = hw_num<T>(r); x = r.one(2) ? Arg<T>::V(a, inf) : Arg<T>::V(-inf, a); break;
      case 5: a = std::ldexp(T(r.u() >> 12), -52); x = near<T>(a * 2 - 1, std::ldexp(T(r.u() >> 12), -51) - 1); break; // inside [-1,1]
      case 6: a = hw_num<T>(r); x = near<T>(a, std::nextafter(a, r.one(2) ? inf : -inf)); if (!(x.lo - x.lo == 0) || !(x.hi - x.hi == 0)) continue; break;
      case 7: a = hw_num<T>(r); x = Arg<T>::V(a, a); break;
      default: { long k = (long)r.below(r.one(3) ? 2001 : 41) - (r.one(2) ? 20 : 0); a = T(k) * hp; if (r.one(2)) a = -a; w = std::ldexp(T(1), -(int)r.below(30)); // around multiples of pi/2
        switch (r.below(4)) { case 0: x = near<T>(a, a + w); break; case 1: x = near<T>(a - w, a); break; case 2: x = near<T>(a - w, a + w); break; default: x = near<T>(a + w, a + w + w / 4); } } }
    if (g_prop == "C19" && sizeof(T) > 8 && x.k == 2 && ((x.lo - x.lo == 0 && std::fabs(x.lo) > 1e300L) || (x.hi - x.hi == 0 && std::fabs(x.hi) > 1e300L))) continue; // pi to 16000 bits is slow
    one<T>(cs, x); } }
int prop_main() {
  SOFT({ std::vector<Arg<M4> > p; all_intervals(mini_values<4, -3, 2>(true), p); Rng r(g_seed); All<M4> cs; unsigned keep = g_prop == "C19" ? (g_thorough ? 1 : 2) : (g_thorough ? 1 : 3); for (auto& x : p) if (r.below(keep) == 0) one<M4>(cs, x); }
  { auto v = mini_values<8, -10, 4>(true); Rng r(g_seed + 1); All<M8> cs; int n = g_thorough ? 20000 : 2500;
    for (int i = 0; i < n; i++) { size_t a = r.below(v.size()), b = r.one(2) ? std::min(a + r.below(40), v.size() - 1) : r.below(v.size());
      if (r.one(2)) { a = v.size() / 2 + r.below(900) - 450; b = a + r.below(200); } if (b < a) std::swap(a, b); M8 inf = std::numeric_limits<M8>::infinity();
      if (a == b && (v[a] == inf || v[a] == -inf)) continue; one<M8>(cs, Arg<M8>::V(v[a], v[b])); } })
  Rng r(g_seed + 2); int n = g_thorough ? 12000 : 1500; hw<double>(r, n); hw<float>(r, n); hw<long double>(r, n / 2);
  return 0; }
