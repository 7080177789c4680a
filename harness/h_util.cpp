// C06 abs norm min max   C07 set predicates and operations   C08 width median bisect widen
#define VERIF_MAIN
#include "common.hpp"
#include <climits>
using namespace boost::numeric;
#define U1(name) run_all(cs, #name ".i", "", {x}, [&](auto c) { typedef IT(c) I; return show(name(mk<I>(x))); });
#define U2(name) ALIAS(same(x, y)) run_all(cs, #name ".ii", "", {x, y}, [&](auto c) { typedef IT(c) I; I X = mk<I>(x), Y = mk<I>(y); return show(name(X, al ? X : Y)); });
#define UN(name) if (sy) ALIAS(x.k == 2 && (y.lo == x.lo || y.lo == x.hi)) run_all(cs, #name ".in", "", {x, A::N(y.lo)}, [&](auto c) { typedef IT(c) I; I X = mk<I>(x); return show(name(X, al ? BOUND(X, y.lo) : y.lo)); });
#define NU(name) if (sx) ALIAS(y.k == 2 && (x.lo == y.lo || x.lo == y.hi)) run_all(cs, #name ".ni", "", {A::N(x.lo), y}, [&](auto c) { typedef IT(c) I; I Y = mk<I>(y); return show(name(al ? BOUND(Y, x.lo) : x.lo, Y)); });
// the same interval under another checking policy: some predicates take two policies
template<class C> struct Other { typedef typename C::T T; typedef bn::interval<T, il::policies<typename C::I::traits_type::rounding, il::checking_base<T> > > I; };
template<class T, class CS> void unary(CS cs, const Arg<T>& x) {
  if (g_prop == "C06" && x.k == 2) { U1(abs) U1(norm) }
  if (g_prop == "C07") { U1(zero_in) U1(empty) U1(singleton) run_all(cs, "zero_in.old", "", {x}, [&](auto c) { typedef IT(c) I; return show(in_zero(mk<I>(x))); }); }
  if (g_prop == "C08") { U1(width) if (x.k == 2 || std::numeric_limits<T>::has_quiet_NaN) U1(median) U1(bisect) }
}
template<class T, class CS> void binary(CS cs, const Arg<T>& x, const Arg<T>& y) {
  typedef Arg<T> A; bool sx = x.k == 2 && x.lo == x.hi, sy = y.k == 2 && y.lo == y.hi;
  BOOST_USING_STD_MIN(); BOOST_USING_STD_MAX();
  if (g_prop == "C06" && x.k == 2 && y.k == 2) { U2(min) U2(max) UN(min) UN(max) NU(min) NU(max) }
  if (g_prop == "C07") { U2(subset) U2(proper_subset) U2(overlap) U2(equal) U2(intersect) U2(hull) UN(hull) NU(hull) NU(in)
    run_all(cs, "proper_subset.xp", "", {x, y}, [&](auto c) { typedef IT(c) I; typedef typename Other<decltype(c)>::I J; return show(proper_subset(mk<I>(x), mk<J>(y))); });
    run_all(cs, "equal.xp", "", {x, y}, [&](auto c) { typedef IT(c) I; typedef typename Other<decltype(c)>::I J; return show(equal(mk<I>(x), mk<J>(y))); });
    if (sx && sy) { run_all(cs, "hull.nn", "", {A::N(x.lo), A::N(y.lo)}, [&](auto c) { typedef IT(c) I; return show(I::hull(x.lo, y.lo)); }); } }
  if (g_prop == "C08") { UN(widen) }
}
template<class T> void hulls(const Arg<T>& x, const Arg<T>& y) { typedef Arg<T> A; // free function hull(T, T)
  if (g_prop == "C07" && x.k == 2 && y.k == 2 && x.lo == x.hi && y.lo == y.hi) run_all(L<CfgDefault<T> >(), "hull.nnf", "", {A::N(x.lo), A::N(y.lo)}, [&](auto) { return show(hull(x.lo, y.lo)); }); }
template<class M, class CS> void exhaust(CS cs) { auto p = MiniPool<M>::get(); p.ivs.push_back(Arg<M>::E());
  for (auto& x : p.ivs) { unary<M>(cs, x); for (auto& y : p.ivs) if (g_prop != "C08" || (y.k == 2 && y.lo == y.hi && !(y.lo < M(0)))) binary<M>(cs, x, y); } }
template<class T, class CS> void sample(CS cs, int n) { Rng r(g_seed * 31 + sizeof(T));
  for (int i = 0; i < n; i++) { Arg<T> x = hw_iv<T>(r), y = hw_iv<T>(r); 
    switch (r.below(8)) { case 0: y.lo = x.lo; if (y.hi < y.lo) y.hi = y.lo; break; case 1: y.hi = x.hi; if (y.hi < y.lo) y.lo = y.hi; break; case 2: y = x; break; case 3: y.lo = x.hi; if (y.hi < y.lo) y.hi = y.lo; break; default:; }
    if (g_prop == "C08") { if (r.one(3)) { typedef std::numeric_limits<T> nl; x.hi = nl::max() * T((long)r.below(1001)) / T(1000); x.lo = r.one(2) ? x.hi / T(1 + (long)r.below(3)) : -x.hi; if (r.one(2)) { T t = x.lo; x.lo = -x.hi; x.hi = -t; if (x.hi < x.lo) std::swap(x.lo, x.hi); } }
      if (y.lo < T(0)) y.lo = -y.lo; y.hi = y.lo; if (!(y.lo - y.lo == T(0))) y.lo = y.hi = T(1); }
    if (y.lo == y.hi && !(y.lo - y.lo == T(0))) y = Arg<T>::V(T(0), T(1));
    if (r.one(20)) y = Arg<T>::E(); if (r.one(20)) x = Arg<T>::E();
    unary<T>(cs, x); binary<T>(cs, x, y); hulls<T>(x, y); } }
template<class T, class CS> void exact(CS cs, const std::vector<T>& v) { std::vector<Arg<T> > ivs; for (size_t i = 0; i < v.size(); i++) for (size_t j = i; j < v.size(); j++) ivs.push_back(Arg<T>::V(v[i], v[j]));
  if (g_prop != "C06") ivs.push_back(Arg<T>::E());
  for (auto& x : ivs) { unary<T>(cs, x); for (auto& y : ivs) if (g_prop != "C08" || (y.k == 2 && y.lo == y.hi && !(y.lo < T(0)))) { binary<T>(cs, x, y); hulls<T>(x, y); } } }
template<class T> using Two = L<COpp<T, ChkBase<T> >, CStd<T, ChkSt<T> >, CfgDefault<T> >;
int prop_main() {
  SOFT(if (g_prop == "C08") exhaust<M2>(RoundingCfgs<M2>()); else exhaust<M2>(Two<M2>());
  if (g_thorough) { if (g_prop == "C08") { exhaust<M3>(RoundingCfgs<M3>()); exhaust<M4>(L<COpp<M4, ChkBase<M4> >, CStd<M4, ChkBase<M4> > >()); } }
  else if (g_prop == "C08") exhaust<M3>(L<COpp<M3, ChkBase<M3> >, CStd<M3, ChkBase<M3> > >());)
  int n = g_thorough ? 60000 : 4000;
  sample<float>(HwCfgs<float>(), n); sample<double>(HwCfgs<double>(), n); sample<long double>(HwCfgs<long double>(), n);
  SOFT(typedef L<CExact<int, ChkBase<int> >, CExact<int, ChkCn<int> >, CExact<int, ChkSt<int> >, CfgDefault<int> > ZC;
  exact<int>(ZC(), {-9, -3, -1, 0, 1, 2, 7});
  if (g_prop == "C08") { std::vector<int> v = {INT_MIN, INT_MIN + 1, -2000000000, -1500000000, -7, 0, 4, 1600000000, 2000000000, INT_MAX - 1, INT_MAX}; // the sum of the bounds is an int
    for (size_t i = 0; i < v.size(); i++) for (size_t j = i; j < v.size(); j++) { long s = (long)v[i] + v[j]; if (s < INT_MIN || s > INT_MAX) continue; Arg<int> x = Arg<int>::V(v[i], v[j]); ZC cs; U1(median) U1(bisect) } }
  if (g_prop == "C07") exact<int>(ZC(), {INT_MIN, -2, 0, 1, 5, INT_MAX}); else if (g_prop == "C06") exact<int>(ZC(), {-INT_MAX, -2, 0, 1, 5, INT_MAX});
  if (g_prop == "C07") exact<long>(L<CExact<long, ChkBase<long> > >(), {LONG_MIN, -2, 0, 1L << 40, LONG_MAX});
  if (g_prop != "C08") { exact<unsigned>(L<CExact<unsigned, ChkBase<unsigned> >, CExact<unsigned, ChkSt<unsigned> >, CfgDefault<unsigned> >(), {0u, 1u, 2u, 9u, UINT_MAX / 2 + 1, UINT_MAX - 1, UINT_MAX}); exact<short>(L<CExact<short, ChkBase<short> >, CfgDefault<short> >(), {-SHRT_MAX, -3, 0, 1, 40, SHRT_MAX}); }
  exact<Rat>(L<CExact<Rat, ChkBase<Rat> > >(), {Rat(-7, 2), Rat(-1, 3), Rat(0), Rat(1, 2), Rat(4)});)
  return 0;
}
