// C13 empty intervals and not-a-number operands, results that would be empty
#define VERIF_MAIN
#include "common.hpp"
using namespace boost::numeric;
template<class T, class C> using CT = Cfg<T, typename Pol<T>::TOpp, C, TagOpp>;
template<class T, class C> using CTS = Cfg<T, typename Pol<T>::TStd, C, TagStd>;
template<class T> using All = L<CT<T, ChkBase<T> >, CT<T, ChkNe<T> >, CT<T, ChkNn<T> >, CT<T, ChkCn<T> >, CT<T, ChkSt<T> >, CT<T, ChkCne<T> >, CTS<T, ChkBase<T> >, CT<T, ChkCneU<T> >, CT<T, ChkNec<T> > >;
#define U(op_, form, expr) run_all(cs, op_ "." form, "", {x}, [&](auto c) { typedef IT(c) I; I X = mk<I>(x); return show(expr); });
#define UX(op_, form, extra, expr) run_all(cs, op_ "." form, extra, {x}, [&](auto c) { typedef IT(c) I; I X = mk<I>(x); return show(expr); });
#define II(op_, form, expr) run_all(cs, op_ "." form, "", {x, y}, [&](auto c) { typedef IT(c) I; I X = mk<I>(x), Y = mk<I>(y); return show(expr); });
#define IN(op_, form, expr) run_all(cs, op_ "." form, "", {x, y}, [&](auto c) { typedef IT(c) I; I X = mk<I>(x); T Y = y.lo; return show(expr); });
#define NI(op_, form, expr) run_all(cs, op_ "." form, "", {x, y}, [&](auto c) { typedef IT(c) I; T X = x.lo; I Y = mk<I>(y); return show(expr); });
#define NN(op_, form, expr) run_all(cs, op_ "." form, "", {x, y}, [&](auto c) { typedef IT(c) I; T X = x.lo, Y = y.lo; return show(expr); });
template<class T, class CS> void unary(CS cs, const Arg<T>& x) {
  BOOST_USING_STD_MIN(); BOOST_USING_STD_MAX();
  U("neg", "i", -X) U("pos", "i", +X) U("abs", "i", abs(X)) U("square", "i", square(X)) U("sqrt", "i", sqrt(X)) U("inv", "i", il::multiplicative_inverse(X))
  for (int n : {-3, -2, -1, 0, 1, 2, 3}) UX("pow", "i", ",#" + std::to_string(n), pow(X, n))
  for (int n : {1, 2, 3}) UX("root", "i", ",#" + std::to_string(n), nth_root(X, n))
  if (x.k == 0) { U("exp", "i", exp(X)) U("sinh", "i", sinh(X)) U("cosh", "i", cosh(X)) U("tanh", "i", tanh(X)) U("atan", "i", atan(X)) U("asinh", "i", asinh(X)) U("sin", "i", sin(X)) U("cos", "i", cos(X)) U("tan", "i", tan(X)) 
    U("norm", "i", norm(X)) U("width", "i", width(X)) U("median", "i", median(X)) U("bisect", "i", bisect(X)) }
  if (x.k == 0 || x.hi <= T(0)) U("log", "i", log(X))
  if (x.k == 0 || x.hi < T(-1) || x.lo > T(1)) { U("asin", "i", asin(X)) U("acos", "i", acos(X)) U("atanh", "i", atanh(X)) }
  if (x.k == 0 || x.hi < T(1)) U("acosh", "i", acosh(X))
  U("zero_in", "i", zero_in(X)) U("empty", "i", empty(X)) U("singleton", "i", singleton(X))
}
template<class T, class CS> void binary(CS cs, const Arg<T>& x, const Arg<T>& y) { // at least one operand bad, or the result may be empty
  BOOST_USING_STD_MIN(); BOOST_USING_STD_MAX(); bool bad = x.k == 0 || y.k == 0 || x.isnan() || y.isnan();
  if (x.k != 1 && y.k != 1) { if (bad) { II("add", "ii", X + Y) II("sub", "ii", X - Y) II("mul", "ii", X * Y) II("min", "ii", min(X, Y)) II("max", "ii", max(X, Y)) II("fmod", "ii", fmod(X, Y))
      II("add", "cii", X += Y) II("sub", "cii", X -= Y) II("mul", "cii", X *= Y) II("hull", "ii", hull(X, Y)) II("subset", "ii", subset(X, Y)) II("proper_subset", "ii", proper_subset(X, Y)) II("overlap", "ii", overlap(X, Y)) II("equal", "ii", equal(X, Y)) }
    II("div", "ii", X / Y) II("div", "cii", X /= Y) II("intersect", "ii", intersect(X, Y)) 
    if (bad) { II("dpart2", "ii", il::division_part2(X, Y)) II("dpart2f", "ii", il::division_part2(X, Y, false)) }
    if (bad) run_all(cs, "dparts.ii", "", {x, y}, [&](auto c) { typedef IT(c) I; bool b = true; I p = il::division_part1(mk<I>(x), mk<I>(y), b); return std::string("D,") + (b ? "T," : "F,") + ivt(p); }); }
  if (x.k != 1 && y.k == 1) { if (bad) { IN("add", "in", X + Y) IN("sub", "in", X - Y) IN("mul", "in", X * Y) IN("min", "in", min(X, Y)) IN("max", "in", max(X, Y)) IN("fmod", "in", fmod(X, Y)) IN("hull", "in", hull(X, Y)) IN("widen", "in", widen(X, Y))
      IN("add", "cin", X += Y) IN("sub", "cin", X -= Y) IN("mul", "cin", X *= Y) }
    IN("div", "in", X / Y) IN("div", "cin", X /= Y) }
  if (x.k == 1 && y.k != 1) { if (bad) { NI("add", "ni", X + Y) NI("sub", "ni", X - Y) NI("mul", "ni", X * Y) NI("min", "ni", min(X, Y)) NI("max", "ni", max(X, Y)) NI("fmod", "ni", fmod(X, Y)) NI("hull", "ni", hull(X, Y)) NI("in", "ni", in(X, Y)) }
    NI("div", "ni", X / Y) }
  if (x.k == 1 && y.k == 1) { if (bad) { NN("add", "nn", il::add<I>(X, Y)) NN("sub", "nn", il::sub<I>(X, Y)) NN("mul", "nn", il::mul<I>(X, Y)) NN("hull", "nn", I::hull(X, Y)) } NN("div", "nn", il::div<I>(X, Y)) }
}
template<class T> void all(const std::vector<Arg<T> >& p) { All<T> cs; for (auto& x : p) { if (x.k != 1) unary<T>(cs, x); for (auto& y : p) binary<T>(cs, x, y); } }
template<class T> std::vector<Arg<T> > pool(const std::vector<double>& v, int extra) { typedef Arg<T> A; typedef std::numeric_limits<T> nl; std::vector<A> p; p.push_back(A::E()); p.push_back(A::N(nl::quiet_NaN())); T inf = nl::infinity();
  std::vector<T> w; for (double d : v) w.push_back(T(d));
  for (size_t i = 0; i < w.size(); i++) { p.push_back(A::N(w[i])); for (size_t j = i; j < w.size(); j++) p.push_back(A::V(w[i], w[j])); p.push_back(A::V(-inf, w[i])); p.push_back(A::V(w[i], inf)); } p.push_back(A::V(-inf, inf));
  Rng r(g_seed); if constexpr (std::is_floating_point<T>::value) for (int i = 0; i < extra; i++) { p.push_back(hw_iv<T>(r)); p.push_back(A::N(hw_num<T>(r))); }
  return p; }
int prop_main() { int n = g_thorough ? 60 : 6;
  SOFT(all(pool<M2>({-6, -1.5, -1, 0, 0.5, 1, 2}, 0));) all(pool<double>({-1e300, -2, -1, 0, 1e-310, 1, 3}, n)); all(pool<float>({-1e30, -2, -1, 0, 1e-40, 1}, n));
  all(pool<long double>({-2, -1, 0, 1, 3}, n)); return 0; }
