// C23: the same operation on operands and on larger operands
#define VERIF_MAIN
#include "common.hpp"
using namespace boost::numeric;
#include "calls.hpp"
static std::set<std::string> seen;
template<class C> struct Iso { typedef typename C::I I; typedef typename C::T T; typedef Arg<T> A; typedef std::string (*F)(const I& X, const I& Y, const T& y, int n); struct E { const char* nm; int ar; F f; };
  static const std::vector<E>& get() { BOOST_USING_STD_MIN(); BOOST_USING_STD_MAX();
#define VV(nm, ar, ex) {nm, ar, [](const I& X, const I& Y, const T& y, int n) -> std::string { BOOST_USING_STD_MIN(); BOOST_USING_STD_MAX(); return show(ex); }},
#define AR(nm, op) VV(nm ".ii", 2, X op Y) VV(nm ".in", 3, X op y) VV(nm ".ni", 3, y op X)
    static const std::vector<E> t = { AR("add", +) AR("sub", -) AR("mul", *) AR("div", /) VV("neg.i", 1, -X) VV("square.i", 1, square(X)) VV("sqrt.i", 1, sqrt(X)) VV("abs.i", 1, abs(X)) VV("inv.i", 1, il::multiplicative_inverse(X)) VV("pow.iz", 1, pow(X, n))
      VV("min.ii", 2, min(X, Y)) VV("max.ii", 2, max(X, Y)) VV("min.in", 3, min(X, y)) VV("max.in", 3, max(X, y)) VV("hull.ii", 2, hull(X, Y)) VV("hull.in", 3, hull(X, y)) VV("intersect.ii", 2, intersect(X, Y)) };
    return t; }
  static const std::vector<E>& fns() { static const std::vector<E> t = { VV("exp.i", 1, exp(X)) VV("log.i", 1, log(X)) }; return t; }
  // one interval argument: a number where the operand form asks for one
  static std::string call(const E& e, const A& x, const A& y, int n) { calm(); std::string o = capture([&]() -> std::string { typename C::guard g; (void)&g; return e.f(mk<I>(x), e.ar == 2 ? mk<I>(y) : I(T(0)), y.k == 1 ? y.lo : T(0), n); }); calm(); return nest(o); }
  static void two(const E& e, const A& x, const A& y, const A& x2, const A& y2, int n) {
    std::string in = x.str(); if (e.ar > 1) in += "," + y.str(); in += "," + x2.str(); if (e.ar > 1) in += "," + y2.str(); if (std::string(e.nm) == "pow.iz") in += ",#" + std::to_string(n);
    std::string o = call(e, x, y, n) + "," + call(e, x2, y2, n), key = std::string(e.nm) + FmtName<T>::s() + in + o;
    if (seen.insert(key).second) sink.rec(e.nm, FmtName<T>::s(), C::chk(), C::tag(), in, o); } };
// immediate enlargements: one step of the format at one end (their chains are all the enlargements)
template<class M> std::vector<Arg<M> > steps(const std::vector<M>& v, const Arg<M>& a) { std::vector<Arg<M> > r; size_t i = 0, j = 0; while (!(v[i] == a.lo)) ++i; while (!(v[j] == a.hi)) ++j; if (i > 0) r.push_back(Arg<M>::V(v[i - 1], a.hi)); if (j + 1 < v.size()) r.push_back(Arg<M>::V(a.lo, v[j + 1])); return r; }
template<class C, int P, int Q1, int Q2> void exhaust(unsigned keep, bool fn) { typedef Iso<C> S; typedef Mini<P, Q1, Q2> M; typedef Arg<M> A; auto v = mini_values<P, Q1, Q2>(true); std::vector<A> iv; all_intervals(v, iv); Rng r(g_seed); A none = A::V(M(0), M(0));
  if (fn) { for (auto& e : S::fns()) for (auto& x : iv) for (auto& x2 : steps(v, x)) S::two(e, x, none, x2, none, 0); }
  for (auto& e : S::get()) if (e.ar == 1) { for (auto& x : iv) for (auto& x2 : steps(v, x)) for (int n = -4; n <= 5; n++) if (n == 2 || std::string(e.nm) == "pow.iz") S::two(e, x, none, x2, none, n); }
    else if (e.ar == 3) { for (auto& x : iv) for (auto& y : v) if (y - y == M(0) && r.below(keep) == 0) for (auto& x2 : steps(v, x)) S::two(e, x, A::N(y), x2, A::N(y), 0); }
    else for (auto& x : iv) for (auto& y : iv) if (r.below(keep) == 0) { for (auto& x2 : steps(v, x)) S::two(e, x, y, x2, y, 0); for (auto& y2 : steps(v, y)) S::two(e, x, y, x, y2, 0); } }
template<class T> Arg<T> larger(Rng& r, const Arg<T>& a, const std::vector<Arg<T> >& p) { T inf = std::numeric_limits<T>::infinity(); if (a.k == 0) { for (;;) { auto& q = p[r.below(p.size())]; if (q.k == 2) return q; } }
  Arg<T> b = Arg<T>::V(a.lo, a.hi); switch (r.below(7)) { case 0: b.hi = inf; break; case 1: b.lo = -inf; break; case 2: { T m = -b.lo < b.hi ? b.hi : -b.lo; b.lo = -m; b.hi = m; break; } case 3: if (b.lo > T(0)) b.lo = T(0); else b.hi = b.hi < T(0) ? T(0) : b.hi; break;
    default: { auto& q = p[r.below(p.size())]; if (q.k != 0 && q.lo == q.lo) { if (q.lo < b.lo && q.lo - q.lo == T(0)) b.lo = q.lo; if (q.hi > b.hi && q.hi - q.hi == T(0)) b.hi = q.hi; } } } return b; }
template<class C, class T> void sample(int n, int extra) { typedef Iso<C> S; typedef Arg<T> A; Rng r(g_seed * 17 + sizeof(T)); auto p = mk_pool<T>(r, extra); std::vector<A> iv, nm; for (auto& a : p) if (a.k == 1) { if (!a.isnan()) nm.push_back(a); } else iv.push_back(a);
  auto all = S::get(); for (auto& e : S::fns()) all.push_back(e);
  for (auto& e : all) for (int i = 0; i < n; i++) { A x = iv[r.below(iv.size())], x2 = larger(r, x, p), y = e.ar == 3 ? nm[r.below(nm.size())] : iv[r.below(iv.size())], y2 = e.ar == 3 ? y : r.one(2) ? larger(r, y, p) : y; if (e.ar == 2 && r.one(3)) x2 = x; if (e.ar == 2 && r.one(6)) { y = x; if (r.one(2)) y2 = x2; else y2 = larger(r, y, p); }
      if (y2.k == 2 && y.k == 0 && false) continue; S::two(e, x, y, x2, y2, (int)r.below(10) - 3); }
  // number inside an interval: X op y against X' op Y'
  for (auto& e : all) if (e.ar == 3 && std::string(e.nm).find(".in") != std::string::npos) { std::string nm2 = std::string(e.nm); nm2 = nm2.substr(0, nm2.find('.')) + ".ii"; const typename S::E* f = 0; for (auto& q : all) if (nm2 == q.nm) f = &q; if (!f) continue;
    for (int i = 0; i < n / 2; i++) { A x = iv[r.below(iv.size())], x2 = r.one(3) ? larger(r, x, p) : x, y = nm[r.below(nm.size())], y2 = larger(r, A::V(y.lo, y.lo), p); std::string in = x.str() + "," + y.str() + "," + x2.str() + "," + y2.str(), o = S::call(e, x, y, 0) + "," + S::call(*f, x2, y2, 0); if (seen.insert(nm2 + FmtName<T>::s() + in + o).second) sink.rec(nm2, FmtName<T>::s(), C::chk(), C::tag(), in, o); } } }
template<class T> using I1 = CT<T, ChkBase<T> >; template<class T> using I2 = CS<T, ChkBase<T> >;
int prop_main() { unsigned k = g_thorough ? 1 : 3;
  SOFT(exhaust<I1<M2>, 2, -1, 1>(k, false); exhaust<I2<M2>, 2, -1, 1>(k, false); exhaust<I1<M4>, 4, -3, 2>(g_thorough ? 300 : 1500, true);) int n = g_thorough ? 2500 : 400;
  SOFT(sample<I1<M4>, M4>(n, 120);) sample<I1<double>, double>(n, 150); sample<I2<double>, double>(n / 2, 100); sample<I1<float>, float>(n, 150); sample<I1<long double>, long double>(n / 2, 100); return 0; }
