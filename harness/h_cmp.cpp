// C09 default comparisons   C10 certain, possible, tribool, explicit functions   C11 lexicographic, set
#define VERIF_MAIN
#include "common.hpp"
#include <climits>
#include <boost/numeric/interval/compare.hpp>
#include <boost/numeric/interval/compare/tribool.hpp>
#include <boost/numeric/interval/compare/explicit.hpp>
using namespace boost::numeric;
static const char* REL[] = {"lt", "le", "gt", "ge", "eq", "ne"};
#define BODY switch (r) { case 0: return show(a < b); case 1: return show(a <= b); case 2: return show(a > b); case 3: return show(a >= b); case 4: return show(a == b); default: return show(a != b); }
struct Def { static const char* s() { return "def"; } template<class A, class B> static std::string f(int r, const A& a, const B& b) { BODY } };
#define FAM(N, ns) struct N { static const char* s() { return #N; } template<class A, class B> static std::string f(int r, const A& a, const B& b) { using namespace il::compare::ns; BODY } };
FAM(cer, certain) FAM(pos, possible) FAM(tri, tribool) FAM(lex, lexicographic) FAM(set, set)
#define XB(p) switch (r) { case 0: return show(il::p##lt(a, b)); case 1: return show(il::p##le(a, b)); case 2: return show(il::p##gt(a, b)); case 3: return show(il::p##ge(a, b)); case 4: return show(il::p##eq(a, b)); default: return show(il::p##ne(a, b)); }
struct xcer { static const char* s() { return "xcer"; } template<class A, class B> static std::string f(int r, const A& a, const B& b) { XB(cer) } };
struct xpos { static const char* s() { return "xpos"; } template<class A, class B> static std::string f(int r, const A& a, const B& b) { XB(pos) } };
template<class C> struct Other { typedef typename C::T T; typedef bn::interval<T, il::policies<typename C::I::traits_type::rounding, il::checking_base<T> > > I; };
// operands of two policies: each may be empty only where its own policy admits it
template<class F, class C, class D, class T> void cross1(int r, const Arg<T>& x, const Arg<T>& y) {
  if ((x.k == 0 && !C::admits) || (y.k == 0 && !D::admits)) return;
  Group g; Arg<T> none[1]; auto f = [&](auto) { return F::f(r, mk<typename C::I>(x), mk<typename D::I>(y)); };
  run1(C(), g, "cmp.xp", x.str() + "," + y.str() + "," + F::s() + "," + REL[r], none, 0, f); }
template<class F, class C, class T, class... D> void cross2(L<D...>, int r, const Arg<T>& x, const Arg<T>& y) { int d[] = {(cross1<F, C, D>(r, x, y), 0)...}; (void)d; }
template<class F, class T, class... C> void cross(L<C...> cs, const Arg<T>& x, const Arg<T>& y) { if (F::s()[0] == 'x' && (x.k == 0 || y.k == 0)) return; if (x.k != 1 && y.k != 1) for (int r = 0; r < 6; r++) { int d[] = {(cross2<F, C>(cs, r, x, y), 0)...}; (void)d; } }
template<class F, class T, class CS> void one(CS cs, const Arg<T>& x, const Arg<T>& y, bool xp = true) {
  bool ex = F::s()[0] == 'x';
  if (ex && (x.k == 0 || y.k == 0 || x.isnan() || y.isnan())) return;
  for (int r = 0; r < 6; r++) { std::string e = std::string(",") + F::s() + "," + REL[r];
    if (x.k != 1 && y.k != 1) { ALIAS(same(x, y)) run_all(cs, "cmp.ii", e, {x, y}, [&](auto c) { typedef IT(c) I; I X = mk<I>(x), Y = mk<I>(y); return F::f(r, X, al ? X : Y); });
      if constexpr (!std::is_same<F, set>::value && !std::is_same<F, Def>::value) if (xp) run_all(cs, "cmp.xp", e, {x, y}, [&](auto c) { typedef IT(c) I; typedef typename Other<decltype(c)>::I J; return F::f(r, mk<I>(x), mk<J>(y)); }); }
    if (x.k != 1 && y.k == 1) ALIAS(x.k == 2 && (y.lo == x.lo || y.lo == x.hi)) run_all(cs, "cmp.in", e, {x, y}, [&](auto c) { typedef IT(c) I; I X = mk<I>(x); return F::f(r, X, al ? BOUND(X, y.lo) : y.lo); });
    if constexpr (std::is_same<F, xcer>::value || std::is_same<F, xpos>::value) if (x.k == 1 && y.k == 2) run_all(cs, "cmp.ni", e, {x, y}, [&](auto c) { typedef IT(c) I; return F::f(r, x.lo, mk<I>(y)); });
  } }
template<class T, class CS> void all(CS cs, const Arg<T>& x, const Arg<T>& y, bool xp = true) {
  if (g_prop == "C09") one<Def, T>(cs, x, y);
  if (g_prop == "C10") { one<cer, T>(cs, x, y, xp); one<pos, T>(cs, x, y, xp); one<tri, T>(cs, x, y, xp); one<xcer, T>(cs, x, y, xp); one<xpos, T>(cs, x, y, xp); }
  if (g_prop == "C11") { one<lex, T>(cs, x, y, xp); one<set, T>(cs, x, y, xp); } }
template<class T, class CS> void allx(CS cs, const Arg<T>& x, const Arg<T>& y) {
  if (g_prop == "C09") cross<Def>(cs, x, y);
  if (g_prop == "C10") { cross<cer>(cs, x, y); cross<pos>(cs, x, y); cross<tri>(cs, x, y); cross<xcer>(cs, x, y); cross<xpos>(cs, x, y); }
  if (g_prop == "C11") cross<lex>(cs, x, y); }
template<class T> void orders(const std::vector<T>& vs, bool inf) { // every order pattern of four bounds around zero and the infinities
  std::vector<Arg<T> > p; typedef std::numeric_limits<T> nl; for (size_t i = 0; i < vs.size(); i++) { p.push_back(Arg<T>::N(vs[i])); for (size_t j = i; j < vs.size(); j++) { if (inf && i == j && (i == 0 || i + 1 == vs.size())) continue; p.push_back(Arg<T>::V(vs[i], vs[j])); } }
  p.push_back(Arg<T>::E()); p.push_back(Arg<T>::N(nl::quiet_NaN()));
  for (auto& x : p) for (auto& y : p) all<T>(CheckCfgs<T>(), x, y); }
template<class T> T step(Rng& r, T a) { return r.one(2) ? a : std::nextafter(a, r.one(2) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity()); }
template<class T> void sample(int n) { Rng r(g_seed * 13 + sizeof(T)); typedef L<CfgDefault<T>, COpp<T, ChkBase<T> > > CS;
  for (int i = 0; i < n; i++) { Arg<T> x = hw_iv<T>(r), y = hw_iv<T>(r);
    switch (r.below(6)) { case 0: y.lo = step(r, x.hi); break; case 1: y.hi = step(r, x.lo); break; case 2: y = x; if (r.one(2)) y.hi = step(r, y.hi); if (r.one(2)) y.lo = step(r, y.lo); break; case 3: y.lo = y.hi = step(r, r.one(2) ? x.lo : x.hi); if (r.one(2)) { x.hi = x.lo; } break; default:; }
    if (y.hi < y.lo) std::swap(y.lo, y.hi); if (y.lo == y.hi && !(y.lo - y.lo == T(0))) continue; if (x.lo == x.hi && !(x.lo - x.lo == T(0))) continue;
    all<T>(CS(), x, y, false); if (y.lo == y.hi || r.one(3)) all<T>(CS(), x, Arg<T>::N(y.lo), false); if (r.one(3)) all<T>(CS(), Arg<T>::N(x.lo), y, false); } }
template<class T> void ints(const std::vector<T>& w) { std::vector<Arg<T> > p; for (size_t i = 0; i < w.size(); i++) { p.push_back(Arg<T>::N(w[i])); for (size_t j = i; j < w.size(); j++) p.push_back(Arg<T>::V(w[i], w[j])); } p.push_back(Arg<T>::E());
  for (auto& x : p) for (auto& y : p) all<T>(L<CExact<T, ChkBase<T> >, CExact<T, ChkSt<T> > >(), x, y); }
int prop_main() {
  double inf = INFINITY; std::vector<M2> v; for (double d : {-inf, -3.0, -1.0, 0.0, 0.5, 2.0, inf}) v.push_back(M2::raw(d));
  SOFT(orders<M2>(v, true);) orders<double>({-inf, -1e300, -1.5, 0.0, 5e-324, 7.0, inf}, true);
  SOFT({ auto p = MiniPool<M2>::get(); for (auto& x : p.ivs) { for (auto& y : p.ivs) if (g_prop != "C10" || g_thorough) all<M2>(L<COpp<M2, ChkBase<M2> > >(), x, y, false); } })
  int n = g_thorough ? 20000 : 1500; sample<float>(n); sample<double>(n); sample<long double>(n);
  SOFT({ std::vector<int> w = {INT_MIN, -4, -1, 0, 2, 3, INT_MAX}; std::vector<Arg<int> > p; for (size_t i = 0; i < w.size(); i++) { p.push_back(Arg<int>::N(w[i])); for (size_t j = i; j < w.size(); j++) p.push_back(Arg<int>::V(w[i], w[j])); } for (auto& x : p) for (auto& y : p) all<int>(L<CExact<int, ChkBase<int> >, CExact<int, ChkSt<int> > >(), x, y);
    p.push_back(Arg<int>::E()); for (auto& x : p) for (auto& y : p) { all<int>(L<CExact<int, ChkBase<int> > >(), x, y); allx<int>(L<CExact<int, ChkBase<int> >, CExact<int, ChkSt<int> >, CExact<int, ChkNe<int> >, CExact<int, ChkNn<int> > >(), x, y); } })
  SOFT(ints<unsigned>({0u, 1u, 5u, UINT_MAX / 2 + 1, UINT_MAX}); ints<short>({-32767 - 1, -2, 0, 3, 32767});)
  SOFT({ std::vector<Arg<M2> > p; std::vector<M2> u; for (double d : {-2.0, 0.0, 0.5, 1.0}) u.push_back(M2::raw(d)); for (size_t i = 0; i < u.size(); i++) for (size_t j = i; j < u.size(); j++) p.push_back(Arg<M2>::V(u[i], u[j])); p.push_back(Arg<M2>::E());
    for (auto& x : p) for (auto& y : p) allx<M2>(L<COpp<M2, ChkBase<M2> >, CStd<M2, ChkSt<M2> >, COpp<M2, ChkCne<M2> >, COpp<M2, ChkCn<M2> > >(), x, y); })
  return 0; }
