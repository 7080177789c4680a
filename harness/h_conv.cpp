// C12 construction, assignment, conversion, accessors
#define VERIF_MAIN
#include "common.hpp"
#include <climits>
using namespace boost::numeric;
// one record per distinct outcome; nan: the value contains a NaN
template<class C, class F> void raw1(Group& g, const char* op, const std::string& in, bool nan, F& f) {
  if (nan && C::nanmode == 1) return;
  std::fesetround(FE_TONEAREST); MiniEnv::mode = M_NEAR; C c;
  std::string out = capture([&]() -> std::string { typename C::guard gd; (void)&gd; return f(c); });
  std::fesetround(FE_TONEAREST); MiniEnv::mode = M_NEAR;
  out = own_exception(out, C::user()); std::string key = C::chk() + "|" + out; for (auto& s : g.seen) if (s == key) return; g.seen.push_back(key);
  sink.rec(op, FmtName<typename C::T>::s(), C::chk(), C::tag(), in, out); }
template<class... C, class F> void raw(L<C...>, const char* op, const std::string& in, bool nan, F f) { Group g; int d[] = {0, (raw1<C>(g, op, in, nan, f), 0)...}; (void)d; }
template<class U> bool isn(const U& v) { return v != v; }
template<class I> I junk() { typedef typename I::base_type T; return I(T(-1), T(2)); }
template<class CS, class U> void number(CS cs, U v) {
  std::string in = "[" + num(v) + "]"; bool n = isn(v);
  raw(cs, "put.n", in, n, [&](auto c) { typedef IT(c) I; return show(I(v)); });
  raw(cs, "put.asg", in, n, [&](auto c) { typedef IT(c) I; I x = junk<I>(); I& y = (x = v); return &y == &x ? show(x) : "X,ref"; });
}
template<class CS, class U> void pairn(CS cs, U l, U u) {
  std::string in = "[" + num(l) + ";" + num(u) + "]"; bool n = isn(l) || isn(u);
  raw(cs, "put.nn", in, n, [&](auto c) { typedef IT(c) I; return show(I(l, u)); }); }
template<class CS, class T> void own(CS cs, T l, T u) { // numbers of the base type itself
  std::string in = "[" + num(l) + ";" + num(u) + "]"; bool n = isn(l) || isn(u);
  raw(cs, "put.assign", in, n, [&](auto c) { typedef IT(c) I; I x = junk<I>(); x.assign(l, u); return show(x); });
  raw(cs, "put.assignself", in, n, [&](auto c) { typedef IT(c) I; if (!(l < u)) { I x(T(0)); x.assign(l, u); return show(x); } I x(u, u); x.assign(l, x.lower()); return show(x); });
  raw(cs, "put.assignself2", in, n, [&](auto c) { typedef IT(c) I; if (!(l < u)) { I x(T(0)); x.assign(l, u); return show(x); } I x(l, l); x.assign(x.upper(), u); return show(x); });
  raw(cs, "hull2.s", in, n, [&](auto c) { typedef IT(c) I; return show(I::hull(l, u)); });
  if (n || !(l <= u)) return;
  raw(cs, "put.copy", in, n, [&](auto c) { typedef IT(c) I; I x(l, u); I y(x); return show(y); });
  raw(cs, "put.copyasg", in, n, [&](auto c) { typedef IT(c) I; I x(l, u), y = junk<I>(); I& z = (y = x); return &z == &y ? show(y) : "X,ref"; });
  raw(cs, "put.selfasg", in, n, [&](auto c) { typedef IT(c) I; I x(l, u); x = *&x; return show(x); });
  raw(cs, "put.self_l", "[" + num(l) + "]", n, [&](auto c) { typedef IT(c) I; I x(l, u); x = x.lower(); return show(x); });
  raw(cs, "put.self_u", "[" + num(u) + "]", n, [&](auto c) { typedef IT(c) I; I x(l, u); x = x.upper(); return show(x); });
#define GET(f) raw(cs, "get." #f, in, n, [&](auto c) { typedef IT(c) I; I x(l, u); return show(f(x)); });
  GET(lower) GET(upper) GET(checked_lower) GET(checked_upper)
  raw(cs, "get.lower", in, n, [&](auto c) { typedef IT(c) I; I x(l, u); return show(x.lower()); });
  raw(cs, "get.upper", in, n, [&](auto c) { typedef IT(c) I; I x(l, u); return show(x.upper()); });
}
template<class J, class CS> void conv(CS cs, const J& s, bool empty) { // from an interval of another type or policy
  std::string in = empty ? "[]" : "[" + num(s.lower()) + ";" + num(s.upper()) + "]";
  raw(cs, "put.iv", in, false, [&](auto c) { typedef IT(c) I; return show(I(s)); });
  raw(cs, "put.ivasg", in, false, [&](auto c) { typedef IT(c) I; I x = junk<I>(); I& y = (x = s); return &y == &x ? show(x) : "X,ref"; });
}
template<class CS> void consts(CS cs) {
  raw(cs, "put.deflt", "[0]", false, [&](auto c) { typedef IT(c) I; return show(I()); });
  raw(cs, "put.empty", "[]", false, [&](auto c) { typedef IT(c) I; return show(I::empty()); });
  raw(cs, "get.checked_lower", "[]", false, [&](auto c) { typedef IT(c) I; return show(checked_lower(I::empty())); });
  raw(cs, "get.checked_upper", "[]", false, [&](auto c) { typedef IT(c) I; return show(checked_upper(I::empty())); });
  raw(cs, "put.whole", "[-oo;+oo]", false, [&](auto c) { typedef IT(c) I; return show(I::whole()); });
}
template<class U> std::vector<U> ints() { std::vector<U> r; typedef std::numeric_limits<U> nl; __int128 mn = nl::min(), mx = nl::max();
  for (int k : {0, 1, 2, 3, 5, 100, 127}) { if (k <= mx) r.push_back((U)k); if (nl::is_signed) r.push_back((U)-k); r.push_back((U)(mx - k)); if (nl::is_signed) r.push_back((U)(mn + k)); }
  for (int b : {11, 24, 25, 31, 32, 53, 54, 62, 63}) if (b < nl::digits) for (int d = -1; d <= 1; d++) { U v = (U)(((__int128)1 << b) + d); r.push_back(v); if (nl::is_signed) r.push_back((U)-v); }
  return r; }
template<class U> std::vector<U> reals(int n) { Rng r(g_seed * 7 + sizeof(U)); std::vector<U> v; typedef std::numeric_limits<U> nl; v.push_back(nl::quiet_NaN()); v.push_back(nl::infinity()); v.push_back(-nl::infinity());
  for (double d : {0.0, -0.0, 1.0, -1.5, 6.0, 7.0, 7.5, -8.0, 0.5, 0.25, 0.75, -0.1, 0.3, 1e-3, 3.4028235e38, 5.0, 3.5, 2.5}) v.push_back((U)d);
  for (double d : {3.4028234663852886e38, 3.4028234663852887e38, 1e39, 1e-45, 7e-46, 1.401298464324817e-45, 1.1754943508222875e-38, 16777217.0}) { v.push_back((U)d); v.push_back(std::nextafter((U)d, nl::infinity())); v.push_back(-(U)d); }
  for (int i = 0; i < n; i++) v.push_back(hw_num<U>(r, true)); return v; }
template<class CS, class U> void from(CS cs, const std::vector<U>& v, int pairs) { Rng r(g_seed + v.size());
  for (auto& x : v) { number(cs, x); pairn(cs, x, x); }
  if (std::numeric_limits<U>::has_quiet_NaN) for (auto& x : v) if (&x - &v[0] < 12) { U nan = std::numeric_limits<U>::quiet_NaN(); pairn(cs, x, nan); pairn(cs, nan, x); }
  for (int i = 0; i < pairs; i++) { U a = v[r.below(v.size())], b = v[r.below(v.size())]; if (r.one(3) && b < a) std::swap(a, b); pairn(cs, a, b);
    if (a <= b) { typedef bn::interval<U, il::policies<typename il::rounded_math<U>, il::checking_base<U> > > J; conv(cs, J(a, b), false); } } }
template<class CS> void arith_sources(CS cs, int n) {
  from(cs, ints<int>(), n); from(cs, ints<long>(), n); from(cs, ints<long long>(), n); from(cs, ints<unsigned>(), n); from(cs, ints<unsigned long>(), n); from(cs, ints<unsigned long long>(), n);
  from(cs, ints<short>(), n); from(cs, ints<unsigned short>(), n); from(cs, ints<signed char>(), n); from(cs, ints<unsigned char>(), n); from(cs, ints<char>(), n); from(cs, std::vector<signed char>{0, 1}, 2); number(cs, true); number(cs, false); pairn(cs, false, true);
  from(cs, reals<float>(n), 2 * n); from(cs, reals<double>(n), 2 * n); from(cs, reals<long double>(n), 2 * n); }
template<class CS, class T> void same(CS cs, const std::vector<T>& v, int pairs) { Rng r(g_seed + 5);
  if (!pairs) for (auto& a : v) for (auto& b : v) { own<CS, T>(cs, a, b); pairn(cs, a, b); }
  for (auto& a : v) { own<CS, T>(cs, a, a); number(cs, a); }
  for (int i = 0; i < pairs; i++) { T a = v[r.below(v.size())], b = v[r.below(v.size())]; own<CS, T>(cs, a, b); } }
template<class T> void empties() { // other policies and types, empty sources
  typedef CheckCfgs<T> CS; typedef bn::interval<T, il::policies<il::rounded_math<T>, il::checking_base<T> > > J; typedef bn::interval<T, il::policies<typename Pol<T>::Std, il::checking_no_nan<T> > > K;
  conv(CS(), J::empty(), true); conv(CS(), K::empty(), true); conv(CS(), J(T(-2), T(3)), false); conv(CS(), K(T(1), T(1)), false); }
template<class U, class CS> void empt(CS cs) { typedef bn::interval<U, il::policies<il::rounded_math<U>, il::checking_base<U> > > J; conv(cs, J::empty(), true); conv(cs, J::whole(), false); }
namespace boost { namespace numeric { namespace interval_lib { template<int P, int A, int B> struct rounded_math<Mini<P, A, B> > : save_state<rounded_arith_opp<Mini<P, A, B> > > {}; } } }
template<class T> using RC = L<COpp<T, ChkBase<T> >, CStd<T, ChkBase<T> >, COppU<T, ChkBase<T> >, CStdU<T, ChkBase<T> > >;
template<class T> using RD_ = L<CfgDefault<T>, COpp<T, ChkBase<T> >, CStd<T, ChkBase<T> >, COppU<T, ChkBase<T> > >;
int prop_main() {
  int n = g_thorough ? 1500 : 120;
  arith_sources(RD_<float>(), n); arith_sources(RD_<double>(), n); arith_sources(RD_<long double>(), n);
  SOFT(arith_sources(RC<M2>(), n / 2); arith_sources(RC<M3>(), n / 2); arith_sources(RC<M8>(), n / 2);)
  from(CheckCfgs<double>(), reals<float>(20), 100); from(CheckCfgs<double>(), ints<int>(), 40); from(CheckCfgs<float>(), reals<double>(20), 100); SOFT(from(CheckCfgs<M2>(), reals<double>(20), 100);)
  SOFT({ auto v = mini_values<2, -1, 1>(true); v.push_back(M2::raw(NAN)); same(CheckCfgs<M2>(), v, 0); same(RC<M2>(), v, 0); })
  same(CheckCfgs<float>(), reals<float>(n), n * 4); same(CheckCfgs<double>(), reals<double>(n), n * 4); same(CheckCfgs<long double>(), reals<long double>(n), n * 4); same(RD_<double>(), reals<double>(n), n);
  SOFT(consts(CheckCfgs<M2>()); consts(UserCfgs<M2>()); from(UserCfgs<M2>(), reals<double>(20), 100); same(UserCfgs<M2>(), mini_values<2, -1, 1>(true), 0);) consts(UserCfgs<double>()); from(UserCfgs<double>(), reals<float>(20), 100); same(UserCfgs<double>(), reals<double>(20), 100); consts(CheckCfgs<float>()); consts(CheckCfgs<double>()); consts(CheckCfgs<long double>()); consts(RD_<double>());
  empties<float>(); empties<double>(); empties<long double>(); SOFT(empties<M2>();)
  empt<double>(CheckCfgs<float>()); empt<float>(CheckCfgs<double>()); empt<long double>(CheckCfgs<double>()); SOFT(empt<double>(CheckCfgs<M3>());)
  SOFT({ std::vector<int> v = {-7, -1, 0, 1, 5, INT_MAX, INT_MIN}; typedef L<CExact<int, ChkBase<int> >, CfgDefault<int> > CS; for (int a : v) for (int b : v) { if (a <= b) own<CS, int>(CS(), a, b); pairn(CS(), a, b); } from(L<CExact<Rat, ChkBase<Rat> > >(), std::vector<int>{-3, 0, 1, 9}, 20); })
  return 0; }
