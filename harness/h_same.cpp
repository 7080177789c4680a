// C15 rounding policies are interchangeable; C16 mixed, compound and aliased forms
#define VERIF_MAIN
#include "common.hpp"
using namespace boost::numeric;
#include <boost/numeric/interval/ext/integer.hpp>
#include "calls.hpp"
static std::set<std::string> seen;
template<class T> void out(const std::string& op, const std::string& chk, const std::string& tag, const std::string& in, const std::string& o) {
  if (seen.insert(op + "|" + FmtName<T>::s() + chk + in + "|" + o).second) sink.rec(op, FmtName<T>::s(), chk, tag, in, o); }
// ------------------------------------------------------------------ C15
template<class T> struct Ty { // the same interval type, reached by different ways
  typedef Cfg<T, typename Pol<T>::TStd, ChkNe<T>, TagStd> S; typedef Cfg<T, typename Pol<T>::TOpp, ChkBase<T>, TagOpp> O;
  typedef typename il::change_checking<typename S::I, il::checking_base<T> >::type SB;      // = std, base
  typedef typename il::change_rounding<SB, typename Pol<T>::TOpp>::type OB;                  // = opp, base
  typedef typename il::unprotect<OB>::type OU; typedef typename il::unprotect<SB>::type SU;
  typedef typename il::change_rounding<typename il::change_rounding<OB, typename Pol<T>::TStd>::type, typename Pol<T>::TOpp>::type OO;
  typedef typename il::unprotect<OU>::type OUU; };
template<class I, class G, class T> std::string eval(const Call<T>& c) {
  std::fesetround(FE_TONEAREST); MiniEnv::mode = M_NEAR;
  std::string o = capture([&]() -> std::string { G g; (void)&g; I X = mk<I>(c.a[0].k == 1 ? Arg<T>::N(T(0)) : c.a[0]), Y = mk<I>(op_arity(c.op) > 1 && c.a[1].k != 1 ? c.a[1] : Arg<T>::N(T(0))); return c.run(c.a[0], X, Y); });
  std::fesetround(FE_TONEAREST); MiniEnv::mode = M_NEAR; return o; }
template<class T> std::string types() { typedef Ty<T> Y; std::string r = "B";
  r += std::is_same<typename Y::SB, typename CS<T, ChkBase<T> >::I>::value ? ",T" : ",F"; r += std::is_same<typename Y::OB, typename Y::O::I>::value ? ",T" : ",F"; r += std::is_same<typename Y::OU, typename CTU<T, ChkBase<T> >::I>::value ? ",T" : ",F";
  r += std::is_same<typename Y::SU, typename CSU<T, ChkBase<T> >::I>::value ? ",T" : ",F"; r += std::is_same<typename Y::OO, typename Y::OB>::value ? ",T" : ",F"; return r; }
template<class T> std::string nested(std::string s) { std::string r = "["; int d = 0; for (char c : s) { if (c == '[') ++d; if (c == ']') --d; r += (c == ',' && d == 0) ? ';' : c; } return r + "]"; }
template<class T> void same(int per, int extra) { Rng r(g_seed * 31 + sizeof(T)); auto p = mk_pool<T>(r, extra); typedef Ty<T> Y; typedef typename Pol<T>::TStd GS; typedef typename Pol<T>::TOpp GO;
  out<T>("types.t", "base", "", "", types<T>());
  for (int op = 0; op < NOPS; op++) { if (OPD[op].trans && !HasTrans<T>::v) continue; std::string nm = OPD[op].name;
    for (int i = 0; i < per; i++) { Call<T> c; pick(r, p, op, c); std::string o[7] = { eval<typename Y::SB, NoGuard>(c), eval<typename Y::OB, NoGuard>(c), eval<typename Y::SU, GS>(c), eval<typename Y::OU, GO>(c), eval<typename Y::OO, NoGuard>(c), eval<typename Y::OUU, GO>(c), eval<typename Y::OU, GO>(c) }, s;
      std::set<std::string> u; for (auto& x : o) if (u.insert(x).second) s += (s.empty() ? "" : ",") + nested<T>(x);
      out<T>(c.name(), "base", "all", c.in(), s); } } }
// ------------------------------------------------------------------ C16
template<class I, class F> std::string ev(F f) { std::fesetround(FE_TONEAREST); MiniEnv::mode = M_NEAR; std::string o = capture([&]() -> std::string { return show(f()); }); std::fesetround(FE_TONEAREST); MiniEnv::mode = M_NEAR; return nested<int>(o); }
#define PAIR(kind, form, in, e1, e2) out<T>(kind "." form, C::chk(), C::tag(), in, ev<I>([&]() { return (e1); }) + "," + ev<I>([&]() { return (e2); }) + ",T");
// compound: the target is a copy, the plain form is evaluated on the originals
#define COMP(form, in, TARGET, stmt, e2) { I Z(TARGET); bool ref = false; std::string o1 = ev<I>([&]() { auto& q = (stmt); ref = (&q == &Z); return Z; }), o2 = ev<I>([&]() { return (e2); }); \
  if (o1[1] == 'X') { ref = true; } out<T>("compound." form, C::chk(), C::tag(), in, o1 + "," + o2 + (ref ? ",T" : ",F")); }
#define OPERS(M) M(+, "add") M(-, "sub") M(*, "mul") M(/, "div")
template<class C, class T> void forms1(C, const Arg<T>& a, const Arg<T>& b, T y, int n) { typedef typename C::I I; BOOST_USING_STD_MIN(); BOOST_USING_STD_MAX();
  if ((a.k == 0 || b.k == 0) && !C::admits) return; std::fesetround(FE_TONEAREST); MiniEnv::mode = M_NEAR; typename C::guard g; (void)&g; I X = mk<I>(a), Y = mk<I>(b), S = I(y); std::string xy = a.str() + "," + num(y), xY = a.str() + "," + b.str();
#define NUM2(op, nm) PAIR("mixed", nm ".in", xy, X op y, X op S) PAIR("mixed", nm ".ni", xy, y op X, S op X) COMP(nm ".cin", xy, X, Z op##= y, X op y) COMP(nm ".cii", xY, X, Z op##= Y, X op Y) COMP(nm ".self", xY, X, Z op##= Z, X op X) \
   if (a.k == 2 && a.lo - a.lo == T(0)) COMP(nm ".lower", xY, X, Z op##= Z.lower(), X op a.lo) if (a.k == 2 && a.hi - a.hi == T(0)) COMP(nm ".upper", xY, X, Z op##= Z.upper(), X op a.hi)
  OPERS(NUM2)
  if (a.k == 2 && a.lo - a.lo == T(0)) { T x = a.lo; PAIR("mixed", "add.nn", xy, il::add<I>(x, y), I(x) + S) PAIR("mixed", "sub.nn", xy, il::sub<I>(x, y), I(x) - S) PAIR("mixed", "mul.nn", xy, il::mul<I>(x, y), I(x) * S) PAIR("mixed", "div.nn", xy, il::div<I>(x, y), I(x) / S) PAIR("mixed", "hull.nn", xy, I::hull(x, y), hull(I(x), S)) }
  PAIR("mixed", "hull.in", xy, hull(X, y), hull(X, S)) PAIR("mixed", "hull.ni", xy, hull(y, X), hull(S, X)) PAIR("mixed", "min.in", xy, min(X, y), min(X, S)) PAIR("mixed", "min.ni", xy, min(y, X), min(S, X)) PAIR("mixed", "max.in", xy, max(X, y), max(X, S)) PAIR("mixed", "max.ni", xy, max(y, X), max(S, X))
  PAIR("mixed", "in.ni", xy, in(y, X), subset(S, X))
  if (y > T(0)) { PAIR("mixed", "fmod.in", xy, fmod(X, y), fmod(X, S)) } if (a.k == 2 && a.lo > T(0)) { PAIR("mixed", "fmod.ni", xy, fmod(y, X), fmod(S, X)) }
  // the number converted by a fresh assignment
  COMP("assign.n", xy, X, Z = y, S) COMP("assign.i", xY, X, Z = Y, Y) COMP("assign.self", xY, X, Z = Z, X)
  if constexpr (std::is_floating_point<T>::value) { T t = static_cast<T>(n); std::string xn = a.str() + "," + num(n); 
    PAIR("mixed", "add.int", xn, X + n, X + I(t)) PAIR("mixed", "add.tni", xn, n + X, I(t) + X) PAIR("mixed", "sub.int", xn, X - n, X - I(t)) PAIR("mixed", "sub.tni", xn, n - X, I(t) - X) PAIR("mixed", "mul.int", xn, X * n, X * I(t)) PAIR("mixed", "mul.tni", xn, n * X, I(t) * X) PAIR("mixed", "div.int", xn, X / n, X / I(t)) PAIR("mixed", "div.tni", xn, n / X, I(t) / X) } }
template<class... C, class T> void forms(L<C...>, const Arg<T>& a, const Arg<T>& b, T y, int n) { int d[] = {(forms1<C, T>(C(), a, b, y, n), 0)...}; (void)d; }
template<class T> using FCfgs = L<CT<T, ChkBase<T> >, CS<T, ChkBase<T> >, CTU<T, ChkBase<T> >, CSU<T, ChkNe<T> >, CT<T, ChkCne<T> >, CT<T, ChkSt<T> > >;
template<class T> void mixed(int n, int extra) { Rng r(g_seed * 5 + sizeof(T)); auto p = mk_pool<T>(r, extra); std::vector<Arg<T> > iv; std::vector<T> nm; for (auto& a : p) if (a.k == 1) { if (!a.isnan()) nm.push_back(a.lo); } else iv.push_back(a);
  static const int ints[] = {0, 1, -1, 2, 3, -7, 16777217, 2147483647, -2147483647 - 1, 1000003};
  if constexpr (HasTrans<T>::soft && std::numeric_limits<T>::digits == 2) { auto q = MiniPool<T>::get(); for (auto& a : q.ivs) for (T y : q.nums) forms(FCfgs<T>(), a, iv[r.below(iv.size())], y, 1); }
  else for (int i = 0; i < n; i++) forms(FCfgs<T>(), iv[r.below(iv.size())], iv[r.below(iv.size())], nm[r.below(nm.size())], r.one(3) ? (int)r.u() : ints[r.below(10)]); }
int prop_main() {
  if (g_prop == "C15") { int n = g_thorough ? 300 : 40; SOFT(same<M2>(n * 2, 80); same<M4>(n, 80);) same<double>(n, 60); same<float>(n, 60); same<long double>(n, 40); }
  else { int n = g_thorough ? 5000 : 600; SOFT(mixed<M2>(n, 60); mixed<M4>(n, 80);) mixed<double>(n, 120); mixed<float>(n, 120); mixed<long double>(n, 80); }
  return 0; }
