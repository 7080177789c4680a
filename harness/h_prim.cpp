// C24 primitives of the rounding policies
#define VERIF_MAIN
#ifdef X87 // the x87 control word instead of <fenv.h>
#define BOOST_NUMERIC_INTERVAL_HW_ROUNDING_HPP
#include <boost/config.hpp>
#include <boost/numeric/interval/rounding.hpp>
#include <boost/numeric/interval/rounded_arith.hpp>
#include <boost/numeric/interval/detail/x86_rounding_control.hpp>
#include <boost/numeric/interval/ext/x86_fast_rounding_control.hpp>
namespace boost { namespace numeric { namespace interval_lib {
template<> struct rounded_math<float> : save_state<rounded_arith_opp<float> > {}; template<> struct rounded_math<double> : save_state<rounded_arith_opp<double> > {}; template<> struct rounded_math<long double> : save_state<rounded_arith_opp<long double> > {};
} } }
#endif
#include "common.hpp"
using namespace boost::numeric;
#include "calls.hpp"
static std::set<std::string> seen;
static std::string g_tag;
template<class T> void out(const std::string& form, const std::string& in, const std::string& o) {
  if (seen.insert(form + "|" + FmtName<T>::s() + in + "|" + o).second) sink.rec("prim." + form, FmtName<T>::s(), "", g_tag, in, o); }
static const char AMB[] = {'N', 'D', 'U', 'Z'}; static unsigned amb = 0;
#ifdef X87
static void setall(char m) { unsigned short cw = m == 'U' ? 0x1b7f : m == 'D' ? 0x177f : m == 'Z' ? 0x1f7f : 0x137f; __asm__ __volatile__("fldcw %0" : : "m"(cw)); }
template<class T> void setamb(char m) { setall(m); }
#else
static void setall(char) { fesetround(FE_TONEAREST); MiniEnv::mode = M_NEAR; }
template<class T> void setamb(char m) { Amb<T>::set(m); }
#endif
template<class T, class R, class F> T val(F f) { volatile T v; T res; { setamb<T>(AMB[amb++ & 3]); R r; res = f(r); } setall('N'); return res; }
// R: a protected rounding class, made afresh in each ambient mode; U: the one whose primitive is called while R lives
std::string FORM(const char* s);
#define P1(fn, a) { T v_ = T(0); std::string o = capture([&]() -> std::string { setamb<T>(AMB[amb++ & 3]); { R r; (void)&r; U u; (void)&u; v_ = u.fn; } setall('N'); return "N," + num(v_); }); setall('N'); out<T>(FORM(#fn), a, o); }
std::string FORM(const char* s) { std::string r(s); return r.substr(0, r.find('(')); }
template<class T, class R, class U> void arith1(const T& x) { std::string a = "[" + num(x) + "]";
#ifdef X87
  if (sizeof(T) > 8 || true)
#endif
  { P1(int_down(x), a) P1(int_up(x), a) }
#ifdef X87
  if constexpr (sizeof(T) > 8)
#endif
  if (!(x < T(0))) { P1(sqrt_down(x), a) P1(sqrt_up(x), a) } }
template<class T, class R, class U> void arith2(const T& x, const T& y) { std::string a = "[" + num(x) + "],[" + num(y) + "]";
  P1(add_down(x, y), a) P1(add_up(x, y), a) P1(sub_down(x, y), a) P1(sub_up(x, y), a) P1(mul_down(x, y), a) P1(mul_up(x, y), a)
  if (!(y == T(0))) { P1(div_down(x, y), a) P1(div_up(x, y), a) } if (x <= y) { P1(median(x, y), a) } }
template<class T, class R, class U, class V> void conv1(V v) { std::string a = "[" + num(v) + "]"; P1(conv_down(v), a) P1(conv_up(v), a) }
#define FNS(F) F(exp) F(log) F(sin) F(cos) F(tan) F(asin) F(acos) F(atan) F(sinh) F(cosh) F(tanh) F(asinh) F(acosh) F(atanh)
template<class T> bool indom(const std::string& f, T x) { if (f == "log") return x > T(0); if (f == "asin" || f == "acos") return x >= T(-1) && x <= T(1); if (f == "atanh") return x > T(-1) && x < T(1); if (f == "acosh") return x >= T(1); return true; }
#ifndef X87
// the base type's function called directly: f(x) rounded down / up, and -f(-x)
template<class T, class R, class U> void transc1(const T& x) { using std::exp; using std::log; using std::sin; using std::cos; using std::tan; using std::asin; using std::acos; using std::atan; using std::sinh; using std::cosh; using std::tanh; using std::asinh; using std::acosh; using std::atanh;
#define TF(f) if (indom(#f, x)) { if constexpr (HasTrans<T>::soft) { std::string a = "[" + num(x) + "]"; P1(f##_down(x), a) P1(f##_up(x), a) } else { \
   fesetround(FE_DOWNWARD); volatile T d1 = f(x); volatile T m = -x; volatile T u2 = indom(#f, T(-x)) ? f((T)m) : T(0); u2 = -(T)u2; fesetround(FE_UPWARD); volatile T u1 = f(x); volatile T d2 = indom(#f, T(-x)) ? f((T)m) : T(0); d2 = indom(#f, T(-x)) ? T(-(T)d2) : T(d1); fesetround(FE_TONEAREST); if (!indom(#f, T(-x))) u2 = u1; \
   std::string a = "[" + num(x) + "],[" + num((T)d1) + "],[" + num((T)d2) + "]"; P1(f##_down(x), a) a = "[" + num(x) + "],[" + num((T)u1) + "],[" + num((T)u2) + "]"; P1(f##_up(x), a) } }
  FNS(TF) }
// exact policies: the base type's operation, in the ambient mode
template<class T> void exact1(const T& x, const T& y) { using std::exp; using std::log; using std::sin; using std::cos; using std::tan; using std::asin; using std::acos; using std::atan; using std::sinh; using std::cosh; using std::tanh; using std::asinh; using std::acosh; using std::atanh; using std::sqrt; using std::floor; using std::ceil;
  typename Pol<T>::TExact r; std::string a = "[" + num(x) + "]";
#define EX(call, ref) { setamb<T>(AMB[amb++ & 3]); volatile T v1 = call; volatile T v2 = ref; setall('N'); out<T>("exact", a, "N," + num((T)v1) + "," + num((T)v2)); }
#define EXF(f) if (indom(#f, x)) { EX(r.f##_down(x), f(x)) EX(r.f##_up(x), f(x)) }
  FNS(EXF) if (!(x < T(0))) { EX(r.sqrt_down(x), sqrt(x)) EX(r.sqrt_up(x), sqrt(x)) } EX(r.int_down(x), floor(x)) EX(r.int_up(x), ceil(x))
  a += ",[" + num(y) + "]"; EX(r.add_down(x, y), x + y) EX(r.add_up(x, y), x + y) EX(r.sub_down(x, y), x - y) EX(r.sub_up(x, y), x - y) EX(r.mul_down(x, y), x * y) EX(r.mul_up(x, y), x * y) if (!(y == T(0))) { EX(r.div_down(x, y), x / y) EX(r.div_up(x, y), x / y) } EX(r.median(x, y), (x + y) / 2)
  EX(r.conv_down(x), x) EX(r.conv_up(x), x) EX(r.conv_down(3), T(3)) EX(r.conv_up(3), T(3)) }
template<class R_> struct SoftX { };
#endif
template<class T, class R, class U> void convs(Rng& r, int n) {
  for (int i = 0; i < n; i++) { uint64_t w = r.u() >> r.below(64); if (r.one(4)) w = ~w; if (r.one(8)) w = 1ULL << r.below(64); if (r.one(10)) w = (1ULL << 63) - r.below(3); 
    conv1<T, R, U>((signed char)w); conv1<T, R, U>((unsigned char)w); conv1<T, R, U>((short)w); conv1<T, R, U>((unsigned short)w); conv1<T, R, U>((int)w); conv1<T, R, U>((unsigned)w); conv1<T, R, U>((long)w); conv1<T, R, U>((unsigned long)w); conv1<T, R, U>((long long)w); conv1<T, R, U>((unsigned long long)w);
    setall('N'); conv1<T, R, U>(hw_num<float>(r)); conv1<T, R, U>(hw_num<double>(r)); conv1<T, R, U>(hw_num<long double>(r)); } }
template<class T, class R, class U> void hw(unsigned long s, int n) { Rng r(s);
  for (int i = 0; i < n; i++) { T x = hw_num<T>(r), y = r.one(4) ? x : r.one(6) ? -x : hw_num<T>(r);
#ifdef X87FAST // the precision control does not limit exponents: stay in the normal range
    { T a = std::fabs(x), b = std::fabs(y), lo = std::sqrt(std::numeric_limits<T>::min()) * 16, hi = std::sqrt(std::numeric_limits<T>::max()) / 16; if ((a != 0 && (a < lo || a > hi)) || (b != 0 && (b < lo || b > hi)) || (x != y && x != -y && a != 0 && b != 0 && std::fabs(a - b) < lo)) continue; }
#endif
    arith2<T, R, U>(x, y); arith1<T, R, U>(x);
#ifndef X87
    transc1<T, R, U>(x); transc1<T, R, U>(std::ldexp(T((long)(r.u() >> 20)), -42) - 2);
#endif
  }
  convs<T, R, U>(r, n / 4); }
template<class T> void hwall(int n) {
#ifdef X87FAST
#define TG(x) "x87"
  typedef il::save_state<il::rounded_arith_std<T, il::x86_fast_rounding_control<T> > > S; typedef il::save_state<il::rounded_arith_opp<T, il::x86_fast_rounding_control<T> > > O;
#elif defined X87
  typedef il::save_state<il::rounded_arith_std<T> > S; typedef il::save_state<il::rounded_arith_opp<T> > O;
#define TG(x) "x87"
#else
  typedef typename Pol<T>::TStd S; typedef typename Pol<T>::TOpp O;
#define TG(x) x
#endif
  g_tag = TG("std"); hw<T, S, S>(g_seed, n); hw<T, S, typename S::unprotected_rounding>(g_seed, n / 4); g_tag = TG("opp"); hw<T, O, O>(g_seed, n); hw<T, O, typename O::unprotected_rounding>(g_seed, n / 4); }
#ifndef X87
template<class T, class R, class U> void soft(unsigned long s, unsigned keep, bool tr) { Rng r(s); auto v = MiniPool<T>::get().nums;
  for (auto& x : v) { arith1<T, R, U>(x); if constexpr (HasTrans<T>::v) if (tr) transc1<T, R, U>(x); for (auto& y : v) if (r.below(keep) == 0) arith2<T, R, U>(x, y); } convs<T, R, U>(r, 60); }
template<class T> void softall(unsigned keep) { typedef typename std::conditional<HasTrans<T>::v, typename Pol<T>::TStd, typename Pol<T>::Std>::type S; typedef typename std::conditional<HasTrans<T>::v, typename Pol<T>::TOpp, typename Pol<T>::Opp>::type O;
  g_tag = "std"; soft<T, S, S>(g_seed, keep, true); soft<T, S, typename S::unprotected_rounding>(g_seed + 1, keep * 2, true); g_tag = "opp"; soft<T, O, O>(g_seed + 2, keep, true); soft<T, O, typename O::unprotected_rounding>(g_seed + 3, keep * 2, true); }
template<class T> void exacts(int n) { Rng r(g_seed + 9); g_tag = "exact"; for (int i = 0; i < n; i++) exact1<T>(hw_num<T>(r), hw_num<T>(r)); }
#endif
int prop_main() { int n = g_thorough ? 6000 : 500;
#ifdef X87
  hwall<float>(n); hwall<double>(n); hwall<long double>(n);
#else
  SOFT(softall<M2>(1); softall<M4>(g_thorough ? 1 : 4);) hwall<float>(n); hwall<double>(n); hwall<long double>(n); exacts<double>(n / 4); exacts<float>(n / 4); exacts<long double>(n / 4);
#endif
  return 0; }
