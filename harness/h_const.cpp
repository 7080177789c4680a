// C20 pi constants; C25 stream output and numeric limits
#define VERIF_MAIN
#ifdef NO_SNAN
#define SIGNALING(...)
#else
#define SIGNALING(...) __VA_ARGS__
#endif
#include "common.hpp"
#include <sstream>
#include <iomanip>
#include <boost/numeric/interval/constants.hpp>
using namespace boost::numeric;
#include "calls.hpp"
template<class Ch> std::basic_ostream<Ch>& operator<<(std::basic_ostream<Ch>& s, const Rat& r) { return s << '(' << r.n << '/' << r.d << ')'; } // a base type of the user
static std::set<std::string> seen;
template<class T> void out(const std::string& op, const std::string& chk, const std::string& tag, const std::string& in, const std::string& o) {
  if (seen.insert(op + "|" + FmtName<T>::s() + chk + tag + in + "|" + o).second) sink.rec(op, FmtName<T>::s(), chk, tag, in, o); }
// ------------------------------------------------------------------ C20
template<class I> void pis(const char* chk) { typedef typename I::base_type T; static const char m[] = {'N', 'D', 'U', 'Z'};
  for (char a : m) { Amb<T>::set(a);
    std::string p = capture([&]() { return show(il::pi<I>()); }), h = capture([&]() { return show(il::pi_half<I>()); }), t = capture([&]() { return show(il::pi_twice<I>()); });
    T v[6] = { il::constants::pi_lower<T>(), il::constants::pi_upper<T>(), il::constants::pi_half_lower<T>(), il::constants::pi_half_upper<T>(), il::constants::pi_twice_lower<T>(), il::constants::pi_twice_upper<T>() };
    calm(); const char* tag = "lib"; out<T>("pi.i", chk, tag, "1p0", p); out<T>("pi.i", chk, tag, "1p-1", h); out<T>("pi.i", chk, tag, "1p1", t);
    out<T>("pi.c", chk, tag, "1p0", "I," + iv(v[0], v[1])); out<T>("pi.c", chk, tag, "1p-1", "I," + iv(v[2], v[3])); out<T>("pi.c", chk, tag, "1p1", "I," + iv(v[4], v[5])); } }
template<class T> void pisall() { pis<typename CfgDefault<T>::I>("st"); pis<typename COpp<T, ChkBase<T> >::I>("base"); pis<typename CStd<T, ChkNe<T> >::I>("ne"); pis<typename COpp<T, ChkCne<T> >::I>("cne"); }
// ------------------------------------------------------------------ C25
template<class S> std::string hex(const S& s) { std::string r; char t[16]; for (auto c : s) { snprintf(t, sizeof t, "%02x", (unsigned)c & 0xffffffu); r += t; } return r.empty() ? "." : r; }
template<class St> void format(St& s, int k) {
  switch (k) { case 1: s << std::setprecision(17); break; case 2: s << std::fixed << std::setprecision(3); break; case 3: s << std::scientific << std::setprecision(20); break; case 4: s << std::showpos; break;
    case 5: s << std::hexfloat; break; case 6: s << std::uppercase << std::showpoint << std::scientific; break; case 7: s << std::setprecision(1) << std::setfill(typename St::char_type('*')); break; case 8: s << std::setprecision(40) << std::fixed; break; case 9: s << std::hex << std::showbase; break; case 10: s.imbue(std::locale(s.getloc(), new std::numpunct<typename St::char_type>)); break; default: break; } }
template<class Ch, class I> std::string text(const I& z, int k) { std::basic_ostringstream<Ch> s; format(s, k); auto f = s.flags(); auto p = s.precision(); auto fl = s.fill(); auto& ret = (s << z);
  return hex(s.str()) + (&ret == &s && s.flags() == f && s.precision() == p && s.fill() == fl && s.good() ? ",T" : ",F"); }
template<class Ch, class T> std::string ref(const T& v, int k) { std::basic_ostringstream<Ch> s; format(s, k); s << v; return hex(s.str()); }
template<class Ch, class I, class T> void print(const std::string& chk, const Arg<T>& a, int k, const char* ch) { std::string o = capture([&]() { return "S," + text<Ch>(mk<I>(a), k); });
  std::string in = a.str() + (a.k == 0 ? std::string() : "," + ref<Ch>(a.lo, k) + "," + ref<Ch>(a.hi, k)); out<T>(std::string("print.") + ch, chk, std::to_string(k), in, o); }
// several intervals on one stream, with text around them
template<class I, class T> void prints(const std::string& chk, const Arg<T>& a, const Arg<T>& b, int k) { std::string o = capture([&]() -> std::string { std::ostringstream s; format(s, k); s << mk<I>(a) << mk<I>(b); return "S," + hex(s.str()) + ",T"; });
  if (a.k != 2 || b.k != 2) return; out<T>("print2.c", chk, std::to_string(k), a.str() + "," + ref<char>(a.lo, k) + "," + ref<char>(a.hi, k) + "," + ref<char>(b.lo, k) + "," + ref<char>(b.hi, k), o); }
template<class I, class T> void one(const std::string& chk, const Arg<T>& a, int k, bool wide) { print<char, I>(chk, a, k, "c"); if (wide) print<wchar_t, I>(chk, a, k, "w"); }
template<class T> Arg<T> iiv(Rng& r) { T a = (T)r.u() >> r.below(sizeof(T) * 8), b = (T)r.u() >> r.below(sizeof(T) * 8); if (b < a) std::swap(a, b); return Arg<T>::V(a, b); }
template<class T> void prt(int n) { Rng r(g_seed * 3 + sizeof(T)); typedef typename COpp<T, ChkBase<T> >::I B; typedef typename CfgDefault<T>::I D;
  for (int k = 0; k <= 10; k++) { print<char, B>("base", Arg<T>::E(), k, "c"); print<wchar_t, B>("base", Arg<T>::E(), k, "w"); }
  for (int i = 0; i < n; i++) { Arg<T> a, b; if constexpr (std::is_integral<T>::value) { a = iiv<T>(r); b = iiv<T>(r); } else { a = hw_iv<T>(r); b = hw_iv<T>(r); } int k = r.below(11); one<B>("base", a, k, r.one(3)); one<D>("st", a, k, r.one(3)); prints<B>("base", a, b, k); } }
template<class T, class I, bool F> struct Lim { static void f(const char* chk) { typedef std::numeric_limits<I> nl;
#define LM(fn, ...) { std::string o = capture([&]() -> std::string { return show(nl::fn()); }); out<T>("limit." #fn, chk, "lib", "", o); }
#define LC(c, ok) out<T>("limit.const", chk, #c, "", (ok) ? "B,T" : "B,F");
  LM(min) LM(max) LC(specialized, nl::is_specialized) LC(not_iec559, !nl::is_iec559) LC(round_style, nl::round_style == std::round_indeterminate) typedef std::numeric_limits<T> bl;
  LC(inherited, nl::digits == bl::digits && nl::digits10 == bl::digits10 && nl::radix == bl::radix && nl::is_signed == bl::is_signed && nl::is_exact == bl::is_exact && nl::is_integer == bl::is_integer && nl::min_exponent == bl::min_exponent && nl::max_exponent == bl::max_exponent && nl::has_infinity == bl::has_infinity && nl::has_quiet_NaN == bl::has_quiet_NaN)
  if constexpr (F) { LM(epsilon) LM(infinity) LM(denorm_min) if (std::string(chk) == "base") { LM(quiet_NaN) SIGNALING(LM(signaling_NaN)) } } } };
template<class T> void lims() { const bool F = !std::is_integral<T>::value; Lim<T, typename COpp<T, ChkBase<T> >::I, F>::f("base"); Lim<T, typename CfgDefault<T>::I, F>::f("st"); Lim<T, typename CStd<T, ChkNe<T> >::I, F>::f("ne"); }
int prop_main() {
  if (g_prop == "C20") { pisall<float>(); pisall<double>(); pisall<long double>(); SOFT(pisall<M3>(); pisall<M4>(); pisall<M8>();) 
    SOFT(typedef bn::interval<int, il::policies<typename Pol<int>::Exact, il::checking_base<int> > > II; typedef bn::interval<long, il::policies<typename Pol<long>::Exact, il::checking_base<long> > > IL; pis<II>("base"); pis<IL>("base");) }
  else { int n = g_thorough ? 8000 : 700; prt<double>(n); prt<float>(n); prt<long double>(n); 
    SOFT(typedef bn::interval<Rat, il::policies<typename Pol<Rat>::Exact, il::checking_base<Rat> > > IR; Rng r(g_seed); for (int i = 0; i < 40; i++) { Rat a((long long)r.below(41) - 20, 1 + r.below(9)), b = a + Rat(r.below(9), 1 + r.below(9)); print<char, IR>("base", Arg<Rat>::V(a, b), i % 11, "c"); print<wchar_t, IR>("base", Arg<Rat>::V(a, b), i % 11, "w"); })
    lims<double>(); lims<float>(); lims<long double>(); }
  return 0; }
