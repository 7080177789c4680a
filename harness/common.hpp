// Recording of calls of the real library: exact text of values, outcome capture, record files.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include "mini.hpp"
#include <boost/numeric/interval.hpp>
#include <boost/numeric/interval/io.hpp>
#include <boost/numeric/interval/limits.hpp>
#include <boost/logic/tribool.hpp>
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <csetjmp>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include <cfenv>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <random>
#include <stdexcept>
namespace bn = boost::numeric; namespace il = boost::numeric::interval_lib;
#ifndef VERIF_MAIN
extern
#endif
std::vector<std::string> g_sinkdummy;

#ifdef VERIF_MAIN
int MiniEnv::mode = M_NEAR; long MiniEnv::fuse = 0; long MiniEnv::ticks = 0;
#endif

// ------------------------------------------------------------ exact text
inline std::string num(long double x) {
  if (x != x) return "nan"; if (x == 0) return "0";
  if (x - x != 0) return x > 0 ? "+oo" : "-oo";
  // integer arithmetic only: independent of the rounding mode
  unsigned char b[16] = {0}; memcpy(b, &x, 10); uint64_t m; uint16_t se; memcpy(&m, b, 8); memcpy(&se, b + 8, 2);
  int e = (se & 0x7fff); bool ng = se & 0x8000; if (e == 0) e = 1; e -= 16383 + 63;
  while (!(m & 1)) { m >>= 1; ++e; }
  char t[64]; snprintf(t, sizeof t, "%s%llxp%d", ng ? "-" : "", (unsigned long long)m, e); return t;
}
inline std::string num(double x) { return num((long double)x); }
inline std::string num(float x) { return num((long double)x); }
template<class I> inline std::string num_int(I v) { if (v == 0) return "0"; bool ng = v < 0; unsigned long long m = ng ? 0ULL - (unsigned long long)v : (unsigned long long)v; int e = 0;
  while (!(m & 1)) { m >>= 1; ++e; } char t[64]; snprintf(t, sizeof t, "%s%llxp%d", ng ? "-" : "", m, e); return t; }
inline std::string num(int v) { return num_int(v); } inline std::string num(unsigned v) { return num_int(v); }
inline std::string num(long v) { return num_int(v); } inline std::string num(unsigned long v) { return num_int(v); }
inline std::string num(long long v) { return num_int(v); } inline std::string num(unsigned long long v) { return num_int(v); }
inline std::string num(short v) { return num_int((int)v); } inline std::string num(unsigned short v) { return num_int((int)v); }
inline std::string num(signed char v) { return num_int((int)v); } inline std::string num(char v) { return num_int((int)v); } inline std::string num(bool v) { return num_int((int)v); } inline std::string num(unsigned char v) { return num_int((int)v); }
template<int P, int A, int B> inline std::string num(Mini<P, A, B> x) { return num((long double)x.v); }
inline std::string num(Rat r) { if (r.n == 0) return "0"; bool ng = r.n < 0; unsigned long long a = ng ? 0ULL - r.n : r.n, b = r.d; int e = 0;
  while (!(a & 1)) { a >>= 1; ++e; } while (!(b & 1)) { b >>= 1; --e; }
  char t[96]; if (b == 1) snprintf(t, sizeof t, "%s%llxp%d", ng ? "-" : "", a, e); else snprintf(t, sizeof t, "%s%llx/%llxp%d", ng ? "-" : "", a, b, e); return t; }
template<class T> inline std::string iv(const T& l, const T& u) { return "[" + num(l) + ";" + num(u) + "]"; }
template<class T> struct FmtName; // name of the format in the specification
template<> struct FmtName<float> { static std::string s() { return "f32"; } };
template<> struct FmtName<double> { static std::string s() { return "f64"; } };
template<> struct FmtName<long double> { static std::string s() { return "f80"; } };
template<> struct FmtName<Rat> { static std::string s() { return "q"; } };
template<> struct FmtName<int> { static std::string s() { return "z"; } };
template<> struct FmtName<long> { static std::string s() { return "z"; } };
template<> struct FmtName<unsigned> { static std::string s() { return "z"; } };
template<> struct FmtName<short> { static std::string s() { return "z"; } };
template<int P, int A, int B> struct FmtName< Mini<P, A, B> > { static std::string s() { return "m:" + std::to_string(P) + ":" + std::to_string(A) + ":" + std::to_string(B); } };

// ------------------------------------------------------------- outcomes
extern sigjmp_buf g_jb; extern volatile sig_atomic_t g_in; extern volatile unsigned long g_calls; extern const char* volatile g_sig;
#ifdef VERIF_MAIN
sigjmp_buf g_jb; volatile sig_atomic_t g_in = 0; volatile unsigned long g_calls = 0; const char* volatile g_sig = "";
static unsigned long g_seen = 0; static int g_stall = 0;
static void on_sig(int s) {
  if (s == SIGALRM) { if (!g_in || g_calls != g_seen) { g_seen = g_calls; g_stall = 0; return; } if (++g_stall < 3) return; g_stall = 0; g_sig = "X,hang"; }
  else { if (!g_in) { const char m[] = "harness: signal outside a call\n"; if (write(2, m, sizeof m - 1)) {} _exit(3); } g_sig = s == SIGABRT ? "X,abort" : s == SIGFPE ? "X,fpe" : "X,crash"; }
  siglongjmp(g_jb, 1);
}
void install_guards() {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_NODEFER | SA_ONSTACK;
  stack_t ss; ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, 0);
  sigaction(SIGALRM, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGSEGV, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGBUS, &sa, 0);
  struct itimerval it = {{0, 700000}, {0, 700000}}; setitimer(ITIMER_REAL, &it, 0);
}
#endif
extern int g_hangs;
// exceptions of the user's own (checking policies take them as parameters)
struct UserEmpty { int d; }; struct UserNaN { int d; };
inline std::string own_exception(std::string s, bool user) { // a policy with the user's exceptions must throw those
  if (user) return s == "X,uempty" ? "X,empty" : s == "X,unan" ? "X,nan" : s == "X,empty" || s == "X,nan" ? "X,foreign" : s; return s; }
template<class F> __attribute__((noinline)) std::string capture(F f) {
  std::string out;
  g_calls = g_calls + 1;
  if (sigsetjmp(g_jb, 0)) { g_in = 0; if (!strcmp(g_sig, "X,hang")) ++g_hangs; return std::string(g_sig); }
  g_in = 1;
  try { out = f(); }
  catch (Fault&) { out = "X,fault"; }
  catch (UserEmpty&) { out = "X,uempty"; }
  catch (UserNaN&) { out = "X,unan"; }
  catch (il::comparison_error&) { out = "X,cmp"; }
  catch (std::invalid_argument&) { out = "X,nan"; }
  catch (std::runtime_error&) { out = "X,empty"; }
  catch (...) { out = "X,other"; }
  g_in = 0; return out;
}
template<class T, class P> std::string ivt(const bn::interval<T, P>& z) { // as a value: [] or [l;u]
  if (bn::empty(z)) return "[]"; return iv(z.lower(), z.upper()); }
template<class T, class P> std::string show(const bn::interval<T, P>& z) { if (bn::empty(z) && !(std::is_floating_point<T>::value && z.lower() > z.upper())) return "E"; // crossed bounds are shown as they are
  return "I," + iv(z.lower(), z.upper()); }
inline std::string show(bool b) { return b ? "B,T" : "B,F"; }
inline std::string show(boost::logic::tribool b) { return boost::logic::indeterminate(b) ? "B,U" : bool(b) ? "B,T" : "B,F"; }
inline std::string show(float x) { return "N," + num(x); } inline std::string show(double x) { return "N," + num(x); } inline std::string show(long double x) { return "N," + num(x); }
inline std::string show(int x) { return "N," + num(x); } inline std::string show(Rat x) { return "N," + num(x); } inline std::string show(long x) { return "N," + num(x); } inline std::string show(unsigned x) { return "N," + num(x); } inline std::string show(short x) { return "N," + num(x); }
template<int P, int A, int B> std::string show(Mini<P, A, B> x) { return "N," + num(x); }
template<class I> std::string show(const std::pair<I, I>& p) { return "P," + ivt(p.first) + "," + ivt(p.second); }
inline std::string show(const std::string& s) { return s; }

// -------------------------------------------------------------- records
extern int g_hangs;
#ifdef VERIF_MAIN
int g_hangs = 0;
#endif
#ifdef HW_ONLY // second choice: if the templates no longer accept our base types, the hardware types alone
#define SOFT(...)
#else
#define SOFT(...) __VA_ARGS__
#endif
struct Sink { FILE* f = 0; unsigned long n = 0;
  void open(const char* p) { f = fopen(p, "w"); if (!f) { perror(p); exit(3); } setvbuf(f, 0, _IOFBF, 1 << 20); }
  void rec(const std::string& op, const std::string& fmt, const std::string& chk, const std::string& tag, const std::string& in, const std::string& out) {
    fprintf(f, "%s|%s|%s|%s|%s|%s\n", op.c_str(), fmt.c_str(), chk.c_str(), tag.c_str(), in.c_str(), out.c_str()); ++n; if (g_hangs >= 6) { close(); _exit(0); } } // enough evidence
  void close() { fclose(f); } };
extern Sink sink; extern unsigned long g_seed; extern bool g_thorough; extern std::string g_prop;
#ifdef VERIF_MAIN
Sink sink; unsigned long g_seed = 1; bool g_thorough = false; std::string g_prop;
#endif

// ------------------------------------------------------- configurations
struct NoGuard { int dummy; };
#define VERIF_CFG(NAME, TYPE, GUARD, CHK, TAG) struct NAME { typedef TYPE I; typedef I::base_type T; typedef GUARD guard; static const char* chk() { return CHK; } static const char* tag() { return TAG; } }
template<class T> struct Pol {
  typedef il::save_state<il::rounded_arith_std<T> > Std; typedef il::save_state<il::rounded_arith_opp<T> > Opp;
  typedef il::save_state<il::rounded_transc_std<T, il::rounded_arith_std<T> > > TStd; typedef il::save_state<il::rounded_transc_opp<T, il::rounded_arith_opp<T> > > TOpp;
  typedef il::save_state_nothing<il::rounded_arith_exact<T> > Exact;
  typedef il::save_state_nothing<il::rounded_transc_exact<T, il::rounded_arith_exact<T> > > TExact;
};
template<class T> struct ChkBase { typedef il::checking_base<T> type; static const char* s() { return "base"; } static const bool e = true; static const int nan = 0; };
template<class T> struct ChkNe { typedef il::checking_no_empty<T> type; static const char* s() { return "ne"; } static const bool e = false; static const int nan = 0; };
template<class T> struct ChkNn { typedef il::checking_no_nan<T> type; static const char* s() { return "nn"; } static const bool e = true; static const int nan = 1; };
template<class T> struct ChkCn { typedef il::checking_catch_nan<T> type; static const char* s() { return "cn"; } static const bool e = true; static const int nan = 2; };
template<class T> struct ChkSt { typedef il::checking_strict<T> type; static const char* s() { return "st"; } static const bool e = false; static const int nan = 1; };
template<class T> struct ChkCne { typedef il::checking_catch_nan<T, il::checking_no_empty<T> > type; static const char* s() { return "cne"; } static const bool e = false; static const int nan = 2; };
// exceptions of the user's own, and the wrappers nested the other way round: the same policies
struct ThrowEmpty { void operator()() { throw UserEmpty(); } }; struct ThrowNaN { void operator()() { throw UserNaN(); } };
template<class T> struct ChkNeU { typedef il::checking_no_empty<T, il::checking_base<T>, ThrowEmpty> type; static const char* s() { return "ne"; } static const bool e = false, user = true; static const int nan = 0; };
template<class T> struct ChkCnU { typedef il::checking_catch_nan<T, il::checking_base<T>, ThrowNaN> type; static const char* s() { return "cn"; } static const bool e = true, user = true; static const int nan = 2; };
template<class T> struct ChkCneU { typedef il::checking_catch_nan<T, il::checking_no_empty<T, il::checking_base<T>, ThrowEmpty>, ThrowNaN> type; static const char* s() { return "cne"; } static const bool e = false, user = true; static const int nan = 2; };
template<class T> struct ChkNec { typedef il::checking_no_empty<T, il::checking_catch_nan<T> > type; static const char* s() { return "cne"; } static const bool e = false; static const int nan = 2; };
template<class T> struct ChkNst { typedef il::checking_no_empty<T, il::checking_no_nan<T> > type; static const char* s() { return "st"; } static const bool e = false; static const int nan = 1; };
template<class C> auto is_user(int) -> decltype(C::user) { return C::user; } template<class C> bool is_user(long) { return false; }
struct TagStd { static const char* s() { return "std"; } }; struct TagOpp { static const char* s() { return "opp"; } };
struct TagStdU { static const char* s() { return "std.unprot"; } }; struct TagOppU { static const char* s() { return "opp.unprot"; } };
struct TagExact { static const char* s() { return "exact"; } }; struct TagDef { static const char* s() { return "default"; } };
template<class T_, class R, class C, class TG, class G = NoGuard> struct Cfg {
  typedef T_ T; typedef bn::interval<T, il::policies<R, typename C::type> > I; typedef G guard; typedef R rounding;
  static std::string chk() { return C::s(); } static std::string tag() { return TG::s(); }
  static const bool admits = C::e; static const int nanmode = C::nan; static bool user() { return is_user<C>(0); } };
template<class T_> struct CfgDefault { // the type a user gets by writing interval<T>
  typedef T_ T; typedef bn::interval<T> I; typedef NoGuard guard; typedef typename I::traits_type::rounding rounding;
  static std::string chk() { return "st"; } static std::string tag() { return "default"; } static const bool admits = false; static const int nanmode = 1; static bool user() { return false; } };
template<class... C> struct L {};
template<class T, class C> using CStd = Cfg<T, typename Pol<T>::Std, C, TagStd>;
template<class T, class C> using COpp = Cfg<T, typename Pol<T>::Opp, C, TagOpp>;
template<class T, class C> using CStdU = Cfg<T, typename Pol<T>::Std::unprotected_rounding, C, TagStdU, typename Pol<T>::Std>;
template<class T, class C> using COppU = Cfg<T, typename Pol<T>::Opp::unprotected_rounding, C, TagOppU, typename Pol<T>::Opp>;
template<class T, class C> using CExact = Cfg<T, typename Pol<T>::Exact, C, TagExact>;
template<class T> using RoundingCfgs = L<CStd<T, ChkBase<T> >, COpp<T, ChkBase<T> >, CStdU<T, ChkBase<T> >, COppU<T, ChkBase<T> > >;
template<class T> using HwCfgs = L<CfgDefault<T>, COpp<T, ChkBase<T> >, CStd<T, ChkBase<T> >, COppU<T, ChkBase<T> > >;
template<class T> using CheckCfgs = L<COpp<T, ChkBase<T> >, COpp<T, ChkNe<T> >, COpp<T, ChkNn<T> >, COpp<T, ChkCn<T> >, COpp<T, ChkSt<T> >, COpp<T, ChkCne<T> > >;
template<class T> using UserCfgs = L<COpp<T, ChkNeU<T> >, COpp<T, ChkCnU<T> >, COpp<T, ChkCneU<T> >, COpp<T, ChkNec<T> >, COpp<T, ChkNst<T> > >;

// ------------------------------------------------------------- operands
template<class T> struct Arg { int k = 1; T lo = T(0), hi = T(0); // 0 empty, 1 number, 2 interval
  static Arg E() { Arg a; a.k = 0; a.lo = a.hi = T(0); return a; }
  static Arg N(T v) { Arg a; a.k = 1; a.lo = a.hi = v; return a; }
  static Arg V(T l, T u) { Arg a; a.k = 2; a.lo = l; a.hi = u; return a; }
  bool isnan() const { return k == 1 && !(lo == lo); }
  std::string str() const { return k == 0 ? "[]" : k == 1 ? "[" + num(lo) + "]" : iv(lo, hi); } };
template<class I, class T> I mk(const Arg<T>& a) { return a.k == 0 ? I::empty() : I(a.lo, a.hi); }

// Run f under every configuration of the list; write one record per distinct (checking, outcome).
template<class T> struct MiniLike { static const bool v = false; }; template<int P, int A, int B> struct MiniLike<Mini<P, A, B> > { static const bool v = true; };
struct Group { std::vector<std::string> seen; };
template<class C, class T, class F> void run1(C c, Group& g, const std::string& op, const std::string& in, const Arg<T>* as, int n, F& f) {
  for (int i = 0; i < n; i++) if (as[i].k == 0 && !C::admits) return;
  for (int i = 0; i < n; i++) if (as[i].isnan() && C::nanmode == 1) return;
  // an unprotected operation of the std policy must not rely on the mode its predecessor left
  for (int stale = 0; stale < (std::is_same<typename C::guard, typename Pol<typename C::T>::Std>::value && !std::is_same<typename C::guard, NoGuard>::value ? 3 : 1); stale++) {
    static unsigned turn = 0; // the ambient mode must not matter, whatever the policy sets itself
    if (C::tag() != "exact" && (std::is_floating_point<T>::value || MiniLike<T>::v)) { static const int am[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; int q = (int)((turn = turn * 1664525u + 1013904223u) >> 30); std::fesetround(am[q]); MiniEnv::mode = q == 0 ? M_NEAR : q == 1 ? M_UP : q == 2 ? M_DOWN : M_ZERO; }
    else { std::fesetround(FE_TONEAREST); MiniEnv::mode = M_NEAR; }
    std::string out = capture([&]() -> std::string { typename C::guard gd; (void)&gd; if (stale) { std::fesetround(stale == 1 ? FE_DOWNWARD : FE_UPWARD); MiniEnv::mode = stale == 1 ? M_DOWN : M_UP; } return f(c); });
    std::fesetround(FE_TONEAREST); MiniEnv::mode = M_NEAR;
    out = own_exception(out, C::user());
    std::string key = C::chk() + "|" + out; bool dup = false;
    for (auto& s : g.seen) if (s == key) dup = true;
    if (!dup) { g.seen.push_back(key); sink.rec(op, FmtName<T>::s(), C::chk(), C::tag(), in, out); } }
}
template<class... C, class T, class F> void run_all(L<C...>, const std::string& op, const std::string& extra, std::initializer_list<Arg<T> > as, F f) {
  std::string in; for (auto& a : as) { if (!in.empty()) in += ","; in += a.str(); } in += extra;
  Group g; int dummy[] = {0, (run1<C, T, F>(C(), g, op, in, as.begin(), (int)as.size(), f), 0)...}; (void)dummy;
}
#define IT(c) typename decltype(c)::I
// operands that denote the same: also given as one and the same object (al), or as a reference to a bound
template<class T> bool same(const Arg<T>& x, const Arg<T>& y) { return x.k == y.k && (x.k == 0 || (x.lo == y.lo && x.hi == y.hi)); }
#define ALIAS(cond) for (int al = 0, al_n = (cond) ? 2 : 1; al < al_n; al++)
#define BOUND(X, v) ((X).lower() == (v) ? (X).lower() : (X).upper())

// ----------------------------------------------------------------- pools
template<class T> struct Pool { std::vector<T> nums; std::vector<Arg<T> > ivs; };
template<int P, int A, int B> std::vector<Mini<P, A, B> > mini_values(bool inf) {
  std::vector<Mini<P, A, B> > r; std::set<double> s; s.insert(0);
  for (int q = A; q <= B; q++) for (long m = 1; m < (1L << P); m++) { s.insert(std::ldexp((double)m, q)); s.insert(-std::ldexp((double)m, q)); }
  if (inf) { s.insert(INFINITY); s.insert(-INFINITY); }
  for (double d : s) r.push_back(Mini<P, A, B>::raw(d)); return r; }
template<class M> Pool<M> mini_pool() { // every interval of the format (ends may be infinite, but not both equal infinities)
  Pool<M> p; p.nums = M::values(); return p; }
template<class T> void all_intervals(const std::vector<T>& vs, std::vector<Arg<T> >& out) {
  T inf = std::numeric_limits<T>::infinity();
  for (size_t i = 0; i < vs.size(); i++) for (size_t j = i; j < vs.size(); j++) { if (i == j && (vs[i] == inf || vs[i] == -inf)) continue; out.push_back(Arg<T>::V(vs[i], vs[j])); } }
template<class M> struct MiniPool; 
template<int P, int A, int B> struct MiniPool<Mini<P, A, B> > { static Pool<Mini<P, A, B> > get() { Pool<Mini<P, A, B> > p; auto v = mini_values<P, A, B>(true); all_intervals(v, p.ivs); p.nums = mini_values<P, A, B>(false); return p; } };
struct Rng { std::mt19937_64 g; explicit Rng(unsigned long s) : g(s) {} uint64_t u() { return g(); } uint64_t below(uint64_t n) { return g() % n; } bool one(int n) { return below(n) == 0; } };
// random / edge-biased numbers of the hardware types (built in round-to-nearest)
template<class T> T hw_num(Rng& r, bool inf = false) {
  typedef std::numeric_limits<T> nl;
  static const T edge[] = { T(0), T(0), T(1), T(2), T(3), T(0.5), T(0.1L), T(1) / T(3), T(10), T(7), nl::max(), nl::max() / 2, nl::min(), nl::min() / 2, nl::denorm_min(), 3 * nl::denorm_min(),
    T(1) + nl::epsilon(), T(1) - nl::epsilon() / 2, std::sqrt(nl::max()), std::sqrt(nl::min()), T(1) / nl::epsilon(), T(2) / nl::epsilon() + 2, T(1e10L), T(1e-10L), nl::max() / 3, T(1) / nl::max(), T(-0.0L) };
  T v;
  switch (r.below(6)) {
    case 0: case 1: v = edge[r.below(sizeof edge / sizeof *edge)]; if (r.one(3)) v = std::nextafter(v, r.one(2) ? nl::infinity() : -nl::infinity()); break;
    case 2: v = T((long)r.below(41) - 20); break;
    case 3: { v = std::ldexp(T((long double)(r.u() >> 1)), (int)r.below(nl::max_exponent - nl::min_exponent + nl::digits + 20) + nl::min_exponent - nl::digits - 66); break; }
    case 4: v = std::ldexp(T((long double)(r.u() >> 11)), (int)r.below(8) - 55); break;
    default: v = T((long)r.below(2001) - 1000) / T(8);
  }
  if (!(v - v == 0)) v = nl::max();
  if (r.one(2)) v = -v;
  if (inf && r.one(12)) v = r.one(2) ? nl::infinity() : -nl::infinity();
  return v; }
template<class T> Arg<T> hw_iv(Rng& r, bool inf = true) {
  for (;;) { T a = hw_num<T>(r, inf), b; switch (r.below(5)) { case 0: b = a; break; case 1: b = std::nextafter(a, std::numeric_limits<T>::infinity()); break; case 2: b = -a; break; default: b = hw_num<T>(r, inf); }
    if (b < a) std::swap(a, b); if (a == b && !(a - a == 0)) continue; if (!inf && (!(a - a == 0) || !(b - b == 0))) continue; return Arg<T>::V(a, b); } }

int prop_main();
#ifdef VERIF_MAIN
int main(int argc, char** argv) { // prop out seed tier
  if (argc < 5) return 3;
  g_prop = argv[1]; sink.open(argv[2]); g_seed = strtoul(argv[3], 0, 10); g_thorough = !strcmp(argv[4], "thorough");
  install_guards(); int rc = prop_main(); sink.close(); fprintf(stderr, "records %lu calls %lu\n", sink.n, (unsigned long)g_calls); return rc; }
#endif
typedef Mini<2, -1, 1> M2; typedef Mini<3, -2, 1> M3; typedef Mini<4, -3, 2> M4; typedef Mini<8, -10, 4> M8;
#endif
