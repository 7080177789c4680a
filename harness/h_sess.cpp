// C22: programs over interval variables (behaviours of IntervalMachine), run by the real code
#define VERIF_MAIN
#include "common.hpp"
using namespace boost::numeric;
#include "calls.hpp"
#include <fstream>
#include <sstream>
static const int R = 4;
template<class T> struct Narrow { typedef T N; };
template<> struct Narrow<double> { typedef float N; }; template<> struct Narrow<long double> { typedef double N; };
template<class T> T parse(const std::string& s) { if (s == "0") return T(0); if (s == "+oo") return std::numeric_limits<T>::infinity(); if (s == "-oo") return -std::numeric_limits<T>::infinity();
  size_t p = s.find('p'); long m = strtol(s.substr(0, p).c_str(), 0, 16); int e = atoi(s.c_str() + p + 1); return T(std::ldexp((double)m, e)); }
inline double dbl(float x) { return x; } inline double dbl(double x) { return x; } inline long double dbl(long double x) { return x; } template<int P, int A, int B> double dbl(Mini<P, A, B> x) { return x.v; }
// interval-valued operations: the target becomes the value of the expression
#define FN(f) {#f ".i", [](I& D, const I& X, const I& Y, const T& x, int n) -> I { return f(X); }},
template<class I> struct Table { typedef typename I::base_type T; typedef I (*F)(I& D, const I& X, const I& Y, const T& x, int n); struct E { const char* nm; F f; };
  static const std::vector<E>& get() { BOOST_USING_STD_MIN(); BOOST_USING_STD_MAX();
#define V(nm, ex) {nm, [](I& D, const I& X, const I& Y, const T& x, int n) -> I { BOOST_USING_STD_MIN(); BOOST_USING_STD_MAX(); return ex; }},
#define AR(nm, op) V(nm ".ii", X op Y) V(nm ".in", X op x) V(nm ".ni", x op X)
    static const std::vector<E> t = { V("neg.i", -X) V("pos.i", +X) V("abs.i", abs(X)) V("square.i", square(X)) V("inv.i", il::multiplicative_inverse(X)) V("sqrt.i", sqrt(X)) V("pow.iz", pow(X, n)) V("root.ik", nth_root(X, n))
      AR("add", +) AR("sub", -) AR("mul", *) AR("div", /) V("min.ii", min(X, Y)) V("max.ii", max(X, Y)) V("min.in", min(X, x)) V("max.ni", max(x, X)) V("hull.ii", hull(X, Y)) V("hull.in", hull(X, x)) V("hull.ni", hull(x, X)) V("intersect.ii", intersect(X, Y)) V("widen.in", widen(X, x)) V("fmod.ii", fmod(X, Y)) V("fmod.in", fmod(X, x))
      FN(exp) FN(log) FN(sin) FN(cos) FN(tan) FN(asin) FN(acos) FN(atan) FN(sinh) FN(cosh) FN(tanh) FN(asinh) FN(acosh) FN(atanh) };
    return t; } };
template<class I> std::string observe(const std::string& nm, const I& X, const I& Y, const typename I::base_type& x) {
#define OB(s, ex) if (nm == s) return show(ex);
  OB("lt.ii", X < Y) OB("le.ii", X <= Y) OB("gt.ii", X > Y) OB("ge.ii", X >= Y) OB("eq.ii", X == Y) OB("ne.ii", X != Y) OB("in.ni", in(x, X)) OB("subset.ii", subset(X, Y)) OB("proper_subset.ii", proper_subset(X, Y)) OB("overlap.ii", overlap(X, Y)) OB("equal.ii", equal(X, Y)) OB("zero_in.i", zero_in(X)) OB("singleton.i", singleton(X)) OB("empty.i", empty(X)) OB("width.i", width(X)) OB("median.i", median(X)) OB("norm.i", norm(X)) OB("dparts.ii", dparts(X, Y))
  return ""; }
template<class C> struct Session { typedef typename C::I I; typedef typename C::T T; typedef std::numeric_limits<T> nl; I r[R]; 
  static bool fin(const T& v) { return v - v == T(0); }
  static bool bounded(const I& x) { return !empty(x) && fin(x.lower()) && fin(x.upper()); }
  static bool bad(const I& x) { return !bounded(x); }
  void rec(const std::string& op, int d, int a, int b, int n, const std::string& args, const std::string& o) { static const char* how[] = {"L", "U", "M"}; sink.rec(op, FmtName<T>::s(), C::chk(), how[(sink.n / 2) % 3], "#" + std::to_string(d) + ",#" + std::to_string(a) + ",#" + std::to_string(b) + ",#" + std::to_string(n) + (args.empty() ? "" : "," + args), o); }
  void regs() { std::string s; for (int i = 0; i < R; i++) s += (i ? "," : "") + ivt(r[i]); sink.rec("regs.s", FmtName<T>::s(), C::chk(), "", s, ""); }
  static T number(const I& y, char k) { T v = T(2); if (!empty(y)) { if (k == 'l') v = y.lower(); if (k == 'u') v = y.upper(); if (k == 'm') v = bounded(y) ? median(y) : T(1); } if (!fin(v)) v = T(3); return v; }
  // outside the properties: quotients that overflow, one-point operands at the poles, the C library's own inaccuracy on narrow operands
  static bool skip(const std::string& op, const I& X, const I& Y, const T& x, bool number) {
    if (op == "fmod") return number ? !(x > T(0)) : empty(Y) || !(Y.lower() > T(0));
    if (op == "median" || op == "bisect") return !empty(X) && !bounded(X);
    if (op == "width") return false;
    if (op == "atanh" && !empty(X)) { I c = X; if (X.lower() == T(1) || X.upper() == T(-1)) return true; }
    return false; }
  void command(const std::string& cmd) { std::vector<std::string> w; { std::stringstream s(cmd); std::string x; while (std::getline(s, x, ':')) w.push_back(x); }
    calm(); std::string full = w[0]; int d = atoi(w[1].c_str()) - 1; std::string op = full.substr(0, full.find('.')), form = full.find('.') == std::string::npos ? "" : full.substr(full.find('.') + 1);
    if (op == "load" || op == "rand") { T l, u; if (op == "load") { l = parse<T>(w[2]); u = parse<T>(w[3]); } else { Rng q(g_seed * 1000003 + atoi(w[2].c_str())); Arg<T> v; if constexpr (HasTrans<T>::soft) { static auto p = MiniPool<T>::get().ivs; v = p[q.below(p.size())]; } else v = hw_iv<T>(q); l = v.lo; u = v.hi; }
      std::string o = capture([&]() { typename C::guard g; (void)&g; r[d] = I(l, u); return show(r[d]); }); calm(); rec("load.s", d + 1, 0, 0, 0, iv(l, u), o); return; }
    int a = atoi(w[2].c_str()) - 1, b = atoi(w[3].c_str()) - 1; char k = w[4][0]; int n = atoi(w[5].c_str()); if (op == "root") { n = n < 1 ? 2 : n; } 
    I& D = r[d]; const I& X = r[a]; const I& Y = r[b]; bool cmpd = form[0] == 'c' && form.size() > 1; bool num_ = form.find('n') != std::string::npos;
    T x = number(Y, k); if (op == "widen" && x < T(0)) x = -x;
    if (op == "put") {
      std::string args, o; std::string f = form;
      if (f == "i") { args = ivt(X); o = capture([&]() { D = X; return show(D); }); }
      else if (f == "n") { args = "[" + num(x) + "]"; o = capture([&]() { D = x; return show(D); }); }
      else if (f == "v") { T l = number(X, 'l'), u = number(Y, 'u'); args = iv(l, u); o = capture([&]() { D = I(l, u); return show(D); }); }
      else if (f == "a") { if (!bounded(X) || !bounded(Y)) return; args = iv(X.lower(), Y.upper()); o = capture([&]() { D.assign(X.lower(), Y.upper()); return show(D); }); }
      else { typedef typename Narrow<T>::N N; if (std::is_same<N, T>::value) return; typedef bn::interval<N, il::policies<typename Pol<N>::Opp, typename C::template Chk<N>::type> > IN; if constexpr (std::is_floating_point<T>::value) { std::string fm = FmtName<N>::s(); args = ivt(X); if (empty(X)) return;
          o = capture([&]() { IN z(X); D = I(z); return show(D); }); calm(); sink.rec("put.c", fm, C::chk(), "M", "#" + std::to_string(d + 1) + ",#" + std::to_string(a + 1) + ",#0,#0," + args, o); } return; }
      calm(); rec("put." + f, d + 1, a + 1, b + 1, 0, args, o); return; }
    if (op == "bisect") { if (skip(op, X, Y, x, false)) return; std::string args = ivt(X), o = capture([&]() -> std::string { typename C::guard g; (void)&g; std::pair<I, I> p = bisect(X); std::string s = show(p); D = form == "1" ? p.first : p.second; return s; }); calm(); rec(full, d + 1, a + 1, b + 1, 0, args, o); return; }
    if (cmpd) { if (form == "cin") x = number(Y, k); std::string args = ivt(D) + "," + (num_ ? "[" + num(x) + "]" : ivt(Y)), o;
      bool alias = k == 'l' || k == 'u'; // the number is a reference to the bound itself
      const T& ref = alias && !empty(Y) && fin(k == 'l' ? Y.lower() : Y.upper()) ? (k == 'l' ? Y.lower() : Y.upper()) : x;
      o = capture([&]() -> std::string { typename C::guard g; (void)&g; if (num_) { if (op == "add") D += ref; else if (op == "sub") D -= ref; else if (op == "mul") D *= ref; else D /= ref; } else { if (op == "add") D += Y; else if (op == "sub") D -= Y; else if (op == "mul") D *= Y; else D /= Y; } return show(D); });
      calm(); rec(full, d + 1, d + 1, b + 1, n, args, o); return; }
    if (skip(op, X, Y, x, num_)) return;
    std::string args = form == "ni" ? "[" + num(x) + "]," + ivt(X) : form == "in" ? ivt(X) + ",[" + num(x) + "]" : form == "ii" ? ivt(X) + "," + ivt(Y) : ivt(X);
    int s1 = form == "ni" ? 0 : a + 1, s2 = form == "ni" ? a + 1 : b + 1;
    for (auto& e : Table<I>::get()) if (full == e.nm) { std::string o = capture([&]() -> std::string { typename C::guard g; (void)&g; D = e.f(D, X, Y, x, n); return show(D); }); calm(); rec(full, d + 1, s1, s2, n, args, o); return; }
    std::string o = capture([&]() -> std::string { typename C::guard g; (void)&g; return observe(full, X, Y, x); }); calm(); if (o.empty()) { fprintf(stderr, "unknown operation %s\n", full.c_str()); exit(4); }
    rec(full, 0, s1, s2, n, args, o); }
  void run(const std::string& line) { fprintf(sink.f, "%%\n"); for (auto& x : r) x = I(T(0)); sink.rec("start.s", FmtName<T>::s(), C::chk(), C::tag(), "", ""); std::stringstream s(line); std::string c; int i = 0; while (s >> c) { command(c); if (++i % 4 == 0) regs(); } regs(); } };
template<class T_, class R_, template<class> class C_, class TG, class G = NoGuard> struct SC : Cfg<T_, R_, C_<T_>, TG, G> { template<class N> using Chk = C_<N>; };
template<class T> void sessions(const std::vector<std::string>& b, int from, int step) { typedef Pol<T> P;
  for (size_t i = from; i < b.size(); i += step) switch ((i / step) % 6) {
    case 0: { Session<SC<T, typename P::TOpp, ChkBase, TagOpp> > s; s.run(b[i]); break; } case 1: { Session<SC<T, typename P::TStd, ChkBase, TagStd> > s; s.run(b[i]); break; }
    case 2: { Session<SC<T, typename P::TOpp::unprotected_rounding, ChkBase, TagOppU, typename P::TOpp> > s; s.run(b[i]); break; } case 3: { Session<SC<T, typename P::TOpp, ChkSt, TagOpp> > s; s.run(b[i]); break; }
    case 4: { Session<SC<T, typename P::TStd::unprotected_rounding, ChkNe, TagStdU, typename P::TStd> > s; s.run(b[i]); break; } default: { Session<SC<T, typename P::TOpp, ChkCn, TagOpp> > s; s.run(b[i]); } } }
int prop_main() {
  std::vector<std::string> b; { std::ifstream f(getenv("VERIF_CMDS")); std::string l; while (std::getline(f, l)) if (!l.empty()) b.push_back(l); }
  int st = g_thorough ? 1 : 2; SOFT(sessions<M4>(b, 0, st);) sessions<double>(b, 0, st); sessions<float>(b, st - 1, st * 2); sessions<long double>(b, 0, st * 2); return 0; }
