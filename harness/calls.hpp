// Calls of the catalogue with operands drawn from pools.
#ifndef VERIF_CALLS_HPP
#define VERIF_CALLS_HPP
#include "ops.hpp"
template<class T, class C> using CT = Cfg<T, typename Pol<T>::TOpp, C, TagOpp>;
template<class T, class C> using CS = Cfg<T, typename Pol<T>::TStd, C, TagStd>;
template<class T, class C> using CTU = Cfg<T, typename Pol<T>::TOpp::unprotected_rounding, C, TagOppU, typename Pol<T>::TOpp>;
template<class T, class C> using CSU = Cfg<T, typename Pol<T>::TStd::unprotected_rounding, C, TagStdU, typename Pol<T>::TStd>;
template<class T> struct HasTrans { static const bool v = true; static const bool soft = false; };
template<> struct HasTrans<M2> { static const bool v = false, soft = true; }; template<> struct HasTrans<M4> { static const bool v = true, soft = true; };
// the ambient mode of a type
template<class T> struct Amb { static void set(char m) { fesetround(m == 'U' ? FE_UPWARD : m == 'D' ? FE_DOWNWARD : m == 'Z' ? FE_TOWARDZERO : FE_TONEAREST); }
  static std::string get() { int c = fegetround(); unsigned mx; __asm__ __volatile__("stmxcsr %0" : "=m"(mx)); unsigned rc = (mx >> 13) & 3; static const int f[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO}; static const char* n[] = {"N", "D", "U", "Z"};
    unsigned short cw; __asm__ __volatile__("fnstcw %0" : "=m"(cw)); if (((cw >> 10) & 3u) != rc || f[rc] != c) return "?"; return n[rc]; } };
template<int P, int A, int B> struct Amb<Mini<P, A, B> > { static void set(char m) { MiniEnv::mode = m == 'U' ? M_UP : m == 'D' ? M_DOWN : m == 'Z' ? M_ZERO : M_NEAR; }
  static std::string get() { return std::string(1, "NDUZ?"[MiniEnv::mode < 0 || MiniEnv::mode > 3 ? 4 : MiniEnv::mode]); } };
inline void calm() { std::fesetround(FE_TONEAREST); MiniEnv::mode = M_NEAR; MiniEnv::fuse = 0; }
inline std::string nest(std::string s) { for (auto& c : s) ; std::string r = "["; int d = 0; for (char c : s) { if (c == '[') ++d; if (c == ']') --d; r += (c == ',' && d == 0) ? ';' : c; } return r + "]"; }
template<class T> std::vector<Arg<T> > mode_pool(); // numbers, intervals, and bad operands
template<class T> void base_pool(std::vector<Arg<T> >& p) { typedef Arg<T> A; T inf = std::numeric_limits<T>::infinity(); p.push_back(A::E()); p.push_back(A::N(std::numeric_limits<T>::quiet_NaN()));
  for (double d : {0., 1., -1., 2., .5, -6.}) p.push_back(A::N(T(d))); double v[][2] = {{0, 0}, {1, 1}, {1, 2}, {-1, 1}, {-2, -1}, {0, 2}, {-1, 0}, {.5, 6}, {-6, -2}, {-6, 6}, {2, 3}};
  for (auto& q : v) p.push_back(A::V(T(q[0]), T(q[1]))); p.push_back(A::V(-inf, inf)); p.push_back(A::V(T(1), inf)); p.push_back(A::V(-inf, T(0))); }
template<class T> std::vector<Arg<T> > mk_pool(Rng& r, int n) { std::vector<Arg<T> > p; base_pool<T>(p); if constexpr (!HasTrans<T>::soft) for (int i = 0; i < n; i++) { p.push_back(hw_iv<T>(r)); p.push_back(Arg<T>::N(hw_num<T>(r))); }
  else { auto q = MiniPool<T>::get(); for (int i = 0; i < n; i++) { p.push_back(q.ivs[r.below(q.ivs.size())]); p.push_back(Arg<T>::N(q.nums[r.below(q.nums.size())])); } } return p; }
template<class T> struct Call { int op = 0; Arg<T> a[2] = {Arg<T>::N(T(0)), Arg<T>::N(T(0))}; int n = 0; std::string name() const { return std::string(OPD[op].form) == "id" ? "put." + std::string(OPD[op].name) : std::string(OPD[op].name) + "." + OPD[op].form; }
  std::string in() const { std::string nm = OPD[op].name; if (std::string(OPD[op].form) == "id") return nm == "conv" ? "[" + num(0x1.5555555555555p-2) + "]" : nm == "convi" ? "[" + num(16777217) + "]" : nm == "convu" ? "[" + num(3000000019u) + "]" : nm == "convf" ? "[" + num(.1f) + "]" : nm == "convl" ? "[" + num(.1L) + "]" : nm == "conv2" ? "[" + num(.1f) + ";" + num(.7) + "]" : "[" + num(.1) + "]";
    std::string s; for (int i = 0; i < op_arity(op); i++) s += (i ? "," : "") + a[i].str(); if (nm == "pow" || nm == "root") s += ",#" + std::to_string(n); return s; }
  bool bad(bool admits, int nanmode) const { for (int i = 0; i < op_arity(op); i++) { if (a[i].k == 0 && !admits) return true; if (a[i].isnan() && nanmode == 1) return true; } return false; }
  // outside the properties' claims: infinite exponents of nothing; division of a number that overflows etc. are all inside
  template<class I> std::string run(const Arg<T>& x0, I& X, const I& Y) const { return Eval<HasTrans<T>::v>::f(op, X, Y, a[0].k == 1 ? a[0].lo : T(0), a[1].k == 1 ? a[1].lo : T(0), n); } };
template<class T> bool pick(Rng& r, const std::vector<Arg<T> >& p, int op, Call<T>& c) { c.op = op; std::string nm = OPD[op].name; c.n = nm == "root" ? 1 + (int)r.below(4) : (int)r.below(8) - 3;
  for (int i = 0; i < op_arity(op); i++) { bool number = op_uses(op, 'n', i); for (int t = 0; t < 200; t++) { c.a[i] = p[r.below(p.size())]; if ((c.a[i].k == 1) == number) break; } }
  if (nm == "widen" && c.a[1].k == 1 && c.a[1].lo < T(0)) c.a[1].lo = -c.a[1].lo; // widening
  return true; }
#endif
