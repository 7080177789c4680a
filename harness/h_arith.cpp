#define VERIF_MAIN
#include "common.hpp"
using namespace boost::numeric;
template<class T, class CS> void bin(CS cs, const Arg<T>& x, const Arg<T>& y, bool divonly, bool nn) {
  typedef Arg<T> A;
#define OP(name, sym) \
  ALIAS(same(x, y)) run_all(cs, name ".ii", "", {x, y}, [&](auto c) { typedef IT(c) I; I X = mk<I>(x), Y = mk<I>(y); return show(X sym (al ? X : Y)); });
#define OPN(name, sym) \
  ALIAS(x.lo == y.lo || x.lo == y.hi) run_all(cs, name ".ni", "", {A::N(x.lo), y}, [&](auto c) { typedef IT(c) I; I Y = mk<I>(y); return show((al ? BOUND(Y, x.lo) : x.lo) sym Y); });
#define OPM(name, sym) \
  ALIAS(y.lo == x.lo || y.lo == x.hi) run_all(cs, name ".in", "", {x, A::N(y.lo)}, [&](auto c) { typedef IT(c) I; I X = mk<I>(x); return show(X sym (al ? BOUND(X, y.lo) : y.lo)); });
#define FN(name) \
  ALIAS(x.lo == y.lo) run_all(cs, #name ".nn", "", {A::N(x.lo), A::N(y.lo)}, [&](auto c) { typedef IT(c) I; return show(il::name<I>(x.lo, al ? x.lo : y.lo)); });
  bool sx = x.lo == x.hi, sy = y.lo == y.hi;
  if (!divonly) { OP("add", +) OP("sub", -) OP("mul", *) } OP("div", /)
  if (sx) { if (!divonly) { OPN("add", +) OPN("sub", -) OPN("mul", *) } OPN("div", /) }
  if (sy) { if (!divonly) { OPM("add", +) OPM("sub", -) OPM("mul", *) } OPM("div", /) }
  if (sx && sy && nn) { if (!divonly) { FN(add) FN(sub) FN(mul) } FN(div) }
}
template<class T, class CS> void un(CS cs, const Arg<T>& x) {
  run_all(cs, "neg.i", "", {x}, [&](auto c) { typedef IT(c) I; return show(-mk<I>(x)); });
  run_all(cs, "pos.i", "", {x}, [&](auto c) { typedef IT(c) I; return show(+mk<I>(x)); });
}
template<class T> bool hasz(const Arg<T>& y) { return y.lo <= T(0) && y.hi >= T(0); }
template<class T, class CS> void divz(CS cs, const Arg<T>& x, const Arg<T>& y) {
  bin<T>(cs, x, y, true, true);
  if (x.lo == T(1) && x.hi == T(1)) run_all(cs, "inv.i", "", {y}, [&](auto c) { typedef IT(c) I; return show(il::multiplicative_inverse(mk<I>(y))); });
  ALIAS(same(x, y)) run_all(cs, "dparts.ii", "", {x, y}, [&](auto c) { typedef IT(c) I; bool b; I X = mk<I>(x), Y_ = mk<I>(y); const I& Y = al ? X : Y_; I p = il::division_part1(X, Y, b);
    std::string s = std::string("D,") + (b ? "T," : "F,") + ivt(p); if (b) s += "," + ivt(il::division_part2(X, Y, b)) + "," + ivt(il::division_part2(X, Y)); return s; });
  run_all(cs, "dpart2f.ii", "", {x, y}, [&](auto c) { typedef IT(c) I; return show(il::division_part2(mk<I>(x), mk<I>(y), false)); });
}
template<class T, class CS> void exhaust(CS cs, const Pool<T>& p) {
  if (g_prop == "C03") { for (auto& y : p.ivs) if (hasz(y)) for (auto& x : p.ivs) divz<T>(cs, x, y);
    for (auto& y : p.ivs) if (!hasz(y)) { for (auto& x : p.ivs) if (x.lo == T(1) || (x.lo == T(-1) && x.hi == T(2))) divz<T>(cs, x, y); }
    return; }
  for (auto& x : p.ivs) { un<T>(cs, x); for (auto& y : p.ivs) bin<T>(cs, x, y, false, true); }
}
template<class T, class CS> void sample(CS cs, int n, bool inf) {
  Rng r(g_seed * 1000003 + sizeof(T)); 
  for (int i = 0; i < n; i++) {
    Arg<T> x = hw_iv<T>(r, inf), y = hw_iv<T>(r, inf);
    if (g_prop == "C03") { if (!hasz(y)) { switch (r.below(3)) { case 0: if (y.lo > T(0)) y.lo = T(0); else y.hi = T(0); break; case 1: if (y.lo > T(0)) y.lo = -y.lo; else y.hi = -y.hi; break; default:; } }
      divz<T>(cs, x, y); if (i % 16 == 0) { Arg<T> one = Arg<T>::V(T(1), T(1)); divz<T>(cs, one, y); } }
    else { un<T>(cs, x); bin<T>(cs, x, y, false, true); } }
}
template<class T> void exact_pool(Pool<T>& p, int lo, int hi) { for (int i = lo; i <= hi; i++) { p.nums.push_back(T(i)); for (int j = i; j <= hi; j++) p.ivs.push_back(Arg<T>::V(T(i), T(j))); } }
template<class CS> void exact_int(CS cs) { // interval<int>: + - * only
  typedef int T; Pool<T> p; exact_pool(p, -3, 4); p.ivs.push_back(Arg<T>::V(-20000, 30000)); p.ivs.push_back(Arg<T>::V(-45000, -40000)); p.ivs.push_back(Arg<T>::V(10007, 10007));
  typedef Arg<T> A;
  for (auto& x : p.ivs) { un<T>(cs, x); for (auto& y : p.ivs) { OP("add", +) OP("sub", -) OP("mul", *) if (x.lo == x.hi) { OPN("add", +) OPN("sub", -) OPN("mul", *) } if (y.lo == y.hi) { OPM("add", +) OPM("sub", -) OPM("mul", *) } 
    if (x.lo == x.hi && y.lo == y.hi) { FN(add) FN(sub) FN(mul) } } }
}
template<class CS> void exact_rat(CS cs) {
  typedef Rat T; std::vector<Rat> v; for (int n = -4; n <= 4; n++) v.push_back(Rat(n)); v.push_back(Rat(1, 3)); v.push_back(Rat(-2, 3)); v.push_back(Rat(7, 2)); v.push_back(Rat(-5, 7)); std::sort(v.begin(), v.end());
  Pool<T> p; for (size_t i = 0; i < v.size(); i++) for (size_t j = i; j < v.size(); j++) p.ivs.push_back(Arg<T>::V(v[i], v[j]));
  for (auto& x : p.ivs) { un<T>(cs, x); for (auto& y : p.ivs) { if (!(y.lo <= Rat(0) && y.hi >= Rat(0))) bin<T>(cs, x, y, false, true); else { typedef Arg<T> A; OP("add", +) OP("sub", -) OP("mul", *) if (x.lo == x.hi) { OPN("add", +) OPN("sub", -) OPN("mul", *) } if (y.lo == y.hi) { OPM("add", +) OPM("sub", -) OPM("mul", *) } } } }
}
int prop_main() {
  SOFT({ auto p = MiniPool<M2>::get(); exhaust<M2>(RoundingCfgs<M2>(), p); if (g_prop == "C03") exhaust<M2>(CheckCfgs<M2>(), p); }
  { Rng r(g_seed); auto p = MiniPool<M3>::get(); int n = g_thorough ? 60000 : 6000;
    for (int i = 0; i < n; i++) { auto& x = p.ivs[r.below(p.ivs.size())]; auto& y = p.ivs[r.below(p.ivs.size())]; if (g_prop == "C03") { if (hasz(y)) divz<M3>(RoundingCfgs<M3>(), x, y); } else bin<M3>(RoundingCfgs<M3>(), x, y, false, true); } })
  int n = g_thorough ? 30000 : 3000;
  sample<float>(HwCfgs<float>(), n, true); sample<double>(HwCfgs<double>(), n, true); sample<long double>(HwCfgs<long double>(), n, true);
  SOFT(if (g_prop != "C03") { exact_int(L<CExact<int, ChkBase<int> >, CfgDefault<int> >()); exact_rat(L<CExact<Rat, ChkBase<Rat> >, CfgDefault<Rat> >()); })
  return 0;
}
