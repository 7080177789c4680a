// C04 square, pow   C05 sqrt, nth_root   C21 fmod
#define VERIF_MAIN
#include "common.hpp"
using namespace boost::numeric;
static const std::vector<int> small_n = {-6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 13}, hw_n = {-17, -7, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 15, 16, 23, 31, 64},
  big_n = {-1100, -1023, -257, -100, -65, 41, 63, 65, 100, 127, 128, 129, 255, 512, 777, 1000, 1023, 1024, 1075, 2000}, huge_n = {-2147483647 - 1, -2147483647, -1073741824, 1073741823, 1073741824, 1073741825, 2147483646, 2147483647};
template<class T, class CS> void pw(CS cs, const Arg<T>& x, int n) {
  std::string e = ",#" + std::to_string(n);
  run_all(cs, "pow.i", e, {x}, [&](auto c) { typedef IT(c) I; return show(pow(mk<I>(x), n)); });
  run_all(cs, "powsym.i", e, {x}, [&](auto c) { typedef IT(c) I; I X = mk<I>(x); return show(std::make_pair(pow(X, n), pow(I(-x.hi, -x.lo), n))); });
}
template<class T, class CS> void sq(CS cs, const Arg<T>& x) { run_all(cs, "square.i", "", {x}, [&](auto c) { typedef IT(c) I; return show(square(mk<I>(x))); }); }
template<class T, class CS> void rt(CS cs, const Arg<T>& x, const std::vector<int>& ks) {
  run_all(cs, "sqrt.i", "", {x}, [&](auto c) { typedef IT(c) I; return show(sqrt(mk<I>(x))); });
  for (int k : ks) if (num(T(k)) == num(k)) run_all(cs, "root.i", ",#" + std::to_string(k), {x}, [&](auto c) { typedef IT(c) I; return show(nth_root(mk<I>(x), k)); });
}
template<class T, class CS> void fm(CS cs, const Arg<T>& x, const Arg<T>& y) {
  typedef Arg<T> A;
  ALIAS(same(x, y)) run_all(cs, "fmod.ii", "", {x, y}, [&](auto c) { typedef IT(c) I; I X = mk<I>(x), Y = mk<I>(y); return show(fmod(X, al ? X : Y)); });
  if (x.lo == x.hi) run_all(cs, "fmod.ni", "", {A::N(x.lo), y}, [&](auto c) { typedef IT(c) I; I Y = mk<I>(y); return show(fmod(x.lo == Y.lower() ? Y.lower() : x.lo, Y)); });
  if (y.lo == y.hi) run_all(cs, "fmod.in", "", {x, A::N(y.lo)}, [&](auto c) { typedef IT(c) I; I X = mk<I>(x); return show(fmod(X, y.lo == X.upper() ? X.upper() : y.lo)); });
}
template<class T> bool fin(const Arg<T>& x) { return x.lo - x.lo == T(0) && x.hi - x.hi == T(0); }
template<class M, class CS> void exhaust(CS cs, const std::vector<int>& ns, const std::vector<int>& ks, size_t limit) {
  auto p = MiniPool<M>::get(); Rng r(g_seed); if (p.ivs.size() > limit) std::shuffle(p.ivs.begin(), p.ivs.end(), r.g);
  size_t n = std::min(limit, p.ivs.size());
  for (size_t i = 0; i < n; i++) { auto& x = p.ivs[i];
    if (g_prop == "C04") { sq<M>(cs, x); for (int k : ns) pw<M>(cs, x, k); }
    if (g_prop == "C05") rt<M>(cs, x, ks);
    if (g_prop == "C21" && fin(x)) { if (n == p.ivs.size() && n < 1000) { for (auto& y : p.ivs) if (fin(y) && y.lo > M(0)) fm<M>(cs, x, y); }
      else for (int j = 0; j < 12; j++) { Arg<M> y = p.ivs[r.below(p.ivs.size())]; if (!fin(y)) continue; if (y.lo < M(0)) { y.lo = -y.lo; if (y.hi < M(0)) y.hi = -y.hi; if (y.hi < y.lo) std::swap(y.lo, y.hi); } if (y.lo > M(0)) fm<M>(cs, x, y); } } }
}
template<class T, class CS> void sample(CS cs, int n) {
  Rng r(g_seed * 77 + sizeof(T)); typedef std::numeric_limits<T> nl;
  for (int i = 0; i < n; i++) {
    Arg<T> x = hw_iv<T>(r, g_prop != "C21");
    if (g_prop == "C04") { sq<T>(cs, x); for (int k = 0; k < 5; k++) pw<T>(cs, x, hw_n[r.below(hw_n.size())]); }
    if (g_prop == "C04" && i % 4 == 0) { Arg<T> z = x; if (r.one(2)) { T a = std::ldexp(T((long)r.below(1 << 20)) - T(1 << 19), -20 - (int)r.below(nl::digits - 20)) + T(1), b = r.one(2) ? a : a + std::ldexp(T(1), -(int)r.below(30)); z = r.one(3) ? Arg<T>::V(-b, -a) : r.one(4) ? Arg<T>::V(-a, b) : Arg<T>::V(a, b); } // around one: no overflow
      if (sizeof(T) <= 8 || i % 16 == 0) pw<T>(cs, z, big_n[r.below(big_n.size())]); }
    if (g_prop == "C05") { static const std::vector<int> ks = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 20, 31, 64, 100, 255, 1000}; std::vector<int> kk; for (int k = 0; k < 3; k++) kk.push_back(ks[r.below(ks.size())]); rt<T>(cs, x, kk); }
    if (g_prop == "C21") { Arg<T> y = hw_iv<T>(r, false);
      if (r.one(2)) { T p = std::ldexp(T(1) + T((long)r.below(1 << 20)) / T(1 << 20), (int)r.below(20) - 10); y = Arg<T>::V(p, r.one(2) ? p : p + p * T((long)r.below(100)) / T(100)); T s = T((long)r.below(1000001) - 500000) * p / T(1 + (long)r.below(64)), w = r.one(3) ? T(0) : p * T((long)r.below(100)) / T(7); x = Arg<T>::V(s, s + w); if (r.one(4)) { T k = T((long)r.below(2001) - 1000); x = Arg<T>::V(k * p, k * p + w); } 
        if (r.one(6)) { int e = (int)r.below(nl::digits + 6); T k = std::ldexp(T((long)r.below(1 << 16) + 1), e - 16); if (r.one(2)) k = -k; x = Arg<T>::V(k, k + w); } }
      if (y.lo < T(0)) { y.lo = -y.lo; if (y.hi < T(0)) y.hi = -y.hi; if (y.hi < y.lo) std::swap(y.lo, y.hi); }
      if (y.lo > T(0)) fm<T>(cs, x, y); }
  }
}
template<class T, class CS> void exact(CS cs, const std::vector<T>& v) {
  for (size_t i = 0; i < v.size(); i++) for (size_t j = i; j < v.size(); j++) { Arg<T> x = Arg<T>::V(v[i], v[j]); sq<T>(cs, x); for (int n : {1, 2, 3, 4, 5, 6, 7}) pw<T>(cs, x, n); } }
template<class T> bool grows(const T& x) { return x == T(2) || x == T(-2) || x == T(.5) || x == T(-.5); }
template<class T, class CS> void huge(CS cs) { T inf = std::numeric_limits<T>::infinity(); std::vector<T> v = {-inf, T(-2), T(-1), T(-.5), T(0), T(.5), T(1), T(2), inf};
  for (size_t i = 0; i < v.size(); i++) for (size_t j = i; j < v.size(); j++) if (i != j || (v[i] != inf && v[i] != -inf)) for (int n : huge_n) if ((n < (1 << 30) + 2 && n > -(1 << 30) - 1) || !(grows(v[i]) || grows(v[j]))) pw<T>(cs, Arg<T>::V(v[i], v[j]), n); }
int prop_main() {
  SOFT(exhaust<M2>(RoundingCfgs<M2>(), small_n, {1, 2, 3, 4, 6}, 100000);
  exhaust<M3>(RoundingCfgs<M3>(), small_n, {1, 2, 3, 4, 5, 7}, g_thorough ? 100000 : 1200);
  if (g_thorough) exhaust<M4>(RoundingCfgs<M4>(), small_n, {1, 2, 3, 4, 5, 7}, 20000);)
  int n = g_thorough ? 12000 : 1200; if (g_prop == "C21") n *= 5;
  bool c5 = g_prop == "C05";
  sample<float>(HwCfgs<float>(), n); sample<double>(HwCfgs<double>(), c5 ? n / 3 : n); sample<long double>(HwCfgs<long double>(), c5 ? n / 60 : n);
  if (g_prop == "C04") { huge<float>(HwCfgs<float>()); huge<double>(HwCfgs<double>()); huge<long double>(HwCfgs<long double>()); SOFT(huge<M2>(RoundingCfgs<M2>());) }
  SOFT(if (g_prop == "C04") { exact<int>(L<CExact<int, ChkBase<int> > >(), {-9, -3, -2, -1, 0, 1, 2, 3, 5, 10}); exact<Rat>(L<CExact<Rat, ChkBase<Rat> > >(), {Rat(-7, 2), Rat(-2), Rat(-1, 3), Rat(0), Rat(1, 2), Rat(5, 3), Rat(4)}); })
  return 0;
}
