// C14 the rounding mode is left as it was; C17 a failing update leaves its target as it was
#define VERIF_MAIN
#include "common.hpp"
using namespace boost::numeric;
#include "calls.hpp"
#include <fstream>
#include <sstream>
#include <memory>
template<class C, class T> std::string call1(const Call<T>& c, char m, long fuse, std::string& after) { typedef typename C::I I;
  calm(); std::string out; { I X = mk<I>(c.a[0].k == 1 ? Arg<T>::N(T(0)) : c.a[0]), Y = mk<I>(op_arity(c.op) > 1 && c.a[1].k != 1 ? c.a[1] : Arg<T>::N(T(0)));
    Amb<T>::set(m); MiniEnv::fuse = fuse;
    out = capture([&]() -> std::string { typename C::guard g1; typename C::guard g2; (void)&g1; (void)&g2; return c.run(c.a[0], X, Y); });
    after = Amb<T>::get(); calm(); }
  return out; }
template<class C, class T> void flat1(C, const Call<T>& c, std::set<std::string>& seen) {
  if (c.bad(C::admits, C::nanmode)) return;
  std::string af, ref = call1<C>(c, 'N', 0, af);
  for (char m : {'N', 'D', 'U', 'Z'}) {
    std::string out = call1<C>(c, m, 0, af);
    std::string key = c.name() + c.in() + C::chk() + m + "|" + af + out + "|" + ref; if (seen.insert(key).second) sink.rec(c.name(), FmtName<T>::s(), C::chk(), std::string(1, m), c.in(), af + "," + nest(out) + "," + nest(ref));
    if (HasTrans<T>::soft) for (long k = 1; k < 60; k++) { out = call1<C>(c, m, k, af); if (out != "X,fault") break;
      key = c.name() + C::chk() + C::tag() + m + "|" + af; if (seen.insert(key).second) sink.rec(c.name(), FmtName<T>::s(), C::chk(), std::string(1, m), c.in(), af + "," + nest(out) + "," + nest(ref)); } } }
template<class... C, class T> void flat(L<C...>, const Call<T>& c, std::set<std::string>& seen) { int d[] = {(flat1<C, T>(C(), c, seen), 0)...}; (void)d; }
template<class T> using ModeCfgs = L<CT<T, ChkBase<T> >, CS<T, ChkBase<T> >, CSU<T, ChkBase<T> >, CTU<T, ChkBase<T> >, CT<T, ChkCne<T> >, CT<T, ChkNe<T> > >;
template<class T> void modes(int per_op, int extra) { Rng r(g_seed * 7 + sizeof(T)); auto p = mk_pool<T>(r, extra); std::set<std::string> seen;
  for (int op = 0; op < NOPS; op++) { if (OPD[op].trans && !HasTrans<T>::v) continue; for (int i = 0; i < per_op; i++) { Call<T> c; if (pick(r, p, op, c)) flat(ModeCfgs<T>(), c, seen); } } }
// ------------------------------------------------------------ sessions
struct Obj { virtual ~Obj() {} };
template<class R> struct ObjR : Obj { R r; };
template<class T> struct Session { Rng r; std::vector<Arg<T> > pool; std::vector<std::unique_ptr<Obj> > live;
  Session(unsigned long s) : r(s), pool(mk_pool<T>(r, 12)) {}
  typedef CT<T, ChkBase<T> > PO; typedef CS<T, ChkBase<T> > PS; typedef CTU<T, ChkBase<T> > UO; typedef CSU<T, ChkBase<T> > US;
  template<class C> void op(const char* mark, const Call<T>& c, long fuse) { typedef typename C::I I; std::string out, af; char m0 = Amb<T>::get()[0];
    calm(); I X, Y; { typename Pol<T>::TOpp g; X = mk<I>(c.a[0].k == 1 ? Arg<T>::N(T(0)) : c.a[0]); Y = mk<I>(op_arity(c.op) > 1 && c.a[1].k != 1 ? c.a[1] : Arg<T>::N(T(0))); } calm();
    Amb<T>::set(m0); MiniEnv::fuse = fuse; out = capture([&]() -> std::string { return c.run(c.a[0], X, Y); }); MiniEnv::fuse = 0; af = Amb<T>::get();
    // the text of numbers does not depend on the mode
    Amb<T>::set('N'); std::string in = c.in(); Amb<T>::set(af[0]); std::string o = out;
    sink.rec(c.name(), FmtName<T>::s(), C::chk(), af, in + (in.empty() ? "" : ",") + mark, o); }
  void run(const std::string& line) { std::istringstream is(line); std::string w; fprintf(sink.f, "%%\n"); Amb<T>::set('N'); sink.rec("start", "", "", Amb<T>::get(), "", "");
    while (is >> w) { if (w[0] == 'A') { Amb<T>::set(w[2]); sink.rec("setmode", "", "", Amb<T>::get(), "", ""); }
      else if (w[0] == 'E') { std::string p = w.substr(2); if (p == "opp") live.emplace_back(new ObjR<typename Pol<T>::TOpp>); else live.emplace_back(new ObjR<typename Pol<T>::TStd>); sink.rec("enter." + p, "", "", Amb<T>::get(), "", ""); }
      else if (w[0] == 'L') { live.pop_back(); sink.rec("leave", "", "", Amb<T>::get(), "", ""); }
      else { char pu = w[0]; size_t a = w.find(':', 2), b = w.find(':', a + 1); std::string pol = w.substr(2, a - 2), nm = w.substr(a + 1, b - a - 1); long fuse = HasTrans<T>::soft ? atol(w.c_str() + b + 1) : 0; int op_ = -1;
        for (int i = 0; i < NOPS; i++) if (nm == std::string(OPD[i].name) + "." + OPD[i].form) op_ = i;
        if (op_ < 0) { fprintf(stderr, "unknown operation %s\n", nm.c_str()); exit(3); } if (OPD[op_].trans && !HasTrans<T>::v) op_ = 0;
        char m0 = Amb<T>::get()[0]; calm(); Call<T> c; pick(r, pool, op_, c); Amb<T>::set(m0);
        // an unprotected operation that failed may have left an opp object unusable
        if (pu == 'U' && pol == "opp" && Amb<T>::get()[0] != 'U') continue;
        if (pu == 'P') { if (pol == "opp") op<PO>("P", c, fuse); else op<PS>("P", c, fuse); } else { if (pol == "opp") op<UO>("U", c, fuse); else op<US>("U", c, fuse); } } }
    while (!live.empty()) { live.pop_back(); sink.rec("leave", "", "", Amb<T>::get(), "", ""); } calm(); } };
static std::vector<std::string> behaviours() { std::vector<std::string> v; const char* f = getenv("VERIF_CMDS"); if (!f) return v; std::ifstream is(f); std::string l; while (std::getline(is, l)) if (!l.empty()) v.push_back(l); return v; }
// ---------------------------------------------------------------- C17
template<class I> std::string raw(const I& z) { if (z.lower() != z.lower() && z.upper() != z.upper()) return "[]"; return iv(z.lower(), z.upper()); }
template<class C, class T> void keep1(C, const Call<T>& c, int kind, std::set<std::string>& seen) { typedef typename C::I I; static const char* kn[] = {"op", "assignn", "assigni", "assign2", "selfop", "lowop", "upop"};
  if (kind < 3 || kind > 3) if (c.bad(C::admits, C::nanmode)) return; if (c.a[0].k == 0 && !C::admits) return; if (kind == 3) for (int i = 0; i < 2; i++) if (c.a[i].isnan() && C::nanmode == 1) return;
  for (long k = 0; k < 60; k++) { calm(); std::string before, after, out; {
      I X = mk<I>(c.a[0].k == 1 ? Arg<T>::V(T(1), T(2)) : c.a[0]), Y = kind == 3 || c.a[1].k == 1 ? I(T(1)) : c.a[1].k == 0 && !C::admits ? I(T(1)) : mk<I>(c.a[1]); T y = c.a[1].lo, x = c.a[1].hi; before = raw(X);
      MiniEnv::fuse = k; out = capture([&]() -> std::string { typename C::guard g; (void)&g; switch (kind) { case 0: return c.run(c.a[0], X, Y);
          case 1: X = y; return show(X); case 2: X = Y; return show(X); case 3: X.assign(y, x); return show(X);
          case 4: switch (c.op % 4) { case 0: X += X; break; case 1: X -= X; break; case 2: X *= X; break; default: X /= X; } return show(X);
          case 5: switch (c.op % 4) { case 0: X += X.lower(); break; case 1: X -= X.lower(); break; case 2: X *= X.lower(); break; default: X /= X.lower(); } return show(X);
          default: switch (c.op % 4) { case 0: X += X.upper(); break; case 1: X -= X.upper(); break; case 2: X *= X.upper(); break; default: X /= X.upper(); } return show(X); } });
      MiniEnv::fuse = 0; calm(); after = raw(X); }
    std::string rec = before + "," + after + "," + nest(out); if (seen.insert(c.name() + kn[kind] + C::chk() + C::tag() + rec).second) sink.rec(c.name() + "." + kn[kind], FmtName<T>::s(), C::chk(), C::tag(), c.in() + ",#" + std::to_string(k), rec);
    if (!HasTrans<T>::soft || (k > 0 && out != "X,fault")) break; } }
template<class... C, class T> void keep(L<C...>, const Call<T>& c, int kind, std::set<std::string>& seen) { int d[] = {(keep1<C, T>(C(), c, kind, seen), 0)...}; (void)d; }
template<class T> using KeepCfgs = L<CT<T, ChkBase<T> >, CS<T, ChkNe<T> >, CSU<T, ChkNe<T> >, CTU<T, ChkBase<T> >, CT<T, ChkCne<T> >, CT<T, ChkCn<T> >, CT<T, ChkSt<T> >, CS<T, ChkNn<T> > >;
template<class T> void keeps(int n, int extra) { Rng r(g_seed * 13 + sizeof(T)); auto p = mk_pool<T>(r, extra); std::set<std::string> seen;
  for (int op = 0; op < NOPS; op++) if (compound(op)) for (int i = 0; i < n; i++) { Call<T> c; pick(r, p, op, c); keep(KeepCfgs<T>(), c, 0, seen); keep(KeepCfgs<T>(), c, 4, seen); 
      if (c.a[0].k == 2 && c.a[0].lo - c.a[0].lo == T(0) && c.a[0].hi - c.a[0].hi == T(0)) { keep(KeepCfgs<T>(), c, 5, seen); keep(KeepCfgs<T>(), c, 6, seen); }
      Call<T> d = c; std::string s = OPD[op].form; if (s == "cin") keep(KeepCfgs<T>(), d, 1, seen); else keep(KeepCfgs<T>(), d, 2, seen);
      d.a[1] = Arg<T>::V(p[r.below(p.size())].lo, p[r.below(p.size())].lo); keep(KeepCfgs<T>(), d, 3, seen); } }
int prop_main() {
  if (g_prop == "C17") { int n = g_thorough ? 1500 : 220; SOFT(keeps<M2>(n, 60); keeps<M4>(n, 60);) keeps<double>(n, 60); keeps<float>(n, 40); keeps<long double>(n, 40); return 0; }
  if (const char* part = getenv("VERIF_PART")) {}
#ifdef SESSIONS
  auto v = behaviours(); SOFT(Session<M4> s(g_seed); for (auto& l : v) s.run(l);)
  Session<double> d(g_seed); Session<float> f(g_seed); Session<long double> e(g_seed); int i = 0; for (auto& l : v) switch (i++ % 6) { case 0: d.run(l); break; case 1: f.run(l); break; case 2: e.run(l); break; }
#else
  int n = g_thorough ? 120 : 14; SOFT(modes<M2>(n, 40); modes<M4>(n, 40);) modes<double>(n, 30); modes<float>(n, 30); modes<long double>(n / 2, 20);
#endif
  return 0; }
