// A catalogue of the public operations: name, operand forms, expression over X, Y (intervals), x, y (numbers), n (int).
#ifndef VERIF_OPS_HPP
#define VERIF_OPS_HPP
#include <boost/numeric/interval/compare.hpp>
#include <boost/numeric/interval/compare/tribool.hpp>
#include <sstream>
// every comparison of the other families on the same operands, as one text
#define CMP_CH(ns, op) try { using namespace il::compare::ns; std::string c = show(a op b); r += c[2]; } catch (il::comparison_error&) { r += 'x'; }
#define CMP_NS(ns) CMP_CH(ns, <) CMP_CH(ns, <=) CMP_CH(ns, >) CMP_CH(ns, >=) CMP_CH(ns, ==) CMP_CH(ns, !=)
template<class A, class B> std::string cmpall(const A& a, const B& b) { std::string r = "S,"; CMP_NS(certain) CMP_NS(possible) CMP_NS(tribool) CMP_NS(lexicographic) CMP_NS(set) return r; }
template<class I> std::string textual(const I& x) { std::ostringstream s; s << x; return s.good() ? "S,ok" : "S,bad"; }
template<class I> I pis() { return hull(il::pi<I>(), hull(il::pi_half<I>(), il::pi_twice<I>())); }
template<class T> struct Wide { typedef long double type; }; template<> struct Wide<long double> { typedef float type; };
// through other interval types and back
template<class I> I recast(const I& x) { typedef typename I::base_type T; typedef il::save_state<il::rounded_arith_std<T> > R; typedef bn::interval<T, il::policies<R, il::checking_base<T> > > J; J j(x), j2; j2 = x; I z(j); z = j2;
  if constexpr (std::is_floating_point<T>::value) { typedef typename Wide<T>::type W; typedef bn::interval<W, il::policies<il::save_state<il::rounded_arith_opp<W> >, il::checking_base<W> > > K; K k(x), k2; k2 = x; I y(k); y = k2; z = hull(z, y); }
  return z; }
#define ARITH_OPS(O) \
 O(neg,i,-X) O(pos,i,+X) \
 O(add,ii,X+Y) O(add,in,X+y) O(add,ni,x+Y) O(add,nn,il::add<I>(x,y)) O(add,cii,X+=Y) O(add,cin,X+=y) \
 O(sub,ii,X-Y) O(sub,in,X-y) O(sub,ni,x-Y) O(sub,nn,il::sub<I>(x,y)) O(sub,cii,X-=Y) O(sub,cin,X-=y) \
 O(mul,ii,X*Y) O(mul,in,X*y) O(mul,ni,x*Y) O(mul,nn,il::mul<I>(x,y)) O(mul,cii,X*=Y) O(mul,cin,X*=y) \
 O(div,ii,X/Y) O(div,in,X/y) O(div,ni,x/Y) O(div,nn,il::div<I>(x,y)) O(div,cii,X/=Y) O(div,cin,X/=y) \
 O(abs,i,abs(X)) O(square,i,square(X)) O(min,ii,min(X,Y)) O(min,in,min(X,y)) O(min,ni,min(x,Y)) O(max,ii,max(X,Y)) O(max,in,max(X,y)) O(max,ni,max(x,Y)) \
 O(hull,ii,hull(X,Y)) O(hull,in,hull(X,y)) O(hull,ni,hull(x,Y)) O(hull,nn,I::hull(x,y)) O(intersect,ii,intersect(X,Y)) O(widen,in,widen(X,y)) \
 O(inv,i,il::multiplicative_inverse(X)) O(pow,iz,pow(X,n)) O(width,i,width(X)) O(median,i,median(X)) O(norm,i,norm(X)) O(bisect,i,bisect(X)) \
 O(subset,ii,subset(X,Y)) O(proper_subset,ii,proper_subset(X,Y)) O(overlap,ii,overlap(X,Y)) O(equal,ii,equal(X,Y)) O(in,ni,in(x,Y)) O(zero_in,i,zero_in(X)) O(singleton,i,singleton(X)) O(empty,i,empty(X)) \
 O(lt,ii,X<Y) O(lt,in,X<y) O(le,ii,X<=Y) O(le,in,X<=y) O(gt,ii,X>Y) O(gt,in,X>y) O(ge,ii,X>=Y) O(ge,in,X>=y) O(eq,ii,X==Y) O(eq,in,X==y) O(ne,ii,X!=Y) O(ne,in,X!=y) \
 O(dparts,ii,dparts(X,Y)) O(cmpall,ii,cmpall(X,Y)) O(cmpall,in,cmpall(X,y)) O(text,i,textual(X)) O(recast,i,recast(X))
#define FLOAT_OPS(O) O(sqrt,i,sqrt(X)) O(root,ik,nth_root(X,n)) O(fmod,ii,fmod(X,Y)) O(fmod,in,fmod(X,y)) O(fmod,ni,fmod(x,Y)) \
 O(whole,v,I::whole()) O(conv,id,I(0x1.5555555555555p-2)) O(convi,id,I(16777217)) O(convu,id,I(3000000019u)) O(convf,id,I(0.1f)) O(convl,id,I(0.1L)) O(conv2,id,I(0.1f,0.7)) O(casg,id,X=0.1) 
#define TRANS_OPS(O) O(pis,v,pis<I>()) O(exp,i,exp(X)) O(log,i,log(X)) O(sin,i,sin(X)) O(cos,i,cos(X)) O(tan,i,tan(X)) O(asin,i,asin(X)) O(acos,i,acos(X)) O(atan,i,atan(X)) \
 O(sinh,i,sinh(X)) O(cosh,i,cosh(X)) O(tanh,i,tanh(X)) O(asinh,i,asinh(X)) O(acosh,i,acosh(X)) O(atanh,i,atanh(X))
#define FLAT_OPS(O) ARITH_OPS(O) FLOAT_OPS(O)
#define ALL_OPS(O) ARITH_OPS(O) FLOAT_OPS(O) TRANS_OPS(O)
struct OpDesc { const char* name; const char* form; bool trans; };
#define O_DESC(nm, fm, ex) {#nm, #fm, false},
#define O_DESCT(nm, fm, ex) {#nm, #fm, true},
static const OpDesc OPD[] = { ARITH_OPS(O_DESC) FLOAT_OPS(O_DESC) TRANS_OPS(O_DESCT) };
static const int NOPS = sizeof OPD / sizeof *OPD;
template<class I> std::string dparts(const I& X, const I& Y) { bool b; I p = il::division_part1(X, Y, b); std::string s = std::string("D,") + (b ? "T," : "F,") + ivt(p); if (b) s += "," + ivt(il::division_part2(X, Y)) + "," + ivt(il::division_part2(X, Y, b)); return s; }
inline bool op_uses(int op, char k, int nth) { const char* f = OPD[op].form; if (*f == 'c') ++f; int i = 0; for (; *f; ++f, ++i) if (i == nth) return *f == k; return false; }
inline bool compound(int op) { return OPD[op].form[0] == 'c'; }
inline int op_arity(int op) { const char* f = OPD[op].form; if (*f == 'c') ++f; int i = 0; for (; *f == 'i' || *f == 'n'; ++f) ++i; return i > 2 ? 2 : i; }
template<class I> struct Env { typedef typename I::base_type T; I X, Y; T x, y; int n; };
enum { E_ONE_BASE = __COUNTER__ };
#define O_CASE(nm, fm, ex) case __COUNTER__ - E_ONE_BASE - 1: return show(ex);
// operations that need transcendental rounding are only instantiated when TR
template<bool TR> struct Eval;
template<> struct Eval<true> { template<class I> static std::string f(int op, I& X, const I& Y, const typename I::base_type& x, const typename I::base_type& y, int n) {
  BOOST_USING_STD_MIN(); BOOST_USING_STD_MAX(); (void)x; (void)y; (void)n; switch (op) { ALL_OPS(O_CASE) } return "X,other"; } };
enum { E_TWO_BASE = __COUNTER__ };
#define O_CASE2(nm, fm, ex) case __COUNTER__ - E_TWO_BASE - 1: return show(ex);
template<> struct Eval<false> { template<class I> static std::string f(int op, I& X, const I& Y, const typename I::base_type& x, const typename I::base_type& y, int n) {
  BOOST_USING_STD_MIN(); BOOST_USING_STD_MAX(); (void)x; (void)y; (void)n; switch (op) { FLAT_OPS(O_CASE2) } return "X,other"; } };
#endif
