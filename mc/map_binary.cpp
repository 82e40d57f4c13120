// Interval maps: all pairs (and triples) of reachable states of two map kinds / traits, and of a map and an interval set.
// -DDOM -DITV -DCOD -DCOMB -DKA=J|X -DTRA=<traits> -DKB=J|X -DTRB=<traits> -DKS=SJ|SS|SX ; groups B_OPS (JMODE) B_REL B_ORD B_CONV B_LAW
#include "map_common.hpp"
#include <boost/icl/predicates/sub_super_set.hpp>
#include <boost/icl/predicates/element_equal.hpp>
#include <boost/icl/predicates/std_equal.hpp>
using namespace mc;
typedef DOM D; typedef COD Cod; typedef MapCfg<D,icl::ITV,Cod,icl::TRA,icl::COMB> CfA; typedef MapCfg<D,icl::ITV,Cod,icl::TRB,icl::COMB> CfB; typedef CfA::KA A; typedef CfB::KB B; typedef CfA::KS SetT; typedef CfA::I I; typedef D::T T; typedef Cod::V V; typedef MapM M; typedef SetM N;
typedef A::segment_type SegT;
#ifndef JMODE
#define JMODE 0
#endif
#define ST std::string
static const int ka=map_kind<A>::v, kb=map_kind<B>::v, kf= ka>kb?ka:kb;
static Sem SA, SB, SF; static std::vector<long> VC;
static bool sameT=std::is_same<icl::TRA,icl::TRB>::value;
template<class C,class MM> struct States { std::vector<C> st; std::vector<ST> key; std::vector<MM> m; std::vector<ST> path; };
template<class C> static M decm(const C&c){ return decode_map<D,Cod>(c); }
template<class E,class S2> void pick(E&ex,S2&r,int reps){ std::map<typename std::decay<decltype(ex.models[0])>::type,std::vector<int>> by; for(size_t i=0;i<ex.st.size();++i) by[ex.models[i]].push_back((int)i);
  for(auto&kv:by){ auto&v=kv.second; int n=(int)v.size(), k=std::min(reps,n); for(int j=0;j<k;++j){ int i=v[k==1?0:(long)j*(n-1)/(k-1)]; r.st.push_back(ex.st[i]); r.key.push_back(ex.keys[i]); r.m.push_back(ex.models[i]); r.path.push_back(ex.path(i)); } } }
template<class C> States<C,M> collect(const Sem&S,int reps,bool allrep){
  static Explorer<C,M> ex; ex.ops.clear(); ex.cap=200000; const Sem sem=S;
  ex.decode=[](const C&c){ return decm(c); }; ex.raw=[](const C&c){ return raw_map<D,Cod>(c); };
  ex.admissible=[sem](const M&m){ if(!map_admissible<Cod>(sem.kind,sem.absorber,m)) return false; for(auto&e:m) if(std::find(VC.begin(),VC.end(),e.v)==VC.end()) return false; return true; };
  for(auto&a:all_args<D,I>(false,allrep)){ Arg<I> x=a;
    ex.ops.push_back(Op<C,M>{"erase("+x.d+")",false,true,[x](C&c,const M&)->ST{ c.erase(x.iv); return ST(); }});
    for(long v:VC){ SegT s(x.iv,Cod::val(v)); ex.ops.push_back(Op<C,M>{"set("+x.d+","+std::to_string(v)+")",false,true,[s](C&c,const M&)->ST{ c.set(s); return ST(); }}); ex.ops.push_back(Op<C,M>{"add("+x.d+","+std::to_string(v)+")",false,true,[s](C&c,const M&)->ST{ c.add(s); return ST(); }}); } }
  ex.run(C()); States<C,M> r; pick(ex,r,reps); return r; }
template<class C> States<C,N> collect_set(int reps,bool allrep){
  static Explorer<C,N> ex; const int kind=icl::is_interval_joiner<C>::value?JOIN:icl::is_interval_separator<C>::value?SEP:SPLIT; ex.cap=200000;
  auto dec=[](const C&c){ N m; for(auto&i:c) m.push_back(decode<D>(i)); return m; };
  ex.decode=dec; ex.raw=[](const C&c){ ST s="{"; for(auto&i:c) s+=raw<D>(i)+" "; return s+"}"; }; ex.admissible=[](const N&){ return true; }; (void)kind;
  for(auto&a:all_args<D,I>(false,allrep)){ Arg<I> x=a; ex.ops.push_back(Op<C,N>{"add("+x.d+")",false,true,[x](C&c,const N&)->ST{ c.add(x.iv); return ST(); }}); ex.ops.push_back(Op<C,N>{"subtract("+x.d+")",false,true,[x](C&c,const N&)->ST{ c.subtract(x.iv); return ST(); }}); }
  ex.run(C()); States<C,N> r; pick(ex,r,reps); return r; }
static N decs(const SetT&c){ N m; for(auto&i:c) m.push_back(decode<D>(i)); return m; }
struct BOp { ST name; std::function<ST(const A&,const M&,const B&,const M&)> run; }; struct SOp { ST name; std::function<ST(const A&,const M&,const SetT&,const N&)> run; };
static std::vector<BOp> ops; static std::vector<SOp> sops;
template<class F> void op(ST n,F f){ ops.push_back(BOp{n,f}); }
template<class F> void sop(ST n,F f){ sops.push_back(SOp{n,f}); }
template<class R> ST judge(const Sem&S,const R&r,const M&e){ return judge_map<D,Cod>(JMODE,S,r,e); }
static ST unch(const A&a,const M&m,const B&b,const M&n){ if(decm(a)!=m) return "left operand was modified"; if(decm(b)!=n) return "right operand was modified"; return ST(); }
static ST b2(const char*w,bool got,bool exp){ return got==exp?ST():ST(w)+" gives "+(got?"true":"false")+" but must be "+(exp?"true":"false"); }
static ST ne(bool bad,const char*t){ return bad?ST(t):ST(); }
// ---- reference semantics of map x map
static M a_add(const Sem&S,M m,const M&n){ for(auto&e:n) m=m_add(S,m,e.r(),e.v); return m; }
static M a_sub(const Sem&S,M m,const M&n){ for(auto&e:n) m=m_sub(S,m,e.r(),e.v); return m; }
static M a_ins(const Sem&S,M m,const M&n){ for(auto&e:n) m=m_insert(S,m,e.r(),e.v); return m; }
static M a_era(const Sem&S,M m,const M&n){ for(auto&e:n) m=m_erase_v(S,m,e.r(),e.v); return m; }
static M a_flip(const Sem&S,M m,const M&n){ if(S.total){ if(S.absorber) return M(); m=a_add(S,m,n); for(auto&e:m) e.v=S.id; return m_normal(S.kind,m); } for(auto&e:n) m=m_flip(S,m,e.r(),e.v); return m; }
static M a_and(const Sem&S,const M&m,const M&n){ if(S.total) return a_add(S,m,n); M r; for(auto&e:n){ M p=m_and(S,m,e.r(),e.v); r.insert(r.end(),p.begin(),p.end()); } sortm(r); return m_normal(S.kind,r); }
static M a_clip(const Sem&S,const M&m,const N&n){ M r; for(auto&x:n){ M p=m_clip(S,m,x); r.insert(r.end(),p.begin(),p.end()); } sortm(r); return m_normal(S.kind,r); }
static M a_eraseS(const Sem&S,M m,const N&n){ for(auto&x:n) m=m_erase(m,x); return m; }
static bool vsub(long a,long b){ return Cod::set? (a&~b)==0 : a==b; }
static bool subset(const M&m,const M&n){ Fun f=fun(m), g=fun(n); for(auto&kv:f) if(!g.count(kv.first)||!vsub(kv.second,g[kv.first])) return false; return true; }
static bool ksub(unsigned long long p,unsigned long long q){ return (p&~q)==0; }
static int incl(bool s,bool t){ return s&&t?icl::inclusion::equal:s?icl::inclusion::subset:t?icl::inclusion::superset:icl::inclusion::unrelated; }
static M nonid(const M&m){ M r; for(auto&e:m) if(e.v!=0) r.push_back(e); return r; }
static bool seqless(const M&m,const M&n){ return std::lexicographical_compare(m.begin(),m.end(),n.begin(),n.end(),[](const MSeg&x,const MSeg&y){ Range a=x.r(), b=y.r(); bool l= is_rev<D>::v? b<a: a<b, g= is_rev<D>::v? a<b: b<a; return l || (!g && (is_rev<D>::v? Cmb<Cod>::lt(y.v,x.v): Cmb<Cod>::lt(x.v,y.v))); }); }
template<class C> static A mk(const C&){ return A(); }

// combiners the documentation's CommutativeMonoid requirement covers; for the others the base operand of the infix operators is implementation defined when the right one is an rvalue
#ifdef NONCOMM
static bool commut(){ return false; }
#else
static bool commut(){ return true; }
#endif
template<class X,class Y> struct Same{ enum{v=0}; }; template<class X> struct Same<X,X>{ enum{v=1}; };
template<bool Infix> struct InfixOps { static void go(){} };
template<> struct InfixOps<true> { template<class AA=A,class BB=B> static void go(){
#ifdef B_OPS
#define INFIX(NAME,EXPR,EXP) if(commut() || ST(NAME).find("(,move)")==ST::npos) op(NAME,[](const A&a0,const M&m,const B&b0,const M&n)->ST{ const AA& a=a0; const BB& b=b0; auto s=EXPR; ST e=unch(a,m,b,n); if(!e.empty()) return e; if((int)map_kind<decltype(s)>::v!=kf) return ST("result is not of the finer kind"); const Sem&S=SF; const M&x= ka==kf?m:n; const M&y= ka==kf?n:m; return judge(S,s,EXP); })
  INFIX("operator+",a+b,a_add(S,x,y)); INFIX("operator+(move,)",AA(a)+b,a_add(S,x,y)); INFIX("operator+(,move)",a+BB(b),a_add(S,x,y)); INFIX("operator+(move,move)",AA(a)+BB(b),a_add(S,x,y));
  INFIX("operator|",a|b,a_add(S,x,y)); INFIX("operator|(move,)",AA(a)|b,a_add(S,x,y)); INFIX("operator|(,move)",a|BB(b),a_add(S,x,y)); INFIX("operator|(move,move)",AA(a)|BB(b),a_add(S,x,y));
#ifndef NO_AND
  INFIX("operator&",a&b,a_and(S,x,y)); INFIX("operator&(move,)",AA(a)&b,a_and(S,x,y)); INFIX("operator&(,move)",a&BB(b),a_and(S,x,y)); INFIX("operator&(move,move)",AA(a)&BB(b),a_and(S,x,y));
#endif
#ifndef NO_FLIP
  INFIX("operator^",a^b,a_flip(S,x,y)); INFIX("operator^(move,)",AA(a)^b,a_flip(S,x,y)); INFIX("operator^(,move)",a^BB(b),a_flip(S,x,y)); INFIX("operator^(move,move)",AA(a)^BB(b),a_flip(S,x,y));
#endif
#endif
} };
template<bool Eq> struct SameOps { static void go(){} };
template<> struct SameOps<true> { template<class C=A> static void go(){
#ifdef B_ORD
  op("operator==",[](const C&a,const M&m,const C&b,const M&n){ return b2("==",a==b,m==n); }); op("operator!=",[](const C&a,const M&m,const C&b,const M&n){ return b2("!=",a!=b,m!=n); });
  op("std_equal",[](const C&a,const M&m,const C&b,const M&n){ return b2("std_equal",icl::std_equal<C>()(a,b),m==n); }); op("element_equal",[](const C&a,const M&m,const C&b,const M&n){ return b2("element_equal",icl::element_equal<C>()(a,b),fun(m)==fun(n)); });
#ifndef NO_LESS
  op("operator<",[](const C&a,const M&m,const C&b,const M&n){ return b2("<",a<b,seqless(m,n)); }); op("operator>",[](const C&a,const M&m,const C&b,const M&n){ return b2(">",a>b,seqless(n,m)); });
  op("operator<=",[](const C&a,const M&m,const C&b,const M&n){ return b2("<=",a<=b,!seqless(n,m)); }); op("operator>=",[](const C&a,const M&m,const C&b,const M&n){ return b2(">=",a>=b,!seqless(m,n)); });
#endif
#endif
#ifdef B_REL
  op("sub_super_set",[](const C&a,const M&m,const C&b,const M&n){ return b2("sub_super_set",icl::sub_super_set<C>()(a,b),subset(m,n)); }); op("super_sub_set",[](const C&a,const M&m,const C&b,const M&n){ return b2("super_sub_set",icl::super_sub_set<C>()(a,b),subset(n,m)); });
#endif
#ifdef B_CONV
  op("swap",[](const C&a,const M&m,const C&b,const M&n)->ST{ C s(a); C t(b); s.swap(t); if(decm(s)!=n||decm(t)!=m) return ST("member swap does not exchange contents"); icl::swap(s,t); return ne(decm(s)!=m||decm(t)!=n,"free swap does not exchange contents"); });
  op("move construct",[](const C&a,const M&m,const C&,const M&)->ST{ C s(a); C t(std::move(s)); if(decm(t)!=m) return ST("moving loses contents"); s=a; return ne(decm(s)!=m,"assigning to a moved-from object"); });
  op("move assign",[](const C&a,const M&m,const C&b,const M&n)->ST{ C s(a); C t(b); s=std::move(t); if(decm(s)!=n) return ST("move assignment does not transfer contents"); t=a; return ne(decm(t)!=m,"assigning to a moved-from object"); });
  op("clear",[](const C&a,const M&m,const C&b,const M&n)->ST{ C s(a); s.clear(); if(!icl::is_empty(s)||!s.empty()||s.begin()!=s.end()) return ST("clear leaves elements"); s+=b; if(decm(s)!=a_add(SA,M(),n)) return ST("use after clear"); icl::clear(s); (void)m; return ne(!s.empty(),"free clear leaves elements"); });
  op("join",[](const C&a,const M&m,const C&,const M&)->ST{ C s(a); icl::join(s); return decm(s)==m_normal(JOIN,m)?ST():"join gives "+show(decm(s))+" must be "+show(m_normal(JOIN,m)); });
#endif
} };

int main(int argc,char**argv){
  init2(argc,argv); P=(int)param("P",3); int reps=(int)param("reps",1); bool allrep=param("allrep",1); g_cfg=CFGNAME;
  SA=make_sem<Cod,icl::COMB,icl::TRA>(ka); SB=make_sem<Cod,icl::COMB,icl::TRB>(kb); SF= ka==kf? SA: SB;
  { std::vector<long> c=Cod::codes(); long nv=param("nval",2); for(long v:c) if(v!=0&&(long)VC.size()<nv) VC.push_back(v); if(!SA.absorber||!SB.absorber) VC.push_back(0); }
  States<A,M> XA=collect<A>(SA,reps,allrep); States<B,M> XB=collect<B>(SB,reps,allrep); States<SetT,N> XS=collect_set<SetT>(1,allrep); g_phase="pairs"; g_states=(long)(XA.st.size()+XB.st.size()+XS.st.size());
#ifdef B_OPS
#define INPL(NAME,CALL,EXP) op(NAME,[](const A&a,const M&m,const B&b,const M&n)->ST{ A s(a); CALL; if(decm(b)!=n) return ST("right operand was modified"); const Sem&S=SA; return judge(S,s,EXP); })
  INPL("operator+=",s+=b,a_add(S,m,n)); INPL("operator|=",s|=b,a_add(S,m,n)); INPL("icl::insert",icl::insert(s,b),a_ins(S,m,n)); INPL("icl::erase",icl::erase(s,b),a_era(S,m,n));
#ifndef NO_AND
  INPL("operator&=",s&=b,a_and(S,m,n));
  if(!SA.total) INPL("add_intersection",A t; icl::add_intersection(t,s,b); s=t,a_and(S,m,n));
#endif
#ifndef NO_SUB
  INPL("operator-=",s-=b,a_sub(S,m,n));
  op("operator-",[](const A&a,const M&m,const B&b,const M&n)->ST{ A s=a-b; ST e=unch(a,m,b,n); if(!e.empty()) return e; return judge(SA,s,a_sub(SA,m,n)); });
  op("operator-(move,)",[](const A&a,const M&m,const B&b,const M&n)->ST{ A s=A(a)-b; ST e=unch(a,m,b,n); if(!e.empty()) return e; return judge(SA,s,a_sub(SA,m,n)); });
  op("operator-(,move)",[](const A&a,const M&m,const B&b,const M&n)->ST{ A s=a-B(b); ST e=unch(a,m,b,n); if(!e.empty()) return e; return judge(SA,s,a_sub(SA,m,n)); });
#endif
#ifndef NO_FLIP
  INPL("operator^=",s^=b,a_flip(S,m,n)); INPL("icl::flip",icl::flip(s,b),a_flip(S,m,n));
#endif
#define SOPI(NAME,CALL,EXP) sop(NAME,[](const A&a,const M&m,const SetT&b,const N&n)->ST{ A s(a); CALL; if(decs(b)!=n) return ST("right operand was modified"); if(decm(a)!=m) return ST("left operand was modified"); const Sem&S=SA; return judge(S,s,EXP); })
  SOPI("operator-=(set)",s-=b,a_eraseS(S,m,n)); SOPI("icl::erase(set)",icl::erase(s,b),a_eraseS(S,m,n)); SOPI("operator-(set)",s=a-b,a_eraseS(S,m,n)); SOPI("operator-(move,set)",s=A(a)-b,a_eraseS(S,m,n));
#ifndef NO_AND
  SOPI("operator&=(set)",s&=b,a_clip(S,m,n)); SOPI("operator&(set)",s=a&b,a_clip(S,m,n)); SOPI("operator&(set,map)",s=b&a,a_clip(S,m,n)); SOPI("operator&(move,set)",s=A(a)&b,a_clip(S,m,n)); SOPI("operator&(set,move)",s=b&A(a),a_clip(S,m,n)); SOPI("add_intersection(set)",A t; icl::add_intersection(t,s,b); s=t,a_clip(S,m,n));
#endif
#endif
  InfixOps<(Same<icl::TRA,icl::TRB>::v!=0)>::go(); SameOps<(Same<A,B>::v!=0)>::go();
#ifdef B_REL
  op("contains",[](const A&a,const M&m,const B&b,const M&n){ return b2("contains",icl::contains(a,b),subset(n,m)); }); op("within",[](const A&a,const M&m,const B&b,const M&n){ return b2("within",icl::within(a,b),subset(m,n)); });
  op("intersects",[](const A&a,const M&m,const B&b,const M&n){ return b2("intersects",icl::intersects(a,b),SA.total||SB.total||!a_and(SA,m,n).empty()); }); op("disjoint",[](const A&a,const M&m,const B&b,const M&n){ return b2("disjoint",icl::disjoint(a,b),!(SA.total||SB.total||!a_and(SA,m,n).empty())); });
  op("inclusion_compare",[](const A&a,const M&m,const B&b,const M&n)->ST{ int g=icl::inclusion_compare(a,b), e=incl(subset(m,n),subset(n,m)); return g==e?ST():"inclusion_compare gives "+str(g)+" but must be "+str(e)+" (0 unrelated, 1 subset, 2 superset, 3 equal)"; });
  auto ps=[](const M&m){ return points(normal(dom(m))); }; auto pn=[](const N&n){ return points(n); };
#ifndef TOTALMAP
  sop("contains(set)",[=](const A&a,const M&m,const SetT&b,const N&n){ return b2("contains",icl::contains(a,b),SA.total||ksub(pn(n),ps(m))); });
  sop("within(set,map)",[=](const A&a,const M&m,const SetT&b,const N&n){ return b2("within",icl::within(b,a),SA.total||ksub(pn(n),ps(m))); });
#endif
  sop("intersects(set)",[=](const A&a,const M&m,const SetT&b,const N&n){ return b2("intersects",icl::intersects(a,b),(ps(m)&pn(n))!=0); }); sop("disjoint(set)",[=](const A&a,const M&m,const SetT&b,const N&n){ return b2("disjoint",icl::disjoint(a,b),(ps(m)&pn(n))==0); });
  sop("intersects(set,map)",[=](const A&a,const M&m,const SetT&b,const N&n){ return b2("intersects",icl::intersects(b,a),(ps(m)&pn(n))!=0); }); sop("disjoint(set,map)",[=](const A&a,const M&m,const SetT&b,const N&n){ return b2("disjoint",icl::disjoint(b,a),(ps(m)&pn(n))==0); });
  sop("inclusion_compare(map,set)",[=](const A&a,const M&m,const SetT&b,const N&n)->ST{ int g=icl::inclusion_compare(a,b), e=incl(ksub(ps(m),pn(n)),ksub(pn(n),ps(m))); return g==e?ST():"inclusion_compare gives "+str(g)+" but must be "+str(e); });
  sop("inclusion_compare(set,map)",[=](const A&a,const M&m,const SetT&b,const N&n)->ST{ int g=icl::inclusion_compare(b,a), e=incl(ksub(pn(n),ps(m)),ksub(ps(m),pn(n))); return g==e?ST():"inclusion_compare gives "+str(g)+" but must be "+str(e); });
#endif
#ifdef B_ORD
#ifndef NO_LESS
  auto el=[](const M&m,const M&n){ Fun f=fun(m), g=fun(n); return std::lexicographical_compare(f.begin(),f.end(),g.begin(),g.end(),[](const Fun::value_type&x,const Fun::value_type&y){ return x.first<y.first || (x.first==y.first && Cmb<Cod>::lt(x.second,y.second)); }); };
  op("is_element_less",[=](const A&a,const M&m,const B&b,const M&n){ return b2("is_element_less",icl::is_element_less(a,b),el(m,n)); });
  op("is_element_greater",[=](const A&a,const M&m,const B&b,const M&n){ return b2("is_element_greater",icl::is_element_greater(a,b),el(n,m)); });
#endif
  op("is_element_equal",[](const A&a,const M&m,const B&b,const M&n){ return b2("is_element_equal",icl::is_element_equal(a,b),fun(m)==fun(n)); });
#endif
#ifdef B_DIST
#ifndef MIXED
  op("is_distinct_equal",[](const A&a,const M&m,const B&b,const M&n){ return b2("is_distinct_equal",icl::is_distinct_equal(a,b),nonid(m)==nonid(n)); });
#endif
#endif
#ifdef B_CONV
#ifndef NO_CTOR
  op("construct from",[](const A&a,const M&m,const B&b,const M&n)->ST{ (void)a;(void)m; A s(b); if(decm(b)!=n) return ST("source was modified"); M e=a_add(SA,M(),n); return decm(s)==e?ST():"constructed "+show(decm(s))+" must be "+show(e); });
#endif
  op("operator=",[](const A&a,const M&m,const B&b,const M&n)->ST{ A s(a); s=b; if(decm(b)!=n) return ST("source was modified"); M e=a_add(SA,M(),n); if(decm(a)!=m) return ST("a copy shares state with its source"); return decm(s)==e?ST():"assigned "+show(decm(s))+" must be "+show(e); });
  op("copy independence",[](const A&a,const M&m,const B&b,const M&n)->ST{ A s(a), t(s); t+=b; if(decm(s)!=m||decm(a)!=m) return ST("changing a copy changes the source"); A u; u=s; icl::erase(u,b); if(decm(s)!=m) return ST("changing an assigned copy changes the source"); s.clear(); return ne(decm(u)!=a_era(SA,m,n),"changing the source changes an assigned copy"); });
#endif
  long na=(long)XA.st.size(), nb=(long)XB.st.size(), ns=(long)XS.st.size();
  auto loop=[&](auto&OPS,auto&YB,long nB){
    for(long i=0;i<na;++i) for(long j=0;j<nB;++j) for(size_t o=0;o<OPS.size();++o){
      ST key; g_pstate=&key; auto mkk=[&]{ return "A="+XA.key[i]+" B="+YB.key[j]; }; g_pathfn=[&]{ key=mkk(); return "A: "+XA.path[i]+"  B: "+YB.path[j]; };
      ST e=guarded(key,OPS[o].name,true,[&]{ return OPS[o].run(XA.st[i],XA.m[i],YB.st[j],YB.m[j]); }); ++g_trans; ++g_judged;
      if(!e.empty()) violation(mkk(),OPS[o].name,e+"   A: "+XA.path[i]+"  B: "+YB.path[j]);
      if(g_samples<6 && i>2 && j>2 && (i*31+j*7+o)%997==0) sample(mkk()+" "+OPS[o].name); }
    for(auto&o:OPS) g_opcount[opfam(o.name)]+=na*nB; };
  loop(ops,XB,nb); loop(sops,XS,ns);
#ifdef B_LAW
  { // laws of the documentation's tables for maps of sets (collectors) and maps of numbers (quantifiers)
    auto E=[](const A&x,const A&y){ return x==y; }; auto EE=[](const A&x,const A&y){ return icl::is_element_equal(x,y); }; auto DE=[](const A&x,const A&y){ return icl::is_distinct_equal(x,y); };
    typedef std::function<ST(const A&,const A&,const A&)> Law; std::vector<std::pair<ST,Law>> laws, laws2; const bool spl=ka==SPLIT, coll=Cod::set, absb=SA.absorber, tot=SA.total, sgn=Cod::inverse&&!Cod::set; 
    enum{EQ,EL,DI};
#define LAW_(VEC,N,L,Rr,EQU) VEC.push_back({N,[=](const A&a,const A&b,const A&c)->ST{ A l=A(L); A r=A(Rr); int q=EQU; bool ok= q==EL?EE(l,r): q==DI?DE(l,r): E(l,r); return ok?ST():"left side "+raw_map<D,Cod>(l)+" right side "+raw_map<D,Cod>(r); }})
    LAW_(laws,"Associativity +",(a+b)+c,a+(b+c),(sgn&&spl)?EL:EQ); LAW_(laws2,"Commutativity +",a+b,b+a,EQ); LAW_(laws2,"Commutativity &",a&b,b&a,EQ); LAW_(laws2,"Neutrality +",a+A(),a,EQ); LAW_(laws2,"Neutrality + left",A()+a,a,EQ);
    if(coll||!sgn||!absb) LAW_(laws,"Associativity &",(a&b)&c,a&(b&c),EQ); else if(tot) LAW_(laws,"Associativity &",(a&b)&c,a&(b&c),EL);
#ifndef NO_SUB
    LAW_(laws2,"RightNeutrality -",a-A(),a,EQ); if(absb) LAW_(laws2,"Inversion -",a-a,A(),EQ); else LAW_(laws2,"Inversion -",a-a,A(),DI);
    if(coll&&!tot){
      LAW_(laws,"Distributivity +,&",a+(b&c),(a+b)&(a+c),spl?EL:EQ); LAW_(laws,"Distributivity &,+",a&(b+c),(a&b)+(a&c),(spl&&absb)?EL:EQ);
      LAW_(laws,"RightDistributivity +,-",(a+b)-c,(a-c)+(b-c),spl?EL:EQ); LAW_(laws,"RightDistributivity &,-",(a&b)-c,(a-c)&(b-c),EQ);
      LAW_(laws,"DeMorgan +,&",a-(b+c),(a-b)&(a-c),EQ); LAW_(laws,"DeMorgan &,+",a-(b&c),(a-b)+(a-c),spl?EL:EQ);
      LAW_(laws2,"SymmetricDifference",(a+b)-(b&a),(a-b)+(b-a),EQ); }
    if(sgn) LAW_(laws2,"SymmetricDifference",(a+b)-(b&a),(a-b)+(b-a),(absb?EQ:DI));
#endif
    long lim=param("tri",40);
    auto runlaw=[&](std::pair<ST,Law>&L,long i,long j,long l){ ST key; auto mkk=[&]{ return "a="+XA.key[i]+" b="+XA.key[j]+" c="+XA.key[l]; }; g_pstate=&key; g_pathfn=[&]{ key=mkk(); return ST(); };
      ST e=guarded(key,L.first,true,[&]{ return L.second(XA.st[i],XA.st[j],XA.st[l]); }); ++g_trans; ++g_judged; if(!e.empty()) violation(mkk(),L.first,e); };
    for(long i=0;i<na;++i) for(long j=0;j<na;++j) for(auto&L:laws2) runlaw(L,i,j,0);
    long k=std::min(na,lim); for(long i=0;i<k;++i) for(long j=0;j<k;++j) for(long l=0;l<k;++l) for(auto&L:laws) runlaw(L,i,j,l);
    for(auto&L:laws2) g_opcount[L.first]+=na*na; for(auto&L:laws) g_opcount[L.first]+=k*k*k; if(na>lim) g_truncated=true;
    sample("laws over "+std::to_string(na)+" states");
  }
#endif
  g_pathfn=nullptr; flush_stats(); return 0;
}
