// Interval sets: all pairs (and triples) of reachable states of two set kinds.
// -DDOM -DITV -DKA=J|S|X -DKB=J|S|X, groups B_OPS (JMODE) B_REL B_ORD B_CONV B_LAW B_STD
#include "set_common.hpp"
#include <boost/icl/predicates/sub_super_set.hpp>
#include <boost/icl/predicates/element_equal.hpp>
#include <boost/icl/predicates/std_equal.hpp>
using namespace mc;
typedef DOM D; typedef SetCfg<D,icl::ITV> Cfg; typedef Cfg::KA A; typedef Cfg::KB B; typedef Cfg::I I; typedef D::T T; typedef SetM M;
#ifndef JMODE
#define JMODE 0
#endif
#define ST std::string
static const int ka=kind_of<A>::v, kb=kind_of<B>::v, kf= ka>kb?ka:kb;
template<class C> struct States { std::vector<C> st; std::vector<ST> key; std::vector<M> m; std::vector<ST> path; };
// all reachable states; at most `reps` representations (different bound kinds) per model state
template<class C> States<C> collect(int reps,bool allrep){
  static Explorer<C,M> ex; ex.ops.clear(); const int kind=kind_of<C>::v; ex.cap=200000;
  ex.decode=[](const C&c){ return decode_set<D>(c); }; ex.raw=[](const C&c){ return raw_set<D>(c); }; ex.admissible=[kind](const M&m){ return set_admissible(kind,m); };
  std::vector<Arg<I>> as=all_args<D,I>(false,allrep);
  for(auto&a:as){ Arg<I> x=a; ex.ops.push_back(Op<C,M>{"add("+x.d+")",false,true,[x](C&c,const M&)->ST{ c.add(x.iv); return ST(); }}); }
  for(auto&a:as){ Arg<I> x=a; ex.ops.push_back(Op<C,M>{"subtract("+x.d+")",false,true,[x](C&c,const M&)->ST{ c.subtract(x.iv); return ST(); }}); }
  ex.run(C()); g_phase="pairs";
  std::map<M,std::vector<int>> by; for(size_t i=0;i<ex.st.size();++i) by[ex.models[i]].push_back((int)i);
  States<C> r; for(auto&kv:by){ auto&v=kv.second; int n=(int)v.size(), k=std::min(reps,n); for(int j=0;j<k;++j){ int i=v[k==1?0:(long)j*(n-1)/(k-1)]; r.st.push_back(ex.st[i]); r.key.push_back(ex.keys[i]); r.m.push_back(ex.models[i]); r.path.push_back(ex.path(i)); } }
  return r; }
struct BOp { ST name; std::function<ST(const A&,const M&,const B&,const M&)> run; };
static std::vector<BOp> ops;
template<class F> void op(ST n,F f){ ops.push_back(BOp{n,f}); }
template<class C> static M dec(const C&c){ return decode_set<D>(c); }
template<class R> ST judge(const R&r,const M&e){ return judge_set<D>(JMODE,kind_of<R>::v,r,e); }
static ST unch(const A&a,const M&m,const B&b,const M&n){ if(dec(a)!=m) return "left operand was modified"; if(dec(b)!=n) return "right operand was modified"; return ST(); }
static ST b2(const char*w,bool got,bool exp){ return got==exp?ST():ST(w)+" gives "+(got?"true":"false")+" but must be "+(exp?"true":"false"); }
static ST ne(bool bad,const char*t){ return bad?ST(t):ST(); }
// base operand of a result of the finer kind
static M eadd(const M&m,const M&n){ return ka==kf? s_addS(kf,m,n): s_addS(kf,n,m); }
static M eflip(const M&m,const M&n){ return ka==kf? s_flipS(kf,m,n): s_flipS(kf,n,m); }
static M eand(const M&m,const M&n){ return s_andS(kf,m,n); }
static bool subset(const M&m,const M&n){ return (points(m)&~points(n))==0; }

// segments are ordered by Compare<segment>: for a decreasing Compare that is the inverse of the interval order
static bool seqless(const M&m,const M&n){ return std::lexicographical_compare(m.begin(),m.end(),n.begin(),n.end(),[](const Range&x,const Range&y){ return is_rev<D>::v? y<x: x<y; }); }
#ifdef B_REL
template<class A> void same0(A*,A*){
  typedef A B;
    op("sub_super_set",[](const A&a,const M&m,const B&b,const M&n){ return b2("sub_super_set",icl::sub_super_set<A>()(a,b),subset(m,n)); });
    op("super_sub_set",[](const A&a,const M&m,const B&b,const M&n){ return b2("super_sub_set",icl::super_sub_set<A>()(a,b),subset(n,m)); });
}
template<class A,class B> void same0(A*,B*){}
#endif
#ifdef B_ORD
template<class A> void same1(A*,A*){
  typedef A B;
    op("operator==",[](const A&a,const M&m,const B&b,const M&n){ return b2("==",a==b,m==n); });
    op("operator!=",[](const A&a,const M&m,const B&b,const M&n){ return b2("!=",a!=b,m!=n); });
    op("operator<",[](const A&a,const M&m,const B&b,const M&n){ return b2("<",a<b,seqless(m,n)); });
    op("operator>",[](const A&a,const M&m,const B&b,const M&n){ return b2(">",a>b,seqless(n,m)); });
    op("operator<=",[](const A&a,const M&m,const B&b,const M&n){ return b2("<=",a<=b,!seqless(n,m)); });
    op("operator>=",[](const A&a,const M&m,const B&b,const M&n){ return b2(">=",a>=b,!seqless(m,n)); });
    op("element_equal",[](const A&a,const M&m,const B&b,const M&n){ return b2("element_equal",icl::element_equal<A>()(a,b),points(m)==points(n)); });
    op("std_equal",[](const A&a,const M&m,const B&b,const M&n){ return b2("std_equal",icl::std_equal<A>()(a,b),m==n); });
}
template<class A,class B> void same1(A*,B*){}
#endif
#ifdef B_CONV
template<class A> void same2(A*,A*){
  typedef A B;
    op("swap",[](const A&a,const M&m,const B&b,const M&n)->ST{ A s(a); B t(b); s.swap(t); if(dec(s)!=n||dec(t)!=m) return ST("member swap does not exchange contents"); icl::swap(s,t); return ne(dec(s)!=m||dec(t)!=n,"free swap does not exchange contents"); });
    op("move construct",[](const A&a,const M&m,const B&,const M&)->ST{ A s(a); A t(std::move(s)); if(dec(t)!=m) return ST("moving loses contents"); s=a; return ne(dec(s)!=m,"assigning to a moved-from object"); });
    op("move assign",[](const A&a,const M&m,const B&b,const M&n)->ST{ A s(a); B t(b); s=std::move(t); if(dec(s)!=n) return ST("move assignment does not transfer contents"); t=a; return ne(dec(t)!=m,"assigning to a moved-from object"); });
    op("clear",[](const A&a,const M&m,const B&b,const M&n)->ST{ A s(a); s.clear(); if(!icl::is_empty(s)||!s.empty()||s.begin()!=s.end()) return ST("clear leaves elements"); s+=b; if(dec(s)!=s_addS(ka,M(),n)) return ST("use after clear"); icl::clear(s); (void)m; return ne(!s.empty(),"free clear leaves elements"); });
    op("join",[](const A&a,const M&m,const B&,const M&)->ST{ A s(a); icl::join(s); return dec(s)==normal(m)?ST():"join gives "+show(dec(s))+" must be "+show(normal(m)); });
}
template<class A,class B> void same2(A*,B*){}
#endif
#ifdef B_CONV
template<class A> void different(A*,A*){}
template<class A,class B> void different(A*,B*){ op("assign",[](const A&a,const M&,const B&b,const M&n)->ST{ A s(a); s.assign(b); M e=s_convert(ka,n); if(dec(b)!=n) return ST("source was modified"); return dec(s)==e?ST():"assigned "+show(dec(s))+" must be "+show(e); }); }
#endif
int main(int argc,char**argv){
  init2(argc,argv); P=(int)param("P",4); int reps=(int)param("reps",1); bool allrep=param("allrep",1); g_cfg=CFGNAME;
  States<A> SA=collect<A>(reps,allrep); States<B> SB=collect<B>(reps,allrep);
#ifdef B_OPS
#define INPL(NAME,CALL,EXP) op(NAME,[](const A&a,const M&m,const B&b,const M&n)->ST{ A s(a); CALL; if(dec(b)!=n) return ST("right operand was modified"); return judge(s,EXP); })
#define INFIX(NAME,EXPR,EXP) op(NAME,[](const A&a,const M&m,const B&b,const M&n)->ST{ auto s=EXPR; ST e=unch(a,m,b,n); if(!e.empty()) return e; if((int)kind_of<decltype(s)>::v!=kf) return ST("result is not of the finer kind"); return judge(s,EXP); })
  INPL("operator+=",s+=b,s_addS(ka,m,n)); INPL("operator|=",s|=b,s_addS(ka,m,n)); INPL("icl::insert",icl::insert(s,b),s_addS(ka,m,n));
  INPL("operator-=",s-=b,s_subS(m,n)); INPL("icl::erase",icl::erase(s,b),s_subS(m,n));
  INPL("operator&=",s&=b,s_andS(ka,m,n)); INPL("operator^=",s^=b,s_flipS(ka,m,n)); INPL("icl::flip",icl::flip(s,b),s_flipS(ka,m,n));
  INPL("add_intersection",A t; icl::add_intersection(t,s,b); s=t,s_andS(ka,m,n));
  INFIX("operator+",a+b,eadd(m,n)); INFIX("operator+(move,)",A(a)+b,eadd(m,n)); INFIX("operator+(,move)",a+B(b),eadd(m,n)); INFIX("operator+(move,move)",A(a)+B(b),eadd(m,n));
  INFIX("operator|",a|b,eadd(m,n)); INFIX("operator|(move,)",A(a)|b,eadd(m,n)); INFIX("operator|(,move)",a|B(b),eadd(m,n)); INFIX("operator|(move,move)",A(a)|B(b),eadd(m,n));
  INFIX("operator&",a&b,eand(m,n)); INFIX("operator&(move,)",A(a)&b,eand(m,n)); INFIX("operator&(,move)",a&B(b),eand(m,n)); INFIX("operator&(move,move)",A(a)&B(b),eand(m,n));
  INFIX("operator^",a^b,eflip(m,n)); INFIX("operator^(move,)",A(a)^b,eflip(m,n)); INFIX("operator^(,move)",a^B(b),eflip(m,n)); INFIX("operator^(move,move)",A(a)^B(b),eflip(m,n));
  op("operator-",[](const A&a,const M&m,const B&b,const M&n)->ST{ A s=a-b; ST e=unch(a,m,b,n); if(!e.empty()) return e; return judge(s,s_subS(m,n)); });
  op("operator-(move,)",[](const A&a,const M&m,const B&b,const M&n)->ST{ A s=A(a)-b; ST e=unch(a,m,b,n); if(!e.empty()) return e; return judge(s,s_subS(m,n)); });
  op("operator-(,move)",[](const A&a,const M&m,const B&b,const M&n)->ST{ A s=a-B(b); ST e=unch(a,m,b,n); if(!e.empty()) return e; return judge(s,s_subS(m,n)); });
#endif
#ifdef B_REL
  op("contains",[](const A&a,const M&m,const B&b,const M&n){ return b2("contains",icl::contains(a,b),subset(n,m)); });
  op("within",[](const A&a,const M&m,const B&b,const M&n){ return b2("within",icl::within(a,b),subset(m,n)); });
  op("intersects",[](const A&a,const M&m,const B&b,const M&n){ return b2("intersects",icl::intersects(a,b),(points(m)&points(n))!=0); });
  op("disjoint",[](const A&a,const M&m,const B&b,const M&n){ return b2("disjoint",icl::disjoint(a,b),(points(m)&points(n))==0); });
  op("inclusion_compare",[](const A&a,const M&m,const B&b,const M&n)->ST{ int g=icl::inclusion_compare(a,b); bool s=subset(m,n), t=subset(n,m); int e=s&&t?icl::inclusion::equal:s?icl::inclusion::subset:t?icl::inclusion::superset:icl::inclusion::unrelated;
    return g==e?ST():"inclusion_compare gives "+str(g)+" but must be "+str(e)+" (0 unrelated, 1 subset, 2 superset, 3 equal)"; });
  same0((A*)0,(B*)0);
#endif
#ifdef B_ORD
  op("is_element_equal",[](const A&a,const M&m,const B&b,const M&n){ return b2("is_element_equal",icl::is_element_equal(a,b),points(m)==points(n)); });
  struct L{ static int cmp(const M&m,const M&n){ unsigned long long p=points(m),q=points(n); if(p==q) return 0; int c=__builtin_ctzll(p^q); bool pm=p>>c&1; unsigned long long rest=pm?q:p; rest=c==63?0:rest>>(c+1)<<(c+1); // at the first difference the other sequence continues with a larger value or ends
      int ifhas = rest? -1: 1; return pm? ifhas: -ifhas; } };
  op("is_element_less",[](const A&a,const M&m,const B&b,const M&n){ return b2("is_element_less",icl::is_element_less(a,b),L::cmp(m,n)<0); });
  op("is_element_greater",[](const A&a,const M&m,const B&b,const M&n){ return b2("is_element_greater",icl::is_element_greater(a,b),L::cmp(m,n)>0); });
  same1((A*)0,(B*)0);
#endif
#ifdef B_CONV
  op("construct from",[](const A&a,const M&m,const B&b,const M&n)->ST{ (void)a;(void)m; A s(b); if(dec(b)!=n) return ST("source was modified"); M e=s_convert(ka,n); return dec(s)==e?ST():"constructed "+show(dec(s))+" must be "+show(e); });
  op("operator=",[](const A&a,const M&m,const B&b,const M&n)->ST{ A s(a); s=b; if(dec(b)!=n) return ST("source was modified"); M e=s_convert(ka,n); if(dec(a)!=m) return ST("a copy shares state with its source"); return dec(s)==e?ST():"assigned "+show(dec(s))+" must be "+show(e); });
  different((A*)0,(B*)0);
  op("copy independence",[](const A&a,const M&m,const B&b,const M&n)->ST{ A s(a), t(s); t+=b; if(dec(s)!=m||dec(a)!=m) return ST("changing a copy changes the source"); A u; u=s; u-=b; if(dec(s)!=m) return ST("changing an assigned copy changes the source"); s.clear(); return ne(dec(u)!=s_subS(m,n),"changing the source changes an assigned copy"); });
  same2((A*)0,(B*)0);
#endif
#ifdef B_DER
  // construction from a value or an interval goes with the first operand of each pair only
#endif
  long na=(long)SA.st.size(), nb=(long)SB.st.size();
  for(long i=0;i<na;++i) for(long j=0;j<nb;++j) for(size_t o=0;o<ops.size();++o){
    ST key; g_pstate=&key; auto mk=[&]{ return "A="+SA.key[i]+" B="+SB.key[j]; };
    g_pathfn=[&]{ key=mk(); return "A: "+SA.path[i]+"  B: "+SB.path[j]; };
    static ST lazy; lazy=ST(); 
    ST e=guarded(key,ops[o].name,true,[&]{ return ops[o].run(SA.st[i],SA.m[i],SB.st[j],SB.m[j]); });
    ++g_trans; ++g_judged;
    if(!e.empty()) violation(mk(),ops[o].name,e+"   A: "+SA.path[i]+"  B: "+SB.path[j]);
    if(g_samples<6 && i>2 && j>2 && (i*31+j*7+o)%997==0) sample(mk()+" "+ops[o].name);
  }
  for(auto&o:ops) g_opcount[opfam(o.name)]+=na*nb;
#ifdef B_CTOR
  { std::vector<Arg<I>> as=all_args<D,I>(true,true);
    for(auto&x:as){ ST k="{}", n="construct(interval "+x.d+")"; ST e=guarded(k,n,true,[&]()->ST{ A s(x.iv); M w=s_add(ka,M(),x.r); if(dec(s)!=w) return ST("set constructed from an interval differs from the interval"); return ST(); }); ++g_trans;++g_judged; if(!e.empty()) violation(k,n,e); }
#ifndef STATIC_CONT
    for(int i=0;i<P;++i){ int c=D::discrete?i:2*i; ST k="{}", n="construct(value "+std::to_string(i)+")"; ST e=guarded(k,n,true,[&]()->ST{ A s(D::pt(i)); return ne(dec(s)!=M(1,Range(c,c)),"set constructed from a value differs from the value"); }); ++g_trans;++g_judged; if(!e.empty()) violation(k,n,e); }
#endif
  }
#endif
#ifdef B_LAW
  { // algebraic laws as the documentation's tables state them: plain equality unless marked element equality
    const int k=ka; 
    auto E=[](const A&x,const A&y){ return x==y; }; auto EE=[](const A&x,const A&y){ return icl::is_element_equal(x,y); };
    typedef std::function<ST(const A&,const A&,const A&)> Law; std::vector<std::pair<ST,Law>> laws, laws2;
#define LAW(N,L,Rr,EL) laws.push_back({N,[=](const A&a,const A&b,const A&c)->ST{ A l=A(L); A r=A(Rr); bool ok=(EL)?EE(l,r):E(l,r); return ok?ST():"left side "+raw_set<D>(l)+" right side "+raw_set<D>(r); }})
#define LAW2(N,L,Rr,EL) laws2.push_back({N,[=](const A&a,const A&b,const A&)->ST{ A l=A(L); A r=A(Rr); bool ok=(EL)?EE(l,r):E(l,r); return ok?ST():"left side "+raw_set<D>(l)+" right side "+raw_set<D>(r); }})
    LAW("Associativity +",(a+b)+c,a+(b+c),0); LAW("Associativity &",(a&b)&c,a&(b&c),0);
    LAW2("Commutativity +",a+b,b+a,0); LAW2("Commutativity &",a&b,b&a,0); LAW2("Neutrality +",a+A(),a,0); LAW2("Neutrality + left",A()+a,a,0);
    LAW2("Inversion -",a-a,A(),0);
    LAW("Distributivity +,&",a+(b&c),(a+b)&(a+c),k==SPLIT); LAW("Distributivity &,+",a&(b+c),(a&b)+(a&c),k==SPLIT);
    LAW("RightDistributivity +,-",(a+b)-c,(a-c)+(b-c),k==SPLIT); LAW("RightDistributivity &,-",(a&b)-c,(a-c)&(b-c),0);
    LAW("DeMorgan +,&",a-(b+c),(a-b)&(a-c),0); LAW("DeMorgan &,+",a-(b&c),(a-b)+(a-c),k!=JOIN);
    LAW2("SymmetricDifference",(a+b)-(b&a),(a-b)+(b-a),0); LAW2("SymmetricDifference ^",a^b,(a-b)+(b-a),0);
    LAW2("Associativity ^ elements",(a^b)^b,a,1); LAW("Associativity ^",(a^b)^c,a^(b^c),1); LAW2("Commutativity ^",a^b,b^a,0);
    LAW2("difference and intersection partition",(a-b)+(a&b),a,1); LAW2("intersection by difference",a&b,a-(a-b),1);
    long lim=param("tri",60); // triples over every stride-th state when there are more
    auto runlaw=[&](std::pair<ST,Law>&L,long i,long j,long l){ ST key=ST(); auto mk=[&]{ return "a="+SA.key[i]+" b="+SA.key[j]+" c="+SA.key[l]; }; g_pstate=&key; g_pathfn=[&]{ key=mk(); return ST(); };
      ST e=guarded(key,L.first,true,[&]{ return L.second(SA.st[i],SA.st[j],SA.st[l]); }); ++g_trans; ++g_judged; if(!e.empty()) violation(mk(),L.first,e); };
    for(long i=0;i<na;++i) for(long j=0;j<na;++j) for(auto&L:laws2) runlaw(L,i,j,0);
    if(na>lim) g_truncated=true;
    for(long i=0;i<std::min(na,lim);++i) for(long j=0;j<std::min(na,lim);++j) for(long l=0;l<std::min(na,lim);++l) for(auto&L:laws) runlaw(L,i,j,l);
    for(auto&L:laws2) g_opcount[L.first]+=na*na; for(auto&L:laws) g_opcount[L.first]+=std::min(na,lim)*std::min(na,lim)*std::min(na,lim);
    sample("laws over "+std::to_string(na)+" states");
  }
#endif
  g_pathfn=nullptr; flush_stats(); return 0;
}
