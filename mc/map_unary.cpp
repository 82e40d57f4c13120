// Interval maps: state space of one map x operations with segments, elements, intervals, keys and iterators.
// -DDOM -DITV -DKINDT=J|X -DTR=<traits> -DCOD=<codomain policy> -DCOMB=<combiner> -DJMODE=0..3 and groups
#include "map_common.hpp"
#include <boost/icl/iterator.hpp>
using namespace mc;
typedef DOM D; typedef COD Cod; typedef MapCfg<D,icl::ITV,Cod,icl::TR,icl::COMB> Cfg; typedef Cfg::KINDT C; typedef Cfg::I I; typedef D::T T; typedef Cod::V V; typedef MapM M;
typedef C::segment_type SegT; typedef C::element_type ElT; typedef C::value_type ValT;
static const int kind=map_kind<C>::v; static Sem S;
#ifndef JMODE
#define JMODE 0
#endif
#define ST std::string
typedef Explorer<C,M> E; static E ex;
static M dec(const C&c){ return decode_map<D,Cod>(c); }
static ST R(const C&c){ return raw_map<D,Cod>(c); }
template<class A,class X> void mut(ST name,A apply,X expect,bool gen=true,bool judged=true){
  ex.ops.push_back(Op<C,M>{name,judged,gen,[=](C&c,const M&m)->ST{ apply(c); return judged? judge_map<D,Cod>(JMODE,S,c,expect(m)):ST(); }}); }
template<class A,class X> void fn(ST name,A apply,X expect){
  ex.ops.push_back(Op<C,M>{name,true,true,[=](C&c,const M&m)->ST{ C r=apply((const C&)c); M now=dec(c); if(now!=m) return ST("operand was modified"); ST e=judge_map<D,Cod>(JMODE,S,r,expect(m)); c=r; return e; }}); }
template<class F> void query(ST name,F f){ ex.ops.push_back(Op<C,M>{name,true,false,[=](C&c,const M&m)->ST{ return f((const C&)c,m); }}); }
template<class F> void mquery(ST name,F f){ ex.ops.push_back(Op<C,M>{name,true,false,[=](C&c,const M&m)->ST{ return f(c,m); }}); }
static ST b2(const char*w,bool got,bool exp){ return got==exp?ST():ST(w)+" gives "+(got?"true":"false")+" but must be "+(exp?"true":"false"); }
static ST ne(bool bad,const char*t){ return bad?ST(t):ST(); }
static long idx(const C&c,C::const_iterator i){ long n=0; for(C::const_iterator k=c.begin();k!=c.end();++k,++n) if(k==i) return n; return i==c.end()?-1:-2; }
static C::iterator nth(C&c,size_t n){ C::iterator i=c.begin(); while(n--) ++i; return i; }
static bool covers(const M&m,Range r){ Fun f=fun(m); for(int k=r.a;k<=r.b;++k) if(!f.count(k)) return false; return true; }
static bool covers(const M&m,Range r,long v){ Fun f=fun(m); for(int k=r.a;k<=r.b;++k) if(!f.count(k)||f[k]!=v) return false; return true; }
static bool meets(const M&m,Range r){ for(auto&e:m) if(!cap(e.r(),r).empty()) return true; return false; }
static ElT el(T k,V v){ return ElT(k,v); }

int main(int argc,char**argv){
  init2(argc,argv); P=(int)param("P",4); ex.cap=param("cap",200000); ex.maxdepth=(int)param("depth",1000000); bool allrep=param("allrep",1);
  g_cfg=CFGNAME; S=make_sem<Cod,icl::COMB,icl::TR>(kind);
  ex.decode=dec; ex.raw=R; ex.admissible=[](const M&m){ return map_admissible<Cod>(kind,S.absorber,m); };
  std::vector<Arg<I>> A=all_args<D,I>(true,allrep), NE; for(auto&a:A) if(!a.r.empty()) NE.push_back(a);
  std::vector<long> VC=Cod::codes(); if(param("nval",99)<(long)VC.size()){ std::vector<long> w(VC.begin(),VC.begin()+param("nval",99)); if(param("withid",1)&&std::find(w.begin(),w.end(),0l)==w.end()) w.push_back(0); VC=w; }
  int N=ncells<D>(); (void)N;
  // ---- generators: set a value on an interval (erase, then insert) and erase; every state of the map type is reachable through them and add
  for(auto&a:NE){ Arg<I> x=a; mut("erase("+x.d+")",[x](C&c){ c.erase(x.iv); },[](const M&m){return m;},true,false);
    for(long v:VC){ V w=Cod::val(v); mut("set("+x.d+","+std::to_string(v)+")",[x,w](C&c){ c.set(SegT(x.iv,w)); },[](const M&m){return m;},true,false); } }
  for(auto&a:A){ Arg<I> x=a; Range r=x.r; 
    for(long v:VC){ V w=Cod::val(v); ST X="("+x.d+"->"+std::to_string(v)+")"; SegT s(x.iv,w); (void)s;
      auto eadd=[r,v](const M&m){return m_add(S,m,r,v);}; auto esub=[r,v](const M&m){return m_sub(S,m,r,v);}; auto eins=[r,v](const M&m){return m_insert(S,m,r,v);}; auto eset=[r,v](const M&m){return m_set(S,m,r,v);};
      auto eera=[r,v](const M&m){return m_erase_v(S,m,r,v);}; auto eand=[r,v](const M&m){return m_and(S,m,r,v);}; auto eflip=[r,v](const M&m){return m_flip(S,m,r,v);}; (void)eadd;(void)esub;(void)eins;(void)eset;(void)eera;(void)eand;(void)eflip;
#ifdef G_ADD
      mut("add"+X,[s](C&c){ c.add(s); },eadd); mut("operator+="+X,[s](C&c){ c+=s; },eadd); mut("operator|="+X,[s](C&c){ c|=s; },eadd); mut("icl::add"+X,[s](C&c){ icl::add(c,s); },eadd);
      mut("add(begin-hint)"+X,[s](C&c){ c.add(c.begin(),s); },eadd);  mut("icl::add(end-hint)"+X,[s](C&c){ icl::add(c,c.end(),s); },eadd);
      fn("operator+"+X,[s](const C&c){ return C(c+s); },eadd); fn("operator+(rev)"+X,[s](const C&c){ return C(s+c); },eadd);
      fn("operator+(move)"+X,[s](const C&c){ return C(C(c)+s); },eadd); fn("operator+(rev,move)"+X,[s](const C&c){ return C(s+C(c)); },eadd);
      fn("operator|"+X,[s](const C&c){ return C(c|s); },eadd); fn("operator|(rev)"+X,[s](const C&c){ return C(s|c); },eadd); fn("operator|(move)"+X,[s](const C&c){ return C(C(c)|s); },eadd);
#endif
#ifdef G_ADDX
      mut("add"+X,[s](C&c){ c.add(s); },eadd); mut("operator+="+X,[s](C&c){ c+=s; },eadd); mut("add(begin-hint)"+X,[s](C&c){ c.add(c.begin(),s); },eadd); mut("add(end-hint)"+X,[s](C&c){ c.add(c.end(),s); },eadd); 
#endif
#ifdef G_SUB
      mut("subtract"+X,[s](C&c){ c.subtract(s); },esub); mut("operator-="+X,[s](C&c){ c-=s; },esub); mut("icl::subtract"+X,[s](C&c){ icl::subtract(c,s); },esub);
      fn("operator-"+X,[s](const C&c){ return C(c-s); },esub); fn("operator-(move)"+X,[s](const C&c){ return C(C(c)-s); },esub);
#endif
#ifdef G_INS
      mut("insert"+X,[s](C&c){ c.insert(s); },eins); mut("icl::insert"+X,[s](C&c){ icl::insert(c,s); },eins); mut("insert(begin-hint)"+X,[s](C&c){ c.insert(c.begin(),s); },eins); mut("icl::insert(end-hint)"+X,[s](C&c){ icl::insert(c,c.end(),s); },eins);
      mut("set"+X,[s](C&c){ c.set(s); },eset); mut("icl::set_at"+X,[s](C&c){ icl::set_at(c,s); },eset);
      mut("erase"+X,[s](C&c){ c.erase(s); },eera); mut("icl::erase"+X,[s](C&c){ icl::erase(c,s); },eera);
#endif
#ifdef G_AND
      mut("operator&="+X,[s](C&c){ c&=s; },eand); fn("operator&"+X,[s](const C&c){ return C(c&s); },eand); fn("operator&(rev)"+X,[s](const C&c){ return C(s&c); },eand); fn("operator&(move)"+X,[s](const C&c){ return C(C(c)&s); },eand); fn("operator&(rev,move)"+X,[s](const C&c){ return C(s&C(c)); },eand);
      fn("add_intersection"+X,[s](const C&c){ C t; icl::add_intersection(t,c,s); return t; },eand);
#endif
#ifdef G_FLIP
      mut("operator^="+X,[s](C&c){ c^=s; },eflip); mut("flip"+X,[s](C&c){ c.flip(s); },eflip); mut("icl::flip"+X,[s](C&c){ icl::flip(c,s); },eflip); fn("operator^"+X,[s](const C&c){ return C(c^s); },eflip); fn("operator^(rev)"+X,[s](const C&c){ return C(s^c); },eflip);
      fn("operator^(move)"+X,[s](const C&c){ return C(C(c)^s); },eflip); fn("operator^(rev,move)"+X,[s](const C&c){ return C(s^C(c)); },eflip);
#endif
#ifdef G_HINT
      for(int h=0;h<=P+1;++h){ ST H="(hint "+std::to_string(h)+","+x.d+"->"+std::to_string(v)+")"; SegT s2(A[h%A.size()].iv,Cod::val(VC[h%VC.size()]));
        auto q=[](C::iterator it,C&c){ if(it==c.end()) return true; for(C::iterator k=c.begin();k!=c.end();++k) if(k==it) return true; return false; };
        ex.ops.push_back(Op<C,M>{"add"+H,true,true,[s,h,q](C&c,const M&m)->ST{ if(h>(int)m.size()) return ST(); C p(c); p.add(s); C::iterator it=c.add(nth(c,h),s); if(dec(c)!=dec(p)) return "with hint: "+show(dec(c))+" without: "+show(dec(p)); return ne(!q(it,c),"returned iterator is not a position of the container"); }});
        ex.ops.push_back(Op<C,M>{"insert"+H,true,true,[s,h,q](C&c,const M&m)->ST{ if(h>(int)m.size()) return ST(); C p(c); p.insert(s); C::iterator it=c.insert(nth(c,h),s); if(dec(c)!=dec(p)) return "with hint: "+show(dec(c))+" without: "+show(dec(p)); return ne(!q(it,c),"returned iterator is not a position of the container"); }});
        ex.ops.push_back(Op<C,M>{"icl::add"+H,true,false,[s,h](C&c,const M&m)->ST{ if(h>(int)m.size()) return ST(); C p(c); p.add(s); icl::add(c,nth(c,h),s); return ne(dec(c)!=dec(p),"add with hint differs"); }});
        ex.ops.push_back(Op<C,M>{"icl::insert"+H,true,false,[s,h](C&c,const M&m)->ST{ if(h>(int)m.size()) return ST(); C p(c); p.insert(s); icl::insert(c,nth(c,h),s); return ne(dec(c)!=dec(p),"insert with hint differs"); }});
        ex.ops.push_back(Op<C,M>{"adder"+H,true,false,[s,s2,h](C&c,const M&m)->ST{ if(h>(int)m.size()) return ST(); C p(c); p.add(s); p.add(s2); std::vector<SegT> src; src.push_back(s); src.push_back(s2); std::copy(src.begin(),src.end(),icl::adder(c,nth(c,h))); return ne(dec(c)!=dec(p),"filling through the adding iterator differs from adding"); }});
        ex.ops.push_back(Op<C,M>{"inserter"+H,true,false,[s,s2,h](C&c,const M&m)->ST{ if(h>(int)m.size()) return ST(); C p(c); p.insert(s); p.insert(s2); std::vector<SegT> src; src.push_back(s); src.push_back(s2); std::copy(src.begin(),src.end(),icl::inserter(c,nth(c,h))); return ne(dec(c)!=dec(p),"filling through the inserting iterator differs from inserting"); }}); }
#endif
#ifdef Q_CONT
      bool tot=S.total; (void)tot;
      query("contains"+X,[s,r,v](const C&c,const M&m){ return b2("contains",icl::contains(c,s),covers(m,r,v)); });
      query("within"+X,[s,r,v](const C&c,const M&m){ return b2("within",icl::within(s,c),covers(m,r,v)); });
      query("intersects"+X,[s,r,v](const C&c,const M&m){ return b2("intersects",icl::intersects(c,s),S.total||!m_and(S,m,r,v).empty()); });
      query("disjoint"+X,[s,r,v](const C&c,const M&m){ return b2("disjoint",icl::disjoint(c,s),!(S.total||!m_and(S,m,r,v).empty())); });
#endif
    }
    ST X="("+x.d+")"; auto eerase=[r](const M&m){return m_erase(m,r);}; auto eclip=[r](const M&m){return m_normal(S.kind,m_clip(S,m,r));}; (void)eerase;(void)eclip;
#if defined(G_INS)
    mut("erase"+X,[x](C&c){ c.erase(x.iv); },eerase); mut("icl::erase"+X,[x](C&c){ icl::erase(c,x.iv); },eerase); mut("operator-="+X,[x](C&c){ c-=x.iv; },eerase); fn("operator-"+X,[x](const C&c){ return C(c-x.iv); },eerase); mut("icl::subtract"+X,[x](C&c){ icl::subtract(c,x.iv); },eerase);
    fn("operator-(move)"+X,[x](const C&c){ return C(C(c)-x.iv); },eerase);
#endif
#ifdef G_AND
    mut("operator&="+X,[x](C&c){ c&=x.iv; },eclip); fn("operator&"+X,[x](const C&c){ return C(c&x.iv); },eclip); fn("operator&(rev)"+X,[x](const C&c){ return C(x.iv&c); },eclip); fn("add_intersection"+X,[x](const C&c){ C t; icl::add_intersection(t,c,x.iv); return t; },eclip);
    fn("operator&(move)"+X,[x](const C&c){ return C(C(c)&x.iv); },eclip);
#endif
#ifdef Q_CONT
#ifndef TOTALMAP
    query("contains"+X,[x,r](const C&c,const M&m){ return b2("contains",icl::contains(c,x.iv),covers(m,r)); });
    query("within"+X,[x,r](const C&c,const M&m){ return b2("within",icl::within(x.iv,c),covers(m,r)); });
#else
    query("contains"+X,[x](const C&c,const M&){ return b2("contains",icl::contains(c,x.iv),true); });
#endif
    query("intersects"+X,[x,r](const C&c,const M&m){ return b2("intersects",icl::intersects(c,x.iv),meets(m,r)); });
    query("disjoint"+X,[x,r](const C&c,const M&m){ return b2("disjoint",icl::disjoint(c,x.iv),!meets(m,r)); });
#endif
#ifdef Q_LOOK
    if(!r.empty()){
      auto bounds=[r](const M&m,int&lo,int&up){ lo=up=0; for(auto&s:m){ if(s.b<r.a) ++lo; if(s.a<=r.b) ++up; } };
      query("find"+X,[x,r](const C&c,const M&m)->ST{ long e=-1; for(size_t i=0;i<m.size();++i) if(!cap(m[i].r(),r).empty()){ e=(long)i; break; }
        long g=idx(c,c.find(x.iv)); if(g==e && idx(c,icl::find(c,x.iv))!=e) return ST("free find differs"); return g==e?ST():"finds segment #"+std::to_string(g)+" but must find #"+std::to_string(e); });
      query("bounds"+X,[x,bounds](const C&c,const M&m)->ST{ int lo,up; bounds(m,lo,up); int n=(int)m.size(); auto pos=[&](C::const_iterator i){ long k=idx(c,i); return k==-1?n:(int)k; };
        if(pos(c.lower_bound(x.iv))!=lo) return ST("lower_bound"); if(pos(c.upper_bound(x.iv))!=up) return ST("upper_bound"); auto er=c.equal_range(x.iv); return ne(pos(er.first)!=lo||pos(er.second)!=up,"equal_range does not delimit the overlapping segments"); });
      mquery("mutable bounds"+X,[x,bounds](C&c,const M&m)->ST{ int lo,up; bounds(m,lo,up); int n=(int)m.size(); auto pos=[&](C::const_iterator i){ long k=idx(c,i); return k==-1?n:(int)k; };
        if(pos(c.lower_bound(x.iv))!=lo) return ST("lower_bound"); if(pos(c.upper_bound(x.iv))!=up) return ST("upper_bound"); std::pair<C::iterator,C::iterator> er=c.equal_range(x.iv); return ne(pos(er.first)!=lo||pos(er.second)!=up,"equal_range does not delimit the overlapping segments"); });
    }
#endif
  }
#if !defined(STATIC_CONT)
  for(int i=0;i<P;++i){ int c0=D::discrete?i:2*i; Range r(c0,c0); T k=D::pt(i); ST K="(key "+std::to_string(i)+")"; (void)k; (void)r;
    for(long v:VC){ ElT e=el(k,Cod::val(v)); (void)e; ST X="(key "+std::to_string(i)+"->"+std::to_string(v)+")";
      auto eadd=[r,v](const M&m){return m_add(S,m,r,v);}; auto esub=[r,v](const M&m){return m_sub(S,m,r,v);}; auto eins=[r,v](const M&m){return m_insert(S,m,r,v);}; auto eset=[r,v](const M&m){return m_set(S,m,r,v);};
      auto eera=[r,v](const M&m){return m_erase_v(S,m,r,v);}; auto eand=[r,v](const M&m){return m_and(S,m,r,v);}; auto eflip=[r,v](const M&m){return m_flip(S,m,r,v);}; (void)eadd;(void)esub;(void)eins;(void)eset;(void)eera;(void)eand;(void)eflip;
#ifdef G_ADD
      mut("add"+X,[e](C&c){ c.add(e); },eadd); mut("operator+="+X,[e](C&c){ c+=e; },eadd); mut("operator|="+X,[e](C&c){ c|=e; },eadd); mut("icl::add"+X,[e](C&c){ icl::add(c,e); },eadd); fn("operator+"+X,[e](const C&c){ return C(c+e); },eadd); fn("operator+(rev)"+X,[e](const C&c){ return C(e+c); },eadd);
#endif
#ifdef G_SUB
      mut("subtract"+X,[e](C&c){ c.subtract(e); },esub); mut("operator-="+X,[e](C&c){ c-=e; },esub); mut("icl::subtract"+X,[e](C&c){ icl::subtract(c,e); },esub); fn("operator-"+X,[e](const C&c){ return C(c-e); },esub);
#endif
#ifdef G_INS
      mut("insert"+X,[e](C&c){ c.insert(e); },eins); mut("icl::insert"+X,[e](C&c){ icl::insert(c,e); },eins); mut("set"+X,[e](C&c){ c.set(e); },eset); mut("icl::set_at"+X,[e](C&c){ icl::set_at(c,e); },eset); mut("erase"+X,[e](C&c){ c.erase(e); },eera); mut("icl::erase"+X,[e](C&c){ icl::erase(c,e); },eera);
#endif
#ifdef G_AND
      mut("operator&="+X,[e](C&c){ c&=e; },eand); fn("operator&"+X,[e](const C&c){ return C(c&e); },eand); fn("operator&(rev)"+X,[e](const C&c){ return C(e&c); },eand);
#endif
#ifdef G_FLIP
      mut("operator^="+X,[e](C&c){ c^=e; },eflip); mut("flip"+X,[e](C&c){ c.flip(e); },eflip); mut("icl::flip"+X,[e](C&c){ icl::flip(c,e); },eflip); fn("operator^"+X,[e](const C&c){ return C(c^e); },eflip); fn("operator^(rev)"+X,[e](const C&c){ return C(e^c); },eflip);
#endif
#ifdef Q_CONT
      query("contains"+X,[e,r,v](const C&c,const M&m){ return b2("contains",icl::contains(c,e),covers(m,r,v)); }); query("within"+X,[e,r,v](const C&c,const M&m){ return b2("within",icl::within(e,c),covers(m,r,v)); });
      query("intersects"+X,[e,r,v](const C&c,const M&m){ return b2("intersects",icl::intersects(c,e),S.total||!m_and(S,m,r,v).empty()); });
      query("disjoint"+X,[e,r,v](const C&c,const M&m){ return b2("disjoint",icl::disjoint(c,e),!(S.total||!m_and(S,m,r,v).empty())); });
#endif
    }
    auto eerase=[r](const M&m){return m_erase(m,r);}; auto eclip=[r](const M&m){return m_normal(S.kind,m_clip(S,m,r));}; (void)eerase;(void)eclip;
#ifdef G_INS
    mut("erase"+K,[k](C&c){ c.erase(k); },eerase); mut("icl::erase"+K,[k](C&c){ icl::erase(c,k); },eerase); mut("operator-="+K,[k](C&c){ c-=k; },eerase); mut("icl::subtract"+K,[k](C&c){ icl::subtract(c,k); },eerase); fn("operator-"+K,[k](const C&c){ return C(c-k); },eerase);
#endif
#ifdef G_AND
    mut("operator&="+K,[k](C&c){ c&=k; },eclip); fn("operator&"+K,[k](const C&c){ return C(c&k); },eclip); fn("operator&(rev)"+K,[k](const C&c){ return C(k&c); },eclip); fn("add_intersection"+K,[k](const C&c){ C t; icl::add_intersection(t,c,k); return t; },eclip);
#endif
  }
#endif
#ifdef G_INS
  for(int i=0;i<P+1;++i){ mut("erase(iterator "+std::to_string(i)+")",[i](C&c){ if(i<(int)icl::iterative_size(c)) c.erase(nth(c,i)); },[i](const M&m){ M r=m; if(i<(int)m.size()) r.erase(r.begin()+i); return r; });
    for(int j=i;j<=P+1;++j) mut("erase(iterators "+std::to_string(i)+","+std::to_string(j)+")",[i,j](C&c){ int n=(int)icl::iterative_size(c); if(j<=n) c.erase(nth(c,i),nth(c,j)); },[i,j](const M&m){ M r=m; if(j<=(int)m.size()) r.erase(r.begin()+i,r.begin()+j); return r; }); }
#endif
#ifdef G_CONV
  mut("icl::join()",[](C&c){ icl::join(c); },[](const M&m){ return m_normal(JOIN,m); });
  fn("copy",[](const C&c){ return C(c); },[](const M&m){ return m; });
  fn("move",[](const C&c){ C d(c); return C(std::move(d)); },[](const M&m){ return m; });
  mut("assign",[](C&c){ C d; if(!c.empty()) d.add(*c.begin()); d=c; c=d; },[](const M&m){ return m; });
  mut("move assign",[](C&c){ C d(c); c.clear(); c=std::move(d); },[](const M&m){ return m; });
  mut("swap",[](C&c){ C d; d.swap(c); c.swap(d); },[](const M&m){ return m; });
#endif
#ifdef G_MISC
  mut("clear()",[](C&c){ c.clear(); },[](const M&){ return M(); }); mut("icl::clear()",[](C&c){ icl::clear(c); },[](const M&){ return M(); });
  mut("icl::join()",[](C&c){ icl::join(c); },[](const M&m){ return m_normal(JOIN,m); });
  mut("absorb_identities()",[](C&c){ icl::absorb_identities(c); },[](const M&m){ M r; for(auto&e:m) if(e.v!=S.id) r.push_back(e); return r; });
#endif
#ifdef Q_CONT
  for(int k=0;k<N;++k){ T t=cellval<D>(k); ST X="(key-cell "+std::to_string(k)+")"; Range r(k,k);
#ifndef TOTALMAP
    query("contains"+X,[t,r](const C&c,const M&m){ return b2("contains",icl::contains(c,t),covers(m,r)); }); query("within"+X,[t,r](const C&c,const M&m){ return b2("within",icl::within(t,c),covers(m,r)); });
#ifndef STATIC_CONT
    query("intersects"+X,[t,r](const C&c,const M&m){ return b2("intersects",icl::intersects(c,t),covers(m,r)); }); query("disjoint"+X,[t,r](const C&c,const M&m){ return b2("disjoint",icl::disjoint(c,t),!covers(m,r)); });
#endif
#else
    query("contains"+X,[t](const C&c,const M&){ return b2("contains",icl::contains(c,t),true); });
#endif
    for(long v:VC){ ElT e=el(t,Cod::val(v)); query("contains(key-cell "+std::to_string(k)+"->"+std::to_string(v)+")",[e,r,v](const C&c,const M&m){ return b2("contains",icl::contains(c,e),covers(m,r,v)); }); } }
#endif
#if defined(Q_LOOK) || defined(Q_TOTAL)
  for(int k=0;k<N;++k){ T t=cellval<D>(k); ST X="(key-cell "+std::to_string(k)+")";
    query("find"+X,[t,k](const C&c,const M&m)->ST{ long e=-1; for(size_t i=0;i<m.size();++i) if(m[i].r().has(k)) e=(long)i; long g=idx(c,c.find(t)); if(idx(c,icl::find(c,t))!=g) return ST("free find differs from member find"); return g==e?ST():"finds segment #"+std::to_string(g)+" but must find #"+std::to_string(e); });
    query("operator()"+X,[t,k](const C&c,const M&m)->ST{ Fun f=fun(m); long e=f.count(k)?f[k]:S.id; long g=Cod::code(c(t)); return g==e?ST():"value function gives "+std::to_string(g)+" but must give "+std::to_string(e); }); }
#ifndef NO_OUTSIDE
  for(int s=0;s<2;++s){ if(D::discrete){ int i=s?D::hi():D::lo(); if(i>=0&&i<P) continue; T t=D::pt(i); query(ST("find(outside ")+(s?"right":"left")+")",[t](const C&c,const M&){ return ne(c.find(t)!=c.end()||Cod::code(c(t))!=S.id,"finds a key outside of the contents"); }); } }
#endif
#endif
#ifdef Q_SIZE
  query("size()",[](const C&c,const M&m)->ST{ SetM dm=normal(dom(m)); unsigned long long p=points(dm); int n=__builtin_popcountll(p);
    if(icl::interval_count(c)!=m.size()||icl::iterative_size(c)!=m.size()) return ST("interval_count/iterative_size");
    if(icl::is_empty(c)!=(p==0)) return ST("is_empty"); typedef C::size_type Z;
    if(D::discrete){
#ifndef NO_COUNT
      Z zn=zlen<Z,D>(n); if(!(icl::cardinality(c)==zn)) return "cardinality is "+str(icl::cardinality(c))+" must be "+str(n); if(!(c.size()==zn)||!((icl::size)(c)==zn)) return ST("size is not the number of keys");
#endif
#ifndef NO_LENGTH
      if(icl::length(c)!=(C::difference_type)len<D>(n)) return ST("length is not the number of keys");
#endif
    } else { bool inf=false; for(int k=1;k<ncells<D>();k+=2) if(p>>k&1) inf=true; Z e=inf? icl::infinity<Z>::value() : zlen<Z,D>(n); if(icl::cardinality(c)!=e||c.size()!=e||(icl::size)(c)!=e) return ST("cardinality must be ")+(inf?"infinite":str(n));
#ifndef NO_LENGTH
      long g=0; for(int k=1;k<ncells<D>();k+=2) if(p>>k&1) ++g; if(icl::length(c)!=(C::difference_type)len<D>((int)g)) return ST("length is not the sum of the segment lengths");
#endif
    } return ST(); });
  query("hull()",[](const C&c,const M&m)->ST{ Range h=decode<D>((I)icl::hull(c)); Range e=m.empty()?Range(0,-1):Range(m.front().a,m.back().b); if(m.empty()) return ne(!h.empty(),"hull of empty must be empty"); if(h!=e) return "hull is "+show(h)+" must be "+show(e);
    if(!(icl::lower(c)==icl::lower(c.begin()->first))) return ST("lower is not the lower bound of the first segment"); if(!(icl::upper(c)==icl::upper(c.rbegin()->first))) return ST("upper is not the upper bound of the last segment");
#if !defined(CONTDOM)
    if(!(icl::first(c)==D::pt(e.a))) return ST("first is not the smallest key"); if(!(icl::last(c)==D::pt(e.b))) return ST("last is not the largest key");
#endif
    return ST(); });
#ifndef NO_DISTANCE
  query("distance()",[](const C&c,const M&m)->ST{ unsigned long long p=points(normal(dom(m))); long g=0; if(!m.empty()) for(int k=m.front().a;k<=m.back().b;++k) if(!(p>>k&1)) if(D::discrete||k%2==1) ++g; return ne(icl::distance(c)!=(C::difference_type)len<D>((int)g),"distance is not the total size of the gaps"); });
#endif
  for(int old=0;old<3;++old) query("between("+ST(old?"non-empty destination "+std::to_string(old):"")+")",[NE,old](const C&c,const M&m)->ST{ Cfg::SJ g; if(old&&!NE.empty()) g.add((old==1?NE.front():NE.back()).iv); icl::between(g,c); unsigned long long p=points(normal(dom(m))), e=0; if(!m.empty()) for(int k=m.front().a;k<=m.back().b;++k) if(!(p>>k&1)) e|=1ull<<k; SetM q; for(auto&i:g) q.push_back(decode<D>(i)); return ne(points(q)!=e,"between is not the set of gaps"); });
#endif
#if defined(Q_SIZE) || defined(G_AND)
  for(int old=0;old<3;++old) query("domain("+ST(old?"non-empty destination "+std::to_string(old):"")+")",[NE,old](const C&c,const M&m)->ST{ Cfg::SJ g; if(old&&!NE.empty()) g.add((old==1?NE.front():NE.back()).iv); icl::domain(g,c); Cfg::SX h; if(old&&!NE.empty()) h.add((old==1?NE.front():NE.back()).iv); icl::domain(h,c); SetM q,w; for(auto&i:g) q.push_back(decode<D>(i)); for(auto&i:h) w.push_back(decode<D>(i)); if(q!=normal(dom(m))) return ST("domain into a joining set"); return ne(w!=dom(m),"domain into a splitting set must keep all segments"); });
#endif
#ifdef Q_ELEM
  query("elements()",[](const C&c,const M&m)->ST{ typedef std::pair<int,long> E2; std::vector<E2> f,b,e,r; for(auto&s:m) for(int k=s.a;k<=s.b;++k) e.push_back(E2(k,s.v)); r=e; std::reverse(r.begin(),r.end());
    size_t g=0; for(C::element_const_iterator i=icl::elements_begin(c);i!=icl::elements_end(c);++i){ f.push_back(E2(cell_of<D>((*i).first),Cod::code((*i).second))); if(++g>1000) return ST("forward element iteration does not end"); } if(f!=e) return ST("forward element iteration does not list the key-value pairs");
    g=0; for(C::element_const_reverse_iterator i=icl::elements_rbegin(c);i!=icl::elements_rend(c);++i){ b.push_back(E2(cell_of<D>((*i).first),Cod::code((*i).second))); if(++g>1000) return ST("reverse element iteration does not end"); } if(b!=r) return ST("reverse element iteration does not list the pairs backwards");
    f.clear(); g=0; for(auto i=icl::elements_begin(c);i!=icl::elements_end(c);i++){ f.push_back(E2(cell_of<D>(i->first),Cod::code(i->second))); if(++g>1000) return ST("no end"); } return ne(f!=e,"post-increment iteration"); });
  // key-value pairs read through element iterators compare, convert and copy like pairs
  query("elements(compare)",[](const C&c,const M&m)->ST{ typedef std::pair<T,V> PV; std::vector<PV> e; for(C::element_const_iterator i=icl::elements_begin(c);i!=icl::elements_end(c);++i){ PV p=*i; if(!(p.first==(*i).first)||!(p.second==(*i).second)) return ST("conversion to a pair"); e.push_back(p); }
    size_t a=0; for(auto i=icl::elements_begin(c);i!=icl::elements_end(c);++i,++a) for(size_t b=0;b<e.size();++b){ auto ref=*i; if((ref==e[b])!=(a==b)) return ST("== of element references"); if((ref!=e[b])!=(a!=b)) return ST("!= of element references"); if((ref<e[b])!=(a<b)&&!is_rev<D>::v) return ST("< of element references"); if((ref>e[b])!=(a>b)&&!is_rev<D>::v) return ST("> of element references"); if((ref<=e[b])!=(a<=b)&&!is_rev<D>::v) return ST("<= of element references"); if((ref>=e[b])!=(a>=b)&&!is_rev<D>::v) return ST(">= of element references"); if((e[b]==ref)!=(a==b)||(e[b]<ref)!=(b<a)&&!is_rev<D>::v) return ST("comparison of a pair with an element reference"); }
    return ST(); });
  query("elements(walk)",[](const C&c,const M&m)->ST{ typedef std::pair<int,long> E2; std::vector<E2> e; for(auto&s:m) for(int k=s.a;k<=s.b;++k) e.push_back(E2(k,s.v)); int n=(int)e.size(); auto rd=[](auto i){ return E2(cell_of<D>((*i).first),Cod::code((*i).second)); };
    for(int from=0;from<=n;++from) for(int w=0;w<16;++w){ C::element_const_iterator i=icl::elements_begin(c); for(int k=0;k<from;++k) ++i; int at=from; bool ok=true; for(int q=0;q<4&&ok;++q){ if(w>>q&1){ if(at<n){ ++i; ++at; } else ok=false; } else { if(at>0){ --i; --at; } else ok=false; } if(at<n && rd(i)!=e[at]) return ST("zig-zag walk reads a wrong pair"); } }
    for(int from=0;from<=n;++from) for(int w=0;w<16;++w){ C::element_const_reverse_iterator i=icl::elements_rbegin(c); for(int k=0;k<from;++k) ++i; int at=from; bool ok=true; for(int q=0;q<4&&ok;++q){ if(w>>q&1){ if(at<n){ ++i; ++at; } else ok=false; } else { if(at>0){ --i; --at; } else ok=false; } if(at<n && rd(i)!=e[n-1-at]) return ST("reverse zig-zag walk reads a wrong pair"); } }
    return ST(); });
#endif
#ifdef Q_STREAM
  query("operator<<",[](const C&c,const M&)->ST{ std::ostringstream o; o<<c; ST e="{"; auto val=[](const V&v){ std::ostringstream z; using namespace boost::icl; z<<v; return z.str(); }; for(C::const_iterator i=c.begin();i!=c.end();++i){ int b=IT<I>::b(i->first); std::ostringstream q; q<<"("<<((b&2)?"[":"(")<<lo_(i->first)<<","<<up_(i->first)<<((b&1)?"]":")")<<"->"<<val(i->second)<<")"; e+=q.str(); } e+="}"; return o.str()==e?ST():"prints "+o.str()+" but must print "+e; });
#endif
#ifdef G_ALIAS
  for(int k=0;k<=P;++k){ ST X="(own segment "+std::to_string(k)+")";
#define ALIAS(NAME,CALL) ex.ops.push_back(Op<C,M>{ST(NAME)+X,true,false,[k](C&c,const M&m)->ST{ if(k>=(int)m.size()) return ST(); C d(c); ValT copy(*nth(d,k)); { C& s=d; const ValT& x=copy; (void)x; CALL; } { C& s=c; const ValT& x=*nth(c,k); (void)x; CALL; } return dec(c)==dec(d)?ST():"aliased gives "+R(c)+" but with an independent copy "+R(d); }})
    ALIAS("erase(key)",s.erase(x.first)); ALIAS("operator-=(key)",s-=x.first); ALIAS("operator&=(key)",s&=x.first); ALIAS("icl::erase(key)",icl::erase(s,x.first)); ALIAS("icl::subtract(key)",icl::subtract(s,x.first));
    ALIAS("add",s.add(x)); ALIAS("operator+=",s+=x); ALIAS("insert",s.insert(x)); ALIAS("set",s.set(x)); ALIAS("operator&=",s&=x); ALIAS("operator+",s=s+x); ALIAS("operator&",s=s&x); ALIAS("add(hint)",s.add(s.begin(),x)); ALIAS("insert(hint)",s.insert(s.begin(),x));
    ALIAS("erase",s.erase(x)); ALIAS("contains",icl::contains(s,x));
    ALIAS("add own value",s.add(SegT(icl::hull(s),x.second))); 
#ifndef NO_SUB
    ALIAS("subtract",s.subtract(x)); ALIAS("operator-=",s-=x); ALIAS("operator-",s=s-x); 
#endif
#ifndef NO_FLIP
    ALIAS("operator^=",s^=x); ALIAS("flip",s.flip(x)); ALIAS("operator^",s=s^x);
#endif
  }
#define SELF(NAME,CALL,EXP) ex.ops.push_back(Op<C,M>{ST(NAME)+"(self)",true,false,[](C&c,const M&m)->ST{ C d0(c); const C d(c); (void)d; CALL; M g=dec(c); C& s=d0; EXP; M e=dec(s); return g==e?ST():"with itself as operand gives "+show(g)+" but with an independent copy "+show(e); }})
  SELF("operator+=",c+=c,s+=d); SELF("operator|=",c|=c,s|=d); SELF("operator&=",c&=c,s&=d); SELF("icl::insert",icl::insert(c,c),icl::insert(s,d)); SELF("icl::erase",icl::erase(c,c),icl::erase(s,d));
  SELF("operator+",c=c+c,s=s+d); SELF("operator&",c=c&c,s=s&d); SELF("operator=",c=*&c,s=d); SELF("swap",c.swap(c),s=d);
#ifndef NO_SUB
  SELF("operator-=",c-=c,s-=d); SELF("operator-",c=c-c,s=s-d);
#endif
#ifndef NO_FLIP
  SELF("operator^=",c^=c,s^=d); SELF("icl::flip",icl::flip(c,c),icl::flip(s,d)); SELF("operator^",c=c^c,s=s^d);
#endif
  query("relations(self)",[](const C&c,const M&m)->ST{ if(!(c==c)||c!=c) return ST("comparison with itself"); if(!icl::contains(c,c)||!icl::within(c,c)) return ST("containment of itself"); (void)m; return ST(); });
#endif
#ifdef G_PRED
  for(int pr=0;pr<6;++pr){ auto pred=[pr](const ValT&x){ Range r=decode<D>(x.first); long v=Cod::code(x.second); switch(pr){ case 0:return true; case 1:return false; case 2:return (r.b-r.a)%2==0; case 3:return v==1; case 4:return r.a>0; default:return r.a%2==1; } };
    auto mp=[pr](const MSeg&e){ switch(pr){ case 0:return true; case 1:return false; case 2:return (e.b-e.a)%2==0; case 3:return e.v==1; case 4:return e.a>0; default:return e.a%2==1; } }; ST X="(predicate "+std::to_string(pr)+")";
    mut("erase_if"+X,[pred](C&c){ icl::erase_if(pred,c); },[mp](const M&m){ M r; for(auto&e:m) if(!mp(e)) r.push_back(e); return r; });
    for(auto&a:NE){ if(IT<I>::dyn&&a.d[0]!='[') continue; Arg<I> x=a; long v=VC[0]; 
      ex.ops.push_back(Op<C,M>{"add_if(predicate "+std::to_string(pr)+" into "+x.d+")",true,false,[=](C&c,const M&m)->ST{ C t; t.add(SegT(x.iv,Cod::val(v))); M e=m_add(S,M(),x.r,v); for(auto&s:m) if(mp(s)) e=m_add(S,e,s.r(),s.v); icl::add_if(pred,t,(const C&)c); if(!(dec(c)==m)) return ST("source was modified"); return judge_map<D,Cod>(JMODE,S,t,e); }});
      ex.ops.push_back(Op<C,M>{"assign_if(predicate "+std::to_string(pr)+" into "+x.d+")",true,false,[=](C&c,const M&m)->ST{ C t; t.add(SegT(x.iv,Cod::val(v))); M e; for(auto&s:m) if(mp(s)) e=m_add(S,e,s.r(),s.v); icl::assign_if(pred,t,(const C&)c); if(!(dec(c)==m)) return ST("source was modified"); return judge_map<D,Cod>(JMODE,S,t,e); }}); }
  }
#endif
  ex.run(C());
  flush_stats(); return 0;
}
