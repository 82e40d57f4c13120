// Interval sets: state space of one container x operations with values, intervals and iterators.
// -DDOM=<domain> -DITV=<interval template> -DKINDT=J|S|X -DJMODE=0|1|2 and operation groups -DG_ADD ...
#include "set_common.hpp"
#include <boost/icl/iterator.hpp>
using namespace mc;
typedef DOM D; typedef SetCfg<D,icl::ITV> Cfg; typedef Cfg::KINDT C; typedef Cfg::I I; typedef D::T T; typedef SetM M;
static const int kind=kind_of<C>::v;
#ifndef JMODE
#define JMODE 0
#endif
#ifdef STATIC_CONT
static const bool elem_ok=false;
#else
static const bool elem_ok=true;
#endif
typedef Explorer<C,M> E;
static E ex;
#define ST std::string
static M dec(const C&c){ return decode_set<D>(c); }
static ST R(const C&c){ return raw_set<D>(c); }
// mutator: apply(c) then compare with expect(m)
template<class A,class X> void mut(ST name,A apply,X expect,bool gen=true,bool judged=true){
  ex.ops.push_back(Op<C,M>{name,judged,gen,[=](C&c,const M&m)->ST{ apply(c); return judged? judge_set<D>(JMODE,kind,c,expect(m)):ST(); }}); }
// pure operation producing a new container
template<class A,class X> void fn(ST name,A apply,X expect){
  ex.ops.push_back(Op<C,M>{name,true,true,[=](C&c,const M&m)->ST{ C r=apply((const C&)c); M now=dec(c); if(now!=m) return ST("operand was modified"); ST e=judge_set<D>(JMODE,kind,r,expect(m)); c=r; return e; }}); }
template<class F> void query(ST name,F f){ ex.ops.push_back(Op<C,M>{name,true,false,[=](C&c,const M&m)->ST{ return f((const C&)c,m); }}); }
template<class F> void mquery(ST name,F f){ ex.ops.push_back(Op<C,M>{name,true,false,[=](C&c,const M&m)->ST{ return f(c,m); }}); }
static ST b2(const char*w,bool got,bool exp){ return got==exp?ST():ST(w)+" gives "+(got?"true":"false")+" but must be "+(exp?"true":"false"); }
static ST ne(bool bad,const char*t){ return bad?ST(t):ST(); }
static long idx(const C&c,C::const_iterator i){ long n=0; for(C::const_iterator k=c.begin();k!=c.end();++k,++n) if(k==i) return n; return i==c.end()?-1:-2; }
static C::iterator nth(C&c,size_t n){ C::iterator i=c.begin(); while(n--) ++i; return i; }

int main(int argc,char**argv){
  init2(argc,argv); P=(int)param("P",4); ex.cap=param("cap",200000); ex.maxdepth=(int)param("depth",1000000); bool allrep=param("allrep",1);
  g_cfg=CFGNAME;
  ex.decode=dec; ex.raw=R; ex.admissible=[](const M&m){ return set_admissible(kind,m); };
  std::vector<Arg<I>> A=all_args<D,I>(true,allrep), NE; for(auto&a:A) if(!a.r.empty()) NE.push_back(a);
  int N=ncells<D>(); 
  // ---- state generators (unjudged unless the group is in focus)
#ifndef G_ADD
  for(auto&a:NE){ Arg<I> x=a; mut("add("+x.d+")",[x](C&c){ c.add(x.iv); },[](const M&m){return m;},true,false); }
#endif
#ifndef G_SUB
  for(auto&a:NE){ Arg<I> x=a; mut("subtract("+x.d+")",[x](C&c){ c.subtract(x.iv); },[](const M&m){return m;},true,false); }
#endif
  for(auto&a:A){ Arg<I> x=a; Range r=x.r; ST X="("+x.d+")";
    auto eadd=[r](const M&m){return s_add(kind,m,r);}; auto esub=[r](const M&m){return s_sub(m,r);};
    auto eand=[r](const M&m){return s_and(m,r);}; auto eflip=[r](const M&m){return s_flip(kind,m,r);}; (void)eadd;(void)esub;(void)eand;(void)eflip;
#ifdef G_ADD
    mut("add"+X,[x](C&c){ c.add(x.iv); },eadd);
    mut("operator+="+X,[x](C&c){ c+=x.iv; },eadd);
    mut("operator|="+X,[x](C&c){ c|=x.iv; },eadd);
    mut("insert"+X,[x](C&c){ c.insert(x.iv); },eadd);
    mut("icl::add"+X,[x](C&c){ icl::add(c,x.iv); },eadd);
    mut("icl::insert"+X,[x](C&c){ icl::insert(c,x.iv); },eadd);
    fn("operator+"+X,[x](const C&c){ return C(c+x.iv); },eadd);
    fn("operator+(rev)"+X,[x](const C&c){ return C(x.iv+c); },eadd);
    fn("operator+(move)"+X,[x](const C&c){ return C(C(c)+x.iv); },eadd);
    fn("operator+(rev,move)"+X,[x](const C&c){ return C(x.iv+C(c)); },eadd);
    fn("operator|"+X,[x](const C&c){ return C(c|x.iv); },eadd);
    fn("operator|(rev)"+X,[x](const C&c){ return C(x.iv|c); },eadd);
    fn("operator|(move)"+X,[x](const C&c){ return C(C(c)|x.iv); },eadd);
    fn("operator|(rev,move)"+X,[x](const C&c){ return C(x.iv|C(c)); },eadd);
    mut("add(begin-hint)"+X,[x](C&c){ c.add(c.begin(),x.iv); },eadd);
    mut("insert(end-hint)"+X,[x](C&c){ c.insert(c.end(),x.iv); },eadd);
#endif
#ifdef G_SUB
    mut("subtract"+X,[x](C&c){ c.subtract(x.iv); },esub);
    mut("operator-="+X,[x](C&c){ c-=x.iv; },esub);
    mut("erase"+X,[x](C&c){ c.erase(x.iv); },esub);
    mut("icl::subtract"+X,[x](C&c){ icl::subtract(c,x.iv); },esub);
    mut("icl::erase"+X,[x](C&c){ icl::erase(c,x.iv); },esub);
    fn("operator-"+X,[x](const C&c){ return C(c-x.iv); },esub);
    fn("operator-(move)"+X,[x](const C&c){ return C(C(c)-x.iv); },esub);
#endif
#ifdef G_AND
    mut("operator&="+X,[x](C&c){ c&=x.iv; },eand);
    fn("operator&"+X,[x](const C&c){ return C(c&x.iv); },eand);
    fn("operator&(rev)"+X,[x](const C&c){ return C(x.iv&c); },eand);
    fn("operator&(move)"+X,[x](const C&c){ return C(C(c)&x.iv); },eand);
    fn("operator&(rev,move)"+X,[x](const C&c){ return C(x.iv&C(c)); },eand);
    fn("add_intersection"+X,[x](const C&c){ C s; icl::add_intersection(s,c,x.iv); return s; },eand);
#endif
#ifdef G_FLIP
    mut("operator^="+X,[x](C&c){ c^=x.iv; },eflip);
    mut("flip"+X,[x](C&c){ c.flip(x.iv); },eflip);
    mut("icl::flip"+X,[x](C&c){ icl::flip(c,x.iv); },eflip);
    fn("operator^"+X,[x](const C&c){ return C(c^x.iv); },eflip);
    fn("operator^(rev)"+X,[x](const C&c){ return C(x.iv^c); },eflip);
    fn("operator^(move)"+X,[x](const C&c){ return C(C(c)^x.iv); },eflip);
    fn("operator^(rev,move)"+X,[x](const C&c){ return C(x.iv^C(c)); },eflip);
#endif
#ifdef G_HINT
    for(int h=0;h<=P+2;++h){
      ST H="(hint "+std::to_string(h)+","+x.d+")";
      ex.ops.push_back(Op<C,M>{"add"+H,true,true,[x,h](C&c,const M&m)->ST{ if(h>(int)m.size()) return ST(); C plain(c); plain.add(x.iv); C::iterator it=c.add(nth(c,h),x.iv);
        if(dec(c)!=dec(plain)) return "with hint: "+show(dec(c))+" without: "+show(dec(plain)); if(it!=c.end()){ bool f=false; for(C::iterator k=c.begin();k!=c.end();++k) if(k==it) f=true; if(!f) return "returned iterator is not a position of the container"; } return ST(); }});
      ex.ops.push_back(Op<C,M>{"insert"+H,true,true,[x,h](C&c,const M&m)->ST{ if(h>(int)m.size()) return ST(); C plain(c); plain.insert(x.iv); c.insert(nth(c,h),x.iv); return ne(dec(c)!=dec(plain),"insert with hint differs from plain insert"); }});
      ex.ops.push_back(Op<C,M>{"icl::add"+H,true,false,[x,h](C&c,const M&m)->ST{ if(h>(int)m.size()) return ST(); C plain(c); plain.add(x.iv); icl::add(c,nth(c,h),x.iv); return ne(dec(c)!=dec(plain),"add with hint differs from plain add"); }});
      ex.ops.push_back(Op<C,M>{"icl::insert"+H,true,false,[x,h](C&c,const M&m)->ST{ if(h>(int)m.size()) return ST(); C plain(c); plain.insert(x.iv); icl::insert(c,nth(c,h),x.iv); return ne(dec(c)!=dec(plain),"insert with hint differs from plain insert"); }});
      ex.ops.push_back(Op<C,M>{"adder"+H,true,false,[x,h,&A](C&c,const M&m)->ST{ if(h>(int)m.size()) return ST(); C plain(c); plain.add(x.iv); plain.add(A[h%A.size()].iv);
        std::vector<I> src; src.push_back(x.iv); src.push_back(A[h%A.size()].iv); std::copy(src.begin(),src.end(),icl::adder(c,nth(c,h))); return ne(dec(c)!=dec(plain),"filling through the adding iterator differs from adding"); }});
      ex.ops.push_back(Op<C,M>{"inserter"+H,true,false,[x,h,&A](C&c,const M&m)->ST{ if(h>(int)m.size()) return ST(); C plain(c); plain.insert(x.iv); plain.insert(A[h%A.size()].iv);
        std::vector<I> src; src.push_back(x.iv); src.push_back(A[h%A.size()].iv); std::copy(src.begin(),src.end(),icl::inserter(c,nth(c,h))); return ne(dec(c)!=dec(plain),"filling through the inserting iterator differs from inserting"); }});
    }
#endif
#ifdef Q_CONT
    query("contains"+X,[x,r](const C&c,const M&m){ return b2("contains",icl::contains(c,x.iv),(points(r)&~points(m))==0); });
    query("within"+X,[x,r](const C&c,const M&m){ return b2("within",icl::within(x.iv,c),(points(r)&~points(m))==0); });
    query("intersects"+X,[x,r](const C&c,const M&m){ return b2("intersects",icl::intersects(c,x.iv),(points(r)&points(m))!=0); });
    query("disjoint"+X,[x,r](const C&c,const M&m){ return b2("disjoint",icl::disjoint(c,x.iv),(points(r)&points(m))==0); });
#endif
#ifdef Q_LOOK
    if(!r.empty()){
      auto bounds=[r](const M&m,int&lo,int&up){ lo=up=0; for(auto&s:m){ if(s.b<r.a) ++lo; if(s.a<=r.b) ++up; } };
      query("find"+X,[x,r](const C&c,const M&m)->ST{ long e=-1; for(size_t i=0;i<m.size();++i) if(!cap(m[i],r).empty()){ e=(long)i; break; }
        long g=idx(c,c.find(x.iv)); if(g==e && idx(c,icl::find(c,x.iv))!=e) return ST("free find differs"); return g==e?ST():"finds segment #"+std::to_string(g)+" but must find #"+std::to_string(e); });
      query("bounds"+X,[x,bounds](const C&c,const M&m)->ST{ int lo,up; bounds(m,lo,up); int n=(int)m.size(); auto pos=[&](C::const_iterator i){ long k=idx(c,i); return k==-1?n:(int)k; };
        if(pos(c.lower_bound(x.iv))!=lo) return "lower_bound is #"+std::to_string(pos(c.lower_bound(x.iv)))+" must be #"+std::to_string(lo);
        if(pos(c.upper_bound(x.iv))!=up) return "upper_bound is #"+std::to_string(pos(c.upper_bound(x.iv)))+" must be #"+std::to_string(up);
        auto er=c.equal_range(x.iv); return ne(pos(er.first)!=lo||pos(er.second)!=up,"equal_range does not delimit the overlapping segments"); });
      mquery("mutable bounds"+X,[x,bounds](C&c,const M&m)->ST{ int lo,up; bounds(m,lo,up); int n=(int)m.size(); auto pos=[&](C::const_iterator i){ long k=idx(c,i); return k==-1?n:(int)k; };
        if(pos(c.lower_bound(x.iv))!=lo) return ST("lower_bound"); if(pos(c.upper_bound(x.iv))!=up) return ST("upper_bound"); std::pair<C::iterator,C::iterator> er=c.equal_range(x.iv); return ne(pos(er.first)!=lo||pos(er.second)!=up,"equal_range does not delimit the overlapping segments"); });
    }
#endif
  }
#if !defined(STATIC_CONT)
  for(int i=0;i<P;++i){ int c0=D::discrete?i:2*i; Range r(c0,c0); T v=D::pt(i); ST X="(value "+std::to_string(i)+")";
    auto eadd=[r](const M&m){return s_add(kind,m,r);}; auto esub=[r](const M&m){return s_sub(m,r);};
    auto eand=[r](const M&m){return s_and(m,r);}; auto eflip=[r](const M&m){return s_flip(kind,m,r);}; (void)eadd;(void)esub;(void)eand;(void)eflip;(void)v;
#ifdef G_ADD
    mut("add"+X,[v](C&c){ c.add(v); },eadd); mut("operator+="+X,[v](C&c){ c+=v; },eadd); mut("operator|="+X,[v](C&c){ c|=v; },eadd); mut("insert"+X,[v](C&c){ c.insert(v); },eadd);
    mut("icl::add"+X,[v](C&c){ icl::add(c,v); },eadd); mut("icl::insert"+X,[v](C&c){ icl::insert(c,v); },eadd);
    fn("operator+"+X,[v](const C&c){ return C(c+v); },eadd); fn("operator+(rev)"+X,[v](const C&c){ return C(v+c); },eadd);
#endif
#ifdef G_SUB
    mut("subtract"+X,[v](C&c){ c.subtract(v); },esub); mut("operator-="+X,[v](C&c){ c-=v; },esub); mut("erase"+X,[v](C&c){ c.erase(v); },esub);
    mut("icl::subtract"+X,[v](C&c){ icl::subtract(c,v); },esub); mut("icl::erase"+X,[v](C&c){ icl::erase(c,v); },esub);
    fn("operator-"+X,[v](const C&c){ return C(c-v); },esub);
#endif
#ifdef G_AND
    mut("operator&="+X,[v](C&c){ c&=v; },eand); fn("operator&"+X,[v](const C&c){ return C(c&v); },eand); fn("operator&(rev)"+X,[v](const C&c){ return C(v&c); },eand);
    fn("add_intersection"+X,[v](const C&c){ C s; icl::add_intersection(s,c,v); return s; },eand);
#endif
#ifdef G_FLIP
    mut("operator^="+X,[v](C&c){ c^=v; },eflip); mut("flip"+X,[v](C&c){ c.flip(v); },eflip); mut("icl::flip"+X,[v](C&c){ icl::flip(c,v); },eflip);
    fn("operator^"+X,[v](const C&c){ return C(c^v); },eflip); fn("operator^(rev)"+X,[v](const C&c){ return C(v^c); },eflip);
#endif
  }
#endif
#ifdef G_SUB
  for(int i=0;i<P+2;++i){ ST X="(iterator "+std::to_string(i)+")";
    mut("erase"+X,[i](C&c){ if(i<(int)icl::iterative_size(c)) c.erase(nth(c,i)); },[i](const M&m){ M r=m; if(i<(int)m.size()) r.erase(r.begin()+i); return r; });
    for(int j=i;j<=P+2;++j) mut("erase(iterators "+std::to_string(i)+","+std::to_string(j)+")",[i,j](C&c){ int n=(int)icl::iterative_size(c); if(j<=n) c.erase(nth(c,i),nth(c,j)); },[i,j](const M&m){ M r=m; if(j<=(int)m.size()) r.erase(r.begin()+i,r.begin()+j); return r; }); }
#endif
#ifdef G_CONV
  mut("icl::join()",[](C&c){ icl::join(c); },[](const M&m){ return normal(m); });
  fn("copy",[](const C&c){ return C(c); },[](const M&m){ return m; });
  fn("move",[](const C&c){ C d(c); return C(std::move(d)); },[](const M&m){ return m; });
  mut("assign",[](C&c){ C d; if(!c.empty()) d.add(*c.begin()); d=c; c=d; },[](const M&m){ return m; });
  mut("move assign",[](C&c){ C d(c); c.clear(); c=std::move(d); },[](const M&m){ return m; });
  mut("swap",[](C&c){ C d; d.swap(c); c.swap(d); },[](const M&m){ return m; });
  auto conv=[&](const char*n,auto*t,int k){ typedef typename std::remove_pointer<decltype(t)>::type B; query(ST("convert to ")+n,[k](const C&c,const M&m)->ST{ M e=s_convert(k,m); B d(c); if(decode_set<D>(d)!=e) return "construction gives "+show(decode_set<D>(d))+" must be "+show(e);
      B b; if(!c.empty()) b.add(icl::hull(c)); b=c; return decode_set<D>(b)==e?ST():"assignment gives "+show(decode_set<D>(b))+" must be "+show(e); }); };
  conv("interval_set",(Cfg::J*)0,JOIN); conv("separate_interval_set",(Cfg::S*)0,SEP); conv("split_interval_set",(Cfg::X*)0,SPLIT);
#endif
#ifdef G_MISC
  mut("clear()",[](C&c){ c.clear(); },[](const M&){ return M(); }); mut("icl::clear()",[](C&c){ icl::clear(c); },[](const M&){ return M(); });
  mut("icl::join()",[](C&c){ icl::join(c); },[](const M&m){ return normal(m); });
  mut("assign+=self copy",[](C&c){ C d(c); c=d; },[](const M&m){ return m; });
#endif
#ifdef Q_CONT
  for(int k=0;k<N;++k){ T v=cellval<D>(k); ST X="(value-cell "+std::to_string(k)+")"; 
    query("contains"+X,[v,k](const C&c,const M&m){ return b2("contains",icl::contains(c,v),points(m)>>k&1); });
    query("within"+X,[v,k](const C&c,const M&m){ return b2("within",icl::within(v,c),points(m)>>k&1); });
#if !defined(STATIC_CONT)
    query("intersects"+X,[v,k](const C&c,const M&m){ return b2("intersects",icl::intersects(c,v),points(m)>>k&1); });
    query("disjoint"+X,[v,k](const C&c,const M&m){ return b2("disjoint",icl::disjoint(c,v),!(points(m)>>k&1)); });
#endif
  }
#endif
#ifdef Q_LOOK
  for(int k=0;k<N;++k){ T v=cellval<D>(k); ST X="(value-cell "+std::to_string(k)+")";
    query("find"+X,[v,k](const C&c,const M&m)->ST{ long e=-1; for(size_t i=0;i<m.size();++i) if(m[i].has(k)) e=(long)i; long g=idx(c,c.find(v)); long g2=idx(c,icl::find(c,v));
      if(g2!=g) return ST("free find differs from member find"); return g==e?ST():"finds segment #"+std::to_string(g)+" but must find #"+std::to_string(e); }); }
  // keys outside of the grid on both sides
#ifndef NO_OUTSIDE
  for(int s=0;s<2;++s){ if(D::discrete){ int i=s?D::hi():D::lo(); if(i>=0&&i<P) continue; T v=D::pt(i); query(ST("find(outside ")+(s?"right":"left")+")",[v](const C&c,const M&){ return ne(c.find(v)!=c.end(),"finds a value outside of the contents"); }); } }
#endif
#endif
#ifdef Q_SIZE
  query("size()",[](const C&c,const M&m)->ST{
    unsigned long long p=points(m); int n=__builtin_popcountll(p);
    if(icl::interval_count(c)!=m.size()||icl::iterative_size(c)!=m.size()) return ST("interval_count/iterative_size");
    if(icl::is_empty(c)!=(p==0)) return ST("is_empty");
    if(D::discrete){
#ifndef NO_COUNT
      typedef C::size_type Z; Z zn=zlen<Z,D>(n);
      if(!(icl::cardinality(c)==zn)) return "cardinality is "+str(icl::cardinality(c))+" must be "+str(n);
      if(!(c.size()==zn)||!((icl::size)(c)==zn)) return ST("size is not the number of values");
#endif
#ifndef NO_LENGTH
      if(icl::length(c)!=(C::difference_type)len<D>(n)) return ST("length is not the number of values");
#endif
    } else {
      bool inf=false; for(int k=1;k<ncells<D>();k+=2) if(p>>k&1) inf=true; typedef C::size_type Z; Z e= inf? icl::infinity<Z>::value() : zlen<Z,D>(n);
      if(icl::cardinality(c)!=e||c.size()!=e||(icl::size)(c)!=e) return ST("cardinality must be ")+(inf?"infinite":str(n));
#ifndef NO_LENGTH
      long g=0; for(int k=1;k<ncells<D>();k+=2) if(p>>k&1) ++g; C::difference_type L=len<D>((int)g);
      if(icl::length(c)!=L) return ST("length is not the sum of the segment lengths");
#endif
    } return ST(); });
  query("hull()",[](const C&c,const M&m)->ST{ Range h=decode<D>((I)icl::hull(c)); Range e=m.empty()?Range(0,-1):Range(m.front().a,m.back().b); if(m.empty()){ return ne(!h.empty(),"hull of empty must be empty"); }
    if(h!=e) return "hull is "+show(h)+" must be "+show(e);
    if(!(icl::lower(c)==icl::lower(*c.begin()))) return ST("lower is not the lower bound of the first segment"); if(!(icl::upper(c)==icl::upper(*c.rbegin()))) return ST("upper is not the upper bound of the last segment");
#if !defined(CONTDOM)
    if(!(icl::first(c)==D::pt(e.a))) return ST("first is not the smallest value"); if(!(icl::last(c)==D::pt(e.b))) return ST("last is not the largest value");
#endif
    return ST(); });
#ifndef NO_DISTANCE
  query("distance()",[](const C&c,const M&m)->ST{ unsigned long long p=points(m); long g=0; if(!m.empty()) for(int k=m.front().a;k<=m.back().b;++k) if(!(p>>k&1)) if(D::discrete||k%2==1) ++g;
    C::difference_type e= (C::difference_type)len<D>((int)g);
    return ne(icl::distance(c)!=e,"distance is not the total size of the gaps"); });
#endif
  for(int old=0;old<3;++old) query("between("+ST(old?"non-empty destination "+std::to_string(old):"")+")",[NE,old](const C&c,const M&m)->ST{ C g; if(old&&!NE.empty()) g.add((old==1?NE.front():NE.back()).iv); icl::between(g,c); unsigned long long p=points(m), e=0; if(!m.empty()) for(int k=m.front().a;k<=m.back().b;++k) if(!(p>>k&1)) e|=1ull<<k; return ne(points(dec(g))!=e,"between is not the set of gaps"); });
  for(int old=0;old<3;++old) query("domain("+ST(old?"non-empty destination "+std::to_string(old):"")+")",[NE,old](const C&c,const M&m)->ST{ C g; if(old&&!NE.empty()) g.add((old==1?NE.front():NE.back()).iv); icl::domain(g,c); return ne(dec(g)!=m,"domain of a set must be the set"); });
#endif
#ifdef Q_ELEM
  query("elements()",[](const C&c,const M&m)->ST{ std::vector<T> f,b,e,r; for(auto&s:m) for(int k=s.a;k<=s.b;++k) e.push_back(D::pt(k)); r=e; std::reverse(r.begin(),r.end());
    size_t g=0; for(C::element_const_iterator i=icl::elements_begin(c);i!=icl::elements_end(c);++i){ f.push_back(*i); if(++g>1000) return ST("forward element iteration does not end"); }
    if(f!=e) return ST("forward element iteration does not list the values");
    g=0; for(C::element_const_reverse_iterator i=icl::elements_rbegin(c);i!=icl::elements_rend(c);++i){ b.push_back(*i); if(++g>1000) return ST("reverse element iteration does not end"); }
    if(b!=r) return ST("reverse element iteration does not list the values backwards"); 
    f.clear(); g=0; for(auto i=icl::elements_begin(c);i!=icl::elements_end(c);i++){ f.push_back(*i); if(++g>1000) return ST("no end"); } return ne(f!=e,"post-increment iteration"); });
  mquery("elements(mutable)",[](C&c,const M&m)->ST{ std::vector<T> f,b,e,r; for(auto&s:m) for(int k=s.a;k<=s.b;++k) e.push_back(D::pt(k)); r=e; std::reverse(r.begin(),r.end()); size_t g=0;
    for(C::element_iterator i=icl::elements_begin(c);i!=icl::elements_end(c);++i){ f.push_back(*i); if(++g>1000) return ST("no end"); } if(f!=e) return ST("forward element iteration"); 
    g=0; for(C::element_reverse_iterator i=icl::elements_rbegin(c);i!=icl::elements_rend(c);++i){ b.push_back(*i); if(++g>1000) return ST("no end"); } return ne(b!=r,"reverse element iteration"); });
  // every walk of +/- steps over the element positions, forwards then back and forth at each position
  query("elements(walk)",[](const C&c,const M&m)->ST{ std::vector<T> e; for(auto&s:m) for(int k=s.a;k<=s.b;++k) e.push_back(D::pt(k)); int n=(int)e.size();
    for(int from=0;from<=n;++from) for(int to=0;to<=n;++to){ C::element_const_iterator i=icl::elements_begin(c); for(int k=0;k<from;++k) ++i; int at=from; 
      for(;at<to;++at) i++; for(;at>to;--at) --i; if(to<n){ if(!(*i==e[to])) return "walk "+str(from)+"->"+str(to)+" reads a wrong value"; C::element_const_iterator d=icl::elements_begin(c); for(int k=0;k<to;++k) ++d; if(!(i==d)) return "walk "+str(from)+"->"+str(to)+": iterators at the same element are unequal"; if(i==icl::elements_end(c)) return ST("inner position equals end"); }
      else if(!(i==icl::elements_end(c))) return "walk "+str(from)+"->"+str(to)+": not at end"; }
    for(int from=0;from<=n;++from) for(int to=0;to<=from;++to){ C::element_const_reverse_iterator i=icl::elements_rbegin(c); for(int k=0;k<from;++k) ++i; for(int at=from;at>to;--at) --i; if(to<n && !(*i==e[n-1-to])) return "reverse walk "+str(from)+"->"+str(to)+" reads a wrong value"; }
    // all zig-zags of length 4 from every position
    for(int from=0;from<=n;++from) for(int w=0;w<16;++w){ C::element_const_iterator i=icl::elements_begin(c); for(int k=0;k<from;++k) ++i; int at=from; bool ok=true; for(int q=0;q<4&&ok;++q){ if(w>>q&1){ if(at<n){ ++i; ++at; } else ok=false; } else { if(at>0){ --i; --at; } else ok=false; } if(at<n && !(*i==e[at])) return ST("zig-zag walk reads a wrong value"); } }
    for(int from=0;from<=n;++from) for(int w=0;w<16;++w){ C::element_const_reverse_iterator i=icl::elements_rbegin(c); for(int k=0;k<from;++k) ++i; int at=from; bool ok=true; for(int q=0;q<4&&ok;++q){ if(w>>q&1){ if(at<n){ ++i; ++at; } else ok=false; } else { if(at>0){ --i; --at; } else ok=false; } if(at<n && !(*i==e[n-1-at])) return ST("reverse zig-zag walk reads a wrong value"); } }
    return ST(); });
#endif
#ifdef G_ALIAS
  for(int k=0;k<=P;++k){ ST X="(own segment "+std::to_string(k)+")";
    struct H{ static C::iterator at(C&c,int k){ return nth(c,k); } };
#define ALIAS(NAME,CALL_ALIAS,CALL_COPY) ex.ops.push_back(Op<C,M>{ST(NAME)+X,true,false,[k](C&c,const M&m)->ST{ if(k>=(int)m.size()) return ST(); C d(c); I copy(*nth(d,k)); { C& s=d; const I& x=copy; CALL_COPY; } { C& s=c; const I& x=*nth(c,k); CALL_ALIAS; } \
      return dec(c)==dec(d)?ST():"aliased gives "+R(c)+" but with an independent copy "+R(d); }})
    ALIAS("add",s.add(x),s.add(x)); ALIAS("operator+=",s+=x,s+=x); ALIAS("subtract",s.subtract(x),s.subtract(x)); ALIAS("operator-=",s-=x,s-=x); ALIAS("erase",s.erase(x),s.erase(x)); ALIAS("insert",s.insert(x),s.insert(x));
    ALIAS("operator&=",s&=x,s&=x); ALIAS("operator^=",s^=x,s^=x); ALIAS("flip",s.flip(x),s.flip(x)); ALIAS("operator+",s=s+x,s=s+x); ALIAS("operator-",s=s-x,s=s-x); ALIAS("operator&",s=s&x,s=s&x); ALIAS("operator^",s=s^x,s=s^x);
    ALIAS("add(hint)",s.add(s.begin(),x),s.add(s.begin(),x)); ALIAS("hull/contains",(icl::contains(s,x),icl::intersects(s,x)),(void)0);
  }
#define SELF(NAME,CALL,EXP) ex.ops.push_back(Op<C,M>{ST(NAME)+"(self)",true,false,[](C&c,const M&m)->ST{ CALL; M e=EXP; M g=dec(c); return g==e?ST():"with itself as operand gives "+show(g)+" but must give "+show(e); }})
  SELF("operator+=",c+=c,m); SELF("operator|=",c|=c,m); SELF("operator&=",c&=c,m); SELF("operator-=",c-=c,M()); SELF("operator^=",c^=c,M()); SELF("icl::insert",icl::insert(c,c),m); SELF("icl::erase",icl::erase(c,c),M()); SELF("icl::flip",icl::flip(c,c),M());
  SELF("operator+",c=c+c,m); SELF("operator&",c=c&c,m); SELF("operator-",c=c-c,M()); SELF("operator^",c=c^c,M()); SELF("operator=",c=*&c,m); SELF("swap",c.swap(c),m);
  query("relations(self)",[](const C&c,const M&m)->ST{ if(!(c==c)||c!=c||c<c||!(c<=c)) return ST("comparison with itself"); if(!icl::contains(c,c)||!icl::within(c,c)) return ST("containment of itself"); if(icl::intersects(c,c)!=!m.empty()) return ST("intersects itself"); return ne(icl::disjoint(c,c)!=m.empty(),"disjoint to itself"); });
#endif
#ifdef Q_STREAM
  query("operator<<",[](const C&c,const M&m)->ST{ std::ostringstream o; o<<c; ST e="{"; for(C::const_iterator i=c.begin();i!=c.end();++i){ int b=IT<I>::b(*i); std::ostringstream q; q<<((b&2)?"[":"(")<<lo_(*i)<<","<<up_(*i)<<((b&1)?"]":")"); e+=q.str(); } e+="}"; return o.str()==e?ST():"prints "+o.str()+" but must print "+e; });
#endif
  ex.run(C());
  flush_stats(); return 0;
}
