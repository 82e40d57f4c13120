// Fault exploration: every reachable container state x every operation x every point at which the operation
// allocates memory, copies / assigns / compares / combines a value or copies a key; that point throws.
// Afterwards: the container is well-formed, keys outside the operand keep their values, const operands are
// untouched, nothing leaks, and the container can be used on.
// -DF_SET -DKINDT=J|S|X | -DF_MAP -DKINDT=J|X -DTR= -DCOMB= | -DF_EMAP -DTR= ; -DFDOM: key copies throw too (only for exploring by hand: nothing is promised for such keys)
#include "explore.hpp"
#include <boost/icl/interval_set.hpp>
#include <boost/icl/separate_interval_set.hpp>
#include <boost/icl/split_interval_set.hpp>
#include <boost/icl/interval_map.hpp>
#include <boost/icl/split_interval_map.hpp>
#include <boost/icl/map.hpp>
namespace flt {
inline long g_at=-1, g_n=0, g_live=0; inline bool g_on=false; struct Fault: std::exception { const char* what()const noexcept override{ return "injected fault"; } };
inline void point(){ if(g_on && g_n++==g_at){ g_on=false; throw Fault(); } }
template<class T> struct FAlloc { typedef T value_type; FAlloc(){} template<class U> FAlloc(const FAlloc<U>&){} 
  template<class U> struct rebind { typedef FAlloc<U> other; };
  T* allocate(size_t n){ point(); g_live+=(long)n; return static_cast<T*>(::operator new(n*sizeof(T))); }
  void deallocate(T*p,size_t n){ g_live-=(long)n; ::operator delete(p); } };
template<class T,class U> bool operator==(const FAlloc<T>&,const FAlloc<U>&){return true;} template<class T,class U> bool operator!=(const FAlloc<T>&,const FAlloc<U>&){return false;}
// a value type: every operation that may legitimately throw does
struct Val { int v; Val():v(0){ point(); ++g_live; } explicit Val(int x):v(x){ point(); ++g_live; } Val(const Val&o):v(o.v){ point(); ++g_live; } Val& operator=(const Val&o){ point(); v=o.v; return *this; } ~Val(){ --g_live; }
  Val& operator+=(const Val&o){ point(); v+=o.v; return *this; } Val& operator-=(const Val&o){ point(); v-=o.v; return *this; } };
inline bool operator==(const Val&a,const Val&b){ point(); return a.v==b.v; } inline bool operator!=(const Val&a,const Val&b){ return !(a==b); } inline bool operator<(const Val&a,const Val&b){ point(); return a.v<b.v; } inline bool operator>(const Val&a,const Val&b){ return b<a; }
inline Val operator-(const Val&a){ return Val(-a.v); }
// a key type whose copies throw
struct Key { int v; Key():v(0){ } explicit Key(int x):v(x){} Key(const Key&o):v(o.v){ point(); } Key& operator=(const Key&o){ point(); v=o.v; return *this; } Key& operator++(){++v;return *this;} Key& operator--(){--v;return *this;} };
inline bool operator<(const Key&a,const Key&b){return a.v<b.v;} inline bool operator==(const Key&a,const Key&b){return a.v==b.v;}
inline std::ostream& operator<<(std::ostream&o,const Key&k){ return o<<k.v; } inline std::ostream& operator<<(std::ostream&o,const Val&k){ return o<<k.v; }
}
using namespace mc; using namespace flt;
#ifdef FDOM
typedef Key T;
#else
typedef int T;
#endif
struct DKey { typedef Key T; enum{discrete=1}; static T pt(int i){ return Key(i+3); } static T mid(int i){return pt(i);} static int lo(){return -1;} static int hi(){return P;} };
#ifdef FDOM
typedef DKey D;
#else
typedef DInt D;
#endif
typedef icl::ITV<T,std::less> I;
#define ST std::string
#if defined(F_SET)
template<int K> struct SK; template<> struct SK<0>{ typedef icl::interval_set<T,std::less,I,FAlloc> C; }; template<> struct SK<1>{ typedef icl::separate_interval_set<T,std::less,I,FAlloc> C; }; template<> struct SK<2>{ typedef icl::split_interval_set<T,std::less,I,FAlloc> C; };
typedef SK<KINDN>::C C; typedef SetM M;
static M dec(const C&c){ M m; int g=0; for(C::const_iterator i=c.begin();i!=c.end();++i){ m.push_back(decode<D>(*i)); if(++g>1000) throw OffGrid{"iteration does not end"}; } return m; }
static ST R(const C&c){ ST s="{"; int g=0; for(C::const_iterator i=c.begin();i!=c.end();++i){ s+=raw<D>(*i)+" "; if(++g>1000) break; } return s+"}"; }
static ST outside(const M&a,const M&b,Range x){ return (points(b)&~points(x)&~points(a))==0?ST():ST("elements outside of the operand appeared: ")+show(b)+" from "+show(a); }
static bool ok(const M&m){ return wellformed(m); }
#else
#ifdef F_MAP
template<int K> struct MK; template<> struct MK<0>{ typedef icl::interval_map<T,Val,icl::TR,std::less,icl::COMB,icl::inter_section,I,FAlloc> C; }; template<> struct MK<2>{ typedef icl::split_interval_map<T,Val,icl::TR,std::less,icl::COMB,icl::inter_section,I,FAlloc> C; };
typedef MK<KINDN>::C C; 
typedef icl::interval_set<T,std::less,I,FAlloc> KS;
#else
typedef icl::map<T,Val,icl::TR,std::less,icl::COMB,icl::inter_section,FAlloc> C;
#endif
typedef MapM M;
static Range rng(const I&i){ return decode<D>(i); }
static Range rng(const T&t){ int i=index_of<D>(t); return Range(i,i); }
static ST rw(const I&i){ return raw<D>(i); } static ST rw(const T&t){ return std::to_string(index_of<D>(t)); }
static M dec(const C&c){ M m; int g=0; for(C::const_iterator i=c.begin();i!=c.end();++i){ Range r=rng(i->first); m.push_back(MSeg{r.a,r.b,i->second.v}); if(++g>1000) throw OffGrid{"iteration does not end"}; } return m; }
static ST R(const C&c){ ST s="{"; int g=0; for(C::const_iterator i=c.begin();i!=c.end();++i){ s+=rw(i->first)+"="+std::to_string(i->second.v)+" "; if(++g>1000) break; } return s+"}"; }
static ST outside(const M&a,const M&b,Range x){ Fun f=fun(a), g=fun(b); for(int k=x.a;k<=x.b;++k){ f.erase(k); g.erase(k); } for(auto&e:g) if(!f.count(e.first)||f[e.first]!=e.second) return ST("keys outside of the operand changed their value: ")+show(b)+" from "+show(a); return ST(); }
static bool ok(const M&m){ return wellformed(m); }
#endif
static Explorer<C,M> ex; static long g_faults=0, g_clean=0;
// run one call with a fault at every point; f gets a fresh copy each time
// every key has its old value, the value the completed call gives it, or none (a key on its way out of an absorbing map may keep the identity)
static ST invented(const M&a,const M&full,const M&b){
#ifdef F_SET
  return (points(b)&~points(a)&~points(full))==0?ST():ST("elements that neither were there nor belong to the result: ")+show(b);
#else
  Fun f=fun(a), d=fun(full); for(auto&e:fun(b)) if(!(f.count(e.first)&&f[e.first]==e.second) && !(d.count(e.first)&&d[e.first]==e.second) && !(e.second==0&&f.count(e.first)&&!d.count(e.first))) return ST("a value that was neither there nor belongs to the result: ")+show(b)+" from "+show(a)+", completed: "+show(full); return ST();
#endif
}
template<class F> static ST sweep(const C&c0,const M&m,bool pure,bool bounded,Range x,F f,bool steps=false){ // steps: flips of maps add first and reduce to the identity then
  M full; { C c(c0); f(c); full=dec(c); if(!ok(full)) return ST("segments not ordered, disjoint and non-empty: ")+show(full); }
  for(long k=0;k<4000;++k){ long live0=g_live; bool thrown=false; ST err;
    { C c(c0); 
      g_at=k; g_n=0; g_on=true;
      try{ f(c); } catch(Fault&){ thrown=true; } catch(...){ g_on=false; throw; }
      g_on=false;
      if(!thrown && g_n>k) return "an exception thrown at point "+std::to_string(k)+" was swallowed";
      M now=dec(c);
      if(!ok(now)) err="segments not ordered, disjoint and non-empty: "+show(now);
      else if(pure && now!=m) err="a const operand changed to "+show(now);
      else if(thrown && bounded) err=outside(m,now,x);
      if(err.empty() && thrown && !pure && !steps) err=invented(m,full,now);
      if(err.empty() && thrown){ long n=0; for(C::const_reverse_iterator i=c.rbegin();i!=c.rend();++i) if(++n>1000) break; if(n!=(long)now.size()||c.empty()!=now.empty()||(long)c.iterative_size()!=n) err="sizes disagree after the exception: "+show(now); }
    }
    if(err.empty() && g_live!=live0) err="memory or values leaked ("+std::to_string(g_live-live0)+")";
    if(!err.empty()) return (thrown? "exception at point "+std::to_string(k)+" of the operation: ":ST("without any exception: "))+err;
    if(!thrown){ ++g_clean; return ""; } ++g_faults; }
  return "the operation has more than 4000 fault points"; }
template<class F> static void mut(ST n,Range x,F f){ ex.ops.push_back(Op<C,M>{n,true,false,[=](C&c,const M&m)->ST{ return sweep(c,m,false,true,x,f); }}); }
template<class F> static void big(ST n,F f){ ex.ops.push_back(Op<C,M>{n,true,false,[=](C&c,const M&m)->ST{ return sweep(c,m,false,false,Range(),f,n.compare(0,4,"flip")==0||n.compare(0,9,"operator^")==0); }}); }
template<class F> static void fn(ST n,F f){ ex.ops.push_back(Op<C,M>{n,true,false,[=](C&c,const M&m)->ST{ return sweep(c,m,true,false,Range(),f); }}); }
int main(int argc,char**argv){
  init2(argc,argv); P=(int)param("P",3); g_cfg=CFGNAME; ex.cap=200000; (void)icl::identity_element<Val>::value(); (void)icl::identity_element<T>::value(); /* lazily built constants are not leaks */ ex.decode=dec; ex.raw=R; ex.admissible=[](const M&m){ if(!ok(m)) return false;
#ifndef F_SET
    for(auto&e:m) if(e.v<-1||e.v>2) return false;
#endif
    return true; };
#ifndef F_EMAP
  std::vector<Arg<I>> A=all_args<D,I>(true,param("allrep",0));
#endif
#ifdef F_SET
  for(auto&x:A){ Range r=x.r; I iv=x.iv; ST X="("+x.d+")";
    ex.ops.push_back(Op<C,M>{"gen+"+X,false,true,[iv](C&c,const M&)->ST{ c.add(iv); return ST(); }}); ex.ops.push_back(Op<C,M>{"gen-"+X,false,true,[iv](C&c,const M&)->ST{ c.subtract(iv); return ST(); }}); }
  for(auto&x:A){ Range r=x.r; I iv=x.iv; ST X="("+x.d+")";
    mut("add"+X,r,[iv](C&c){ c.add(iv); }); mut("subtract"+X,r,[iv](C&c){ c.subtract(iv); }); mut("insert"+X,r,[iv](C&c){ c.insert(iv); }); mut("erase"+X,r,[iv](C&c){ c.erase(iv); });
    mut("operator+="+X,r,[iv](C&c){ c+=iv; }); mut("operator-="+X,r,[iv](C&c){ c-=iv; }); mut("operator^="+X,r,[iv](C&c){ c^=iv; }); mut("flip"+X,r,[iv](C&c){ c.flip(iv); }); big("operator&="+X,[iv](C&c){ c&=iv; });
    mut("add(hint)"+X,r,[iv](C&c){ c.add(c.begin(),iv); }); mut("add(end hint)"+X,r,[iv](C&c){ c.add(c.end(),iv); });
    fn("operator+"+X,[iv](const C&c){ C r(c+iv); }); fn("operator-"+X,[iv](const C&c){ C r(c-iv); }); fn("operator&"+X,[iv](const C&c){ C r(c&iv); }); fn("operator^"+X,[iv](const C&c){ C r(c^iv); });
    fn("operator+(set)"+X,[iv](const C&c){ C r(iv); r+=c; }); fn("operator-(set)"+X,[iv](const C&c){ C r(iv); r-=c; }); fn("operator&(set)"+X,[iv](const C&c){ C r(iv); r&=c; }); fn("operator^(set)"+X,[iv](const C&c){ C r(iv); r^=c; });
    fn("assign"+X,[iv](const C&c){ C r; r.add(iv); r=c; }); }
  for(int i=0;i<P;++i){ T v(D::pt(i)); ST X="("+std::to_string(i)+")"; mut("add"+X,Range(i,i),[v](C&c){ c.add(v); }); mut("subtract"+X,Range(i,i),[v](C&c){ c.subtract(v); }); mut("flip"+X,Range(i,i),[v](C&c){ c.flip(v); }); }
#elif defined(F_MAP)
  std::vector<int> V={1,2,0,-1}; if(param("nval",99)<(long)V.size()) V.resize(param("nval",99));
  for(auto&x:A) for(int v:V){ if(x.r.empty()) continue; I iv=x.iv; Val w(v); typename C::segment_type s(iv,w); ST X="("+x.d+"->"+std::to_string(v)+")";
    ex.ops.push_back(Op<C,M>{"gen+"+X,false,true,[s](C&c,const M&)->ST{ c.set(s); return ST(); }}); ex.ops.push_back(Op<C,M>{"gen-"+X,false,true,[iv](C&c,const M&)->ST{ c.erase(iv); return ST(); }}); }
  for(auto&x:A){ Range r=x.r; I iv=x.iv;
    for(int v:V){ Val w(v); typename C::segment_type s(iv,w); ST X="("+x.d+"->"+std::to_string(v)+")";
      mut("add"+X,r,[s](C&c){ c.add(s); }); mut("subtract"+X,r,[s](C&c){ c.subtract(s); }); mut("insert"+X,r,[s](C&c){ c.insert(s); }); mut("set"+X,r,[s](C&c){ c.set(s); }); mut("erase"+X,r,[s](C&c){ c.erase(s); });
      mut("operator+="+X,r,[s](C&c){ c+=s; }); mut("operator-="+X,r,[s](C&c){ c-=s; }); 
      mut("add(hint)"+X,r,[s](C&c){ c.add(c.begin(),s); }); mut("insert(end hint)"+X,r,[s](C&c){ c.insert(c.end(),s); });
      big("operator&="+X,[s](C&c){ c&=s; }); big("flip"+X,[s](C&c){ c.flip(s); }); big("operator^="+X,[s](C&c){ c^=s; });
      fn("operator+"+X,[s](const C&c){ C r(c+s); }); fn("operator-"+X,[s](const C&c){ C r(c-s); }); fn("operator&"+X,[s](const C&c){ C r(c&s); }); fn("operator^"+X,[s](const C&c){ C r(c^s); });
      fn("assign"+X,[s](const C&c){ C r; r.set(s); r=c; }); fn("operator+(map)"+X,[s](const C&c){ C r; r.set(s); r+=c; }); fn("operator-(map)"+X,[s](const C&c){ C r; r.set(s); r-=c; }); fn("operator&(map)"+X,[s](const C&c){ C r; r.set(s); r&=c; }); fn("operator^(map)"+X,[s](const C&c){ C r; r.set(s); r^=c; }); }
    ST X="("+x.d+")"; mut("erase"+X,r,[iv](C&c){ c.erase(iv); }); mut("operator-="+X,r,[iv](C&c){ c-=iv; }); big("operator&="+X,[iv](C&c){ c&=iv; }); fn("operator&"+X,[iv](const C&c){ C r(c&iv); });
    big("operator&=(set)"+X,[iv](C&c){ KS k(iv); c&=k; }); mut("operator-=(set)"+X,r,[iv](C&c){ KS k(iv); c-=k; }); }
#else
  for(int i=0;i<P;++i) for(int v:{1,2,0,-1}){ typename C::element_type s(D::pt(i),Val(v)); T k(D::pt(i)); Range r(i,i); ST X="("+std::to_string(i)+"->"+std::to_string(v)+")";
    ex.ops.push_back(Op<C,M>{"gen+"+X,false,true,[s](C&c,const M&)->ST{ c.set(s); return ST(); }}); ex.ops.push_back(Op<C,M>{"gen-"+X,false,true,[k](C&c,const M&)->ST{ c.erase(k); return ST(); }});
    mut("add"+X,r,[s](C&c){ c.add(s); }); mut("add(hint)"+X,r,[s](C&c){ c.add(c.end(),s); }); mut("subtract"+X,r,[s](C&c){ c.subtract(s); }); mut("insert"+X,r,[s](C&c){ c.insert(s); }); mut("set"+X,r,[s](C&c){ c.set(s); }); mut("erase"+X,r,[s](C&c){ c.erase(s); });
    mut("operator+="+X,r,[s](C&c){ c+=s; }); mut("operator-="+X,r,[s](C&c){ c-=s; }); big("operator&="+X,[s](C&c){ c&=s; }); big("operator^="+X,[s](C&c){ c^=s; });
    fn("operator+"+X,[s](const C&c){ C r(c+s); }); fn("operator-"+X,[s](const C&c){ C r(c-s); }); fn("operator&"+X,[s](const C&c){ C r(c&s); }); fn("operator^"+X,[s](const C&c){ C r(c^s); });
    fn("assign"+X,[s](const C&c){ C r; r.set(s); r=c; }); fn("operator+(map)"+X,[s](const C&c){ C r; r.set(s); r+=c; }); fn("operator-(map)"+X,[s](const C&c){ C r; r.set(s); r-=c; }); fn("operator&(map)"+X,[s](const C&c){ C r; r.set(s); r&=c; }); fn("operator^(map)"+X,[s](const C&c){ C r; r.set(s); r^=c; }); }
#endif
  fn("copy()",[](const C&c){ C r(c); }); big("self assign()",[](C&c){ const C&d=c; c=d; });
  ex.run(C());
  printf("OPS faults-injected %ld\nOPS completed-calls %ld\n",g_faults,g_clean);
  flush_stats(); return 0; }
