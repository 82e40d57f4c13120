#pragma once
#include "explore.hpp"
#include <boost/icl/set.hpp>
#include <boost/icl/interval_set.hpp>
#include <boost/icl/separate_interval_set.hpp>
#include <boost/icl/split_interval_set.hpp>
#include <boost/icl/interval_map.hpp>
#include <boost/icl/split_interval_map.hpp>
#include <boost/icl/map.hpp>
namespace mc {
// ---- codomain policies: values <-> codes, value semantics on codes computed without the library
struct CInt { typedef int V; enum{set=0,inverse=1}; static V val(long c){return (V)c;} static long code(V v){return v;} static std::vector<long> codes(){ return {1,-1,2,0}; } static bool ok(long c){ return c>=-2&&c<=2; } static long norm(long c){return (int)c;} };
struct CBit { typedef int V; enum{set=0,inverse=1}; static V val(long c){return (V)c;} static long code(V v){return v;} static std::vector<long> codes(){ return {1,2,3,0}; } static bool ok(long c){ return c>=0&&c<=3; } static long norm(long c){return (int)c;} };
struct CUns { typedef unsigned V; enum{set=0,inverse=0}; static V val(long c){return (V)c;} static long code(V v){return (long)v;} static std::vector<long> codes(){ return {1,2,0}; } static bool ok(long c){ return c>=0&&c<=2; } static long norm(long c){return (long)(unsigned)c;} };
struct CDbl { typedef double V; enum{set=0,inverse=1}; static V val(long c){return (V)(c*0.5);} static long code(V v){return (long)(v*2.0);} static std::vector<long> codes(){ return {1,-1,2,0}; } static bool ok(long c){ return c>=-2&&c<=2; } static long norm(long c){return c;} };
struct CStr { typedef std::string V; enum{set=0,inverse=0}; static std::vector<std::string>& tab(){ static std::vector<std::string> t(1,""); return t; }
  static V val(long c){return tab()[c];} static long code(const V& v){ for(size_t i=0;i<tab().size();++i) if(tab()[i]==v) return (long)i; tab().push_back(v); return (long)tab().size()-1; }
  static std::vector<long> codes(){ return {code("a"),code("b"),0}; } static bool ok(long c){ return val(c).size()<=1; } static long norm(long c){return c;} };
struct CSet { typedef std::set<int> V; enum{set=1,inverse=0}; static V val(long c){ V v; for(int i=0;i<8;++i) if(c>>i&1) v.insert(10+i); return v; } static long code(const V& v){ long c=0; for(int x:v) c|=1l<<(x-10); return c; }
  static std::vector<long> codes(){ return {1,2,3,0}; } static bool ok(long){return true;} static long norm(long c){return c;} };
struct CIset { typedef boost::icl::interval_set<int> V; enum{set=1,inverse=0}; static V val(long c){ V v; for(int i=0;i<8;++i) if(c>>i&1) v.add(10+i); return v; } static long code(const V& v){ long c=0; for(int i=0;i<8;++i) if(boost::icl::contains(v,10+i)) c|=1l<<i; return c; }
  static std::vector<long> codes(){ return {1,2,3,0}; } static bool ok(long){return true;} static long norm(long c){return c;} };

// maps as values: of sets (key-wise set semantics, bit 2k+e of the code = element 10+e at key k) and of numbers
template<class MAP> struct CMapS { typedef MAP V; enum{set=1,inverse=0}; static V val(long c){ V v; for(int i=0;i<4;++i) if(c>>i&1) v+=std::make_pair(typename MAP::key_type(i/2),std::set<int>{10+i%2}); return v; }
  static long code(const V& v){ long c=0; for(auto&e:v){ if(e.second.empty()) c|=1l<<20; for(int x:e.second) c|=1l<<(2*(int)e.first+x-10); } return c; }
  static std::vector<long> codes(){ return {1,6,9,0}; } static bool ok(long c){return c<16;} static long norm(long c){return c;} };
struct CMap : CMapS<boost::icl::map<int,std::set<int>>>{};
struct CIMap { typedef boost::icl::interval_map<int,int> V; enum{set=0,inverse=0,own=1}; // two keys, values -2..2 as digits 0,1,2(-1),3(2),4(-2) to the base 5
  static int dig(int v){ return v==0?0:v==1?1:v==-1?2:v==2?3:v==-2?4:9; } static int und(int d){ static const int t[]={0,1,-1,2,-2,0,0,0,0,99}; return t[d]; }
  static V val(long c){ V v; for(int k=0;k<2;++k){ int d=und(c%10); c/=10; if(d) v+=std::make_pair(boost::icl::interval<int>::right_open(k,k+1),d); } return v; }
  static long code(const V& v){ long c=0,f=1; for(int k=0;k<2;++k,f*=10){ auto it=v.find(k); if(it!=v.end()) c+=f*(it->second==0?8:dig(it->second)); } return c; }
  static std::vector<long> codes(){ return {1,22,12,0}; } static bool ok(long c){ return c%10<=2&&c/10<=2; } static long norm(long c){return c;}
  static long plus(long a,long b){ long r=0,f=1; for(int k=0;k<2;++k,f*=10,a/=10,b/=10) r+=f*dig(und(a%10)+und(b%10)); return r; }
  static long minus(long a,long b){ long r=0,f=1; for(int k=0;k<2;++k,f*=10,a/=10,b/=10) if(a%10) r+=f*dig(und(a%10)-und(b%10)); return r; } };
struct CIMapT : CIMap { typedef boost::icl::interval_map<int,int,boost::icl::total_absorber> V; enum{set=0,inverse=1,own=1};
  static V val(long c){ V v; for(int k=0;k<2;++k){ int d=und(c%10); c/=10; if(d) v+=std::make_pair(boost::icl::interval<int>::right_open(k,k+1),d); } return v; }
  static long code(const V& v){ long c=0,f=1; for(int k=0;k<2;++k,f*=10){ auto it=v.find(k); if(it!=v.end()) c+=f*(it->second==0?8:dig(it->second)); } return c; }
  static long minus(long a,long b){ long r=0,f=1; for(int k=0;k<2;++k,f*=10,a/=10,b/=10) r+=f*dig(und(a%10)-und(b%10)); return r; } };
#ifdef USE_RATIONAL
struct CRat { typedef boost::rational<int> V; enum{set=0,inverse=1}; static V val(long c){return V((int)c,3);} static long code(V v){return (v*3).numerator();} static std::vector<long> codes(){ return {1,-1,2,0}; } static bool ok(long c){ return c>=-2&&c<=2; } static long norm(long c){return c;} };
#endif
template<class C,class=void> struct has_own { enum{v=0}; }; template<class C> struct has_own<C,typename std::enable_if<(C::own>0)>::type> { enum{v=1}; };

// ---- combiners on codes. Numbers: arithmetic; sets: bit masks.
template<class Cod> struct Cmb { typedef std::function<long(long,long)> F;
  static long plus(long a,long b){ if constexpr(has_own<Cod>::v) return Cod::plus(a,b); else if constexpr(std::is_same<Cod,CStr>::value) return Cod::code(Cod::val(a)+Cod::val(b)); else return Cod::set? (a|b) : Cod::norm(a+b); }
  static long minus(long a,long b){ if constexpr(has_own<Cod>::v) return Cod::minus(a,b); else return Cod::set? (a&~b) : Cod::norm(a-b); }
  static long et(long a,long b){ return a&b; } static long caret(long a,long b){ return a^b; } static long bor(long a,long b){ return a|b; } static long bsub(long a,long b){ return a&~b; }
  static long mx(long a,long b){ return lt(a,b)?b:a; } static long mn(long a,long b){ return lt(b,a)?b:a; }
  static bool lt(long a,long b){ if constexpr(std::is_same<Cod,CStr>::value) return Cod::val(a)<Cod::val(b); else if constexpr(Cod::set){ std::vector<int> x,y; for(int i=0;i<8;++i){ if(a>>i&1) x.push_back(i); if(b>>i&1) y.push_back(i); } return x<y; } else return a<b; }
  static long star(long a,long b){ return Cod::norm(a*b); } static long slash(long a,long b){ return b? Cod::norm(a/b): 0; }
  static long ident(long a,long){ return a; } static long eras(long a,long b){ return a==b?0:a; } };
template<class Cod,template<class>class COMB> struct CombSem; // comb, inverse, version of both
#define MC_COMB(NAME,F,INV) template<class Cod> struct CombSem<Cod,boost::icl::NAME>{ static long comb(long a,long b){ return Cmb<Cod>::F(a,b);} static long inv(long a,long b){ return Cmb<Cod>::INV(a,b);} static long ver(long v){ return v; } static long iver(long v){ return v; } };
template<class Cod> struct CombSem<Cod,boost::icl::inplace_plus>{ static long comb(long a,long b){ return Cmb<Cod>::plus(a,b);} static long inv(long a,long b){ return Cmb<Cod>::minus(a,b);} static long ver(long v){ return v; } static long iver(long v){ return Cod::set?0:Cmb<Cod>::minus(0,v); } };
template<class Cod> struct CombSem<Cod,boost::icl::inplace_minus>{ static long comb(long a,long b){ return Cmb<Cod>::minus(a,b);} static long inv(long a,long b){ return Cmb<Cod>::plus(a,b);} static long ver(long v){ return Cod::set?0:Cod::norm(-v); } static long iver(long v){ return v; } };
MC_COMB(inplace_max,mx,mn) MC_COMB(inplace_min,mn,mx) MC_COMB(inplace_bit_add,bor,bsub) MC_COMB(inplace_bit_subtract,bsub,bor) MC_COMB(inplace_bit_and,et,caret) MC_COMB(inplace_bit_xor,caret,et)
MC_COMB(inplace_star,star,slash) MC_COMB(inplace_slash,slash,star) MC_COMB(inplace_et,et,caret) MC_COMB(inplace_caret,caret,et) MC_COMB(inplace_identity,ident,eras) MC_COMB(inplace_insert,bor,eras) MC_COMB(inplace_erase,bsub,eras) MC_COMB(inplace_erasure,eras,eras)
template<class Cod,template<class>class COMB,class TR> Sem make_sem(int kind){ typedef CombSem<Cod,COMB> S; Sem s; s.kind=kind; s.absorber=TR::absorbs_identities; s.total=TR::is_total; s.id=0;
  s.comb=S::comb; s.inv=S::inv; s.version=S::ver; s.iversion=S::iver; s.set_codomain=Cod::set; s.has_inverse=Cod::inverse; s.sect= Cod::set? Comb(Cmb<Cod>::et): Comb(S::comb); return s; }

inline MapM m_sub(const Sem& S,const MapM& m,Range x,long v){ if(x.empty()||(S.absorber&&v==S.id)) return m;
  if(S.total&&S.has_inverse) return m_addC(S,m,x,v,S.inv,S.iversion); return m_combine_present(S,m,x,v,S.inv); }
// intersection with a segment
inline MapM m_and(const Sem& S,const MapM& m,Range x,long v){ if(S.total) return m_add(S,m,x,v);
  MapM r; for(auto&e:m){ Range c=cap(e.r(),x); if(c.empty()) continue; long w; if(S.set_codomain) w=S.sect(e.v,v); else w=(S.absorber&&v==S.id)? e.v : S.comb(e.v,v);
    if(!(S.absorber&&w==S.id)) r.push_back(MSeg{c.a,c.b,w}); } return m_normal(S.kind,r); }
inline MapM m_flip(const Sem& S,const MapM& m,Range x,long v){
  if(S.total){ if(S.absorber) return MapM(); MapM r=m_add(S,m,x,v); for(auto&e:r) e.v=S.id; return m_normal(S.kind,r); }
  if(x.empty()) return m; MapM r;
  for(auto&e:m){ Range c=cap(e.r(),x); if(c.empty()){ r.push_back(e); continue; } if(e.a<=x.a-1) r.push_back(MSeg{e.a,x.a-1,e.v}); if(x.b+1<=e.b) r.push_back(MSeg{x.b+1,e.b,e.v});
    long w=S.set_codomain? (e.v^v): S.id; if(!(S.absorber&&w==S.id)) r.push_back(MSeg{c.a,c.b,w}); }
  if(!(S.absorber&&v==S.id)) for(auto&g:gaps(dom(m),x)) r.push_back(MSeg{g.a,g.b,S.version(v)});
  sortm(r); return m_normal(S.kind,r); }

template<class D,template<class,template<class>class>class ITV,class Cod,class TR,template<class>class COMB> struct MapCfg {
  typedef typename D::T T; typedef typename Cod::V V;
  typedef typename std::conditional<is_rev<D>::v,ITV<T,std::greater>,ITV<T,std::less>>::type I;
  template<bool R,class X=void> struct K { typedef icl::interval_map<T,V,TR,std::less,COMB,icl::inter_section,I> J; typedef icl::split_interval_map<T,V,TR,std::less,COMB,icl::inter_section,I> X2; 
    typedef icl::interval_set<T,std::less,I> SJ; typedef icl::separate_interval_set<T,std::less,I> SS; typedef icl::split_interval_set<T,std::less,I> SX; };
  template<class X> struct K<true,X> { typedef icl::interval_map<T,V,TR,std::greater,COMB,icl::inter_section,I> J; typedef icl::split_interval_map<T,V,TR,std::greater,COMB,icl::inter_section,I> X2; 
    typedef icl::interval_set<T,std::greater,I> SJ; typedef icl::separate_interval_set<T,std::greater,I> SS; typedef icl::split_interval_set<T,std::greater,I> SX; };
  typedef typename K<is_rev<D>::v>::J J; typedef typename K<is_rev<D>::v>::X2 X; typedef typename K<is_rev<D>::v>::SJ SJ; typedef typename K<is_rev<D>::v>::SS SS; typedef typename K<is_rev<D>::v>::SX SX;
};
template<class C> struct map_kind { enum{v=icl::is_interval_splitter<C>::value? SPLIT: JOIN}; };

template<class D,class Cod,class C> MapM decode_map(const C& c){ MapM m; int guard=0; for(typename C::const_iterator i=c.begin();i!=c.end();++i){ Range r=decode<D>(i->first); m.push_back(MSeg{r.a,r.b,Cod::code(i->second)}); if(++guard>1000) throw OffGrid{"iteration does not end"}; } return m; }
template<class D,class Cod,class C> std::string raw_map(const C& c){ std::string s="{"; int guard=0; for(typename C::const_iterator i=c.begin();i!=c.end();++i){ s+=raw<D>(i->first)+"="+std::to_string(Cod::code(i->second))+" "; if(++guard>1000) break; } return s+"}"; }
template<class Cod> bool map_admissible(int kind,bool absorber,const MapM& m){ if(!wellformed(m)) return false; for(size_t i=0;i<m.size();++i){ if(!Cod::ok(m[i].v)) return false; if(absorber&&m[i].v==0) return false; if(kind==JOIN&&i&&m[i-1].b+1==m[i].a&&m[i-1].v==m[i].v) return false; } return true; }
enum { JM_FUN=0, JM_EXACT=1, JM_WELL=2, JM_ID=3 };
template<class D,class Cod,class C> std::string judge_map(int mode,const Sem&S,const C& c,const MapM& exp){
  MapM got=decode_map<D,Cod>(c);
  if(mode==JM_FUN){ Fun g=fun(got), e=fun(exp); if(g!=e) return "is the function "+show(g)+" but must be "+show(e); return ""; }
  if(mode==JM_EXACT){ if(got!=exp) return "segments are "+show(got)+" but must be "+show(exp)+" ("+kname(S.kind)+" map)"; return ""; }
  if(mode==JM_ID){ for(auto&e:got) if(S.absorber&&e.v==S.id) return "stores an identity value: "+show(got); SetM a=normal(dom(got)), b=normal(dom(exp)); if(a!=b) return "maps the keys "+show(a)+" but must map "+show(b); 
    Fun g=fun(got), e=fun(exp); for(auto&kv:e) if((kv.second==S.id)!=(g[kv.first]==S.id)) return "identity value at the wrong key: "+show(got)+" must be "+show(exp); return ""; }
  if(!wellformed(got)) return "segments not ordered, disjoint and non-empty: "+show(got);
  MapM back; int guard=0; for(typename C::const_reverse_iterator i=c.rbegin();i!=c.rend();++i){ Range r=decode<D>(i->first); back.push_back(MSeg{r.a,r.b,Cod::code(i->second)}); if(++guard>1000) return "reverse iteration does not end"; }
  std::reverse(back.begin(),back.end()); if(back!=got) return "reverse iteration differs from forward iteration: "+show(back)+" vs "+show(got);
  if(icl::iterative_size(c)!=got.size()||c.iterative_size()!=got.size()) return "iterative_size is not the number of segments";
  if(icl::interval_count(c)!=got.size()) return "interval_count is not the number of segments";
  if(c.empty()!=got.empty()||icl::is_empty(c)!=got.empty()) return "emptiness disagrees with the segments";
  return ""; }
} // namespace mc
