// Element containers: icl::map with every trait, std::set used as an icl set. All reachable states under all one-operand operations, then all pairs of states.
// -DE_MAP -DTR=<traits> -DCOD -DCOMB | -DE_SET ; -DKEYT=KInt|KRev|KStr ; groups G_ONE (operands), G_PAIR (two containers), G_ALIAS (container with itself)
#include <boost/utility/enable_if.hpp>
#include <boost/mpl/and.hpp>
#include <boost/mpl/not.hpp>
#include <boost/icl/concept/set_value.hpp>
#include <boost/icl/concept/map_value.hpp>
#include <boost/icl/detail/associated_value.hpp>
#include <boost/icl/map.hpp>
#include "map_common.hpp"
#include <boost/icl/map.hpp>
#include <boost/icl/set.hpp>
#include <boost/icl/predicates/sub_super_set.hpp>
#include <boost/icl/predicates/element_equal.hpp>
#include <boost/icl/predicates/std_equal.hpp>
#include <boost/icl/predicates/distinct_equal.hpp>
#include <boost/icl/iterator.hpp>
#include <sstream>
#include <cstring>
using namespace mc; using namespace boost::icl;
#define ST std::string
struct KInt { typedef int T; template<class X> using Cmp=std::less<X>; static T val(int i){ return i*2-1; } static int cell(T v){ return (v+1)/2; } static ST str(int i){ return std::to_string(val(i)); } enum{rev=0}; };
struct KRev { typedef int T; template<class X> using Cmp=std::greater<X>; static T val(int i){ return 3-i*2; } static int cell(T v){ return (3-v)/2; } static ST str(int i){ return std::to_string(val(i)); } enum{rev=1}; };
struct KStr { typedef std::string T; template<class X> using Cmp=std::less<X>; static T val(int i){ return ST(1,(char)('a'+i)); } static int cell(const T&v){ return v[0]-'a'; } static ST str(int i){ return val(i); } enum{rev=0}; };
typedef KEYT K; typedef K::T T;
template<class X> using KCmp=K::Cmp<X>;
static bool mcontains(const Fun&f,int k){ return f.count(k)>0; }
static ST b2(const char*w,bool got,bool exp){ return got==exp?ST():ST(w)+" gives "+(got?"true":"false")+" but must be "+(exp?"true":"false"); }
static ST n2(const char*w,long got,long exp){ return got==exp?ST():ST(w)+" gives "+std::to_string(got)+" but must be "+std::to_string(exp); }
static ST ne(bool bad,const char*t){ return bad?ST(t):ST(); }
typedef std::set<int> KS; // model key set
template<bool R> struct SetOf { typedef ICL_IMPL_SPACE::set<T,std::less<T>,std::allocator<T>> type; }; template<> struct SetOf<true> { typedef ICL_IMPL_SPACE::set<T,std::greater<T>,std::allocator<T>> type; };
typedef SetOf<K::rev>::type SetT;
static std::vector<SetT> SS; static std::vector<KS> SSM;
static KS ks(const SetT&s){ KS r; for(auto&x:s) r.insert(K::cell(x)); return r; }
static ST kshow(const KS&s){ ST r="{"; for(int x:s) r+=K::str(x)+" "; return r+"}"; }
static bool ksub(const KS&a,const KS&b){ return std::includes(b.begin(),b.end(),a.begin(),a.end()); }
static int incl(bool s,bool t){ return s&&t?inclusion::equal:s?inclusion::subset:t?inclusion::superset:inclusion::unrelated; }
static void all_sets(int P){ for(int m=0;m<(1<<P);++m){ SetT s; KS k; for(int i=0;i<P;++i) if(m>>i&1){ s.insert(K::val(i)); k.insert(i); } SS.push_back(s); SSM.push_back(k); } }

#ifdef E_MAP
#ifndef COMB
#define COMB inplace_plus
#endif
typedef COD Cod; typedef Cod::V V;
template<bool R,class X=void> struct MapOf { typedef boost::icl::map<T,V,boost::icl::TR,std::less,boost::icl::COMB> type; };
template<class X> struct MapOf<true,X> { typedef boost::icl::map<T,V,boost::icl::TR,std::greater,boost::icl::COMB> type; };
typedef MapOf<K::rev>::type C; typedef C::value_type E;
typedef Fun M;
static Sem S; static bool G(const C&){ return true; }
static M dec(const C&c){ M f; int g=0; for(auto&e:c){ f[K::cell(e.first)]=Cod::code(e.second); if(++g>100) throw OffGrid{"iteration does not end"}; } if(f.size()!=c.size()) throw OffGrid{"a key occurs twice or size is wrong"}; return f; }
static ST raw(const C&c){ ST s="{"; for(auto&e:c) s+=K::str(K::cell(e.first))+"="+std::to_string(Cod::code(e.second))+" "; return s+"}"; }
static MapM mm(const M&f){ MapM m; for(auto&e:f) m.push_back(MSeg{e.first,e.first,e.second}); return m; }
static Range R1(int k){ return Range{k,k}; }
static M e_add(const M&m,int k,long v){ return fun(m_add(S,mm(m),R1(k),v)); } static M e_sub(const M&m,int k,long v){ return fun(m_sub(S,mm(m),R1(k),v)); }
static M e_ins(const M&m,int k,long v){ return fun(m_insert(S,mm(m),R1(k),v)); } static M e_set(const M&m,int k,long v){ return fun(m_set(S,mm(m),R1(k),v)); }
static M e_erav(const M&m,int k,long v){ return fun(m_erase_v(S,mm(m),R1(k),v)); } static M e_and(const M&m,int k,long v){ return fun(m_and(S,mm(m),R1(k),v)); }
static M e_flip(const M&m,int k,long v){ return fun(m_flip(S,mm(m),R1(k),v)); } static M e_era(M m,int k){ m.erase(k); return m; } static M e_clip(const M&m,const KS&s){ M r; for(auto&e:m) if(s.count(e.first)) r.insert(e); return r; }
static M e_eraS(M m,const KS&s){ for(int k:s) m.erase(k); return m; }
static KS keys(const M&m){ KS r; for(auto&e:m) r.insert(e.first); return r; }
static ST judge(const C&c,const M&e){ M g=dec(c);
#ifdef ONLY_IDS
  if(S.absorber) for(auto&x:g) if(x.second==0) return ST("an absorbing map stores the identity: ")+show(g);
  return keys(g)==keys(e)?ST():"has the mapped keys of "+show(g)+" but must have those of "+show(e);
#endif
  return g==e?ST():"is the function "+show(g)+" but must be "+show(e); }
static bool admissible(const M&m){ for(auto&e:m){ if(!Cod::ok(e.second)) return false; if(S.absorber&&e.second==0) return false; } return true; }
struct Odd { bool operator()(const E&e)const{ return K::cell(e.first)%2==1; } }; struct IsV { long v; bool operator()(const E&e)const{ return Cod::code(e.second)==v; } };
static M filter(const M&m,bool odd,long v,bool keep){ M r; for(auto&e:m){ bool p= odd? e.first%2==1: e.second==v; if(p==keep) r.insert(e); } return r; }
#else
typedef SetT C; typedef KS M;
static M dec(const C&c){ return ks(c); } static ST raw(const C&c){ return kshow(ks(c)); }
static ST judge(const C&c,const M&e){ M g=dec(c); return g==e?ST():"is "+kshow(g)+" but must be "+kshow(e); }
static bool admissible(const M&){ return true; }
struct Odd { bool operator()(const T&e)const{ return K::cell(e)%2==1; } };
static M s_or(M m,const M&n){ m.insert(n.begin(),n.end()); return m; } static M s_sub(M m,const M&n){ for(int k:n) m.erase(k); return m; } static M s_and(const M&m,const M&n){ M r; for(int k:m) if(n.count(k)) r.insert(k); return r; } static M s_xor(const M&m,const M&n){ return s_or(s_sub(m,n),s_sub(n,m)); }
static M filter(const M&m,bool keep){ M r; for(int k:m) if((k%2==1)==keep) r.insert(k); return r; }
#endif
static Explorer<C,M> ex;
template<class F> static void gen(ST n,F f){ ex.ops.push_back(Op<C,M>{n,true,true,f}); }
template<class F> static void que(ST n,F f){ ex.ops.push_back(Op<C,M>{n,true,false,f}); }
#ifdef E_MAP
#define KMF(NAME,CALL,EXP) gen(ST(NAME)+"("+K::str(k)+","+std::to_string(v)+")",[=](C&c,const M&m)->ST{ E e(K::val(k),Cod::val(v)); CALL; return judge(c,EXP); })
#define KF(NAME,CALL,EXP) gen(ST(NAME)+"("+K::str(k)+")",[=](C&c,const M&m)->ST{ T e(K::val(k)); CALL; return judge(c,EXP); })
#define PURE(NAME,CALL,EXP) que(ST(NAME)+"("+K::str(k)+","+std::to_string(v)+")",[=](C&c,const M&m)->ST{ E e(K::val(k),Cod::val(v)); C r=CALL; if(dec(c)!=m) return ST("operand was modified"); return judge(r,EXP); })
static void one(){
  std::vector<long> vs=Cod::codes();
  for(int k=0;k<P;++k) for(long v:vs){
    KMF("m.add",c.add(e),e_add(m,k,v)); KMF("icl::add",boost::icl::add(c,e),e_add(m,k,v)); KMF("operator+=",c+=e,e_add(m,k,v)); KMF("operator|=",c|=e,e_add(m,k,v));
    PURE("operator+",c+e,e_add(m,k,v)); PURE("operator+(e,m)",e+c,e_add(m,k,v)); PURE("operator|",c|e,e_add(m,k,v)); PURE("operator|(e,m)",e|c,e_add(m,k,v));
    for(int h=0;h<=P;++h){ gen("m.add hint("+std::to_string(h)+","+K::str(k)+","+std::to_string(v)+")",[=](C&c,const M&m)->ST{ auto it=c.begin(); for(int i=0;i<h&&it!=c.end();++i) ++it; auto r=c.add(it,E(K::val(k),Cod::val(v))); M x=e_add(m,k,v); ST e=judge(c,x); if(!e.empty()) return e; if(r!=c.end()&&K::cell(r->first)!=k) return ST("returned iterator does not address the added key"); return ST(); });
      gen("icl::add hint("+std::to_string(h)+","+K::str(k)+","+std::to_string(v)+")",[=](C&c,const M&m)->ST{ auto it=c.begin(); for(int i=0;i<h&&it!=c.end();++i) ++it; boost::icl::add(c,it,E(K::val(k),Cod::val(v))); return judge(c,e_add(m,k,v)); });
      gen("m.insert hint("+std::to_string(h)+","+K::str(k)+","+std::to_string(v)+")",[=](C&c,const M&m)->ST{ auto it=c.begin(); for(int i=0;i<h&&it!=c.end();++i) ++it; c.insert(it,E(K::val(k),Cod::val(v))); return judge(c,e_ins(m,k,v)); });
      gen("icl::insert hint("+std::to_string(h)+","+K::str(k)+","+std::to_string(v)+")",[=](C&c,const M&m)->ST{ auto it=c.begin(); for(int i=0;i<h&&it!=c.end();++i) ++it; boost::icl::insert(c,it,E(K::val(k),Cod::val(v))); return judge(c,e_ins(m,k,v)); }); }
    for(int h=0;h<=P;++h){ int k2=(k+h)%P; long v2=vs[(h+(v!=0))%vs.size()];
      gen("adder hint("+std::to_string(h)+","+K::str(k)+","+std::to_string(v)+")",[=](C&c,const M&m)->ST{ auto it=c.begin(); for(int i=0;i<h&&it!=c.end();++i) ++it; std::vector<std::pair<T,V>> src{{K::val(k),Cod::val(v)},{K::val(k2),Cod::val(v2)}}; std::copy(src.begin(),src.end(),boost::icl::adder(c,it)); return judge(c,e_add(e_add(m,k,v),k2,v2)); });
      gen("inserter hint("+std::to_string(h)+","+K::str(k)+","+std::to_string(v)+")",[=](C&c,const M&m)->ST{ auto it=c.begin(); for(int i=0;i<h&&it!=c.end();++i) ++it; std::vector<std::pair<T,V>> src{{K::val(k),Cod::val(v)},{K::val(k2),Cod::val(v2)}}; std::copy(src.begin(),src.end(),boost::icl::inserter(c,it)); return judge(c,e_ins(e_ins(m,k,v),k2,v2)); }); }
#ifndef NO_SUB
    if(!(S.absorber&&v==0)){ // as for flip
    KMF("m.subtract",c.subtract(e),e_sub(m,k,v)); KMF("icl::subtract",boost::icl::subtract(c,e),e_sub(m,k,v)); KMF("operator-=",c-=e,e_sub(m,k,v)); PURE("operator-",c-e,e_sub(m,k,v)); }
#endif
    KMF("m.insert",auto r=c.insert(e); if(!(S.absorber&&v==0)&&r.second!=!m.count(k)) return ST("wrong inserted flag"),e_ins(m,k,v)); KMF("icl::insert",boost::icl::insert(c,e),e_ins(m,k,v));
    KMF("m.set",c.set(e),e_set(m,k,v)); KMF("icl::set_at",boost::icl::set_at(c,e),e_set(m,k,v));
    KMF("m.erase(e)",size_t n=c.erase(e); ST q=n2("erase count",(long)n,(long)(m.size()-e_erav(m,k,v).size())); if(!q.empty()) return q,e_erav(m,k,v)); KMF("icl::erase(e)",boost::icl::erase(c,e),e_erav(m,k,v));
#ifndef NO_AND
    KMF("operator&=",c&=e,e_and(m,k,v)); PURE("operator&",c&e,e_and(m,k,v)); PURE("operator&(e,m)",e&c,e_and(m,k,v));
    if(!S.total){ gen("add_intersection(e)"+K::str(k)+","+std::to_string(v),[=](C&c,const M&m)->ST{ C s; boost::icl::add_intersection(s,c,E(K::val(k),Cod::val(v))); c.swap(s); return judge(c,e_and(m,k,v)); }); gen("m.add_intersection(e)"+K::str(k)+","+std::to_string(v),[=](C&c,const M&m)->ST{ C s; c.add_intersection(s,E(K::val(k),Cod::val(v))); if(dec(c)!=m) return ST("object was modified"); c=s; return judge(c,e_and(m,k,v)); }); }
#endif
#ifndef NO_FLIP
    if(!(S.absorber&&!S.total&&v==0)){ // an absorbing map regards (k,identity) as no element: not judged
    KMF("m.flip",c.flip(e),e_flip(m,k,v)); KMF("icl::flip",boost::icl::flip(c,e),e_flip(m,k,v)); KMF("operator^=",c^=e,e_flip(m,k,v)); PURE("operator^",c^e,e_flip(m,k,v)); PURE("operator^(e,m)",e^c,e_flip(m,k,v)); }
#endif
    que("contains(e)"+K::str(k)+","+std::to_string(v),[=](C&c,const M&m)->ST{ E e(K::val(k),Cod::val(v)); bool x=m.count(k)&&m.at(k)==v; ST q=b2("contains",boost::icl::contains(c,e),x); if(q.empty()) q=b2("m.contains",c.contains(e),x); if(q.empty()) q=b2("within",boost::icl::within(e,c),x);

#ifndef NO_AND
      if(q.empty()) q=b2("intersects",boost::icl::intersects(c,e),S.total||!e_and(m,k,v).empty()); 
#endif
      return q; });
    if(k==0) gen("erase_if value "+std::to_string(v),[=](C&c,const M&m)->ST{ boost::icl::erase_if(IsV{v},c); return judge(c,filter(m,false,v,false)); });
  }
  for(int k=0;k<P;++k){
    KF("m.erase(k)",size_t n=c.erase(e); if(n!=m.count(k)) return ST("wrong erase count"),e_era(m,k)); KF("icl::erase(k)",size_t n=boost::icl::erase(c,e); if(n!=m.count(k)) return ST("wrong erase count"),e_era(m,k)); KF("m.subtract(k)",c.subtract(e),e_era(m,k)); KF("icl::subtract(k)",boost::icl::subtract(c,e),e_era(m,k));
#ifndef NO_AND
    KF("operator&=(k)",c&=e,e_clip(m,KS{k})); KF("operator&(k)",c=c&e,e_clip(m,KS{k})); KF("operator&(k,m)",c=e&c,e_clip(m,KS{k})); KF("add_intersection(k)",C s; boost::icl::add_intersection(s,c,e); c.swap(s),e_clip(m,KS{k}));
#endif
    que("contains(k)"+K::str(k),[=](C&c,const M&m)->ST{ T e(K::val(k)); bool x=m.count(k)>0; ST q=b2("contains",boost::icl::contains(c,e),x); if(q.empty()) q=b2("within",boost::icl::within(e,c),x); 
      long w= x? m.at(k): 0; if(q.empty()&&Cod::code(c(e))!=w) q="m(k) is "+std::to_string(Cod::code(c(e)))+" but must be "+std::to_string(w); if(q.empty()) q=b2("find",c.find(e)!=c.end(),x); if(q.empty()) q=b2("count",c.count(e)==1,x); return q; });
  }
  gen("clear",[](C&c,const M&)->ST{ c.clear(); ST e=judge(c,M()); if(e.empty()&&!boost::icl::is_empty(c)) e="not empty"; return e; }); gen("icl::clear",[](C&c,const M&)->ST{ boost::icl::clear(c); return judge(c,M()); });
  gen("absorb_identities",[](C&c,const M&m)->ST{ boost::icl::absorb_identities(c); return judge(c,m); });
  gen("erase_if odd",[](C&c,const M&m)->ST{ boost::icl::erase_if(Odd(),c); return judge(c,filter(m,true,0,false)); });
#ifndef NO_AND
  gen("assign_if odd",[](C&c,const M&m)->ST{ C t(c); t.clear(); if(P) t.add(E(K::val(0),Cod::val(1))); boost::icl::assign_if(Odd(),t,c); if(dec(c)!=m) return ST("source was modified"); c=t; return judge(c,filter(m,true,0,true)); });
#endif
  que("domain",[](C&c,const M&m)->ST{ SetT d; boost::icl::domain(d,c); if(ks(d)!=keys(m)) return "domain is "+kshow(ks(d)); d.insert(K::val(0)); d.insert(K::val(P-1)); boost::icl::domain(d,c); return ks(d)==keys(m)?ST():"domain is "+kshow(ks(d)); });
  que("sizes",[](C&c,const M&m)->ST{ long n=(long)m.size(); ST q=n2("size",(long)boost::icl::size(c),n); if(q.empty()) q=n2("cardinality",(long)boost::icl::cardinality(c),n); if(q.empty()) q=n2("iterative_size",(long)boost::icl::iterative_size(c),n); if(q.empty()) q=n2("m.size",(long)c.size(),n); if(q.empty()) q=n2("m.iterative_size",(long)c.iterative_size(),n); if(q.empty()) q=b2("is_empty",boost::icl::is_empty(c),n==0); if(q.empty()) q=b2("empty",c.empty(),n==0); return q; });
#ifndef NO_STREAM
  que("stream",[](C&c,const M&m)->ST{ std::ostringstream o, x; o<<c; x<<"{"; for(auto&e:m) x<<"("<<K::val(e.first)<<"->"<<Cod::val(e.second)<<")"; x<<"}"; return o.str()==x.str()?ST():"prints "+o.str()+" but must print "+x.str(); });
#endif
  que("iterate",[](C&c,const M&m)->ST{ std::vector<int> f,b; for(auto&e:c) f.push_back(K::cell(e.first)); for(auto i=c.rbegin();i!=c.rend();++i) b.push_back(K::cell(i->first)); std::reverse(b.begin(),b.end()); std::vector<int> x; for(auto&e:m) x.push_back(e.first); return f==x&&b==x?ST():"iteration order is wrong"; });
  gen("copy and move",[](C&c,const M&m)->ST{ C t(c); C u(t); t.clear(); ST e=judge(u,m); if(!e.empty()) return e; C w(std::move(u)); e=judge(w,m); if(!e.empty()) return e; t=w; e=judge(t,m); if(!e.empty()) return e; C y; y=std::move(w); e=judge(y,m); if(!e.empty()) return e; w=y; y.clear(); e=judge(w,m); c=w; return e; });
  gen("construct from range",[](C&c,const M&m)->ST{ std::vector<std::pair<T,V>> v; for(int k=P-1;k>=0;--k) if(m.count(k)) v.push_back(std::make_pair(K::val(k),Cod::val(m.at(k)))); if(P) v.push_back(std::make_pair(K::val(0),V())); M x=m; if(!S.absorber&&P&&!x.count(0)) x[0]=0; C r(v.begin(),v.end()); ST e=judge(r,x); if(!e.empty()) return e; C r2(v.begin(),v.end(),C::key_compare()); e=judge(r2,x); if(!e.empty()) return e; C r3; r3.insert(v.begin(),v.end()); return judge(r3,x); });
  for(int k=0;k<P;++k) for(long v:vs) if(k==P-1) que("construct from element("+K::str(k)+","+std::to_string(v)+")",[=](C&c,const M&)->ST{ C r(E(K::val(k),Cod::val(v))); return judge(r,e_ins(M(),k,v)); });
}
#else
#define SKF(NAME,CALL,EXP) gen(ST(NAME)+"("+K::str(k)+")",[=](C&c,const M&m)->ST{ T e(K::val(k)); CALL; return judge(c,EXP); })
#define SPURE(NAME,CALL,EXP) que(ST(NAME)+"("+K::str(k)+")",[=](C&c,const M&m)->ST{ T e(K::val(k)); C r=CALL; if(dec(c)!=m) return ST("operand was modified"); return judge(r,EXP); })
static void one(){
  for(int k=0;k<P;++k) for(int h=0;h<=P;++h){ int k2=(k+h)%P;
    gen("inserter hint("+std::to_string(h)+","+K::str(k)+")",[=](C&c,const M&m)->ST{ auto it=c.begin(); for(int i=0;i<h&&it!=c.end();++i) ++it; std::vector<T> src{K::val(k),K::val(k2)}; std::copy(src.begin(),src.end(),boost::icl::inserter(c,it)); return judge(c,s_or(m,M{k,k2})); }); }
  for(int k=0;k<P;++k){ M x{k};
    SKF("icl::add",boost::icl::add(c,e),s_or(m,x)); SKF("operator+=",c+=e,s_or(m,x)); SKF("operator|=",c|=e,s_or(m,x)); SKF("icl::insert",auto r=boost::icl::insert(c,e); if(r.second==(m.count(k)>0)) return ST("wrong inserted flag"),s_or(m,x)); SPURE("operator+",c+e,s_or(m,x)); SPURE("operator+(e,s)",e+c,s_or(m,x)); SPURE("operator|",c|e,s_or(m,x)); SPURE("operator|(e,s)",e|c,s_or(m,x));
    for(int h=0;h<=P;++h) gen("icl::add hint("+std::to_string(h)+","+K::str(k)+")",[=](C&c,const M&m)->ST{ auto it=c.begin(); for(int i=0;i<h&&it!=c.end();++i) ++it; if(h%2) boost::icl::add(c,it,K::val(k)); else boost::icl::insert(c,it,K::val(k)); return judge(c,s_or(m,M{k})); });
    SKF("icl::subtract",boost::icl::subtract(c,e),s_sub(m,x)); SKF("operator-=",c-=e,s_sub(m,x)); SPURE("operator-",c-e,s_sub(m,x)); SKF("icl::erase",size_t n=boost::icl::erase(c,e); if(n!=m.count(k)) return ST("wrong erase count"),s_sub(m,x));
    SKF("operator&=",c&=e,s_and(m,x)); SPURE("operator&",c&e,s_and(m,x)); SPURE("operator&(e,s)",e&c,s_and(m,x)); SKF("add_intersection",C s; boost::icl::add_intersection(s,c,e); c.swap(s),s_and(m,x));
    SKF("icl::flip",boost::icl::flip(c,e),s_xor(m,x)); SPURE("operator^",c^e,s_xor(m,x)); SPURE("operator^(e,s)",e^c,s_xor(m,x));
    que("contains"+K::str(k),[=](C&c,const M&m)->ST{ T e(K::val(k)); bool x=m.count(k)>0; ST q=b2("contains",boost::icl::contains(c,e),x); if(q.empty()) q=b2("within",boost::icl::within(e,c),x); if(q.empty()) q=b2("intersects",boost::icl::intersects(c,e),x); return q; });
  }
  gen("icl::clear",[](C&c,const M&)->ST{ boost::icl::clear(c); return judge(c,M()); });
  gen("erase_if odd",[](C&c,const M&m)->ST{ boost::icl::erase_if(Odd(),c); return judge(c,filter(m,false)); });
  gen("assign_if odd",[](C&c,const M&m)->ST{ C t; t.insert(K::val(0)); boost::icl::assign_if(Odd(),t,c); if(dec(c)!=m) return ST("source was modified"); c=t; return judge(c,filter(m,true)); });
  que("sizes",[](C&c,const M&m)->ST{ long n=(long)m.size(); ST q=n2("size",(long)boost::icl::size(c),n); if(q.empty()) q=n2("cardinality",(long)boost::icl::cardinality(c),n); if(q.empty()) q=n2("iterative_size",(long)boost::icl::iterative_size(c),n); if(q.empty()) q=b2("is_empty",boost::icl::is_empty(c),n==0); return q; });
  que("stream",[](C&c,const M&m)->ST{ std::ostringstream o, x; o<<c; x<<"{"; for(int e:m) x<<K::val(e)<<" "; x<<"}"; return o.str()==x.str()?ST():"prints "+o.str()+" but must print "+x.str(); });
}
#endif

struct BOp { ST name; std::function<ST(const C&,const M&,const C&,const M&)> run; }; static std::vector<BOp> bops;
struct SOp { ST name; std::function<ST(const C&,const M&,const SetT&,const KS&)> run; }; static std::vector<SOp> sops;
template<class F> static void bop(ST n,F f){ bops.push_back(BOp{n,f}); }
template<class F> static void sop(ST n,F f){ sops.push_back(SOp{n,f}); }
#define INPL(NAME,CALL,EXP) bop(NAME,[](const C&a,const M&m,const C&b,const M&n)->ST{ C s(a); CALL; if(dec(b)!=n||dec(a)!=m) return ST("an operand was modified"); return judge(s,EXP); })
#define QUE(NAME,GOT,EXP) bop(NAME,[](const C&a,const M&m,const C&b,const M&n)->ST{ return b2(NAME,GOT,EXP); })
static void two(){
#ifdef E_MAP
  struct L{ static M add(M m,const M&n){ for(auto&e:n) m=e_add(m,e.first,e.second); return m; } static M sub(M m,const M&n){ for(auto&e:n) m=e_sub(m,e.first,e.second); return m; } static M ins(M m,const M&n){ for(auto&e:n) m=e_ins(m,e.first,e.second); return m; } static M era(M m,const M&n){ for(auto&e:n) m=e_erav(m,e.first,e.second); return m; }
    static M flip(M m,const M&n){ if(S.total){ if(S.absorber) return M(); m=add(m,n); for(auto&e:m) e.second=0; return m; } for(auto&e:n) m=e_flip(m,e.first,e.second); return m; }
    static M inter(const M&m,const M&n){ if(S.total) return add(m,n); M r; for(auto&e:n){ M p=e_and(m,e.first,e.second); r.insert(p.begin(),p.end()); } return r; }
    static bool vsub_(const M&m,const M&n){ for(auto&e:m) if(!n.count(e.first)||(Cod::set? (e.second&~n.at(e.first))!=0: n.at(e.first)!=e.second)) return false; return true; }
    static bool sub_(const M&m,const M&n){ for(auto&e:m) if(!n.count(e.first)||n.at(e.first)!=e.second) return false; return true; } static M nonid(const M&m){ M r; for(auto&e:m) if(e.second!=0) r.insert(e); return r; }
    static bool less(const M&m,const M&n){ return std::lexicographical_compare(m.begin(),m.end(),n.begin(),n.end(),[](const M::value_type&x,const M::value_type&y){ if(x.first!=y.first) return x.first<y.first; return K::rev? Cmb<Cod>::lt(y.second,x.second): Cmb<Cod>::lt(x.second,y.second); }); }
    static bool meets(const M&m,const M&n){ for(auto&e:m) if(n.count(e.first)) return true; return false; } };
  INPL("operator+=",s+=b,L::add(m,n)); INPL("operator+",s=a+b,L::add(m,n)); INPL("operator|=",s|=b,L::add(m,n)); INPL("operator|",s=a|b,L::add(m,n));
  INPL("icl::insert",boost::icl::insert(s,b),L::ins(m,n)); INPL("icl::erase",boost::icl::erase(s,b),L::era(m,n));
#ifndef NO_SUB
  INPL("operator-=",s-=b,L::sub(m,n)); INPL("operator-",s=a-b,L::sub(m,n));
#endif
#ifndef NO_AND
  INPL("operator&=",s&=b,L::inter(m,n)); INPL("operator&",s=a&b,L::inter(m,n)); if(!S.total) INPL("add_intersection",C t; boost::icl::add_intersection(t,s,b); s=t,L::inter(m,n));
#endif
#ifndef NO_FLIP
  INPL("operator^=",s^=b,L::flip(m,n)); INPL("operator^",s=a^b,L::flip(m,n));
#endif
  INPL("add_if odd",boost::icl::add_if(Odd(),s,b),L::add(m,filter(n,true,0,true)));
  INPL("swap",C t(b); s.swap(t); if(dec(t)!=m) return ST("swap loses contents"),n); INPL("icl::swap",C t(b); boost::icl::swap(s,t); if(dec(t)!=m) return ST("swap loses contents"),n); INPL("assign",s=b,n);
  QUE("contains",boost::icl::contains(a,b),L::sub_(n,m)); QUE("within",boost::icl::within(a,b),L::sub_(m,n)); QUE("m.within",a.within(b),L::sub_(m,n)); QUE("intersects",boost::icl::intersects(a,b),S.total||L::meets(m,n));
  QUE("operator==",a==b,m==n); QUE("operator!=",a!=b,m!=n); QUE("is_element_equal",boost::icl::is_element_equal(a,b),m==n); QUE("is_distinct_equal",boost::icl::is_distinct_equal(a,b),L::nonid(m)==L::nonid(n));
#ifndef NO_LESS
  QUE("operator<",a<b,L::less(m,n)); QUE("operator>",a>b,L::less(n,m)); QUE("operator<=",a<=b,!L::less(n,m)); QUE("operator>=",a>=b,!L::less(m,n));
#endif
  QUE("std_equal",boost::icl::std_equal<C>()(a,b),m==n); QUE("element_equal",boost::icl::element_equal<C>()(a,b),m==n); QUE("distinct_equal",boost::icl::distinct_equal<C>()(a,b),L::nonid(m)==L::nonid(n)); QUE("sub_super_set",boost::icl::sub_super_set<C>()(a,b),L::sub_(m,n)); QUE("super_sub_set",boost::icl::super_sub_set<C>()(a,b),L::sub_(n,m));
#ifndef NO_INCL
  bop("inclusion_compare",[](const C&a,const M&m,const C&b,const M&n)->ST{ return n2("inclusion_compare",boost::icl::inclusion_compare(a,b),incl(L::vsub_(m,n),L::vsub_(n,m))); });
#endif
#define SOPI(NAME,CALL,EXP) sop(NAME,[](const C&a,const M&m,const SetT&b,const KS&n)->ST{ C s(a); CALL; if(ks(b)!=n||dec(a)!=m) return ST("an operand was modified"); return judge(s,EXP); })
#define SQUE(NAME,GOT,EXP) sop(NAME,[](const C&a,const M&m,const SetT&b,const KS&n)->ST{ return b2(NAME,GOT,EXP); })
  SOPI("operator-=(set)",s-=b,e_eraS(m,n)); SOPI("operator-(set)",s=a-b,e_eraS(m,n)); SOPI("icl::erase(set)",boost::icl::erase(s,b),e_eraS(m,n));
#ifndef NO_AND
 SOPI("operator&=(set)",s&=b,e_clip(m,n)); SOPI("operator&(set)",s=a&b,e_clip(m,n)); SOPI("operator&(set,m)",s=b&a,e_clip(m,n)); SOPI("add_intersection(set)",C t; boost::icl::add_intersection(t,s,b); s=t,e_clip(m,n));
#endif
  SQUE("contains(set)",boost::icl::contains(a,b),ksub(n,keys(m))); SQUE("within(set)",boost::icl::within(b,a),ksub(n,keys(m)));
  sop("inclusion_compare(set)",[](const C&a,const M&m,const SetT&b,const KS&n)->ST{ ST q=n2("inclusion_compare(map,set)",boost::icl::inclusion_compare(a,b),incl(ksub(keys(m),n),ksub(n,keys(m)))); if(q.empty()) q=n2("inclusion_compare(set,map)",boost::icl::inclusion_compare(b,a),incl(ksub(n,keys(m)),ksub(keys(m),n))); return q; });
#else
  struct L{ static bool less(const M&m,const M&n){ return std::lexicographical_compare(m.begin(),m.end(),n.begin(),n.end()); } };
  INPL("operator+=",s+=b,s_or(m,n)); INPL("operator+",s=a+b,s_or(m,n)); INPL("operator|=",s|=b,s_or(m,n)); INPL("operator|",s=a|b,s_or(m,n)); INPL("icl::insert",boost::icl::insert(s,b),s_or(m,n)); INPL("icl::erase",boost::icl::erase(s,b),s_sub(m,n)); INPL("operator-=",s-=b,s_sub(m,n)); INPL("operator-",s=a-b,s_sub(m,n));
  INPL("operator&=",s&=b,s_and(m,n)); INPL("operator&",s=a&b,s_and(m,n)); INPL("add_intersection",C t; boost::icl::add_intersection(t,s,b); s=t,s_and(m,n)); INPL("operator^=",s^=b,s_xor(m,n)); INPL("operator^",s=a^b,s_xor(m,n)); INPL("add_if odd",boost::icl::add_if(Odd(),s,b),s_or(m,filter(n,true))); INPL("icl::swap",C t(b); boost::icl::swap(s,t); if(dec(t)!=m) return ST("swap loses contents"),n);
  QUE("contains",boost::icl::contains(a,b),ksub(n,m)); QUE("within",boost::icl::within(a,b),ksub(m,n)); QUE("operator==",a==b,m==n); QUE("is_element_equal",boost::icl::is_element_equal(a,b),m==n); QUE("element_equal",boost::icl::element_equal<C>()(a,b),m==n); QUE("sub_super_set",boost::icl::sub_super_set<C>()(a,b),ksub(m,n)); QUE("super_sub_set",boost::icl::super_sub_set<C>()(a,b),ksub(n,m)); QUE("std_equal",boost::icl::std_equal<C>()(a,b),m==n);
  bop("inclusion_compare",[](const C&a,const M&m,const C&b,const M&n)->ST{ return n2("inclusion_compare",boost::icl::inclusion_compare(a,b),incl(ksub(m,n),ksub(n,m))); });
#endif
}
#ifdef G_ALIAS
#ifdef E_MAP
static void alias(){
  struct L{ static M add(M m,const M&n){ for(auto&e:n) m=e_add(m,e.first,e.second); return m; } static M sub(M m,const M&n){ for(auto&e:n) m=e_sub(m,e.first,e.second); return m; } static M flip(M m,const M&n){ if(S.total){ if(S.absorber) return M(); m=add(m,n); for(auto&e:m) e.second=0; return m; } for(auto&e:n) m=e_flip(m,e.first,e.second); return m; }
    static M inter(const M&m,const M&n){ if(S.total) return add(m,n); M r; for(auto&e:n){ M p=e_and(m,e.first,e.second); r.insert(p.begin(),p.end()); } return r; } static M era(M m,const M&n){ for(auto&e:n) m=e_erav(m,e.first,e.second); return m; } };
#define AL(NAME,CALL,EXP) gen(NAME,[](C&c,const M&m)->ST{ CALL; return judge(c,EXP); })
  AL("m+=m",c+=c,L::add(m,m)); AL("m|=m",c|=c,L::add(m,m)); 
#ifndef NO_SUB
  AL("m-=m",c-=c,L::sub(m,m));
#endif
#ifndef NO_AND
  AL("m&=m",c&=c,L::inter(m,m));
#endif
#ifndef NO_FLIP
  AL("m^=m",c^=c,L::flip(m,m));
#endif
  AL("insert(m,m)",boost::icl::insert(c,c),m); AL("erase(m,m)",boost::icl::erase(c,c),L::era(m,m)); AL("m=m",c=static_cast<const C&>(c),m); AL("swap(m,m)",c.swap(c),m); AL("add_if(m,m)",boost::icl::add_if(Odd(),c,c),L::add(m,filter(m,true,0,true)));
  for(int i=0;i<P;++i){
#define IT_(NAME,CALL,EXP) gen(ST(NAME)+" element "+std::to_string(i)+" of itself",[i](C&c,const M&m)->ST{ if((int)m.size()<=i) return ST(); auto it=c.begin(); std::advance(it,i); const E& e=*it; int k=K::cell(e.first); long v=Cod::code(e.second); (void)k;(void)v; CALL; return judge(c,EXP); })
    IT_("m+=",c+=e,e_add(m,k,v)); IT_("m.add",c.add(e),e_add(m,k,v)); IT_("m.add hint",c.add(it,e),e_add(m,k,v)); 
#ifndef NO_SUB
    IT_("m-=",c-=e,e_sub(m,k,v));
#endif
    IT_("m.set",c.set(e),m); IT_("m.insert",c.insert(e),m); IT_("m.erase",c.erase(e),e_erav(m,k,v)); IT_("erase key",boost::icl::erase(c,e.first),e_era(m,k)); 
#ifndef NO_AND
    IT_("m&=",c&=e,e_and(m,k,v)); IT_("m&=key",c&=e.first,e_clip(m,KS{k}));
#endif
#ifndef NO_FLIP
    IT_("m^=",c^=e,e_flip(m,k,v)); IT_("m.flip",c.flip(e),e_flip(m,k,v));
#endif
  } }
#else
static void alias(){
#define AL(NAME,CALL,EXP) gen(NAME,[](C&c,const M&m)->ST{ (void)m; CALL; return judge(c,EXP); })
  AL("s+=s",c+=c,m); AL("s|=s",c|=c,m); AL("s-=s",c-=c,M()); AL("s&=s",c&=c,m); AL("s^=s",c^=c,M()); AL("insert(s,s)",boost::icl::insert(c,c),m); AL("erase(s,s)",boost::icl::erase(c,c),M());
  for(int i=0;i<P;++i){
#define IT_(NAME,CALL,EXP) gen(ST(NAME)+" element "+std::to_string(i)+" of itself",[i](C&c,const M&m)->ST{ if((int)m.size()<=i) return ST(); auto it=c.begin(); std::advance(it,i); const T& e=*it; int k=K::cell(e); (void)k; CALL; return judge(c,EXP); })
    IT_("s+=",c+=e,m); IT_("s-=",c-=e,s_sub(m,M{k})); IT_("s&=",c&=e,s_and(m,M{k})); IT_("flip",boost::icl::flip(c,e),s_xor(m,M{k})); IT_("erase",boost::icl::erase(c,e),s_sub(m,M{k})); }
}
#endif
#endif

// FILTER selects the operations judged when another property borrows this harness: 1 hints and inserters, 2 predicates, 3 streaming, 4 combination
static bool starts(const ST&n,const char*p){ return n.compare(0,strlen(p),p)==0; }
static bool selected(const ST&n){
#if !defined FILTER
  return true;
#elif FILTER==1
  return n.find(" hint")!=ST::npos;
#elif FILTER==2
  return n.find("_if")!=ST::npos;
#elif FILTER==3
  return n=="stream";
#elif FILTER==4
  for(const char*p:{"m.add","icl::add","operator+","operator|","m.subtract","icl::subtract","operator-","adder"}) if(starts(n,p)) return n.find("intersection")==ST::npos; return false;
#endif
}

int main(int argc,char**argv){
  init2(argc,argv); mc::P=(int)param("P",3); g_cfg=CFGNAME;
#ifdef E_MAP
  S=make_sem<Cod,boost::icl::COMB,boost::icl::TR>(SPLIT);
#endif
  ex.decode=[](const C&c){ return dec(c); }; ex.raw=[](const C&c){ return raw(c); }; ex.admissible=[](const M&m){ return admissible(m); };
  one();
#ifndef G_ONE
  for(auto&o:ex.ops) o.judged=false;
#endif
  for(auto&o:ex.ops) if(!selected(o.name)) o.judged=false;
#ifdef G_ALIAS
  for(auto&o:ex.ops) o.judged=false;
  alias();
#endif
  ex.run(C());
#ifdef G_PAIR
  two(); all_sets(P); bops.erase(std::remove_if(bops.begin(),bops.end(),[](const BOp&o){ return !selected(o.name); }),bops.end()); sops.erase(std::remove_if(sops.begin(),sops.end(),[](const SOp&o){ return !selected(o.name); }),sops.end()); g_phase="pairs";
  long n=(long)ex.st.size(), cap=param("pairs",400); if(n>cap){ g_truncated=true; }
  long step=n>cap? (n+cap-1)/cap: 1;
  auto run=[&](auto&OPS,auto&YS,auto&YM,auto ykey,long ny,long stepy){
    for(long i=0;i<n;i+=step) for(long j=0;j<ny;j+=stepy) for(auto&o:OPS){ ST key; auto mk=[&]{ return "A="+ex.keys[i]+" B="+ykey(j); }; g_pstate=&key; g_pathfn=[&]{ key=mk(); return "A: "+ex.path((int)i); };
      ST e=guarded(key,o.name,true,[&]{ return o.run(ex.st[i],ex.models[i],YS[j],YM[j]); }); ++g_trans; ++g_judged; if(!e.empty()) violation(mk(),o.name,e+"   A: "+ex.path((int)i)); }
    for(auto&o:OPS) g_opcount[opfam(o.name)]+=(n/step)*(ny/stepy); };
  run(bops,ex.st,ex.models,[&](long j){ return ex.keys[j]; },n,step); run(sops,SS,SSM,[&](long j){ return kshow(SSM[j]); },(long)SS.size(),1);
  sample("pairs of "+std::to_string(n)+" states");
#endif
  g_pathfn=nullptr; flush_stats(); return 0;
}
