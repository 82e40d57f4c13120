// Interval algebra: all intervals (and all ordered pairs) over the grid of one interval type.
// -DDOM -DITV and one of -DF_I01 -DF_I02 -DF_I03 -DF_I04 -DF_L12
#include "explore.hpp"
using namespace mc;
typedef DOM D; typedef D::T T;
typedef std::conditional<is_rev<D>::v,icl::ITV<T,std::greater>,icl::ITV<T,std::less>>::type I;
typedef std::string S;
static const bool disc=D::discrete;
struct X { I iv; int i,j,b; Range r; S d; };
static std::vector<X> all; static S EMPTYST="-";
static bool lt(int a,int b){return a<b;}
template<class F> void q1(const X&x,const char*name,F f){ S op=name; S st=x.d; ++g_trans; ++g_judged; ++g_opcount[op]; S e=guarded(st,op,true,f); if(!e.empty()) violation(st,op,e); }
template<class F> void q2(const X&x,const X&y,const char*name,F f){ static S st; static const X*lx=nullptr,*ly=nullptr; static S op; if(lx!=&x||ly!=&y){ st=x.d+" "+y.d; lx=&x; ly=&y; } op=name; ++g_trans; ++g_judged; ++g_opcount[op]; S e=guarded(st,op,true,f); if(!e.empty()) violation(st,op,e); }
static S eqb(bool g,bool e){ return g==e?S():S("gives ")+(g?"true":"false")+" but must be "+(e?"true":"false"); }
static S isr(const I&g,Range e){ Range r=decode<D>(g); if(r.empty()&&e.empty()) return S(); return r==e?S():"gives "+raw<D>(g)+" = "+show(r)+" but must be "+show(e); }
static T val(int c){ return disc? D::pt(c): cellval<D>(c); }
int main(int argc,char**argv){
  init2(argc,argv); P=(int)param("P",5); g_cfg=CFGNAME; g_phase="intervals";
  int lo=D::lo(), hi=D::hi(); int clo=disc?lo:0, chi=disc?hi:2*P-2;
  for(int i=lo;i<=hi;++i) for(int j=lo;j<=hi;++j) for(int b=0;b<4;++b){ if(!IT<I>::dyn&&b!=IT<I>::bits) continue;
    // the bound values themselves must stay representable when a bound is moved by one (numeric limit configurations)
    X x; x.i=i;x.j=j;x.b=b; x.iv=IT<I>::make(D::pt(i),D::pt(j),b); x.r=cells_of(disc,i,j,b); 
#ifdef EDGE
    if(!x.r.empty()&&(x.r.a<0||x.r.b>=P)) continue;
#endif
    x.d=raw<D>(x.iv); all.push_back(x); }
  g_states=(long)all.size(); for(auto&x:all) outcome(show(x.r));
  sample("interval "+all[all.size()/2].d+" denotes cells "+show(all[all.size()/2].r)); sample("interval "+all[all.size()/3].d+" denotes cells "+show(all[all.size()/3].r));
#ifdef F_I01
  for(auto&x:all){
    q1(x,"is_empty()",[&]{ return eqb(icl::is_empty(x.iv),x.r.empty()); });
    for(int c=clo;c<=chi;++c){ S n="contains(value-cell "+std::to_string(c)+")"; q1(x,n.c_str(),[&]{ return eqb(icl::contains(x.iv,val(c)),x.r.has(c)); }); }
    q1(x,"lower()",[&]{ return (icl::lower(x.iv)==D::pt(x.i)&&lo_(x.iv)==D::pt(x.i))?S():S("lower bound is not the one given"); });
    q1(x,"upper()",[&]{ return (icl::upper(x.iv)==D::pt(x.j)&&up_(x.iv)==D::pt(x.j))?S():S("upper bound is not the one given"); });
    q1(x,"bounds()",[&]{ return icl::bounds(x.iv).bits()==x.b?S():S("bound kinds are not the ones given"); });
#ifndef CONTDOM
    if(!x.r.empty()){ q1(x,"first()",[&]{ return icl::first(x.iv)==D::pt(x.r.a)?S():S("first is not the smallest value"); });
      q1(x,"last()",[&]{ return icl::last(x.iv)==D::pt(x.r.b)?S():S("last is not the largest value"); });
#ifndef EDGE
      q1(x,"last_next()",[&]{ return x.r.b+1<=hi && !(icl::last_next(x.iv)==D::pt(x.r.b+1))?S("last_next is not the value after the largest"):S(); });
#endif
    }
#endif
#ifdef DYN
    q1(x,"construct(bounds)",[&]{ I g=icl::construct<I>(D::pt(x.i),D::pt(x.j),icl::interval_bounds((icl::bound_type)x.b)); return raw<D>(g)==x.d?S():S("constructs ")+raw<D>(g); });
    q1(x,"construct(bounded values)",[&]{ I g=icl::construct<I>(icl::bounded_lower(x.iv),icl::bounded_upper(x.iv)); return raw<D>(g)==x.d?S():S("constructs ")+raw<D>(g); });
#else
    q1(x,"construct()",[&]{ I g=icl::construct<I>(D::pt(x.i),D::pt(x.j)); return raw<D>(g)==x.d?S():S("constructs ")+raw<D>(g); });
#endif
    q1(x,"copy/assign()",[&]{ I g(x.iv); I h; h=x.iv; return raw<D>(g)==x.d&&raw<D>(h)==x.d?S():S("copy differs"); });
  }
  { X e; e.d="default"; e.iv=I(); q1(e,"is_empty()",[&]{ return eqb(icl::is_empty(I()),true); }); q1(e,"identity_element()",[&]{ return eqb(icl::is_empty(icl::identity_element<I>::value()),true); });
    for(int c=clo;c<=chi;++c){ S n="contains(value-cell "+std::to_string(c)+")"; q1(e,n.c_str(),[&]{ return eqb(icl::contains(I(),val(c)),false); }); } }
  for(int i=lo;i<=hi;++i){ X e; e.d="value "+std::to_string(i); if(i<0||i>=P) continue; 
    auto fits=[&](int a,int b){ return !disc||IT<I>::dyn||(((IT<I>::bits&2)||a-1>=lo)&&((IT<I>::bits&1)||b+1<=hi)); }; // closed [a,b] has a representation in this type
#ifndef STATIC_CONT
    Range one(disc?i:2*i,disc?i:2*i);
#ifndef USERITV
    if(fits(i,i)) q1(e,"constructor(value)",[&]{ I g(D::pt(i)); return isr(g,one); });
#endif
    if(fits(i,i)) q1(e,"singleton()",[&]{ I g=icl::singleton<I>(D::pt(i)); return isr(g,one); });
#endif
    for(int j=0;j<P;++j){ int a=std::min(i,j), b=std::max(i,j); S n="hull(values "+std::to_string(j)+")";
#ifndef STATIC_CONT
      if(fits(a,b)) q1(e,n.c_str(),[&]{ return isr(icl::hull<I>(D::pt(i),D::pt(j)), disc?Range(a,b):Range(2*a,2*b)); });
#endif
      n="span(values "+std::to_string(j)+")"; q1(e,n.c_str(),[&]{ I g=icl::span<I>(D::pt(i),D::pt(j)); int bits=IT<I>::dyn?2:IT<I>::bits; Range r=cells_of(disc,a,b,bits); return isr(g,r); });
#ifndef EDGE
#if defined(FACT)
      typedef icl::interval<T FACTCMP> V;
#ifndef FACT_ONLY
#define FACT_ONLY -1
#endif
      const int bits0=IT<I>::dyn?2:IT<I>::bits;
      // discrete: a factory may move a bound by one to fit the represented bound kinds; only operands for which that stays on the grid are used
      auto fok=[&](int b){ return IT<I>::dyn||!disc||(((b&2)==(bits0&2)||((b&2)?i-1>=lo:i+1<=hi))&&((b&1)==(bits0&1)||((b&1)?j+1<=hi:j-1>=lo))); };
#define FACTQ(B,F) { n="interval::" #F "("+std::to_string(j)+")"; if(fok(B)) q1(e,n.c_str(),[&]{ return isr(V::F(D::pt(i),D::pt(j)),cells_of(disc,i,j,B)); }); }
#if FACT_ONLY<0
      FACTQ(3,closed) FACTQ(0,open)
#endif
#if FACT_ONLY<0||FACT_ONLY==1
      FACTQ(1,left_open)
#endif
#if FACT_ONLY<0||FACT_ONLY==2
      FACTQ(2,right_open)
#endif
      n="interval::construct("+std::to_string(j)+")";  q1(e,n.c_str(),[&]{ return isr(V::construct(D::pt(i),D::pt(j)),cells_of(disc,i,j,bits0)); });
#endif
#endif
    } }
  for(auto&x:all) for(auto&y:all){ if(x.r.empty()||y.r.empty()) continue; q2(x,y,"hull(interval)",[&]{ return isr(icl::hull(x.iv,y.iv),Range(std::min(x.r.a,y.r.a),std::max(x.r.b,y.r.b))); }); }
#endif
#if defined(F_I01) && defined(DYN)
  { using icl::interval_bounds; X e; auto B=[](int b){ return interval_bounds((icl::bound_type)b); };
    auto is=[](interval_bounds g,int m){ return (int)g.bits()==m?S():"gives bound kinds "+str((int)g.bits())+" but must give "+str(m); };
    for(int x=0;x<4;++x){ e.d="bounds "+std::to_string(x); bool xl=x&2, xr=x&1;
      q1(e,"left(bounds)",[&]{ return is(icl::left(B(x)),xl*2); }); q1(e,"right(bounds)",[&]{ return is(icl::right(B(x)),xr); }); q1(e,"all(bounds)",[&]{ return is(icl::all(B(x)),x); });
      q1(e,"member left/right/all",[&]{ return is(B(x).left(),xl*2)+is(B(x).right(),xr)+is(B(x).all(),x); });
      q1(e,"operator~(bounds)",[&]{ return is(~B(x),3-x); });
      q1(e,"is_left_closed(bounds)",[&]{ return eqb(icl::is_left_closed(B(x)),xl); }); q1(e,"is_right_closed(bounds)",[&]{ return eqb(icl::is_right_closed(B(x)),xr); });
      q1(e,"is_complementary(bounds)",[&]{ return eqb(icl::is_complementary(B(x)),xl!=xr); });
      q1(e,"print(bounds)",[&]{ std::ostringstream o; o<<B(x); return o.str()==S(xl?"[":"(")+(xr?"]":")")?S():"prints "+o.str(); });
      for(int y=0;y<4;++y){ bool yl=y&2, yr=y&1; auto q=[&](const char*n,interval_bounds g,int m){ S nn=n+S("(bounds ")+std::to_string(y)+")"; q1(e,nn.c_str(),[&]{ return is(g,m); }); };
        q("operator&",B(x)&B(y),x&y); q("operator|",B(x)|B(y),x|y); q("outer_bounds",icl::outer_bounds(B(x),B(y)),xl*2+yr); q("inner_bounds",icl::inner_bounds(B(x),B(y)),(!xr)*2+!yl);
        q("left_bounds",icl::left_bounds(B(x),B(y)),xl*2+yl); q("right_bounds",icl::right_bounds(B(x),B(y)),xr*2+yr);
        e.d="bounds "+std::to_string(x); q1(e,"operator==(bounds)",[&]{ return eqb(B(x)==B(y),x==y); }); q1(e,"operator!=(bounds)",[&]{ return eqb(B(x)!=B(y),x!=y); }); } } }
#endif
#ifdef F_I02
  for(auto&x:all) for(auto&y:all){ Range a=x.r,b=y.r; bool ea=a.empty(), eb=b.empty(), both=!ea&&!eb;
    q2(x,y,"contains()",[&]{ return eqb(icl::contains(x.iv,y.iv), eb||(!ea&&a.a<=b.a&&b.b<=a.b)); });
    q2(x,y,"within()",[&]{ return eqb(icl::within(y.iv,x.iv), eb||(!ea&&a.a<=b.a&&b.b<=a.b)); });
    bool eq=(ea&&eb)||(both&&a==b);
    q2(x,y,"operator==()",[&]{ return eqb(x.iv==y.iv,eq); });
    q2(x,y,"operator!=()",[&]{ return eqb(x.iv!=y.iv,!eq); });
    bool less=both&&(a.a<b.a||(a.a==b.a&&a.b<b.b)); bool more=both&&(b.a<a.a||(a.a==b.a&&b.b<a.b));
    q2(x,y,"operator<()",[&]{ return eqb(x.iv<y.iv,less); }); q2(x,y,"operator>()",[&]{ return eqb(x.iv>y.iv,more); });
    q2(x,y,"operator<=()",[&]{ return eqb(x.iv<=y.iv,both&&!more); }); q2(x,y,"operator>=()",[&]{ return eqb(x.iv>=y.iv,both&&!less); });
    bool is=both&&!cap(a,b).empty();
    q2(x,y,"intersects()",[&]{ return eqb(icl::intersects(x.iv,y.iv),is); });
    q2(x,y,"disjoint()",[&]{ return eqb(icl::disjoint(x.iv,y.iv),!is); });
    q2(x,y,"exclusive_less()",[&]{ return eqb(icl::exclusive_less(x.iv,y.iv),!both||a.b<b.a); });
    if(both){
      q2(x,y,"touches()",[&]{ return eqb(icl::touches(x.iv,y.iv),a.b+1==b.a); });
      q2(x,y,"lower_less()",[&]{ return eqb(icl::lower_less(x.iv,y.iv),lt(a.a,b.a)); }); q2(x,y,"upper_less()",[&]{ return eqb(icl::upper_less(x.iv,y.iv),lt(a.b,b.b)); });
      q2(x,y,"lower_equal()",[&]{ return eqb(icl::lower_equal(x.iv,y.iv),a.a==b.a); }); q2(x,y,"upper_equal()",[&]{ return eqb(icl::upper_equal(x.iv,y.iv),a.b==b.b); });
      q2(x,y,"lower_less_equal()",[&]{ return eqb(icl::lower_less_equal(x.iv,y.iv),a.a<=b.a); }); q2(x,y,"upper_less_equal()",[&]{ return eqb(icl::upper_less_equal(x.iv,y.iv),a.b<=b.b); });
#ifdef DYN
      auto bd=[&](const typename I::bounded_domain_type& l,const typename I::bounded_domain_type& u){ return icl::construct<I>(l,u); };
      q2(x,y,"lower_min/upper_max()",[&]{ return isr(bd(icl::lower_min(x.iv,y.iv),icl::upper_max(x.iv,y.iv)),Range(std::min(a.a,b.a),std::max(a.b,b.b))); });
      if(is) q2(x,y,"lower_max/upper_min()",[&]{ return isr(bd(icl::lower_max(x.iv,y.iv),icl::upper_min(x.iv,y.iv)),cap(a,b)); });
#endif
    } }
#endif
#ifdef F_I03
  for(auto&x:all) for(auto&y:all){ Range a=x.r,b=y.r; bool ea=a.empty(), eb=b.empty();
    q2(x,y,"operator&()",[&]{ return isr(x.iv&y.iv, ea||eb?Range(0,-1):cap(a,b)); });
    q2(x,y,"hull()",[&]{ return isr(icl::hull(x.iv,y.iv), ea?b:eb?a:Range(std::min(a.a,b.a),std::max(a.b,b.b))); });
    if(!ea||true){ 
      q2(x,y,"left_subtract()",[&]{ return isr(icl::left_subtract(x.iv,y.iv), eb||ea?a:Range(std::max(a.a,b.b+1),a.b)); });
      q2(x,y,"right_subtract()",[&]{ return isr(icl::right_subtract(x.iv,y.iv), eb||ea?a:Range(a.a,std::min(a.b,b.a-1))); }); }
    Range g; if(!ea&&!eb){ if(a.b<b.a) g=Range(a.b+1,b.a-1); else if(b.b<a.a) g=Range(b.b+1,a.a-1); }
    q2(x,y,"inner_complement()",[&]{ return isr(icl::inner_complement(x.iv,y.iv),g); });
    q2(x,y,"between()",[&]{ return isr(icl::between(x.iv,y.iv),g); });
  }
#endif
#ifdef F_I04
  typedef icl::size_type_of<icl::interval_traits<I>>::type Z;
  auto zn=[](long n)->Z{ return zlen<Z,D>((int)n); };
  for(auto&x:all){
    if constexpr(disc){ long n=x.r.empty()?0:x.r.b-x.r.a+1;
      q1(x,"cardinality()",[&]{ return icl::cardinality(x.iv)==zn(n)?S():"gives "+str(icl::cardinality(x.iv))+" but must be "+str(n); });
      q1(x,"size()",[&]{ return (icl::size)(x.iv)==zn(n)?S():"gives "+str((icl::size)(x.iv))+" but must be "+str(n); });
#ifndef NO_LENGTH
      q1(x,"length()",[&]{ return icl::length(x.iv)==len<D>((int)n)?S():S("length is not the number of values"); });
#endif
    } else { int k=x.r.empty()?0:(x.r.a==x.r.b&&x.r.a%2==0)?1:2; Z e=k==2?icl::infinity<Z>::value():zlen<Z,D>(k);
      q1(x,"cardinality()",[&]{ return icl::cardinality(x.iv)==e?S():S("cardinality must be ")+(k==2?"infinite":str(k)); });
      q1(x,"size()",[&]{ return (icl::size)(x.iv)==e?S():S("size must be ")+(k==2?"infinite":str(k)); });
#ifndef NO_LENGTH
      q1(x,"length()",[&]{ return icl::length(x.iv)==(x.r.empty()?span_len<D>(0,0):span_len<D>(x.i,x.j))?S():S("length is not the difference of the bounds"); });
#endif
    } 
#ifndef NO_TRAIL
    q1(x,"iterative_size()",[&]{ return icl::iterative_size(x.iv)==2?S():S("must be 2"); });
#endif
  }
#ifndef NO_DISTANCE
  for(auto&x:all) for(auto&y:all){ Range a=x.r,b=y.r; int n=0; if(!a.empty()&&!b.empty()){ Range g; if(a.b<b.a) g=Range(a.b+1,b.a-1); else if(b.b<a.a) g=Range(b.b+1,a.a-1); 
      if(disc) n=g.empty()?0:g.b-g.a+1; else for(int c=g.a;c<=g.b;++c) n+=c%2; }
    if constexpr(disc) q2(x,y,"distance()",[&]{ return icl::distance(x.iv,y.iv)==len<D>((int)n)?S():S("distance must be the number of values between: ")+str(n); });
    else q2(x,y,"distance()",[&]{ return icl::distance(x.iv,y.iv)==(n? span_len<D>(0,n):span_len<D>(0,0))?S():S("distance must be the length of the gap: ")+str(n); }); }
#endif
#endif
#ifdef F_WIDE // intervals between any two values of the whole domain type, also further apart than its difference type can tell
  { typedef icl::size_type_of<icl::interval_traits<I>>::type Z; typedef icl::difference_type_of<icl::interval_traits<I>>::type DF; typedef std::numeric_limits<T> L; typedef __int128 W;
    std::vector<T> v={L::min(),(T)(L::min()+1),(T)(L::min()/2),(T)(L::max()/2),(T)(L::max()/2+1),(T)(L::max()/4*3),(T)(L::max()-1),L::max(),(T)0,(T)1,(T)2}; if(L::is_signed){ v.push_back((T)-1); v.push_back((T)-2); v.push_back((T)(L::min()/4*3)); }
    std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end()); if(is_rev<D>::v) std::reverse(v.begin(),v.end()); std::vector<I> ivs;
    for(size_t i=0;i<v.size();++i) for(size_t j=i;j<v.size();++j) for(int b=0;b<4;++b){ if(!IT<I>::dyn&&b!=IT<I>::bits) continue;
      W n=(W)v[i]-(W)v[j]; if(n<0) n=-n; n=n-1+(b&1)+(b>>1); if(i==j&&b!=3) n=0; if(!IT<I>::dyn&&b==0&&L::min()==0&&(v[i]==0||v[j]==0)&&is_rev<D>::v) continue;
      if(!IT<I>::dyn&&(b==0||b==1)&&!L::is_signed&&v[i]==L::min()) continue;
      X x; x.iv=IT<I>::make(v[i],v[j],b); x.d=S((b&2)?"[":"(")+str((long long)v[i])+","+str((unsigned long long)v[j])+((b&1)?"]":")"); ++g_states;
      if(n<=(W)std::numeric_limits<Z>::max()){ q1(x,"wide cardinality()",[&]{ return (W)icl::cardinality(x.iv)==n?S():"gives "+str(icl::cardinality(x.iv))+" but must be "+str((unsigned long long)n); });
        q1(x,"wide size()",[&]{ return (W)(icl::size)(x.iv)==n?S():"gives "+str((icl::size)(x.iv))+" but must be "+str((unsigned long long)n); }); }
      if(n<=(W)std::numeric_limits<DF>::max()) q1(x,"wide length()",[&]{ return (W)icl::length(x.iv)==n?S():"gives "+str(icl::length(x.iv))+" but must be "+str((unsigned long long)n); });
      q1(x,"wide is_empty()",[&]{ return eqb(icl::is_empty(x.iv),n==0); }); } }
#endif
#ifdef F_L12
  for(auto&x:all) q1(x,"operator<<()",[&]{ std::ostringstream o; o<<x.iv; std::ostringstream e; e<<((x.b&2)?"[":"("); if(!x.r.empty()) e<<D::pt(x.i)<<","<<D::pt(x.j); e<<((x.b&1)?"]":")"); return o.str()==e.str()?S():"prints "+o.str()+" but must print "+e.str(); });
#endif
  flush_stats(); return 0; }
