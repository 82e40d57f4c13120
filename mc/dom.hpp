// Domains, grids, interval types and their decoding into cells.
#pragma once
#include "model.hpp"
#ifdef USE_RATIONAL
#include <boost/icl/rational.hpp>
#endif
#ifdef USE_GREGORIAN
#include <boost/icl/gregorian.hpp>
#endif
#ifdef USE_PTIME
#include <boost/icl/ptime.hpp>
#endif
#include <boost/icl/interval.hpp>
#include <boost/icl/discrete_interval.hpp>
#include <boost/icl/continuous_interval.hpp>
#include <boost/icl/right_open_interval.hpp>
#include <boost/icl/left_open_interval.hpp>
#include <boost/icl/closed_interval.hpp>
#include <boost/icl/open_interval.hpp>
#include <limits>
// User-defined interval classes, known to the library only through interval_traits and interval_bound_type.
#define MC_USER_ITV(NAME,BOUNDS) \
template<class T,template<class>class C> class NAME { T first_, past_; public: NAME():first_(),past_(){ if(boost::icl::interval_bounds::BOUNDS==3){ ++first_; if(C<T>()(first_,past_)){ --first_; --first_; } } } \
  NAME(const T&a,const T&b):first_(a),past_(b){} const T& my_first()const{return first_;} const T& my_past()const{return past_;} }; \
template<class T,template<class>class C> struct interval_traits<NAME<T,C>>{ typedef T domain_type; typedef C<T> domain_compare; typedef NAME<T,C> interval_type; \
  static interval_type construct(const T&a,const T&b){ return interval_type(a,b);} static T lower(const interval_type&x){return x.my_first();} static T upper(const interval_type&x){return x.my_past();} }; \
template<class T,template<class>class C> struct interval_bound_type<NAME<T,C>>{ typedef interval_bound_type type; BOOST_STATIC_CONSTANT(bound_type, value = interval_bounds::BOUNDS); };
namespace boost { namespace icl {
MC_USER_ITV(user_right_open,static_right_open) MC_USER_ITV(user_left_open,static_left_open) MC_USER_ITV(user_closed,static_closed) MC_USER_ITV(user_open,static_open)
}}
namespace mc {
namespace icl = boost::icl;
#define MC_USER_ACC(NAME,B) template<class T,template<class>class C> T lo_(const icl::NAME<T,C>&x){return x.my_first();} template<class T,template<class>class C> T up_(const icl::NAME<T,C>&x){return x.my_past();}
template<class I> auto lo_(const I&x)->decltype(x.lower()){return x.lower();} template<class I> auto up_(const I&x)->decltype(x.upper()){return x.upper();}
MC_USER_ACC(user_right_open,2) MC_USER_ACC(user_left_open,1) MC_USER_ACC(user_closed,3) MC_USER_ACC(user_open,0)
inline int P = 4;                       // number of grid points (runtime parameter)

// ---- domains: pt(i) for i in lo()..hi(), mid(i) strictly between pt(i) and pt(i+1)
template<class N,long BASE> struct DNum { typedef N T; enum{discrete=1}; static const char* name(){ return "int"; }
  static T pt(int i){ return (T)(BASE+i); } static T mid(int i){ return pt(i);} static int lo(){return -1;} static int hi(){return P;} };
struct DInt : DNum<int,-2>{};  struct DUns : DNum<unsigned,1>{ };  struct DLong: DNum<long long,-3>{}; struct DShort:DNum<short,-1>{}; struct DSch:DNum<signed char,-2>{};
struct DUnsZ : DNum<unsigned,0>{ static int lo(){return 0;} };                // lower numeric limit
struct DUchZ : DNum<unsigned char,0>{ static int lo(){return 0;} };
struct DUllZ : DNum<unsigned long long,0>{ static int lo(){return 0;} };
template<class N> struct DTop { typedef N T; enum{discrete=1}; static T pt(int i){ return (T)(std::numeric_limits<N>::max()-(N)(P-1-i)); } // pt(P-1)=max
  static T mid(int i){return pt(i);} static int lo(){return -1;} static int hi(){return P-1;} };
template<class N> struct DBot { typedef N T; enum{discrete=1}; static T pt(int i){ return (T)(std::numeric_limits<N>::min()+(N)i); } // pt(0)=min
  static T mid(int i){return pt(i);} static int lo(){return 0;} static int hi(){return P;} };
struct DDouble { typedef double T; enum{discrete=0}; static T pt(int i){ return -1.0+i; } static T mid(int i){ return pt(i)+0.5; } static int lo(){return 0;} static int hi(){return P-1;} };
struct DFloat { typedef float T; enum{discrete=0}; static T pt(int i){ return -0.5f+0.25f*i; } static T mid(int i){ return pt(i)+0.125f; } static int lo(){return 0;} static int hi(){return P-1;} };
struct DString { typedef std::string T; enum{discrete=0}; static T pt(int i){ return std::string(1,char('b'+i)); } static T mid(int i){ return pt(i)+"m"; } static int lo(){return 0;} static int hi(){return P-1;} };
#ifdef USE_RATIONAL
struct DRat { typedef boost::rational<int> T; enum{discrete=0}; static T pt(int i){ return T(2*i-3,3); } static T mid(int i){ return T(2*i-2,3); } static int lo(){return 0;} static int hi(){return P-1;} };
#endif
#ifdef USE_GREGORIAN
struct DDate { typedef boost::gregorian::date T; enum{discrete=1}; static T pt(int i){ return T(2024,2,28)+boost::gregorian::days(i); } static T mid(int i){return pt(i);} static int lo(){return -1;} static int hi(){return P;} };
struct DDays { typedef boost::gregorian::date_duration T; enum{discrete=1}; static T pt(int i){ return T(i-2); } static T mid(int i){return pt(i);} static int lo(){return -1;} static int hi(){return P;} };
#endif
#ifdef USE_PTIME
struct DPtime { typedef boost::posix_time::ptime T; enum{discrete=1}; static T pt(int i){ return T(boost::gregorian::date(2023,12,31),boost::posix_time::hours(24))+ T::time_duration_type::unit()*(i-2); } static T mid(int i){return pt(i);} static int lo(){return -1;} static int hi(){return P;} };
struct DTdur { typedef boost::posix_time::time_duration T; enum{discrete=1}; static T pt(int i){ return T::unit()*(i-2); } static T mid(int i){return pt(i);} static int lo(){return -1;} static int hi(){return P;} };
#endif
inline int g_arr[64];
struct DPtr { typedef int* T; enum{discrete=1}; static T pt(int i){ return g_arr+8+i; } static T mid(int i){return pt(i);} static int lo(){return -1;} static int hi(){return P;} };
// a user-defined discrete type with nothing but order, increment and decrement
struct Tick { int v; explicit Tick(int x=0):v(x){} bool operator<(const Tick&o)const{return v<o.v;} bool operator==(const Tick&o)const{return v==o.v;} Tick& operator++(){++v;return *this;} Tick& operator--(){--v;return *this;} };
inline std::ostream& operator<<(std::ostream&o,const Tick&t){ return o<<"t"<<t.v; }
struct DTick { typedef Tick T; enum{discrete=1}; static T pt(int i){ return Tick(i*1+3); } static T mid(int i){return pt(i);} static int lo(){return -1;} static int hi(){return P;} };
// reversed order wrapper: pt(i) descends so that it ascends in Compare=std::greater
template<class D> struct Rev { typedef typename D::T T; enum{discrete=D::discrete}; static T pt(int i){ return D::pt(P-1-i); } static T mid(int i){ return D::mid(P-2-i);} 
  static int lo(){return P-1-D::hi();} static int hi(){return P-1-D::lo();} };
template<class D> struct is_rev { enum{v=0}; }; template<class D> struct is_rev<Rev<D>> { enum{v=1}; };

// the difference value that spans n unit steps of the (un-reversed) grid
template<class D> struct base_of { typedef D type; }; template<class D> struct base_of<Rev<D>> { typedef D type; };
template<class D> auto len(int n){ typedef typename base_of<D>::type B; if constexpr(std::is_integral<typename B::T>::value) return (typename B::T)n; else return B::pt(n)-B::pt(0); }

// a count of n elements as a size type (a number, or a duration for date and time domains)
template<class Z,class D> Z zlen(int n){ if constexpr(std::is_integral<Z>::value) return (Z)n; else return (Z)len<D>(n); }
// difference of two grid values in the direction of the domain order
template<class D> auto span_len(int i,int j){ if constexpr(is_rev<D>::v) return D::pt(i)-D::pt(j); else return D::pt(j)-D::pt(i); }

template<class D> int index_of(const typename D::T& t){ for(int i=D::lo();i<=D::hi();++i) if(D::pt(i)==t) return i; return -99; }
template<class D> int ncells(){ return D::discrete? P : 2*P-1; }
template<class D> typename D::T cellval(int c){ return D::discrete? D::pt(c) : (c%2==0? D::pt(c/2): D::mid(c/2)); }
template<class D> int cell_of(const typename D::T& t){ for(int c=0;c<ncells<D>();++c) if(cellval<D>(c)==t) return c; return -99; }

// ---- interval types
template<class I> struct IT; // lc/rc static bounds or dynamic
template<class T,template<class>class C> struct IT<icl::right_open_interval<T,C>>{ enum{dyn=0,bits=2}; typedef icl::right_open_interval<T,C> I; static I make(T l,T u,int){return I(l,u);} static int b(const I&){return 2;} };
template<class T,template<class>class C> struct IT<icl::left_open_interval<T,C>> { enum{dyn=0,bits=1}; typedef icl::left_open_interval<T,C> I; static I make(T l,T u,int){return I(l,u);} static int b(const I&){return 1;} };
template<class T,template<class>class C> struct IT<icl::closed_interval<T,C>>    { enum{dyn=0,bits=3}; typedef icl::closed_interval<T,C> I; static I make(T l,T u,int){return I(l,u);} static int b(const I&){return 3;} };
template<class T,template<class>class C> struct IT<icl::open_interval<T,C>>      { enum{dyn=0,bits=0}; typedef icl::open_interval<T,C> I; static I make(T l,T u,int){return I(l,u);} static int b(const I&){return 0;} };
template<class T,template<class>class C> struct IT<icl::discrete_interval<T,C>>  { enum{dyn=1,bits=0}; typedef icl::discrete_interval<T,C> I; static I make(T l,T u,int b){return I(l,u,icl::interval_bounds((icl::bound_type)b));} static int b(const I&x){return x.bounds().bits();} };
template<class T,template<class>class C> struct IT<icl::continuous_interval<T,C>>{ enum{dyn=1,bits=0}; typedef icl::continuous_interval<T,C> I; static I make(T l,T u,int b){return I(l,u,icl::interval_bounds((icl::bound_type)b));} static int b(const I&x){return x.bounds().bits();} };

#define MC_USER_IT(NAME,B) template<class T,template<class>class C> struct IT<icl::NAME<T,C>>{ enum{dyn=0,bits=B}; typedef icl::NAME<T,C> I; static I make(T l,T u,int){return I(l,u);} static int b(const I&){return B;} };
MC_USER_IT(user_right_open,2) MC_USER_IT(user_left_open,1) MC_USER_IT(user_closed,3) MC_USER_IT(user_open,0)

inline Range cells_of(bool discrete,int i,int j,int bits){ bool lc=bits&2, rc=bits&1;
  if(discrete) return Range(lc?i:i+1, rc?j:j-1);
  if(i>j) return Range(0,-1);
  return Range(lc?2*i:2*i+1, rc?2*j:2*j-1); }
struct OffGrid { std::string s; };
// decode a real interval into cells; throws OffGrid when a bound is not a grid value
template<class D,class I> Range decode(const I& x){
  int i=index_of<D>(lo_(x)), j=index_of<D>(up_(x)), b=IT<I>::b(x);
  if(i==-99||j==-99){ typename icl::interval_traits<I>::domain_compare less; // a bound off the grid is fine if the interval is empty anyway
    if(less(up_(x),lo_(x)) || (!less(lo_(x),up_(x)) && b!=3)) return Range(0,-1);
    if constexpr(D::discrete) if(b==0 && !less(up_(x),lo_(x))){ typename D::T l=lo_(x); icl::successor<typename D::T,typename icl::interval_traits<I>::domain_compare> sc; if(sc.apply(l)==up_(x)) return Range(0,-1); }
    throw OffGrid{"interval bound outside of all bounds ever used"}; }
  return cells_of(D::discrete,i,j,b); }
template<class D,class I> std::string raw(const I& x){ // exact representation, for state keys and messages
  int i=index_of<D>(lo_(x)), j=index_of<D>(up_(x)), b=IT<I>::b(x);
  std::string s; s+= (b&2)?"[":"("; s+=i==-99?"?":std::to_string(i); s+=","; s+=j==-99?"?":std::to_string(j); s+=(b&1)?"]":")"; return s; }

template<class I> struct Arg { I iv; Range r; std::string d; };
// all intervals over the grid: every non-empty cell range in every representation, plus empty shapes
template<class D,class I> std::vector<Arg<I>> all_args(bool with_empty=true, bool all_reps=true){
  std::vector<Arg<I>> out; std::vector<Arg<I>> empties; int n=ncells<D>();
  for(int i=D::lo();i<=D::hi();++i) for(int j=D::lo();j<=D::hi();++j) for(int b=3;b>=0;--b){
    if(!IT<I>::dyn && b!=IT<I>::bits) continue;
    Range r=cells_of(D::discrete,i,j,b);
    if(r.empty()){ if(i>=0&&i<P&&j>=0&&j<P&&(j==i||j==i-1||(j==i+1))) { bool ok = all_reps || i==1; if(ok){ I iv=IT<I>::make(D::pt(i),D::pt(j),b); empties.push_back(Arg<I>{iv,Range(0,-1),raw<D>(iv)}); } } continue; }
    if(r.a<0||r.b>=n) continue;
    if(!all_reps && IT<I>::dyn && D::discrete && b!=3 && !(b==(r.a+2*r.b)%4)) continue; // closed plus one rotating representation
    I iv=IT<I>::make(D::pt(i),D::pt(j),b); out.push_back(Arg<I>{iv,r,raw<D>(iv)}); }
  std::stable_sort(out.begin(),out.end(),[](const Arg<I>&x,const Arg<I>&y){ int lx=x.r.b-x.r.a, ly=y.r.b-y.r.a; return lx!=ly?lx<ly:x.r.a<y.r.a; });
  if(with_empty) out.insert(out.end(),empties.begin(),empties.end());
  return out; }
} // namespace mc
