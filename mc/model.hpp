// The reference model: boring lists over a finite line of cells 0..N-1.
// discrete domain : cell i = grid value i
// continuous domain: cell 2i = the single value point(i), cell 2i+1 = the open gap between point(i) and point(i+1)
#pragma once
#include "core.hpp"
namespace mc {
struct Range { int a,b; Range(int a_=0,int b_=-1):a(a_),b(b_){} bool empty()const{return a>b;}
  bool operator==(const Range&o)const{return a==o.a&&b==o.b;} bool operator!=(const Range&o)const{return !(*this==o);}
  bool operator<(const Range&o)const{return a!=o.a?a<o.a:b<o.b;}
  bool has(int c)const{return a<=c&&c<=b;} };
inline Range cap(Range x,Range y){ return Range(std::max(x.a,y.a),std::min(x.b,y.b)); }
inline std::string show(Range r){ return r.empty()?"<>":"<"+std::to_string(r.a)+".."+std::to_string(r.b)+">"; }

enum Kind { JOIN=0, SEP=1, SPLIT=2 };
inline const char* kname(int k){ return k==JOIN?"join":k==SEP?"separate":"split"; }

// ------------------------------------------------------------------ sets
typedef std::vector<Range> SetM;
inline std::string show(const SetM& m){ std::string s="{"; for(auto&r:m) s+=show(r); return s+"}"; }
inline unsigned long long points(const SetM& m){ unsigned long long p=0; for(auto&r:m) for(int c=r.a;c<=r.b;++c) p|=1ull<<c; return p; }
inline unsigned long long points(Range r){ unsigned long long p=0; for(int c=r.a;c<=r.b;++c) p|=1ull<<c; return p; }
inline bool wellformed(const SetM& m){ for(size_t i=0;i<m.size();++i){ if(m[i].empty()) return false; if(i&&m[i-1].b>=m[i].a) return false; } return true; }
inline SetM from_points(unsigned long long p){ SetM m; for(int c=0;c<64;++c) if(p>>c&1){ if(!m.empty()&&m.back().b==c-1) m.back().b=c; else m.push_back(Range(c,c)); } return m; }
inline SetM normal(const SetM& m){ return from_points(points(m)); }

inline std::vector<Range> gaps(const SetM& m, Range x){ // parts of x not covered by m (m ordered disjoint), in order
  std::vector<Range> g; int at=x.a; for(auto&r:m){ Range c=cap(r,x); if(c.empty()) continue; if(at<c.a) g.push_back(Range(at,c.a-1)); at=c.b+1; }
  if(at<=x.b) g.push_back(Range(at,x.b)); return g; }

inline SetM s_add(int kind, const SetM& m, Range x){
  if(x.empty()) return m;
  if(kind==JOIN) return from_points(points(m)|points(x));
  SetM r;
  if(kind==SEP){ Range h=x; for(auto&s:m) if(!cap(s,x).empty()){ h.a=std::min(h.a,s.a); h.b=std::max(h.b,s.b);} 
    for(auto&s:m) if(cap(s,x).empty()) r.push_back(s); r.push_back(h); std::sort(r.begin(),r.end()); return r; }
  for(auto&s:m){ if(cap(s,x).empty()){ r.push_back(s); continue; }
    if(s.a<x.a) r.push_back(Range(s.a,x.a-1)); r.push_back(cap(s,x)); if(s.b>x.b) r.push_back(Range(x.b+1,s.b)); }
  for(auto&g:gaps(m,x)) r.push_back(g);
  std::sort(r.begin(),r.end()); return r; }
inline SetM s_sub(const SetM& m, Range x){ if(x.empty()) return m; SetM r;
  for(auto&s:m){ if(cap(s,x).empty()){ r.push_back(s); continue; }
    if(s.a<x.a) r.push_back(Range(s.a,x.a-1)); if(s.b>x.b) r.push_back(Range(x.b+1,s.b)); } return r; }
inline SetM s_and(const SetM& m, Range x){ SetM r; for(auto&s:m){ Range c=cap(s,x); if(!c.empty()) r.push_back(c);} return r; }
inline SetM s_flip(int kind,const SetM& m, Range x){ if(x.empty()) return m;
  if(kind==JOIN) return from_points(points(m)^points(x));
  SetM r=s_sub(m,x); for(auto&g:gaps(m,x)) r=s_add(kind,r,g); return r; }
inline SetM s_addS(int kind,SetM m,const SetM& o){ for(auto&x:o) m=s_add(kind,m,x); return m; }
inline SetM s_subS(SetM m,const SetM& o){ for(auto&x:o) m=s_sub(m,x); return m; }
inline SetM s_andS(int kind,const SetM& m,const SetM& o){ SetM r; for(auto&s:m) for(auto&x:o){ Range c=cap(s,x); if(!c.empty()) r.push_back(c);} std::sort(r.begin(),r.end());
  return kind==JOIN?normal(r):r; }
inline SetM s_flipS(int kind,SetM m,const SetM& o){
  if(kind==JOIN) return from_points(points(m)^points(o));
  for(auto&x:o) m=s_flip(kind,m,x); return m; }
inline SetM s_convert(int kind,const SetM& m){ return kind==JOIN?normal(m):m; }

// ------------------------------------------------------------------ maps
// Values are codes (long). The codomain policy gives meaning to codes.
struct MSeg{ int a,b; long v; Range r()const{return Range(a,b);} bool operator==(const MSeg&o)const{return a==o.a&&b==o.b&&v==o.v;} bool operator<(const MSeg&o)const{return a!=o.a?a<o.a:b!=o.b?b<o.b:v<o.v;} };
typedef std::vector<MSeg> MapM;
inline std::string show(const MapM& m){ std::string s="{"; for(auto&e:m) s+=show(e.r())+"="+std::to_string(e.v)+" "; return s+"}"; }
inline bool wellformed(const MapM& m){ for(size_t i=0;i<m.size();++i){ if(m[i].a>m[i].b) return false; if(i&&m[i-1].b>=m[i].a) return false; } return true; }
typedef std::map<int,long> Fun;   // cell -> value
inline Fun fun(const MapM& m){ Fun f; for(auto&e:m) for(int c=e.a;c<=e.b;++c) f[c]=e.v; return f; }
inline std::string show(const Fun& f){ std::string s="{"; for(auto&e:f) s+=std::to_string(e.first)+":"+std::to_string(e.second)+" "; return s+"}"; }
inline SetM dom(const MapM& m){ SetM d; for(auto&e:m) d.push_back(e.r()); return d; }
inline void sortm(MapM& m){ std::sort(m.begin(),m.end()); }
inline MapM m_normal(int kind, MapM m){ if(kind!=JOIN) return m; MapM r; for(auto&e:m){ if(!r.empty()&&r.back().b+1==e.a&&r.back().v==e.v) r.back().b=e.b; else r.push_back(e);} return r; }

typedef std::function<long(long,long)> Comb;  // (old,new) -> combined

struct Sem {                 // semantics of a map type
  int kind; bool absorber, total;
  long id;                   // identity element of the (default) combiner
  Comb comb, inv, sect;      // combine, inverse combine (valid if used), codomain intersection
  bool has_inverse;          // codomain type has an inverse: total subtraction adds the inverse everywhere
  bool set_codomain;
  std::function<long(long)> version, iversion; // value stored for a key that was unmapped, by combining and by inverse combining
};
// split at operand borders, combine on overlap, insert the version in gaps
inline MapM m_addC(const Sem& S,const MapM& m, Range x,long v,const Comb& comb,const std::function<long(long)>& ver,bool absorb_id=true){
  if(x.empty()) return m;
  if(S.absorber && absorb_id && v==S.id) return m;
  MapM r; auto put=[&](int a,int b,long w,bool touched){ if(a<=b && !(S.absorber&&touched&&w==S.id)) r.push_back(MSeg{a,b,w}); };
  for(auto&e:m){ Range c=cap(e.r(),x); if(c.empty()){ r.push_back(e); continue; }
    put(e.a,x.a-1,e.v,false); put(c.a,c.b,comb(e.v,v),true); put(x.b+1,e.b,e.v,false); }
  for(auto&g:gaps(dom(m),x)) put(g.a,g.b,ver(v),true);
  sortm(r); return m_normal(S.kind,r); }
inline MapM m_add(const Sem& S,const MapM& m,Range x,long v){ return m_addC(S,m,x,v,S.comb,S.version); }
inline MapM m_combine_present(const Sem& S,const MapM& m,Range x,long v,const Comb& f){
  if(x.empty()) return m;
  MapM r; for(auto&e:m){ Range c=cap(e.r(),x); if(c.empty()){ r.push_back(e); continue; }
    if(e.a<=x.a-1) r.push_back(MSeg{e.a,x.a-1,e.v}); long w=f(e.v,v); if(!(S.absorber&&w==S.id)) r.push_back(MSeg{c.a,c.b,w});
    if(x.b+1<=e.b) r.push_back(MSeg{x.b+1,e.b,e.v}); }
  sortm(r); return m_normal(S.kind,r); }
inline MapM m_erase(const MapM& m,Range x){ MapM r; if(x.empty()) return m; for(auto&e:m){ if(cap(e.r(),x).empty()){ r.push_back(e); continue; }
    if(e.a<=x.a-1) r.push_back(MSeg{e.a,x.a-1,e.v}); if(x.b+1<=e.b) r.push_back(MSeg{x.b+1,e.b,e.v}); } return r; }
inline MapM m_insert(const Sem& S,const MapM& m,Range x,long v){ if(x.empty()||(S.absorber&&v==S.id)) return m;
  MapM r=m; for(auto&g:gaps(dom(m),x)) r.push_back(MSeg{g.a,g.b,v}); sortm(r); return m_normal(S.kind,r); }
inline MapM m_set(const Sem& S,const MapM& m,Range x,long v){ return m_insert(S,m_erase(m,x),x,v); }
inline MapM m_erase_v(const Sem& S,const MapM& m,Range x,long v){ if(x.empty()||(S.absorber&&v==S.id)) return m;
  MapM r; for(auto&e:m){ if(cap(e.r(),x).empty()||e.v!=v){ r.push_back(e); continue; }
    if(e.a<=x.a-1) r.push_back(MSeg{e.a,x.a-1,e.v}); if(x.b+1<=e.b) r.push_back(MSeg{x.b+1,e.b,e.v}); } return r; }
inline MapM m_clip(const Sem&,const MapM& m,Range x){ MapM r; for(auto&e:m){ Range c=cap(e.r(),x); if(!c.empty()) r.push_back(MSeg{c.a,c.b,e.v}); } return r; }
} // namespace mc
