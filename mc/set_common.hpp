#pragma once
#include "explore.hpp"
#include <boost/icl/interval_set.hpp>
#include <boost/icl/separate_interval_set.hpp>
#include <boost/icl/split_interval_set.hpp>
namespace mc {
template<class D,template<class,template<class>class>class ITV> struct SetCfg {
  typedef typename D::T T;
  typedef typename std::conditional<is_rev<D>::v,ITV<T,std::greater>,ITV<T,std::less>>::type I;
  template<bool R,class X=void> struct K { typedef icl::interval_set<T,std::less,I> J; typedef icl::separate_interval_set<T,std::less,I> S; typedef icl::split_interval_set<T,std::less,I> X2; };
  template<class X> struct K<true,X> { typedef icl::interval_set<T,std::greater,I> J; typedef icl::separate_interval_set<T,std::greater,I> S; typedef icl::split_interval_set<T,std::greater,I> X2; };
  typedef typename K<is_rev<D>::v>::J J; typedef typename K<is_rev<D>::v>::S S; typedef typename K<is_rev<D>::v>::X2 X;
};
template<class C> struct kind_of; 
template<class T,template<class>class C,class I> struct kind_of<icl::interval_set<T,C,I>>{ enum{v=JOIN}; };
template<class T,template<class>class C,class I> struct kind_of<icl::separate_interval_set<T,C,I>>{ enum{v=SEP}; };
template<class T,template<class>class C,class I> struct kind_of<icl::split_interval_set<T,C,I>>{ enum{v=SPLIT}; };

template<class D,class C> SetM decode_set(const C& c){ SetM m; int guard=0; for(typename C::const_iterator i=c.begin();i!=c.end();++i){ m.push_back(decode<D>(*i)); if(++guard>1000) throw OffGrid{"iteration does not end"}; } return m; }
template<class D,class C> std::string raw_set(const C& c){ std::string s="{"; int guard=0; for(typename C::const_iterator i=c.begin();i!=c.end();++i){ s+=raw<D>(*i); if(++guard>1000) break; } return s+"}"; }
inline bool set_admissible(int kind,const SetM& m){ if(!wellformed(m)) return false; if(kind==JOIN) for(size_t i=1;i<m.size();++i) if(m[i-1].b+1==m[i].a) return false; return true; }

enum { J_POINTS=0, J_EXACT=1, J_WELL=2 };
template<class D,class C> std::string judge_set(int mode,int kind,const C& c,const SetM& exp){
  SetM got=decode_set<D>(c);
  if(mode==J_POINTS){ unsigned long long g=points(got), e=points(exp); if(g!=e) return "contains values "+show(normal(got))+" but must contain "+show(normal(exp)); return ""; }
  if(mode==J_EXACT){ if(got!=exp) return "segments are "+show(got)+" but must be "+show(exp)+" ("+kname(kind)+" container)"; return ""; }
  // well-formedness of the container itself
  if(!wellformed(got)) return "segments not ordered, disjoint and non-empty: "+show(got);
  SetM back; int guard=0; for(typename C::const_reverse_iterator i=c.rbegin();i!=c.rend();++i){ back.push_back(decode<D>(*i)); if(++guard>1000) return "reverse iteration does not end"; }
  std::reverse(back.begin(),back.end()); if(back!=got) return "reverse iteration differs from forward iteration: "+show(back)+" vs "+show(got);
  if(icl::iterative_size(c)!=got.size()||c.iterative_size()!=got.size()) return "iterative_size is not the number of segments";
  if(icl::interval_count(c)!=got.size()) return "interval_count is not the number of segments";
  if(c.empty()!=got.empty()||icl::is_empty(c)!=got.empty()) return "emptiness disagrees with the segments";
  return ""; }
} // namespace mc
