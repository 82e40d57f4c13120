// Breadth-first explicit-state search over the real transition function.
#pragma once
#include "model.hpp"
#include "dom.hpp"
#include <deque>
#include <memory>
namespace mc {
inline const std::string* g_pop=nullptr; inline const std::string* g_pstate=nullptr; inline std::function<std::string()> g_pathfn;
inline void capture_ctx(){ if(g_pop) g_cur_op=*g_pop; if(g_pstate) g_cur_state=*g_pstate; if(g_pathfn){ auto f=g_pathfn; g_pathfn=nullptr; g_cur_path=f(); } }
inline void crash_entry(int sig){ capture_ctx(); on_crash(sig); }
inline void tick_entry(int){ if(g_tick_seen==g_step){ capture_ctx(); on_crash(SIGVTALRM);} g_tick_seen=g_step; }
inline void init2(int argc,char**argv){ init(argc,argv);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=crash_entry; sa.sa_flags=SA_ONSTACK;
  for(int s:{SIGABRT,SIGSEGV,SIGFPE,SIGBUS,SIGILL}) sigaction(s,&sa,nullptr);
  sa.sa_handler=tick_entry; sa.sa_flags=SA_ONSTACK|SA_RESTART; sigaction(SIGVTALRM,&sa,nullptr); }

// Run one real call under judgement. Returns error text ("" = fine). Exceptions are errors.
template<class F> std::string guarded(const std::string& st,const std::string& op,bool judged,F f){
  g_pop=&op; g_pstate=&st; ++g_step; g_in_judged=judged; std::string e;
  try { e=f(); }
  catch(OffGrid& o){ e=o.s; }
  catch(std::exception& x){ e=std::string("threw ")+x.what(); }
  g_in_judged=false; return e; }

template<class C,class M> struct Op { std::string name; bool judged, gen; std::function<std::string(C&,const M&)> run; };

template<class C,class M> struct Explorer {
  std::vector<Op<C,M>> ops;
  std::vector<C> st; std::vector<std::string> keys; std::vector<M> models; std::vector<int> parent, pop, depth;
  std::unordered_map<std::string,int> index;
  std::function<M(const C&)> decode; std::function<std::string(const C&)> raw; std::function<bool(const M&)> admissible;
  std::set<int> dead;
  long cap=1000000; int maxdepth=1000000;
  std::string path(int s){ std::vector<int> v; for(int x=s;parent[x]>=0;x=parent[x]) v.push_back(pop[x]); std::string r="C s"; for(auto i=v.rbegin();i!=v.rend();++i) r+="; "+ops[*i].name; return r; }
  int add_state(const C& c,int par,int op){ 
    M m; try{ m=decode(c);}catch(OffGrid&){ ++g_skipped; return -1; }
    if(!admissible(m)){ ++g_skipped; return -1; }
    std::string k=raw(c); auto it=index.find(k); if(it!=index.end()) return it->second;
    int d=par<0?0:depth[par]+1; if(d>maxdepth||(long)st.size()>=cap){ g_truncated=true; return -1; }
    int id=(int)st.size(); index[k]=id; st.push_back(c); keys.push_back(k); models.push_back(m); parent.push_back(par); pop.push_back(op); depth.push_back(d); return id; }
  // exploration; judge==false only builds the state graph
  void run(const C& init){ g_phase="explore"; add_state(init,-1,-1);
    for(size_t s=0;s<st.size();++s){ ++g_states;
      for(size_t o=0;o<ops.size();++o){ Op<C,M>& op=ops[o];
        if(dead.count((int)o)) continue;
        ++g_step; std::unique_ptr<C> pc(new C(st[s])); C& c=*pc; const M m=models[s];
        g_pathfn=[this,s,o]{ return path((int)s)+"; "+ops[o].name; };
        std::string key=keys[s];
        if(!op.judged){ volatile size_t vo=o; if(int sg=sigsetjmp(g_jb,1)){ // the broken object is leaked, the operation is not used any more
            pc.release(); g_in_judged=false; g_truncated=true; dead.insert((int)vo); printf("NOTE an unjudged operation failed with signal %d and is left out: %s\n",sg,oneline(ops[vo].name).c_str()); fflush(stdout); continue; }
          g_jb_armed=true; }
        std::string e=guarded(key,op.name,op.judged,[&]{ return op.run(c,m); });
        g_jb_armed=false;
        ++g_trans; if(op.judged) ++g_judged;
        if(op.judged&&!e.empty()) violation(key,op.name,e+"   path: "+path((int)s)+"; "+op.name);
        if(op.gen) add_state(c,(int)s,(int)o);
        if(op.judged && g_samples<6 && s>3 && (s*7+o)%101==0) sample("state "+key+" op "+op.name+" -> "+raw(c));
      } 
      if(s%16==0||st.size()<200) outcome(keys[s]); }
    g_pathfn=nullptr; 
    for(auto&op:ops) if(op.judged) g_opcount[opfam(op.name)]+=(long)st.size(); }
};
} // namespace mc
