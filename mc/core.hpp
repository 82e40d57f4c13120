// Explicit-state exploration core: reporting, watchdog, crash capture, argument parsing.
// Every harness is an executable that explores a finite space completely and prints
//   STAT key value            (coverage counters measured on this run)
//   SAMPLE text               (an actual case)
//   VIOL <signature>\t<detail>   (a judged transition that disagrees with the oracle)
// It exits 0 when it ran to completion (whatever it found), 3 on internal misuse.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <csetjmp>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <algorithm>
#include <unistd.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <malloc.h>
#include <new>
// Memory is filled when it is handed out and when it is returned: reading a segment that was never written or already
// freed gives values that are off the grid instead of plausible ones. (ASan builds have their own means.)
#if !defined(__SANITIZE_ADDRESS__) && !defined(NO_POISON)
void* operator new(std::size_t n){ for(;;){ if(void*p=std::malloc(n?n:1)){ std::memset(p,0xC5,n); asm volatile("" : : "r"(p) : "memory"); return p; } std::new_handler h=std::get_new_handler(); if(!h) throw std::bad_alloc(); h(); } }
void operator delete(void*p) noexcept { if(p){ std::memset(p,0xD5,malloc_usable_size(p)); asm volatile("" : : "r"(p) : "memory"); std::free(p); } }
void operator delete(void*p,std::size_t) noexcept { operator delete(p); }
#endif

namespace mc {
inline std::string g_cfg = "?";            // configuration name (part of signatures)
inline std::string g_case;                  // --case: judge only this signature and report verbosely
inline long g_states=0, g_trans=0, g_judged=0, g_skipped=0;
inline bool g_truncated=false;
inline std::set<std::string> g_outcomes;    // distinct observed outcomes (vacuity guard), capped
inline std::map<std::string,long> g_opcount;
inline std::map<std::string,int> g_viol_per_op; // reported violations per operation family
inline int g_viols=0; inline int g_maxviol=3;
inline std::map<std::string,long> g_param;
inline int g_samples=0;

// ---- crash context: what is being executed right now (written before each real call)
inline bool g_in_judged=false; inline const char* g_phase="setup";
inline std::string g_cur_op, g_cur_state, g_cur_path;
inline int g_limit_s=20;

inline void flush_stats(){
  printf("STAT states %ld\nSTAT transitions %ld\nSTAT judged %ld\nSTAT skipped %ld\nSTAT outcomes %zu\n",
         g_states,g_trans,g_judged,g_skipped,g_outcomes.size());
  if(g_truncated) printf("STAT truncated 1\n");
  for(auto& kv:g_opcount) printf("OPS %s %ld\n", kv.first.c_str(), kv.second);
  fflush(stdout);
}
inline std::string oneline(std::string s){ for(char& c:s) if(c=='\n'||c=='\t'||c=='\r') c=' '; return s; }
inline std::string opfam(const std::string& op){ size_t p=op.find('('); return p==std::string::npos?op:op.substr(0,p); }

inline std::string sig_of(const std::string& st,const std::string& op){ return oneline(g_cfg+" | "+st+" | "+op); }

inline void violation(const std::string& st,const std::string& op,const std::string& detail){
  std::string sig=sig_of(st,op);
  if(!g_case.empty() && sig!=g_case) return;
  ++g_viols;
  int& n=g_viol_per_op[opfam(op)];
  if(++n>g_maxviol && g_case.empty()) return;           // enough counterexamples of this operation family
  printf("VIOL %s\t%s\n", sig.c_str(), oneline(detail).c_str()); fflush(stdout);
}

inline sigjmp_buf g_jb; inline volatile bool g_jb_armed=false; inline long g_recovered=0;
inline void on_crash(int sig){
  if(!g_in_judged && g_jb_armed && g_recovered<40){ ++g_recovered; g_jb_armed=false; siglongjmp(g_jb,sig); } // an operation that only builds states failed: skip it
  const char* what = sig==SIGABRT?"aborted (assertion or uncaught exception)": sig==SIGVTALRM?"does not terminate":
                     sig==SIGSEGV?"segmentation fault": sig==SIGFPE?"arithmetic fault":"fatal signal";
  signal(SIGABRT,SIG_DFL);
  if(g_in_judged){
    std::string d=std::string("operation ")+what; if(!g_cur_path.empty()) d+=" path: "+g_cur_path;
    std::string s=sig_of(g_cur_state,g_cur_op);
    if(g_case.empty()||s==g_case) printf("VIOL %s\t%s\n", s.c_str(), oneline(d).c_str());
  } else {
    printf("NOTE crash outside judged operation: %s op=%s state=%s: %s\n", g_phase, oneline(g_cur_op).c_str(), oneline(g_cur_state).c_str(), what);
    g_truncated=true;
  }
  g_truncated=true;
  flush_stats();
  _exit(0);
}
inline void arm(){ itimerval it; memset(&it,0,sizeof it); it.it_value.tv_sec=g_limit_s; setitimer(ITIMER_VIRTUAL,&it,nullptr); }
inline void disarm(){ itimerval it; memset(&it,0,sizeof it); setitimer(ITIMER_VIRTUAL,&it,nullptr); }
// Cheap watchdog: one interval timer for the whole run ticks every g_limit_s CPU seconds; if two ticks
// see the same transition number, that transition is looping.
inline volatile long g_tick_seen=-1; inline volatile long g_step=0;
inline void on_tick(int){ if(g_tick_seen==g_step) on_crash(SIGVTALRM); g_tick_seen=g_step; }
inline void init(int argc,char**argv){
  for(int i=1;i<argc;++i){ std::string a=argv[i];
    if(a=="--case"&&i+1<argc) g_case=argv[++i];
    else { size_t p=a.find('='); if(p!=std::string::npos) g_param[a.substr(0,p)]=atol(a.c_str()+p+1); } }
  if(g_param.count("maxviol")) g_maxviol=(int)g_param["maxviol"];
  static char alt[1<<16]; stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,nullptr);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=on_crash; sa.sa_flags=SA_ONSTACK;
  for(int s:{SIGABRT,SIGSEGV,SIGFPE,SIGBUS,SIGILL}) sigaction(s,&sa,nullptr);
  sa.sa_handler=on_tick; sa.sa_flags=SA_ONSTACK|SA_RESTART; sigaction(SIGVTALRM,&sa,nullptr);
#ifndef __SANITIZE_ADDRESS__
  { rlimit rl; rl.rlim_cur=rl.rlim_max=(rlim_t)3<<30; setrlimit(RLIMIT_AS,&rl); } // a runaway operation fails here instead of exhausting the machine
#endif
  itimerval it; memset(&it,0,sizeof it); it.it_value.tv_sec=it.it_interval.tv_sec=5; setitimer(ITIMER_VIRTUAL,&it,nullptr);
}
inline long param(const char*k,long d){ auto it=g_param.find(k); return it==g_param.end()?d:it->second; }
inline void outcome(const std::string& s){ if(g_outcomes.size()<200000) g_outcomes.insert(s); }
inline void sample(const std::string& s){ if(g_samples<6){ ++g_samples; printf("SAMPLE %s | %s\n", g_cfg.c_str(), oneline(s).c_str()); } }

struct Judged{ Judged(){ g_in_judged=true; ++g_step; } ~Judged(){ g_in_judged=false; } };
template<class T> std::string str(const T& t){ std::ostringstream o; o<<t; return o.str(); }
} // namespace mc
