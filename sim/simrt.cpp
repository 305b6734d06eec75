// simrt: deterministic simulation runtime for pnumpy.
//
// pnumpy's own sources are compiled with -fsanitize=thread but linked against the __tsan_* entry points
// below instead of libtsan: every load, store and atomic of pnumpy becomes a place where the simulator may
// hand the (single) execution token to another thread.  Operating-system calls pnumpy makes (threads, futex,
// affinity, memory, clocks, sleeping) are redirected here with the linker's --wrap.  Worker threads are real
// pthreads, but exactly one thread runs at any time and this file decides which.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <numpy/ufuncobject.h>
#include <numpy/ndarraytypes.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <sched.h>
#include <link.h>
#include <time.h>
#include <fcntl.h>
#include <ucontext.h>
#include <map>
#include <vector>
#include <algorithm>

typedef uint64_t u64; typedef uint32_t u32; typedef uintptr_t up;
#define EXPORT extern "C" __attribute__((visibility("default")))
#define likely(x) __builtin_expect(!!(x),1)
#define unlikely(x) __builtin_expect(!!(x),0)

// ---------------------------------------------------------------- fixed address map
static const up  SH_BASE   = 0x510000000000ull;  // pnumpy allocations made while initialising (queue, worker object)
static const up  SH_SIZE   = 0x4000000ull;
static const up  SM_BASE   = 0x520000000000ull;  // pnumpy small allocations made by operations
static const up  SM_SIZE   = 0x8000000ull;
static const up  STK_BASE  = 0x530000000000ull;  // stacks of simulated threads
static const up  STK_EACH  = 0x100000ull;
static const up  AR_BASE   = 0x540000000000ull;  // guarded arena: NumPy data and pnumpy workspaces
static const up  AR_SIZE   = 0x1000000000ull;
static const up  PG = 4096;
static const size_t BIG = 8192;                  // allocations at least this large get their own guarded pages

// ---------------------------------------------------------------- rng
struct Rng { u64 s;
  u64 next(){ u64 z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);}
  u32 below(u32 n){ return n? (u32)((next()>>11)%n):0; }
  double unit(){ return (next()>>11)*(1.0/9007199254740992.0);} 
  // geometric gap with mean 1/p
  u64 gap(double p){ if(p<=0) return ~0ull>>1; if(p>=1) return 1; double u=unit(); double g=__builtin_log1p(-u)/__builtin_log1p(-p); if(g>1e15) g=1e15; return 1+(u64)g; }
};

// ---------------------------------------------------------------- decisions (shared with the parent process)
enum { D_SW=1, D_STALL=2, D_WAKE=3, D_SPUR=4, D_CREATEFAIL=5, D_MALLOCFAIL=6, D_NPFAIL=7, D_DATA=8, D_EINTR=9, D_ENDSTALL=10 };
struct Dec { u32 kind; u32 tid; u64 idx; u64 val; };
struct Shm {
  u64 magic, ndec, maxdec, overflow;
  u64 verdict;              // 0 none, else V_*
  char msg[2048];
  u64 steps, clockv, switches, sites, hash, schedhash, datapoints, pauses, opno;
  u64 faults[32];           // indexed by F_*
  u64 probes[32];
  unsigned char cov[1<<16];  // never reset: accumulates over the runs of one server
  Dec dec[1];
};
enum { V_NONE=0, V_SEGV=1, V_HANG=2, V_LIVELOCK=3, V_DEADFRAME=4, V_INTERNAL=5, V_CANARY=6 };
enum { F_STALL=0, F_SPUR, F_EINTR, F_CREATEFAIL, F_MALLOCFAIL, F_NPFAIL, F_WAKEORDER, F_LATEWAKE, F_NEVERSCHED, F_FORK, F_TOGGLE, F_TIMEJUMP, F_DATAPREEMPT, F_EAGAIN, F_AFF, F_HOSTIO };
enum { PR_WORKER_ON_OLD_OP=0, PR_RINGWRAP, PR_CONCURRENT, PR_STALLED_ACROSS, PR_MAINWAIT, PR_BLOCKWAKE, PR_IDLEWORK };
static Shm  g_dummy; static Shm* shm=&g_dummy;

// ---------------------------------------------------------------- threads
enum { S_RUN=0, S_FUTEX=1, S_DONE=2, S_DEAD=3, S_MUTEX=4, S_COND=5, S_JOIN=6 };
struct Th {
  int id; int kind;           // kind 0 main 1 worker 2 client
  int state; volatile int go; pthread_t pt;
  up stk_lo, stk_len; up saved_sp;
  void* (*fn)(void*); void* arg; void* ret;
  up waddr; int wret; int werrno; bool hastimeout; u64 waitseq;
  u64 stall_until; bool hardstall; bool started; bool needgil;
  u64 lp;                      // local shared points
  u64 dp;                      // local data points
  int prio; u64 consec;
  u64 mallocs;                 // allocation counter (per thread)
  // replay cursor
  std::vector<Dec>* rd; size_t rc;
  std::vector<Dec>* rdd; size_t rcd;
};
static const int MAXT=48;
static Th  th[MAXT]; static int nth=0; static Th* volatile cur=nullptr;
static bool g_on=false, g_init=true, g_configured=false;
static int  g_nopre=0;
static up g_mod_lo=1, g_mod_len=0, g_mod_base=0, g_mod_end=0;
static up g_main_lo=0,g_main_hi=0;
static u64 g_clock=0, g_waitseq=0;
static u64 g_spin=0, g_op_steps=0;
static u64 g_step_cap=12000000ull, g_spin_cap=60000;
static const u64 FOREVER=1ull<<62;

struct Cfg {
  u64 seed; int mode;          // 0 random walk, 1 priorities (pct), 2 round robin
  double p_switch, p_data, p_stall, p_endstall, p_spur, p_eintr, p_latewake, p_never, p_wakeorder, p_mainfirst;
  u64 stall_lo, stall_hi; int pct_depth; int ncpu; int aff; u64 create_fail; u64 malloc_fail_at, malloc_fail_n; double p_mallocfail; double p_npfail;
  bool replay;
};
static Cfg C; static Rng R; // schedule randomness
static u64 cd_switch, cd_stall, cd_data, cd_spur; static std::vector<u64> pct_pts; static int pct_low=0;
static std::map<u64,u64>* rp_misc=nullptr; // replay: (kind<<56|tid<<48|idx) -> val
static u64 g_ncreate=0, g_nmalloc_op=0, g_nnp=0; static bool g_failalloc=false, g_failnp=false;
static u64 g_printf=0;

static void rec(u32 k,u32 t,u64 i,u64 v){ if(shm->ndec<shm->maxdec){ Dec&d=shm->dec[shm->ndec++]; d.kind=k;d.tid=t;d.idx=i;d.val=v;} else shm->overflow++; }
static inline u64 mk(u32 k,u32 t,u64 i){ return ((u64)k<<56)|((u64)t<<48)|(i&0xffffffffffffull); }
static bool rget(u32 k,u32 t,u64 i,u64&v){ if(!rp_misc) return false; auto it=rp_misc->find(mk(k,t,i)); if(it==rp_misc->end()) return false; v=it->second; return true; }

static void raw_wait(volatile int* p,int v){ syscall(SYS_futex,(int*)p,FUTEX_WAIT_PRIVATE,v,NULL,NULL,0);} 
static void raw_wake(volatile int* p){ syscall(SYS_futex,(int*)p,FUTEX_WAKE_PRIVATE,1,NULL,NULL,0);} 

__attribute__((noreturn)) static void verdict(int v,const char* fmt,...){
  if(!shm->verdict){ va_list ap; va_start(ap,fmt); shm->verdict=v; vsnprintf(shm->msg,sizeof shm->msg,fmt,ap); va_end(ap);} 
  shm->clockv=g_clock; _exit(70+v);
}
static const char* sname(const Th*t){ static char b[4][32]; static int i; i=(i+1)&3; snprintf(b[i],32,"%s%d",t->kind==0?"main":t->kind==1?"worker":"client",t->id); return b[i]; }

static inline void hmix(u64 x){ shm->hash=(shm->hash^x)*0x100000001b3ull; shm->hash^=shm->hash>>29; }
static inline void smix(u64 x){ shm->schedhash=(shm->schedhash^x)*0x100000001b3ull; shm->schedhash^=shm->schedhash>>31; }

// --- coverage: distinct (site, from kind, to kind) at which the token changed hands


static void transfer(Th* to, void* pc){
  Th* me=cur; if(to==me) return;
  shm->switches++;
  u64 site=pc? ((up)pc-g_mod_base):1; u64 k=(site*31+me->kind*7+to->kind)*0x9E3779B97F4A7C15ull>>48;
  if(!shm->cov[k&0xffff]){ shm->cov[k&0xffff]=1; shm->sites++; }
  smix(mk(me->id,to->id,site));
  if(me->kind && !th[0].saved_sp) {}
  me->saved_sp=(up)__builtin_frame_address(0);
  me->consec=0; to->consec=0; g_spin=0;
  int e=errno;
  cur=to; __atomic_store_n(&to->go,1,__ATOMIC_SEQ_CST); raw_wake(&to->go);
  if(me->state==S_DONE) return; // thread function returns afterwards
  while(!__atomic_load_n(&me->go,__ATOMIC_SEQ_CST)) raw_wait(&me->go,0);
  __atomic_store_n(&me->go,0,__ATOMIC_SEQ_CST);
  errno=e;
}

extern "C" int sim_gil_locked(void);
static inline bool runnable(Th*t){ return t->state==S_RUN && (!t->needgil || !sim_gil_locked()); }
static inline bool ready(Th*t){ return runnable(t) && t->stall_until<=g_clock; }

// choose somebody other than `ex` (ex may be null); nullptr when nobody can run
static Th* choose(Th* ex){
  Th* c[MAXT]; int n=0;
  for(int i=0;i<nth;i++) if(&th[i]!=ex && ready(&th[i])) c[n++]=&th[i];
  if(!n){
    Th* best=nullptr; for(int i=0;i<nth;i++){ Th*t=&th[i]; if(t!=ex && runnable(t) && !t->hardstall && (!best||t->stall_until<best->stall_until)) best=t; }
    if(best){ if(ex && ex->kind==0 && ex->state==S_RUN && best->stall_until>=FOREVER){} g_clock=best->stall_until>=FOREVER?g_clock:best->stall_until; best->stall_until=0; shm->faults[F_TIMEJUMP]++; return best; }
    return nullptr;
  }
  if(C.replay){ // default: round robin after ex
    int b=ex?ex->id:0; Th* bt=nullptr; int bd=1<<30; for(int i=0;i<n;i++){ int d=(c[i]->id-b+MAXT)%MAXT; if(d==0)d=MAXT; if(d<bd){bd=d;bt=c[i];} } return bt; }
  if(C.mode==1){ Th*b=c[0]; for(int i=1;i<n;i++) if(c[i]->prio>b->prio) b=c[i]; return b; }
  if(C.mode==2){ int b=ex?ex->id:0; Th* bt=nullptr; int bd=1<<30; for(int i=0;i<n;i++){ int d=(c[i]->id-b+MAXT)%MAXT; if(d==0)d=MAXT; if(d<bd){bd=d;bt=c[i];} } return bt; }
  return c[R.below(n)];
}
static bool other_ready(Th*me){ for(int i=0;i<nth;i++) if(&th[i]!=me && ready(&th[i])) return true; return false; }

static void report_threads(char*b,size_t n){ size_t o=0; for(int i=0;i<nth&&o+40<n;i++){ o+=snprintf(b+o,n-o,"%s:%s%s ",sname(&th[i]), th[i].state==S_RUN?"run":th[i].state==S_FUTEX?"futex":th[i].state==S_DONE?"done":th[i].state==S_DEAD?"dead":"blocked", th[i].hardstall?"(never scheduled)":th[i].stall_until>g_clock?"(stalled)":""); } }

// everybody who can run only spins: let time pass until the next stalled thread gets its CPU back
static u64 g_idle_pauses=0;
static void skip_time(){ g_idle_pauses=0; Th*best=nullptr; for(int i=0;i<nth;i++){ Th*t=&th[i]; if(t->stall_until>g_clock && runnable(t) && !t->hardstall && (!best||t->stall_until<best->stall_until)) best=t; }
  if(best){ if(best->stall_until<FOREVER) g_clock=best->stall_until; else best->stall_until=0; shm->faults[F_TIMEJUMP]++; } }
// forced switch: current thread cannot continue (blocked) or yields (pause)
static void forced(void* pc,bool pausing){
  Th* me=cur; me->lp++; g_clock++; shm->steps++; hmix(mk(me->id,20+pausing,pc?(up)pc-g_mod_base:0));
  if(!pausing) g_idle_pauses=0; else if(++g_idle_pauses>300) skip_time();
  u64 v; Th* to=nullptr;
  if(C.replay && rget(D_SW,me->id,me->lp,v) && v<(u64)nth && &th[v]!=me && runnable(&th[v])){ to=&th[v]; if(to->stall_until>g_clock){ if(!to->hardstall){g_clock=to->stall_until>=FOREVER?g_clock:to->stall_until; to->stall_until=0;} else to=nullptr; } }
  if(!to) to=choose(me);
  if(!to){
    if(pausing){
      if(++g_spin>g_spin_cap){ char b[1200]; report_threads(b,sizeof b); verdict(V_HANG,"%s waits for ever: no other thread can make progress [%s]",sname(me),b);} 
      return; }
    char b[1200]; report_threads(b,sizeof b); verdict(V_HANG,"deadlock: every thread is blocked [%s]",b);
  }
  if(to!=me && pausing && me->kind==0) shm->probes[PR_MAINWAIT]++;
  if(C.mode==1 && pausing){ me->prio=--pct_low; }
  rec(D_SW,me->id,me->lp,to->id);
  transfer(to,pc);
}

static void do_stall(Th*me,u64 dur,void*pc,bool hard){
  me->stall_until = dur>=FOREVER?FOREVER:g_clock+dur; me->hardstall=hard;
  Th* to=choose(me); if(!to||to==me){ me->stall_until=0; me->hardstall=false; return; }
  shm->faults[hard?F_NEVERSCHED:F_STALL]++;
  rec(D_STALL,me->id,me->lp,hard?FOREVER+1:dur); rec(D_SW,me->id,me->lp,to->id);
  transfer(to,pc);
  me->hardstall=false; 
}

static void wake_thread(Th*t,int ret,int err);
static void do_spurious(Th*me,Th*t){ shm->faults[F_SPUR]++; rec(D_SPUR,me->id,me->lp,t->id); wake_thread(t,0,0); }
static void pick_spurious(Th*me){ Th*c[MAXT]; int n=0; for(int i=0;i<nth;i++) if(th[i].state==S_FUTEX&&th[i].kind==1) c[n++]=&th[i]; if(n) do_spurious(me,c[R.below(n)]); }
__attribute__((noinline)) static void point(int kind, void* pc){
  Th* me=cur; me->lp++; me->consec++; g_clock++; g_op_steps++; shm->steps++;
  hmix(mk(kind,me->id,(up)pc-g_mod_base));
  if(unlikely(g_op_steps>g_step_cap)){ char b[1200]; report_threads(b,sizeof b); verdict(V_LIVELOCK,"no completion after %llu scheduling points [%s]",(unsigned long long)g_op_steps,b);} 
  if(kind!=1 && kind!=4) g_idle_pauses=0;
  if(g_nopre) return;
  if(C.replay){
    if(!me->rd) return; auto&v=*me->rd; while(me->rc<v.size() && v[me->rc].idx<me->lp) me->rc++;
    Th* to=nullptr; bool st=false;
    while(me->rc<v.size() && v[me->rc].idx==me->lp){ Dec&d=v[me->rc++];
      if(d.kind==D_STALL && me->kind){ bool hard=d.val>FOREVER; me->stall_until=d.val>=FOREVER?FOREVER:g_clock+d.val; me->hardstall=hard; st=true; shm->faults[hard?F_NEVERSCHED:F_STALL]++; rec(D_STALL,me->id,me->lp,d.val);} 
      else if(d.kind==D_SPUR && d.val<(u64)nth && th[d.val].state==S_FUTEX) do_spurious(me,&th[d.val]);
      else if(d.kind==D_SW && d.val<(u64)nth) to=&th[d.val]; }
    if(to && (to==me || !runnable(to) || to->hardstall)) to=nullptr;
    if(to && to->stall_until>g_clock){ g_clock=to->stall_until>=FOREVER?g_clock:to->stall_until; to->stall_until=0; }
    if(st && !to){ to=choose(me); if(!to||to==me){ me->stall_until=0; me->hardstall=false; return; } }
    if(to){ rec(D_SW,me->id,me->lp,to->id); transfer(to,pc); me->hardstall=false; }
    return;
  }
  // after 2 million scheduling points inside one operation the faults stop: from there on it has to finish
  bool calm=g_op_steps>2000000;
  if(unlikely(--cd_spur==0)){ cd_spur=R.gap(C.p_spur); if(!calm) pick_spurious(me); }
  if(unlikely(--cd_stall==0)){ cd_stall=R.gap(C.p_stall);
    if(me->kind==1 && !calm){ u64 span=C.stall_hi-C.stall_lo+1; u64 d=C.stall_lo+R.next()%span; if(R.below(4)==0) d*=50; do_stall(me,d,pc,false); return; } }
  if(C.mode==1){
    if(!pct_pts.empty() && pct_pts.back()<=shm->steps){ pct_pts.pop_back(); me->prio=--pct_low; Th*to=nullptr; for(int i=0;i<nth;i++) if(ready(&th[i])&&(!to||th[i].prio>to->prio)) to=&th[i]; if(to&&to!=me){ rec(D_SW,me->id,me->lp,to->id); transfer(to,pc);} }
    else if(me->consec>20000 && other_ready(me)){ me->prio=--pct_low; Th*to=choose(me); if(to){ rec(D_SW,me->id,me->lp,to->id); transfer(to,pc);} }
    return;
  }
  if(--cd_switch==0 || (me->consec>20000)){
    cd_switch=R.gap(C.p_switch);
    Th* to=choose(me); if(me->kind!=0 && ready(&th[0]) && C.p_mainfirst>0 && R.unit()<C.p_mainfirst) to=&th[0];
    if(to && to!=me){ rec(D_SW,me->id,me->lp,to->id); transfer(to,pc); }
  }
}

// preemption inside bulk data processing
__attribute__((noinline)) static void data_point(void* pc){
  Th* me=cur;
  if(C.replay){ return; }
  cd_data=R.gap(C.p_data); shm->datapoints++;
  if(g_nopre) return;
  Th* to=choose(me); if(to&&to!=me){ shm->faults[F_DATAPREEMPT]++; rec(D_DATA,me->id,me->dp,to->id); transfer(to,pc);} 
}
__attribute__((noinline)) static void data_replay(Th*me,void*pc){
  auto&v=*me->rdd; Dec&d=v[me->rcd++]; Th*to=d.val<(u64)nth?&th[d.val]:nullptr;
  if(to&&to!=me&&runnable(to)&&!to->hardstall){ if(to->stall_until>g_clock){ g_clock=to->stall_until>=FOREVER?g_clock:to->stall_until; to->stall_until=0;} shm->faults[F_DATAPREEMPT]++; rec(D_DATA,me->id,me->dp,to->id); transfer(to,pc);} 
}

__attribute__((noinline)) static void stack_acc(up a,size_t sz,bool w,void*pc){
  Th* me=cur; Th* ow=nullptr;
  if(a-g_main_lo<g_main_hi-g_main_lo) ow=&th[0]; else { int i=(int)((a-STK_BASE)/STK_EACH); if(i<nth) ow=&th[i]; }
  if(!ow||ow==me) return;
  if(ow->state!=S_DONE && a+256<ow->saved_sp && a>=ow->stk_lo)
    verdict(V_DEADFRAME,"%s %s memory of a function that already returned (stack of %s, pc +0x%llx)",sname(me),w?"wrote":"read",sname(ow),(unsigned long long)((up)pc-g_mod_base));
  if(ow->state==S_DONE) verdict(V_DEADFRAME,"%s touched the stack of finished thread %s (pc +0x%llx)",sname(me),sname(ow),(unsigned long long)((up)pc-g_mod_base));
  point(3,pc);
}

static inline __attribute__((always_inline)) void acc(up a,size_t sz,bool w,void* pc){
  if(likely(!g_on)) return;
  Th* me=cur;
  if(a-me->stk_lo<me->stk_len) return;
  if(a-g_mod_lo<g_mod_len || a-SH_BASE<SH_SIZE || a-SM_BASE<SM_SIZE){ point(w?2:1,pc); return; }
  if(unlikely(a-STK_BASE<STK_EACH*MAXT || a-g_main_lo<g_main_hi-g_main_lo)){ stack_acc(a,sz,w,pc); return; }
  me->dp++;
  if(unlikely(C.replay)){ if(me->rdd && me->rcd<me->rdd->size() && (*me->rdd)[me->rcd].idx<=me->dp) data_replay(me,pc); return; }
  if(unlikely(--cd_data==0)) data_point(pc);
}
#define RA __builtin_return_address(0)
// block coverage of the code under simulation (SIM_COV=<file>; a development aid, see build.py)
static unsigned char* g_covmap=nullptr; static const up COVSZ=16u<<20;
static void cov_open(){ const char*p=getenv("SIM_COV"); if(!p||!*p) return; int fd=open(p,O_RDWR|O_CREAT,0644); if(fd<0) return; if(ftruncate(fd,COVSZ)==0){ void*m=mmap(0,COVSZ,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); if(m!=MAP_FAILED) g_covmap=(unsigned char*)m; } close(fd); }
EXPORT void __sanitizer_cov_trace_pc(void){ static bool init=false; if(unlikely(!init)){ init=true; cov_open(); } if(g_on && g_covmap){ up o=(up)RA-g_mod_base; if(o<COVSZ) g_covmap[o]=1; } }
#define ACC(n,sz) \
 EXPORT void __tsan_read##n(void*a){ acc((up)a,sz,false,RA);} EXPORT void __tsan_write##n(void*a){ acc((up)a,sz,true,RA);} \
 EXPORT void __tsan_unaligned_read##n(void*a){ acc((up)a,sz,false,RA);} EXPORT void __tsan_unaligned_write##n(void*a){ acc((up)a,sz,true,RA);} \
 EXPORT void __tsan_volatile_read##n(void*a){ acc((up)a,sz,false,RA);} EXPORT void __tsan_volatile_write##n(void*a){ acc((up)a,sz,true,RA);} \
 EXPORT void __tsan_unaligned_volatile_read##n(void*a){ acc((up)a,sz,false,RA);} EXPORT void __tsan_unaligned_volatile_write##n(void*a){ acc((up)a,sz,true,RA);} \
 EXPORT void __tsan_read##n##_pc(void*a,void*pc){ acc((up)a,sz,false,pc);} EXPORT void __tsan_write##n##_pc(void*a,void*pc){ acc((up)a,sz,true,pc);} \
 EXPORT void __tsan_read_write##n(void*a){ acc((up)a,sz,false,RA); acc((up)a,sz,true,RA);} EXPORT void __tsan_unaligned_read_write##n(void*a){ acc((up)a,sz,false,RA); acc((up)a,sz,true,RA);} 
ACC(1,1) ACC(2,2) ACC(4,4) ACC(8,8) ACC(16,16)
EXPORT void __tsan_read_range(void*a,size_t n){ if(n) acc((up)a,n,false,RA);} 
EXPORT void __tsan_write_range(void*a,size_t n){ if(n) acc((up)a,n,true,RA);} 
EXPORT void __tsan_func_entry(void*){} EXPORT void __tsan_func_exit(void){} EXPORT void __tsan_init(void){}
EXPORT void __tsan_vptr_update(void**,void*){} EXPORT void __tsan_vptr_read(void**){}
EXPORT void __tsan_atomic_thread_fence(int){ if(g_on) point(5,RA);} EXPORT void __tsan_atomic_signal_fence(int){}
static inline void at(void*a,void*pc){ if(!g_on) return; up x=(up)a; if(x-g_main_lo<g_main_hi-g_main_lo||x-STK_BASE<STK_EACH*MAXT){ stack_acc(x,8,true,pc); if(cur && x-cur->stk_lo<cur->stk_len) point(4,pc);} else point(4,pc); }
#define ATOM(bits,T) \
 EXPORT T __tsan_atomic##bits##_load(const volatile T*a,int){ at((void*)a,RA); return *a;} \
 EXPORT void __tsan_atomic##bits##_store(volatile T*a,T v,int){ at((void*)a,RA); if(*a!=v) g_idle_pauses=0; *a=v;} \
 EXPORT T __tsan_atomic##bits##_exchange(volatile T*a,T v,int){ at((void*)a,RA); T o=*a; if(o!=v) g_idle_pauses=0; *a=v; return o;} \
 EXPORT T __tsan_atomic##bits##_fetch_add(volatile T*a,T v,int){ at((void*)a,RA); T o=*a; *a=(T)(o+v); if(*a!=o) g_idle_pauses=0; return o;} \
 EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T*a,T v,int){ at((void*)a,RA); T o=*a; *a=(T)(o-v); if(*a!=o) g_idle_pauses=0; return o;} \
 EXPORT T __tsan_atomic##bits##_fetch_and(volatile T*a,T v,int){ at((void*)a,RA); T o=*a; *a=o&v; if(*a!=o) g_idle_pauses=0; return o;} \
 EXPORT T __tsan_atomic##bits##_fetch_or(volatile T*a,T v,int){ at((void*)a,RA); T o=*a; *a=o|v; if(*a!=o) g_idle_pauses=0; return o;} \
 EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T*a,T v,int){ at((void*)a,RA); T o=*a; *a=o^v; if(*a!=o) g_idle_pauses=0; return o;} \
 EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T*a,T v,int){ at((void*)a,RA); T o=*a; *a=~(o&v); if(*a!=o) g_idle_pauses=0; return o;} \
 EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T*a,T*e,T d,int,int){ at((void*)a,RA); if(*a==*e){*a=d;g_idle_pauses=0;return 1;} *e=*a; return 0;} \
 EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T*a,T*e,T d,int,int){ at((void*)a,RA); if(*a==*e){*a=d;g_idle_pauses=0;return 1;} *e=*a; return 0;} \
 EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T*a,T e,T d,int,int){ at((void*)a,RA); T o=*a; if(o==e){*a=d;g_idle_pauses=0;} return o;}
ATOM(8,uint8_t) ATOM(16,uint16_t) ATOM(32,uint32_t) ATOM(64,uint64_t)

// ---------------------------------------------------------------- pause / yield / clocks
EXPORT void sim_pause(void){ if(!g_on) { return; } shm->pauses++; g_op_steps++; if(unlikely(g_op_steps>g_step_cap)) verdict(V_LIVELOCK,"no completion after %llu scheduling points",(unsigned long long)g_op_steps); forced(RA,true); }
EXPORT unsigned long long sim_rdtsc(void){ return 1000000ull + g_clock*20; }
EXPORT int __wrap_usleep(unsigned us){ if(!g_on) return 0; g_clock+=us; sim_pause(); return 0; }
EXPORT int __wrap_nanosleep(const struct timespec*,struct timespec*){ if(!g_on) return 0; sim_pause(); return 0; }
EXPORT int __wrap_sched_yield(void){ if(!g_on) return 0; sim_pause(); return 0; }
static long long g_utc=1600000000;      // the wall clock's second at simulated time 0; may jump
EXPORT int __wrap_clock_gettime(clockid_t id,struct timespec*ts){ u64 ns=g_clock*20; ts->tv_sec=(id==CLOCK_REALTIME?g_utc:1000)+(long long)(ns/1000000000ull); ts->tv_nsec=ns%1000000000ull; return 0; }
EXPORT int __wrap_gettimeofday(struct timeval*tv,void*){ struct timespec t; __wrap_clock_gettime(CLOCK_REALTIME,&t); tv->tv_sec=t.tv_sec; tv->tv_usec=t.tv_nsec/1000; return 0; }
EXPORT time_t __wrap_time(time_t*p){ struct timespec t; __wrap_clock_gettime(CLOCK_REALTIME,&t); if(p) *p=t.tv_sec; return t.tv_sec; }
EXPORT long long __wrap__ZNSt6chrono3_V212system_clock3nowEv(void){ struct timespec t; __wrap_clock_gettime(CLOCK_REALTIME,&t); return t.tv_sec*1000000000ll+t.tv_nsec; }
EXPORT long long __wrap__ZNSt6chrono3_V212steady_clock3nowEv(void){ struct timespec t; __wrap_clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec*1000000000ll+t.tv_nsec; }
// aff: 0 the first ncpu CPUs, 1 every third CPU, 2 CPUs from number 40 on, 3 the call fails (more CPUs than the set can hold), 4 only CPUs above 64
EXPORT int __wrap_sched_getaffinity(pid_t,size_t sz,cpu_set_t*set){
  if(C.aff==3){ memset(set,C.seed&1?0x5A:0xFF,sz); shm->faults[F_AFF]++; errno=EINVAL; return -1; }
  memset(set,0,sz); int n=C.ncpu; if(C.aff) shm->faults[F_AFF]++;
  for(int i=0;i<n;i++){ int p=C.aff==1?1+3*i:C.aff==2?40+i:C.aff==4?70+i:i; if(p<(int)(sz*8)) CPU_SET(p,set); }
  return 0; }
EXPORT int __wrap_sched_setaffinity(pid_t,size_t,const cpu_set_t*){ return 0; }
EXPORT long __wrap_sysconf(int n){ if(n==_SC_NPROCESSORS_ONLN||n==_SC_NPROCESSORS_CONF) return C.ncpu; return sysconf(n); }
EXPORT int __wrap_get_nprocs(void){ return C.ncpu; }

// ---------------------------------------------------------------- futex
static void wake_thread(Th*t,int ret,int err){
  t->state=S_RUN; t->wret=ret; t->werrno=err; t->stall_until=0; t->hardstall=false;
  if(C.replay){ u64 v; if(rget(D_ENDSTALL,t->id,t->waitseq,v)){ t->stall_until=v>=FOREVER?FOREVER:g_clock+v; t->hardstall=v>FOREVER; shm->faults[v>FOREVER?F_NEVERSCHED:F_LATEWAKE]++; rec(D_ENDSTALL,t->id,t->waitseq,v);} return; }
  if(C.mode==1 && t->prio==0) t->prio=1+R.below(1000);
  if(t->kind==1){
    if(C.p_never>0 && R.unit()<C.p_never){ t->stall_until=FOREVER; t->hardstall=true; shm->faults[F_NEVERSCHED]++; rec(D_ENDSTALL,t->id,t->waitseq,FOREVER+1);} 
    else if(C.p_latewake>0 && R.unit()<C.p_latewake){ u64 span=C.stall_hi-C.stall_lo+1; u64 d=C.stall_lo+R.next()%span; t->stall_until=g_clock+d; shm->faults[F_LATEWAKE]++; rec(D_ENDSTALL,t->id,t->waitseq,d);} }
}
static u64 g_wakeno=0;
static long do_futex(int*ua,int op,int val,const struct timespec*to,void*pc){
  int o=op&~(FUTEX_PRIVATE_FLAG|FUTEX_CLOCK_REALTIME);
  if(o==FUTEX_WAIT||o==FUTEX_WAIT_BITSET){
    point(6,pc);
    Th*me=cur; u64 v;
    if(__atomic_load_n(ua,__ATOMIC_SEQ_CST)!=val){ shm->faults[F_EAGAIN]++; errno=EAGAIN; return -1; }
    me->waitseq=++g_waitseq;
    bool ei=false; if(C.replay) ei=rget(D_EINTR,me->id,me->lp,v); else if(C.p_eintr>0&&R.unit()<C.p_eintr) ei=true;
    if(ei){ shm->faults[F_EINTR]++; rec(D_EINTR,me->id,me->lp,1); errno=EINTR; return -1; }
    me->state=S_FUTEX; me->waddr=(up)ua; me->hastimeout=to!=nullptr; me->wret=0; me->werrno=0;
    forced(pc,false);
    if(me->wret<0) errno=me->werrno;
    return me->wret;
  }
  if(o==FUTEX_WAKE||o==FUTEX_WAKE_BITSET){
    point(7,pc);
    u64 wn=++g_wakeno;
    std::vector<Th*> w; for(int i=0;i<nth;i++) if(th[i].state==S_FUTEX&&th[i].waddr==(up)ua) w.push_back(&th[i]);
    std::sort(w.begin(),w.end(),[](Th*a,Th*b){return a->waitseq<b->waitseq;});
    int n=0; u64 v;
    bool ro=false; u64 sd=0;
    if(C.replay){ if(rget(D_WAKE,0,wn,v)){ ro=true; sd=v; } } else if(w.size()>1 && C.p_wakeorder>0 && R.unit()<C.p_wakeorder){ ro=true; sd=R.next()&0xffffffff; }
    if(ro){ rec(D_WAKE,0,wn,sd); shm->faults[F_WAKEORDER]++; Rng q{sd}; for(size_t i=w.size();i>1;i--) std::swap(w[i-1],w[q.below(i)]); }
    for(auto t:w){ if(n>=val) break; wake_thread(t,0,0); n++; }
    point(8,pc);
    return n;
  }
  errno=ENOSYS; return -1;
}
EXPORT long __wrap_syscall(long n,long a,long b,long c,long d,long e,long f){
  if(n==SYS_futex){ if(!g_on) return 0; return do_futex((int*)a,(int)b,(int)c,(const struct timespec*)d,RA);} 
  if(n==SYS_gettid) return 1000+(cur?cur->id:0);
  return syscall(n,a,b,c,d,e,f);
}

// ---------------------------------------------------------------- thread creation
static void th_block_until_go(Th*me){ while(!__atomic_load_n(&me->go,__ATOMIC_SEQ_CST)) raw_wait(&me->go,0); __atomic_store_n(&me->go,0,__ATOMIC_SEQ_CST);} 
static void finish(Th*me,void*r){ me->ret=r; for(int i=0;i<nth;i++) if(th[i].state==S_JOIN && th[i].waddr==(up)me->id) th[i].state=S_RUN;
  me->state=S_DONE; Th*to=choose(me); if(!to) verdict(V_HANG,"deadlock at thread exit"); rec(D_SW,me->id,++me->lp,to->id); transfer(to,nullptr); }
static void* tramp(void*p){ Th*me=(Th*)p; th_block_until_go(me); void*r=me->fn(me->arg); finish(me,r); for(;;) pause(); return nullptr; }
static Th* new_thread(int kind,void*(*fn)(void*),void*arg){
  if(nth>=MAXT) verdict(V_INTERNAL,"too many simulated threads");
  Th*t=&th[nth]; memset((void*)t,0,sizeof *t); t->id=nth; t->kind=kind; t->fn=fn; t->arg=arg; t->state=S_RUN;
  t->stk_lo=STK_BASE+STK_EACH*nth; t->stk_len=STK_EACH-PG; t->saved_sp=t->stk_lo+t->stk_len;
  void*m=mmap((void*)t->stk_lo,t->stk_len,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE|MAP_NORESERVE,-1,0);
  if(m==MAP_FAILED) verdict(V_INTERNAL,"stack mmap failed");
  if(C.mode==1) t->prio=1+R.below(1000);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at,(void*)t->stk_lo,t->stk_len);
  nth++;
  int e=pthread_create(&t->pt,&at,tramp,t); pthread_attr_destroy(&at);
  if(e) verdict(V_INTERNAL,"real pthread_create failed %d",e);
  return t;
}
static void attach_replay(Th*t);
EXPORT int __wrap_pthread_create(pthread_t*pt,const pthread_attr_t*,void*(*fn)(void*),void*arg){
  u64 n=g_ncreate++;
  if(n<64 && (C.create_fail>>n&1)){ shm->faults[F_CREATEFAIL]++; return EAGAIN; }
  Th*t=new_thread(1,fn,arg); attach_replay(t); *pt=(pthread_t)(1000+t->id);
  // a freshly created thread may be arbitrarily late, or never get a CPU
  u64 v; if(C.replay){ if(rget(D_ENDSTALL,t->id,0,v)){ t->stall_until=v>=FOREVER?FOREVER:g_clock+v; t->hardstall=v>FOREVER; rec(D_ENDSTALL,t->id,0,v); shm->faults[v>FOREVER?F_NEVERSCHED:F_LATEWAKE]++; } }
  else { if(C.p_never>0&&R.unit()<C.p_never){ t->stall_until=FOREVER; t->hardstall=true; rec(D_ENDSTALL,t->id,0,FOREVER+1); shm->faults[F_NEVERSCHED]++; }
    else if(C.p_latewake>0&&R.unit()<C.p_latewake){ u64 d=C.stall_lo+R.next()%(C.stall_hi-C.stall_lo+1); t->stall_until=g_clock+d; rec(D_ENDSTALL,t->id,0,d); shm->faults[F_LATEWAKE]++; } }
  return 0;
}
EXPORT int __wrap_pthread_join(pthread_t pt,void**r){ int id=(int)pt-1000; if(id<0||id>=nth) return ESRCH; while(th[id].state!=S_DONE){ if(!g_on) return ESRCH; cur->state=S_JOIN; cur->waddr=id; forced(RA,false);} if(r)*r=th[id].ret; return 0; }
EXPORT int __wrap_pthread_detach(pthread_t){ return 0; }

// simple models of mutex / condition variable, in case the code under test uses them
struct Mx { int owner; int rec; };
EXPORT int __wrap_pthread_mutex_init(pthread_mutex_t*m,const void*){ memset(m,0,sizeof *m); return 0; }
EXPORT int __wrap_pthread_mutex_destroy(pthread_mutex_t*){ return 0; }
EXPORT int __wrap_pthread_mutex_trylock(pthread_mutex_t*m){ Mx*x=(Mx*)m; if(g_on) point(9,RA); int me=cur?cur->id+1:1; if(x->owner&&x->owner!=me) return EBUSY; if(x->owner==me) return EBUSY; x->owner=me; return 0; }
EXPORT int __wrap_pthread_mutex_lock(pthread_mutex_t*m){ Mx*x=(Mx*)m; if(g_on) point(9,RA); int me=cur?cur->id+1:1; while(x->owner && x->owner!=me){ if(!g_on) break; cur->state=S_MUTEX; cur->waddr=(up)m; forced(RA,false);} x->owner=me; return 0; }
EXPORT int __wrap_pthread_mutex_unlock(pthread_mutex_t*m){ Mx*x=(Mx*)m; x->owner=0; for(int i=0;i<nth;i++) if(th[i].state==S_MUTEX&&th[i].waddr==(up)m) th[i].state=S_RUN; if(g_on) point(10,RA); return 0; }
EXPORT int __wrap_pthread_cond_init(pthread_cond_t*c,const void*){ memset(c,0,sizeof *c); return 0; }
EXPORT int __wrap_pthread_cond_destroy(pthread_cond_t*){ return 0; }
EXPORT int __wrap_pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ if(!g_on) return 0; __wrap_pthread_mutex_unlock(m); cur->state=S_COND; cur->waddr=(up)c; cur->waitseq=++g_waitseq; forced(RA,false); __wrap_pthread_mutex_lock(m); return 0; }
EXPORT int __wrap_pthread_cond_timedwait(pthread_cond_t*,pthread_mutex_t*m,const struct timespec*){ if(!g_on) return 0; __wrap_pthread_mutex_unlock(m); sim_pause(); __wrap_pthread_mutex_lock(m); return ETIMEDOUT; }
EXPORT int __wrap_pthread_cond_broadcast(pthread_cond_t*c){ if(g_on) point(11,RA); for(int i=0;i<nth;i++) if(th[i].state==S_COND&&th[i].waddr==(up)c) wake_thread(&th[i],0,0); return 0; }
EXPORT int __wrap_pthread_cond_signal(pthread_cond_t*c){ if(g_on) point(11,RA); Th*b=nullptr; for(int i=0;i<nth;i++) if(th[i].state==S_COND&&th[i].waddr==(up)c&&(!b||th[i].waitseq<b->waitseq)) b=&th[i]; if(b) wake_thread(b,0,0); return 0; }

// ---------------------------------------------------------------- memory
struct Blk { size_t size; size_t map; bool freed; bool prot; up user; };
static std::map<up,Blk>* blocks; static up ar_next=AR_BASE, sh_next=SH_BASE, sm_next=SM_BASE; static bool ar_mapped=false; static u64 g_allocseq=0;
static void ar_init(){ if(ar_mapped) return; ar_mapped=true; blocks=new std::map<up,Blk>();
  if(mmap((void*)AR_BASE,AR_SIZE,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)==MAP_FAILED) { fprintf(stderr,"simrt: arena mmap failed %s\n",strerror(errno)); _exit(90);} 
  if(mmap((void*)SH_BASE,SH_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)==MAP_FAILED) _exit(90);
  if(mmap((void*)SM_BASE,SM_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)==MAP_FAILED) _exit(90);
}
static inline bool in_ar(up a){ return a-AR_BASE<AR_SIZE; }
static void* ar_alloc(size_t n,int fill){ ar_init();
  size_t pad=(16-(n&15))&15; size_t body=n+pad; size_t pages=(body+PG-1)/PG*PG; up lo=ar_next+PG;
  if(n>=AR_SIZE||lo+pages+PG>=AR_BASE+AR_SIZE) { errno=ENOMEM; return nullptr; }
  if(mprotect((void*)lo,pages,PROT_READ|PROT_WRITE)) { errno=ENOMEM; return nullptr; }
  ar_next=lo+pages;
  up u=lo+pages-body; // right aligned: first byte past the block (+pad) faults
  if(fill<0) { static const unsigned char pat[2]={0xA5,0x5A}; memset((void*)lo,pat[g_allocseq++&1],pages); }
  memset((void*)(u+n),0xE7,pad); if(u>lo) memset((void*)lo,0xE7,std::min<size_t>(u-lo,64)), memset((void*)(u-std::min<size_t>(u-lo,64)),0xE7,std::min<size_t>(u-lo,64));
  Blk b; b.size=n;b.map=pages;b.freed=false;b.prot=false;b.user=u; (*blocks)[lo]=b; return (void*)u; }
static Blk* ar_find(up a,up*lo){ auto it=blocks->upper_bound(a); if(it==blocks->begin()) return nullptr; --it; if(a<it->first||a>=it->first+it->second.map) return nullptr; if(lo)*lo=it->first; return &it->second; }
static void ar_check(up lo,Blk*b){ up e=b->user+b->size; for(up p=e;p<lo+b->map;p++) if(*(unsigned char*)p!=0xE7) verdict(V_CANARY,"byte written %llu past the end of a %llu byte block",(unsigned long long)(p-e),(unsigned long long)b->size);
  size_t h=std::min<size_t>(b->user-lo,64); for(up p=b->user-h;p<b->user;p++) if(*(unsigned char*)p!=0xE7) verdict(V_CANARY,"byte written %llu before the start of a %llu byte block",(unsigned long long)(b->user-p),(unsigned long long)b->size); }
static void ar_free(up a){ up lo; Blk*b=ar_find(a,&lo); if(!b||b->user!=a||b->freed) verdict(V_SEGV,"bad free of %p",(void*)a); if(b->prot) mprotect((void*)lo,b->map,PROT_READ|PROT_WRITE); ar_check(lo,b); b->freed=true; madvise((void*)lo,b->map,MADV_DONTNEED); mprotect((void*)lo,b->map,PROT_NONE); }

// pnumpy-side allocator
static bool inject_fail(size_t n){
  if(!g_failalloc||!g_on) return false; u64 k=++g_nmalloc_op; u64 v; bool f=false;
  if(C.replay) f=rget(D_MALLOCFAIL,0,k,v); else f=C.p_mallocfail>0&&R.unit()<C.p_mallocfail;
  if(f){ shm->faults[F_MALLOCFAIL]++; rec(D_MALLOCFAIL,0,k,n);} return f; }
static bool g_small_ok=true;
static long g_live=0,g_nplive=0;     // blocks pnumpy and NumPy hold
EXPORT void* __wrap_malloc(size_t n){ ar_init();
  if(g_init){ up p=(sh_next+63)&~63ull; if(p+n+64>SH_BASE+SH_SIZE) return nullptr; *(u64*)p=n; sh_next=p+64+n; memset((void*)(p+64),0xA5,n); return (void*)(p+64); }
  if(inject_fail(n)){ errno=ENOMEM; return nullptr; }
  if(n>=BIG){ void*b=ar_alloc(n,-1); if(b) g_live++; return b; }
  up p=(sm_next+15)&~15ull; *(u64*)p=n; p+=16; if(p+n+32>SM_BASE+SM_SIZE) return nullptr; g_live++; memset((void*)p,0xA5,n); memset((void*)(p+n),0xE7,16); sm_next=p+n+16; return (void*)p; }
EXPORT void __wrap_free(void*q){ up a=(up)q; if(!a) return; if(in_ar(a)){ ar_free(a); g_live--; return;} 
  if(a-SH_BASE<SH_SIZE) return; if(a-SM_BASE<SM_SIZE){ u64 n=*(u64*)(a-16); if(n>>63) verdict(V_SEGV,"bad free of %p (freed before)",q); *(u64*)(a-16)=n|1ull<<63; g_live--; for(int i=0;i<16;i++) if(((unsigned char*)a)[n+i]!=0xE7) verdict(V_CANARY,"byte written %d past the end of a %llu byte workspace",i,(unsigned long long)n); memset(q,0xDD,n); return; } free(q); }
EXPORT void* __wrap_calloc(size_t a,size_t b){ void*p=__wrap_malloc(a*b); if(p) memset(p,0,a*b); return p; }
static size_t usable(void*q){ up a=(up)q; if(in_ar(a)){ Blk*b=ar_find(a,nullptr); return b?b->size:0;} if(a-SM_BASE<SM_SIZE) return *(u64*)(a-16); if(a-SH_BASE<SH_SIZE) return *(u64*)(a-64); return 0; }
EXPORT void* __wrap_realloc(void*q,size_t n){ if(!q) return __wrap_malloc(n); void*p=__wrap_malloc(n); if(p){ size_t o=usable(q); memcpy(p,q,o<n?o:n); __wrap_free(q);} return p; }
EXPORT int __wrap_posix_memalign(void**r,size_t,size_t n){ void*p=__wrap_malloc(n); if(!p) return ENOMEM; *r=p; return 0; }
EXPORT void* __wrap_aligned_alloc(size_t,size_t n){ return __wrap_malloc(n); }
EXPORT void* __wrap__Znwm(size_t n){ g_small_ok=true; bool f=g_failalloc; g_failalloc=false; void*p=__wrap_malloc(n); g_failalloc=f; return p; }
EXPORT void* __wrap__Znam(size_t n){ return __wrap__Znwm(n);} 
EXPORT void __wrap__ZdlPv(void*p){ __wrap_free(p);} EXPORT void __wrap__ZdaPv(void*p){ __wrap_free(p);} EXPORT void __wrap__ZdlPvm(void*p,size_t){ __wrap_free(p);} EXPORT void __wrap__ZdaPvm(void*p,size_t){ __wrap_free(p);} 
EXPORT void* __wrap_memcpy(void*d,const void*s,size_t n){ if(g_on&&n){ acc((up)s,n,false,RA); acc((up)d,n,true,RA);} return memcpy(d,s,n);} 
EXPORT void* __wrap_memmove(void*d,const void*s,size_t n){ if(g_on&&n){ acc((up)s,n,false,RA); acc((up)d,n,true,RA);} return memmove(d,s,n);} 
EXPORT void* __wrap_memset(void*d,int c,size_t n){ if(g_on&&n) acc((up)d,n,true,RA); return memset(d,c,n);} 
EXPORT int __wrap___printf_chk(int,const char*,...){ g_printf++; return 0; }
EXPORT int __wrap_printf(const char*,...){ g_printf++; return 0; }
EXPORT int __wrap_puts(const char*){ g_printf++; return 0; }

// NumPy data allocator
static bool np_fail(size_t n){ if(!g_failnp||!g_on||n<BIG) return false; u64 k=++g_nnp; u64 v; bool f=false; if(C.replay) f=rget(D_NPFAIL,0,k,v); else f=C.p_npfail>0&&R.unit()<C.p_npfail; if(f){ shm->faults[F_NPFAIL]++; rec(D_NPFAIL,0,k,n);} return f; }
// small blocks: where they lie (modulo 64) is the seed's choice, not the heap's
static u64 g_npseq=0;
static void* sm_alloc(size_t n,int fill){ char*o=(char*)malloc(n+160); if(!o) return nullptr; u64 h=(C.seed*0x9E3779B97F4A7C15ull)^(++g_npseq*0xBF58476D1CE4E5B9ull); h^=h>>29;
  char*p=(char*)(((up)o+16+63)/64*64)+16*(h&3); ((up*)p)[-1]=(up)o; ((up*)p)[-2]=n; memset(p,fill,n); return p; }
static void sm_free(void*p){ free((void*)((up*)p)[-1]); }
static void* np_malloc(void*,size_t n){ if(np_fail(n)) return nullptr; void*p=n>=BIG?ar_alloc(n,-1):sm_alloc(n,0xA5); if(p) g_nplive++; return p; }
static void* np_calloc(void*,size_t a,size_t b){ size_t n=a*b; if(np_fail(n)) return nullptr; void*p=n>=BIG?ar_alloc(n,0):sm_alloc(n,0); if(p){ g_nplive++; if(n>=BIG) memset(p,0,n); } return p; }
static void np_free(void*,void*p,size_t){ if(!p) return; g_nplive--; if(in_ar((up)p)) ar_free((up)p); else sm_free(p); }
static void* np_realloc(void*,void*p,size_t n){ if(!p) return np_malloc(nullptr,n); bool big=in_ar((up)p); size_t old=big?usable(p):((up*)p)[-2]; void*q=np_malloc(nullptr,n); if(!q) return nullptr; memcpy(q,p,std::min(old,n)); g_nplive--; if(big) ar_free((up)p); else sm_free(p); return q; }
static PyDataMem_Handler g_handler={ "sim_guarded", 1, { nullptr, np_malloc, np_calloc, np_realloc, np_free } };

// ---------------------------------------------------------------- crashes
static void on_segv(int sig,siginfo_t*si,void*uc){
  up a=(up)si->si_addr; up ip=((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP]; const char*what="invalid address"; char buf[160]; 
  if(sig==SIGSEGV && in_ar(a)){ up lo; Blk*b=blocks?ar_find(a,&lo):nullptr; 
    if(b&&b->freed){ snprintf(buf,sizeof buf,"memory that was already freed (block of %llu bytes)",(unsigned long long)b->size); what=buf; }
    else if(b&&b->prot){ snprintf(buf,sizeof buf,"caller memory after the call returned (block of %llu bytes)",(unsigned long long)b->size); what=buf; }
    else { auto it=blocks->upper_bound(a); if(it!=blocks->begin()){ --it; snprintf(buf,sizeof buf,"%llu bytes past a block of %llu bytes",(unsigned long long)(a-(it->second.user+it->second.size)),(unsigned long long)it->second.size);} else snprintf(buf,sizeof buf,"unmapped arena"); what=buf; } }
  else { snprintf(buf,sizeof buf,"address %p (signal %d)",(void*)a,sig); what=buf; }
  Th*me=cur; long long rel=(long long)(ip-g_mod_base);
  if(!(ip-g_mod_base<g_mod_end-g_mod_base)) rel=-1;
  if(!shm->verdict){ shm->verdict=V_SEGV; snprintf(shm->msg,sizeof shm->msg,"%s crashed touching %s; op %llu; pc %s0x%llx",me?sname(me):"main",what,(unsigned long long)shm->opno,rel>=0?"+":"outside pnumpy ",rel>=0?rel:(long long)0);} 
  shm->clockv=g_clock; _exit(70+V_SEGV);
}

// ---------------------------------------------------------------- clients: extra application threads
struct Call { int kind; void* fn; void* p[4]; npy_intp n; npy_intp steps[3]; void* data; void* arr; int ret; bool done; u64 t0,t1; };
struct Client { std::vector<Call> calls; Th* t; u64 opno; };
static std::vector<Client*> clients;
// an application thread needs the interpreter lock to start a call; NumPy then releases it around the work
static void take_gil(Th*me){ me->needgil=true; while(sim_gil_locked()) forced((void*)g_mod_base,true); me->needgil=false; }
static void* client_main(void*p){ Client*c=(Client*)p; PyThreadState*ts=nullptr;
  for(auto&k:c->calls){ k.t0=g_clock; take_gil(c->t);
    switch(k.kind){
      case 0: { char*args[3]={(char*)k.p[0],(char*)k.p[1],(char*)k.p[2]}; npy_intp dims[3]={k.n,k.n,k.n}; ((PyUFuncGenericFunction)k.fn)(args,dims,k.steps,k.data); break; }
      case 1: k.ret=((PyArray_SortFunc*)k.fn)(k.p[0],k.n,k.arr); break;
      case 2: k.ret=((PyArray_ArgSortFunc*)k.fn)(k.p[0],(npy_intp*)k.p[1],k.n,k.arr); break;
      case 3: k.ret=((PyArray_FillFunc*)k.fn)(k.p[0],k.n,k.arr); break;
      case 4: { npy_intp r=0; k.ret=((PyArray_ArgFunc*)k.fn)(k.p[0],k.n,&r,k.arr); *(npy_intp*)k.p[1]=r; break; }
      case 5: *(volatile int*)k.p[0]=(int)k.n; break;
      case 6: { // one of pnumpy's switch functions; they only touch immortal or small objects
        if(!ts) ts=PyThreadState_New(PyInterpreterState_Main());
        g_nopre++; PyEval_RestoreThread(ts); PyObject*r=((PyCFunction)k.fn)(nullptr,(PyObject*)k.arr); k.ret= r==nullptr?-1:r==Py_True?1:r==Py_False?0:r==Py_None?2:3; if(!r) PyErr_Clear(); PyEval_SaveThread(); g_nopre--; break; }
    }
    k.t1=g_clock; k.done=true; shm->probes[PR_CONCURRENT]++; point(12,(void*)g_mod_base); }
  return nullptr; }

// ---------------------------------------------------------------- python API
static int cb_phdr(struct dl_phdr_info*i,size_t,void*){ if(i->dlpi_name&&strstr(i->dlpi_name,"_pnumpy.abi3.so")){ g_mod_base=i->dlpi_addr; for(int k=0;k<i->dlpi_phnum;k++){ auto&p=i->dlpi_phdr[k]; if(p.p_type==PT_LOAD){ up lo=i->dlpi_addr+p.p_vaddr, hi=lo+p.p_memsz; if(hi>g_mod_end) g_mod_end=hi; if(p.p_flags&PF_W){ g_mod_lo=lo; g_mod_len=hi-lo; } } } } return 0; }

static std::vector<Dec>* g_replay=nullptr;
static void attach_replay(Th*t){ t->rd=nullptr;t->rdd=nullptr;t->rc=t->rcd=0; if(!C.replay||!g_replay) return; t->rd=new std::vector<Dec>(); t->rdd=new std::vector<Dec>(); for(auto&d:*g_replay) if(d.tid==(u32)t->id){ if(d.kind==D_SW||d.kind==D_STALL||d.kind==D_SPUR) t->rd->push_back(d); if(d.kind==D_DATA) t->rdd->push_back(d);} 
  std::stable_sort(t->rd->begin(),t->rd->end(),[](const Dec&a,const Dec&b){return a.idx<b.idx;}); std::stable_sort(t->rdd->begin(),t->rdd->end(),[](const Dec&a,const Dec&b){return a.idx<b.idx;}); }

static double gd(PyObject*d,const char*k,double def){ PyObject*o=PyDict_GetItemString(d,k); return o&&o!=Py_None?PyFloat_AsDouble(o):def; }
static u64 gu(PyObject*d,const char*k,u64 def){ PyObject*o=PyDict_GetItemString(d,k); return o&&o!=Py_None?PyLong_AsUnsignedLongLongMask(o):def; }

// shm(fd-less): create shared anonymous memory of given decision capacity, before fork
static PyObject* py_shm_create(PyObject*,PyObject*a){ unsigned long long cap; if(!PyArg_ParseTuple(a,"K",&cap)) return nullptr; size_t n=sizeof(Shm)+cap*sizeof(Dec); void*m=mmap(nullptr,n,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(m==MAP_FAILED) return PyErr_NoMemory(); shm=(Shm*)m; shm->maxdec=cap; Py_RETURN_NONE; }
static PyObject* py_shm_reset(PyObject*,PyObject*){ u64 cap=shm->maxdec; memset((void*)shm,0,offsetof(Shm,cov)); shm->maxdec=cap; shm->hash=0xcbf29ce484222325ull; shm->schedhash=0xcbf29ce484222325ull; Py_RETURN_NONE; }
static PyObject* py_shm_read(PyObject*,PyObject*){ 
  PyObject*f=PyList_New(0); for(int i=0;i<14;i++){ PyObject*x=PyLong_FromUnsignedLongLong(shm->faults[i]); PyList_Append(f,x); Py_DECREF(x);} 
  PyObject*p=PyList_New(0); for(int i=0;i<8;i++){ PyObject*x=PyLong_FromUnsignedLongLong(shm->probes[i]); PyList_Append(p,x); Py_DECREF(x);} 
  return Py_BuildValue("{s:K,s:s,s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:N,s:N}","verdict",shm->verdict,"msg",shm->msg,"steps",shm->steps,"clock",shm->clockv,"switches",shm->switches,"sites",shm->sites,"hash",shm->hash,"schedhash",shm->schedhash,"pauses",shm->pauses,"datapoints",shm->datapoints,"ndec",shm->ndec,"overflow",shm->overflow,"opno",shm->opno,"faults",f,"probes",p); }
static PyObject* py_decisions(PyObject*,PyObject*){ PyObject*l=PyList_New(shm->ndec); for(u64 i=0;i<shm->ndec;i++){ Dec&d=shm->dec[i]; PyList_SET_ITEM(l,i,Py_BuildValue("(IIKK)",d.kind,d.tid,d.idx,d.val)); } return l; }
static PyObject* py_cov(PyObject*,PyObject*){ return PyBytes_FromStringAndSize((char*)shm->cov,sizeof shm->cov); }

static PyObject* py_config(PyObject*,PyObject*a){ PyObject*d; PyObject*dec=Py_None; if(!PyArg_ParseTuple(a,"O!|O",&PyDict_Type,&d,&dec)) return nullptr;
  memset(&C,0,sizeof C); C.seed=gu(d,"seed",1); C.mode=(int)gu(d,"mode",0); C.p_switch=gd(d,"p_switch",0.1); C.p_data=gd(d,"p_data",0); C.p_stall=gd(d,"p_stall",0); C.p_spur=gd(d,"p_spur",0); C.p_eintr=gd(d,"p_eintr",0); C.p_latewake=gd(d,"p_latewake",0); C.p_never=gd(d,"p_never",0); C.p_wakeorder=gd(d,"p_wakeorder",0); C.p_mainfirst=gd(d,"p_mainfirst",0);
  C.stall_lo=gu(d,"stall_lo",10); C.stall_hi=gu(d,"stall_hi",2000); if(C.stall_hi<C.stall_lo) C.stall_hi=C.stall_lo; C.pct_depth=(int)gu(d,"pct_depth",3); C.ncpu=(int)gu(d,"ncpu",8); C.aff=(int)gu(d,"aff",0); C.create_fail=gu(d,"create_fail",0); C.p_mallocfail=gd(d,"p_mallocfail",0); C.p_npfail=gd(d,"p_npfail",0);
  R.s=C.seed*0x2545F4914F6CDD1Dull+12345; g_step_cap=gu(d,"step_cap",g_step_cap); g_spin_cap=gu(d,"spin_cap",g_spin_cap);
  if(dec!=Py_None){ C.replay=true; g_replay=new std::vector<Dec>(); rp_misc=new std::map<u64,u64>(); PyObject*it=PyObject_GetIter(dec); PyObject*x; while((x=PyIter_Next(it))){ Dec q; unsigned k,t; unsigned long long i,v; if(!PyArg_ParseTuple(x,"IIKK",&k,&t,&i,&v)) return nullptr; q.kind=k;q.tid=t;q.idx=i;q.val=v; g_replay->push_back(q); (*rp_misc)[mk(k,t,i)]=v; Py_DECREF(x);} Py_DECREF(it);} 
  cd_switch=R.gap(C.p_switch); cd_stall=R.gap(C.p_stall); cd_data=R.gap(C.p_data); cd_spur=R.gap(C.p_spur);
  if(C.mode==1){ u64 horizon=gu(d,"pct_horizon",3000); for(int i=0;i<C.pct_depth;i++) pct_pts.push_back(1+R.next()%horizon); std::sort(pct_pts.rbegin(),pct_pts.rend()); }
  // main thread
  pthread_attr_t at; pthread_getattr_np(pthread_self(),&at); void*sa; size_t ss; pthread_attr_getstack(&at,&sa,&ss); pthread_attr_destroy(&at);
  g_main_hi=(up)sa+ss; g_main_lo=g_main_hi-(64ull<<20); if(g_main_lo<(up)sa) g_main_lo=(up)sa;
  Th*m=&th[0]; memset((void*)m,0,sizeof *m); m->id=0; m->kind=0; m->state=S_RUN; m->stk_lo=g_main_lo; m->stk_len=g_main_hi-g_main_lo; m->prio=C.mode==1?1+(int)R.below(1000):0; nth=1; cur=m; attach_replay(m);
  ar_init(); g_init=true; g_on=false; g_configured=true;
  struct sigaction s; memset(&s,0,sizeof s); s.sa_sigaction=on_segv; s.sa_flags=SA_SIGINFO|SA_ONSTACK; static char alt[65536]; stack_t ss2; ss2.ss_sp=alt; ss2.ss_size=sizeof alt; ss2.ss_flags=0; sigaltstack(&ss2,nullptr);
  sigaction(SIGSEGV,&s,nullptr); sigaction(SIGBUS,&s,nullptr); sigaction(SIGILL,&s,nullptr); sigaction(SIGFPE,&s,nullptr); sigaction(SIGABRT,&s,nullptr);
  Py_RETURN_NONE; }
static PyObject* py_ready(PyObject*,PyObject*){ dl_iterate_phdr(cb_phdr,nullptr); g_init=false; if(!g_mod_len||g_mod_len==0){ PyErr_SetString(PyExc_RuntimeError,"pnumpy module not found"); return nullptr;} return Py_BuildValue("i",nth-1); }
static PyObject* py_begin(PyObject*,PyObject*a){ unsigned long long op=0; int fail=0; if(!PyArg_ParseTuple(a,"|Ki",&op,&fail)) return nullptr; shm->opno=op; g_op_steps=0; g_spin=0; g_failalloc=fail!=0; g_failnp=fail==1; g_on=true; Py_RETURN_NONE; }
static PyObject* py_end(PyObject*,PyObject*){ g_on=false; g_failalloc=g_failnp=false; shm->clockv=g_clock; Py_RETURN_NONE; }
// let the other threads run for up to n hand-overs while the main thread does something else
static PyObject* py_idle(PyObject*,PyObject*a){ int n; int force=0; if(!PyArg_ParseTuple(a,"i|p",&n,&force)) return nullptr; g_on=true; g_op_steps=0; g_nopre=0;
  PyThreadState*ts=PyEval_SaveThread();
  for(int i=0;i<n;i++){ bool any=false; for(int k=1;k<nth;k++) if(force? (runnable(&th[k])&&!th[k].hardstall) : ready(&th[k])) any=true; if(!any) break; shm->probes[PR_IDLEWORK]++; forced((void*)g_mod_base,true);} 
  th[0].needgil=false; PyEval_RestoreThread(ts); g_on=false; shm->clockv=g_clock; Py_RETURN_NONE; }
// quiesce: run everything that can still run (stalls end) until all others are blocked
static PyObject* py_quiesce(PyObject*,PyObject*){ g_on=true; g_op_steps=0; PyThreadState*ts=PyEval_SaveThread(); for(u64 i=0;;i++){ bool any=false; for(int k=1;k<nth;k++) if(th[k].state==S_RUN && !th[k].hardstall) any=true; if(!any) break; if(i>200000) verdict(V_LIVELOCK,"worker threads never go back to sleep"); forced((void*)g_mod_base,true);} PyEval_RestoreThread(ts); g_on=false; Py_RETURN_NONE; }
// spurious futex return for one random/blocked worker
static PyObject* py_spurious(PyObject*,PyObject*a){ int n; if(!PyArg_ParseTuple(a,"i",&n)) return nullptr; int c=0; for(int k=1;k<nth&&c<n;k++) if(th[k].state==S_FUTEX && th[k].kind==1){ wake_thread(&th[k],0,0); shm->faults[F_SPUR]++; c++; } return Py_BuildValue("i",c); }
// release workers that were never scheduled (they finally get a CPU)
static PyObject* py_release(PyObject*,PyObject*){ int c=0; for(int k=1;k<nth;k++) if(th[k].stall_until>g_clock){ th[k].stall_until=0; th[k].hardstall=false; c++; } return Py_BuildValue("i",c); }
static PyObject* py_setp(PyObject*,PyObject*a){ const char*k; double v; if(!PyArg_ParseTuple(a,"sd",&k,&v)) return nullptr; 
  if(!strcmp(k,"utc")){ g_utc=(long long)v; shm->faults[F_TIMEJUMP]++; Py_RETURN_NONE; }
  if(!strcmp(k,"p_stall")){ C.p_stall=v; cd_stall=R.gap(v);} else if(!strcmp(k,"p_never")) C.p_never=v; else if(!strcmp(k,"p_latewake")) C.p_latewake=v; else if(!strcmp(k,"p_switch")){ C.p_switch=v; cd_switch=R.gap(v);} else if(!strcmp(k,"p_mallocfail")) C.p_mallocfail=v; else if(!strcmp(k,"p_npfail")) C.p_npfail=v; else if(!strcmp(k,"p_data")){ C.p_data=v; cd_data=R.gap(v);} else if(!strcmp(k,"p_spur")){ C.p_spur=v; cd_spur=R.gap(v);} else if(!strcmp(k,"p_eintr")) C.p_eintr=v; else { PyErr_SetString(PyExc_KeyError,k); return nullptr;} Py_RETURN_NONE; }
static PyObject* py_fault(PyObject*,PyObject*a){ int k; if(!PyArg_ParseTuple(a,"i",&k)) return nullptr; if(k>=0&&k<32) shm->faults[k]++; Py_RETURN_NONE; }
static PyObject* py_probe(PyObject*,PyObject*a){ int k; if(!PyArg_ParseTuple(a,"i",&k)) return nullptr; if(k>=0&&k<32) shm->probes[k]++; Py_RETURN_NONE; }
// after fork(): only the forking thread exists
static PyObject* py_after_fork(PyObject*,PyObject*){ for(int k=1;k<nth;k++) th[k].state=S_DEAD; shm->faults[F_FORK]++; Py_RETURN_NONE; }
static PyObject* py_protect(PyObject*,PyObject*a){ unsigned long long p; int on; if(!PyArg_ParseTuple(a,"Kp",&p,&on)) return nullptr; if(!in_ar(p)) Py_RETURN_FALSE; up lo; Blk*b=ar_find(p,&lo); if(!b||b->freed) Py_RETURN_FALSE; b->prot=on; mprotect((void*)lo,b->map,on?PROT_NONE:PROT_READ|PROT_WRITE); Py_RETURN_TRUE; }
static PyObject* py_check(PyObject*,PyObject*){ for(auto&kv:*blocks) if(!kv.second.freed&&!kv.second.prot) ar_check(kv.first,&kv.second); Py_RETURN_NONE; }
static PyObject* py_handler(PyObject*,PyObject*){ PyObject*c=PyCapsule_New(&g_handler,"mem_handler",nullptr); PyObject*o=PyDataMem_SetHandler(c); Py_DECREF(c); if(!o) return nullptr; Py_DECREF(o); Py_RETURN_NONE; }
static PyObject* py_state(PyObject*,PyObject*){ int run=0,fut=0,st=0; for(int k=1;k<nth;k++){ if(th[k].state==S_RUN) run++; if(th[k].state==S_FUTEX) fut++; if(th[k].stall_until>g_clock) st++; } return Py_BuildValue("(iiiKKKll)",run,fut,st,g_clock,g_printf,g_wakeno,g_live,g_nplive); }
static PyObject* py_fail(PyObject*,PyObject*a){ const char*m; if(!PyArg_ParseTuple(a,"s",&m)) return nullptr; if(!shm->verdict){ shm->verdict=100; snprintf(shm->msg,sizeof shm->msg,"%s",m);} Py_RETURN_NONE; }
static void* ptr(PyObject*o){ return (void*)PyLong_AsUnsignedLongLong(o); }
// ufunc_loop(ufunc, typenums tuple) -> (fn, data)
static PyObject* py_ufunc_loop(PyObject*,PyObject*a){ PyObject*u; PyObject*ty; if(!PyArg_ParseTuple(a,"OO!",&u,&PyTuple_Type,&ty)) return nullptr; PyUFuncObject*f=(PyUFuncObject*)u; int n=(int)PyTuple_GET_SIZE(ty); for(int i=0;i<f->ntypes;i++){ bool ok=n==f->nargs; for(int k=0;k<n&&ok;k++) if(f->types[i*f->nargs+k]!=PyLong_AsLong(PyTuple_GET_ITEM(ty,k))) ok=false; if(ok) return Py_BuildValue("(KK)",(u64)f->functions[i],(u64)(f->data?f->data[i]:nullptr)); } Py_RETURN_NONE; }
static PyObject* py_dtype_fn(PyObject*,PyObject*a){ PyObject*d; const char*k; int i; if(!PyArg_ParseTuple(a,"Osi",&d,&k,&i)) return nullptr; PyArray_ArrFuncs*f=((PyArray_Descr*)d)->f; void*p=nullptr; if(!strcmp(k,"sort")) p=(void*)f->sort[i]; else if(!strcmp(k,"argsort")) p=(void*)f->argsort[i]; else if(!strcmp(k,"fill")) p=(void*)f->fill; else if(!strcmp(k,"argmax")) p=(void*)f->argmax; else if(!strcmp(k,"argmin")) p=(void*)f->argmin; return PyLong_FromUnsignedLongLong((u64)p); }
static PyObject* py_cfunc(PyObject*,PyObject*a){ PyObject*o; if(!PyArg_ParseTuple(a,"O",&o)) return nullptr; if(!PyCFunction_Check(o)) { PyErr_SetString(PyExc_TypeError,"not a C function"); return nullptr; } return PyLong_FromUnsignedLongLong((u64)PyCFunction_GetFunction(o)); }
// spawn(list of (kind, fn, (p0,p1,p2), n, (s0,s1,s2), data, arrobj))
static PyObject* py_spawn(PyObject*,PyObject*a){ PyObject*l; if(!PyArg_ParseTuple(a,"O!",&PyList_Type,&l)) return nullptr; Client*c=new Client(); for(Py_ssize_t i=0;i<PyList_GET_SIZE(l);i++){ int kind; unsigned long long fn,p0,p1,p2,data; long long n,s0,s1,s2; PyObject*arr; if(!PyArg_ParseTuple(PyList_GET_ITEM(l,i),"iK(KKK)L(LLL)KO",&kind,&fn,&p0,&p1,&p2,&n,&s0,&s1,&s2,&data,&arr)) return nullptr; Call k; memset(&k,0,sizeof k); k.kind=kind;k.fn=(void*)fn;k.p[0]=(void*)p0;k.p[1]=(void*)p1;k.p[2]=(void*)p2;k.n=n;k.steps[0]=s0;k.steps[1]=s1;k.steps[2]=s2;k.data=(void*)data;k.arr=arr; Py_XINCREF(arr); c->calls.push_back(k);} clients.push_back(c); c->t=new_thread(2,client_main,c); attach_replay(c->t); return Py_BuildValue("i",(int)clients.size()-1); }
static PyObject* py_join(PyObject*,PyObject*a){ int i; if(!PyArg_ParseTuple(a,"i",&i)) return nullptr; Client*c=clients[i]; bool was=g_on; g_on=true; g_op_steps=0; PyThreadState*ts=PyEval_SaveThread(); while(c->t->state!=S_DONE) forced((void*)g_mod_base,true); PyEval_RestoreThread(ts); g_on=was; shm->clockv=g_clock; PyObject*l=PyList_New(0); for(auto&k:c->calls){ PyObject*x=Py_BuildValue("(iKK)",k.ret,k.t0,k.t1); PyList_Append(l,x); Py_DECREF(x);} return l; }
static PyObject* py_alive(PyObject*,PyObject*){ int n=0; for(auto c:clients) if(c->t->state!=S_DONE) n++; return Py_BuildValue("i",n); }
// install a raw poke of the settings while operations run: a client call of kind 5 writes an int
static PyMethodDef M[]={ {"shm_create",py_shm_create,METH_VARARGS,""},{"shm_reset",py_shm_reset,METH_NOARGS,""},{"shm_read",py_shm_read,METH_NOARGS,""},{"decisions",py_decisions,METH_NOARGS,""},{"cov",py_cov,METH_NOARGS,""},{"config",py_config,METH_VARARGS,""},{"ready",py_ready,METH_NOARGS,""},{"begin",py_begin,METH_VARARGS,""},{"end",py_end,METH_NOARGS,""},{"idle",py_idle,METH_VARARGS,""},{"quiesce",py_quiesce,METH_NOARGS,""},{"spurious",py_spurious,METH_VARARGS,""},{"release",py_release,METH_NOARGS,""},{"setp",py_setp,METH_VARARGS,""},{"fault",py_fault,METH_VARARGS,""},{"probe",py_probe,METH_VARARGS,""},{"after_fork",py_after_fork,METH_NOARGS,""},{"protect",py_protect,METH_VARARGS,""},{"check",py_check,METH_NOARGS,""},{"handler",py_handler,METH_NOARGS,""},{"state",py_state,METH_NOARGS,""},{"fail",py_fail,METH_VARARGS,""},{"ufunc_loop",py_ufunc_loop,METH_VARARGS,""},{"dtype_fn",py_dtype_fn,METH_VARARGS,""},{"spawn",py_spawn,METH_VARARGS,""},{"join",py_join,METH_VARARGS,""},{"cfunc",py_cfunc,METH_VARARGS,""},{"alive",py_alive,METH_NOARGS,""},{nullptr,nullptr,0,nullptr}};
static PyModuleDef md={PyModuleDef_HEAD_INIT,"simrt","",-1,M};
PyMODINIT_FUNC PyInit_simrt(void){ import_array(); import_umath(); return PyModule_Create(&md); }
