#include <locale>
// Runtime of the symbolic executor. Values: Node* shadows (NULL = the concrete value is the value).
// Paths are explored by fork(); the solver is z3. Statistics live in shared memory.
#include <z3.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <algorithm>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <semaphore.h>
#include <time.h>
#include <malloc.h>
#include <execinfo.h>
using std::string; using std::vector;

enum Kind : uint8_t { K_BOOL, K_BV, K_REAL, K_AGG, K_MIX };
struct Slice { struct Node*n; uint8_t idx; uint8_t c; };
struct Node { Kind k; uint8_t bits; Z3_ast a; vector<Node*> agg; vector<Slice> mix; bool isnum=false; double num=0; };
#define FLT 0x40

// ------------------------------------------------------------------ shared state
struct Shared {
  sem_t tok; volatile long paths,infeasible,forks,queries,unknown,asserts,proved,closes,lra,nla,sampled,viol,incomplete,witness,escapes,solver_us,ended,branches,unproved,syntactic,procs;
  volatile long fnct; void* volatile fns[4096]; volatile int stop; long seed;
  char notes[200][160]; volatile int nnotes; sem_t nlock; char reach[64][64]; volatile int nreach; char uq[100][160]; volatile int nuq; char vm[200][200]; int vc[200]; volatile int nvm; };
static Shared*sh; static string outdir; static double deadline; static long maxbr=20000; static int debug;
static long qrl=3000000; static double qsec=20; static int maxviol=40;
static Z3_context C; static Z3_solver S; static Z3_sort BOOL,REAL,INT; static Z3_model curm; static bool mstale=true;
static vector<Z3_ast> pc; static long brcount; static vector<pid_t> kids; static bool holdtok=true;
static double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static void note(const char*fmt,...){ char b[160]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  sem_wait(&sh->nlock); bool f=false; for(int i=0;i<sh->nnotes;i++) if(!strcmp(sh->notes[i],b)) f=true;
  if(!f&&sh->nnotes<200){ strcpy(sh->notes[sh->nnotes],b); sh->nnotes=sh->nnotes+1; if(debug) fprintf(stderr,"[note] %s\n",b); } sem_post(&sh->nlock); }
static void uq(const char*m){ char b[160]; snprintf(b,sizeof b,"%s",m); sem_wait(&sh->nlock); bool f=false; for(int i=0;i<sh->nuq;i++) if(!strcmp(sh->uq[i],b)) f=true;
  if(!f&&sh->nuq<100){ strcpy(sh->uq[sh->nuq],b); sh->nuq=sh->nuq+1; } sem_post(&sh->nlock); }
#define ADD(f,n) __atomic_add_fetch((long*)&sh->f,(long)(n),__ATOMIC_RELAXED)
[[noreturn]] static void pathend(){ ADD(ended,1);
  fflush(NULL);
  if(holdtok) sem_post(&sh->tok);
  for(pid_t k:kids){ int st; while(waitpid(k,&st,0)<0&&errno==EINTR); if(WIFSIGNALED(st)) { ADD(incomplete,1); note("worker killed by signal %d",WTERMSIG(st)); } }
  _exit(0); }
[[noreturn]] static void incomplete(const char*why){ ADD(incomplete,1); note("incomplete: %s",why); if(debug){ void*b[40]; int n=backtrace(b,40); backtrace_symbols_fd(b,n,2);} pathend(); }

// ------------------------------------------------------------------ inputs
struct Input { string name; int kind; Z3_ast a; int bits; }; // kind 0 int,1 double
static vector<Input> inputs; static std::map<string,int> incount;
struct Bnd { double lo,hi; }; static std::unordered_map<unsigned,Bnd> bnd; // by ast id
static std::vector<std::pair<string,string>> fixedin; // concretised record of extra choices

static void onerr(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); void*b[40]; int n=backtrace(b,40); if(debug) backtrace_symbols_fd(b,n,2); incomplete("z3 error"); }

static Node*mk(Kind k,unsigned bits,Z3_ast a){ Node*n=new Node; n->k=k;n->bits=bits;n->a=a; return n; }
static Z3_ast numr(double d){ static std::map<uint64_t,Z3_ast> cache; uint64_t u; memcpy(&u,&d,8); auto it=cache.find(u); if(it!=cache.end()) return it->second;
  char b[1500]; int p=snprintf(b,sizeof b,"%.1100f",d); if(strchr(b,'.')){ while(b[p-1]=='0') b[--p]=0; if(b[p-1]=='.') b[--p]=0; }
  Z3_ast a=Z3_mk_numeral(C,b,REAL); cache[u]=a; return a; }
static Node*rnum(double d){ Node*n=mk(K_REAL,64,nullptr); n->isnum=true; n->num=d; return n; }
static Z3_ast ra(Node*n){ if(n->isnum&&!n->a){ if(!std::isfinite(n->num)) incomplete("non-finite constant mixed with symbolic value"); n->a=numr(n->num);} return n->a; }
static Z3_ast bvc(uint64_t v,unsigned w){ if(w<64) v&=((1ull<<w)-1); return Z3_mk_unsigned_int64(C,v,Z3_mk_bv_sort(C,w)); }
static Z3_ast btrue,bfalse;
static bool isapp(Z3_ast a,Z3_decl_kind k){ return Z3_get_ast_kind(C,a)==Z3_APP_AST&&Z3_get_decl_kind(C,Z3_get_app_decl(C,Z3_to_app(C,a)))==k; }
static Z3_ast band(Z3_ast a,Z3_ast b){ if(a==btrue) return b; if(b==btrue) return a; if(a==bfalse||b==bfalse) return bfalse; Z3_ast x[2]={a,b}; return Z3_mk_and(C,2,x); }
static Z3_ast bor(Z3_ast a,Z3_ast b){ if(a==bfalse) return b; if(b==bfalse) return a; if(a==btrue||b==btrue) return btrue; Z3_ast x[2]={a,b}; return Z3_mk_or(C,2,x); }
static Z3_ast bnot(Z3_ast a){ if(a==btrue) return bfalse; if(a==bfalse) return btrue; if(isapp(a,Z3_OP_NOT)) return Z3_get_app_arg(C,Z3_to_app(C,a),0); return Z3_mk_not(C,a); }
static Node*bnode(Z3_ast a){ return mk(K_BOOL,1,a); }
static Node*bvnode(Z3_ast a,unsigned w){ if(w==1) return bnode(Z3_mk_eq(C,a,bvc(1,1))); return mk(K_BV,w,a); }
[[noreturn]] static void unsup(const char*w){ ADD(escapes,1); char b[150]; snprintf(b,sizeof b,"unsupported: %s",w); incomplete(b); }
static Z3_ast bytesum(Node*n,unsigned w);
// integer view of (concrete v, shadow s) with width w
static Z3_ast iv(uint64_t v,Node*s,unsigned w){
  if(!s) return bvc(v,w);
  if(s->k==K_BV){ if(s->bits!=w) unsup("width mismatch"); return s->a; }
  if(s->k==K_BOOL){ Z3_ast r=Z3_mk_ite(C,s->a,bvc(1,w),bvc(0,w)); return r; }
  if(s->k==K_MIX) return bytesum(s,w);
  unsup("integer operation on the bits of a symbolic double"); }
static Z3_ast bv1(bool v,Node*s){ if(!s) return v?btrue:bfalse; if(s->k==K_BOOL) return s->a; if(s->k==K_BV) return Z3_mk_eq(C,s->a,bvc(1,s->bits)); unsup("bool view"); }
static Z3_ast rv(double v,Node*s){ if(!s){ if(!std::isfinite(v)) incomplete("non-finite constant mixed with symbolic value"); return numr(v);} if(s->k!=K_REAL) unsup("double view of integer bytes"); return ra(s); }
static bool isc(double v,Node*s,double&o){ if(!s){o=v;return true;} if(s->k==K_REAL&&s->isnum){o=s->num;return true;} return false; }

// ------------------------------------------------------------------ solver
static void addpc(Z3_ast c){ pc.push_back(c); Z3_solver_assert(C,S,c); }
static void onalarm(int){ if(C) Z3_interrupt(C); }
static void watchdog(double s){ static bool set=false; if(!set){ set=true; struct sigaction a; memset(&a,0,sizeof a); a.sa_handler=onalarm; a.sa_flags=SA_RESTART; sigaction(SIGALRM,&a,nullptr); } struct itimerval v; memset(&v,0,sizeof v); v.it_value.tv_sec=(long)s; v.it_value.tv_usec=(long)((s-(long)s)*1e6); if(s>0){ v.it_interval.tv_sec=1; } setitimer(ITIMER_REAL,&v,nullptr); }
// the solver prints numbers through the locale of the process, which the program under test may have replaced
struct PlainLocale { std::locale old; PlainLocale():old(std::locale::global(std::locale::classic())){} ~PlainLocale(){ std::locale::global(old); } };
static Z3_lbool chk(Z3_ast*as,unsigned n){ PlainLocale pl; ADD(queries,1); double t=now(); watchdog(8); Z3_lbool r=Z3_solver_check_assumptions(C,S,n,as); watchdog(0); ADD(solver_us,(now()-t)*1e6); if(r==Z3_L_UNDEF) ADD(unknown,1); return r; }
static void setmodel(Z3_model m){ Z3_model_inc_ref(C,m); if(curm) Z3_model_dec_ref(C,curm); curm=m; }
static bool ensure_model(){ if(!mstale&&curm) return true; Z3_lbool r=chk(nullptr,0); if(r==Z3_L_TRUE){ setmodel(Z3_solver_get_model(C,S)); mstale=false; return true; }
  if(r==Z3_L_FALSE){ ADD(infeasible,1); pathend(); } return false; }
static int meval(Z3_ast c){ Z3_ast r; if(!curm||mstale) return -1; if(!Z3_model_eval(C,curm,c,true,&r)) return -1; Z3_lbool b=Z3_get_bool_value(C,r); return b==Z3_L_TRUE?1:b==Z3_L_FALSE?0:-1; }

// ------------------------------------------------------------------ forking
static void resettimer(){ struct itimerval t{}; double left=deadline-now(); if(left<0.01) left=0.01; t.it_value.tv_sec=(long)left+2; setitimer(ITIMER_REAL,&t,nullptr); }
// returns true in the child
static bool dofork(){
  ADD(forks,1);
  if(sem_trywait(&sh->tok)==0){ fflush(NULL); pid_t p=fork(); if(p<0){ sem_post(&sh->tok); incomplete("fork failed"); }
    if(p==0){ kids.clear(); holdtok=true; resettimer(); return true; } kids.push_back(p); 
    return false; }
  fflush(NULL); pid_t p=fork(); if(p<0) incomplete("fork failed");
  if(p==0){ kids.clear(); holdtok=false; resettimer(); return true; }
  int st; while(waitpid(p,&st,0)<0&&errno==EINTR); if(WIFSIGNALED(st)){ ADD(incomplete,1); note("worker killed by signal %d",WTERMSIG(st)); }
  return false; }
static void tick(){ if(sh->stop) incomplete("stopped"); if(now()>deadline) incomplete("time budget of the run exhausted"); if(++brcount>maxbr) incomplete("branch bound per path"); }

static bool decide(Z3_ast c){
  if(c==btrue) return true; if(c==bfalse) return false;
  Z3_ast s=Z3_simplify(C,c); Z3_lbool b=Z3_get_bool_value(C,s); if(b==Z3_L_TRUE) return true; if(b==Z3_L_FALSE) return false;
  c=s; tick(); ADD(branches,1);
  Z3_ast nc=bnot(c);
  int m=ensure_model()?meval(c):-1;
  bool t,f; Z3_model mt=nullptr,mf=nullptr;
  if(m==1) t=true; else { Z3_lbool r=chk(&c,1); t=r!=Z3_L_FALSE; if(r==Z3_L_TRUE){ mt=Z3_solver_get_model(C,S); Z3_model_inc_ref(C,mt);} }
  if(m==0) f=true; else { Z3_lbool r=chk(&nc,1); f=r!=Z3_L_FALSE; if(r==Z3_L_TRUE){ mf=Z3_solver_get_model(C,S); Z3_model_inc_ref(C,mf);} }
  if(!t&&!f){ ADD(infeasible,1); pathend(); }
  if(t&&f){
    if(dofork()){ addpc(nc); if(m==0); else if(mf) setmodel(mf); else mstale=true; return false; }
    addpc(c); if(m==1); else if(mt) setmodel(mt); else mstale=true; return true; }
  if(t){ if(mt) setmodel(mt); return true; } 
  if(mf) setmodel(mf); return false; }
static void assume(Z3_ast c){ Z3_ast s=Z3_simplify(C,c); Z3_lbool b=Z3_get_bool_value(C,s); if(b==Z3_L_TRUE) return; if(b==Z3_L_FALSE){ ADD(infeasible,1); pathend(); }
  if(meval(s)!=1) mstale=true; addpc(s); }

static string where();
// enumerate the value of a bit-vector/int term
static int64_t enumerate(Z3_ast a,bool isint,unsigned w,bool sgn){
  Z3_ast s=Z3_simplify(C,a); int64_t v; uint64_t u;
  if(isint){ if(Z3_is_numeral_ast(C,s)&&Z3_get_numeral_int64(C,s,&v)) return v; }
  else if(Z3_is_numeral_ast(C,s)&&Z3_get_numeral_uint64(C,s,&u)) return (int64_t)u;
  for(int k=0;;k++){
    tick(); if(k>300){ string w="more than 300 values for a concretised term in "+where(); incomplete(w.c_str()); }
    if(!ensure_model()) incomplete("solver gave up while concretising");
    Z3_ast r; if(!Z3_model_eval(C,curm,s,true,&r)) incomplete("model eval");
    Z3_ast eq=Z3_mk_eq(C,s,r), ne=Z3_mk_not(C,eq);
    if(isint){ if(!Z3_get_numeral_int64(C,r,&v)) incomplete("integer value out of range"); } else { if(!Z3_get_numeral_uint64(C,r,&u)) incomplete("bv value"); v=(int64_t)u; }
    Z3_lbool other=chk(&ne,1);
    if(other==Z3_L_FALSE){ return v; }
    Z3_model om=nullptr; if(other==Z3_L_TRUE){ om=Z3_solver_get_model(C,S); Z3_model_inc_ref(C,om);} 
    if(dofork()){ addpc(eq); return v; }
    addpc(ne); if(om) setmodel(om); else mstale=true; } }

// ------------------------------------------------------------------ memory shadow
struct Page { Node*n[4096]; uint8_t idx[4096]; uint8_t poison[4096]; };
static std::unordered_map<uint64_t,Page*>&pages=*new std::unordered_map<uint64_t,Page*>; static bool pgok; static uint64_t lastpg=~0ull; static Page*lastp;
static Page*pg(uint64_t a,bool c){ uint64_t p=a>>12; if(p==lastpg) { if(lastp||!c) return lastp; } auto it=pages.find(p); Page*r=it==pages.end()?nullptr:it->second; if(!r&&c){ r=(Page*)calloc(1,sizeof(Page)); pgok=false; pages[p]=r; pgok=true; } lastpg=p; lastp=r; return r; }
static inline Node*shat(uint64_t a,uint8_t&i){ Page*p=pg(a,false); if(!p){i=0;return nullptr;} i=p->idx[a&4095]; return p->n[a&4095]; }
static inline void shset(uint64_t a,Node*n,uint8_t i){ Page*p=pg(a,n!=nullptr); if(!p) return; p->n[a&4095]=n; p->idx[a&4095]=i; }
static void shclear(uint64_t a,uint64_t n){ while(n){ uint64_t o=a&4095,k=std::min<uint64_t>(4096-o,n); Page*p=pg(a,false); if(p) memset(&p->n[o],0,k*sizeof(Node*)); a+=k;n-=k; } }
static bool shany(uint64_t a,uint64_t n){ while(n){ uint64_t o=a&4095,k=std::min<uint64_t>(4096-o,n); Page*p=pg(a,false); if(p) for(uint64_t i=0;i<k;i++) if(p->n[o+i]) return true; a+=k;n-=k; } return false; }
static void poison(uint64_t a,uint64_t n,uint8_t v){ while(n){ uint64_t o=a&4095,k=std::min<uint64_t>(4096-o,n); Page*p=pg(a,true); memset(&p->poison[o],v,k); a+=k;n-=k; } }
static Z3_ast sliceast(const Slice&s){ if(!s.n) return bvc(s.c,8); Node*n=s.n; if(n->k==K_BV){ unsigned i=s.idx&0x3f; return n->bits==8?n->a:Z3_mk_extract(C,i*8+7,i*8,n->a); } if(n->k==K_BOOL) return Z3_mk_ite(C,n->a,bvc(1,8),bvc(0,8));
  if(n->k==K_REAL){ // the bits of a real are opaque
    static std::map<Z3_ast,Z3_ast> bits; Z3_ast&b=bits[n->a]; if(!b){ char t[40]; static int k=0; snprintf(t,40,"bits!%d",k++); b=Z3_mk_const(C,Z3_mk_string_symbol(C,t),Z3_mk_bv_sort(C,64)); } unsigned i=s.idx&0x3f; return Z3_mk_extract(C,i*8+7,i*8,b); }
  unsup("byte of a symbolic double used as integer"); }
static Z3_ast bytesum(Node*n,unsigned w){ Z3_ast r=sliceast(n->mix[0]); for(size_t i=1;i<n->mix.size();i++) r=Z3_mk_concat(C,sliceast(n->mix[i]),r); unsigned have=n->mix.size()*8; if(have>w) r=Z3_mk_extract(C,w-1,0,r); return r; }

// races
static int raceon=0,racetid=0; struct Acc{ int w=-1,r=-1; }; static std::unordered_map<uint64_t,Acc> races; static uint64_t stklo,stkhi;
static void violation(const char*kind,const string&msg,Z3_model m);
static void vio_here(const char*kind,const string&msg){ Z3_model m=nullptr; if(ensure_model()) m=curm; violation(kind,msg,m); }
static int memcheck=1; static bool inpar=false;
static std::map<uint64_t,uint64_t> fnames;
extern "C" int main(int,char**);
static string where(){ void*b[48]; int n=backtrace(b,48); string s; Dl_info ex; dladdr((void*)main,&ex); int k=0; for(int i=1;i<n&&k<14;i++){ Dl_info d; if(dladdr(b[i],&d)&&d.dli_fbase==ex.dli_fbase){ char t[40]; snprintf(t,40,"+%lx<",(unsigned long)((char*)b[i]-1-(char*)d.dli_fbase)); s+=t; k++; } } return s; }
extern "C" {
Node* __sym_args[64]; void*__sym_callee; static Node*zeros[64]; static void*retF; static Node*retv; 
void sym_init_check();
Node** __sym_enter(void*F){
  static void*last; if(F!=last){ last=F; static std::set<void*> seen; if(seen.insert(F).second){ bool f=false; long n=sh->fnct; for(long i=0;i<n&&i<4096;i++) if(sh->fns[i]==F){f=true;break;} if(!f){ long i=ADD(fnct,1)-1; if(i<4096) sh->fns[i]=F; } } }
  if(__sym_callee==F){ __sym_callee=nullptr; return __sym_args; } return zeros; }
void __sym_setret(void*F,Node*s){ retF=F; retv=s; }
Node* __sym_getret(void*F){ if(retF==F){ retF=nullptr; return retv; } return nullptr; }
void __sym_calldone(void*F){ if(__sym_callee==F){ __sym_callee=nullptr; retF=nullptr; for(int i=0;i<12;i++) if(__sym_args[i]&&0){} Dl_info d; static std::set<void*> s; if(debug>1&&s.insert(F).second){ dladdr(F,&d); note("uninstrumented indirect call %s",d.dli_sname?d.dli_sname:"?"); } } }
Node* __sym_bin(int op,int w,uint64_t a,Node*sa,uint64_t b,Node*sb){
  if(!sa&&!sb) return nullptr;
  if(w==1){ Z3_ast x=bv1(a&1,sa),y=bv1(b&1,sb); switch(op){case 10:return bnode(band(x,y));case 11:return bnode(bor(x,y));case 0:case 1:case 12: if(y==btrue) return bnode(bnot(x)); if(x==btrue) return bnode(bnot(y)); if(y==bfalse) return bnode(x); if(x==bfalse) return bnode(y); return bnode(Z3_mk_xor(C,x,y)); default: unsup("i1 op");} }
  // sign-bit tricks on doubles
  for(int t=0;t<2;t++){ Node*s=t?sb:sa; Node*o=t?sa:sb; uint64_t c=t?a:b; if(s&&s->k==K_REAL&&!o&&w==64){
    if(op==12&&c==0x8000000000000000ull){ Node*r=mk(K_REAL,64,Z3_mk_unary_minus(C,ra(s))); return r; }
    if(op==10&&c==0x7fffffffffffffffull){ Z3_ast x=ra(s); return mk(K_REAL,64,Z3_mk_ite(C,Z3_mk_ge(C,x,numr(0)),x,Z3_mk_unary_minus(C,x))); } } }
  if(op==10){ if(!sa&&a==0) return mk(K_BV,w,bvc(0,w)); if(!sb&&b==0) return mk(K_BV,w,bvc(0,w)); }
  Z3_ast x=iv(a,sa,w),y=iv(b,sb,w),r;
  switch(op){case 0:r=Z3_mk_bvadd(C,x,y);break;case 1:r=Z3_mk_bvsub(C,x,y);break;case 2:r=Z3_mk_bvmul(C,x,y);break;
   case 3: case 4: case 5: case 6:{ Z3_ast z=Z3_mk_eq(C,y,bvc(0,w)); if(sb){ if(decide(z)){ vio_here("div0","integer division by zero"); pathend(); } }
     r= op==3?Z3_mk_bvudiv(C,x,y):op==4?Z3_mk_bvsdiv(C,x,y):op==5?Z3_mk_bvurem(C,x,y):Z3_mk_bvsrem(C,x,y); break; }
   case 7:r=Z3_mk_bvshl(C,x,y);break;case 8:r=Z3_mk_bvlshr(C,x,y);break;case 9:r=Z3_mk_bvashr(C,x,y);break;
   case 10:r=Z3_mk_bvand(C,x,y);break;case 11:r=Z3_mk_bvor(C,x,y);break;case 12:r=Z3_mk_bvxor(C,x,y);break; default: unsup("bin");}
  return mk(K_BV,w,r); }
static Node*rn(Z3_ast a){ return mk(K_REAL,64,a); }
static Z3_ast sqrtarg(Z3_ast y); typedef vector<std::pair<unsigned,int>> Mono; struct Poly { std::map<Mono,double> t; bool ok=true; }; static bool canon(Z3_ast a,Poly&p); static Z3_ast polyast(Poly&p); // polynomials over atoms
static std::set<Z3_ast> nneg; // terms that are sums of squares
static bool isnn(Z3_ast a){ return nneg.count(a)>0; }
static int tidyon=0; static Z3_ast tidy(Z3_ast t);
Node* __sym_fbin(int op,double a,Node*sa,double b,Node*sb){
  if(!sa&&!sb) return nullptr; double x,y; bool cx=isc(a,sa,x),cy=isc(b,sb,y);
  if(cx&&cy){ double r= op==0?x+y:op==1?x-y:op==2?x*y:op==3?x/y:fmod(x,y); return rnum(r); }
  if(op==0){ if(cx&&x==0) return sb; if(cy&&y==0) return sa; }
  if(op==1){ if(cy&&y==0) return sa; if(cx&&x==0) return rn(Z3_mk_unary_minus(C,ra(sb))); }
  if(op==2){ if((cx&&x==0)||(cy&&y==0)) return rnum(0); if(cx&&x==1) return sb; if(cy&&y==1) return sa; if(cx&&x==-1) return rn(Z3_mk_unary_minus(C,ra(sb))); if(cy&&y==-1) return rn(Z3_mk_unary_minus(C,ra(sa))); }
  if(op==3){ if(cx&&x==0&&!cy){ } if(cy){ if(y==1) return sa; if(std::isinf(y)) return rnum(0); if(y==0){ Z3_ast n=rv(a,sa); double i=std::signbit(y)?-INFINITY:INFINITY; if(decide(Z3_mk_gt(C,n,numr(0)))) return rnum(i); if(decide(Z3_mk_lt(C,n,numr(0)))) return rnum(-i); return rnum(NAN); } } }
  if(op==4) unsup("frem");
  bool np=cx&&x>=0,nq=cy&&y>=0; Z3_ast p=rv(x=a,sa),q=rv(y=b,sb); if(cx) p=rv(a,sa);
  if(op==2&&p==q){ Z3_ast w=sqrtarg(p); if(w) return rn(w); }
  Z3_ast t[2]={p,q}; auto nn=[&](Z3_ast r){ nneg.insert(r); return rn(r); }; if(!cx) np=isnn(p); if(!cy) nq=isnn(q);
  switch(op){case 0:{ Z3_ast r=tidy(Z3_mk_add(C,2,t)); return np&&nq?nn(r):rn(r); } case 1:return rn(tidy(Z3_mk_sub(C,2,t)));case 2:{ Z3_ast r=tidy(Z3_mk_mul(C,2,t)); return p==q||(np&&nq)?nn(r):rn(r); }
   default: if(!cy){ Z3_ast z=Z3_mk_eq(C,q,numr(0)); if(decide(z)){ ADD(incomplete,0); note("path with real division by zero cut (undefined result)"); pathend(); } }
    else { // exact reciprocal
      Z3_ast rc=Z3_simplify(C,Z3_mk_div(C,numr(1),q)); Z3_ast u[2]={rc,p}; return rn(tidy(Z3_mk_mul(C,2,u))); }
    if(tidyon&&!cx){ Poly P,Q; if(canon(p,P)&&canon(q,Q)&&Q.t.size()==1){ auto&qm=*Q.t.begin(); Poly R; bool ok=true; for(auto&t:P.t){ std::map<unsigned,int> w; for(auto&x:t.first) w[x.first]+=x.second; for(auto&x:qm.first) w[x.first]-=x.second; Mono m; for(auto&x:w){ if(x.second<0) ok=false; if(x.second>0) m.push_back({x.first,x.second}); } R.t[m]+=t.second/qm.second; } if(ok){ if(R.t.size()==1&&R.t.begin()->first.empty()) return rnum(R.t.begin()->second); return rn(polyast(R)); } } }
    return rn(Z3_mk_div(C,p,q)); } }
Node* __sym_fneg(Node*s){ if(!s) return nullptr; if(s->isnum) return rnum(-s->num); return rn(Z3_mk_unary_minus(C,ra(s))); }
Node* __sym_icmp(int pr,int w,uint64_t a,Node*sa,uint64_t b,Node*sb){
  if(!sa&&!sb) return nullptr;
  if(w==1){ Z3_ast x=bv1(a&1,sa),y=bv1(b&1,sb); switch(pr){case 32: if(y==btrue) return bnode(x); if(y==bfalse) return bnode(bnot(x)); return bnode(Z3_mk_iff(C,x,y));case 33: if(y==bfalse) return bnode(x); if(y==btrue) return bnode(bnot(x)); return bnode(Z3_mk_xor(C,x,y));
     case 34: return bnode(band(x,bnot(y))); case 36: return bnode(band(bnot(x),y)); default: unsup("i1 cmp");} }
  if(sa&&sa->k==K_REAL&&!sb&&w==64){ if(pr==40&&b==0) return bnode(Z3_mk_lt(C,ra(sa),numr(0))); if(pr==38&&b==~0ull) return bnode(Z3_mk_ge(C,ra(sa),numr(0))); if(b==0&&pr==32) return bnode(Z3_mk_eq(C,ra(sa),numr(0))); if(b==0&&pr==33) return bnode(bnot(Z3_mk_eq(C,ra(sa),numr(0)))); }
  if(sa==sb&&sa&&sa->k==K_REAL){ if(pr==32) return bnode(btrue); if(pr==33) return bnode(bfalse); }
  Z3_ast x=iv(a,sa,w),y=iv(b,sb,w);
  switch(pr){case 32:return bnode(Z3_mk_eq(C,x,y));case 33:return bnode(bnot(Z3_mk_eq(C,x,y)));case 34:return bnode(Z3_mk_bvugt(C,x,y));case 35:return bnode(Z3_mk_bvuge(C,x,y));
   case 36:return bnode(Z3_mk_bvult(C,x,y));case 37:return bnode(Z3_mk_bvule(C,x,y));case 38:return bnode(Z3_mk_bvsgt(C,x,y));case 39:return bnode(Z3_mk_bvsge(C,x,y));
   case 40:return bnode(Z3_mk_bvslt(C,x,y));case 41:return bnode(Z3_mk_bvsle(C,x,y));} unsup("icmp"); }
Node* __sym_fcmp(int pr,double a,Node*sa,double b,Node*sb){
  if(!sa&&!sb) return nullptr;
  bool un=pr>=8; int p=pr&7; // 1 eq 2 gt 3 ge 4 lt 5 le 6 ne 7 ord
  double x,y; bool cx=isc(a,sa,x),cy=isc(b,sb,y);
  auto cc=[&](double x,double y){ bool u=std::isnan(x)||std::isnan(y); bool r=((p&1)&&x==y)||((p&2)&&x>y)||((p&4)&&x<y); if(u) r=un; return bnode(r?btrue:bfalse); };
  if(pr==0) return bnode(bfalse); if(pr==15) return bnode(btrue);
  if(cx&&cy) return cc(x,y);
  if(cx&&!std::isfinite(x)) return cc(x,0); if(cy&&!std::isfinite(y)) return cc(0,y);
  if(pr==7) return bnode(btrue); if(pr==8) return bnode(bfalse);
  Z3_ast u=rv(a,sa),v=rv(b,sb);
  switch(p){case 1:return bnode(Z3_mk_eq(C,u,v));case 2:return bnode(Z3_mk_gt(C,u,v));case 3:return bnode(Z3_mk_ge(C,u,v));case 4:return bnode(Z3_mk_lt(C,u,v));
   case 5:return bnode(Z3_mk_le(C,u,v));case 6:return bnode(bnot(Z3_mk_eq(C,u,v)));} unsup("fcmp"); }
static Node*mixof(Node*s,unsigned nb){ Node*r=mk(K_MIX,nb*8,nullptr); for(unsigned i=0;i<nb;i++){ if(s->k==K_MIX) r->mix.push_back(s->mix[i]); else r->mix.push_back({s,(uint8_t)i,0}); } return r; }
Node* __sym_cast(int k,int from,int to,Node*s){
  if(!s) return nullptr;
  if(k==3||k==4){ if(s->k==K_REAL) return s; if(s->k==K_MIX){ Node*n=s->mix[0].n; bool all=n&&n->k==K_REAL; for(size_t i=0;i<s->mix.size();i++) if(s->mix[i].n!=n||(s->mix[i].idx&0x3f)!=i) all=false; if(all) return n; bool conc=true; uint64_t v=0; for(size_t i=0;i<s->mix.size();i++){ if(s->mix[i].n) conc=false; v|=(uint64_t)s->mix[i].c<<(8*i);} if(conc&&k==3){ double d; if(to==64) memcpy(&d,&v,8); else { float f; uint32_t u=v; memcpy(&f,&u,4); d=f;} return rnum(d);} }
    if(k==3&&s->k==K_BV){ Z3_ast t=Z3_simplify(C,s->a); uint64_t v; if(Z3_is_numeral_ast(C,t)&&Z3_get_numeral_uint64(C,t,&v)){ double d; if(to==64) memcpy(&d,&v,8); else { float f; uint32_t u=v; memcpy(&f,&u,4); d=f;} return rnum(d);} }
    unsup("bitcast int to double"); }
  if(k==0){ if(s->k==K_MIX||s->k==K_REAL){ if(to%8==0){ return mixof(s,to/8);} if(s->k==K_MIX){ Z3_ast e=bytesum(s,from); Z3_ast x=Z3_mk_extract(C,to-1,0,e); return bvnode(x,to);} }
    if(s->k==K_BOOL) return s; if(to==1) return bnode(Z3_mk_eq(C,Z3_mk_extract(C,0,0,s->a),bvc(1,1))); return mk(K_BV,to,Z3_mk_extract(C,to-1,0,iv(0,s,from))); }
  if(s->k==K_BOOL){ if(k==1) return mk(K_BV,to,Z3_mk_ite(C,s->a,bvc(1,to),bvc(0,to))); return mk(K_BV,to,Z3_mk_ite(C,s->a,bvc(~0ull,to),bvc(0,to))); }
  if(k==1&&(s->k==K_MIX||s->k==K_REAL)){ Node*r=mixof(s,from/8); while(r->mix.size()*8<(unsigned)to) r->mix.push_back({nullptr,0,0}); r->bits=to; return r; }
  Z3_ast x=iv(0,s,from); return mk(K_BV,to,k==1?Z3_mk_zero_ext(C,to-from,x):Z3_mk_sign_ext(C,to-from,x)); }
uint64_t __sym_conc(uint64_t v,Node*s,int w){ if(!s) return v;
  if(s->k==K_BOOL) return decide(s->a)?1:0;
  if(s->k==K_MIX){ bool conc=true; uint64_t u=0; for(size_t i=0;i<s->mix.size();i++){ if(s->mix[i].n) conc=false; u|=(uint64_t)s->mix[i].c<<(8*i);} if(conc) return u; }
  return (uint64_t)enumerate(iv(v,s,w),false,w,false); }
// load from a concrete table at a symbolic index: a term over the index instead of one path per index, if the table is small
Node* __sym_tab(uint8_t*base,Node*s,int w,int64_t stride,int nb){ if(!s||s->k!=K_BV||s->bits!=w||stride<=0) return nullptr; Z3_ast a=Z3_simplify(C,s->a); if(Z3_is_numeral_ast(C,a)) return nullptr;
  Z3_ast big=Z3_mk_bvugt(C,a,bvc(255,w)); if(chk(&big,1)!=Z3_L_FALSE) return nullptr; unsigned lo=0,hi=255; while(lo<hi){ unsigned m=(lo+hi)/2; Z3_ast g=Z3_mk_bvugt(C,a,bvc(m,w)); if(chk(&g,1)==Z3_L_FALSE) hi=m; else lo=m+1; }
  unsigned l=0,h=hi; while(l<h){ unsigned m=(l+h+1)/2; Z3_ast g=Z3_mk_bvult(C,a,bvc(m,w)); if(chk(&g,1)==Z3_L_FALSE) l=m; else h=m-1; }
  uint64_t b=(uint64_t)base+l*stride,n=(uint64_t)(hi-l)*stride+nb; for(uint64_t q=b;q<b+n;q++){ Page*p=pg(q,false); if(p&&p->poison[q&4095]) return nullptr; } if(shany(b,n)) return nullptr;
  auto val=[&](unsigned i){ uint64_t v=0; memcpy(&v,base+i*stride,nb); return v; };
  uint64_t cur=val(hi); Z3_ast r=bvc(cur,nb*8); for(int i=(int)hi-1;i>=(int)l;i--){ uint64_t v=val(i); if(v!=cur){ r=Z3_mk_ite(C,Z3_mk_bvule(C,a,bvc(i,w)),bvc(v,nb*8),r); cur=v; } }
  return mk(K_BV,nb*8,r); }
int64_t __sym_fptoi(int64_t v,Node*s,int w){ if(!s) return v; if(s->isnum) return (int64_t)s->num;
  Z3_ast x=ra(s),f=Z3_mk_real2int(C,x); Z3_ast nf=Z3_mk_unary_minus(C,Z3_mk_real2int(C,Z3_mk_unary_minus(C,x)));
  Z3_ast t=Z3_mk_ite(C,Z3_mk_ge(C,x,numr(0)),f,nf); return enumerate(t,true,w,true); }
int __sym_branch_i(int c,Node*s){ return decide(bv1(c,s)); }
bool __sym_branch(bool c,Node*s){ if(!s) return c; return decide(bv1(c,s)); }
Node* __sym_sel(bool c,Node*sc,int w,uint64_t a,Node*sa,uint64_t b,Node*sb){
  if(!sc) return c?(sa?sa:(sb?(w==1?bnode(a&1?btrue:bfalse):mk(K_BV,w,bvc(a,w))):nullptr)):(sb?sb:(sa?(w==1?bnode(b&1?btrue:bfalse):mk(K_BV,w,bvc(b,w))):nullptr));
  Z3_ast k=bv1(c,sc);
  auto op=[](Node*s){ return s&&(s->k==K_REAL||s->k==K_MIX); };
  if(op(sa)||op(sb)){ if(sa&&sb&&sa->k==K_REAL&&sb->k==K_REAL) return rn(Z3_mk_ite(C,k,ra(sa),ra(sb))); bool d=decide(k); if(d) return sa?sa:mk(K_BV,w,bvc(a,w)); return sb?sb:mk(K_BV,w,bvc(b,w)); }
  if(w==1){ Z3_ast x=bv1(a&1,sa),y=bv1(b&1,sb); if(y==bfalse) return bnode(band(k,x)); if(x==btrue) return bnode(bor(k,y)); if(x==bfalse&&y==btrue) return bnode(bnot(k)); return bnode(Z3_mk_ite(C,k,x,y)); }
  return mk(K_BV,w,Z3_mk_ite(C,k,iv(a,sa,w),iv(b,sb,w))); }
Node* __sym_fsel(bool c,Node*sc,double a,Node*sa,double b,Node*sb){
  if(!sc) return c?(sa?sa:(sb?rnum(a):nullptr)):(sb?sb:(sa?rnum(b):nullptr));
  Z3_ast k=bv1(c,sc); double x,y; if((isc(a,sa,x)&&!std::isfinite(x))||(isc(b,sb,y)&&!std::isfinite(y))){ if(decide(k)) return sa?sa:rnum(a); return sb?sb:rnum(b); }
  return rn(Z3_mk_ite(C,k,rv(a,sa),rv(b,sb))); }
Node* __sym_ldi(uint8_t*p,int nb,int bits){
  uint64_t a=(uint64_t)p; uint8_t i0; Node*n0=shat(a,i0); bool any=n0; bool same=n0&&(i0&0x3f)==0;
  uint8_t ix[8]; Node*ns[8]; ns[0]=n0; ix[0]=i0; for(int i=1;i<nb;i++){ ns[i]=shat(a+i,ix[i]); if(ns[i]) any=true; if(ns[i]!=n0||(ix[i]&0x3f)!=i) same=false; }
  if(!any) return nullptr;
  if(same&&(n0->k==K_REAL)&&nb==((i0&FLT)?4:8)) return n0;
  if(same&&n0->k==K_BV&&n0->bits==nb*8){ if(bits==nb*8) return n0; Z3_ast e=Z3_mk_extract(C,bits-1,0,n0->a); return bvnode(e,bits); }
  Node*r=mk(K_MIX,nb*8,nullptr); bool real=false; for(int i=0;i<nb;i++){ r->mix.push_back({ns[i],ix[i],p[i]}); if(ns[i]&&ns[i]->k==K_REAL) real=true; }
  if(real) return r; Z3_ast e=bytesum(r,nb*8); if(bits<nb*8){ e=Z3_mk_extract(C,bits-1,0,e); return bvnode(e,bits);} return mk(K_BV,nb*8,Z3_simplify(C,e)); }
Node* __sym_ldf(uint8_t*p,int nb){
  uint64_t a=(uint64_t)p; uint8_t i0; Node*n0=shat(a,i0); bool any=n0,same=n0&&(i0&0x3f)==0&&((i0&FLT)?4:8)==nb; uint8_t x;
  for(int i=1;i<nb;i++){ Node*n=shat(a+i,x); if(n) any=true; if(n!=n0||(x&0x3f)!=i) same=false; }
  if(!any) return nullptr; if(same&&n0->k==K_REAL) return n0;
  if(nb==8){ Node*r=__sym_ldi(p,8,64); return __sym_cast(3,64,64,r);} if(nb==4){ Node*r=__sym_ldi(p,4,32); return __sym_cast(3,32,32,r);} 
  unsup("double load of mixed bytes"); }
void __sym_sti(uint8_t*p,int nb,int bits,Node*s){
  uint64_t a=(uint64_t)p; if(!s){ shclear(a,nb); return; }
  if(s->k==K_BOOL) s=mk(K_BV,nb*8,Z3_mk_ite(C,s->a,bvc(1,nb*8),bvc(0,nb*8)));
  if(s->k==K_MIX){ for(int i=0;i<nb;i++){ if((size_t)i>=s->mix.size()){ shset(a+i,mk(K_BV,8,bvc(0,8)),0); continue;} Slice&l=s->mix[i]; if(l.n) shset(a+i,l.n,l.idx); else shset(a+i,mk(K_BV,8,bvc(l.c,8)),0); } return; }
  if(s->k==K_REAL){ for(int i=0;i<nb;i++) shset(a+i,s,(uint8_t)(i|(nb==4?FLT:0))); return; }
  if(s->bits<nb*8) s=mk(K_BV,nb*8,Z3_mk_zero_ext(C,nb*8-s->bits,s->a));
  for(int i=0;i<nb;i++) shset(a+i,s,i); }
void __sym_stf(uint8_t*p,int nb,Node*s){ uint64_t a=(uint64_t)p; if(!s){ shclear(a,nb); return; } if(s->k!=K_REAL) unsup("stf"); for(int i=0;i<nb;i++) shset(a+i,s,(uint8_t)(i|(nb==4?FLT:0))); }
void __sym_accrange(uint8_t*p,uint64_t n,int w);
void __sym_memcpy(uint8_t*d,uint8_t*s,uint64_t n){ if(!n||n>(1ull<<40)) return; 
  uint64_t a=(uint64_t)d,b=(uint64_t)s; __sym_accrange(s,n,0); __sym_accrange(d,n,1);
  if(!shany(b,n)){ shclear(a,n); return; }
  if(a<b) for(uint64_t i=0;i<n;i++){ uint8_t x; Node*q=shat(b+i,x); shset(a+i,q,x);} else for(uint64_t i=n;i-->0;){ uint8_t x; Node*q=shat(b+i,x); shset(a+i,q,x);} }
void __sym_memset(uint8_t*d,uint8_t v,Node*sv,uint64_t n){ if(!n) return; __sym_accrange(d,n,1); if(!sv){ shclear((uint64_t)d,n); return;} if(sv->k==K_BOOL) sv=mk(K_BV,8,Z3_mk_ite(C,sv->a,bvc(1,8),bvc(0,8))); for(uint64_t i=0;i<n;i++) shset((uint64_t)d+i,sv,0); }
void __sym_clear(uint8_t*p,uint64_t n){ shclear((uint64_t)p,n); }
void __sym_byval(uint8_t*d,uint8_t*s,uint64_t n){ if(!s) { shclear((uint64_t)d,n); return;} uint64_t a=(uint64_t)d,b=(uint64_t)s; for(uint64_t i=0;i<n;i++){ uint8_t x; Node*q=shat(b+i,x); shset(a+i,q,x);} }
Node* __sym_extract(Node*s,int i){ if(!s) return nullptr; if(s->k!=K_AGG) return nullptr; return (size_t)i<s->agg.size()?s->agg[i]:nullptr; }
Node* __sym_insert(Node*g,int i,Node*s){ if(!g&&!s) return nullptr; Node*r=mk(K_AGG,0,nullptr); if(g) r->agg=g->agg; if((int)r->agg.size()<=i) r->agg.resize(i+1); r->agg[i]=s; return r; }
double __sym_ext_fp(const char*nm,double v,Node*s){ if(!s) return v; if(s->isnum) return s->num; char b[100]; snprintf(b,100,"symbolic double passed to external %s",nm); unsup(b); }
void __sym_ext_ptr(const char*nm,void*p){ if(!p) return; if(shany((uint64_t)p,16)){ char b[120]; snprintf(b,120,"symbolic memory passed to external %s",nm); note("%s",b); ADD(escapes,1); } }
void __sym_unsup(const char*w,Node*s){ if(!s) return; unsup(w); }
uint64_t __sym_divguard(uint64_t v,Node*s,int w,int isd){ if(!s) return isd?v:(v&((w<64)?((1ull<<w)-1):~0ull)); return 1; }
Node* __sym_ovf(int op,int w,uint64_t a,Node*sa,uint64_t b,Node*sb){
  if(!sa&&!sb) return nullptr; Z3_ast x=iv(a,sa,w),y=iv(b,sb,w),r,o;
  bool sg=(op==0||op==2||op==4);
  if(op==0||op==1){ r=Z3_mk_bvadd(C,x,y); o= sg?bor(bnot(Z3_mk_bvadd_no_overflow(C,x,y,true)),bnot(Z3_mk_bvadd_no_underflow(C,x,y))):bnot(Z3_mk_bvadd_no_overflow(C,x,y,false)); }
  else if(op==2||op==3){ r=Z3_mk_bvsub(C,x,y); o= sg?bor(bnot(Z3_mk_bvsub_no_overflow(C,x,y)),bnot(Z3_mk_bvsub_no_underflow(C,x,y,true))):bnot(Z3_mk_bvsub_no_underflow(C,x,y,false)); }
  else { r=Z3_mk_bvmul(C,x,y); o= sg?bor(bnot(Z3_mk_bvmul_no_overflow(C,x,y,true)),bnot(Z3_mk_bvmul_no_underflow(C,x,y))):bnot(Z3_mk_bvmul_no_overflow(C,x,y,false)); }
  Node*g=mk(K_AGG,0,nullptr); g->agg={mk(K_BV,w,r),bnode(o)}; return g; }
Node* __sym_intr(int op,int w,uint64_t a,Node*sa,uint64_t b,Node*sb){
  if(!sa&&!sb) return nullptr; Z3_ast x=iv(a,sa,w),y=op==5||op==6||op==7||op==8||op==9?nullptr:iv(b,sb,w);
  switch(op){case 1:return mk(K_BV,w,Z3_mk_ite(C,Z3_mk_bvult(C,x,y),x,y));case 2:return mk(K_BV,w,Z3_mk_ite(C,Z3_mk_bvugt(C,x,y),x,y));
   case 3:return mk(K_BV,w,Z3_mk_ite(C,Z3_mk_bvslt(C,x,y),x,y));case 4:return mk(K_BV,w,Z3_mk_ite(C,Z3_mk_bvsgt(C,x,y),x,y));
   case 5:return mk(K_BV,w,Z3_mk_ite(C,Z3_mk_bvslt(C,x,bvc(0,w)),Z3_mk_bvneg(C,x),x));
   case 6:{ Z3_ast r=Z3_mk_extract(C,7,0,x); for(int i=1;i<w/8;i++) r=Z3_mk_concat(C,r,Z3_mk_extract(C,i*8+7,i*8,x)); return mk(K_BV,w,r);} 
   case 10:return mk(K_BV,w,Z3_mk_ite(C,Z3_mk_bvult(C,x,y),bvc(0,w),Z3_mk_bvsub(C,x,y)));
   case 11:return mk(K_BV,w,Z3_mk_ite(C,Z3_mk_bvult(C,Z3_mk_bvadd(C,x,y),x),bvc(~0ull,w),Z3_mk_bvadd(C,x,y)));
   case 12:return mk(K_BV,w,Z3_mk_bvshl(C,x,y));case 13:return mk(K_BV,w,Z3_mk_bvlshr(C,x,y));case 14:return mk(K_BV,w,Z3_mk_bvor(C,x,y)); 
   case 7: { Z3_ast r=bvc(0,w); for(int i=0;i<w;i++){ Z3_ast bit=Z3_mk_zero_ext(C,w-1,Z3_mk_extract(C,i,i,x)); r=Z3_mk_bvadd(C,r,bit);} return mk(K_BV,w,r);} 
   case 8: { Z3_ast r=bvc(w,w); for(int i=0;i<w;i++) r=Z3_mk_ite(C,Z3_mk_eq(C,Z3_mk_extract(C,i,i,x),bvc(1,1)),bvc(w-1-i,w),r); return mk(K_BV,w,r);} 
   case 9: { Z3_ast r=bvc(w,w); for(int i=w-1;i>=0;i--) r=Z3_mk_ite(C,Z3_mk_eq(C,Z3_mk_extract(C,i,i,x),bvc(1,1)),bvc(i,w),r); return mk(K_BV,w,r);} }
  unsup("intrinsic"); }
} // extern C

// ------------------------------------------------------------------ polynomials over atoms (normal form for arguments and differences)
// Mono: atom id, power (sorted)
static std::unordered_map<unsigned,Z3_ast> atomast;
static unsigned aid(Z3_ast a){ unsigned i=Z3_get_ast_id(C,a); atomast[i]=a; return i; }
static double numd(Z3_ast a){ return Z3_get_numeral_double(C,a); }
// decompose a simplified (som) term
static bool mono(Z3_ast a,Mono&m,Z3_ast&coef){ // returns coefficient as ast numeral (or null=1)
  if(Z3_is_numeral_ast(C,a)){ coef=a; return true; }
  if(isapp(a,Z3_OP_MUL)){ Z3_app p=Z3_to_app(C,a); std::map<unsigned,int> pw; coef=nullptr; for(unsigned i=0;i<Z3_get_app_num_args(C,p);i++){ Z3_ast x=Z3_get_app_arg(C,p,i); Mono mm; Z3_ast cc=nullptr; if(!mono(x,mm,cc)) return false; if(cc){ if(coef){ Z3_ast t[2]={coef,cc}; coef=Z3_simplify(C,Z3_mk_mul(C,2,t)); } else coef=cc; } for(auto&q:mm) pw[q.first]+=q.second; } for(auto&q:pw) m.push_back(q); return true; }
  if(isapp(a,Z3_OP_POWER)){ Z3_app p=Z3_to_app(C,a); Z3_ast e=Z3_get_app_arg(C,p,1); int64_t v; if(Z3_is_numeral_ast(C,e)&&Z3_get_numeral_int64(C,e,&v)&&v>0&&v<100){ m.push_back({aid(Z3_get_app_arg(C,p,0)),(int)v}); coef=nullptr; return true; } }
  if(isapp(a,Z3_OP_UMINUS)){ Z3_ast c2=nullptr; if(!mono(Z3_get_app_arg(C,Z3_to_app(C,a),0),m,c2)) return false; coef=Z3_simplify(C,Z3_mk_unary_minus(C,c2?c2:numr(1))); return true; }
  m.push_back({aid(a),1}); coef=nullptr; return true; }
static Z3_params somp;
static Z3_ast som(Z3_ast a){ if(!somp){ somp=Z3_mk_params(C); Z3_params_inc_ref(C,somp); Z3_params_set_bool(C,somp,Z3_mk_string_symbol(C,"som"),true); Z3_params_set_bool(C,somp,Z3_mk_string_symbol(C,"mul_to_power"),true); Z3_params_set_uint(C,somp,Z3_mk_string_symbol(C,"som_blowup"),1000000u); Z3_params_set_bool(C,somp,Z3_mk_string_symbol(C,"flat"),true); } return Z3_simplify_ex(C,a,somp); }
static bool topoly(Z3_ast a,std::map<Mono,Z3_ast>&out){ // a is som-simplified
  auto add=[&](Z3_ast t){ Mono m; Z3_ast c=nullptr; if(!mono(t,m,c)) return false; if(!c) c=numr(1); auto it=out.find(m); if(it==out.end()) out[m]=c; else { Z3_ast u[2]={it->second,c}; it->second=Z3_simplify(C,Z3_mk_add(C,2,u)); } return true; };
  if(isapp(a,Z3_OP_ADD)){ Z3_app p=Z3_to_app(C,a); for(unsigned i=0;i<Z3_get_app_num_args(C,p);i++) if(!add(Z3_get_app_arg(C,p,i))) return false; return true; }
  return add(a); }
// canonical polynomial with double coefficients, for identifying transcendental arguments
static bool canon(Z3_ast a,Poly&p){ std::map<Mono,Z3_ast> o; if(!topoly(som(a),o)) return false; for(auto&q:o){ double c=numd(q.second); if(fabs(c)>1e-300) p.t[q.first]=c; } return true; }
// sums and products as short polynomials whose coefficients are rounded to double again, as the program itself does
static Z3_ast mul2(Z3_ast a,Z3_ast b);
static Z3_ast polyast(Poly&p){ if(p.t.empty()) return numr(0); vector<Z3_ast> ts; for(auto&q:p.t){ Z3_ast m=nullptr; if(q.second!=1||q.first.empty()) m=numr(q.second); for(auto&x:q.first) for(int k=0;k<x.second;k++) m=m?mul2(m,atomast[x.first]):atomast[x.first]; ts.push_back(m); } return ts.size()==1?ts[0]:Z3_mk_add(C,ts.size(),ts.data()); }
static bool interval(Z3_ast d,double&lo,double&hi);
// with sym_tidy(2) terms that cannot exceed 1e-14 in the bounds of their symbols are dropped
static bool unitatom(unsigned a){ static std::map<unsigned,bool> known; auto i=known.find(a); if(i!=known.end()) return i->second; double lo,hi; return known[a]=interval(atomast[a],lo,hi)&&lo>=-1.0001&&hi<=1.0001; }
static Z3_ast tidy(Z3_ast t){ if(!tidyon) return t; Poly p; if(!canon(t,p)||p.t.size()>(tidyon==2?400:40)) return t;
  if(tidyon==2) for(auto i=p.t.begin();i!=p.t.end();){ bool small=fabs(i->second)<1e-14&&!i->first.empty(); if(small) for(auto&x:i->first) if(x.second<0||!unitatom(x.first)) small=false; if(small) i=p.t.erase(i); else ++i; }
  for(auto&q:p.t) if(!std::isfinite(q.second)) return t; return polyast(p); }
static int cmpPoly(const Poly&a,const Poly&b){ // 1 equal, -1 negated, 0 different (relative coefficient tolerance 1e-12)
  double sc=0,TR=tidyon?1e-11:1e-12; for(auto&q:a.t) sc=std::max(sc,fabs(q.second)); for(auto&q:b.t) sc=std::max(sc,fabs(q.second));
  for(int sg=1;sg>=-1;sg-=2){ bool ok=true; for(auto&q:a.t){ auto it=b.t.find(q.first); double y=it==b.t.end()?0:it->second; if(fabs(q.second-sg*y)>TR*std::max(fabs(q.second),fabs(y))&&fabs(q.second-sg*y)>TR*1e-2*sc){ok=false;break;} } if(ok) for(auto&q:b.t) if(!a.t.count(q.first)&&fabs(q.second)>TR*1e-2*sc){ok=false;break;} if(ok) return sg; }
  return 0; }
struct Trig { Poly p; Z3_ast arg,s,c; Z3_ast ds=nullptr,dc=nullptr; }; /* ds,dc: sine and cosine of twice the argument, if known */ static vector<Trig> trigs; struct Expo { Poly p; Z3_ast arg,e; }; static vector<Expo> expos; struct Sq { Z3_ast arg,y; }; static vector<Sq> sqs; struct Uf { int fn; Z3_ast a,b,y; }; static vector<Uf> ufs;
static int fresh=0;
static Z3_ast freshr(const char*p,double lo,double hi){ char b[40]; snprintf(b,40,"%s!%d",p,fresh++); Z3_ast a=Z3_mk_const(C,Z3_mk_string_symbol(C,b),REAL); if(std::isfinite(lo)||std::isfinite(hi)) bnd[aid(a)]={lo,hi}; if(std::isfinite(lo)) addpc(Z3_mk_ge(C,a,numr(lo))); if(std::isfinite(hi)) addpc(Z3_mk_le(C,a,numr(hi))); mstale=true; return a; }
static Z3_ast mul2(Z3_ast a,Z3_ast b){ Z3_ast t[2]={a,b}; return Z3_mk_mul(C,2,t); }
static Z3_ast add2(Z3_ast a,Z3_ast b){ Z3_ast t[2]={a,b}; return Z3_mk_add(C,2,t); }
static Z3_ast sub2(Z3_ast a,Z3_ast b){ Z3_ast t[2]={a,b}; return Z3_mk_sub(C,2,t); }
static bool somnum(Z3_ast a,double&d){ Z3_ast s=Z3_simplify(C,a); if(Z3_is_numeral_ast(C,s)){ d=numd(s); return true;} return false; }
static bool interval(Z3_ast d,double&lo,double&hi);
static int trigadd=0; // expand sums of arguments by the addition theorem
static void trig(Z3_ast x,Z3_ast&s,Z3_ast&c){
  Poly p; if(!canon(x,p)) unsup("trig argument"); double d; if(p.t.empty()){ s=numr(0);c=numr(1);return; } if(p.t.size()==1&&p.t.begin()->first.empty()){ d=p.t.begin()->second; s=numr(sin(d)); c=numr(cos(d)); return; }
  if(p.t.size()==1&&p.t.begin()->first.size()==1&&p.t.begin()->first[0].second==1){ Z3_ast q=atomast[p.t.begin()->first[0].first]; if(q&&isapp(q,Z3_OP_ITE)){ Z3_app ap=Z3_to_app(C,q); Z3_ast k=numr(p.t.begin()->second),s1,c1,s2,c2,g=Z3_get_app_arg(C,ap,0); trig(mul2(k,Z3_get_app_arg(C,ap,1)),s1,c1); trig(mul2(k,Z3_get_app_arg(C,ap,2)),s2,c2); s=Z3_mk_ite(C,g,s1,s2); c=Z3_mk_ite(C,g,c1,c2); return; } }
  if(tidyon){ double lo,hi; if(interval(x,lo,hi)&&lo>-1e-12&&hi<1e-12){ s=x; c=numr(1); return; } }
  for(auto&t:trigs){ int k=cmpPoly(p,t.p); if(k){ c=t.c; s=k>0?t.s:Z3_mk_unary_minus(C,t.s); return; } }
  // integer multiples of a known argument (angle addition)
  if(trigadd) for(size_t i=0;i<trigs.size();i++){ Trig t=trigs[i]; if(t.p.t.size()!=p.t.size()) continue; double r=p.t.begin()->second/(t.p.t.count(p.t.begin()->first)?t.p.t[p.t.begin()->first]:NAN); double k=std::round(r); if(!(fabs(r-k)<1e-12*fabs(r))||fabs(k)<2||fabs(k)>8) continue; Poly q=t.p; for(auto&m:q.t) m.second*=k; int sg=cmpPoly(p,q); if(sg<=0) continue;
    Z3_ast cs=t.c,sn=t.s; for(int j=1;j<(int)fabs(k);j++){ Z3_ast nc=sub2(mul2(cs,t.c),mul2(sn,t.s)), ns=add2(mul2(sn,t.c),mul2(cs,t.s)); cs=nc;sn=ns; } if(k<0) sn=Z3_mk_unary_minus(C,sn); s=sn;c=cs; return; }
  Trig t; t.p=p; t.arg=x; t.s=freshr("sin",-1,1); t.c=freshr("cos",-1,1); addpc(Z3_mk_eq(C,add2(mul2(t.s,t.s),mul2(t.c,t.c)),numr(1))); 
  if(trigadd){ Z3_ast h=numr(1.570796326794897); Z3_ast in[2]={Z3_mk_le(C,Z3_mk_unary_minus(C,h),x),Z3_mk_le(C,x,h)}; addpc(Z3_mk_implies(C,Z3_mk_and(C,2,in),Z3_mk_ge(C,t.c,numr(-1e-15)))); }
  // a known argument is an integer multiple of this one
  if(trigadd) for(auto&u:trigs){ if(u.p.t.size()!=p.t.size()) continue; auto f=u.p.t.find(p.t.begin()->first); if(f==u.p.t.end()) continue; double r=f->second/p.t.begin()->second,k=std::round(r); if(!(fabs(r-k)<1e-12*fabs(r))||fabs(k)<2||fabs(k)>4) continue; Poly q=p; for(auto&m:q.t) m.second*=k; if(cmpPoly(u.p,q)<=0) continue;
    Z3_ast cs=t.c,sn=t.s; for(int j=1;j<(int)fabs(k);j++){ Z3_ast nc=sub2(mul2(cs,t.c),mul2(sn,t.s)), ns=add2(mul2(sn,t.c),mul2(cs,t.s)); cs=nc;sn=ns; } if(k<0) sn=Z3_mk_unary_minus(C,sn); addpc(Z3_mk_eq(C,cs,u.c)); addpc(Z3_mk_eq(C,sn,u.s)); if(k==2||k==-2){ t.dc=u.c; t.ds=k>0?u.s:Z3_mk_unary_minus(C,u.s); } break; }
  trigs.push_back(t); s=t.s;c=t.c; }
static void trim(Z3_ast&){ }
static Z3_ast sqrtarg(Z3_ast y){ for(auto&s:sqs) if(s.y==y) return s.arg; return nullptr; }
// is a polynomial a constant >= 0 plus a quadratic form without negative directions (up to rounding of its coefficients)
static bool posdef(Z3_ast a){ Poly p; if(!canon(a,p)||p.t.size()>600) return false; std::map<unsigned,int> ix; std::map<std::pair<int,int>,double> q;
  for(auto&t:p.t){ if(t.first.empty()){ if(t.second<0) return false; continue; } int d=0; for(auto&x:t.first) d+=x.second; if(d!=2) return false; int v[2],k=0; for(auto&x:t.first) for(int i=0;i<x.second;i++){ auto it=ix.insert({x.first,(int)ix.size()}).first; v[k++]=it->second; } q[{std::min(v[0],v[1]),std::max(v[0],v[1])}]+=t.second; }
  int n=ix.size(); if(n>80) return false; vector<vector<double>> M(n,vector<double>(n,0)); double mx=0; for(auto&e:q){ int i=e.first.first,j=e.first.second; if(i==j) M[i][i]+=e.second; else { M[i][j]+=e.second/2; M[j][i]+=e.second/2; } } for(int i=0;i<n;i++) mx=std::max(mx,fabs(M[i][i]));
  for(int k=0;k<n;k++){ int b=k; for(int i=k;i<n;i++) if(M[i][i]>M[b][b]) b=i; if(!(M[b][b]>1e-9*mx)){ for(int i=k;i<n;i++) for(int j=k;j<n;j++) if(fabs(M[i][j])>1e-13*mx) return false; return true; }
    std::swap(M[k],M[b]); for(int i=0;i<n;i++) std::swap(M[i][k],M[i][b]); for(int i=k+1;i<n;i++){ double f=M[i][k]/M[k][k]; for(int j=k+1;j<n;j++) M[i][j]-=f*M[k][j]; } } return true; }
extern "C" Node* __sym_math(int fn,double a,Node*sa,double b,Node*sb){
  double x,y; bool cx=isc(a,sa,x),cy=isc(b,sb,y); bool two=fn>=32;
  if(!sa&&!(two&&sb)) return nullptr;
  if(cx&&(!two||cy)){ double r; switch(fn){case 1:r=sin(x);break;case 2:r=cos(x);break;case 3:r=exp(x);break;case 4:r=sqrt(x);break;case 5:r=fabs(x);break;case 6:r=log(x);break;case 7:r=tan(x);break;case 8:r=atan(x);break;case 9:r=acos(x);break;case 10:r=asin(x);break;case 11:r=cosh(x);break;case 12:r=sinh(x);break;case 13:r=tanh(x);break;case 14:r=floor(x);break;case 15:r=ceil(x);break;case 16:r=round(x);break;case 17:r=trunc(x);break;
     case 32:r=pow(x,y);break;case 33:r=atan2(x,y);break;case 34:r=fmod(x,y);break;case 35:r=hypot(x,y);break;case 36:r=fmin(x,y);break;case 37:r=fmax(x,y);break;default:r=copysign(x,y);} return rnum(r); }
  Z3_ast p=rv(a,sa),q=two?rv(b,sb):nullptr,z=numr(0);
  switch(fn){
   case 1: case 2: { Z3_ast s,c; trig(p,s,c); return rn(fn==1?s:c); }
   case 7: { Z3_ast s,c; trig(p,s,c); assume(bnot(Z3_mk_eq(C,c,z))); return rn(Z3_mk_div(C,s,c)); }
   case 3: { Poly pp; if(!canon(p,pp)) unsup("exp arg"); if(pp.t.empty()) return rnum(1); if(pp.t.size()==1&&pp.t.begin()->first.empty()) return rnum(exp(pp.t.begin()->second));
     if(tidyon){ double lo,hi; if(interval(p,lo,hi)&&lo>-1e-12&&hi<1e-12) return rnum(1); }
     for(auto&e:expos){ int k=cmpPoly(pp,e.p); if(k>0) return rn(e.e); if(k<0) { Z3_ast f=freshr("expm",0,INFINITY); addpc(Z3_mk_eq(C,mul2(f,e.e),numr(1))); addpc(Z3_mk_gt(C,f,z)); expos.push_back({pp,p,f}); return rn(f);} }
     double lo,hi; double el=0,eh=INFINITY; if(interval(p,lo,hi)){ el=exp(lo)*(1-1e-15); eh=exp(hi)*(1+1e-15);} Z3_ast f=freshr("exp",el,eh); addpc(Z3_mk_gt(C,f,z)); addpc(Z3_mk_ge(C,f,add2(p,numr(1)))); 
     for(auto&e:expos) addpc(Z3_mk_iff(C,Z3_mk_le(C,p,e.arg),Z3_mk_le(C,f,e.e))); expos.push_back({pp,p,f}); return rn(f); }
   case 4: { for(auto&s:sqs) if(s.arg==p) return rn(s.y); Z3_ast sp=som(p); for(auto&s:sqs) if(som(s.arg)==sp) return rn(s.y);
     if(!isnn(p)&&!posdef(p)&&decide(Z3_mk_lt(C,p,z))){ note("path with sqrt of a negative number cut (undefined result)"); pathend(); }
     double lo,hi; double h=INFINITY; if(interval(p,lo,hi)&&hi>=0) h=sqrt(hi)*(1+1e-15)+1e-300; Z3_ast f=freshr("sqrt",0,h); addpc(Z3_mk_eq(C,mul2(f,f),p)); sqs.push_back({p,f}); nneg.insert(f); return rn(f); }
   case 5: return rn(Z3_mk_ite(C,Z3_mk_ge(C,p,z),p,Z3_mk_unary_minus(C,p)));
   case 14: return rn(Z3_mk_int2real(C,Z3_mk_real2int(C,p)));
   case 15: return rn(Z3_mk_unary_minus(C,Z3_mk_int2real(C,Z3_mk_real2int(C,Z3_mk_unary_minus(C,p)))));
   case 17: return rn(Z3_mk_ite(C,Z3_mk_ge(C,p,z),Z3_mk_int2real(C,Z3_mk_real2int(C,p)),Z3_mk_unary_minus(C,Z3_mk_int2real(C,Z3_mk_real2int(C,Z3_mk_unary_minus(C,p))))));
   case 16: { Z3_ast h=numr(.5); return rn(Z3_mk_ite(C,Z3_mk_ge(C,p,z),Z3_mk_int2real(C,Z3_mk_real2int(C,add2(p,h))),Z3_mk_unary_minus(C,Z3_mk_int2real(C,Z3_mk_real2int(C,sub2(h,p)))))); }
   case 36: return rn(Z3_mk_ite(C,Z3_mk_lt(C,p,q),p,q)); case 37: return rn(Z3_mk_ite(C,Z3_mk_gt(C,p,q),p,q));
   case 32: if(cy&&y==std::floor(y)&&fabs(y)<=12){ int k=(int)fabs(y); if(k==0) return rnum(1); Z3_ast r=p; for(int i=1;i<k;i++) r=mul2(r,p); if(y<0){ if(decide(Z3_mk_eq(C,p,z))){ note("path with pow(0,negative) cut"); pathend(); } r=Z3_mk_div(C,numr(1),r);} return rn(r); }
     if(cy&&y==0.5) return __sym_math(4,a,sa,0,nullptr); break;
   case 35: { Z3_ast s=add2(mul2(p,p),mul2(q,q)); return __sym_math(4,0,rn(s),0,nullptr); }
   case 38: { Z3_ast m=Z3_mk_ite(C,Z3_mk_ge(C,p,z),p,Z3_mk_unary_minus(C,p)); return rn(Z3_mk_ite(C,Z3_mk_lt(C,q,z),Z3_mk_unary_minus(C,m),m)); }
   case 34: { if(cy&&y>0){ Z3_ast k=Z3_mk_div(C,p,q); Z3_ast t=Z3_mk_ite(C,Z3_mk_ge(C,p,z),Z3_mk_int2real(C,Z3_mk_real2int(C,k)),Z3_mk_unary_minus(C,Z3_mk_int2real(C,Z3_mk_real2int(C,Z3_mk_unary_minus(C,k))))); return rn(sub2(p,mul2(q,t))); } break; }
   default: break; }
  // other functions: an unknown function of its argument
  for(auto&u:ufs) if(u.fn==fn&&som(u.a)==som(p)&&(!q||som(u.b)==som(q))) return rn(u.y);
  double lo=-INFINITY,hi=INFINITY; if(fn==8){lo=-1.5707963267948968;hi=-lo;} if(fn==33){lo=-3.1415926535897936;hi=-lo;} if(fn==9){lo=0;hi=3.1415926535897936;} if(fn==10){lo=-1.5707963267948968;hi=-lo;} if(fn==13){lo=-1;hi=1;} if(fn==11) lo=1;
  Z3_ast f=freshr("uf",lo,hi); ufs.push_back({fn,p,q,f});
  if(fn==33||fn==8||fn==12||fn==13){ if(fn!=33){ addpc(Z3_mk_iff(C,Z3_mk_gt(C,p,z),Z3_mk_gt(C,f,z))); addpc(Z3_mk_iff(C,Z3_mk_lt(C,p,z),Z3_mk_lt(C,f,z))); } }
  // link inverse pairs used by the code: cosh,sinh ; atan2 -> sin/cos
  if(fn==33){ Z3_ast s,c; trig(f,s,c); Z3_ast r=freshr("r",0,INFINITY); addpc(Z3_mk_eq(C,p,mul2(r,s))); addpc(Z3_mk_eq(C,q,mul2(r,c))); }
  if(fn==9){ Trig t; canon(f,t.p); t.arg=f; t.c=p; t.s=freshr("sin",0,1); addpc(Z3_mk_eq(C,add2(mul2(t.s,t.s),mul2(p,p)),numr(1))); trigs.push_back(t); }
  if(fn==10){ Z3_ast s,c; trig(f,s,c); addpc(Z3_mk_eq(C,s,p)); addpc(Z3_mk_ge(C,c,z)); }
  if(fn==8){ Z3_ast s,c; trig(f,s,c); addpc(Z3_mk_gt(C,c,z)); addpc(Z3_mk_eq(C,s,mul2(p,c))); }
  return rn(f); }

// interval of a polynomial from the bounds of its atoms
static bool atomb(unsigned id,double&lo,double&hi){ auto it=bnd.find(id); if(it!=bnd.end()){ lo=it->second.lo;hi=it->second.hi; return std::isfinite(lo)&&std::isfinite(hi);} 
  Z3_ast a=atomast[id]; if(isapp(a,Z3_OP_ITE)){ Z3_app p=Z3_to_app(C,a); double l1,h1,l2,h2; if(interval(Z3_get_app_arg(C,p,1),l1,h1)&&interval(Z3_get_app_arg(C,p,2),l2,h2)){ lo=std::min(l1,l2);hi=std::max(h1,h2); return true;} } return false; }
static bool monob(const Mono&m,double&lo,double&hi){ lo=hi=1; for(auto&q:m){ double l,h; if(!atomb(q.first,l,h)) return false; double pl,ph; if(q.second%2==0){ double A=std::pow(l,q.second),B=std::pow(h,q.second); ph=std::max(A,B); pl=(l<=0&&h>=0)?0:std::min(A,B);} else { pl=std::pow(l,q.second);ph=std::pow(h,q.second);} 
    double c[4]={lo*pl,lo*ph,hi*pl,hi*ph}; lo=*std::min_element(c,c+4);hi=*std::max_element(c,c+4);} double e=1e-14; lo-=fabs(lo)*e;hi+=fabs(hi)*e; return true; }
static bool interval(Z3_ast d,double&lo,double&hi){ std::map<Mono,Z3_ast> o; if(!topoly(som(d),o)) return false; lo=hi=0; for(auto&q:o){ double c=numd(q.second),l=1,h=1; if(!q.first.empty()&&!monob(q.first,l,h)) return false; double a=c*l,b=c*h; lo+=std::min(a,b);hi+=std::max(a,b);} double e=1e-12*(fabs(lo)+fabs(hi)); lo-=e;hi+=e; return true; }

// ------------------------------------------------------------------ reporting
static string valstr(Z3_model m,const Input&in){
  if(!m) return "0"; Z3_ast r; if(!Z3_model_eval(C,m,in.a,true,&r)) return "0";
  if(in.kind==0){ if(Z3_get_sort_kind(C,Z3_get_sort(C,r))==Z3_BOOL_SORT) return Z3_get_bool_value(C,r)==Z3_L_TRUE?"1":"0"; uint64_t u=0; Z3_get_numeral_uint64(C,r,&u); char b[40]; int64_t s=(int64_t)u; if(in.bits<64&&(u>>(in.bits-1)&1)) s=(int64_t)(u|(~0ull<<in.bits)); snprintf(b,40,"%lld",(long long)s); return b; }
  char b[60]; double d; if(Z3_is_algebraic_number(C,r)&&!Z3_is_numeral_ast(C,r)){ Z3_ast l=Z3_get_algebraic_number_lower(C,r,30); d=numd(l);} else if(Z3_is_numeral_ast(C,r)) d=numd(r); else d=0; snprintf(b,60,"%.17g",d); return b; }
static bool dupmsg(const string&m){ sem_wait(&sh->nlock); int i; for(i=0;i<sh->nvm;i++) if(!strncmp(sh->vm[i],m.c_str(),199)) break; bool d=false; if(i<sh->nvm){ d=++sh->vc[i]>3; } else if(i<200){ snprintf(sh->vm[i],200,"%s",m.c_str()); sh->vc[i]=1; sh->nvm=i+1; } sem_post(&sh->nlock); return d; }
static void violation(const char*kind,const string&msg,Z3_model m){
  if(dupmsg(msg)) return;
  long n=ADD(viol,1); if(debug) fprintf(stderr,"[violation %s] %s\n",kind,msg.c_str());
  if(n>maxviol){ sh->stop=1; return; }
  char fn[64]; snprintf(fn,64,"/v.%d.%ld",getpid(),n); string f=outdir+fn; FILE*o=fopen((f+".tmp").c_str(),"w"); if(!o) return; string mm=msg; for(auto&c:mm) if(c=='\n') c=' '; fprintf(o,"kind %s\nmsg %s\n",kind,mm.c_str());
  for(auto&in:inputs) fprintf(o,"in %s %s\n",in.name.c_str(),valstr(m,in).c_str()); fclose(o); rename((f+".tmp").c_str(),(f+".txt").c_str()); }

// run a hard query in a child with an alarm. result 1 sat(model printed to file), 0 unsat, -1 unknown. On sat the input values are returned as strings.
static int hard(Z3_ast extra,double secs,std::vector<string>&vals){
  int pf[2]; if(pipe(pf)) return -1; ADD(queries,1); ADD(nla,1); double t0=now(); double left=deadline-now(); if(secs>left) secs=left; if(secs<1) secs=1; fflush(NULL); pid_t p=fork();
  if(p==0){ close(pf[0]); struct itimerval z{}; setitimer(ITIMER_REAL,&z,nullptr); signal(SIGALRM,SIG_DFL); alarm((unsigned)ceil(secs)); 
    PlainLocale pl; Z3_solver s; bool bv=false; for(auto&i:inputs) if(i.kind==0) bv=true; s=bv?Z3_mk_solver(C):Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_NRA")); Z3_solver_inc_ref(C,s); for(auto c:pc) Z3_solver_assert(C,s,c); Z3_solver_assert(C,s,extra); Z3_lbool r=Z3_solver_check(C,s);
    string out=r==Z3_L_TRUE?"S":r==Z3_L_FALSE?"U":"?"; if(r==Z3_L_TRUE){ Z3_model m=Z3_solver_get_model(C,s); Z3_model_inc_ref(C,m); for(auto&in:inputs) out+=valstr(m,in)+"\n"; } size_t o=0; while(o<out.size()){ ssize_t k=write(pf[1],out.data()+o,out.size()-o); if(k<=0) break; o+=k; } _exit(0); }
  close(pf[1]); string g; char b[4096]; ssize_t k; while((k=read(pf[0],b,sizeof b))>0||(k<0&&errno==EINTR)) if(k>0) g.append(b,k); close(pf[0]); int st; while(waitpid(p,&st,0)<0&&errno==EINTR); ADD(solver_us,(now()-t0)*1e6);
  if(g.empty()||g[0]=='?'){ ADD(unknown,1); return -1; } if(g[0]=='U') return 0; g.erase(0,1); size_t pos=0; while(pos<g.size()){ size_t e=g.find('\n',pos); vals.push_back(g.substr(pos,e-pos)); pos=e+1; } return 1; }
static void violation_vals(const char*kind,const string&msg,const vector<string>&v){
  if(dupmsg(msg)) return;
  long n=ADD(viol,1); if(debug) fprintf(stderr,"[violation %s] %s\n",kind,msg.c_str()); if(n>maxviol){ sh->stop=1; return; } char fn[64]; snprintf(fn,64,"/v.%d.%ld",getpid(),n); string f=outdir+fn; FILE*o=fopen((f+".tmp").c_str(),"w"); if(!o) return; string mm=msg; for(auto&c:mm) if(c=='\n') c=' '; fprintf(o,"kind %s\nmsg %s\n",kind,mm.c_str()); for(size_t i=0;i<inputs.size()&&i<v.size();i++) fprintf(o,"in %s %s\n",inputs[i].name.c_str(),v[i].c_str()); fclose(o); rename((f+".tmp").c_str(),(f+".txt").c_str()); }

// candidate point: fix every real input to a pseudo-random dyadic value in its box and let the solver complete the rest
static bool sample(Z3_ast extra,int tries,std::vector<string>&vals){
  bool have=false; for(auto&i:inputs) if(i.kind==1) have=true; if(!have) return false;
  for(int t=0;t<tries;t++){
    vector<Z3_ast> as; unsigned h=1234567u+t*7919u+(unsigned)sh->seed; vector<std::pair<Z3_ast,double>> fix;
    for(auto&i:inputs) if(i.kind==1){ h=h*1664525u+1013904223u; double u=((h>>8)%1024)/1024.0; auto b=bnd[Z3_get_ast_id(C,i.a)]; double lo=b.lo,hi=b.hi; if(!std::isfinite(lo)) lo=-2; if(!std::isfinite(hi)) hi=2; double v=lo+(hi-lo)*u; v=std::round(v*64)/64; if(v<lo||v>hi) v=lo+(hi-lo)*u; as.push_back(Z3_mk_eq(C,i.a,numr(v))); fix.push_back({i.a,v}); }
    // tight numeric values for transcendental atoms whose argument is fixed now
    vector<Z3_ast> fr,to; for(auto&f:fix){ fr.push_back(f.first); to.push_back(numr(f.second)); }
    auto pin=[&](Z3_ast arg,Z3_ast at,double(*fn)(double)){ Z3_ast v=Z3_simplify(C,Z3_substitute(C,arg,fr.size(),fr.data(),to.data())); if(Z3_is_numeral_ast(C,v)){ double d=fn(numd(v)); double e=1e-9*std::max(1.0,fabs(d)); as.push_back(Z3_mk_ge(C,at,numr(d-e))); as.push_back(Z3_mk_le(C,at,numr(d+e))); } };
    for(auto&q:trigs){ pin(q.arg,q.s,sin); pin(q.arg,q.c,cos);} for(auto&e:expos) pin(e.arg,e.e,exp);
    as.push_back(extra); ADD(sampled,1);
    if(chk(as.data(),as.size())==Z3_L_TRUE){ Z3_model m=Z3_solver_get_model(C,S); Z3_model_inc_ref(C,m); for(auto&in:inputs) vals.push_back(valstr(m,in)); Z3_model_dec_ref(C,m); return true; } }
  return false; }

// rewrite a polynomial with the identities of its atoms: sqrt(x)^2 = x, cos^2 = 1 - sin^2 (or the double angle), (a/b) b = a, exp(x) exp(-x) = 1
static Z3_ast reduce(Z3_ast d){
  struct Rule { unsigned a,b; Z3_ast to; }; // a*b -> to (a==b: square)
  for(int round=0;round<12;round++){
    std::map<Mono,Z3_ast> o; if(!topoly(d,o)||o.size()>3000) return d; std::set<unsigned> at; for(auto&q:o) for(auto&x:q.first) at.insert(x.first);
    vector<Rule> R; std::set<unsigned> forcesq;
    auto id=[&](Z3_ast a){ return Z3_get_ast_id(C,a); };
    for(auto&q:sqs) if(at.count(id(q.y))) R.push_back({id(q.y),id(q.y),q.arg});
    for(auto&t:trigs) if(at.count(id(t.c))||at.count(id(t.s))){ if(t.dc){ Z3_ast h=numr(.5); R.push_back({id(t.c),id(t.c),mul2(h,add2(numr(1),t.dc))}); R.push_back({id(t.s),id(t.s),mul2(h,sub2(numr(1),t.dc))}); R.push_back({id(t.s),id(t.c),mul2(h,t.ds)}); } else if(Z3_is_app(C,t.c)&&Z3_get_app_num_args(C,Z3_to_app(C,t.c))==0) R.push_back({id(t.c),id(t.c),sub2(numr(1),mul2(t.s,t.s))}); else R.push_back({id(t.s),id(t.s),sub2(numr(1),mul2(t.c,t.c))}); }
    for(size_t i=0;i<expos.size();i++) if(at.count(id(expos[i].e))) for(size_t j=0;j<i;j++) if(at.count(id(expos[j].e))&&cmpPoly(expos[i].p,expos[j].p)<0) R.push_back({id(expos[i].e),id(expos[j].e),numr(1)});
    for(unsigned x:at){ Z3_ast q=atomast[x]; if(q&&isapp(q,Z3_OP_DIV)){ Z3_app p=Z3_to_app(C,q); Z3_ast b=Z3_get_app_arg(C,p,1); if(at.count(id(b))) R.push_back({x,id(b),Z3_get_app_arg(C,p,0)}); } }
    if(R.empty()) return d;
    bool ch=false; vector<Z3_ast> ts; for(auto&q:o){ Z3_ast t=q.second; Mono m=q.first; for(auto&r:R){ int ia=-1,ib=-1; for(size_t k=0;k<m.size();k++){ if(m[k].first==r.a) ia=k; if(m[k].first==r.b) ib=k; } if(ia<0||ib<0||(r.a==r.b&&m[ia].second<2)) continue; ch=true; m[ia].second--; m[ib].second--; t=mul2(t,r.to); break; }
      for(auto&x:m) for(int k=0;k<x.second;k++) t=mul2(t,atomast[x.first]); ts.push_back(t); }
    if(!ch) return d; d=som(ts.empty()?numr(0):ts.size()==1?ts[0]:Z3_mk_add(C,ts.size(),ts.data())); }
  return d; }
static int relaxed(Z3_ast d,double tol,bool le){ // 1: proved by bounding every monomial on its own
  std::map<Mono,Z3_ast> o; if(!topoly(d,o)) return 0; vector<Z3_ast> ts;
  Z3_solver s=Z3_mk_simple_solver(C); Z3_solver_inc_ref(C,s); int k=0; Z3_ast sum=numr(0);
  for(auto&q:o){ if(q.first.empty()){ ts.push_back(q.second); continue; } char nb[24]; snprintf(nb,24,"m!%d",k++); Z3_ast v=Z3_mk_const(C,Z3_mk_string_symbol(C,nb),REAL); double l,h; if(monob(q.first,l,h)){ Z3_solver_assert(C,s,Z3_mk_ge(C,v,numr(l))); Z3_solver_assert(C,s,Z3_mk_le(C,v,numr(h))); } ts.push_back(mul2(q.second,v)); }
  if(ts.size()) sum=ts.size()==1?ts[0]:Z3_mk_add(C,ts.size(),ts.data());
  Z3_solver_assert(C,s,le?Z3_mk_gt(C,sum,numr(tol)):bor(Z3_mk_gt(C,sum,numr(tol)),Z3_mk_lt(C,sum,numr(-tol)))); ADD(queries,1); ADD(lra,1); double t=now(); PlainLocale pl; Z3_lbool r=Z3_solver_check(C,s); ADD(solver_us,(now()-t)*1e6); Z3_solver_dec_ref(C,s);
  return r==Z3_L_FALSE; }
static void check_close(Z3_ast a,Z3_ast b,double tol,const char*msg,bool le){ // le: assert a<=b+tol ; else |a-b|<=tol
  ADD(asserts,1); ADD(closes,1);
  Z3_ast d=som(sub2(a,b));
  if(relaxed(d,tol,le)){ ADD(proved,1); return; }
  if(trigs.size()||sqs.size()||expos.size()){ Z3_ast e=reduce(d); if(e!=d){ d=e; if(relaxed(d,tol,le)){ ADD(proved,1); return; } } }
  vector<string> vals;
  auto negm=[&](double M){ return le?Z3_mk_gt(C,d,numr(M)):bor(Z3_mk_gt(C,d,numr(M)),Z3_mk_lt(C,d,numr(-M))); };
  if(sample(negm(std::max(tol*1e3,1e-6)),6,vals)){ violation_vals("assert",msg,vals); return; }
  Z3_ast n=negm(tol);
  Z3_lbool r=chk(&n,1); if(r==Z3_L_FALSE){ ADD(proved,1); return; }
  if(r==Z3_L_TRUE){ // prefer a model with a margin
    Z3_model m=Z3_solver_get_model(C,S); Z3_model_inc_ref(C,m);
    for(double M:{1.0,1e-2,1e-4,tol*10}){ if(M<=tol) continue; Z3_ast q=negm(M); if(chk(&q,1)==Z3_L_TRUE){ Z3_model m2=Z3_solver_get_model(C,S); Z3_model_inc_ref(C,m2); m=m2; break; } }
    violation("assert",msg,m); return; }
  int h=hard(n,qsec,vals); if(h==0){ ADD(proved,1); return; } if(h==1){ violation_vals("assert",msg,vals); return; }
  ADD(unproved,1); uq(msg); }
static void check_bool(Z3_ast c,const char*msg){
  ADD(asserts,1); Z3_ast s=Z3_simplify(C,c); Z3_lbool b=Z3_get_bool_value(C,s); if(b==Z3_L_TRUE){ ADD(proved,1); ADD(syntactic,1); return; }
  if(b==Z3_L_FALSE){ Z3_model m=ensure_model()?curm:nullptr; violation("assert",msg,m); return; }
  Z3_ast n=bnot(s); if(ensure_model()&&meval(s)==0){ violation("assert",msg,curm); }
  else { Z3_lbool r=chk(&n,1); if(r==Z3_L_FALSE){ ADD(proved,1); return; }
    if(r==Z3_L_TRUE){ violation("assert",msg,Z3_solver_get_model(C,S)); }
    else { vector<string> vals; int h=-1; if(sample(n,4,vals)) h=1; else h=hard(n,qsec,vals); if(h==0){ ADD(proved,1); return; } if(h==1) violation_vals("assert",msg,vals); else { ADD(unproved,1); uq(msg); } } }
  assume(s); ensure_model(); }

// ------------------------------------------------------------------ heap
struct Blk { uint64_t sz; bool freed; }; static std::map<uint64_t,Blk> heap; static uint64_t quar; static long liveb;
static const unsigned RZ=64;
static void*halloc(size_t n,size_t al){ void*p=nullptr; size_t tot=n+RZ; if(n>(1ull<<33)) return nullptr; if(al<=16) p=malloc(tot); else if(posix_memalign(&p,al,tot)) return nullptr; if(!p) return nullptr; uint64_t a=(uint64_t)p;
  auto it=heap.lower_bound(a); while(it!=heap.end()&&it->first<a+tot) it=heap.erase(it); if(!heap.empty()){ auto q=heap.upper_bound(a); if(q!=heap.begin()){ --q; if(q->first+q->second.sz>a) heap.erase(q);} }
  poison(a,n,0); poison(a+n,RZ,1); shclear(a,tot); heap[a]={n,false}; 
  uint64_t pat=0x4b1234567890abcdull; if(n<(1u<<20)) for(size_t i=0;i<n;i++) ((uint8_t*)p)[i]=(uint8_t)(pat>>(8*(i&7))); liveb++; return p; }
static void hfree(void*p){ if(!p) return; uint64_t a=(uint64_t)p; auto it=heap.find(a); if(it==heap.end()){ shclear(a,malloc_usable_size(p)); free(p); return; }
  if(it->second.freed){ vio_here("memory",string("double free in ")+where()); return; }
  it->second.freed=true; liveb--; poison(a,it->second.sz,2); shclear(a,it->second.sz); quar+=it->second.sz; if(quar>(256u<<20)){ poison(a,it->second.sz+RZ,0); heap.erase(it); free(p);} }
// blocks of the code under test that native library code gives back
static void nfree(void*p) noexcept { if(!p) return; uint64_t a=(uint64_t)p,u=malloc_usable_size(p); if(u>=RZ&&pgok){ uint64_t q=a+u-40; Page*g=pg(q,false); if(g&&g->poison[q&4095]){ auto it=heap.find(a); if(it!=heap.end()){ if(!it->second.freed) liveb--; heap.erase(it); } poison(a,u,0); shclear(a,u); } } free(p); }
extern "C" {
static bool badacc(uint64_t a,uint64_t n,int w){ while(n){ uint64_t o=a&4095,k=std::min<uint64_t>(4096-o,n); Page*p=pg(a,false); if(p) for(uint64_t i=0;i<k;i++) if(p->poison[o+i]){ 
   static std::set<string> seen; string m=string(p->poison[o+i]==1?"heap out-of-bounds ":"use after free ")+(w?"write":"read")+" in "+where(); if(seen.insert(m).second) vio_here("memory",m); return true; } a+=k;n-=k; } return false; }
static void race(uint64_t a,uint64_t n,int w){ if(a>=stklo&&a<stkhi&&false) return; for(uint64_t i=0;i<n;i++){ Acc&x=races[a+i]; bool bad=(x.w>=0&&x.w!=racetid)||(w&&x.r>=0&&(x.r!=racetid)); if(bad){ raceon=0; vio_here("race",string("data race in parallel region ")+where()); return; } if(w) x.w=racetid; else { if(x.r<0) x.r=racetid; else if(x.r!=racetid) x.r=1000; } } }
void __sym_acc(uint8_t*p,uint64_t n,int w){ Page*q=pg((uint64_t)p,false); if(memcheck&&q&&(q->poison[(uint64_t)p&4095]||q->poison[((uint64_t)p+n-1)&4095])) badacc((uint64_t)p,n,w); if(raceon) race((uint64_t)p,n,w); }
void __sym_accrange(uint8_t*p,uint64_t n,int w){ if(memcheck) badacc((uint64_t)p,n,w); if(raceon) race((uint64_t)p,n,w); }
static uint64_t argi(int i,uint64_t v,unsigned w=64){ Node*s=__sym_args[i]; __sym_args[i]=nullptr; return s?__sym_conc(v,s,w):v; }
static void ret(void*f,Node*s){ __sym_callee=nullptr; __sym_setret(f,s); }
#define RET(f,s) ret((void*)(f),s)
// ---- allocation API used by the models
void*sym_malloc(size_t n){ n=argi(0,n); __sym_callee=nullptr; return halloc(n,16); }
void*sym_memalign(size_t al,size_t n){ al=argi(0,al); n=argi(1,n); __sym_callee=nullptr; return halloc(n,al); }
void sym_free(void*p){ __sym_callee=nullptr; hfree(p); }
size_t sym_msize(void*p){ __sym_callee=nullptr; auto it=heap.find((uint64_t)p); RET(sym_msize,nullptr); return it==heap.end()?malloc_usable_size(p):it->second.sz; }
long sym_live(void){ __sym_callee=nullptr; RET(sym_live,nullptr); return liveb; }
int sym_is_sym(void*p,size_t n){ n=argi(1,n); RET(sym_is_sym,nullptr); return shany((uint64_t)p,n); }
// ---- harness API
static string uniq(const char*nm){ string s=nm; int k=incount[s]++; if(k){ char b[16]; snprintf(b,16,"#%d",k); s+=b; } return s; }
int sym_int(const char*nm,int lo,int hi){ lo=(int)argi(1,(uint32_t)lo,32); hi=(int)argi(2,(uint32_t)hi,32); string n=uniq(nm); Z3_ast a=Z3_mk_const(C,Z3_mk_string_symbol(C,n.c_str()),Z3_mk_bv_sort(C,32)); inputs.push_back({n,0,a,32});
  addpc(Z3_mk_bvsge(C,a,bvc((uint32_t)lo,32))); addpc(Z3_mk_bvsle(C,a,bvc((uint32_t)hi,32))); mstale=true; RET(sym_int,mk(K_BV,32,a)); return lo; }
int sym_pick(const char*nm,int lo,int hi){ lo=(int)argi(1,(uint32_t)lo,32); hi=(int)argi(2,(uint32_t)hi,32); string n=uniq(nm); Z3_ast a=Z3_mk_const(C,Z3_mk_string_symbol(C,n.c_str()),Z3_mk_bv_sort(C,32)); inputs.push_back({n,0,a,32});
  addpc(Z3_mk_bvsge(C,a,bvc((uint32_t)lo,32))); addpc(Z3_mk_bvsle(C,a,bvc((uint32_t)hi,32))); mstale=true; int v=(int)enumerate(a,false,32,true); RET(sym_pick,nullptr); return v; }
int64_t sym_long(const char*nm,int64_t lo,int64_t hi){ lo=argi(1,lo); hi=argi(2,hi); string n=uniq(nm); Z3_ast a=Z3_mk_const(C,Z3_mk_string_symbol(C,n.c_str()),Z3_mk_bv_sort(C,64)); inputs.push_back({n,0,a,64});
  addpc(Z3_mk_bvsge(C,a,bvc(lo,64))); addpc(Z3_mk_bvsle(C,a,bvc(hi,64))); mstale=true; RET(sym_long,mk(K_BV,64,a)); return lo; }
double sym_double(const char*nm,double lo,double hi){ string n=uniq(nm); Z3_ast a=Z3_mk_const(C,Z3_mk_string_symbol(C,n.c_str()),REAL); inputs.push_back({n,1,a,64}); bnd[aid(a)]={lo,hi};
  addpc(Z3_mk_ge(C,a,numr(lo))); addpc(Z3_mk_le(C,a,numr(hi))); mstale=true; RET(sym_double,mk(K_REAL,64,a)); return lo; }
double sym_fresh(double lo,double hi){ Z3_ast a=freshr("env",-INFINITY,INFINITY); if(std::isfinite(lo)&&std::isfinite(hi)) bnd[aid(a)]={lo,hi}; if(std::isfinite(lo)) addpc(Z3_mk_ge(C,a,numr(lo))); if(std::isfinite(hi)) addpc(Z3_mk_le(C,a,numr(hi))); mstale=true; RET(sym_fresh,mk(K_REAL,64,a)); return 0; }
void sym_bytes(const char*nm,void*p,size_t n){ n=argi(2,n); for(size_t i=0;i<n;i++){ char b[80]; snprintf(b,80,"%s[%zu]",nm,i); string s=uniq(b); Z3_ast a=Z3_mk_const(C,Z3_mk_string_symbol(C,s.c_str()),Z3_mk_bv_sort(C,8)); inputs.push_back({s,0,a,8}); shset((uint64_t)p+i,mk(K_BV,8,a),0); } mstale=true; __sym_callee=nullptr; }
void sym_assume(int c){ Node*s=__sym_args[0]; __sym_callee=nullptr; if(!s){ if(!c){ ADD(infeasible,1); pathend(); } return; } Z3_ast a=s->k==K_BOOL?s->a:bnot(Z3_mk_eq(C,iv(c,s,32),bvc(0,32))); assume(a); if(!ensure_model()) {} }
void sym_assert(int c,const char*msg){ Node*s=__sym_args[0]; __sym_callee=nullptr; tick(); ADD(witness,1);
  if(!s){ ADD(asserts,1); if(c){ ADD(proved,1); ADD(syntactic,1);} else vio_here("assert",msg); return; } check_bool(s->k==K_BOOL?s->a:bnot(Z3_mk_eq(C,iv(c,s,32),bvc(0,32))),msg); }
static void closex(double a,Node*sa,double b,Node*sb,double tol,const char*msg,bool le){ tick(); ADD(witness,1);
  double x,y; bool cx=isc(a,sa,x),cy=isc(b,sb,y); if(cx&&cy){ ADD(asserts,1); ADD(closes,1); bool ok=le?(x<=y+tol):(fabs(x-y)<=tol); if(ok){ ADD(proved,1); ADD(syntactic,1);} else { char t[64]; snprintf(t,64," (%.10g vs %.10g)",x,y); (void)t; vio_here("assert",string(msg)); } return; }
  if((cx&&!std::isfinite(x))||(cy&&!std::isfinite(y))){ vio_here("assert",string(msg)+" (non-finite)"); return; }
  check_close(rv(a,sa),rv(b,sb),tol,msg,le); }
void sym_close(double a,double b,double tol,const char*msg){ Node*sa=__sym_args[0],*sb=__sym_args[1]; __sym_callee=nullptr; closex(a,sa,b,sb,tol,msg,false); }
void sym_le(double a,double b,double tol,const char*msg){ Node*sa=__sym_args[0],*sb=__sym_args[1]; __sym_callee=nullptr; closex(a,sa,b,sb,tol,msg,true); }
void sym_fail(const char*msg){ __sym_callee=nullptr; ADD(asserts,1); vio_here("assert",msg); pathend(); }
void sym_end(){ __sym_callee=nullptr; pathend(); }
void sym_reach(const char*m){ __sym_callee=nullptr; sem_wait(&sh->nlock); bool f=false; for(int i=0;i<sh->nreach;i++) if(!strcmp(sh->reach[i],m)) f=true; if(!f&&sh->nreach<64){ snprintf(sh->reach[sh->nreach],64,"%s",m); sh->nreach=sh->nreach+1;} sem_post(&sh->nlock); }
void sym_note(const char*m){ __sym_callee=nullptr; note("%s",m); }
int sym_symbolic(void){ RET(sym_symbolic,nullptr); return 1; }
void sym_tidy(int on){ tidyon=on; __sym_callee=nullptr; }
void sym_trigadd(int on){ trigadd=on; __sym_callee=nullptr; }
void sym_memcheck(int on){ memcheck=on; __sym_callee=nullptr; }
void sym_dump(const char*nm,double v){ Node*s=__sym_args[1]; __sym_callee=nullptr; if(!s){ fprintf(stderr,"%s = %.17g\n",nm,v);} else if(s->isnum) fprintf(stderr,"%s = num %.17g\n",nm,s->num); else fprintf(stderr,"%s = %s\n",nm,Z3_ast_to_string(C,som(ra(s)))); }
void sym_dumpi(const char*nm,int v){ Node*s=__sym_args[1]; __sym_callee=nullptr; if(!s) fprintf(stderr,"%s = %d\n",nm,v); else fprintf(stderr,"%s = %s\n",nm,s->a?Z3_ast_to_string(C,Z3_simplify(C,s->a)):"mix"); }
// force a value concrete by enumeration
int sym_conc(int v){ Node*s=__sym_args[0]; int r=s?(int)__sym_conc(v,s,32):v; RET(sym_conc,nullptr); return r; }
// numbers as text: a tag registers a real value; parsing the tag's text returns a value rounded to prec significant digits
struct TagT{ Node*n; double v; int prec; }; static std::map<string,TagT> tags; static int tagn;
// write a placeholder for double v (printed with prec significant digits) into buf; returns length
int sym_tag_put(double v,int prec,char*buf){ Node*s=__sym_args[0]; __sym_callee=nullptr; if(!s||s->isnum){ RET(sym_tag_put,nullptr); return 0; } char b[40]; snprintf(b,40,"1.%06d7e+77",tagn++); tags[b]={s,v,prec}; strcpy(buf,b); shclear((uint64_t)buf,strlen(b)+1); RET(sym_tag_put,nullptr); return strlen(b); }
int sym_tag_is(const char*txt){ __sym_callee=nullptr; int r=0; if(!shany((uint64_t)txt,1)) r=tags.count(txt); RET(sym_tag_is,nullptr); return r; }
static int tagmin=1000; void sym_tag_exact(int p){ tagmin=(int)argi(0,(uint32_t)p,32); __sym_callee=nullptr; }
double sym_tag_get(const char*txt){ auto it=tags.find(txt); __sym_callee=nullptr; if(it==tags.end()){ RET(sym_tag_get,nullptr); return 0; } TagT t=it->second; Node*n=t.n; bool fx=t.prec>=100; if((fx?t.prec-100:t.prec)<std::min(tagmin,17)){ // |y-x| <= 0.5*10^(1-p)*|x|, fixed point: 0.5*10^-p
   Z3_ast x=ra(n); double lo,hi; double e=0.5*std::pow(10.0,fx?100-t.prec:1-t.prec); double L=-INFINITY,H=INFINITY; if(interval(x,lo,hi)){ double m=(fx?1.0:std::max(fabs(lo),fabs(hi)))*e; L=lo-m;H=hi+m; } Z3_ast y=freshr("txt",L,H); Z3_ast eb; if(fx) eb=numr(e); else { Z3_ast ab=Z3_mk_ite(C,Z3_mk_ge(C,x,numr(0)),x,Z3_mk_unary_minus(C,x)); eb=mul2(numr(e),ab); } addpc(Z3_mk_le(C,sub2(y,x),eb)); addpc(Z3_mk_le(C,sub2(x,y),eb)); n=rn(y); }
  RET(sym_tag_get,n); return 0; }
// ---- OpenMP: teams are simulated one member after the other; optional race recording
static int omp_team=1,omp_max=1,omp_tid=0; static int racecheck=0; static int omp_rev=0;
void sym_omp(int team,int races_on){ team=(int)argi(0,(uint32_t)team,32); omp_max=team; racecheck=races_on; __sym_callee=nullptr; }
int omp_get_max_threads(void){ RET(omp_get_max_threads,nullptr); return omp_max; }
int omp_get_num_threads(void){ RET(omp_get_num_threads,nullptr); return omp_team; }
int omp_get_thread_num(void){ RET(omp_get_thread_num,nullptr); return omp_tid; }
int omp_in_parallel(void){ RET(omp_in_parallel,nullptr); return inpar; }
int omp_get_num_procs(void){ RET(omp_get_num_procs,nullptr); return omp_max; }
void omp_set_num_threads(int n){ n=(int)argi(0,(uint32_t)n,32); if(n>0) omp_max=n; __sym_callee=nullptr; }
void omp_set_nested(int){ __sym_callee=nullptr; } void omp_set_dynamic(int){ __sym_callee=nullptr; } int omp_get_nested(void){ RET(omp_get_nested,nullptr); return 0; } int omp_get_dynamic(void){ RET(omp_get_dynamic,nullptr); return 0; }
double omp_get_wtime(void){ RET(omp_get_wtime,nullptr); return 0; }
static int pushnt=0;
int __kmpc_global_thread_num(void*){ RET(__kmpc_global_thread_num,nullptr); return omp_tid; }
void __kmpc_push_num_threads(void*,int,int n){ pushnt=(int)argi(2,(uint32_t)n,32); __sym_callee=nullptr; }
typedef void(*mt_t)(int*,int*,...);
void __kmpc_fork_call(void*loc,int argc,void*fn,...){
  void*av[30]; Node*as[30]; va_list ap; va_start(ap,fn); if(argc>24) incomplete("too many captured variables"); for(int i=0;i<argc;i++){ av[i]=va_arg(ap,void*); as[i]=__sym_args[3+i]; } va_end(ap);
  int T=inpar?1:(pushnt?pushnt:omp_max); pushnt=0; int ot=omp_team,oi=omp_tid; bool op=inpar; bool outer=!inpar; omp_team=T; inpar=true;
  if(outer&&racecheck){ races.clear(); char x; stkhi=(uint64_t)&x; raceon=1; }
  for(int t=0;t<T;t++){ int id=t; omp_tid=id; racetid=id; int g=id,b=id; if(outer&&racecheck&&t){ /* stack frames of team members are private: forget them */ for(auto it=races.begin();it!=races.end();) if(it->first<stkhi&&it->first>stkhi-(8u<<20)) it=races.erase(it); else ++it; }
    shclear((uint64_t)&g,4); shclear((uint64_t)&b,4); __sym_args[0]=__sym_args[1]=nullptr; for(int i=0;i<argc;i++) __sym_args[2+i]=as[i]; __sym_callee=fn;
    typedef void*V; 
    ((void(*)(int*,int*,V,V,V,V,V,V,V,V,V,V,V,V,V,V,V,V,V,V,V,V,V,V,V,V))fn)(&g,&b,av[0],av[1],av[2],av[3],av[4],av[5],av[6],av[7],av[8],av[9],av[10],av[11],av[12],av[13],av[14],av[15],av[16],av[17],av[18],av[19],av[20],av[21],av[22],av[23]); }
  if(outer) { raceon=0; races.clear(); }
  omp_team=ot; omp_tid=oi; inpar=op; __sym_callee=nullptr; }
static int64_t ldc(void*p,int nb){ Node*s=__sym_ldi((uint8_t*)p,nb,nb*8); int64_t v=0; if(nb==4){ v=*(int32_t*)p; } else v=*(int64_t*)p; if(s){ uint64_t u=__sym_conc(v,s,nb*8); v=nb==4?(int64_t)(int32_t)u:(int64_t)u; } return v; }
static void stc(void*p,int nb,int64_t v){ if(nb==4) *(int32_t*)p=(int32_t)v; else *(int64_t*)p=v; shclear((uint64_t)p,nb); }
static void sinit(int sched,void*plast,void*pl,void*pu,void*ps,int64_t incr,int64_t chunk,int nb){
  int64_t l=ldc(pl,nb),u=ldc(pu,nb); int T=omp_team,t=omp_tid; if(incr==0) incr=1; int64_t n=incr>0?(u-l)/incr+1:(l-u)/(-incr)+1; if((incr>0&&u<l)||(incr<0&&u>l)) n=0; sched&=0xffff;
  if(n==0){ if(plast) stc(plast,4,0); stc(ps,nb,incr); return; }
  if(sched==33||chunk<1&&sched!=34){ if(chunk<1) chunk=1; int64_t span=incr*chunk; stc(ps,nb,span*T); int64_t nl=l+span*t; stc(pl,nb,nl); stc(pu,nb,nl+span-incr); stc(plast,4,((n-1)/chunk)%T==t); return; }
  int64_t small=n/T,ext=n%T; int64_t nl=l+incr*(t*small+std::min<int64_t>(t,ext)); int64_t cnt=small+(t<ext); int64_t nu=nl+incr*(cnt-1); stc(pl,nb,nl); stc(pu,nb,nu); stc(ps,nb,incr*n); stc(plast,4,cnt>0&&((t==T-1&&small)||(!small&&t==ext-1))); }
void __kmpc_for_static_init_4(void*,int,int s,void*pla,void*pl,void*pu,void*ps,int incr,int ch){ __sym_callee=nullptr; sinit(s,pla,pl,pu,ps,incr,ch,4); }
void __kmpc_for_static_init_4u(void*,int,int s,void*pla,void*pl,void*pu,void*ps,int incr,int ch){ __sym_callee=nullptr; sinit(s,pla,pl,pu,ps,incr,ch,4); }
void __kmpc_for_static_init_8(void*,int,int s,void*pla,void*pl,void*pu,void*ps,int64_t incr,int64_t ch){ __sym_callee=nullptr; sinit(s,pla,pl,pu,ps,incr,ch,8); }
void __kmpc_for_static_init_8u(void*,int,int s,void*pla,void*pl,void*pu,void*ps,int64_t incr,int64_t ch){ __sym_callee=nullptr; sinit(s,pla,pl,pu,ps,incr,ch,8); }
void __kmpc_for_static_fini(void*,int){ __sym_callee=nullptr; }
void __kmpc_barrier(void*,int){ __sym_callee=nullptr; if(omp_team>1) note("barrier inside a simulated team: members run one after the other"); }
// dynamic schedules: the whole range goes to members in turn, one iteration per request
static struct { int64_t cur[8],ub[8],st[8]; } dynl; static int64_t dl,du,dst; static int dynarmed=0;
static void dinit(int64_t lb,int64_t ub,int64_t st){ int T=omp_team,t=omp_tid; int64_t n=st>0?(ub-lb)/st+1:(lb-ub)/(-st)+1; if((st>0&&ub<lb)||(st<0&&ub>lb)) n=0; int64_t sm=n/T,ex=n%T; dl=lb+st*(t*sm+std::min<int64_t>(t,ex)); du=sm+(t<ex); dst=st; }
void __kmpc_dispatch_init_4(void*,int,int,int lb,int ub,int st,int){ lb=(int)argi(3,(uint32_t)lb,32); ub=(int)argi(4,(uint32_t)ub,32); __sym_callee=nullptr; dinit(lb,ub,st); }
void __kmpc_dispatch_init_8(void*,int,int,int64_t lb,int64_t ub,int64_t st,int64_t){ lb=argi(3,lb); ub=argi(4,ub); __sym_callee=nullptr; dinit(lb,ub,st); }
int __kmpc_dispatch_next_4(void*,int,int*last,int*lb,int*ub,int*st){ RET(__kmpc_dispatch_next_4,nullptr); if(du<=0) return 0; stc(lb,4,dl); stc(ub,4,dl); stc(st,4,dst); if(last) stc(last,4,du==1); dl+=dst; du--; return 1; }
int __kmpc_dispatch_next_8(void*,int,int*last,int64_t*lb,int64_t*ub,int64_t*st){ RET(__kmpc_dispatch_next_8,nullptr); if(du<=0) return 0; stc(lb,8,dl); stc(ub,8,dl); stc(st,8,dst); if(last) stc(last,4,du==1); dl+=dst; du--; return 1; }
void __kmpc_dispatch_deinit(void*,int){ __sym_callee=nullptr; }
static int saverace; 
int __kmpc_reduce(void*,int,int,size_t,void*,void*,void*){ saverace=raceon; raceon=0; RET(__kmpc_reduce,nullptr); return 1; }
int __kmpc_reduce_nowait(void*,int,int,size_t,void*,void*,void*){ saverace=raceon; raceon=0; RET(__kmpc_reduce_nowait,nullptr); return 1; }
void __kmpc_end_reduce(void*,int,void*){ raceon=saverace; __sym_callee=nullptr; }
void __kmpc_end_reduce_nowait(void*,int,void*){ raceon=saverace; __sym_callee=nullptr; }
void __kmpc_critical(void*,int,void*){ saverace=raceon; raceon=0; __sym_callee=nullptr; } void __kmpc_end_critical(void*,int,void*){ raceon=saverace; __sym_callee=nullptr; }
int __kmpc_master(void*,int){ RET(__kmpc_master,nullptr); return omp_tid==0; } void __kmpc_end_master(void*,int){ __sym_callee=nullptr; }
int __kmpc_single(void*,int){ RET(__kmpc_single,nullptr); return omp_tid==0; } void __kmpc_end_single(void*,int){ __sym_callee=nullptr; }
void __kmpc_serialized_parallel(void*,int){ __sym_callee=nullptr; } void __kmpc_end_serialized_parallel(void*,int){ __sym_callee=nullptr; }
int __kmpc_ok_to_fork(void*){ RET(__kmpc_ok_to_fork,nullptr); return 1; } void __kmpc_flush(void*){ __sym_callee=nullptr; }
void omp_init_lock(void*){ __sym_callee=nullptr; } void omp_set_lock(void*){ saverace=raceon; raceon=0; __sym_callee=nullptr; } void omp_unset_lock(void*){ raceon=saverace; __sym_callee=nullptr; } void omp_destroy_lock(void*){ __sym_callee=nullptr; }
void sym_main(void);
}
#include <setjmp.h>
static volatile int insig; static sigjmp_buf inwhere;
static void onsig(int s){ if(s==SIGALRM){ _exit((ADD(incomplete,1),note("incomplete: time budget of the run exhausted"),0)); }
  if(insig++){ if(insig==2) siglongjmp(inwhere,1); _exit(9); } char b[64]; snprintf(b,64,"signal %d (%s) in ",s,strsignal(s)); string w=b; if(!sigsetjmp(inwhere,1)) w+=where(); signal(s,SIG_DFL); vio_here("crash",w); pathend(); }
static void initz3(){ Z3_config cfg=Z3_mk_config(); C=Z3_mk_context(cfg); Z3_set_error_handler(C,onerr); BOOL=Z3_mk_bool_sort(C); REAL=Z3_mk_real_sort(C); INT=Z3_mk_int_sort(C); btrue=Z3_mk_true(C); bfalse=Z3_mk_false(C); S=Z3_mk_simple_solver(C); Z3_solver_inc_ref(C,S);
  Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"rlimit"),(unsigned)qrl); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"random_seed"),(unsigned)sh->seed); Z3_solver_set_params(C,S,p); }
// the shared area must exist before global constructors of the instrumented module run
struct Boot { Boot(){ sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)sh,0,sizeof *sh); const char*e; int w=(e=getenv("SYM_JOBS"))?atoi(e):8; sem_init(&sh->tok,1,w-1); sem_init(&sh->nlock,1,1);
  outdir=(e=getenv("SYM_OUT"))?e:"/tmp"; deadline=now()+((e=getenv("SYM_TIME"))?atof(e):60); debug=(e=getenv("SYM_DEBUG"))?atoi(e):0; if((e=getenv("SYM_MAXBR"))) maxbr=atol(e); if((e=getenv("SYM_QSEC"))) qsec=atof(e); if((e=getenv("SYM_RLIMIT"))) qrl=atol(e); sh->seed=(e=getenv("VERIF_SEED"))?atol(e):1; if((e=getenv("SYM_MAXVIOL"))) maxviol=atoi(e);
  initz3(); } };
static Boot boot;
static void jstr(FILE*o,const char*s){ fputc('"',o); for(;*s;s++){ if(*s=='"'||*s=='\\') fputc('\\',o); if((unsigned char)*s>=32) fputc(*s,o);} fputc('"',o); }
int main(int argc,char**argv){
  double t0=now(); fflush(NULL); pid_t p=fork();
  if(p==0){ 
    static char alt[1<<24]; stack_t ss{}; ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,nullptr); struct sigaction sa{}; sa.sa_handler=onsig; sa.sa_flags=SA_ONSTACK|SA_NODEFER; for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGABRT,SIGILL,SIGALRM}) sigaction(s,&sa,nullptr);
    resettimer(); __sym_callee=nullptr; sym_main(); ADD(paths,1); pathend(); }
  int st; while(waitpid(p,&st,0)<0&&errno==EINTR); if(WIFSIGNALED(st)||(WIFEXITED(st)&&WEXITSTATUS(st))){ ADD(incomplete,1); note("root worker ended abnormally (%d)",st); }
  Dl_info di; dladdr((void*)main,&di);
  FILE*o=fopen((outdir+"/stats.json").c_str(),"w"); fprintf(o,"{\"paths\":%ld,\"infeasible\":%ld,\"forks\":%ld,\"branches\":%ld,\"queries\":%ld,\"unknown\":%ld,\"asserts\":%ld,\"proved\":%ld,\"closes\":%ld,\"lra\":%ld,\"nla\":%ld,\"sampled\":%ld,\"syntactic\":%ld,\"unproved\":%ld,\"violations\":%ld,\"incomplete\":%ld,\"escapes\":%ld,\"solver_s\":%.3f,\"wall_s\":%.3f,\n\"notes\":[",
    sh->ended-sh->infeasible,sh->infeasible,sh->forks,sh->branches,sh->queries,sh->unknown,sh->asserts,sh->proved,sh->closes,sh->lra,sh->nla,sh->sampled,sh->syntactic,sh->unproved,sh->viol,sh->incomplete,sh->escapes,sh->solver_us*1e-6,now()-t0);
  for(int i=0;i<sh->nnotes;i++){ if(i) fputc(',',o); jstr(o,sh->notes[i]); } fprintf(o,"],\n\"unproved_msgs\":["); for(int i=0;i<sh->nuq;i++){ if(i) fputc(',',o); jstr(o,sh->uq[i]); } fprintf(o,"],\n\"reach\":["); for(int i=0;i<sh->nreach;i++){ if(i) fputc(',',o); jstr(o,sh->reach[i]); }
  fprintf(o,"],\n\"fns\":["); for(long i=0;i<sh->fnct&&i<4096;i++) fprintf(o,"%s%lu",i?",":"",(unsigned long)((char*)sh->fns[i]-(char*)di.dli_fbase)); fprintf(o,"]}\n"); fclose(o); return 0; }
void operator delete(void*p) noexcept { nfree(p); }
void operator delete(void*p,size_t) noexcept { nfree(p); }
void operator delete[](void*p) noexcept { nfree(p); }
void operator delete[](void*p,size_t) noexcept { nfree(p); }
