// Native implementation of the harness API: inputs come from the counterexample file.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <omp.h>
#include <unistd.h>
static std::map<std::string,std::string> vals; static std::map<std::string,int> cnt; static int failed;
static std::string uq(const char*n){ std::string s=n; int k=cnt[s]++; if(k){ char b[16]; snprintf(b,16,"#%d",k); s+=b;} return s; }
static bool get(const std::string&k,std::string&v){ auto i=vals.find(k); if(i==vals.end()) return false; v=i->second; return true; }
extern "C" {
void sym_main(void);
int sym_int(const char*n,int lo,int hi){ std::string v; int r=lo; if(get(uq(n),v)) r=(int)atoll(v.c_str()); if(r<lo||r>hi) r=lo; return r; }
int sym_pick(const char*n,int lo,int hi){ return sym_int(n,lo,hi); }
int64_t sym_long(const char*n,int64_t lo,int64_t hi){ std::string v; int64_t r=lo; if(get(uq(n),v)) r=atoll(v.c_str()); return r; }
double sym_double(const char*n,double lo,double hi){ std::string v; double r=lo; if(get(uq(n),v)) r=atof(v.c_str()); return r; }
void sym_bytes(const char*n,void*p,size_t k){ for(size_t i=0;i<k;i++){ char b[80]; snprintf(b,80,"%s[%zu]",n,i); std::string v; ((unsigned char*)p)[i]=get(uq(b),v)?(unsigned char)atoi(v.c_str()):0; } }
void sym_assume(int c){ if(!c){ printf("REPLAY assumption not met\n"); fflush(stdout); _exit(failed?1:3);} }
static void fail(const char*m){ failed=1; printf("REPLAY FAILED: %s\n",m); fflush(stdout); }
void sym_assert(int c,const char*m){ if(!c) fail(m); }
void sym_close(double a,double b,double tol,const char*m){ if(!(fabs(a-b)<=tol)){ char t[400]; snprintf(t,400,"%s",m); fail(t); printf("REPLAY VALUES: %.15g vs %.15g (tolerance %g)\n",a,b,tol);} }
void sym_le(double a,double b,double tol,const char*m){ if(!(a<=b+tol)){ fail(m); printf("REPLAY VALUES: %.15g <= %.15g (tolerance %g)\n",a,b,tol);} }
void sym_fail(const char*m){ fail(m); fflush(stdout); _exit(1); }
void sym_reach(const char*){} void sym_note(const char*){} void sym_end(void){ fflush(stdout); _exit(failed?1:0); }
int sym_symbolic(void){ return 0; } void sym_trigadd(int){} void sym_tidy(int){} void sym_memcheck(int){}
void sym_omp(int t,int){ omp_set_dynamic(0); omp_set_num_threads(t); }
int sym_conc(int v){ return v; } double sym_fresh(double lo,double){ return lo; } void sym_dump(const char*n,double v){ printf("%s=%.17g\n",n,v);} void sym_dumpi(const char*n,int v){ printf("%s=%d\n",n,v);} long sym_live(void){ return 0; }
}
#include <exception>
int main(int argc,char**argv){ if(argc>1){ FILE*f=fopen(argv[1],"r"); char l[4096]; while(f&&fgets(l,sizeof l,f)){ char n[2000],v[2000]; if(sscanf(l,"in %1999s %1999s",n,v)==2) vals[n]=v; } if(f) fclose(f); }
  sym_main(); fflush(stdout); printf(failed?"REPLAY RESULT violated\n":"REPLAY RESULT ok\n"); fflush(stdout); _exit(failed?1:0); }
