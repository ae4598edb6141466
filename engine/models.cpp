// Instrumented models of external functions. A call to X from the code under test is redirected to symm_X.
#include <stddef.h>
#include <stdint.h>
#include <errno.h>
#include <stdio.h>
extern "C" {
void*sym_malloc(size_t); void*sym_memalign(size_t,size_t); void sym_free(void*); size_t sym_msize(void*); int sym_is_sym(void*,size_t); int sym_conc(int); double sym_fresh(double,double); void sym_note(const char*);
int sym_tag_put(double v,int prec,char*buf); int sym_tag_is(const char*); double sym_tag_get(const char*);
double sym_math_dummy(double);
void __verif_throw_bad_alloc();
void*symm_malloc(size_t n){ return sym_malloc(n); }
void symm_free(void*p){ sym_free(p); }
void*symm_calloc(size_t a,size_t b){ size_t n=a*b; char*p=(char*)sym_malloc(n); if(p) __builtin_memset(p,0,n); return p; }
void*symm_realloc(void*p,size_t n){ if(!p) return sym_malloc(n); size_t o=sym_msize(p); void*q=sym_malloc(n); if(q){ __builtin_memcpy(q,p,o<n?o:n); sym_free(p);} return q; }
int symm_posix_memalign(void**o,size_t al,size_t n){ void*p=sym_memalign(al,n); if(!p) return 12; *o=p; return 0; }
void*symm_aligned_alloc(size_t al,size_t n){ return sym_memalign(al,n); }
void*symm_memalign(size_t al,size_t n){ return sym_memalign(al,n); }
void*symm__Znwm(size_t n){ void*p=sym_malloc(n); if(!p) __verif_throw_bad_alloc(); return p; }
void*symm__Znam(size_t n){ void*p=sym_malloc(n); if(!p) __verif_throw_bad_alloc(); return p; }
void*symm__ZnwmRKSt9nothrow_t(size_t n,void*){ return sym_malloc(n); }
void*symm__ZnamRKSt9nothrow_t(size_t n,void*){ return sym_malloc(n); }
void symm__ZdlPv(void*p){ sym_free(p); } void symm__ZdaPv(void*p){ sym_free(p); }
void symm__ZdlPvm(void*p,size_t){ sym_free(p); } void symm__ZdaPvm(void*p,size_t){ sym_free(p); }
size_t symm_strlen(const char*s){ size_t n=0; while(s[n]) n++; return n; }
int symm_memcmp(const void*a,const void*b,size_t n){ const unsigned char*x=(const unsigned char*)a,*y=(const unsigned char*)b; int r=0; for(size_t i=n;i-->0;){ int d=(int)x[i]-(int)y[i]; r=d!=0?d:r; } return r; }
int symm_bcmp(const void*a,const void*b,size_t n){ return symm_memcmp(a,b,n); }
int symm_strcmp(const char*a,const char*b){ for(;;a++,b++){ if(*a!=*b) return (unsigned char)*a-(unsigned char)*b; if(!*a) return 0; } }
int symm_strncmp(const char*a,const char*b,size_t n){ for(;n;n--,a++,b++){ if(*a!=*b) return (unsigned char)*a-(unsigned char)*b; if(!*a) return 0; } return 0; }
void*symm_memchr(const void*s,int c,size_t n){ const unsigned char*p=(const unsigned char*)s; for(size_t i=0;i<n;i++) if(p[i]==(unsigned char)c) return (void*)(p+i); return 0; }
char*symm_strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char*symm_strrchr(const char*s,int c){ const char*r=0; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
char*symm_strcpy(char*d,const char*s){ size_t i=0; do d[i]=s[i]; while(s[i++]); return d; }
char*symm_stpcpy(char*d,const char*s){ size_t i=0; for(;;){ d[i]=s[i]; if(!s[i]) return d+i; i++; } }
char*symm_strncpy(char*d,const char*s,size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char*symm_strcat(char*d,const char*s){ symm_strcpy(d+symm_strlen(d),s); return d; }
char*symm_strdup(const char*s){ size_t n=symm_strlen(s)+1; char*p=(char*)sym_malloc(n); __builtin_memcpy(p,s,n); return p; }
char*symm_strstr(const char*h,const char*n){ size_t l=symm_strlen(n); for(;;h++){ size_t i=0; while(i<l&&h[i]==n[i]) i++; if(i==l) return (char*)h; if(!*h) return 0; } }
int symm_isspace(int c){ return (c==32)|((c>=9)&(c<=13)); }
int symm_isdigit(int c){ return (c>=48)&(c<=57); }
int symm_isalpha(int c){ return ((c>=65)&(c<=90))|((c>=97)&(c<=122)); }
int symm_isalnum(int c){ return symm_isdigit(c)|symm_isalpha(c); }
int symm_isupper(int c){ return (c>=65)&(c<=90); } int symm_islower(int c){ return (c>=97)&(c<=122); }
int symm_toupper(int c){ return symm_islower(c)?c-32:c; } int symm_tolower(int c){ return symm_isupper(c)?c+32:c; }

// ---------------- FFTW: the exact discrete Fourier transform, planning clobbers the buffers unless it is ESTIMATE or WISDOM_ONLY
struct VP { int nd,n[8],is[8],os[8],ln,lcnt[8],lis[8],los[8]; int sign; int kind; };
static const double W8r[8]={1,0.70710678118654752440,0,-0.70710678118654752440,-1,-0.70710678118654752440,0,0.70710678118654752440};
extern double symn_cos2pi(int k,int n); extern double symn_sin2pi(int k,int n);
static VP*newplan(){ VP*p=(VP*)sym_malloc(sizeof(VP)); p->nd=p->ln=0; p->kind=0; return p; }
static void clobber(double*a,long n){ for(long i=0;i<n;i++) a[i]=7.25+i; }
enum { M_ESTIMATE=64, M_WISDOM_ONLY=1<<21, M_PATIENT=32 };
// accumulated wisdom: a problem planned before (at the same or a higher rigor) is planned again without touching the data
static long wis[64][40]; static int nwis;
static int level(unsigned fl){ return fl&M_ESTIMATE?0:fl&M_PATIENT?2:1; }
static void*finish(VP*p,long tot,double*in,double*out,unsigned fl){
  long key[40]; int k=0; key[k++]=p->nd; key[k++]=p->sign; key[k++]=in==out; for(int i=0;i<p->nd;i++){ key[k++]=p->n[i]; key[k++]=p->is[i]; key[k++]=p->os[i]; }
  key[k++]=p->ln; for(int i=0;i<p->ln;i++){ key[k++]=p->lcnt[i]; key[k++]=p->lis[i]; key[k++]=p->los[i]; }
  for(int w=0;w<nwis;w++){ int eq=wis[w][0]==k && wis[w][1]>=level(fl); for(int i=0;eq&&i<k;i++) if(wis[w][2+i]!=key[i]) eq=0; if(eq) return p; }
  if(fl&M_WISDOM_ONLY){ sym_free(p); return 0; }
  if(nwis<64){ wis[nwis][0]=k; wis[nwis][1]=level(fl); for(int i=0;i<k;i++) wis[nwis][2+i]=key[i]; nwis++; }
  if(!(fl&M_ESTIMATE)){ clobber(in,2*tot); if(out!=in) clobber(out,2*tot); } return p; }
void*symm_fftw_plan_dft(int nd,const int*n,double*in,double*out,int sign,unsigned fl){
  VP*p=newplan(); p->nd=nd; p->sign=sign; long tot=1; for(int i=nd-1;i>=0;i--){ p->n[i]=n[i]; p->is[i]=p->os[i]=tot; tot*=n[i]; }
  return finish(p,tot,in,out,fl); }
void*symm_fftw_plan_dft_1d(int n,double*in,double*out,int sign,unsigned fl){ return symm_fftw_plan_dft(1,&n,in,out,sign,fl); }
struct IOD{int n,is,os;};
void*symm_fftw_plan_guru_dft(int r,const IOD*d,int h,const IOD*l,double*in,double*out,int sign,unsigned fl){
  VP*p=newplan(); p->nd=r; p->sign=sign; long tot=1; for(int i=0;i<r;i++){ p->n[i]=d[i].n; p->is[i]=d[i].is; p->os[i]=d[i].os; tot*=d[i].n; }
  p->ln=h; for(int i=0;i<h;i++){ p->lcnt[i]=l[i].n; p->lis[i]=l[i].is; p->los[i]=l[i].os; tot*=l[i].n; }
  return finish(p,tot,in,out,fl); }
void*symm_fftw_plan_dft_r2c_1d(int n,double*in,double*out,unsigned fl){ if(fl&M_WISDOM_ONLY) return 0; VP*p=newplan(); p->nd=1; p->n[0]=n; p->kind=1; if(!(fl&M_ESTIMATE)){ clobber(in,n); clobber(out,2*(n/2+1)); } return p; }
void*symm_fftw_plan_dft_c2r_1d(int n,double*in,double*out,unsigned fl){ if(fl&M_WISDOM_ONLY) return 0; VP*p=newplan(); p->nd=1; p->n[0]=n; p->kind=2; if(!(fl&M_ESTIMATE)){ clobber(out,n); clobber(in,2*(n/2+1)); } return p; }
static void dft1(double*a,long is,double*b,long os,int n,int sign){ // a -> b (may alias)
  double*t=(double*)sym_malloc(16*n);
  for(int k=0;k<n;k++){ double sr=0,si=0; for(int j=0;j<n;j++){ int m=(int)((long)j*k%n); double c=symn_cos2pi(m,n),s=sign*symn_sin2pi(m,n); double xr=a[2*is*j],xi=a[2*is*j+1]; sr+=xr*c-xi*s; si+=xr*s+xi*c; } t[2*k]=sr;t[2*k+1]=si; }
  for(int k=0;k<n;k++){ b[2*os*k]=t[2*k]; b[2*os*k+1]=t[2*k+1]; } sym_free(t); }
static void runloop(VP*p,int l,double*in,double*out){
  if(l<p->ln){ for(int i=0;i<p->lcnt[l];i++) runloop(p,l+1,in+2l*i*p->lis[l],out+2l*i*p->los[l]); return; }
  // first dimension in -> out, following ones in place in out
  long tot=1; for(int i=0;i<p->nd;i++) tot*=p->n[i];
  for(int d=0;d<p->nd;d++){ int n=p->n[d]; long rest=tot/n;
    for(long r=0;r<rest;r++){ long q=r,oi=0,oo=0; for(int e=0;e<p->nd;e++) if(e!=d){ int ix=q%p->n[e]; q/=p->n[e]; oi+=(long)ix*p->is[e]; oo+=(long)ix*p->os[e]; }
      if(d==0) dft1(in+2*oi,p->is[d],out+2*oo,p->os[d],n,p->sign); else dft1(out+2*oo,p->os[d],out+2*oo,p->os[d],n,p->sign); } } }
void symm_fftw_execute_dft(void*pl,double*in,double*out){ runloop((VP*)pl,0,in,out); }
void symm_fftw_execute_dft_r2c(void*pl,double*in,double*out){ VP*p=(VP*)pl; int n=p->n[0]; for(int k=0;k<=n/2;k++){ double sr=0,si=0; for(int j=0;j<n;j++){ int m=(int)((long)j*k%n); sr+=in[j]*symn_cos2pi(m,n); si-=in[j]*symn_sin2pi(m,n);} out[2*k]=sr; out[2*k+1]=si; } }
void symm_fftw_execute_dft_c2r(void*pl,double*in,double*out){ VP*p=(VP*)pl; int n=p->n[0]; for(int j=0;j<n;j++){ double s=in[0]; for(int k=1;k<=n/2;k++){ int m=(int)((long)j*k%n); double c=symn_cos2pi(m,n),sn=symn_sin2pi(m,n); double w=(2*k==n)?1:2; s+=w*(in[2*k]*c-(2*k==n?0:in[2*k+1]*sn)); } out[j]=s; } for(int k=0;k<=n/2;k++) { in[2*k]=3.5; in[2*k+1]=-1.5; } }
void symm_fftw_destroy_plan(void*p){ sym_free(p); }
int symm_fftw_init_threads(){ return 1; } void symm_fftw_plan_with_nthreads(int){} void symm_fftw_cleanup_threads(){} void symm_fftw_cleanup(){ nwis=0; }
int symm_fftw_import_wisdom_from_file(FILE*){ return 0; } void symm_fftw_export_wisdom_to_file(FILE*){}
}
