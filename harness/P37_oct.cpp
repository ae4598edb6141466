//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc ChainLoader.cpp GlobalOpList.cpp GlobalWFList.cpp ProgOCT.cpp
//NOT linalg/lapack_rs.cpp
//LIBS protobuf z bz2 lapack blas fftw3 xml2
//TEXT 1
//TIME 300 700
//BOUNDS level functions of 2 amplitudes, 1 or 2 time steps, 1 to 2 iterations (thorough: 3), 1 or 2 targets; one amplitude of an initial or target function, one value of the guess field or of the shape takes any value in [-1,1], the other numbers are given; Runge-Kutta propagator
//REACH field table refused
#include "prog.h"
#include <new>
#include "ProgOCT.h"
// Report is run on stand-in functions of one symbol; the functions it is given are kept for the comparison with the scheme
static std::vector<std::vector<CV> > RI,RT; static bool STAND=false,RSYM=false,OV=true; static int NT=1;
#ifdef SYM_REPLAY
static const double FT=1e-10; // a field found different stays different in the replay
#else
static const double FT=1e-7;
#endif

static CV stand(int k,int it){ CV v(2,dcomplex(0,0)); for(int i=0;i<2;i++) v[i]=conc(k+i); static double R; static bool have=false; if(RSYM&&!have&&it==1){ R=sym_double("r",-1,1); have=true; } if(RSYM&&it==1&&k==0) v[0]._real=R; return v; }
#ifndef SYM_REPLAY
static void setv(WaveFunction*w,const CV&v){ for(int i=0;i<2;i++) at(w,i)=v[i]; }
extern "C" double report(ProgOCT*,WaveFunction**,WaveFunction**,int) __asm__("_ZN5QDLIB7ProgOCT6ReportEPPNS_12WaveFunctionES3_i") __attribute__((weak));
extern "C" double symd__ZN5QDLIB7ProgOCT6ReportEPPNS_12WaveFunctionES3_i(ProgOCT*p,WaveFunction**a,WaveFunction**b,int it){ STAND=true; bool ov=OV; std::vector<CV> x,y; for(int t=0;t<NT;t++){ x.push_back(fv(a[t])); setv(a[t],stand(t,it)); if(ov){ y.push_back(fv(b[t])); setv(b[t],stand(t+3,it)); } }
  report(p,a,b,it); for(int t=0;t<NT;t++){ setv(a[t],x[t]); if(ov) setv(b[t],y[t]); } if(it>0){ RI.push_back(x); RT.push_back(y); } static const double v[]={0.9,0.5,0.125,0.25,0.75,0.375}; return v[it%6]; }
#endif
static void run(const S&x){ static char mem[sizeof(ProgOCT)] __attribute__((aligned(16))); memset(mem,0x5a,sizeof mem); struct D { ProgOCT*p; ~D(){ p->~ProgOCT(); } } d={new(mem) ProgOCT(*X(x))}; d.p->Run(); }
static CM H0,MU; static double DT;
static CV step(const CV&p,double E,int dir){ CV r=p,t=p; for(int k=1;k<=4;k++){ CV a=mv(H0,t),b=mv(MU,t); for(int i=0;i<2;i++){ dcomplex h=a[i]-b[i]*E; t[i]=dcomplex(h._imag,-h._real)*(dir*DT/k); r[i]+=t[i]; } } return r; }
static Laser getl(const S&n){ FileSingle<Laser> f; f.Suffix(BINARY_O_SUFFIX); f.Name(n); Laser l; f >> &l; return l; }
static void putl(const char*n,const std::vector<double>&v){ Laser l; l.Dt(DT); l.Nt(v.size()); for(size_t i=0;i<v.size();i++) l[i]=v[i]; FileSingle<Laser> f; f.Suffix(BINARY_O_SUFFIX); f.Name(n); f << &l; }
extern "C" void sym_main(){ symtext(); textexact(9); sym_tidy(2); std::cout.setstate(std::ios::failbit); DT=0.125;
  int what=sym_pick("what",0,1); OHermitianMatrix*h=mkmat(2,"H",false),*g=mkmat(2,"G",false); (*g)(0,0)=0; (*g)(1,1)=0.25; (*g)(0,1)=(*g)(1,0)=-0.5; putmat(h,"mH"); putmat(g,"mG"); H0=cm(h,1); MU=cm(g,1);
  S P=el("propagator","name=\"RK4\"",el("hamiltonian","name=\"Sum\"",el("a","name=\"HermitianMatrix\" file=\"mH\"")+el("b","name=\"MatDipole\" file=\"mG\" laser=\"las\"")));
  if(what==0){ int method=sym_pick("method",0,2),tt=sym_pick("target",0,2),ph=sym_pick("phase",0,1),nt=sym_pick("targets",1,2),sy=sym_pick("symbol",0,4),it=sym_pick("iterations",1,TIER()?3:2); if(method==2&&tt==2) return; int N=it>=2&&!ph?1:2; bool wl=sym_pick("every",0,1); // targets: functions, operators, moving
    double alpha=2; std::vector<CV> I(nt),T(nt); std::vector<std::vector<CV> > M(nt); std::vector<double> E(N),Sh(N); for(int i=0;i<N;i++){ E[i]=0.5-0.25*i; Sh[i]=1-0.5*i; }
    if(sy==2) E[0]=sym_double("x",-1,1); if(sy==3) Sh[0]=sym_double("x",-1,1); putl("las",E); putl("shp",Sh); S c=P;
    OHermitianMatrix*o=mkmat(2,"O",false); (*o)(0,0)=0.25; (*o)(1,1)=1; (*o)(0,1)=(*o)(1,0)=0.5; putmat(o,"mO"); CM O=cm(o,1);
    for(int t=0;t<nt;t++){ WaveFunction*w=mklevel(2); for(int k=0;k<2;k++) at(w,k)=conc(k+3*t); if(sy==0&&t==nt-1) at(w,1)._imag=sym_double("x",-1,1); putwf(w,(S("i")+char('0'+t)).c_str()); I[t]=fv(w); c+=el(S("wfi")+char('0'+t),S("file=\"i")+char('0'+t)+"\"");
      if(tt==0){ for(int k=0;k<2;k++) at(w,k)=conc(5+k+2*t); if(sy==1&&t==0) at(w,0)._real=sym_double("x",-1,1); putwf(w,(S("t")+char('0'+t)).c_str()); T[t]=fv(w); c+=el(S("wft")+char('0'+t),S("file=\"t")+char('0'+t)+"\""); }
      if(tt==1) c+=el(S("target")+char('0'+t),"name=\"HermitianMatrix\" file=\"mO\"");
      if(tt==2){ for(int s=0;s<=N;s++){ for(int k=0;k<2;k++) at(w,k)=conc(5+k+2*t+3*s); if(sy==1&&t==0&&s==0) at(w,0)._real=sym_double("x",-1,1); putwf(w,(S("m")+char('0'+t)+"_"+num(s)).c_str()); M[t].push_back(fv(w)); } T[t]=M[t][N]; c+=el(S("wft")+char('0'+t),S("file=\"m")+char('0'+t)+"\""); } }
    if(sy==1&&tt==1) return; RSYM=sy==0&&it==1&&tt!=1; NT=nt; OV=tt!=1;
    static const char*mn[]={"krotov","rabitz","rabitzfb"}; run(el("oct",S("dt=\"0.125\" steps=\"")+num(N)+"\" shape=\"shp\" alpha=\"2\" conv=\"0\" dir=\"o\" fname=\"f\" yfile=\"tab\" method=\""+mn[method]+"\" iterations=\""+num(it)+"\" ntargets=\""+num(nt)+"\""+(tt==1?" ttype=\"operator\"":tt==2?" mv=\"true\"":"")+(ph?" phase=\"true\"":"")+(wl?" writel=\"true\"":""),c));
    // the schemes
    std::vector<double> F=E; std::vector<std::vector<CV> > fw(nt),b(nt); Table tab=table("o/tab",false); std::vector<std::vector<double> > all; all.push_back(E); std::vector<std::vector<CV> > PS;
    if(method==2) for(int t=0;t<nt;t++){ CV p=I[t]; fw[t].push_back(p); for(int s=0;s<N;s++){ p=step(p,E[s],1); fw[t].push_back(p); } }
    for(int k=0;k<it;k++){ std::vector<CV> p(I);
      for(int t=0;t<nt;t++){ b[t].assign(N+1,CV()); if(tt==2) b[t]=M[t]; else if(method<2){ CV q=tt?I[t]:T[t]; if(tt){ for(int s=0;s<N;s++) q=step(q,F[s],1); q=mv(O,q); } b[t][N]=q; for(int s=N;s-->0;) b[t][s]=q=step(q,F[s],-1); } }
      std::vector<double> n(N); 
      #define CORR(psi,chi) double im=0; for(int t=0;t<nt;t++){ CV m=mv(MU,psi); dcomplex z=dot(chi,m); if(!ph) z=dot(psi,chi)*z; im+=z._imag; }
      if(method==2){ for(int t=0;t<nt;t++) b[t][N]=tt?mv(O,fw[t][N]):T[t]; for(int s=N;s-->0;){ CORR(fw[t][s+1],b[t][s+1]) double e=-Sh[s]/(alpha*nt)*im; for(int t=0;t<nt;t++) b[t][s]=step(b[t][s+1],e,-1); } }
      for(int s=0;s<N;s++){ if(method==2) for(int t=0;t<nt;t++) fw[t][s]=p[t]; CORR(p[t],b[t][s]) n[s]=(method==0?F[s]:0)-Sh[s]/(alpha*nt)*im; for(int t=0;t<nt;t++) p[t]=step(p[t],n[s],1); }
      if(method==2) for(int t=0;t<nt;t++) fw[t][N]=p[t];
      F=n; all.push_back(F); PS.push_back(p); }
    sym_assert((int)tab.row.size()==it,"the table has a line for each iteration"); const char*fm="the field written is the one the scheme defines"; Laser l=getl("o/f"); sym_assert(l.size()==N&&l.Dt()==DT,fm); for(int s=0;s<N;s++) sym_close(l[s],F[s],FT,fm);
    if(wl) for(int k=0;k<=it;k++){ Laser q=getl("o/f_"+num(k)); for(int s=0;s<N;s++) sym_close(q[s],all[k][s],FT,"the field of every iteration is written"); }
    for(int k=0;k<it;k++){ std::vector<CV>&p=PS[k]; sym_assert((int)tab.row.size()>k,"the table has a line for each iteration"); int col=1; const char*tm="the table gives norms and yields of the propagated functions"; sym_close(tab.row[k][0],k+1,1e-9,"the lines of the table are numbered");
      const char*rm="the functions reported are those propagated with the new field and the targets";
      for(int t=0;t<nt;t++){ CV u=p[t],v=tt!=1?T[t]:CV(); if(STAND){ sym_assert((int)RI.size()>k,rm); same(RI[k][t],p[t],rm); if(tt!=1) same(RT[k][t],T[t],rm); u=stand(t,k+1); v=stand(t+3,k+1); }
        sym_close(tab.row[k][col]*tab.row[k][col],dot(u,u)._real,1e-6,tm); col++; if(tt!=1){ sym_close(tab.row[k][col]*tab.row[k][col],dot(v,v)._real,1e-6,tm); col++; dcomplex z=dot(u,v); sym_close(tab.row[k][col++],z._real*z._real+z._imag*z._imag,1e-6,tm); if(ph) col++; } else sym_close(tab.row[k][col++],dot(u,mv(O,u))._real,1e-6,tm); } }
    sym_reach("table"); sym_reach("field"); }
  if(what==1){ int bad=sym_pick("bad",0,15); DT=0.25; putl("las",std::vector<double>(2,0.5)); putl("shp",std::vector<double>(2,1.0)); WaveFunction*w=mklevel(2); for(int k=0;k<2;k++) at(w,k)=conc(k); putwf(w,"i"); S A="dt=\"0.25\" steps=\"2\" shape=\"shp\" iterations=\"1\" dir=\"o\"",c=P,i=el("wfi0","file=\"i\""),t=el("wft0","file=\"i\"");
    switch(bad){ case 0: A="dt=\"0\" steps=\"2\" shape=\"shp\""; break; case 1: A="dt=\"0.25\" steps=\"0\" shape=\"shp\""; break; case 2: A="dt=\"0.25\" steps=\"2\""; break; case 3: A+=" method=\"none\""; break; case 4: A+=" alpha=\"0\""; break; case 5: A+=" ntargets=\"0\""; break; case 6: A+=" ntargets=\"2\""; break; case 7: A+=" ttype=\"none\""; break; case 8: A+=" coup=\"none\""; break; case 9: A+=" conv=\"-1\""; break; case 10: c=""; break; case 11: i=""; break; case 12: t=""; break; case 13: A+=" ttype=\"operator\""; break; case 14: c=el("propagator","name=\"RK4\"",el("hamiltonian","name=\"HermitianMatrix\" file=\"mH\"")); break; case 15: A="dt=\"0.25\" steps=\"2\" shape=\"shp\" iterations=\"0\""; break; }
    bool refused=false; try { run(el("oct",A,c+i+t)); } catch(Exception&e){ refused=true; } sym_assert(refused,"a bad description is refused"); sym_assert(vfs_size("o/laser.op")<0&&vfs_size("laser.op")<0,"a refused description writes no field"); sym_reach("refused"); }
}
