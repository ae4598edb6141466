//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TIME 300 600
//BOUNDS Hamiltonians: any scalar, 2x2 and 3x3 matrices, kinetic energy plus potential on 4 points, two coupled states; states: any amplitudes in [-1,1] (Runge-Kutta), any combination of two fixed states (Chebychev), fixed states and any time step in [0.01,1] (Krylov); two consecutive steps
//ASSUME arguments of sines, cosines and exponentials that agree to a relative 1e-11 are the same (rounding of eigenvalues); early termination of Arnoldi is off (conv<0)
//ASSUME Bessel functions and LAPACK results are those of the libraries for concrete arguments
//REACH scalar rk4 cheby krylov
#include "ops.h"
#include "lapack.h"
#include "expm.h"
#include "qdlib/ORK4.h"
#include "qdlib/OCheby.h"
#include "qdlib/OSIL.h"
#include "qdlib/OArnoldi.h"
#include <math.h>
#ifndef SYM_REPLAY
// warnings on the console show symbolic numbers as "~"
extern "C" int sym_is_sym(void*,size_t);
extern "C" std::ostream&symm__ZNSo9_M_insertIdEERSoT_(std::ostream*o,double v){ if(sym_is_sym(&v,8)) { *o<<"~"; return *o; } std::ostream::sentry s(*o); if(s) std::use_facet<std::num_put<char>>(o->getloc()).put(*o,*o,o->fill(),v); return *o; }
#endif
// reference numbers must not be optimised into symbolic paths: everything here is concrete
static WaveFunction*l2(){ return mklevel(2); }
static Operator*ham(int k,WaveFunction*&w){ ParamContainer p; switch(k){
  case 0: { w=mklevel(2); return mkmat(2,"M",false); }
  case 1: { w=mklevel(3); OHermitianMatrix*m=mkmat(3,"M",false); (*m)(0,0)=-2; (*m)(1,1)=0.5; (*m)(2,2)=1.5; return m; }
  case 2: { WFGridCartesian*g=mkgrid(1,4); w=g; OGridNablaSq*t=new OGridNablaSq(); p.SetValue("mass","1"); t->Init(p); OSum*s=new OSum(); s->Add("T",t); s->Add("V",mkpot(g,"V",false)); return s; }
  case 3: { w=mkmulti(2,l2); OMultistate*m=new OMultistate(); ParamContainer q; q.SetValue("unity",false); m->Init(q); m->Add(mkmat(2,"A",false),0,0); OHermitianMatrix*b=mkmat(2,"B",false); (*b)(0,0)=2; m->Add(b,1,1); OScalar*c=new OScalar(); ParamContainer r; r.SetValue("value",0.3); c->Init(r); m->Add(c,0,1); return m; }
  case 4: { w=mklevel(3); OHermitianMatrix*m=mkmat(3,"M",false); for(int i=0;i<3;i++) for(int j=0;j<3;j++) (*m)(i,j)=i==j?1.+i:0; return m; } }
  return 0; }
static OPropagator*prop(int k){ switch(k){ case 0: return new ORK4(); case 1: return new OCheby(); case 2: return new OSIL(); } return new OArnoldi(); }
static void dir(OPropagator*U,int d){ if(d==1) U->Backward(); if(d==2){ U->ImaginaryTime(); U->Backward(); } }
static dcomplex expo(int d,double dt){ return d==0?dcomplex(0,-dt):d==1?dcomplex(0,dt):dcomplex(-dt,0); }
// one way to take a step; returns where the result is
static WaveFunction*step(OPropagator*U,WaveFunction*w,int form){ if(form==0){ U->Apply(w); return w; } WaveFunction*d=w->NewInstance(); Snap s(flat(w)); U->Apply(d,w); wfclose(flat(w),s,0,"the source of a step keeps its value"); return d; }
extern "C" void sym_main(){ sym_tidy(1);
  int what=sym_pick("what",0,3); QDClock*cl=new QDClock(); cl->Steps(5);
  if(what==0||what==1){ // fourth order Taylor polynomial of any symmetric matrix
    int n=what+1,d=sym_pick("dir",0,2),form=sym_pick("form",0,1); int ti=sym_pick("dt",0,2); double dt=ti==0?0.125:ti==1?0.5:1.25; cl->Dt(dt); WaveFunction*w=mklevel(n); OHermitianMatrix*H=mkmat(n,"H",true); ORK4*U=new ORK4(); U->Clock(cl); dir(U,d); U->Add("hamiltonian",H); U->Init(w); symwf(flat(w),"w");
    dcomplex c=d==0?dcomplex(0,0)-I*dt:d==1?I*dt:dcomplex(-1,0)*dt; CV r(n),t(n); for(int i=0;i<n;i++) { t[i]=at(w,i); r[i]=t[i]; } for(int k=1;k<=4;k++){ CV u(n); for(int i=0;i<n;i++){ dcomplex x(0,0); for(int j=0;j<n;j++) x=x+(*H)(i,j)*t[j]; u[i]=x*c*(1./k); } t=u; for(int i=0;i<n;i++) r[i]=r[i]+t[i]; }
    WaveFunction*o=step(U,w,form); for(int i=0;i<n;i++) zclose(at(o,i),r[i],1e-9,"a Runge-Kutta step is the fourth order Taylor series"); sym_reach(what?"rk4":"scalar"); }
  if(what==2){ // Chebychev: exp of the Hamiltonian on every combination of two states
    int h=sym_pick("ham",0,4),d=sym_pick("dir",0,2),ti=sym_pick("dt",0,2),form=(h+d+ti)&1; static const double DT[]={0.05,0.4,2}; double dt=DT[ti]; cl->Dt(dt); WaveFunction*w; Operator*H=ham(h,w); Operator*H0; { WaveFunction*w0; H0=ham(h,w0); H0->Clock(cl); H0->Init(w0); } CM M=matrix(H0,w),E=mexp(M,expo(d,dt)); int n=M.size();
    OCheby*U=new OCheby(); U->Clock(cl); dir(U,d); U->Add("hamiltonian",H); U->Init(w);
    int sh=sym_pick("shape",0,1); double a=1,b=0; if(sh==0) b=sym_double("b",-2,2); else a=sym_double("a",0.01,10); for(int i=0;i<n;i++) at(w,i)=conc(i)*a+conc2(i)*b;
    double f=1; if(d==2){ WaveFunction*t=w->NewInstance(); dcomplex x(0,0); for(int i=0;i<n;i++){ at(t,i)=conc(i); x=x+E[0][i]*conc(i); } U->Apply(t); f=at(t,0).real()/x.real(); sym_assert(f>1e-6,"the factor of imaginary time is positive"); }
    int rep=sym_pick("steps",1,2); WaveFunction*o=w; for(int k=0;k<rep;k++) o=step(U,o,form); if(rep==2){ E=mul(E,E); f=f*f; } for(int i=0;i<n;i++){ dcomplex r(0,0),q(0,0); for(int j=0;j<n;j++){ r=r+E[i][j]*conc(j); q=q+E[i][j]*conc2(j); } zclose(at(o,i),(r*a+q*b)*f,2e-6,"a Chebychev step is the exponential of the Hamiltonian"); } sym_reach("cheby"); }
  if(what==3){ // Krylov: every time step
    int m=sym_pick("method",2,3),h=sym_pick("ham",0,4),d=sym_pick("dir",0,2),ps=sym_pick("state",0,2); cl->Dt(0.5); WaveFunction*w; Operator*H=ham(h,w); Operator*H0; { WaveFunction*w0; H0=ham(h,w0); H0->Clock(cl); H0->Init(w0); } CM M=matrix(H0,w); int n=M.size(); 
    OPropagator*U=prop(m); ParamContainer p; p.SetValue("order",n<4?3:n); p.SetValue("conv",-1000.); /* never stop early */ ((Operator*)U)->Init(p); U->Clock(cl); dir(U,d); U->Add("hamiltonian",H); U->Init(w);
    int prev=n==4?ps:sym_pick("before",0,2),form=(h+d+m+prev)&1; if(prev){ for(int i=0;i<n;i++) at(w,i)=prev==1?conc2(i):dcomplex(i==0,0); step(U,w,prev-1); } // the step before, of another state and length
    for(int i=0;i<n;i++) at(w,i)=ps==0?conc(i):ps==1?dcomplex(i==0,0):conc2(i)*2; if(ps==0) *w*=1/w->Norm();
    double dt=sym_double("dt",0.01,1); cl->Dt(dt); U->Clock(cl);
    CV e(n); CM Z=eig(M,e); dcomplex cf=d==0?dcomplex(0,-1):d==1?dcomplex(0,1):dcomplex(-1,0); CV v(n),q(n); for(int i=0;i<n;i++) v[i]=at(w,i);
    WaveFunction*o=step(U,w,form); for(int k=0;k<n;k++){ dcomplex x(0,0); for(int i=0;i<n;i++) x=x+Z[i][k].conj()*v[i]; q[k]=x*cexp(cf*(e[k].real()*dt)); } for(int i=0;i<n;i++){ dcomplex r(0,0); for(int k=0;k<n;k++) r=r+Z[i][k]*q[k]; zclose(at(o,i),r,1e-7,"a Krylov step is the exponential of the Hamiltonian"); } sym_reach("krylov"); }
}
