//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TIME 300 600
//BOUNDS any state with amplitudes in [-1,1]; any potential with values in [-1,1] on 3 or 4 points (single state); fixed 2- and 3-level matrices, potentials, couplings and kinetic energies on 2 to 4 points otherwise; three time steps, both directions and a change of the direction between two steps, imaginary time, two consecutive steps with a laser field
//ASSUME arguments of sines, cosines and exponentials that agree to a relative 1e-11 are the same
//REACH potential single general
#include "ops.h"
#include "lapack.h"
#include "expm.h"
#include "qdlib/OSPO.h"
#include "qdlib/OGSPO.h"
#include "qdlib/ODMultistate.h"
#include <math.h>
static CM sub(const CM&M,dcomplex c){ return mexp(M,c); }
static Operator*kin(const char*mass,int dim=1){ ParamContainer p; p.SetValue("mass",mass); Operator*t=new OGridNablaSq(); t->Init(p); return t; }
static OGridPotential*pot(WFGridSystem*g,int k){ OGridPotential*v=mkpot(g,"",false); for(int i=0;i<g->Size();i++) (*v)[i]=k==0?0.3*i-0.4:k==1?0.9-0.25*i*i*0.4:k==2?0.35-0.2*i:k==3?0:0.3*i-0.4; return v; }
static Operator*multi(Operator*a,Operator*b,Operator*c){ OMultistate*m=new OMultistate(); ParamContainer q; q.SetValue("unity",false); m->Init(q); if(a) m->Add(a,0,0); if(b) m->Add(b,1,1); if(c) m->Add(c,0,1); return m; }
static Operator*dmulti(Operator*a,Operator*b,Operator*c){ ODMultistate*m=new ODMultistate(); ParamContainer q; q.SetValue("unity",false); m->Init(q); if(a) m->Add(a,0,0); if(b) m->Add(b,1,1); if(c) { m->Add(c,0,1); } return (OMultistate*)m; }
static void dir(OPropagator*U,int d){ if(d==1) U->Backward(); if(d==2){ U->ImaginaryTime(); U->Backward(); } }
static dcomplex expo(int d,double dt){ return d==0?dcomplex(0,-dt):d==1?dcomplex(0,dt):dcomplex(-dt,0); }
static WaveFunction*g4(){ return mkgrid(1,4); } static WaveFunction*g3(){ return mkgrid(1,3); } 
static const double DT[]={0.125,0.5,2};
struct G { std::vector<Operator*> o; WaveFunction*w; QDClock*cl; };
// sequences of operators for the general split operator
static G seq(int k,QDClock*cl){ G g; g.cl=cl; switch(k){
  case 0: { WFGridCartesian*w=mkgrid(1,4); g.w=w; g.o={kin("2"),pot(w,0)}; break; }
  case 1: { WFGridCartesian*w=mkgrid(1,3); g.w=w; g.o={pot(w,1),kin("1"),pot(w,2)}; break; }
  case 2: { g.w=mklevel(2); g.o={mkmat(2,"",false)}; OMatDipole*d=new OMatDipole(); ParamContainer q; q.SetValue("gen","gauss"); q.SetValue("size",2); d->Init(q); mkmat(2,"",false,d); (*d)(0,0)=0; (*d)(1,1)=0.3; d->Clock(cl); setlaser(d->GetLaser(),cl,"",false); g.o.push_back(d); break; }
  case 3: { g.w=mkmulti(2,g3); WFGridSystem*w=dynamic_cast<WFGridSystem*>(((WFMultistate*)g.w)->State(0)); g.o={dmulti(pot(w,0),pot(w,1),pot(w,2))}; break; }
  case 4: { g.w=mkmulti(2,g3); WFGridSystem*w=dynamic_cast<WFGridSystem*>(((WFMultistate*)g.w)->State(0)); g.o={dmulti(kin("1"),kin("1"),0),dmulti(pot(w,0),pot(w,1),pot(w,2))}; break; }
  case 5: { g.w=mkmulti(2,g4); WFGridSystem*w=dynamic_cast<WFGridSystem*>(((WFMultistate*)g.w)->State(0)); g.o={dmulti(pot(w,0),pot(w,1),0),dmulti(kin("1"),kin("2"),0)}; break; }
  case 6: { WFGridCartesian*w=mkgrid(2,2,2); g.w=w; g.o={pot(w,1),kin("1,2")}; break; }
  case 7: { WFGridCartesian*w=mkgrid(1,4); g.w=w; OGridDipole*d=new OGridDipole(); ParamContainer q; int N=4; gridparams(q,1,&N,GLO,GHI); q.SetValue("gen","gauss"); d->Init(q); for(int i=0;i<4;i++) (*d)[i]=0.4*i-0.5; d->Clock(cl); setlaser(d->GetLaser(),cl,"",false); g.o={kin("1"),d}; break; }
  } return g; }
extern "C" void sym_main(){ sym_tidy(1);
  int what=sym_pick("what",0,2); QDClock*cl=new QDClock(); cl->Steps(4);
  if(what==0){ // exponential of any potential
    WFGridCartesian*g=mkgrid(1,3); OGridPotential*v=mkpot(g,"V",true); v->Init(g); cVec e(3); double cr=sym_pick("re",-1,1)*0.7,ci=sym_pick("im",-1,1)*0.4; v->InitExponential(&e,dcomplex(cr,ci)); for(int i=0;i<3;i++) zclose(e[i],cexp(dcomplex((*v)[i]*cr,(*v)[i]*ci)),1e-12,"the exponential of a potential"); sym_reach("potential"); return; }
  int d=sym_pick("dir",0,2),ti=sym_pick("dt",0,2); double dt=DT[ti]; cl->Dt(dt); dcomplex c=expo(d,dt);
  if(what==1){ // single state, any potential and any state
    int n=sym_pick("points",3,4); bool irc=n==3&&sym_pick("second",0,1); WFGridCartesian*w=mkgrid(1,n); OGridPotential*v=mkpot(w,"V",true),*z=irc?mkpot(w,"W",true):0; OSPO*U=new OSPO(); U->Clock(cl); dir(U,d); U->Add("Tkin",kin("2")); U->Add("Vpot",v); if(irc) U->Add("VcoupI",z); U->Init(w); Operator*T=kin("2"); T->Init(w); CM E=mexp(matrix(T,w),c);
    symwf(flat(w),"w"); CV s(n),r(n,dcomplex(0,0)); for(int i=0;i<n;i++) s[i]=at(w,i); U->Apply(w);
    CV x(n),h(n); for(int i=0;i<n;i++){ h[i]=cexp(dcomplex(c.real()*0.5*(*v)[i],c.imag()*0.5*(*v)[i])); if(irc) h[i]=h[i]*cexp(dcomplex(c.real()*0.5*(*z)[i],c.imag()*0.5*(*z)[i])); x[i]=h[i]*s[i]; }
    for(int i=0;i<n;i++){ for(int k=0;k<n;k++) r[i]=r[i]+E[i][k]*x[k]; r[i]=h[i]*r[i]; }
    for(int i=0;i<n;i++) zclose(at(w,i),r[i],1e-8,"a split-operator step is exp(V/2) exp(T) exp(V/2)"); sym_reach("single"); }
  if(what==2){ // general sequence, several steps
    int k=sym_pick("sequence",0,7),rep=sym_pick("steps",1,2),turn=rep>1&&d<2?sym_pick("turn",0,1):0; G a=seq(k,cl),r0; QDClock*c2=new QDClock(); c2->Steps(4); c2->Dt(dt); r0=seq(k,c2); WaveFunction*w=a.w; OGSPO*U=new OGSPO(); U->Clock(cl); dir(U,d); for(size_t i=0;i<a.o.size();i++){ char nme[2]={(char)('A'+i),0}; U->Add(nme,a.o[i]); } ParamContainer p; ((Operator*)U)->Init(p); U->Init(w); cl->Begin(); c2->Begin(); int n=total(w); for(auto o:r0.o) { o->Init(r0.w); o->Clock(c2); }
    CV s(n); for(int i=0;i<n;i++){ at(w,i)=dcomplex(sym_double(nm("re",i).c_str(),-1,1),0.1*i-0.3); s[i]=at(w,i); }
    for(int st=0;st<rep;st++){ if(turn&&st){ c=c.conj(); if(d) U->Forward(); else U->Backward(); } CM E=zero(n); for(int i=0;i<n;i++) E[i][i]=1; for(size_t i=0;i<r0.o.size();i++){ r0.o[i]->UpdateTime(); CM M=mexp(matrix(r0.o[i],r0.w),i?c*0.5:c); E=i?mul(M,mul(E,M)):M; } CV x(n); for(int i=0;i<n;i++){ dcomplex y(0,0); for(int j=0;j<n;j++) y=y+E[i][j]*s[j]; x[i]=y; } s=x;
      if((k+d+st)&1) U->Apply(w); else { WaveFunction*o=w->NewInstance(); Snap q(flat(w)); U->Apply(o,w); wfclose(flat(w),q,0,"the source of a step keeps its value"); w=o; } for(int i=0;i<n;i++) zclose(at(w,i),s[i],1e-8,"a general split-operator step is the symmetric product of exponentials"); ++*cl; ++*c2; } sym_reach("general"); }
}
