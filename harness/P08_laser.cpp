//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TEXT 1
//TIME 300 600
//BOUNDS fields of 2 to 4 time steps with any values in [-1,1] and any scaling factor in [-2,2], up to two or three movements of the clock, any dipole or polarisability values in [-1,1] on 4 grid points or 2 levels; generated pulses of 3 steps with any parameters of the range
//ASSUME the decimal text of a real with n digits parses back to within half a unit of the n-th digit
//REACH apply exponential pulse propagator nested
#include "ops.h"
#include "lapack.h"
#include "text.h"
#include "qdlib/ORK4.h"
#include "qdlib/OCheby.h"
#include "qdlib/OSIL.h"
#include "qdlib/OArnoldi.h"
#include <math.h>
static int movecl(QDClock*c,int pos){ int n=c->Steps(); switch(sym_pick("move",0,4)){ case 0: c->Begin(); pos=0; break; case 1: c->End(); pos=n-1; break; case 2: ++*c; pos++; break; case 3: --*c; pos--; break; default: pos=sym_pick("step",0,n-1); c->TimeStep(pos); } if(pos<0||pos>=n) sym_end(); return pos; }

enum { DIP, RAM, MAT };
struct L { int t; Operator*O; WaveFunction*w; int nl; int n; dcomplex M[4][4]; };
static Laser*las(L&c,Operator*O,int i){ return c.t==DIP?dynamic_cast<OGridDipole*>(O)->GetLaser():c.t==RAM?dynamic_cast<OGridRaman*>(O)->GetLaser(i):dynamic_cast<OMatDipole*>(O)->GetLaser(); }
static void laserop(L&c,int t,QDClock*cl,bool sym,bool symlas=true){ c.t=t; c.nl=t==RAM?2:1; c.n=t==MAT?2:4; for(auto&r:c.M) for(auto&x:r) x=0; ParamContainer q; int N=4; gridparams(q,1,&N,GLO,GHI);
  if(t==DIP){ OGridDipole*d=new OGridDipole(); d->OGridPotential::Init(q); for(int i=0;i<4;i++) c.M[i][i]=(*d)[i]=VV(nm("D",i),sym,i); c.O=d; }
  if(t==RAM){ OGridRaman*d=new OGridRaman(); d->OGridPotential::Init(q); for(int i=0;i<4;i++) c.M[i][i]=(*d)[i]=VV(nm("D",i),sym,i); c.O=d; }
  if(t==MAT){ OMatDipole*d=new OMatDipole(); ParamContainer p; p.SetValue("size",2); d->OHermitianMatrix::Init(p); OHermitianMatrix*m=mkmat(2,"M",sym); for(int i=0;i<2;i++) for(int j=0;j<2;j++) c.M[i][j]=(*d)(i,j)=(*m)(i,j); c.O=d; }
  for(int i=0;i<c.nl;i++) setlaser(las(c,c.O,i),cl,i?"F":"E",symlas); c.w=t==MAT?(WaveFunction*)mklevel(2):(WaveFunction*)mkgrid(1,4); }
// the factor at time step k
static double field(L&c,int k){ double f=-1; for(int i=0;i<c.nl;i++) f*=(*las(c,c.O,i))[k]*las(c,c.O,i)->Scale(); return c.nl==2?f*0.5:f; }
static void expect(L&c,Snap&in,double f,Snap&out){ for(int i=0;i<c.n;i++){ dcomplex x(0,0); for(int j=0;j<c.n;j++) x=x+c.M[i][j]*in.v[j]; out.v[i]=out.v[i]+x*f; } }
static cVec*fl(WaveFunction*w){ return (cVec*)w; }
static Snap zero(int n){ Snap z; for(int i=0;i<n;i++) z.v.push_back(dcomplex(0,0)); return z; }
static const char*msg="a laser operator acts with the field of the current time step";
static double gauss(double t,double E,double t0,double sg,double w0,double phi,double b){ return E*exp(-(t-t0)*(t-t0)/2/(sg*sg))*cos(w0*(t-t0)+phi+b*(t-t0)*(t-t0)); }
typedef std::vector<dcomplex> CV; typedef std::vector<CV> CM;
static CM mulm(const CM&a,const CM&b){ int n=a.size(); CM r(n,CV(n,dcomplex(0,0))); for(int i=0;i<n;i++) for(int j=0;j<n;j++) for(int k=0;k<n;k++) r[i][j]=r[i][j]+a[i][k]*b[k][j]; return r; }
static CM mexp(const CM&M,dcomplex c){ int n=M.size(); CM A=M,R(n,CV(n,dcomplex(0,0))),P; int sq=0; double nn=0; for(auto&r:M) for(auto&x:r) nn+=cabs(x); nn*=cabs(c); while(nn>0.1){ nn/=2; sq++; } for(auto&r:A) for(auto&x:r) x=x*c*pow(0.5,sq); P=R; for(int i=0;i<n;i++) R[i][i]=P[i][i]=1; for(int k=1;k<14;k++){ P=mulm(P,A); for(auto&r:P) for(auto&x:r) x=x*(1./k); for(int i=0;i<n;i++) for(int j=0;j<n;j++) R[i][j]=R[i][j]+P[i][j]; } while(sq--) R=mulm(R,R); return R; }
extern "C" void sym_main(){ symtext(); sym_tidy(1); std::cout.setstate(std::ios::failbit); /* warnings */
  int what=sym_pick("what",0,4); QDClock*cl=new QDClock(); cl->Dt(0.5); L c;
  if(what==0){ int t=sym_pick("op",0,2); cl->Steps(3); laserop(c,t,cl,true); c.O->Clock(cl); symwf(fl(c.w),"w"); int pos=0,sc=sym_pick("scaled",0,1); if(sc) for(int i=0;i<c.nl;i++) las(c,c.O,i)->Scale(sym_double("scale",-2,2));
    int cp=sym_pick("copy",0,2); Operator*O=c.O; if(cp==1){ O=c.O->NewInstance(); *O=c.O; } if(cp==2){ OSum*s=new OSum(); s->Add("a",c.O); s->Clock(cl); O=s; } int mv=sym_pick("moves",0,2);
    for(int m=0;m<mv;m++){ pos=movecl(cl,pos); if(m==1) O->UpdateTime(); } sym_assert(cl->TimeStep()==pos,"the clock counts its steps"); sym_close(cl->Time(),pos*0.5,1e-12,"time is the number of steps");
    Snap in(fl(c.w)),ex=zero(c.n); expect(c,in,field(c,pos),ex); WaveFunction*d=c.w->NewInstance(); int form=sym_pick("form",0,2);
    if(form==0){ O->Apply(d,c.w); wfclose(fl(d),ex,1e-9,msg); } if(form==1){ O->Apply(c.w); wfclose(fl(c.w),ex,1e-9,msg); }
    if(form==2){ symwf(fl(d),"d"); Snap e2(fl(d)); expect(c,in,field(c,pos),e2); O->ApplyAdd(d,c.w); wfclose(fl(d),e2,1e-9,msg); }
    sym_reach("apply"); }
  if(what==1){ // exponentials for the split operator
    int t=sym_pick("op",0,2); cl->Steps(2); laserop(c,t,cl,t!=MAT); c.O->Clock(cl); int sc=sym_pick("scaled",0,1); if(sc) las(c,c.O,0)->Scale(1.5); c.O->Init(c.w); int pos=0; for(int m=sym_pick("moves",0,2);m>0;m--) pos=movecl(cl,pos); cVec e(c.n); dcomplex co=sym_pick("imag",0,1)?dcomplex(0,-0.25):dcomplex(-0.5,0);
    Operator*O=c.O; if(t==MAT) dynamic_cast<OMatDipole*>(O)->InitExponential(&e,co); else if(t==DIP) dynamic_cast<OGridDipole*>(O)->InitExponential(&e,co); else dynamic_cast<OGridRaman*>(O)->InitExponential(&e,co);
    if(t!=MAT) for(int i=0;i<c.n;i++) zclose(e[i],cexp(co*(c.M[i][i].real()*field(c,pos))),1e-9,"exponential of a laser operator follows the field"); else { double a=c.M[0][0].real(),b=c.M[0][1].real(),d=c.M[1][1].real(),s=sqrt((a-d)*(a-d)/4+b*b),m=(a+d)/2; for(int i=0;i<2;i++) zclose(e[i],cexp(co*((i?m+s:m-s)*field(c,pos))),1e-9,"exponential of a laser operator follows the field"); }
    sym_reach("exponential"); }
  if(what==2){ // generated pulses
    int t=sym_pick("op",0,1),two=sym_pick("two",0,1),def=sym_pick("defaults",0,2); cl->Steps(3); ParamContainer p; p.SetValue("gen",two?"gauss2":"gauss"); double E[2]={1e-4,1e-4},t0[2]={1*0.5,1*0.5},sg[2]={0,0},w0[2]={0.05695,0.05695},ph[2]={0,0},b[2]={0,0}; static const char*sx[2]={"","2"}; if(def==1) cl->Steps(16); int n=cl->Steps(); for(int i=0;i<2;i++){ t0[i]=(n/2)*0.5; sg[i]=(n/8)*0.5; }
    for(int i=0;i<=two;i++){ std::string x=sx[i]; if(def!=1){ sg[i]=sym_double("sigma",0.1,5); p.SetValue("sigma"+x,sg[i]); E[i]=sym_double("Emax",-1,1); p.SetValue("Emax"+x,E[i]); } if(def==2){ t0[i]=sym_double("t0",-2,2); p.SetValue("t0"+x,t0[i]); w0[i]=sym_double("w0",0.01,5); p.SetValue("w0"+x,w0[i]); ph[i]=sym_double("phi",-3,3); p.SetValue("phi"+x,ph[i]); b[i]=sym_double("b",-1,1); p.SetValue("b"+x,b[i]); } }
    double scale=1; if(sym_pick("scaled",0,1)){ scale=sym_double("scale",0.5,2); p.SetValue("scale",scale); }
    Operator*O; Laser*l; if(t){ OMatDipole*d=new OMatDipole(); p.SetValue("size",2); d->Init(p); O=d; l=d->GetLaser(); } else { OGridDipole*d=new OGridDipole(); int N=4; gridparams(p,1,&N,GLO,GHI); d->Init(p); for(int i=0;i<4;i++) (*d)[i]=1+i; O=d; l=d->GetLaser(); } O->Clock(cl);
    int k=def==1?sym_pick("step",0,n-1):sym_pick("step",0,2); cl->TimeStep(k); double e=gauss(k*0.5,E[0],t0[0],sg[0],w0[0],ph[0],b[0]); if(two) e=e+gauss(k*0.5,E[1],t0[1],sg[1],w0[1],ph[1],b[1]); sym_assert(l->Nt()>=n,"a generated pulse covers the propagation"); sym_close(l->Get(),e*scale,1e-6,"a generated pulse has the parameters of the input"); sym_reach("pulse"); }
  if(what==3){ // every propagator sees the field of the current step
    int m=sym_pick("method",0,3); cl->Steps(4); laserop(c,MAT,cl,false,false); OHermitianMatrix*H0=mkmat(2,"H",false); (*H0)(0,0)=-0.5; OSum*H=new OSum(); H->Add("H",H0); H->Add("D",c.O); OPropagator*U=m==0?(OPropagator*)new ORK4():m==1?(OPropagator*)new OCheby():m==2?(OPropagator*)new OSIL():(OPropagator*)new OArnoldi(); ParamContainer p; if(m>=2) p.SetValue("order",3); if(m==1){ p.SetValue("Emax",3); p.SetValue("Emin",-3); } ((Operator*)U)->Init(p);
    U->Clock(cl); U->Add("hamiltonian",H); U->Init(c.w); int pos=0; double a=1; if(m<2) a=sym_double("a",0.1,1); for(int st=sym_pick("steps",1,3);st>0;st--){ pos=movecl(cl,pos); for(int i=0;i<2;i++) (*(WFLevel*)c.w)[i]=conc(i)*a; CM M(2,CV(2)); for(int i=0;i<2;i++) for(int j=0;j<2;j++) M[i][j]=(*H0)(i,j)+c.M[i][j]*field(c,pos); U->UpdateTime(); U->Apply(c.w); }
    CM M(2,CV(2)); for(int i=0;i<2;i++) for(int j=0;j<2;j++) M[i][j]=(*H0)(i,j)+c.M[i][j]*field(c,pos); CM X=mexp(M,dcomplex(0,-0.5)); for(int i=0;i<2;i++) zclose((*(WFLevel*)c.w)[i],(X[i][0]*conc(0)+X[i][1]*conc(1))*a,m==0?2e-3:1e-6,"a propagator uses the field of the current time step"); sym_reach("propagator"); }
  if(what==4){ // nested in collective operators
    int k=sym_pick("in",0,2); cl->Steps(3); laserop(c,k==1?MAT:DIP,cl,true); WaveFunction*w=c.w; Operator*O; OGridPotential*v=0;
    if(k==0){ OGridSum*s=new OGridSum(); v=mkpot((WFGridCartesian*)c.w,"V",true); s->Add(v); s->Add(dynamic_cast<OGridDipole*>(c.O)); O=s; }
    else { OMultistate*s=new OMultistate(); s->Hermitian(true); s->Add(c.O,0,1); O=s; w=mkmulti(2,k==1?lv2:gr4); }
    if(k==2){ OSum*s=new OSum(); s->Add("x",O); O=s; }
    O->Clock(cl); O->Init(w); symwf(fl(w),"w"); int pos=0; sym_assert(O->isTimeDep(),"a collection with a laser operator depends on time");
    WaveFunction*d=w->NewInstance(); for(int r=sym_pick("rounds",1,2);r>0;r--){ pos=movecl(cl,pos); if(sym_pick("update",0,1)) O->UpdateTime(); double f=field(c,pos); if(k==0){ Snap in(fl(w)),ex=zero(4); expect(c,in,f,ex); for(int i=0;i<4;i++) ex.v[i]=ex.v[i]+in.v[i]*(*v)[i]; O->Apply(d,w); wfclose(fl(d),ex,1e-9,msg); }
      else { WFMultistate*a=(WFMultistate*)w,*b=(WFMultistate*)d; O->Apply(d,w); for(int i=0;i<2;i++){ Snap in(fl(a->State(1-i))),ex=zero(c.n); expect(c,in,f,ex); wfclose(fl(b->State(i)),ex,1e-9,msg); } } }
    sym_reach("nested"); }
}
