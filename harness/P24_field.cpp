//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TEXT 1
//TIME 300 600
//BOUNDS fields of 1 to 6 points with any values in [-1,1], any time step in [0.01,10], any scaling factor in [-2,2]; clocks of 1 to 8 steps
//ASSUME FFTW computes the discrete Fourier transform
//REACH spectrum energy clock store reuse
#include "h.h"
#include "text.h"
#include "qdlib/Laser.h"
#include <math.h>
#include <sstream>
static Laser*mk(QDClock*cl,int n,double dt,const char*nme){ Laser*l=new Laser(); l->Dt(dt); l->Nt(n); for(int i=0;i<n;i++) (*l)[i]=sym_double(nm(nme,i).c_str(),-1,1); if(cl) l->Clock(cl); return l; }
static void spectrum(Laser*l,int n){ std::vector<double> e; for(int i=0;i<n;i++) e.push_back((*l)[i]); cVec*s=l->Spectrum(); sym_assert((int)s->size()==n/2+1,"a spectrum has n/2+1 points"); std::vector<dcomplex> r; for(int k=0;k<=n/2;k++){ dcomplex x(0,0); for(int i=0;i<n;i++) x=x+dcomplex(cos(2*M_PI*i*k/n),-sin(2*M_PI*i*k/n))*e[i]; r.push_back(x); zclose((*s)[k],x,1e-9,"the spectrum is the Fourier transform of the field"); }
  for(int i=0;i<n;i++) sym_close((*l)[i],e[i],1e-12,"taking the spectrum leaves the field alone");
  int pw=sym_pick("power",0,1); if(pw){ dVec*p=l->PowerSpectrum(); sym_assert((int)p->size()==n/2+1,"a power spectrum has n/2+1 points"); for(int k=0;k<=n/2;k++){ double v=(*p)[k]; sym_assert(v>=0,"a power spectrum is not negative"); dcomplex x=r[k]; sym_close(v*v,x.real()*x.real()+x.imag()*x.imag(),1e-7,"a power spectrum is the modulus of the spectrum"); } }
  else { for(int k=0;k<=n/2;k++) (*s)[k]=(*s)[k]*(1./n); l->ToTimeDomain(); for(int i=0;i<n;i++) sym_close((*l)[i],e[i],1e-9,"the time domain field comes back from its spectrum"); } }
extern "C" void sym_main(){ symtext(); sym_tidy(1);
  int what=sym_pick("what",0,4); QDClock*cl=new QDClock();
  if(what==0){ int n=sym_pick("n",1,6),more=sym_pick("longer",0,1); cl->Dt(0.5); cl->Steps(n); Laser*l=mk(cl,n+more,0.5,"E"); spectrum(l,n); sym_reach("spectrum"); }
  if(what==1){ int n=sym_pick("n",1,4),cp=sym_pick("copy",0,1); double dt=sym_double("dt",0.01,10),sc=1; cl->Dt(dt); cl->Steps(n); Laser*l=mk(cl,n,dt,"E"); if(sym_pick("scaled",0,1)){ sc=sym_double("scale",-2,2); l->Scale(sc); } if(cp){ Laser*m=new Laser(); *m=*l; for(int i=0;i<n;i++) (*l)[i]=7; l=m; sym_close(l->Dt(),dt,0,"a copy has the same time step"); }
    double s=0; for(int i=0;i<n;i++){ double e=(*l)[i]*sc; s=s+e*e; } sym_close(l->PulseEnergy(),s*dt*(137.0359996/(4*M_PI)),1e-6,"the pulse energy is that of the scaled field"); double a=0; for(int k=0;k<n;k++){ cl->TimeStep(k); sym_close(l->Get(),(*l)[k]*sc,1e-9,"the field is the scaled value of the step"); sym_close(l->GetVectorPot(),a,1e-7,"the vector potential is the integral of the field"); a=a+l->Get()*dt; }
    int k=sym_pick("set",0,n-1); cl->TimeStep(k); double v=sym_double("v",-1,1); Laser*o=new Laser(); *o=*l; l->Set(v); for(int i=0;i<n;i++) sym_close((*l)[i],i==k?v:(*o)[i],0,"setting the field changes the current step only"); sym_reach("energy"); }
  if(what==2){ int n=sym_pick("n",1,4),st=sym_pick("steps",1,6); double dt=sym_double("dt",0.01,10),d2=sym_double("clock dt",0.01,10); Laser*l=mk(0,n,dt,"E"); cl->Dt(d2); cl->Steps(st); bool ok=true; try { l->Clock(cl); } catch(Exception&){ ok=false; } sym_assert(ok==(dt==d2&&st<=n),"a field is used with a clock of its time step and length only"); if(ok){ cl->End(); sym_close(l->Get(),(*l)[st-1],0,"last step"); } sym_reach("clock"); }
  if(what==3){ int n=sym_pick("n",1,4),bf=sym_pick("before",0,1); double dt=sym_double("dt",0.01,10); Laser*l=mk(0,n,dt,"E"),*m=new Laser(); if(bf) { m->Dt(3); m->Nt(2); } std::stringstream s; l->Serialize(s); m->DeSerialize(s); sym_assert(m->Nt()==n,"a stored field has its length"); sym_close(m->Dt(),dt,0,"a stored field has its time step"); for(int i=0;i<n;i++) sym_close((*m)[i],(*l)[i],0,"a stored field has its values"); ParamContainer p=l->Params(); Laser*k=new Laser(); k->Init(p); sym_assert(k->Nt()==n,"parameters of a field"); sym_close(k->Dt(),dt,1e-7,"parameters of a field"); sym_reach("store"); }
  if(what==4){ // a second field in the same object
    int n=sym_pick("n",2,4),n2=sym_pick("n2",2,5),how=sym_pick("how",0,2); cl->Dt(0.5); cl->Steps(n); Laser*l=mk(cl,n,0.5,"E"); l->Spectrum(); QDClock*c2=new QDClock(); c2->Dt(0.5); c2->Steps(n2); if(how==0) l->Nt(n2); if(how==1){ Laser*m=mk(0,n2,0.5,"F"); *l=*m; } if(how==2){ Laser*m=mk(0,n2,0.5,"F"); std::stringstream s; m->Serialize(s); l->DeSerialize(s); } for(int i=0;i<n2;i++) (*l)[i]=sym_double(nm("G",i).c_str(),-1,1); l->Clock(c2); spectrum(l,n2); sym_reach("reuse"); }
}
