// one initialised instance of every operator family together with a wave function it acts on
#ifndef OPS_H
#define OPS_H
#include "h.h"
#include "qdlib/OGridPotential.h"
#include "qdlib/OGridNablaSq.h"
#include "qdlib/OGridNabla.h"
#include "qdlib/OGridPosition.h"
#include "qdlib/OGridGMat.h"
#include "qdlib/OGridDipole.h"
#include "qdlib/OGridRaman.h"
#include "qdlib/OGridNAC.h"
#include "qdlib/OGridHOFD.h"
#include "qdlib/OGridKick.h"
#include "qdlib/OHermitianMatrix.h"
#include "qdlib/OMatDipole.h"
#include "qdlib/OScalar.h"
#include "qdlib/OSum.h"
#include "qdlib/OGridSum.h"
#include "qdlib/OProduct.h"
#include "qdlib/OProjection.h"
#include "qdlib/OMultistate.h"
#include "qdlib/OGobbler.h"
#include "qdlib/OGridPML.h"
enum OpK { K_POT1, K_POT2, K_NSQ1, K_NSQ2, K_NSQH, K_NAB1, K_MOM2, K_POS1, K_POS2, K_GMC, K_GMG, K_DIP, K_RAM, K_NAC, K_HOFD, K_KICK, K_HMAT, K_MDIP, K_SCAL, K_SCALC, K_SUM, K_SUML, K_GSUM, K_PROD, K_PROJ, K_PROJI, K_MSG, K_MSL, K_MSN, K_GOB1, K_GOB2, K_GOBN, K_PML1, K_PML2, K_NSQ3, K_NAB2, K_POT3, K_DIP2, K_MS3, K_NEST, K_SUMM, K_GM2G, K_PRODG, K_HOFD2, K_PROJM, K_SCM, K_KICK1, K_NAC2, K_GM3, K_NACS, K_N };
static const char*OPN[]={"potential 1D","potential 2D","kinetic 1D","kinetic 2D","kinetic finite-difference","nabla 1D","momentum 2D","position 1D","position 2D","gmatrix const 2D","gmatrix grid 1D","grid dipole","raman","nonadiabatic coupling","finite-difference derivative","kick","matrix","matrix dipole","scalar","complex scalar","sum of grid operators","sum of matrices","grid sum","product","projection","inverse projection","multistate grid","multistate level","multistate nonsymmetric","gobbler 1D","gobbler 2D","gobbler as imaginary potential","absorbing layer 1D","absorbing layer 2D","kinetic 3D","nabla 2D","potential 3D","grid dipole 2D","multistate of three states","nested collections","sum of multistates","gmatrix grid 2D","product on a grid","finite differences 2D","projection on states","scalar on states","kick 1D","nonadiabatic coupling 2D","gmatrix const 3D","nonadiabatic coupling of opposite sign"};
struct OpCase { int k; Operator*O; WaveFunction*w; bool herm; QDClock*cl; Laser*las; };
static WaveFunction*lv2(){ return mklevel(2); } static WaveFunction*gr4(){ return mkgrid(1,4); }
static double VV(const std::string&n,bool sym,int k,double lim=1){ return sym?sym_double(n.c_str(),-lim,lim):(0.7-0.23*((k*5)%7)+0.05*k)*lim; }
static OGridPotential*mkpot(WFGridSystem*g,const char*n,bool sym,double lim=1){ ParamContainer p; int N[4]; double lo[4],hi[4]; for(int i=0;i<g->Dim();i++){ N[i]=g->DimSize(i); lo[i]=g->Xmin(i); hi[i]=g->Xmax(i);} gridparams(p,g->Dim(),N,lo,hi);
  OGridPotential*v=new OGridPotential(); v->Init(p); for(int i=0;i<g->Size();i++) (*v)[i]=VV(nm(n,i),sym,i,lim); return v; }
static OHermitianMatrix*mkmat(int n,const char*nme,bool sym,OHermitianMatrix*m=0){ ParamContainer p; p.SetValue("size",n); if(!m) m=new OHermitianMatrix(); m->Init(p); for(int i=0;i<n;i++) for(int j=0;j<=i;j++){ double v=VV(nm(nme,i*n+j),sym,i*n+j); (*m)(i,j)=v; (*m)(j,i)=v; } return m; }
static void writegrid(const char*file,WFGridSystem*g,double (*f)(int)){ OGridPotential*v=mkpot(g,"",false); for(int i=0;i<g->Size();i++) (*v)[i]=f(i); FileSingle<OGridPotential> F; F.Suffix(BINARY_O_SUFFIX); F.Name(file); F << v; delete v; }
static double gval(int i){ return 0.5+0.1*i; }
static double nval(int i){ return 0.2-0.07*i; }
static void setlaser(Laser*l,QDClock*cl,const char*n,bool sym){ l->Dt(cl->Dt()); l->Nt(cl->Steps()); for(int i=0;i<cl->Steps();i++) (*l)[i]=VV(nm(n,i),sym,i); l->Clock(cl); }
// sym: the operator's own numbers are symbolic too
static OpCase mkop(int k,bool sym){
  OpCase c; c.k=k; c.herm=true; c.cl=0; c.las=0; ParamContainer p; c.O=0; c.w=0;
  switch(k){
  case K_POT1: { WFGridCartesian*g=mkgrid(1,4); c.w=g; c.O=mkpot(g,"V",sym); break; }
  case K_POT2: { WFGridCartesian*g=mkgrid(2,3,2); c.w=g; c.O=mkpot(g,"V",sym); break; }
  case K_NSQ1: { c.w=mkgrid(1,4); p.SetValue("mass","2"); c.O=new OGridNablaSq(); c.O->Init(p); break; }
  case K_NSQ2: { c.w=mkgrid(2,4,2); p.SetValue("mass","2,3"); c.O=new OGridNablaSq(); c.O->Init(p); break; }
  case K_NSQH: { c.w=mkgrid(1,6); p.SetValue("mass","2"); p.SetValue("deriv",2); p.SetValue("order",2); p.SetValue("pbc","true"); c.O=new OGridHOFD(); c.O->Init(p); break; }
  case K_NAB1: { c.w=mkgrid(1,4); c.O=new OGridNabla(); c.O->Init(p); c.herm=false; break; }
  case K_MOM2: { c.w=mkgrid(2,2,4); p.SetValue("dim",1); c.O=new OGridNabla(true); c.O->Init(p); break; }
  case K_POS1: { c.w=mkgrid(1,4); c.O=new OGridPosition(); c.O->Init(p); break; }
  case K_POS2: { c.w=mkgrid(2,3,2); p.SetValue("dim",1); p.SetValue("scale",2); c.O=new OGridPosition(); c.O->Init(p); break; }
  case K_GMC: { c.w=mkgrid(2,4,4); p.SetValue("dims",2); p.SetValue("G","0.5,0.125,0.25"); c.O=new OGridGMat(); c.O->Init(p); break; }
  case K_GMG: { WFGridCartesian*g=mkgrid(1,4); c.w=g; writegrid("gm_00",g,gval); p.SetValue("dims",1); p.SetValue("gmat","gm"); c.O=new OGridGMat(); c.O->Init(p); break; }
  case K_DIP: { WFGridCartesian*g=mkgrid(1,4); c.w=g; c.cl=new QDClock(); c.cl->Dt(0.5); c.cl->Steps(3); OGridDipole*d=new OGridDipole(); ParamContainer q; int N=4; gridparams(q,1,&N,GLO,GHI); q.SetValue("gen","gauss"); d->Init(q); for(int i=0;i<4;i++) (*d)[i]=VV(nm("D",i),sym,i);
     d->Clock(c.cl); setlaser(d->GetLaser(),c.cl,"E",sym); c.las=d->GetLaser(); c.O=d; break; }
  case K_RAM: { WFGridCartesian*g=mkgrid(1,4); c.w=g; c.cl=new QDClock(); c.cl->Dt(0.5); c.cl->Steps(2); OGridRaman*d=new OGridRaman(); ParamContainer q; int N=4; gridparams(q,1,&N,GLO,GHI); d->OGridPotential::Init(q); for(int i=0;i<4;i++) (*d)[i]=VV(nm("D",i),sym,i);
     setlaser(d->GetLaser(0),c.cl,"E",sym); setlaser(d->GetLaser(1),c.cl,"F",sym); d->Clock(c.cl); c.las=d->GetLaser(0); c.O=d; break; }
  case K_NAC: { WFGridCartesian*g=mkgrid(1,4); c.w=g; writegrid("nac",g,nval); p.SetValue("dims",1); p.SetValue("file","nac"); p.SetValue("mass",2); c.O=new OGridNAC(); c.O->Init(p); c.herm=false; break; }
  case K_HOFD: { c.w=mkgrid(1,6); p.SetValue("deriv",1); p.SetValue("order",2); p.SetValue("dim",0); p.SetValue("pbc","true"); c.O=new OGridHOFD(); c.O->Init(p); c.herm=false; break; }
  case K_KICK: { c.w=mkgrid(2,3,2); p.SetValue("k","0.5,1.5"); c.O=new OGridKick(); c.O->Init(p); c.herm=false; break; }
  case K_HMAT: { c.w=mklevel(3); c.O=mkmat(3,"M",sym); break; }
  case K_MDIP: { c.w=mklevel(2); c.cl=new QDClock(); c.cl->Dt(0.5); c.cl->Steps(3); OMatDipole*d=new OMatDipole(); ParamContainer q; q.SetValue("gen","gauss"); q.SetValue("size",2); d->Init(q); mkmat(2,"M",sym,d); d->Clock(c.cl); setlaser(d->GetLaser(),c.cl,"E",sym); c.las=d->GetLaser(); c.O=d; break; }
  case K_SCAL: { c.w=mklevel(3); p.SetValue("value",1.5); c.O=new OScalar(); c.O->Init(p); break; }
  case K_SCALC: { c.w=mklevel(3); p.SetValue("value",0.5); p.SetValue("im",-1.25); c.O=new OScalar(); c.O->Init(p); c.herm=false; break; }
  case K_SUM: { WFGridCartesian*g=mkgrid(1,4); c.w=g; OSum*s=new OSum(); p.SetValue("mass","2"); OGridNablaSq*t=new OGridNablaSq(); t->Init(p); s->Add(t); s->Add(mkpot(g,"V",sym)); s->Add(mkpot(g,"W",sym)); c.O=s; break; }
  case K_SUML: { c.w=mklevel(2); OSum*s=new OSum(); s->Add("a",mkmat(2,"M",sym)); s->Add("b",mkmat(2,"N",sym)); c.O=s; break; }
  case K_GSUM: { WFGridCartesian*g=mkgrid(1,4); c.w=g; OGridSum*s=new OGridSum(); s->Add(mkpot(g,"V",sym)); s->Add(mkpot(g,"W",sym)); c.O=s; break; }
  case K_PROD: { c.w=mklevel(2); OProduct*s=new OProduct(); s->Add(mkmat(2,"M",sym)); s->Add(mkmat(2,"N",sym)); c.O=s; c.herm=false; break; }
  case K_PROJ: case K_PROJI: { c.w=mklevel(3); OProjection*s=new OProjection(); p.SetValue("inv",k==K_PROJI); s->Init(p); s->Init(c.w); for(int i=0;i<2;i++){ WaveFunction*b=mklevel(3); if(sym) symwf(b,nm("p",i)); else setwf(b,i?conc:conc2); s->Add(b); } c.O=s; break; }
  case K_MSG: { WFMultistate*m=mkmulti(2,gr4); c.w=m; WFGridSystem*g=(WFGridSystem*)(WFGridCartesian*)m->State(0); OMultistate*s=new OMultistate(); s->Hermitian(true); p.SetValue("mass","2"); OGridNablaSq*t=new OGridNablaSq(); t->Init(p); s->Add(t,0,0); s->Add(mkpot(g,"V",sym),1,1); s->Add(mkpot(g,"W",sym),0,1); c.O=s; break; }
  case K_MSL: { c.w=mkmulti(2,lv2); OMultistate*s=new OMultistate(); s->Hermitian(true); s->Add(mkmat(2,"M",sym),0,0); s->Add(mkmat(2,"N",sym),1,0); s->Unity(true); c.O=s; break; }
  case K_MSN: { c.w=mkmulti(2,lv2); OMultistate*s=new OMultistate(); s->Hermitian(false); s->Add(mkmat(2,"M",sym),0,1); s->Add(mkmat(2,"N",sym),1,0); s->Add(mkmat(2,"L",sym),1,1); c.O=s; c.herm=false; break; }
  case K_GOB1: { c.w=mkgrid(1,4); p.SetValue("lp0",2); p.SetValue("order",2); c.O=new OGobbler(); c.O->Init(p); break; }
  case K_GOB2: { c.w=mkgrid(2,3,2); p.SetValue("lp0",3.5); p.SetValue("rp1",-1); p.SetValue("rp0",-4); p.SetValue("order",1); c.O=new OGobbler(); c.O->Init(p); break; }
  case K_GOBN: { c.w=mkgrid(1,4); p.SetValue("lp0",-3); p.SetValue("rp0",2); p.SetValue("order",2); p.SetValue("nip","true"); p.SetValue("gain",1.75); c.O=new OGobbler(); c.O->Init(p); c.herm=false; break; }
  case K_PML1: { c.w=mkgrid(1,6); p.SetValue("mass","2"); p.SetValue("thick",2); p.SetValue("smax",1.5); c.O=new OGridPML(); c.O->Init(p); c.herm=false; break; }
  case K_PML2: { c.w=mkgrid(2,4,5); p.SetValue("mass","2,3"); p.SetValue("thick","1,2"); p.SetValue("lmap","1,3"); p.SetValue("smax",1.5); c.O=new OGridPML(); c.O->Init(p); c.herm=false; break; }
  case K_NSQ3: { c.w=mkgrid(3,3,2,2); p.SetValue("mass","2,3,0.5"); c.O=new OGridNablaSq(); c.O->Init(p); break; }
  case K_NAB2: { c.w=mkgrid(2,4,2); c.O=new OGridNabla(); c.O->Init(p); c.herm=false; break; }
  case K_POT3: { WFGridCartesian*g=mkgrid(3,2,3,2); c.w=g; c.O=mkpot(g,"V",sym); break; }
  case K_DIP2: { WFGridCartesian*g=mkgrid(2,2,3); c.w=g; c.cl=new QDClock(); c.cl->Dt(0.25); c.cl->Steps(2); OGridDipole*d=new OGridDipole(); ParamContainer q; int N[2]={2,3}; gridparams(q,2,N,GLO,GHI); d->OGridPotential::Init(q); for(int i=0;i<6;i++) (*d)[i]=VV(nm("D",i),sym,i);
     setlaser(d->GetLaser(),c.cl,"E",sym); d->GetLaser()->Scale(0.75); d->Clock(c.cl); c.las=d->GetLaser(); c.O=d; break; }
  case K_MS3: { c.w=mkmulti(3,gr4); WFGridSystem*g=(WFGridSystem*)(WFGridCartesian*)((WFMultistate*)c.w)->State(0); OMultistate*s=new OMultistate(); s->Hermitian(true); p.SetValue("mass","2"); OGridNablaSq*t=new OGridNablaSq(); t->Init(p); s->Add(t,0,0); s->Add(mkpot(g,"U",sym),1,1); s->Add(mkpot(g,"V",sym),1,0); s->Add(mkpot(g,"W",sym),1,2); c.O=s; break; }
  case K_NEST: { c.w=mkmulti(2,lv2); OProduct*a=new OProduct(); a->Add(mkmat(2,"M",sym)); a->Add(mkmat(2,"N",sym)); OSum*u=new OSum(); u->Add(mkmat(2,"L",sym)); u->Add(a); OMultistate*s=new OMultistate(); s->Hermitian(false); s->Add(u,0,1); s->Add(mkmat(2,"K",sym),0,0); c.O=s; c.herm=false; break; }
  case K_SUMM: { c.w=mkmulti(2,lv2); OMultistate*s=new OMultistate(),*t=new OMultistate(); s->Hermitian(true); t->Hermitian(true); s->Add(mkmat(2,"M",sym),0,0); s->Add(mkmat(2,"N",sym),0,1); t->Add(mkmat(2,"L",sym),1,1); OSum*u=new OSum(); u->Add("s",s); u->Add("t",t); c.O=u; break; }
  case K_GM2G: { WFGridCartesian*g=mkgrid(2,4,2); c.w=g; writegrid("gn_00",g,gval); writegrid("gn_10",g,nval); writegrid("gn_11",g,gval); p.SetValue("dims",2); p.SetValue("gmat","gn"); c.O=new OGridGMat(); c.O->Init(p); break; }
  case K_PRODG: { WFGridCartesian*g=mkgrid(1,4); c.w=g; OProduct*s=new OProduct(); s->Add(mkpot(g,"V",sym)); OGridNabla*n=new OGridNabla(); ParamContainer q; n->Init(q); s->Add(n); s->Add(mkpot(g,"W",sym)); c.O=s; c.herm=false; break; }
  case K_HOFD2: { c.w=mkgrid(2,6,2); p.SetValue("deriv",2); p.SetValue("order",4); p.SetValue("dim",0); c.O=new OGridHOFD(); c.O->Init(p); c.herm=false; break; }
  case K_PROJM: { c.w=mkmulti(2,lv2); OProjection*s=new OProjection(); s->Init(p); s->Init(c.w); for(int i=0;i<2;i++){ WaveFunction*b=mkmulti(2,lv2); if(sym) symwf((cVec*)b,nm("p",i)); else setwf((cVec*)b,i?conc:conc2); s->Add(b); } c.O=s; break; }
  case K_SCM: { c.w=mkmulti(2,lv2); p.SetValue("value",-0.5); c.O=new OScalar(); c.O->Init(p); break; }
  case K_KICK1: { c.w=mkgrid(1,4); p.SetValue("k","0.75"); c.O=new OGridKick(); c.O->Init(p); c.herm=false; break; }
  case K_NAC2: { WFGridCartesian*g=mkgrid(2,2,4); c.w=g; writegrid("nad0",g,nval); writegrid("nad1",g,gval); p.SetValue("dims",2); p.SetValue("file","nad"); c.O=new OGridNAC(); c.O->Init(p); c.herm=false; break; }
  case K_GM3: { c.w=mkgrid(3,2,2,4); p.SetValue("dims",3); p.SetValue("G","0.5,0.125,0.25,-0.2,0.3,1"); c.O=new OGridGMat(); c.O->Init(p); break; }
  case K_NACS: { WFGridCartesian*g=mkgrid(1,4); c.w=g; writegrid("nas0",g,gval); p.SetValue("dims",1); p.SetValue("file","nas"); p.SetValue("sign",-1); c.O=new OGridNAC(); c.O->Init(p); c.herm=false; break; }
  }
  if(k!=K_PROJ && k!=K_PROJI && k!=K_PROJM) c.O->Init(c.w);
  return c; }
static std::string om(const OpCase&c,const char*m){ return std::string(OPN[c.k])+": "+m; }
#endif
