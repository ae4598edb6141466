//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TIME 300 600
//BOUNDS every hermitian operator family of the operator list (50 cases) with concrete numbers and all amplitudes in [-1,1], at every time step of its fields; any values in [-1,1] of potentials, polarisabilities, fields, level energies and couplings for potentials, Raman couplings, sums, products and the matrix a two-state Hamiltonian hands to the diagonalisation; kinetic couplings from lists of constants; waves of the lowest and highest momenta on grids 9x9 and 5x5x5 for lists of kinetic couplings; grids 4, 6, 2x2, 3x2, 4x2, 4x4
//REACH rayleigh potential raman sum product multistate scalar dipole gmatrix position momentum projection waves
#include "ops.h"
#include "expm.h"
#include "linalg/LapackDiag.h"
#include <math.h>
static const double EPS=1e-9;
#ifndef SYM_REPLAY
static double MM[9]; static int MN=0;
extern "C" { int sym_is_sym(void*,size_t);
void symm_dsyev_(char*j,char*u,int*n,double*a,int*lda,double*w,double*k,int*lk,int*info){
  if(!sym_is_sym(a,8*(size_t)*lda**n)){ LAPACK::dsyev_(j,u,n,a,lda,w,k,lk,info); return; }
  MN=*n; for(int i=0;i<*n;i++) for(int l=0;l<*n;l++) MM[i**n+l]=a[i<=l?i+l**lda:l+i**lda]; // the upper triangle is what counts
  for(int i=0;i<*n;i++){ w[i]=sym_double(nm("ev",i).c_str(),-100,100); if(i) sym_assume(w[i-1]<=w[i]); } *info=0; } }
#endif
// bounds of every energy of a concrete operator: the quadratic form is the sum over its eigenvectors for all functions
static void rayleigh(OpCase&c,const char*low,const char*high){ CM M=matrix(c.O,c.w); int n=M.size(); CV e(n,dcomplex(0,0)); CM Z=eig(M,e); double lo=c.O->Emin().real(),hi=c.O->Emax().real();
  double mn=e[0].real(),mx=mn; for(auto&x:e){ mn=std::min(mn,x.real()); mx=std::max(mx,x.real()); }
  WaveFunction*a=c.w->NewInstance(),*b=c.w->NewInstance(); symwf((cVec*)a,"a"); c.O->Apply(b,a); dcomplex q(0,0),s(0,0); for(int i=0;i<n;i++) q=q+at(a,i).conj()*at(b,i);
  CM R=zero(n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) for(int k=0;k<n;k++) R[i][j]=R[i][j]+Z[i][k]*e[k].real()*Z[j][k].conj();
  for(int i=0;i<n;i++){ dcomplex z(0,0); for(int j=0;j<n;j++) z=z+R[i][j]*at(a,j); s=s+at(a,i).conj()*z; }
  sym_close(q.real(),s.real(),1e-7,om(c,"the energy of any function is made up of the eigenvalues").c_str());
  sym_assert(lo<=mn+EPS,om(c,low).c_str()); sym_assert(mx<=hi+EPS,om(c,high).c_str()); }
static double val(Operator*O,WaveFunction*w,int i){ WaveFunction*a=w->NewInstance(),*b=w->NewInstance(); for(int j=0;j<total(w);j++) at(a,j)=dcomplex(j==i,0); O->Apply(b,a); return at(b,i).real(); }
static void inside(Operator*O,double x,const char*m){ sym_le(O->Emin().real(),x,1e-9,(std::string(m)+" (lower end)").c_str()); sym_le(x,O->Emax().real(),1e-9,(std::string(m)+" (upper end)").c_str()); }
extern "C" void sym_main(){ sym_tidy(1); int what=sym_pick("what",0,12);
  if(what==0){ int k=sym_pick("op",0,K_N-1); OpCase c=mkop(k,false); if(!c.herm||k==K_PROJ||k==K_PROJI||k==K_PROJM) sym_end();
    int T=c.cl?c.cl->Steps():1; for(int t=0;t<T;t++){ if(t){ ++(*c.cl); c.O->UpdateTime(); } rayleigh(c,"no energy lies below the reported range","no energy lies above the reported range"); } sym_reach("rayleigh"); }
  if(what==1){ OpCase c=mkop(K_POT1,true); int i=sym_pick("i",0,total(c.w)-1); inside(c.O,val(c.O,c.w,i),"the values of a potential lie in its energy range"); sym_reach("potential"); }
  if(what==2){ // values of either sign on two points, two time steps
    static const double F[][2]={{0.5,-1},{-1,-0.5}}; QDClock*cl=new QDClock(); cl->Dt(0.5); cl->Steps(2); OGridRaman*d=new OGridRaman(); WFGridCartesian*g=mkgrid(1,2); ParamContainer q; int N=2; gridparams(q,1,&N,GLO,GHI); d->OGridPotential::Init(q); for(int i=0;i<2;i++) (*d)[i]=VV(nm("D",i),i==0,i);
    int s=sym_pick("second",0,1); setlaser(d->GetLaser(s),cl,"E",true); setlaser(d->GetLaser(1-s),cl,"F",false); int f=sym_pick("field",0,1); for(int i=0;i<2;i++) (*d->GetLaser(1-s))[i]=F[f][i]; d->Clock(cl); ((Operator*)d)->Init((WaveFunction*)g);
    int i=sym_pick("i",0,1),t=sym_pick("t",0,1); if(t){ ++(*cl); d->UpdateTime(); } inside(d,val(d,g,i),"the values of a Raman coupling lie in its energy range"); sym_reach("raman"); }
  if(what==3){ int g=sym_pick("gridsum",0,2); OpCase c=mkop(g==0?K_GSUM:g==1?K_SUML:K_SUM,g!=1); if(g==0){ WFGridCartesian*h=mkgrid(1,2); OGridSum*u=new OGridSum(); u->Add(mkpot(h,"V",true)); u->Add(mkpot(h,"W",true)); u->Init(h); int i=sym_pick("i",0,1); inside(u,val(u,h,i),"the values of a sum of potentials lie in its energy range"); }
    else { dcomplex lo(0,0),hi(0,0); OSum*s=dynamic_cast<OSum*>(c.O); for(int i=0;i<s->Size();i++){ lo=lo+s->Get(i)->Emin(); hi=hi+s->Get(i)->Emax(); } sym_le(c.O->Emin().real(),lo.real(),1e-9,"the lower end of a sum covers the lower ends of its terms"); sym_le(hi.real(),c.O->Emax().real(),1e-9,"the upper end of a sum covers the upper ends of its terms"); }
    sym_reach("sum"); }
  if(what==4){ WFGridCartesian*g=mkgrid(1,2); OProduct*P=new OProduct(); int n=sym_pick("factors",1,3); for(int i=0;i<n;i++) P->Add(mkpot(g,nm("V",i).c_str(),i<2)); P->Init(g); int i=sym_pick("i",0,1); inside(P,val(P,g,i),"the values of a product of potentials lie in its energy range"); sym_reach("product"); }
  if(what==5){ // two or three states: energies and couplings the bound is made of
    int S=sym_pick("states",2,3); WFMultistate*m=S==2?mkmulti(2,gr4):mkmulti(3,gr4); WFGridSystem*g=(WFGridSystem*)(WFGridCartesian*)m->State(0); OMultistate*O=new OMultistate(); O->Hermitian(sym_pick("hermitian",0,1)); O->Unity(true); int miss=sym_pick("missing",0,1),lower=sym_pick("below",0,1);
    for(int i=0;i<S;i++) for(int j=0;j<i;j++){ OGridPotential*v=mkpot(g,"",false); double x=VV(nm("C",i*S+j),true,0); for(int q=0;q<4;q++) (*v)[q]=x; O->Add(v,lower?i:j,lower?j:i); if(!O->Hermitian()){ OGridPotential*u=mkpot(g,"",false); for(int q=0;q<4;q++) (*u)[q]=x; O->Add(u,lower?j:i,lower?i:j); } }
    double d[3]; for(int i=0;i<S;i++){ d[i]=1; if(i==0&&miss) continue; OGridPotential*v=mkpot(g,"",false); d[i]=VV(nm("D",i),true,0); for(int q=0;q<4;q++) (*v)[q]=d[i]; O->Add(v,i,i); }
    O->Init(m); int up=sym_pick("upper",0,1);
#ifndef SYM_REPLAY
    double r=up?O->Emax().real():O->Emin().real(); sym_assert(MN==S,"one row for every state"); double C[9];
    for(int i=0;i<S;i++){ if(up) sym_le(d[i],MM[i*S+i],1e-9,"energies of the states in the upper bound"); else sym_le(MM[i*S+i],d[i],1e-9,"energies of the states in the lower bound");
      if(up) for(int j=0;j<i;j++){ double x=(*dynamic_cast<OGridPotential*>(O->State(lower?i:j,lower?j:i)))[0]; sym_assert(MM[i*S+j]>=x-1e-9&&MM[i*S+j]>=-x-1e-9,"couplings of the states in the upper bound"); } }
    (void)C; (void)r;
#else
    double lo=O->Emin().real(),hi=O->Emax().real(); CM M=zero(S); for(int i=0;i<S;i++) for(int j=0;j<S;j++){ Operator*o=O->State(i,j); M[i][j]=o?dcomplex((*dynamic_cast<OGridPotential*>(o))[0],0):dcomplex(i==j,0); } CV e(S,dcomplex(0,0)); eig(M,e); double mx=e[0].real(); for(auto&x:e) mx=std::max(mx,x.real());
    if(up){ sym_assert(mx<=hi+1e-9,"couplings of the states in the upper bound"); sym_assert(mx<=hi+1e-9,"energies of the states in the upper bound"); } else for(int i=0;i<S;i++) sym_assert(lo<=d[i]+1e-9,"energies of the states in the lower bound");
#endif
    sym_reach("multistate"); }
  if(what==6){ static const char*v[]={"1.5","-0.5","0","-3","0.25"}; WaveFunction*w=mklevel(2); OScalar*O=new OScalar(); ParamContainer p; int i=sym_pick("value",0,4); p.SetValue("value",v[i]); O->Init(p); O->Init(w); inside(O,val(O,w,0),"a scalar lies in its energy range"); sym_reach("scalar"); }
  if(what==7){ static const char*G[]={"0.5,0.125,0.25","0.5,-0.125,0.25","2,0,1","1,-0.75,1","0.25,0.5,4"}; static const char*D[]={"true","false"}; OpCase c; c.k=K_GMC; c.cl=0; c.w=mkgrid(2,4,sym_pick("n",0,1)?4:2); ParamContainer p; p.SetValue("dims",2); p.SetValue("G",G[sym_pick("G",0,4)]); p.SetValue("coupling",D[sym_pick("c",0,1)]); c.O=new OGridGMat(); c.O->Init(p); c.O->Init(c.w); rayleigh(c,"no energy lies below the reported range","no energy lies above the reported range"); sym_reach("gmatrix"); }
  if(what==8){ static const char*v[]={"1","-2","0.5","3"}; int d=sym_pick("dim",0,3),s=sym_pick("scale",0,3); OGridPosition*O=new OGridPosition(); ParamContainer p; if(d<2) p.SetValue("dim",d); p.SetValue("scale",v[s]); O->Init(p); WFGridCartesian*w=d==3?mkgrid(1,5):mkgrid(2,3,2); O->Init(w); for(int i=0;i<total(w);i++) inside(O,val(O,w,i),"the positions lie in the energy range of the position operator"); sym_reach("position"); }
  if(what==9){ static const char*v[]={"1","-2","0.5"}; OpCase c; c.k=K_MOM2; c.cl=0; int d=sym_pick("dim",0,3); ParamContainer p; if(d<2) p.SetValue("dim",d); if(sym_pick("fac",0,1)) p.SetValue("factor",v[sym_pick("f",0,2)]); c.O=new OGridNabla(true); c.O->Init(p); c.w=d==3?mkgrid(1,sym_pick("n",4,6)):mkgrid(2,4,2); c.O->Init(c.w); rayleigh(c,"no energy lies below the reported range","no energy lies above the reported range"); sym_reach("momentum"); }
  if(what==10){ OpCase c; c.k=K_PROJ; c.cl=0; c.w=mklevel(3); OProjection*O=new OProjection(); ParamContainer p; int neg=sym_pick("neg",0,1),inv=sym_pick("inv",0,1); if(neg) p.SetValue("positive","false"); if(inv) p.SetValue("inv","true"); O->Init(p); O->Init(c.w); int n=sym_pick("n",1,2); for(int i=0;i<n;i++){ WaveFunction*b=mklevel(3); for(int j=0;j<3;j++) at(b,j)=dcomplex(i?(j==2):(j==0?0.6:0),i?0:(j==1?0.8:0)); O->Add(b); } c.O=O; rayleigh(c,"no energy lies below the reported range","no energy lies above the reported range"); sym_reach("projection"); }
  if(what==11){ // fields and dipoles of one sign: the width of the range covers the coupling
    QDClock*cl=new QDClock(); cl->Dt(0.5); cl->Steps(2); OGridDipole*d=new OGridDipole(); WFGridCartesian*g=mkgrid(1,2); ParamContainer q; int N=2; gridparams(q,1,&N,GLO,GHI); d->OGridPotential::Init(q); for(int i=0;i<2;i++) (*d)[i]=sym_double(nm("D",i).c_str(),0,1);
    setlaser(d->GetLaser(),cl,"E",false); for(int i=0;i<2;i++) (*d->GetLaser())[i]=sym_double(nm("E",i).c_str(),0,1); d->Clock(cl); ((Operator*)d)->Init((WaveFunction*)g); int i=sym_pick("i",0,1),t=sym_pick("t",0,1); if(t){ ++(*cl); d->UpdateTime(); }
    sym_le(-val(d,g,i),d->Emax().real()-d->Emin().real(),1e-9,"the width of the range of a dipole coupling covers the coupling"); sym_reach("dipole"); }
  if(what==12){ // waves of every momentum on finer grids: a coupling counts with either sign
    static const char*G[]={"1,-0.99,1","1,0.99,1","2,-1.3,0.9"},*H[]={"1,-0.49,1,-0.49,-0.49,1","1,0.9,1,0.9,0.9,1"}; int d=sym_pick("dims",2,3),n=d==2?9:5; ParamContainer p; p.SetValue("dims",d); p.SetValue("G",d==2?G[sym_pick("G",0,2)]:H[sym_pick("H",0,1)]); OGridGMat*O=new OGridGMat(); O->Init(p); WFGridCartesian*w=d==2?mkgrid(2,n,n):mkgrid(3,n,n,n); O->Init(w); double lo=O->Emin().real(),hi=O->Emax().real(); WaveFunction*b=w->NewInstance(); double a=sym_double("amp",-1,1);
    for(int i:{0,n/2,n/2+1}) for(int j:{0,n/2,n/2+1}){ int kk[3]={i,j,d==3?(j?n-j:i):0};
      for(int x=0;x<total(w);x++){ int r=x; double ph=0; for(int q=0;q<d;q++){ ph+=kk[q]*(r%n); r/=n; } ph*=2*M_PI/n; at(w,x)=dcomplex(a*cos(ph),a*sin(ph)); } O->Apply(b,w); dcomplex e(0,0); e=e+at(w,1).conj()*at(b,1); double q=a*a;
      sym_le(lo*q,e.real(),1e-9,"no energy lies below the reported range"); sym_le(e.real(),hi*q,1e-9,"no energy lies above the reported range"); } sym_reach("waves"); }
}
