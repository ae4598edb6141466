//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TIME 300 600
//BOUNDS spectral part: grids of 3, 4, 5, 8, 4x3, 3x4, 2x4, 2x3x2 points with all plane-wave coefficients in [-1,1], unequal masses and spacings, every dimension alone and all together
//REACH kinetic nabla momentum gmatrix single nac dmap
#include "ops.h"
#include <math.h>
#include "qdlib/Kspace.h"
static const int GR[8][4]={{1,3},{1,4},{1,5},{1,8},{2,4,3},{2,3,4},{2,2,4},{3,2,3,2}};
static int kval(int i,int N){ return i<(N+1)/2 ? i : i-N; }      // the highest wave of an even grid counts as negative
struct Waves { int d,n[3],S; std::vector<dcomplex> c; WFGridCartesian*g;
  Waves(int gi){ d=GR[gi][0]; n[0]=n[1]=n[2]=1; S=1; for(int i=0;i<d;i++){ n[i]=GR[gi][1+i]; S*=n[i]; } g=mkgrid(d,n[0],n[1],n[2]); for(int i=0;i<S;i++) c.push_back(symc(nm("c",i))); }
  double k(int idx,int dim){ int t=idx; for(int i=0;i<dim;i++) t/=n[i]; double L=g->Xmax(dim)-g->Xmin(dim); return 2*M_PI*kval(t%n[dim],n[dim])/(L*n[dim]/(n[dim]-1)); }
  // sum over the waves of f(wave)*c_wave at every grid point
  template<class F> Snap sum(F f){ Snap s; for(int j=0;j<S;j++){ dcomplex v(0,0); for(int w=0;w<S;w++){ double ph=0; int tj=j,tw=w; for(int i=0;i<d;i++){ ph+=double((long)(tj%n[i])*(tw%n[i])%n[i])/n[i]; tj/=n[i]; tw/=n[i]; } dcomplex e=dcomplex(cos(2*M_PI*ph),sin(2*M_PI*ph)); v+=f(w)*e*c[w]; } s.v.push_back(v); } return s; }
};
static void put(cVec*w,const Snap&s){ for(size_t i=0;i<s.v.size();i++) (*w)[i]=s.v[i]; }
extern "C" void sym_main(){
  int gi=sym_pick("grid",0,7); Waves W(gi); WFGridCartesian*g=W.g,*a=(WFGridCartesian*)g->NewInstance(),*r=(WFGridCartesian*)g->NewInstance(); int d=W.d;
  put(a,W.sum([&](int){ return dcomplex(1,0); })); Snap src(a);
  double m[3]={2,0.75,5}; std::string mass="2"; if(d>1) mass+=",0.75"; if(d>2) mass+=",5";
  ParamContainer p; int what=sym_pick("what",0,6);
  switch(what){
  case 0: { p.SetValue("mass",mass); OGridNablaSq T; T.Init(p); T.Init(a); T.Apply(r,a); wfclose(r,W.sum([&](int w){ double e=0; for(int i=0;i<d;i++) e+=W.k(w,i)*W.k(w,i)/(2*m[i]); return dcomplex(e,0); }),1e-8,"kinetic energy: each wave times sum of k^2/2m");
    wfclose(a,src,1e-9,"kinetic energy: source unchanged"); sym_reach("kinetic"); break; }
  case 1: { int dim=sym_pick("dim",-1,d-1); if(dim>=0) p.SetValue("dim",dim); p.SetValue("factor",1.5); OGridNabla N; N.Init(p); N.Init(a); N.Apply(r,a);
    wfclose(r,W.sum([&](int w){ double e=0; for(int i=0;i<d;i++) if(dim<0||dim==i) e+=W.k(w,i); return dcomplex(0,1.5*e); }),1e-8,"first derivative: each wave times i k and the factor"); sym_reach("nabla"); break; }
  case 2: { int dim=sym_pick("dim",-1,d-1); if(dim>=0) p.SetValue("dim",dim); OGridNabla N(true); N.Init(p); N.Init(a); N.Apply(r,a);
    Snap want=W.sum([&](int w){ double e=0; for(int i=0;i<d;i++) if(dim<0||dim==i) e+=W.k(w,i); return dcomplex(e,0); });
    wfclose(r,want,1e-8,"momentum: each wave times k"); N.Apply(a); wfclose(a,want,1e-8,"momentum in place: each wave times k"); sym_reach("momentum"); break; }
  case 3: { if(d>2) sym_end(); int full=sym_pick("coup",0,1); double G[3]={0.5,0.125,0.25}; p.SetValue("dims",d); p.SetValue("G",d==1?"0.5":"0.5,0.125,0.25"); p.SetValue("coup",full==1); OGridGMat T; T.Init(p); T.Init(a); T.Apply(r,a);
    wfclose(r,W.sum([&](int w){ double k0=W.k(w,0),k1=d>1?W.k(w,1):0; return dcomplex(0.5*(G[0]*k0*k0+(full?2*G[1]*k0*k1:0)+(d>1?G[2]*k1*k1:0)),0); }),1e-8,"kinetic coupling: each wave times half the sum of G k k"); wfclose(a,src,1e-9,"kinetic coupling: source unchanged"); sym_reach("gmatrix"); break; }
  case 4: { int der=sym_pick("deriv",1,2),dim=sym_pick("dim",0,d-1),one=sym_pick("one",0,1); if(one && d==1) sym_end(); double f=0.75; Diff D(der); D.SetGrid(*g); if(one) D.Dim(dim); dVec fac(d); for(int i=0;i<d;i++) fac[i]=0.5+i; D.Factors(fac); D.InitParams(p);
    Snap want=W.sum([&](int w){ double k=W.k(w,dim); return der==1?dcomplex(0,f*fac[dim]*k):dcomplex(-f*fac[dim]*k*k,0); });
    D.DnDxn(r,a,dim,f); wfclose(r,want,1e-8,"derivative along one dimension: each wave times its wave number"); wfclose(a,src,1e-9,"derivative along one dimension: source unchanged");
    symwf(r,"r"); Snap r0(r); for(size_t i=0;i<want.v.size();i++) r0.v[i]+=want.v[i]; D.DnDxnAdd(r,a,dim,f); wfclose(r,r0,1e-8,"adding derivative along one dimension: old content plus derivative"); sym_reach("single"); break; }
  case 5: { if(d>1) sym_end(); OGridNAC N; writegrid("nacc",g,[](int)->double{ return 0.3; }); p.SetValue("dims",1); p.SetValue("file","nacc"); p.SetValue("mass",2); N.Init(p); N.Init(a); N.Apply(r,a);
    wfclose(r,W.sum([&](int w){ return dcomplex(0,0.3*W.k(w,0)/2); }),1e-8,"non-adiabatic coupling: each wave times i k and the constant coupling over the mass"); sym_reach("nac"); break; }
  case 6: { // the k-space representation agrees with the action of the operator
    p.SetValue("mass",mass); OGridNablaSq T; T.Init(p); T.Init(a); dVec*k=((ODSpace*)&T)->Dspace(); for(int w=0;w<W.S;w++){ double e=0; for(int i=0;i<d;i++) e+=W.k(w,i)*W.k(w,i)/(2*m[i]); sym_close((*k)[w],e,1e-9,"kinetic energy: diagonal representation holds k^2/2m"); }
    cVec ex(W.S); T.InitExponential(&ex,dcomplex(-0.25,0)); for(int w=0;w<W.S;w++){ double e=0; for(int i=0;i<d;i++) e+=W.k(w,i)*W.k(w,i)/(2*m[i]); sym_close(ex[w].real(),exp(-0.25*e),1e-9,"kinetic energy: exponential of the diagonal representation"); sym_close(ex[w].imag(),0,1e-9,"kinetic energy: exponential of the diagonal representation"); } sym_reach("dmap"); break; }
  }
}
