//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TEXT 1
//TIME 300 600
//BOUNDS masks on grids of 4 and 3x2 points at eight centers, orders 1 to 3 and 20 (any gain in [0,3]), any center in [-8,8] refused or accepted; absorbing layers on grids of 5, 6 and 4x5 points, thickness 1 to 3, orders 1 to 4, every placement; one to three jump operators with any strength in [-1,1], any random number, any accepted probability; fluxes on 4 and 3x2 points; all amplitudes in [-1,1]
//ASSUME the random number generator gives a number in [0,1)
//REACH mask masknip refused default layer jump norm refusedjump flux
#include "ops.h"
#include "text.h"
#include "qdlib/OJump.h"
#include "qdlib/OFlux.h"
#include "tools/Exception.h"
#include <math.h>
static double rnd_;
#ifdef SYM_REPLAY
extern "C" double drand48() noexcept { return rnd_; }
#else
extern "C" double symm_drand48(){ return rnd_; }
#endif
static cVec*fl(WaveFunction*w){ return (cVec*)w; }
static dcomplex inner(const Snap&a,const Snap&b){ dcomplex s(0,0); for(size_t i=0;i<a.v.size();i++) s=s+a.v[i].conj()*b.v[i]; return s; }
static double powi(double x,int n){ double r=1; while(n--) r=r*x; return r; }
// Butterworth function of order n: 1/2 at the center c (in grid points)
static double butter(bool low,double i,double c,int n){ if(i==c) return 0.5; double a=powi(i,2*n),b=powi(c,2*n); return low?b/(b+a):a/(a+b); }
static int kval(int i,int N){ return i<(N+1)/2?i:i-N; }
typedef std::vector<dcomplex> CV;
// derivative along dimension d of a field on the grid
static CV deriv(WFGridCartesian*g,int d,const CV&x){ int N=g->DimSize(d),lo=1; for(int i=0;i<d;i++) lo*=g->DimSize(i); double L=N*g->Dx(d); CV r(x.size(),dcomplex(0,0)); for(int j=0;j<(int)x.size();j++){ int p=(j/lo)%N; for(int q=0;q<N;q++){ dcomplex D(0,0); for(int k=0;k<N;k++){ double kk=2*M_PI*kval(k,N)/L,ph=2*M_PI*((k*(p-q)%N+N)%N)/N; D=D+dcomplex(cos(ph),sin(ph))*dcomplex(0,kk/N); } r[j]=r[j]+D*x[j+(q-p)*lo]; } } return r; }
extern "C" void sym_main(){ symtext(); sym_tidy(1); std::cout.setstate(std::ios::failbit); ParamContainer p; QDClock*cl=new QDClock(); cl->Dt(0.5); cl->Steps(4);
  int what=sym_pick("what",0,3);
  if(what==0){ int dims=sym_pick("dims",1,2),N[2]={dims==1?4:3,2}; WFGridCartesian*w=dims==1?mkgrid(1,4):mkgrid(2,3,2); bool lp[2]={0,0},rp[2]={0,0}; double lx[2]={0,0},rx[2]={0,0}; int def=sym_pick("default",0,2),order=20; /* 2: any edge */ static const double E1[8]={-5,-4.9,-2.25,0,1.2,5,-8,8.5}; bool out=false; static const double CX[2][2]={{-3,2},{-1,1.2}},CR[2][2]={{-5,4},{-2,-1.5}}; int both=sym_pick("edges",1,dims==1?3:4); /* 1 left, 2 right, 3 both, 4 one of each dimension */
    for(int i=0;i<dims;i++){ if(both==4?i==0:(both&1)) lp[i]=true; if(both==4?i==1:(both&2)) rp[i]=true; if(dims==2&&i==0&&both<4) { lp[i]=rp[i]=false; } }
    for(int i=0;i<dims;i++){ if(lp[i]){ lx[i]=def==1?CX[i][sym_pick("lc",0,1)]:def==2?sym_double(nm("lp",i).c_str(),-8,8):i==0?E1[sym_pick("el",0,dims==1?7:2)]:-1.5; p.SetValue(nm("lp",i),lx[i]); } if(rp[i]){ rx[i]=def==1?CR[i][sym_pick("rc",0,1)]:def==2?sym_double(nm("rp",i).c_str(),-8,8):i==0?E1[lp[i]?sym_pick("er",1,3)*2-1:sym_pick("el",0,dims==1?7:2)]:2.5; p.SetValue(nm("rp",i),rx[i]); } }
    if(def==2&&(both==3||dims==2)) sym_end(); if(def!=1){ order=def==2?1:dims==1?sym_pick("order",1,2):3; p.SetValue("order",order); } bool nip=sym_pick("nip",0,1),residue=!nip&&sym_pick("residue",0,1); if(nip) p.SetValue("nip","true"); double gain=1; if(nip){ gain=sym_double("gain",0,3); p.SetValue("gain",gain); } if(residue) p.SetValue("residue","true"); int va=sym_pick("variant",0,nip?2:1); if(va==0) p.SetValue("dims",dims);
    for(int i=0;i<dims;i++) for(int r=0;r<2;r++) if(r?rp[i]:lp[i]){ double x=((r?rx[i]:lx[i])-w->Xmin(i))/w->Dx(i); if(def==2){ sym_assume(x<-1e-3||x>1e-3); for(int k=1;k<=N[i]+1;k++) sym_assume(x<k-1e-3||x>k+1e-3); } if(x<0||x>=N[i]+1) out=true; }
    OGobbler*O=new OGobbler(); O->Init(p); bool bad=false; try { O->Init((WaveFunction*)w); } catch(Exception&e){ bad=true; } sym_assert(bad==out,"an edge outside the grid is refused"); if(bad){ sym_reach("refused"); sym_end(); } if(def==2) sym_end();
    std::vector<double> f; for(int j=0;j<w->Size();j++){ double v=nip?0:1; int idx[2]={j%N[0],j/N[0]}; for(int i=0;i<dims;i++) for(int r=0;r<2;r++) if(r?rp[i]:lp[i]){ double b=butter(!r,idx[i],((r?rx[i]:lx[i])-w->Xmin(i))/w->Dx(i),order); v=nip?v+b:v*b; } f.push_back(v*gain); }
    const char*m="a mask has the Butterworth form of the given edges"; Operator*o=O; if(va==1){ o=O->NewInstance(); *o=O; } bool cj=va==2; if(cj) o->Conj(true); symwf(w,"w"); Snap in(w),want; for(int j=0;j<w->Size();j++) want.v.push_back(nip?dcomplex(0,cj?1:-1)*f[j]*in.v[j]:in.v[j]*f[j]);
    WaveFunction*d=w->NewInstance(); o->Apply(d,w); wfclose(fl(d),want,1e-6,m); if(!nip) for(int j=0;j<w->Size();j++){ double q=in.v[j].real()*in.v[j].real()+in.v[j].imag()*in.v[j].imag(),z=(*fl(d))[j].real()*(*fl(d))[j].real()+(*fl(d))[j].imag()*(*fl(d))[j].imag(); sym_le(z,q,1e-9,"a mask never amplifies"); }
    double dx=1; for(int i=0;i<dims;i++) dx*=w->Dx(i); if(!cj) sym_close(o->Expec(w),(residue?inner(want,want).real():inner(in,want).real())*dx,1e-5,"expectation value or residue of a mask"); o->Apply(w); wfclose(fl(w),want,1e-6,m); sym_reach(def?"default":nip?"masknip":"mask"); }
  if(what==1){ int gi=sym_pick("grid",0,2); WFGridCartesian*w=gi==2?mkgrid(2,4,5):mkgrid(1,gi?6:5); int dims=gi==2?2:1; int side[2]={3,3},th[2]={10,10},pp[2]={4,4}; double ga[2]={0.25,0.25},ms[2]={2,3},sm[2]={1,1}; static const char*S[]={"0","1","2","3"};
    if(gi<2){ if(sym_pick("map",0,1)) p.SetValue("lmap",S[side[0]=sym_pick("lmap",0,3)]); p.SetValue("thick",S[th[0]=sym_pick("thick",1,gi?3:2)]); if(sym_pick("ord",0,1)) p.SetValue("p",nm("",pp[0]=sym_pick("p",1,3))); p.SetValue("mass","2"); if(gi) p.SetValue("gamma",ga[0]=0.125); }
    else { int v=sym_pick("variant",0,3); p.SetValue("mass",v==3?"2,0":"2,3"); if(v==3) ms[1]=0; if(v==0){ p.SetValue("thick","1"); th[0]=th[1]=1; } else { p.SetValue("thick","1,2"); th[0]=1; th[1]=2; } if(v==1){ p.SetValue("lmap","2,0"); side[0]=2; side[1]=0; } if(v==2){ p.SetValue("lmap","1"); side[0]=side[1]=1; p.SetValue("p","2,3"); pp[0]=2; pp[1]=3; p.SetValue("gamma","0.25,0.5"); ga[1]=0.5; } }
    double otol=1e-5,k[2]; for(int i=0;i<dims;i++) k[i]=M_PI/w->Dx(i)/2; int sx=gi==0?sym_pick("smax",0,2):gi==1?0:2; if(sx==0){ p.SetValue("smax",1.5); sm[0]=sm[1]=1.5; } else { if(sx==2){ p.SetValue("otol",otol=1e-3); p.SetValue("k",k[0]=k[1]=0.75); } for(int i=0;i<dims;i++) sm[i]=-log(otol)*(pp[i]+1.)/(1.141*k[i]*th[i]*w->Dx(i)); }
    OGridPML*O=new OGridPML(); O->Init(p); O->Init((WaveFunction*)w); Operator*o=O; int va=sym_pick("variation",0,1); if(va){ o=new OGridPML(); *o=O; } bool cj=va; if(cj) o->Conj(true); symwf(w,"w"); Snap in(w),want; WaveFunction*d=w->NewInstance(); o->Apply(d,w);
    for(auto&x:in.v) want.v.push_back(dcomplex(0,0)); for(int i=0;i<dims;i++){ if(ms[i]==0) continue; int N=w->DimSize(i),lo=i?w->DimSize(0):1; CV f(N,dcomplex(1,0)); for(int q=0;q<th[i];q++){ double s=sm[i]*powi((th[i]+1-q)/(double)th[i],pp[i]); dcomplex e=dcomplex(1,0)/(dcomplex(1,0)+dcomplex(s*cos(ga[i]*M_PI),s*sin(ga[i]*M_PI))); if(cj) e=e.conj(); if(side[i]&1) f[q]=f[q]*e; if(side[i]&2) f[N-1-q]=f[N-1-q]*e; }
      CV x=in.v; for(int r=0;r<2;r++){ x=deriv(w,i,x); for(int j=0;j<(int)x.size();j++) x[j]=x[j]*f[(j/lo)%N]; } for(size_t j=0;j<x.size();j++) want.v[j]=want.v[j]+x[j]*(-0.5/ms[i]); }
    wfclose(fl(d),want,1e-7,"an absorbing layer scales the derivatives at the chosen ends of the grid"); wfclose(w,in,1e-12,"the source is left unchanged"); sym_reach("layer"); }
  if(what==2){ int n=sym_pick("ops",0,3); bool lim=sym_pick("limit",0,1); double mx=0.5; if(lim){ mx=sym_double("max",0,1); p.SetValue("max_pjump",mx); } p.SetValue("seed",7); OJump*O=new OJump(); O->Init(p); OHermitianMatrix*M[3]; double s[3]; int z=sym_pick("form",0,1); for(int i=0;i<n;i++){ M[i]=mkmat(2,"M",false); s[i]=sym_double(nm("s",i).c_str(),-1,1); double t[3]={0.4+0.3*i,-0.6,0.5-i}; (*M[i])(0,0)=t[0]; (*M[i])(0,1)=t[1]; (*M[i])(1,0)=t[1]; (*M[i])(1,1)=t[2]; for(int a=0;a<2;a++) for(int b=0;b<2;b++) (*M[i])(a,b)*=s[i]; O->Add(nm("L",i),M[i]); }
    WFLevel*w=mklevel(2); for(int i=0;i<2;i++) (*w)[i]=conc(i); Snap in(w); Operator*o=O; if(sym_pick("copy",0,1)){ o=O->NewInstance(); *o=O; } o->Clock(cl); o->Init(w); rnd_=sym_double("rnd",0,1); sym_assume(rnd_<1);
    double nn=inner(in,in).real(); CV psi; for(auto&x:in.v) psi.push_back(x*(1/sqrt(nn))); double c=0; int hit=-1; Snap J[3]; double len[3]; for(int i=0;i<n;i++){ for(int a=0;a<2;a++) J[i].v.push_back(psi[0]*(*M[i])(a,0)+psi[1]*(*M[i])(a,1)); len[i]=inner(J[i],J[i]).real(); }
    WaveFunction*d=w->NewInstance(); bool bad=false; try { if(z) { o->Apply(w); d=w; } else o->Apply(d,w); } catch(EOverflow&e){ bad=true; }
    double tot=0; for(int i=0;i<n;i++) tot+=0.5*len[i]; if(n&&tot>mx-1e-9&&tot<mx+1e-9) sym_end(); sym_assert(bad==(n>0&&tot>=mx),"a jump probability beyond the accepted one is reported"); if(bad){ sym_reach("refusedjump"); sym_end(); }
    for(int i=0;i<n;i++){ c+=0.5*len[i]; if(c>rnd_-1e-9&&c<rnd_+1e-9) sym_end(); if(hit<0&&c>rnd_) hit=i; } const char*m="the operator selected by the random number is applied and the result normalized"; if(hit<0){ wfclose(fl(d),[&]{ Snap q; q.v=psi; return q; }(),1e-7,m); } else { sym_assume(len[hit]>0.01); Snap q=J[hit]; double L=1/sqrt(len[hit]); for(auto&x:q.v) x=x*L; wfclose(fl(d),q,1e-6,m); } if(!z) wfclose(fl(w),in,1e-12,"the source is left unchanged"); sym_reach(hit<0?"norm":"jump"); }
  if(what==3){ int dims=sym_pick("dims",1,2); WFGridCartesian*b=dims==1?mkgrid(1,4):mkgrid(2,3,2),*k=(WFGridCartesian*)b->NewInstance(); p.SetValue("mass",dims==1?"2":"2,3"); OGridNablaSq*T=new OGridNablaSq(); T->Init(p); OGridPotential*G=mkpot(b,"G",true); OFlux*O=new OFlux(); ParamContainer e; O->Init(e); O->Add("T",T); O->Add("G",G); O->Init(b); Operator*o=O; int cp=sym_pick("copy",0,2); if(cp){ o=O->NewInstance(); *o=O; if(cp==2){ *o=O; } o->Init(b); } symwf(b,"b"); symwf(k,"k"); Snap sb(b),sk(k); WaveFunction*t=b->NewInstance(); T->Apply(t,k); Snap st(fl(t)); for(int r=0;r<2;r++){ double x=0,dx=1; for(int i=0;i<dims;i++) dx*=b->Dx(i); for(size_t i=0;i<st.v.size();i++) x+=-2*dx*(*G)[i]*(sb.v[i].conj()*st.v[i]).imag(); dcomplex m=o->MatrixElement(b,k); zclose(m,dcomplex(x,0),1e-8,"the flux is the weighted imaginary part of the kinetic energy density"); } wfclose(b,sb,1e-12,"the bra is left unchanged"); wfclose(k,sk,1e-12,"the ket is left unchanged");
    bool bad=false; O->Add("x",T); try { OFlux q; ParamContainer z; q.Init(z); q.Add("T",T); q.Init(b); } catch(Exception&){ bad=true; } sym_assert(bad,"a flux needs two operators"); sym_reach("flux"); }
}
