//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc ChainLoader.cpp GlobalOpList.cpp GlobalWFList.cpp ProgEigen.cpp ProgPropa.cpp FiltersList.cpp Reporter.cpp
//NOT linalg/lapack_rs.cpp
//LIBS protobuf z bz2 lapack blas fftw3 xml2
//TEXT 1
//TIME 300 700
//BOUNDS level functions of 2 amplitudes ; relaxation of 1 and 2 eigenfunctions over 1 to 3 steps with and without restart for two Hamiltonians; diagonalisation in a complete basis of 2 stored functions for all symmetric 2x2 Hamiltonians; autocorrelation runs of 4 or 5 (thorough: 6) given stored wave functions for all symmetric 2x2 Hamiltonians
//REACH relax basis autocorr refused
#include "ProgEigen.h"
#include "ProgPropa.h"
#include "qdlib/Conversion.h"
#include <sys/stat.h>
#include "prog.h"
#include "lapack.h"
static void eig_(const S&x){ ProgEigen*p=new ProgEigen(*X(x)); p->Run(); }
// a file holds v up to its length: f*|v| == v
static void unit(const CV&f,const CV&v,const char*m){ double n=sqrt(dot(v,v)._real); sym_assert(f.size()==v.size(),m); for(size_t i=0;i<v.size();i++){ sym_close(f[i]._real*n,v[i]._real,1e-7,m); sym_close(f[i]._imag*n,v[i]._imag,1e-7,m); } }
static void energies(const S&n,const std::vector<double>&e,const std::vector<double>&f){ Table t=table(n.c_str(),false); sym_assert(t.row.size()==e.size(),"the energy table has a line for each eigenfunction"); for(size_t i=0;i<e.size();i++){ const std::vector<double>&r=t.row[i]; sym_assert(r.size()==(i?5u:4u),"a line of the energy table"); sym_close(r[0],i,1e-9,"the energy table counts the eigenfunctions"); sym_close(r[1]*f[i],e[i],1e-6,"the energy table gives the energies"); sym_close(r[2]*f[i],e[i]*AU2WAVENUMBERS,0.02,"the energy table gives the energies in wave numbers"); sym_close(r[3],(r[1]-t.row[0][1])*AU2WAVENUMBERS,0.02,"the energy table gives the energies above the lowest"); if(i) sym_close(r[4],(r[1]-t.row[i-1][1])*AU2WAVENUMBERS,0.02,"the energy table gives the energies above the one before"); } }
extern "C" void sym_main(){ symtext(); textexact(6); sym_tidy(1); std::cout.setstate(std::ios::failbit);
  int what=sym_pick("what",0,3); double dt=0.5; int T=TIER(); WaveFunction*w=mklevel(2); S W=el("wf","file=\"in\"");
  OHermitianMatrix*h=mkmat(2,"H",false); (*h)(0,0)=0.25; (*h)(1,1)=1; (*h)(0,1)=(*h)(1,0)=-0.5; putmat(h,"mH"); CM H=cm(h,1); S P=el("propagator","name=\"RK4\"",el("hamiltonian","name=\"HermitianMatrix\" file=\"mH\""));
  auto line=[&](double t){ at(w,0)=dcomplex(1,0.5*t); at(w,1)=dcomplex(t,-0.25); };
  if(what==0){ // relaxation
    int n=sym_pick("functions",1,2),N=sym_pick("steps",1,3),start=n==2?sym_pick("start",0,1):0,named=sym_pick("named",0,1); double E=sym_pick("gap",1,2); OHermitianMatrix*m=mkmat(2,"M",false); (*m)(0,0)=0.25; (*m)(1,1)=E; (*m)(0,1)=(*m)(1,0)=E-1.5; putmat(m,"mM"); CM M=cm(m,1); S PM=el("propagator","name=\"RK4\"",el("hamiltonian","name=\"HermitianMatrix\" file=\"mM\""));
    at(w,0)=dcomplex(0.6,0); at(w,1)=dcomplex(0,0.8); putwf(w,"in"); CV p0=fv(w),v; S b=named?"e":"ef"; if(start){ at(w,0)=dcomplex(0.8,0); at(w,1)=dcomplex(0,0.6); putwf(w,(b+"_0").c_str()); }
    eig_(el("eigen","dt=\"0.5\" steps=\""+num(N)+"\" Nef=\""+num(n)+"\" diag=\"false\" conv=\"-1\""+(start?" start=\"1\"":"")+(named?" fname=\"e\" ename=\"en\"":""),PM+W)); CM U=steps(PM,w,dt,1,true)[0]; std::vector<double> e,f; CV lo;
    for(int i=0;i<n;i++){ CV g=readwf(b+"_"+num(i)); if(i<start) v=g; else { v=p0; for(int k=0;k<N;k++){ v=mv(U,v); if(i){ dcomplex c=dot(lo,v); double q=dot(lo,lo)._real; for(size_t j=0;j<v.size();j++) v[j]=v[j]*q-lo[j]*c; } } }
      const char*t=i?"the next eigenfunction is relaxed without the ones before":"an eigenfunction is the relaxed initial wave function"; dcomplex x=g[0]*v[1]-g[1]*v[0]; sym_close(x._real,0,1e-7,t); sym_close(x._imag,0,1e-7,t); sym_close(dot(g,g)._real,1,1e-7,t); dcomplex y=dot(g,v); sym_close(y._imag,0,1e-7,t); sym_le(0,y._real,1e-9,t); lo=v; e.push_back(dot(v,mv(M,v))._real); f.push_back(dot(v,v)._real); } energies(named?"en":"energy.dat",e,f); sym_reach("relax"); }
  if(what==1){ // diagonal energies in a complete basis
    double a=sym_double("e0",-1,0),b=sym_double("e1",0.25,1); static const double cs[][2]={{1,0},{0.8,0.6},{0.6,-0.8}}; int q=sym_pick("angle",0,2); LW.on=1; LW.w[0]=a; LW.w[1]=b; LW.c=cs[q][0]; LW.s=cs[q][1]; double c=LW.c,s=LW.s;
    at(w,0)=dcomplex(1,0); at(w,1)=dcomplex(0,0); putwf(w,"in"); putwf(w,"ef_0"); at(w,0)=dcomplex(0,0); at(w,1)=dcomplex(1,0); putwf(w,"ef_1"); OHermitianMatrix*m=mkmat(2,"M",false); (*m)(0,0)=c*c*a+s*s*b; (*m)(1,1)=s*s*a+c*c*b; (*m)(0,1)=(*m)(1,0)=c*s*(a-b); putmat(m,"mM");
    eig_(el("eigen",S("dt=\"0.5\" steps=\"3\" Nef=\"2\" start=\"2\"")+(q==1?" diag=\"true\"":""),el("propagator","name=\"RK4\"",el("hamiltonian","name=\"HermitianMatrix\" file=\"mM\""))+W)); std::vector<double> e(2,0),f(2,1); e[0]=a; e[1]=b; energies("energy.dat",e,f);
    CV x=readwf("ef_0"),y=readwf("ef_1"); CV X0(2,dcomplex(0,0)),Y0=X0; X0[0]=c; X0[1]=s; Y0[0]=-s; Y0[1]=c; same(x,X0,"the diagonalised eigenfunctions are written"); same(y,Y0,"the diagonalised eigenfunctions are written"); sym_reach("basis"); }
  if(what==2){ // from the autocorrelation of a stored propagation
    int N=sym_pick("files",4,T?6:5),wc=sym_pick("cycle",1,2),win=sym_pick("window",0,1),dir=sym_pick("by",0,1); if(!dir&&wc==2) sym_end(); const double t=0.5; OHermitianMatrix*m=mkmat(2,"M",true); putmat(m,"mM"); H=cm(m,1); P=el("propagator","name=\"RK4\"",el("hamiltonian","name=\"HermitianMatrix\" file=\"mM\"")); std::vector<CV> ps; for(int k=0;k<N;k++){ double ph=2*M_PI*k/N; at(w,0)=dcomplex(0.6*cos(ph),-0.6*sin(ph))+dcomplex(0.1*t,0); at(w,1)=dcomplex(0.8*cos(2*ph)+(k==1?0.3*t:0),-0.8*sin(2*ph)); if(k==0){ at(w,0)=dcomplex(0.6,0); at(w,1)=dcomplex(0.8,0); putwf(w,"in"); } putwf(w,("d/WF_"+num(k)).c_str()); ps.push_back(fv(w)); }
    mkdir("d",0755); { ParamContainer p; p.SetValue("CLASS","Propagation"); p.SetValue("Nt",(N-1)*wc); p.SetValue("dt",dt); p.SetValue("WFBaseName","WF"); p.SetValue("Wcycle",wc); p.WriteToFile("d/Propagation.meta"); }
    eig_(el("eigen",S("method=\"ac\" dt=\"")+(dir?"7":"0.5")+"\" tol=\"0.5\" read=\""+(dir?"d/":"d/WF")+"\""+(win?"":" win=\"false\""),P+W)); double d=dt*wc; CV c(N,dcomplex(0,0)),z=c; std::vector<double> pw(N,0); for(int k=0;k<N;k++){ c[k]=k?dot(ps[k],ps[0]):dcomplex(1,0); if(win) c[k]=c[k]*(0.5*(1-cos(2*M_PI*k/(N-1)))); }
    for(int k=0;k<N;k++){ for(int j=0;j<N;j++) z[k]+=c[j]*dcomplex(cos(2*M_PI*j*k/N),-sin(2*M_PI*j*k/N)); pw[k]=sqrt(z[k]._real*z[k]._real+z[k]._imag*z[k]._imag); }
    Table sp=table("spectrum.dat",false); sym_assert((int)sp.row.size()==N,"the spectrum of the autocorrelation is written"); for(int k=0;k<N;k++) sym_close(sp.row[k][0],(k<N/2?k:k-N)*2*M_PI/(d*N),1e-4,"the frequencies of the spectrum are the ones of the stored times");
    Table en=table("energy.dat",false); int ne=en.row.size(),k=0; 
    for(int i=0;i<ne;i++){ CV f=readwf("ef_"+num(i)); bool hit=false; for(;k<N&&!hit;k++){ double E=(k<N/2?k:k-N)*2*M_PI/(d*N); CV v(2,dcomplex(0,0)); for(int s=0;s<N;s++) for(int j=0;j<2;j++) v[j]+=ps[s][j]*dcomplex(cos(E*s*d),sin(E*s*d)); dcomplex a=dot(f,v); double nn=dot(v,v)._real,re=a._real*a._real+a._imag*a._imag-nn; if(fabs(re)<1e-6){ hit=true; sym_close(en.row[i][1]*nn,dot(v,mv(H,v))._real,1e-5,"the energy of an eigenfunction"); } } sym_assert(hit,"an eigenfunction is the integral of the propagation at one of the frequencies"); } if(!ne) sym_end(); sym_reach("autocorr"); }
  if(what==3){ int bad=sym_pick("bad",0,13); line(0.25); putwf(w,"in"); S A="dt=\"0.5\" steps=\"1\" Nef=\"1\"",p=P,x=W; switch(bad){ case 0: A="steps=\"1\" Nef=\"1\""; break; case 1: A="dt=\"0.5\" steps=\"0\""; break; case 2: A="dt=\"0.5\" steps=\"1\" Nef=\"0\""; break; case 3: A+=" start=\"2\""; break; case 4: A+=" start=\"-1\""; break; case 5: A+=" start=\"1\""; break; case 6: A+=" method=\"guess\""; break; case 7: A+=" conv=\"2\""; break; case 8: p=""; break; case 9: x=""; break; case 10: A+=" method=\"lanczos\""; break; case 11: A+=" method=\"ac\" read=\"none\""; break; case 12: p=x=""; break; case 13: p="<!-- -->"; x=""; break; }
    bool refused=false; try { eig_(el("eigen",A,p+x)); } catch(Exception&e){ refused=true; } sym_assert(refused,"an inconsistent eigenfunction run is refused"); sym_reach("refused"); }
}
