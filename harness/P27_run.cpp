//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc ChainLoader.cpp GlobalOpList.cpp GlobalWFList.cpp FiltersList.cpp Reporter.cpp ProgPropa.cpp ProgFilter.cpp
//NOT linalg/lapack_rs.cpp
//LIBS protobuf z bz2 lapack blas fftw3 xml2
//TEXT 1
//TIME 300 700
//BOUNDS level functions of 2 amplitudes and two-state functions with any amplitudes, runs of 2 to 4 steps (thorough: 6), write cycles 1 to 3, the Runge-Kutta propagator with a given Hamiltonian with or without a laser field; filters with any real symmetric 2x2 matrix
//REACH files filters table spectrum evaluate refused
#include "ProgPropa.h"
#include "ProgFilter.h"
#include "prog.h"
static void run(const S&x){ ProgPropa*p=new ProgPropa(*X(x)); p->Run(); delete p; }
extern "C" void sym_main(){ symtext(); textexact(6); sym_tidy(1); std::cout.setstate(std::ios::failbit);
  int what=sym_pick("what",0,5); double dt=0.5; int big=TIER()?6:4;
  OHermitianMatrix*h=mkmat(2,"H",false); putmat(h,"mH"); OHermitianMatrix*g=mkmat(2,"G",false); (*g)(0,0)=0; (*g)(1,1)=0.25; (*g)(0,1)=(*g)(1,0)=-0.5; putmat(g,"mG");
  if(what==0){ // the files of a run
    int N=sym_pick("steps",2,big),wc=sym_pick("cycle",1,3),start=wc==1?sym_pick("start",0,2):0,init=sym_pick("init",0,1),back=sym_pick("backward",0,1),field=back?0:sym_pick("field",0,1); if(back) dt=-dt; S name=sym_pick("named",0,1)?"out":"WF";
    if(field) laserfile(N+2,dt); WaveFunction*w=mklevel(2); symwf((cVec*)w,"w"); putwf(w,"in"); CV psi=fv(w);
    S H=field?el("hamiltonian","name=\"Sum\"",el("a","name=\"HermitianMatrix\" file=\"mH\"")+el("b","name=\"MatDipole\" file=\"mG\" laser=\"las\"")):el("hamiltonian","name=\"HermitianMatrix\" file=\"mH\""); S P=el("propagator","name=\"RK4\"",H);
    OHermitianMatrix*k=0; if(init){ k=mkmat(2,"K",false); putmat(k,"mK"); }
    run(el("propa","norm=\"false\" energy=\"false\" dt=\""+num(dt)+"\" steps=\""+num(N)+"\" wcycle=\""+num(wc)+"\""+(start?" start=\""+num(start)+"\"":"")+(name=="WF"?"":" fname=\"out\""),P+el("wf","file=\"in\"")+(init?el("filterinit","",el("apply","name=\"HermitianMatrix\" file=\"mK\"")):"")));
    if(init) psi=mv(cm(k,1),psi); std::vector<CM> U=steps(P,w,dt,N+start); if(!start) same(readwf(name+"_0"),psi,"the initial wave function is written first"); else sym_assert(vfs_size((name+"_0.wf").c_str())<0,"a run with a start index does not write the initial wave function");
    if(!start) for(int i=1;i<=N;i++){ psi=mv(U[i-1],psi); if(i%wc==0) same(readwf(name+"_"+num(i/wc)),psi,"a file holds the wave function propagated by that many write cycles"); }
    else { psi=mv(U[start],psi); same(readwf(name+"_"+num(start)),psi,"a run with a start index writes its first step to that index"); }
    if(!start) sym_assert(vfs_size((name+"_"+num(N/wc+1)+".wf").c_str())<0,"no more files are written than the run has write cycles");
    ParamContainer p; sym_assert(p.ReadFromFile("Propagation.meta"),"the description of the run is written"); int nt,c; double d; S b; p.GetValue("Nt",nt); p.GetValue("Wcycle",c); p.GetValue("dt",d); p.GetValue("WFBaseName",b); sym_assert(nt==N&&c==wc&&d==dt&&b==name,"the description of the run says how it was done"); sym_reach("files"); }
  if(what==1){ // filters
    int N=2,cplx=sym_pick("value",0,3),sum=TIER()?sym_pick("sum",0,1):cplx%2,act=sym_pick("action",0,4),norm=sym_pick("renormalised",0,1),pre=TIER()?sym_pick("pre",0,1):(act+norm+cplx/2)%2; bool ms=act==4; WaveFunction*w=ms?(WaveFunction*)mkmulti(2,l2):l2(); if(norm) setwf((cVec*)w,conc); else symwf((cVec*)w,"w"); putwf(w,"in"); CV psi=fv(w);
    OHermitianMatrix*m=mkmat(2,"M",true); putmat(m,"mM"); CM M=cm(m,ms?2:1),K=cm(g,ms?2:1);
    static const char*val[]={"real","imag","complex","abs"}; S opt=S(" value=\"")+val[cplx]+"\""+(sum?" int=\"true\"":"")+" header=\"col\""; S opM="name=\"Product\"",inM=el("x","name=\"HermitianMatrix\" file=\"mM\"")+el("y","name=\"Scalar\" value=\"0.5\" im=\"1\""); S ap=el("apply","name=\"HermitianMatrix\" file=\"mG\"");
    S F; switch(act){ case 0: F=el("expeconly",opM+opt,inM); break; case 1: F=ap+el("expeconly",opM+opt,inM); break; case 2: F=el("expec",opM+opt,inM); break; case 3: F=el("expeconly",opM+opt,inM)+ap+el("expeconly","name=\"HermitianMatrix\" file=\"mG\""); break; case 4: F=el("rho","ms=\"0,1\""+opt); break; }
    S H=el("hamiltonian","name=\"HermitianMatrix\" file=\"mH\""); if(ms) H=el("hamiltonian","name=\"Multistate\"",el("m0.0","name=\"HermitianMatrix\" file=\"mH\"")+el("m1.0","name=\"HermitianMatrix\" file=\"mG\"")+el("m1.1","name=\"HermitianMatrix\" file=\"mH\"")); S P=el("propagator","name=\"RK4\"",H); S fl=el(pre?"filterpre":"filterpost",norm?"":"renorm=\"false\"",F);
    run(el("propa","norm=\"false\" energy=\"false\" dt=\"0.5\" steps=\"2\" wcycle=\"1\"",P+el("wf","file=\"in\"")+fl)); std::vector<CM> U=steps(P,w,dt,N); Table t=table(pre?"expec_pre.dat":"expec_post.dat"); sym_assert((int)t.row.size()==N,"the filters are evaluated once a step"); dcomplex acc(0,0),sc(0.5,1);
    sym_assert(t.head.size()>=2&&t.head[0]=="time"&&t.head[1]=="col","the table has the given header");
    for(int k=0;k<N;k++){ double f=1; if(!pre) psi=mv(U[k],psi); CV chi; dcomplex v; double other=0; if(norm) f=1/dot(psi,psi)._real;
      switch(act){ case 0: v=sc*dot(psi,mv(M,psi))*f; break; case 1: psi=mv(K,psi); if(norm) f=1/dot(psi,psi)._real; v=sc*dot(psi,mv(M,psi))*f; break; case 2: v=sc*dot(psi,mv(M,psi))*f; psi=mv(M,psi); for(auto&z:psi) z=z*sc; break; case 3: v=sc*dot(psi,mv(M,psi))*f; psi=mv(K,psi); other=dot(psi,mv(K,psi))._real/(norm?dot(psi,psi)._real:1); break; case 4: { CV a(2,dcomplex(0,0)),b=a; for(int i=0;i<2;i++){ a[i]=psi[i]; b[i]=psi[2+i]; } v=dot(a,b); } break; }
      if(act==2&&norm&&k>0) break; // the renormalised value after symbolic matrices: a quotient
      acc=sum?acc+v*dt:v; const std::vector<double>&r=t.row[k]; size_t want=2+(cplx==2)+(act==3); sym_assert(r.size()==want,"a line of the table has one value for each column"); sym_close(r[0],(pre?k:k+1)*dt,1e-6,"a line of the table has the time of its step"); 
      if(cplx==0||cplx==2) sym_close(r[1],acc._real,1e-5,"a filter writes the expectation value"); if(cplx==1) sym_close(r[1],acc._imag,1e-5,"a filter writes the expectation value"); if(cplx==2) sym_close(r[2],acc._imag,1e-5,"a filter writes the expectation value"); if(cplx==3) sym_close(r[1]*r[1],acc._real*acc._real+acc._imag*acc._imag,1e-5,"a filter writes the expectation value"); if(act==3) sym_close(r.back(),other,1e-5,"a filter writes the expectation value after the ones before it");
      if(pre) psi=mv(U[k],psi); }
    if(!(act==2&&norm)) same(readwf("WF_2"),psi,"applied filters take part in the propagation"); sym_reach("filters"); }
  if(what==2){ // the table of a run
    int N=sym_pick("steps",2,3),ms=sym_pick("states",0,1),kind=sym_pick("columns",0,4); WaveFunction*w=ms?(WaveFunction*)mkmulti(2,l2):l2(); symwf((cVec*)w,"w"); putwf(w,"in"); CV psi=fv(w),p0=psi;
    S H=el("hamiltonian","name=\"HermitianMatrix\" file=\"mH\""); if(ms) H=el("hamiltonian","name=\"Multistate\"",el("m0.0","name=\"HermitianMatrix\" file=\"mH\"")+el("m1.0","name=\"HermitianMatrix\" file=\"mG\"")+el("m1.1","name=\"HermitianMatrix\" file=\"mG\"")); S P=el("propagator","name=\"RK4\"",H);
    CM h2=cm(h,2),g2=cm(g,2),HM=zero(ms?4:2); if(!ms) HM=cm(h,1); else for(int i=0;i<4;i++) for(int j=0;j<4;j++) HM[i][j]=i/2!=j/2?g2[i%2][j%2]:i<2?h2[i][j]:g2[i][j];
    static const char*at[]={""," proj0=\"true\""," proj0Abs=\"true\" proj0=\"true\""," norm=\"false\" proj0=\"true\" scinorm=\"true\""," energy=\"false\" scinorm=\"true\""};
    run(el("propa",S("dt=\"0.5\" steps=\"")+num(N)+"\" wcycle=\"2\" nfile=\"nrm\""+at[kind],P+el("wf","file=\"in\""))); std::vector<CM> U=steps(P,w,dt,N); Table t=table("nrm"); sym_assert((int)t.row.size()==N,"the table of a run has one line for each step");
    for(int k=0;k<N;k++){ const std::vector<double>&r=t.row[k]; size_t c=0; auto next=[&](double v,const char*m){ if(c>=r.size()){ sym_fail("a column of the table is missing"); return; } sym_close(r[c++],v,2e-5,m); }; next(k,"the table counts the steps"); next(k*dt,"the table gives the time");
      if(kind!=3){ next(dot(psi,psi)._real,"the table gives the population"); if(ms) for(int s=0;s<2;s++){ double q=0; for(int i=0;i<2;i++){ dcomplex z=psi[2*s+i]; q+=z._real*z._real+z._imag*z._imag; } next(q,"the table gives the population of a state"); } }
      if(kind!=4) next(dot(psi,mv(HM,psi))._real,"the table gives the energy"); if(kind==1||kind==3){ dcomplex d=dot(psi,p0); next(d._real,"the table gives the overlap"); next(d._imag,"the table gives the overlap"); } if(kind==2){ dcomplex d=dot(psi,p0); next(d._real*d._real+d._imag*d._imag,"the table gives the squared overlap"); } sym_assert(c==r.size(),"the table has no more columns than asked for"); psi=mv(U[k],psi); } sym_reach("table"); }
  if(what==3){ // the spectrum
    int N=sym_pick("steps",2,TIER()?5:3),win=sym_pick("window",0,1),sq=N<=3?sym_pick("square",0,1):0; WaveFunction*w=mklevel(2); symwf((cVec*)w,"w"); putwf(w,"in"); CV psi=fv(w),p0=psi; S P=el("propagator","name=\"RK4\"",el("hamiltonian","name=\"HermitianMatrix\" file=\"mH\""));
    run(el("propa",S("norm=\"false\" energy=\"false\" dt=\"0.5\" steps=\"")+num(N)+"\" wcycle=\"1\" spectrum=\"spec\""+(win?"":" win=\"false\"")+(sq?" proj0Abs=\"true\"":""),P+el("wf","file=\"in\""))); std::vector<CM> U=steps(P,w,dt,N); CV c(N,dcomplex(0,0)); for(int k=0;k<N;k++){ c[k]=dot(psi,p0); if(sq) c[k]=dcomplex(c[k]._real*c[k]._real+c[k]._imag*c[k]._imag,0); if(win) c[k]=c[k]*(0.5*(1-cos(2*M_PI*k/(N-1)))); psi=mv(U[k],psi); }
    Table t=table("spec",false); sym_assert((int)t.row.size()==N,"the spectrum has one line for each step"); for(int k=0;k<N;k++){ const std::vector<double>&r=t.row[k]; sym_assert(r.size()==4,"a line of the spectrum"); sym_close(r[0],(k<N/2?k:k-N)*2*M_PI/(dt*N),1e-4,"the frequencies of the spectrum"); dcomplex s(0,0); for(int j=0;j<N;j++) s+=c[j]*dcomplex(cos(2*M_PI*j*k/N),-sin(2*M_PI*j*k/N)); s=s*(1.0/(N/2)); sym_close(r[2],s._real,1e-4,"the spectrum is the transform of the correlation function"); sym_close(r[3],s._imag,1e-4,"the spectrum is the transform of the correlation function"); if(N==2) sym_close(r[1]*r[1],s._real*s._real+s._imag*s._imag,1e-3,"the magnitude of the spectrum"); } sym_reach("spectrum"); }
  if(what==4){ // evaluating the files of a run afterwards
    int N=sym_pick("steps",2,TIER()?5:3),wc=sym_pick("cycle",1,2),act=sym_pick("action",0,1); WaveFunction*w=mklevel(2); symwf((cVec*)w,"w"); putwf(w,"in"); CV psi=fv(w); OHermitianMatrix*m=mkmat(2,"M",true); putmat(m,"mM"); CM M=cm(m,1),K=cm(g,1); S P=el("propagator","name=\"RK4\"",el("hamiltonian","name=\"HermitianMatrix\" file=\"mH\""));
    run(el("propa",S("norm=\"false\" energy=\"false\" dt=\"0.5\" steps=\"")+num(N)+"\" wcycle=\""+num(wc)+"\"",P+el("wf","file=\"in\""))); std::vector<CM> U=steps(P,w,dt,N);
    { ProgFilter*f=new ProgFilter(*X(el("filter","path=\".\" fname=\"after.dat\"",el("filterdef","",(act?el("apply","name=\"HermitianMatrix\" file=\"mG\""):S(""))+el("expeconly","name=\"HermitianMatrix\" file=\"mM\""))))); f->Run(); delete f; }
    Table t=table("after.dat"); sym_assert((int)t.row.size()==N/wc+1,"all files of a run are evaluated"); for(int k=0;k<=N/wc;k++){ CV x=act?mv(K,psi):psi; sym_assert(t.row[k].size()==2,"a line of the table"); sym_close(t.row[k][0],k*wc*dt,1e-6,"a file is evaluated at its time"); sym_close(t.row[k][1],dot(x,mv(M,x))._real,1e-5,"evaluating a file gives the expectation value of its wave function"); for(int j=0;j<wc&&k*wc+j<N;j++) psi=mv(U[k*wc+j],psi); } sym_reach("evaluate"); }
  if(what==5){ // inconsistent runs
    int bad=sym_pick("bad",0,17); bool ms=bad==6||bad==7||bad==8; WaveFunction*w=ms?(WaveFunction*)mkmulti(2,l2):l2(); symwf((cVec*)w,"w"); putwf(w,"in");
    S A="dt=\"0.5\" steps=\"2\" wcycle=\"1\"",F="",P=el("propagator","name=\"RK4\"",el("hamiltonian","name=\"HermitianMatrix\" file=\"mH\"")),W=el("wf","file=\"in\""); if(ms) P=el("propagator","name=\"RK4\"",el("hamiltonian","name=\"Multistate\"",el("m0.0","name=\"HermitianMatrix\" file=\"mH\"")+el("m1.1","name=\"HermitianMatrix\" file=\"mH\"")));
    switch(bad){ case 0: A="dt=\"0\" steps=\"2\""; break; case 1: A="dt=\"0.5\" steps=\"0\""; break; case 2: A="dt=\"0.5\" steps=\"2\" wcycle=\"0\""; break; case 3: A+=" start=\"-1\""; break; case 4: F=el("rho",""); break; case 5: F=el("rho","ms=\"0,1\""); break; case 6: F=el("rho",""); break; case 7: F=el("rho","ms=\"0,2\""); break; case 8: F=el("rho","ms=\"0,-1\""); break; case 9: F=el("expeconly","name=\"HermitianMatrix\" file=\"mG\" value=\"half\""); break; case 10: F=el("measure","name=\"HermitianMatrix\" file=\"mG\""); break; case 11: P=""; break; case 12: W=""; break; case 13: A="dt=\"0.5\" steps=\"2\" wcycle=\"-2\""; break; case 14: P=W=""; break; case 15: P="\n"; W=""; break; case 16: F=" "; break; case 17: P=el("propagator","name=\"RK4\"",el("hamiltonian","name=\"Multistate\""," ")); break; }
    if(F!="") F=el("filterpost","",F); bool refused=false; try { run(el("propa",A,P+W+F)); } catch(Exception&e){ refused=true; } sym_assert(refused,"an inconsistent run is refused"); sym_reach("refused"); }
}
