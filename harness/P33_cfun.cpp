//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc ChainLoader.cpp GlobalOpList.cpp GlobalWFList.cpp ProgCfun.cpp ProgPropa.cpp FiltersList.cpp Reporter.cpp
//NOT linalg/lapack_rs.cpp
//LIBS protobuf z bz2 lapack blas fftw3 xml2
//TEXT 1
//TIME 300 700
//BOUNDS level functions of 2 amplitudes with any values, runs of 2 to 4 steps (thorough: 6), write cycles 1 and 2, any real symmetric 2x2 matrices as operators of ket and bra (up to two between two propagators), with or without a laser field, the Runge-Kutta propagator with a given Hamiltonian
//REACH one two stored refused
#include "ProgCfun.h"
#include "ProgPropa.h"
#include "prog.h"
static S op(const char*m){ return el("o",S("name=\"HermitianMatrix\" file=\"")+m+"\""); }
static S dip(const char*m){ return el("d",S("name=\"MatDipole\" file=\"")+m+"\" laser=\"las\""); }
static const S U="<U/>";
static void cf(const S&x){ ProgCfun*p=new ProgCfun(*X(x)); p->Run(); }
// the complex numbers of a raw file
static CV raw(const S&n,int N){ CV r(N,dcomplex(0,0)); std::ifstream f(n.c_str(),std::ios_base::binary); sym_assert(f.is_open(),"the correlation function is written"); dcomplex*b=new dcomplex[N]; f.read((char*)b,N*sizeof(dcomplex)); sym_assert((long)f.gcount()==(long)(N*sizeof(dcomplex)),"the correlation function has one value for each time"); for(int i=0;i<N;i++) r[i]=b[i]; f.get(); sym_assert(f.eof(),"the correlation function has no more values than times"); return r; }
static CM tr(const CM&m){ CM r=zero(m.size()); for(size_t i=0;i<m.size();i++) for(size_t j=0;j<m.size();j++) r[i][j]=m[j][i]; return r; }
static void meta(const S&n,int nt,double dt,int dim){ ParamContainer p; sym_assert(p.ReadFromFile(n+".meta"),"the description of a correlation function is written"); int a,b; double d; p.GetValue("Nt",a); p.GetValue("dt",d); p.GetValue("dim",b); sym_assert(a==nt&&fabs(d-dt)<1e-9&&b==dim,"the description of a correlation function says its times"); }
extern "C" void sym_main(){ symtext(); textexact(6); sym_tidy(1); std::cout.setstate(std::ios::failbit);
  int what=sym_pick("what",0,3); double dt=0.5; int T=TIER();
  OHermitianMatrix*h=mkmat(2,"H",false); putmat(h,"mH"); OHermitianMatrix*g=mkmat(2,"G",false); (*g)(0,0)=0; (*g)(1,1)=0.25; (*g)(0,1)=(*g)(1,0)=-0.5; putmat(g,"mG"); OHermitianMatrix*k=mkmat(2,"K",false); (*k)(0,0)=0.5; (*k)(1,1)=-0.25; (*k)(0,1)=(*k)(1,0)=0.75; putmat(k,"mK");
  OHermitianMatrix*m=mkmat(2,"M",what<3); putmat(m,"mM"); CM M=cm(m,1),K=cm(k,1),G=cm(g,1); WaveFunction*w=mklevel(2); symwf((cVec*)w,"w"); putwf(w,"in"); CV p0=fv(w);
  S P0=el("propagator","name=\"RK4\"",el("hamiltonian","name=\"HermitianMatrix\" file=\"mH\"")),PL=el("propagator","name=\"RK4\"",el("hamiltonian","name=\"Sum\"",el("a","name=\"HermitianMatrix\" file=\"mH\"")+el("b","name=\"MatDipole\" file=\"mG\" laser=\"las\"")));
  auto lt=[](int i){ return 0.5-0.4*i; }; auto go=[](const std::vector<CM>&S,CV v,int a,int b){ for(int i=a;i<b;i++) v=mv(S[i],v); return v; };
  if(what==0){ // one time
    int N=sym_pick("steps",2,T?5:3),wc=sym_pick("cycle",1,2),ok=sym_pick("before",0,2),pr=sym_pick("probe",0,2),bra=sym_pick("bra",0,2),field=sym_pick("field",0,1); if(field&&pr==1) pr=3; // 3: the probe depends on time
    if(!T&&ok==2&&bra==1) sym_end(); if(field) laserfile(2*N+2,dt); S P=field?PL:P0;
    S ket=(ok>0?op("mM"):S(""))+(ok>1?op("mG"):S(""))+U+(pr==3?dip("mK"):op("mK"))+(pr==2?op("mG"):S("")),br=bra==0?S(""):el("bra","",bra==2?op("mG")+U:U); S name=ok==1?"Cx":"Cfun";
    cf(el("cfunc","dt=\"0.5\" steps=\""+num(N)+"\""+(wc>1?" wcycle=\"2\"":"")+(ok==1?" fname=\"Cx\"":""),P+el("wf","file=\"in\"")+el("ket","",ket)+br));
    std::vector<CM> st=steps(P,w,dt,N+2); CV a=p0,b; if(ok>0) a=mv(M,a); if(ok>1) a=mv(G,a); b=bra==0?a:bra==1?p0:mv(G,p0); int n=N/wc; CV c=raw(name+"_1.cf",n); meta(name+"_1",n,dt*wc,1);
    for(int t=0;t<n;t++){ CV x=mv(K,a); if(pr==2) x=mv(G,x); dcomplex z=dot(b,x); if(pr==3) z=z*(-lt(t*wc)); sym_close(c[t]._real,z._real,1e-6,"a one-point correlation function is the matrix element of the probe between bra and ket at each time"); sym_close(c[t]._imag,z._imag,1e-6,"a one-point correlation function is the matrix element of the probe between bra and ket at each time"); a=go(st,a,t*wc,t*wc+wc); b=go(st,b,t*wc,t*wc+wc); } sym_reach("one"); }
  if(what==1){ // two times
    int N=sym_pick("steps",2,T?5:3),wc=N>2&&!T?1:sym_pick("cycle",1,2),ok=sym_pick("before",0,1),two=sym_pick("between",1,2),bra=sym_pick("bra",0,3),field=sym_pick("field",0,1),si=sym_pick("stepsint",0,1); if(!T&&(si&&(ok||field))) sym_end(); if(!T&&field&&two==2) sym_end(); if(field) laserfile(3*N+6,dt); S P=field?PL:P0;
    S mid=op("mM")+(two==2?op("mG"):S("")),pre=ok?op("mG"):S(""),pr=field?dip("mK"):op("mK"); bool caseb=bra==3; S ket=pre+U+(caseb?S(""):mid+U)+pr,br=bra==0?S(""):el("bra","",(bra==2?op("mK"):S(""))+U+(caseb?mid+U:S("")));
    cf(el("cfunc","dt=\"0.5\" steps=\""+num(N)+"\" wcycle=\""+num(wc)+"\""+(si?" stepsint=\"1\"":""),P+el("wf","file=\"in\"")+el("ket","",ket)+br)); std::vector<CM> st=steps(P,w,dt,N+2); int n=N/wc; CV c=raw("Cfun_2.cf",n*n); meta("Cfun_2",n,dt*wc,2); CV a=ok?mv(G,p0):p0,b=bra==0?a:bra==2?mv(K,p0):p0;
    for(int t1=0;t1<n;t1++) for(int t2=0;t2<n;t2++){ dcomplex z(0,0),y=caseb?c[t2*n+t1]:c[t1*n+t2]; if(si&&t2-t1==2) continue; if(t2>=t1&&!(si&&t2-t1>1)){ CV x=go(st,a,0,t1*wc),v=go(st,b,0,t1*wc); CV&i=caseb?v:x; i=mv(M,i); if(two==2) i=mv(G,i); if(caseb) x=go(st,x,t1*wc,t2*wc),v=go(st,v,t1*wc,t2*wc); else x=go(st,x,t1*wc,t2*wc),v=go(st,v,t1*wc,t2*wc); z=dot(v,mv(K,x)); if(field) z=z*(-lt(t2*wc)); }
      sym_close(y._real,z._real,1e-6,"a two-point correlation function is the matrix element of both operators at their times"); sym_close(y._imag,z._imag,1e-6,"a two-point correlation function is the matrix element of both operators at their times"); } sym_reach("two"); }
  if(what==2){ // from a stored propagation
    int N=sym_pick("steps",2,4),wc=sym_pick("cycle",1,2),by=sym_pick("by",0,1),bra=sym_pick("bra",0,1); S name=by?"xx":"WF"; std::vector<CM> st=steps(P0,w,dt,N+2); int n=N/wc;
    if(by){ ProgPropa*p=new ProgPropa(*X(el("propa","norm=\"false\" energy=\"false\" dt=\"0.5\" steps=\""+num(N)+"\" wcycle=\""+num(wc)+"\" fname=\"xx\" dir=\"pr\"",P0+el("wf","file=\"in\"")))); p->Run(); delete p; }
    else cf(el("cfunc","dt=\"0.5\" steps=\""+num(N)+"\" wcycle=\""+num(wc)+"\" write=\"pr\" fname=\"first\"",P0+el("wf","file=\"in\"")+el("ket","",U+op("mK"))));
    cf(el("cfunc","dt=\"0.1\" steps=\"7\" read=\"pr\"",P0+el("ket","",U+op("mM"))+(bra?el("bra","",U):S("")))); CV c=raw("Cfun_1.cf",n); meta("Cfun_1",n,dt*wc,1); CV a=p0; for(int t=0;t<n;t++){ dcomplex z=dot(a,mv(M,a)); sym_close(c[t]._real,z._real,1e-6,"a stored propagation gives the same correlation function"); sym_close(c[t]._imag,z._imag,1e-6,"a stored propagation gives the same correlation function"); a=go(st,a,t*wc,t*wc+wc); } sym_reach("stored"); }
  if(what==3){ int bad=sym_pick("bad",0,16); S A="dt=\"0.5\" steps=\"2\"",W=el("wf","file=\"in\""),P=P0,k2=el("ket","",U+op("mK")),b=""; switch(bad){ case 0: A="dt=\"0\" steps=\"2\""; break; case 1: A="dt=\"0.5\" steps=\"0\""; break; case 2: A+=" wcycle=\"0\""; break; case 3: A+=" stepsint=\"0\""; break; case 4: P=""; break; case 5: W=""; break; case 6: k2=""; break; case 7: k2="<ket></ket>"; break; case 8: k2=el("ket","",U); break; case 9: b=el("bra","",U+op("mK")); break; case 10: k2=el("ket","",U+U+U+op("mK")); break; case 11: b="<bra/>"; break; case 12: A+=" read=\"none\""; break; case 13: k2=el("ket","",op("mK")); break; case 14: k2="<ket> </ket>"; break; case 15: P=W=k2=b=""; break; case 16: P=" "; W=k2=b=""; break; }
    bool refused=false; try { cf(el("cfunc",A,P+W+k2+b)); } catch(Exception&e){ refused=true; } sym_assert(refused,"an inconsistent correlation function is refused"); sym_reach("refused"); }
}
