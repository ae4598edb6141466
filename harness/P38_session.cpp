//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc IACmds.pb.cc ChainLoader.cpp GlobalOpList.cpp GlobalWFList.cpp CmdHandler.cpp ProgPropa.cpp ProgFilter.cpp ProgEigen.cpp ProgOCT.cpp ProgCfun.cpp FiltersList.cpp Reporter.cpp
//NOT linalg/lapack_rs.cpp
//LIBS protobuf z bz2 lapack blas fftw3 xml2
//TEXT 1
//TIME 300 700
//BOUNDS level functions of 2 amplitudes, all amplitudes in [-1,1]; all symmetric 2x2 matrices in sessions of elements and files, given ones elsewhere; sessions of up to 20 commands, propagators of 3 steps (thorough: 5); 31 failing commands; input files of up to 2 programs (thorough: 3), 11 bad input files; a session stream cut at every byte
//REACH elements propagate files params program refused file badfile cut
#include "CmdHandler.h"
#include "tools/GlobalParams.h"
#include "qdlib/ORK4.h"
#include <sys/stat.h>
#include "prog.h"
#include "zip.h"
#include <unistd.h>
typedef Command C;
// the numbers of the answers in the order they are given (the bytes of the messages hold no symbols)
static std::vector<double> RES; static size_t RP=0;
struct Sess { std::stringstream in,out;
  void raw(const std::string&s){ uint32_t n=s.size(); in.write((const char*)&n,4); in.write(s.data(),n); }
  void cmd(C::command_t t,const S&xml="",const S&s1="",const S&s2="",const S&s3=""){ C c; fill(c,t,xml,s1,s2,s3); std::string s; c.SerializeToString(&s); raw(s); }
  void cmdd(C::command_t t,const S&xml,const S&s1,double d1,double d2=-1){ C c; fill(c,t,xml,s1,"",""); c.set_param_d1(d1); if(d2!=-1) c.set_param_d2(d2); std::string s; c.SerializeToString(&s); raw(s); }
  static void fill(C&c,C::command_t t,const S&xml,const S&s1,const S&s2,const S&s3){ c.set_cmd(t); if(xml!="") c.set_xml(xml); if(s1!="") c.set_param_s1(s1); if(s2!="") c.set_param_s2(s2); if(s3!="") c.set_param_s3(s3); }
  void wf(WaveFunction*w){ FileWF f; f.SetOutputStream(in); f.WriteWaveFunction(w); }
  bool run(){ RES.clear(); RP=0; CmdHandler h(in,out); try { h.RunInteractive(""); } catch(Exception&e){ return false; } return true; }
  Response ans(){ uint32_t n=0; out.read((char*)&n,4); sym_assert(out.gcount()==4&&n<10000,"an answer is given"); std::string s(n,0); out.read(&s[0],n); Response r; sym_assert((size_t)out.gcount()==n&&r.ParseFromString(s),"an answer is a complete message"); return r; }
  void ok(bool data=false){ Response r=ans(); sym_assert(r.response()==Response::OK,"a command is answered with success"); sym_assert(r.data_follows()==data,"an answer tells whether data follows"); }
  void err(){ Response r=ans(); sym_assert(r.response()==Response::ERROR_MSG&&r.msg()!=""&&!r.data_follows(),"a failed command is answered with an error message"); }
  void num(dcomplex v,bool two,const char*m){ Response r=ans(); sym_assert(r.response()==Response::OK&&!r.data_follows()&&r.result_size()==(two?2:1),m);
#ifndef SYM_REPLAY
    double re=RES.at(RP++),im=two?RES.at(RP++):0;
#else
    double re=r.result(0),im=two?r.result(1):0;
#endif
    sym_close(re,v._real,1e-9,m); if(two) sym_close(im,v._imag,1e-9,m); }
  CV getwf(){ FileWF f; f.SetInputStream(out); WaveFunction*w=0; try { w=f.LoadWaveFunctionByMeta(); } catch(Exception&e){} sym_assert(w!=0,"a wave function follows"); return fv(w); }
  void end(){ out.peek(); sym_assert(out.eof(),"there is one answer for each command"); }
};
#ifndef SYM_REPLAY
extern "C" void symm__ZN6google8protobuf13RepeatedFieldIdE3AddERKd(google::protobuf::RepeatedField<double>*f,const double*v){ RES.push_back(*v); f->Add(0.0); }
#endif
static S op(const S&f){ return "name=\"HermitianMatrix\" file=\""+f+"\""; }
static void runx(const S&x,const S&dir=""){ CmdHandler::RunXML(x.c_str(),x.size(),dir); }
static bool tryx(const S&x){ try { runx(x); } catch(Exception&e){ return false; } return true; }
static S prop(const S&h){ return el("propagator","name=\"RK4\"",h); }
static S propa(const S&at,const S&h,const S&wf){ return el("propa","norm=\"false\" energy=\"false\" wcycle=\"1\" "+at,prop(h)+wf); }
static CV add(CV a,const CV&b){ for(size_t i=0;i<a.size();i++) a[i]+=b[i]; return a; }
extern "C" void sym_main(){ symtext(); textexact(6); sym_tidy(1); std::cout.setstate(std::ios::failbit);
  int what=sym_pick("what",0,8); WaveFunction*w=mklevel(2),*v=mklevel(2); OHermitianMatrix*a=mkmat(2,"A",what<1||what==2),*b=mkmat(2,"B",what<1||what==2); putmat(a,"mA"); putmat(b,"mB"); CM A=cm(a,1),B=cm(b,1); symwf((cVec*)w,"w"); symwf((cVec*)v,"v"); CV W=fv(w),V=fv(v);
  Sess s; S HA=el("hamiltonian",op("mA")),HB=el("hamiltonian",op("mB"));
  if(what==0){ // elements of stored operators
    s.cmd(C::LOAD_OP,el("a",op("mA")+" key=\"a\"")); s.cmd(C::LOAD_OP,el("s","name=\"Sum\" key=\"s\"",el("x","ref=\"a\"")+el("y",op("mB")))); s.cmd(C::GET_MATEL,"","a"); s.wf(v); s.wf(w); s.cmd(C::GET_EXPEC,"","s"); s.wf(w); s.cmd(C::GET_MATEL,el("b",op("mB"))); s.wf(w); s.wf(v); s.cmd(C::APPLY_OP,"","s"); s.wf(v); s.cmd(C::QUIT);
    sym_assert(s.run(),"a session ends with QUIT"); s.ok(); s.ok(); s.num(dot(V,mv(A,W)),true,"a matrix element"); s.ok(); s.num(dot(W,mv(A,W))+dot(W,mv(B,W)),false,"an expectation value"); s.num(dot(W,mv(B,V)),true,"a matrix element"); s.ok(true); same(s.getwf(),add(mv(A,V),mv(B,V)),"an operator is applied"); s.end(); sym_reach("elements"); }
  if(what==1){ // steps of a stored propagator
    int N=TIER()?5:3,order=sym_pick("order",0,2),bad=sym_pick("bad",0,3),kind=sym_pick("kind",0,3),field=kind==1; double dt=0.5; laserfile(N+1,dt); S H=field?el("hamiltonian","name=\"Sum\"",el("a",op("mA"))+el("b","name=\"MatDipole\" file=\"mB\" laser=\"las\"")):HA; S name=kind==2?"GSPO":kind==3?"Cheby":"RK4"; if(kind==2) H=el("A",op("mA"))+el("B",op("mB")); S P=el("propagator","name=\""+name+"\" key=\"U\"",H),P0=el("propagator","name=\""+name+"\"",H);
    int t[4]; for(int i=0;i<4;i++) t[i]=order==0?i%N:order==1?N-1-i%N:(2*i)%N;
    s.cmd(C::LOAD_OP,el("a",op("mA")+" key=\"a\"")); s.cmdd(C::LOAD_U,P,"",dt,N); s.cmdd(C::APPLY_OP,"","U",t[0]); s.wf(w); s.cmdd(C::APPLY_OP,"","U",t[1]); s.wf(v); if(bad<3) s.cmdd(C::APPLY_OP,"",bad==2?"a":"U",bad==0?-1:N+1); s.cmdd(C::APPLY_OP,"","U",t[2]); s.wf(w); s.cmd(C::APPLY_OP,"","U"); s.wf(v); s.cmd(C::QUIT);
    sym_assert(s.run(),"a session ends with QUIT"); std::vector<CM> U=steps(P0,w,dt,N); s.ok(); s.ok();
    const char*m="a stored propagator does the step of the time given"; s.ok(true); same(s.getwf(),mv(U[t[0]],W),m); s.ok(true); same(s.getwf(),mv(U[t[1]],V),m); if(bad<3) s.err(); s.ok(true); same(s.getwf(),mv(U[t[2]],W),m); s.ok(true); same(s.getwf(),mv(U[t[2]],V),"without a time the one of the last step is used"); s.end(); sym_reach("propagate"); }
  if(what==2){ // files
    int zip=sym_pick("compressed",0,1),miss=sym_pick("missing",0,1); S z=zip?"gzip":""; s.cmd(C::SET_GLOBAL_PARAMS,"","compress = true\ncomptol = 0");
    s.cmd(C::WRITE_WF,"","fw",z); s.wf(w); s.cmd(C::WRITE_WF,"","fv",zip?"none":""); s.wf(v); s.cmd(C::READ_WF,"","fw"); if(miss) s.cmd(C::READ_WF,"","none"); s.cmd(C::WRITE_OP,"","mC",zip?"OHermitianMatrix":"HermitianMatrix",z); { FileSingle<OHermitianMatrix> f; f.SetOutputStream(s.in); f.WriteSingleFileToStream(b); } s.cmd(C::WRITE_OP,"","las","Laser",z); Laser L; L.Dt(0.5); L.Nt(3); for(int i=0;i<3;i++) L[i]=sym_double(nm("l",i).c_str(),-1,1); { FileSingle<Laser> f; f.SetOutputStream(s.in); f.WriteSingleFileToStream(&L); }
    s.cmd(C::WRITE_WF,"","fw","plain"); s.wf(v); s.cmd(C::LOAD_OP,el("c",op("mC")+" key=\"c\"")); s.cmd(C::GET_EXPEC,"","c"); s.wf(w); s.cmd(C::READ_OP,"","mC.op","HermitianMatrix"); s.cmd(C::READ_WF,"","fw"); s.cmd(C::QUIT);
    sym_assert(s.run(),"a session ends with QUIT"); for(int i=0;i<5;i++) s.ok(); s.ok(true); same(s.getwf(),W,"a file written by a session is read by it"); if(miss){ s.ok(true); s.err(); } for(int i=0;i<8;i++) s.ok(); s.num(dot(W,mv(B,W)),false,"an operator written to a file is the one sent");
    { FileSingle<OHermitianMatrix> f; f.SetInputStream(s.out); OHermitianMatrix*o=new OHermitianMatrix(); bool g=true; try { f.ReadSingleFileFromStream(o); } catch(Exception&e){ g=false; } sym_assert(g&&o->rows()==2&&o->cols()==2,"an operator is read from a file"); for(int i=0;i<2;i++) for(int j=0;j<2;j++) sym_close((*o)(i,j),(*b)(i,j),1e-9,"an operator is read from a file"); }
    s.ok(true); same(s.getwf(),V,"a file written again holds the new wave function"); s.end(); same(readwf("fv"),V,"a file written by a session is read outside it"); { FileSingle<Laser> f; f.Suffix(BINARY_O_SUFFIX); f.Name("las"); Laser r; f >> &r; sym_assert(r.size()==3&&r.Dt()==0.5,"a field written by a session is the one sent"); for(int i=0;i<3;i++) sym_close(r[i],L[i],1e-9,"a field written by a session is the one sent"); } sym_reach("files"); }
  if(what==3){ // parameters and clearing
    int prog=sym_pick("program",0,1); GlobalParams::Instance().clear(); S U=el("propagator","name=\"RK4\" key=\"U\"",HA);
    s.cmd(C::SET_GLOBAL_PARAMS,"","wf_format = stream\nx=1\n"); s.cmd(C::SET_GLOBAL_PARAMS,"","x = 2\n# y = 3\nz=a b"); s.cmd(C::GET_GLOBAL_PARAMS); s.cmd(C::LOAD_OP,el("a",op("mA")+" key=\"a\"")); s.cmdd(C::LOAD_U,U,"",0.5,2); if(prog) s.cmd(C::RUN_PROG,el("qdng","x=\"7\"",el("opdefs","",el("opdef",op("mA")+" key=\"p\""))));
    s.cmd(C::LOAD_OP,el("a",op("mB")+" key=\"a\"")); s.cmd(C::CLEAR_OBJECTS); for(int k=0;k<3;k++) s.cmd(C::GET_EXPEC,"",k==0?"a":k==1?"U":"p"); s.cmd(C::LOAD_OP,el("a",op("mB")+" key=\"a\"")); s.cmdd(C::LOAD_U,el("propagator","name=\"RK4\" key=\"U\"",el("hamiltonian","ref=\"a\"")),"",0.25,2); s.cmd(C::GET_EXPEC,"","a"); s.wf(w); s.cmdd(C::APPLY_OP,"","U",1); s.wf(v); s.cmd(C::CLEAR_OBJECTS); s.cmd(C::CLEAR_OBJECTS); s.cmd(C::GET_GLOBAL_PARAMS); s.cmd(C::QUIT);
    sym_assert(s.run(),"a session ends with QUIT"); s.ok(); s.ok(); Response r=s.ans(); sym_assert(r.response()==Response::OK&&r.msg()=="wf_format = stream\nx = 2\nz = a b\n","parameters set are the ones given back"); s.ok(); s.ok(); if(prog) s.ok(); s.err(); s.ok(); s.err(); s.err(); s.err(); s.ok(); s.ok(); s.ok(); s.num(dot(W,mv(B,W)),false,"a name freed by clearing is given to another operator"); s.ok(true); same(s.getwf(),mv(steps(prop(HB),w,0.25,2)[1],V),"a name freed by clearing is given to another propagator"); s.ok(); s.ok(); r=s.ans(); sym_assert(r.response()==Response::OK&&r.msg()==(prog?"wf_format = stream\nx = 7\nz = a b\n":"wf_format = stream\nx = 2\nz = a b\n"),"clearing keeps the parameters"); s.end(); sym_reach("params"); }
  if(what==4){ // programs in a session
    int how=sym_pick("how",0,2); S in=el("wf","file=\"in\"");
    s.cmd(C::WRITE_WF,"","in"); s.wf(w); if(how==0) s.cmd(C::RUN_PROG,el("qdng","",el("opdefs","",el("opdef",op("mA")+" key=\"h\""))+propa("dt=\"0.5\" steps=\"2\" dir=\"one\"",el("hamiltonian","ref=\"h\""),in))); else { s.cmd(C::LOAD_OP,el("a",op("mA")+" key=\"h\"")); S p=propa("dt=\"0.5\" steps=\"2\" dir=\"one\"",el("hamiltonian","ref=\"h\""),in); s.cmd(C::RUN_PROG,how==1?p:el("multi","",p)); }
    s.cmd(C::READ_WF,"","one/WF_1"); s.cmd(C::GET_MATEL,"","h"); s.wf(v); s.wf(w); s.cmd(C::WRITE_WF,"","in"); s.wf(v); s.cmd(C::RUN_PROG,propa("dt=\"0.25\" steps=\"2\" dir=\"two\"",el("hamiltonian","ref=\"h\""),in)); s.cmd(C::READ_WF,"","two/WF_2"); s.cmd(C::READ_WF,"","one/WF_2"); s.cmd(C::QUIT);
    sym_assert(s.run(),"a session ends with QUIT"); std::vector<CM> U=steps(prop(HA),w,0.5,2),R=steps(prop(HA),w,0.25,2); s.ok(); s.ok(); if(how) s.ok(); s.ok(); const char*m="a program run in a session writes its files"; s.ok(true); same(s.getwf(),mv(U[0],W),m); s.num(dot(V,mv(A,W)),true,"an operator used by a program is kept"); s.ok(); s.ok(); s.ok(); s.ok(true); same(s.getwf(),mv(R[1],mv(R[0],V)),m); s.ok(true); same(s.getwf(),mv(U[1],mv(U[0],W)),m); s.end(); sym_reach("program"); }
  if(what==5){ // commands that fail
    int bad=sym_pick("bad",0,30); S a1=el("a",op("mA")+" key=\"a\""); bool ack=false; s.cmd(C::LOAD_OP,a1);
    switch(bad){ case 0: s.cmd(C::LOAD_OP); break; case 1: s.cmd(C::LOAD_OP,"<a"); break; case 2: s.cmd(C::LOAD_OP,el("b","name=\"NoSuch\" key=\"b\"")); break; case 3: s.cmd(C::LOAD_OP,el("b",op("none")+" key=\"b\"")); break; case 4: s.cmd(C::LOAD_OP,a1); break; case 5: s.cmd(C::LOAD_U); break; case 6: s.cmdd(C::LOAD_U,"","",0.5,2); break; case 7: s.cmdd(C::LOAD_U,prop(HA),"",0.5); break; case 8: s.cmdd(C::LOAD_U,el("propagator","name=\"None\"",HA),"",0.5,2); break; case 9: s.cmdd(C::LOAD_U,"<a","",0.5,2); break; case 10: s.cmd(C::APPLY_OP); break; case 11: s.cmd(C::APPLY_OP,"","none"); break; case 12: s.cmdd(C::APPLY_OP,"","a",1); break; case 13: s.cmd(C::GET_EXPEC,"","none"); break; case 14: s.cmd(C::GET_MATEL,"","none"); s.wf(v); s.wf(w); break; case 15: s.cmd(C::READ_WF); break; case 16: s.cmd(C::READ_WF,"","none"); ack=true; break; case 17: s.cmd(C::WRITE_WF); break; case 18: s.cmd(C::RUN_PROG); break; case 19: s.cmd(C::RUN_PROG,"<x/>"); break; case 20: s.cmd(C::SET_GLOBAL_PARAMS); break; case 21: s.cmd(C::READ_OP,"","mA.op"); break; case 22: s.cmd(C::READ_OP,"","none","HermitianMatrix"); break; case 23: s.cmd(C::WRITE_OP,"","mA"); break; case 24: s.cmd(C::RUN_PROG,propa("dt=\"0.5\" steps=\"2\" dir=\"one\"",HA,el("wf","file=\"none\""))); break; case 25: s.cmd(C::READ_OP,"","mA.op","Scalar"); break; case 26: s.cmd(C::WRITE_OP,"","mD","OScalar"); break; case 27: s.cmd(C::WRITE_OP,"","mD","ONone"); break; case 28: s.cmd(C::READ_OP,"","mA.op","None"); break; case 29: { WaveFunction*t=mklevel(3); s.cmd(C::GET_EXPEC,"","a"); s.wf(t); ack=true; break; } case 30: s.cmd(C::LOAD_OP,el("b",op("mA")+" key=\"b\"")); s.cmd(C::APPLY_OP,el("b","ref=\"c\"")); break; }
    s.cmd(C::GET_EXPEC,"","a"); s.wf(w); s.cmd(C::QUIT);
    bool done=s.run(); s.ok(); if(bad==30) s.ok(); if(ack) s.ok(bad==16); s.err(); if(done){ s.ok(); s.num(dot(W,mv(A,W)),false,"commands after a failed one are answered"); } s.end(); sym_reach("refused"); }
  if(what==6){ // an input file
    int n=sym_pick("programs",1,TIER()?3:2),root=sym_pick("root",0,1),defs=sym_pick("defined",0,3),over=sym_pick("directory",0,2); putwf(w,"in"); GlobalParams::Instance().clear();
    S h0=defs&1?"ref=\"h\"":op("mA"),d=over?"g/":"",x; if(over) mkdir("g",0777); if(defs&1) x+=el("opdefs","",el("opdef",op("mA")+" key=\"h\"")); if(defs&2) x+=el("wfdefs","",el("wfdef","file=\"in\" key=\"w\"")); S src="in"; CV p=W; std::vector<S> nm;
    for(int i=0;i<n;i++){ S dn=S("p")+char('0'+i); x+=propa("dt=\""+num(i==1?0.25:0.5)+"\" steps=\"2\" "+(over?"fname=\"":"dir=\"")+dn+"\"",i==1?HB:el("hamiltonian",h0),el("wf","file=\""+src+"\"")); nm.push_back(over?"g/"+dn:dn+"/WF"); src=nm.back()+"_2"; }
    runx(el(root?"qdng":"multi",over==1?"dir=\"g\"":over==2?"dir=\"other\"":"",x),over==2?"g":""); std::vector<CM> U=steps(prop(HA),w,0.5,2),R=steps(prop(HB),w,0.25,2);
    for(int i=0;i<n;i++) for(int k=0;k<2;k++){ p=mv((i==1?R:U)[k],p); same(readwf(nm[i]+"_"+num(k+1)),p,"the programs of an input file run one after the other"); } sym_reach("file"); }
  if(what==7){ // bad input files
    putwf(w,"in"); S g=propa("dt=\"0.5\" steps=\"1\" dir=\"g\"",HA,el("wf","file=\"in\"")),x; int bad=sym_pick("bad",0,10);
    switch(bad){ case 0: x=el("qdng",""); break; case 1: x=el("qdng","",g+"<unknown/>"); break; case 2: x=el("qdng","","<densmat/>"); break; case 3: x=el("qdng","",el("opdefs","","<x/>")+g); break; case 4: x=el("qdng","",el("wfdefs","","<x/>")+g); break; case 5: x="<qdng>"+g; break; case 6: x=""; break; case 7: x="<other/>"; break; case 8: x=el("qdng","",el("opdefs","",el("opdef",op("none")+" key=\"q\""))+g); break; case 9: x=el("qdng","",el("opdefs","",el("opdef",op("mA")+" key=\"q\"")+el("opdef",op("mB")+" key=\"q\""))+g); break; case 10: x=el("qdng","",el("wfdefs","",el("wfdef","file=\"none\" key=\"w\""))+g); break; }
    sym_assert(!tryx(x),"a bad input file is refused"); sym_assert((bad==1)==(vfs_size("g/WF_1.wf")>0),"the programs before a bad one run, those after do not"); sym_reach("badfile"); }
  if(what==8){ // a stream that ends early
    WaveFunction*c=mklevel(2); for(int i=0;i<2;i++) at(c,i)=conc(i); s.cmd(C::LOAD_OP,el("a","name=\"Scalar\" value=\"2\" key=\"a\"")); int b1=s.in.str().size(); s.cmd(C::APPLY_OP,"","a"); int b2=s.in.str().size(); s.wf(c); int b3=s.in.str().size(); s.cmd(C::QUIT); S all=s.in.str(); int cut=sym_pick("cut",0,(int)all.size()-1); s.in.str(all.substr(0,cut)); s.in.clear();
    sym_assert(!s.run(),"a session whose input ends early ends with an error"); if(cut>=b1) s.ok(); if(cut>=b2) s.ok(true); if(cut>=b2&&cut<b3) s.err(); if(cut>=b3) s.getwf(); s.end(); sym_reach("cut"); }
}
