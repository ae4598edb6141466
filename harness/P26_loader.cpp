//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc ChainLoader.cpp GlobalOpList.cpp GlobalWFList.cpp
//NOT linalg/lapack_rs.cpp
//LIBS protobuf z bz2 lapack blas fftw3 xml2
//TEXT 1
//TIME 300 600
//BOUNDS level functions of 2 amplitudes and grids of 4 points, up to four states, real symmetric 2x2 matrices and potentials with any contents in files; 16 shapes of operator sections (Sum, Product, Scalar, Multistate with 2 or 3 states, GridSum, Projection from file sequences, references, labels, a propagator) and 20 of wave function sections (nesting depth up to 3); coefficients and phases from small lists
//ASSUME raw data do not begin with the mark of a stream or end with the mark of a compressed file (all files are written in the stream format)
//REACH operators functions refused
#include "ops.h"
#include "text.h"
#include "vfs.h"
#include "ChainLoader.h"
#include "GlobalOpList.h"
#include "GlobalWFList.h"
#include "tools/XmlParser.h"
#include "tools/FileSingle.h"
#include "qdlib/FileWF.h"
#include "qdlib/OCheby.h"
#include "qdlib/OSIL.h"
#include "expm.h"
typedef std::string S;
static XmlNode*X(const S&s){ XmlParser*p=new XmlParser(); p->Parse(s.c_str(),(int)s.size()); return &p->Root(); }
static void putmat(OHermitianMatrix*m,const char*n){ FileSingle<OHermitianMatrix> f; f.Suffix(BINARY_O_SUFFIX); f.Name(n); f << m; }
static void putpot(OGridPotential*m,const char*n){ FileSingle<OGridPotential> f; f.Suffix(BINARY_O_SUFFIX); f.Name(n); f << m; }
static void putwf(WaveFunction*w,const char*n){ FileWF f; f.Name(n); f << w; }
static WaveFunction*l2(){ return mklevel(2); } static WaveFunction*g4(){ return mkgrid(1,4); }
static CV fv(WaveFunction*w){ int n=total(w); CV r(n,dcomplex(0,0)); for(int i=0;i<n;i++) r[i]=at(w,i); return r; }
static cVec*fl(WaveFunction*w){ return (cVec*)w; }
static CM cm(OHermitianMatrix*m){ CM r(2,CV(2,dcomplex(0,0))); for(int i=0;i<2;i++) for(int j=0;j<2;j++) r[i][j]=dcomplex((*m)(i,j),0); return r; }
static CM add(const CM&a,const CM&b){ CM r=a; for(size_t i=0;i<a.size();i++) for(size_t j=0;j<a.size();j++) r[i][j]=a[i][j]+b[i][j]; return r; }
static CM scale(const CM&a,dcomplex f){ CM r=a; for(auto&x:r) for(auto&y:x) y=y*f; return r; }
static CM unit(int n){ CM r(n,CV(n,dcomplex(0,0))); for(int i=0;i<n;i++) r[i][i]=dcomplex(1,0); return r; }
static void block(CM&r,const CM&a,int i,int j){ for(size_t k=0;k<a.size();k++) for(size_t l=0;l<a.size();l++) r[i*a.size()+k][j*a.size()+l]=a[k][l]; }
static const char*H(int i){ static const char*t[]={"name=\"HermitianMatrix\" file=\"mA\"","name=\"HermitianMatrix\" file=\"mB\"","name=\"HermitianMatrix\" file=\"mC\""}; return t[i]; }
static S el(const S&n,const S&a,const S&in=""){ return "<"+n+" "+a+">"+in+"</"+n+">"; }
static void same(Operator*O,WaveFunction*w,const CM&r,const char*what){ GlobalOpList::Instance().Init(O,w); CV x=fv(w); WaveFunction*d=w->NewInstance(); O->Apply(d,w); CV y=fv(d); for(size_t i=0;i<r.size();i++){ dcomplex e(0,0); for(size_t j=0;j<r.size();j++) e+=r[i][j]*x[j]; S m=S(what); sym_close(y[i]._real,e._real,1e-10,m.c_str()); sym_close(y[i]._imag,e._imag,1e-10,m.c_str()); } }
template<class F> static void refuse(F f,const char*what){ bool t=false; try { f(); } catch(Exception&e){ t=true; } sym_assert(t,what); sym_reach("refused"); }
extern "C" void sym_main(){ symtext(); sym_tidy(1); std::cout.setstate(std::ios::failbit); GlobalOpList&L=GlobalOpList::Instance();
  int what=sym_pick("what",0,2);
  if(what==0){ int k=sym_pick("shape",0,16);
    OHermitianMatrix*a=mkmat(2,"A",true),*b=mkmat(2,"B",true),*c=mkmat(2,"C",true); putmat(a,"mA"); putmat(b,"mB"); putmat(c,"mC"); CM A=cm(a),B=cm(b),C=cm(c),Z=zero(2); S ha=H(0),hb=H(1),hc=H(2);
    bool two=(k>=4&&k<=9)||k==13||k==16; WaveFunction*w=two?mkmulti(k==16?12:k==9?3:2,l2):k==12?g4():mklevel(2); symwf(fl(w),"w");
    S opt=k>=4&&k<=9?(k==5?" unity=\"true\"":k==6?" nonhermitian=\"true\"":k==7?" unity=\"false\" nonhermitian=\"false\"":k==9?" states=\"3\" unity=\"true\"":""):"";
    Operator*O=0; CM R;
    switch(k){
    case 0: O=ChainLoader::LoadOperatorChain(X(el("h",ha))); R=A; break;
    case 1: O=ChainLoader::LoadOperatorChain(X(el("h","name=\"Sum\"",el("a",ha)+"\n "+el("b",hb)+"<!-- x -->"+el("c",hc)))); R=add(add(A,B),C); break;
    case 2: O=ChainLoader::LoadOperatorChain(X(el("h","name=\"Product\"","\n"+el("a",ha)+el("b",hb)+el("c",hc)))); R=mul(mul(A,B),C); break;
    case 3: O=ChainLoader::LoadOperatorChain(X(el("h","name=\"Sum\"",el("p","name=\"Product\"",el("s","name=\"Scalar\" value=\"0.5\" im=\"-2\"")+el("b",hb))+el("q","name=\"Sum\"",el("c",hc)+el("a",ha))))); R=add(scale(B,dcomplex(0.5,-2)),add(C,A)); break;
    case 4: O=ChainLoader::LoadOperatorChain(X(el("h","name=\"Multistate\"",el("m0.0",ha)+el("m0.1",hb)+el("m1.1",hc)))); R=zero(4); block(R,A,0,0); block(R,B,0,1); block(R,B,1,0); block(R,C,1,1); break;
    case 5: O=ChainLoader::LoadOperatorChain(X(el("h","name=\"Multistate\""+opt,el("m1.0",hb)+el("m1.1",hc)))); R=zero(4); block(R,unit(2),0,0); block(R,B,0,1); block(R,B,1,0); block(R,C,1,1); break;
    case 16: O=ChainLoader::LoadOperatorChain(X(el("h","name=\"Multistate\"",el("m10.1",ha)+el("m2.11",hb)+el("m10.10",hc)))); R=zero(24); block(R,A,10,1); block(R,A,1,10); block(R,B,2,11); block(R,B,11,2); block(R,C,10,10); break;
    case 6: O=ChainLoader::LoadOperatorChain(X(el("h","name=\"Multistate\""+opt,el("m1.0",hb)+el("m0.0",ha)))); R=zero(4); block(R,A,0,0); block(R,B,1,0); break;
    case 7: O=ChainLoader::LoadOperatorChain(X(el("h","name=\"Multistate\""+opt,el("m0.1",hb)))); R=zero(4); block(R,B,0,1); block(R,B,1,0); break;
    case 8: O=ChainLoader::LoadOperatorChain(X(el("h","name=\"Sum\"",el("x","name=\"Multistate\"",el("m0.0",ha)+el("m1.1",hb))+el("y","name=\"Multistate\"",el("m0.1","name=\"Product\"",el("u","name=\"Scalar\" value=\"3\"")+el("v",hc))+el("m1.1",ha))))); R=zero(4); block(R,A,0,0); block(R,add(A,B),1,1); block(R,scale(C,dcomplex(3,0)),0,1); block(R,scale(C,dcomplex(3,0)),1,0); break;
    case 9: O=ChainLoader::LoadOperatorChain(X(el("h","name=\"Multistate\""+opt,el("m0.2",ha)+el("m1.1",hb)))); R=zero(6); block(R,unit(2),0,0); block(R,unit(2),2,2); block(R,B,1,1); block(R,A,0,2); block(R,A,2,0); break;
    case 10: O=ChainLoader::LoadOperatorChain(X(el("h","name=\"Sum\"",el("a",ha+" key=\"Ka\" label=\"la\"")+el("b",hb+" key=\"Kb\" label=\"lb\"")+el("c","ref=\"Ka\"")+el("d","ref=\"Ka\"")))); R=add(add(scale(A,dcomplex(3,0)),B),Z);
      { Operator*t[4]; sym_assert(L.GetLabels("la",t,4)==1&&t[0]==L["Ka"],"the operators with a label are the ones that were given it"); sym_assert(L.GetLabels("lc",t,4)==0,"no operator has a label that was not given"); sym_assert(L.CheckLabel(L["Kb"],"lb")&&!L.CheckLabel(L["Kb"],"la"),"the label of an operator"); } break;
    case 11: { ChainLoader::LoadOperatorChain(X(el("a",ha+" key=\"A\"")),true); ChainLoader::LoadOperatorChain(X(el("p","name=\"Product\" key=\"P\"",el("x","ref=\"A\"")+el("y",hb+" key=\"tmp\"")))); O=ChainLoader::LoadOperatorChain(X(el("h","name=\"Sum\" key=\"S\"",el("p","ref=\"P\"")+el("a","ref=\"A\"")))); R=add(mul(A,B),A); same(O,w,R,"an operator built from references is the one described"); same(O,w,R,"an operator can be initialised once more");
        L.Clear(); Operator*q=L["A"]; refuse([&]{ L["S"]; },"operators of a program are forgotten when it ends"); O=q; R=A; break; }
    case 12: { WFGridSystem*g=(WFGridSystem*)(WFGridCartesian*)w; OGridPotential*v=mkpot(g,"V",true),*u=mkpot(g,"U",true); putpot(v,"pV"); putpot(u,"pU"); O=ChainLoader::LoadOperatorChain(X(el("h","name=\"GridSum\"","\n"+el("v","name=\"GridPotential\" file=\"pV\"")+"\n"+el("u","name=\"GridPotential\" file=\"pU\" scale=\"-0.5\"")+"\n"))); R=zero(4); for(int i=0;i<4;i++) R[i][i]=dcomplex((*v)[i]-0.5*(*u)[i],0); break; }
    case 13: { O=ChainLoader::LoadOperatorChain(X(el("h","name=\"Product\"",el("x","name=\"Multistate\" unity=\"true\" nonhermitian=\"true\"",el("m0.1",ha))+el("y","name=\"Multistate\"",el("m0.0",hb)+el("m1.1",hc))))); CM P=unit(4),Q=zero(4); block(P,A,0,1); block(Q,B,0,0); block(Q,C,1,1); R=mul(P,Q); break; }
    case 14: { int v=sym_pick("files",0,2),num=v==0?1:2,inv=v==2; R=inv?unit(2):zero(2); for(int f=0;f<num;f++){ WaveFunction*p=mklevel(2); symwf(fl(p),f?"q":"p"); putwf(p,f?"pA_3":v?"pA_1":"pA_0"); CV q=fv(p); for(int i=0;i<2;i++) for(int j=0;j<2;j++) R[i][j]+=dcomplex(inv?-1:1,0)*q[i]*q[j].conj(); } O=ChainLoader::LoadOperatorChain(X(el("h",S("name=\"Projection\" files=\"pA\"")+(v?" num=\"2\" start=\"1\" step=\"2\"":"")+(inv?" inv=\"true\"":"")))); break; }
    case 15: { // a propagator and its operators
      OPropagator*U=ChainLoader::LoadPropagator(X(el("propagator","name=\"Cheby\" order=\"8\"",el("hamiltonian","name=\"Sum\" key=\"H\"",el("a",ha)+el("b",hb))))); sym_assert(dynamic_cast<OCheby*>(U)!=0&&((OList*)U)->Get("hamiltonian")==L["H"],"a propagator propagates with the operator of its section"); O=L["H"]; R=add(A,B); break; } }
    same(O,w,R,"an operator built from a program is the one described"); sym_reach("operators"); }
  if(what==1){ int k=sym_pick("function",0,20); bool grid=k<=7&&sym_pick("grid",0,1); auto mk=[&]{ return grid?g4():mklevel(2); };
    WaveFunction*a=mk(),*b=mk(); symwf(fl(a),"a"); symwf(fl(b),"b"); putwf(a,"wA"); putwf(b,"wB"); CV A=fv(a),B=fv(b); int n=(int)A.size(); CV R; S fa="file=\"wA\"",fb="file=\"wB\""; S nm1=grid?" name=\"GridCartesian\"":" name=\"Level\""; bool norm=false;
    auto lin=[&](dcomplex x,dcomplex y){ CV r(n,dcomplex(0,0)); for(int i=0;i<n;i++) r[i]=x*A[i]+y*B[i]; return r; }; auto cat=[&](const CV&x,const CV&y){ CV r=x; for(auto&z:y) r.push_back(z); return r; }; dcomplex I1(1,0),O0(0,0);
    S x; WaveFunction*m=0; if(k>=12&&k<=17){ m=mkmulti(4,l2); symwf(fl(m),"m"); putwf(m,"wM"); }
    auto st=[&](int i){ CV r(2,dcomplex(0,0)),f=fv(m); r[0]=f[2*i]; r[1]=f[2*i+1]; return r; }; auto sc=[&](const CV&v,double f){ CV r=v; for(auto&z:r) z=z*f; return r; };
    switch(k){
    case 0: x=el("wf",fa+(sym_pick("named",0,1)?nm1:"")); R=A; break;
    case 1: { static const char*cf[]={"0.5","-2","1.0","0"}; static const double cv[]={0.5,-2,1,0}; int j=sym_pick("coefficient",0,3); x=el("wf",fa+" coeff=\""+cf[j]+"\""); R=lin(dcomplex(cv[j],0),O0); break; }
    case 2: x=el("wf",fa+" coeff2=\"0.25\""); R=lin(dcomplex(0.5,0),O0); break;
    case 3: { static const char*ph[]={"0.5","1","-0.25","0"}; static const double pv[]={0.5,1,-0.25,0}; int j=sym_pick("phase",0,3); x=el("wf",fa+" phase=\""+ph[j]+"\" coeff=\"3\""); R=lin(dcomplex(3*cos(M_PI*pv[j]),3*sin(M_PI*pv[j])),O0); break; }
    case 4: x=el("wf","name=\"LC\"",el("wf1",fa+" coeff=\"0.25\"")+"\n"+el("wf2",fb+nm1+" coeff=\"-1.5\"")); R=lin(dcomplex(0.25,0),dcomplex(-1.5,0)); break;
    case 5: x=el("wf","name=\"LC\" coeff=\"2\"",el("wf1",fa)+el("wf2",fb+" phase=\"0.5\"")+el("wf3",fa+" coeff2=\"0.25\"")); R=lin(dcomplex(3,0),dcomplex(0,2)); break;
    case 6: x=el("wf","name=\"LC\"",el("wf1",fa)); R=A; break;
    case 7: x=el("wf","name=\"LC\"",el("wf1","name=\"LC\" coeff=\"0.5\"",el("u",fa)+el("v",fb))+el("wf2",fb)); R=lin(dcomplex(0.5,0),dcomplex(1.5,0)); break;
    case 8: x=el("wf","name=\"Multistate\" states=\"2\"",el("wf0",fa)+el("wf1",fb+" coeff=\"2\"")); R=cat(A,sc(B,2)); break;
    case 9: x=el("wf","name=\"Multistate\"",el("wf1",fb)); R=cat(sc(A,0),B); break;
    case 10: x=el("wf","name=\"Multistate\" states=\"3\" coeff=\"-1\"",el("wf1",fb)+el("wf0","name=\"LC\"",el("q",fa)+el("r",fb))); R=cat(cat(lin(dcomplex(-1,0),dcomplex(-1,0)),sc(B,-1)),sc(A,0)); break;
    case 11: x=el("wf","name=\"Multistate\"",el("wf2",fa)+el("wf0",fb)); R=cat(cat(B,sc(A,0)),A); break;
    case 20: x=el("wf","name=\"Multistate\"",el("wf10",fa)+el("wf1",fb)); R=cat(sc(A,0),B); for(int i=2;i<10;i++) R=cat(R,sc(A,0)); R=cat(R,A); break;
    case 12: x=el("wf","name=\"Multimap\" statemap=\"2\"",el("wf","file=\"wM\"")); R=st(2); break;
    case 13: x=el("wf","name=\"Multimap\" statemap=\"3,0,1\" coeffs=\"0.25,0.5,-4\"",el("wf","file=\"wM\"")); R=cat(cat(sc(st(3),0.25),sc(st(0),0.5)),sc(st(1),-4)); break;
    case 14: x=el("wf","name=\"Multimap\" statemap=\"1,0,3,2\"",el("wf","file=\"wM\"")); R=cat(cat(st(1),st(0)),cat(st(3),st(2))); break;
    case 15: x=el("wf","name=\"Multimap\" statemap=\"1,2\"",el("wf","file=\"wM\"")); R=cat(st(1),st(2)); break;
    case 16: x=el("wf","name=\"Multimap\" statemap=\"1\" coeffs=\"0.5\"",el("wf","file=\"wM\"")); R=sc(st(1),0.5); break;
    case 17: x=el("wf","name=\"Multimap\" statemap=\"2,2\" coeffs=\"1,0.5\"",el("wf","file=\"wM\"")); R=cat(st(2),sc(st(2),0.5)); break;
    case 18: case 19: norm=true; x=k==18?el("wf",fa+" normalize=\"true\" coeff=\"0.5\""):el("wf","name=\"LC\" normalize=\"true\" coeff=\"0.5\"",el("wf1",fa)+el("wf2",fb)); R=lin(I1,k==18?O0:I1); break; }
    if(norm){ double s=0; for(auto&z:R) s+=z._real*z._real+z._imag*z._imag; sym_assume(s>=0.01); }
    WaveFunction*w=ChainLoader::LoadWaveFunctionChain(X(x)); CV W=fv(w); sym_assert(W.size()==R.size(),"a wave function built from a program has the size described");
    if(!norm) for(size_t i=0;i<R.size();i++){ sym_close(W[i]._real,R[i]._real,1e-11,"a wave function built from a program is the one described"); sym_close(W[i]._imag,R[i]._imag,1e-11,"a wave function built from a program is the one described"); }
    else { double s=0; for(auto&z:R) s+=z._real*z._real+z._imag*z._imag; s=sqrt(s); for(size_t i=0;i<R.size();i++){ sym_close(W[i]._real*s,0.5*R[i]._real,1e-9,"a normalised wave function times its coefficient is the one described"); sym_close(W[i]._imag*s,0.5*R[i]._imag,1e-9,"a normalised wave function times its coefficient is the one described"); } }
    sym_reach("functions"); }
  if(what==2){ int k=sym_pick("fault",0,16); OHermitianMatrix*a=mkmat(2,"A",false); putmat(a,"mA"); WaveFunction*w=mklevel(2); setwf(fl(w),conc); putwf(w,"wA"); WaveFunction*m=mkmulti(2,l2); setwf(fl(m),conc); putwf(m,"wM"); S ha=H(0);
    switch(k){
    case 0: refuse([&]{ ChainLoader::LoadOperatorChain(X(el("h","ref=\"none\""))); },"a reference to an operator which is not there is refused"); break;
    case 1: refuse([&]{ ChainLoader::LoadOperatorChain(X(el("h","name=\"Sum\"",el("a",ha+" key=\"K\"")+el("b",ha+" key=\"K\"")))); },"two operators with one key are refused"); break;
    case 2: refuse([&]{ ChainLoader::LoadOperatorChain(X(el("h","name=\"NoSuchThing\""))); },"an unknown operator is refused"); break;
    case 3: refuse([&]{ ChainLoader::LoadOperatorChain(X(el("h","name=\"GridSum\"",el("a",ha)))); },"only operators on grids can be in a sum of grid operators"); break;
    case 4: refuse([&]{ ChainLoader::LoadPropagator(X(el("h",ha))); },"an operator which is not a propagator is refused as one"); break;
    case 5: refuse([&]{ ChainLoader::LoadWaveFunctionChain(X(el("wf","name=\"Level\""))); },"a wave function without a file is refused"); break;
    case 6: refuse([&]{ ChainLoader::LoadWaveFunctionChain(X(el("wf","file=\"nofile\""))); },"a missing file is refused"); break;
    case 7: { static const char*sm[]={"2","-1,0","0,5","0,1,1"}; S s=sm[sym_pick("map",0,3)]; refuse([&]{ ChainLoader::LoadWaveFunctionChain(X(el("wf","name=\"Multimap\" statemap=\""+s+"\"",el("wf","file=\"wM\"")))); },"a map with a state which is not there is refused"); break; }
    case 8: refuse([&]{ ChainLoader::LoadWaveFunctionChain(X(el("wf","name=\"Multimap\" statemap=\"0\"",el("wf","file=\"wA\"")))); },"only functions with several states can be mapped"); break;
    case 9: refuse([&]{ ChainLoader::LoadWaveFunctionChain(X(el("wf","name=\"Multimap\"",el("wf","file=\"wM\"")))); },"a map without its list of states is refused"); break;
    case 10: case 11: case 12: { static const char*o[]={"Sum","Product","Multistate"}; S n=o[k-10]; refuse([&]{ Operator*O=ChainLoader::LoadOperatorChain(X("<h name=\""+n+"\"/>")); O->Clock(new QDClock(2,0.5)); O->Init(w); WaveFunction*d=w->NewInstance(); O->Apply(d,w); },"an operator made of nothing is refused"); break; }
    case 13: refuse([&]{ ChainLoader::LoadOperatorChain(X("<h name=\"GridSum\"/>")); },"a sum of no grid operators is refused"); break;
    case 14: case 15: case 16: { static const char*o[]={"Multistate","LC","Multimap"}; S n=o[k-14]; refuse([&]{ ChainLoader::LoadWaveFunctionChain(X("<wf name=\""+n+"\" statemap=\"0\"/>")); },"a wave function made of nothing is refused"); break; } } }
}
