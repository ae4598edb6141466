//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TIME 300 600
//BOUNDS vectors of 4 elements in 1 and 2 strides, values in [-2,2]; every kernel serially, aliased where the kernel allows it, and with a team of three threads and race detection; filter functions on 6 points
//ASSUME threads of a team are sequentially consistent between barriers
//REACH cc cd cs conv exp alias minmax filters
#include "h.h"
#include "math/math_functions.h"
#include <math.h>
static const int N=4;
struct V { cVec*c; Snap s; V(const char*n,int st,double l=2){ c=new cVec(N,st); symwf(c,n,l); s.take(c); } };
struct D { dVec*d; std::vector<double> s; D(const char*n,int st){ d=new dVec(N,st); for(int t=0;t<st;t++) for(int i=0;i<N/st;i++){ double x=sym_double(nm(n,t*(N/st)+i).c_str(),-2,2); d->begin(t)[i]=x; s.push_back(x); } } void same(const char*m){ int k=0; for(int t=0;t<d->strides();t++) for(int i=0;i<d->lsize();i++) sym_close(d->begin(t)[i],s[k++],0,m); } };
static const dcomplex J(0,1);
#define EACH(V_,E,MSG) { for(int i=0;i<N;i++) zclose((V_).c->begin(i/n)[i%n],E,1e-9,MSG); }
extern "C" void sym_main(){
  int what=sym_pick("what",0,7),st=sym_pick("strides",1,2),par=sym_pick("threads",0,1); int n=N/st; if(par) sym_omp(3,1);
  if(what==0){ int k=sym_pick("kernel",0,9); V A("a",st),B("b",st),C("c",st); double d=sym_double("d",-2,2); dcomplex z=symc("z",2); std::vector<dcomplex>&a=A.s.v,&b=B.s.v,&c=C.s.v; const char*m="";
    switch(k){
    case 0: AddElements(A.c,B.c); EACH(A,a[i]+b[i],"A += B"); break;
    case 1: AddElements(A.c,B.c,z); EACH(A,a[i]+b[i]*z,"A += B z"); break;
    case 2: AddElements(A.c,B.c,d); EACH(A,a[i]+b[i]*d,"A += B d"); break;
    case 3: AddElementsEq(C.c,A.c,B.c); EACH(C,a[i]+b[i],"C = A + B"); wfclose(A.c,A.s,0,"C = A + B leaves A"); break;
    case 4: MultElementsAdd(A.c,B.c,z); EACH(A,a[i]+b[i]*z,"A += B z (multiply and add)"); break;
    case 5: MultElementsAdd(A.c,B.c,d); EACH(A,a[i]+b[i]*d,"A += B d (multiply and add)"); break;
    case 6: MultElements(A.c,B.c); EACH(A,a[i]*b[i],"A *= B"); break;
    case 7: MultElements(A.c,B.c,d); EACH(A,a[i]*b[i]*d,"A = A B d"); break;
    case 8: MultElementsConjugate(C.c,A.c,B.c,d); EACH(C,a[i].conj()*b[i]*d,"C = conj(A) B d"); wfclose(A.c,A.s,0,"C = conj(A) B d leaves A"); break;
    case 9: MultElementsConjugate(A.c,B.c,d); EACH(A,a[i].conj()*b[i]*d,"A = conj(A) B d"); break; }
    wfclose(B.c,B.s,0,"the second operand is left alone"); if(k!=3&&k!=8) wfclose(C.c,C.s,0,"other vectors are left alone"); (void)c; (void)m; sym_reach("cc"); }
  if(what==1){ int k=sym_pick("kernel",0,10); V A("a",st),B("b",st),C("c",st); D R("r",st); double d=sym_double("d",-2,2); dcomplex z=symc("z",2); std::vector<dcomplex>&a=A.s.v,&b=B.s.v,&c=C.s.v; std::vector<double>&r=R.s; (void)c;
    switch(k){
    case 0: MultElementsAdd(A.c,B.c,R.d); EACH(A,a[i]+b[i]*r[i],"A += B R"); break;
    case 1: MultElementsAdd(A.c,B.c,R.d,d); EACH(A,a[i]+b[i]*r[i]*d,"A += B R d"); break;
    case 2: MultElements(A.c,B.c,R.d); EACH(A,b[i]*r[i],"A = B R"); break;
    case 3: MultElements(A.c,B.c,R.d,d); EACH(A,b[i]*r[i]*d,"A = B R d"); break;
    case 4: MultElements(A.c,R.d); EACH(A,a[i]*r[i],"A *= R"); break;
    case 5: MultElements(A.c,R.d,z); EACH(A,a[i]*r[i]*z,"A = A R z"); break;
    case 6: MultElements(A.c,R.d,d); EACH(A,a[i]*r[i]*d,"A = A R d"); break;
    case 7: MultElementsComplex(A.c,R.d,d); EACH(A,a[i]*J*r[i]*d,"A = i A R d"); break;
    case 8: MultElementsComplexEq(A.c,B.c,R.d,d); EACH(A,b[i]*J*r[i]*d,"A = i B R d"); break;
    case 9: MultElementsCopy(A.c,B.c,R.d); EACH(A,b[i]*r[i],"A = B R (copy)"); break;
    case 10: MultElementsCopy(A.c,B.c,R.d,d); EACH(A,b[i]*r[i]*d,"A = B R d (copy)"); break; }
    R.same("the real operand is left alone"); wfclose(B.c,B.s,0,"the second operand is left alone"); sym_reach("cd"); }
  if(what==2){ int k=sym_pick("kernel",0,8); V A("a",st),B("b",st),C("c",st); D R("r",st); double d=sym_double("d",-2,2); dcomplex z=symc("z",2); std::vector<dcomplex>&a=A.s.v,&b=B.s.v,&c=C.s.v;
    switch(k){
    case 0: MultElements(A.c,z); EACH(A,a[i]*z,"A *= z"); break;
    case 1: MultElements(A.c,d); EACH(A,a[i]*d,"A *= d"); break;
    case 2: MultElementsCopy(C.c,A.c,B.c); EACH(C,a[i]*b[i],"C = A B"); break;
    case 3: MultElementsCopy(C.c,A.c,B.c,d); EACH(C,a[i]*b[i]*d,"C = A B d"); break;
    case 4: MultElementsCopy(A.c,B.c,z); EACH(A,b[i]*z,"A = B z"); break;
    case 5: MultElementsCopy(A.c,B.c,d); EACH(A,b[i]*d,"A = B d"); break;
    case 6: MultElements(R.d,d); for(int i=0;i<N;i++) sym_close(R.d->begin(i/n)[i%n],R.s[i]*d,1e-9,"R *= d"); break;
    case 7: MultElementsComplex(A.c,B.c,d); EACH(A,a[i]*J*b[i]*d,"A = i A B d"); break;
    case 8: MultElementsComplex(C.c,A.c,R.d,d); EACH(C,c[i]*a[i]*J*R.s[i]*d,"C = i C A R d"); break; }
    wfclose(B.c,B.s,0,"the second operand is left alone"); sym_reach("cs"); }
  if(what==3){ int k=sym_pick("kernel",0,4); V A("a",st),B("b",st); D R("r",st); std::vector<dcomplex>&a=A.s.v,&b=B.s.v;
    switch(k){
    case 0: Re(A.c); EACH(A,dcomplex(a[i].real(),0),"real part in place"); break;
    case 1: Re(A.c,B.c); EACH(A,dcomplex(b[i].real(),0),"real part"); break;
    case 2: Im(A.c); EACH(A,dcomplex(a[i].imag(),0),"imaginary part in place"); break;
    case 3: Im(A.c,B.c); EACH(A,dcomplex(b[i].imag(),0),"imaginary part"); break;
    case 4: Abs(R.d,B.c); for(int i=0;i<N;i++){ double x=R.d->begin(i/n)[i%n]; sym_close(x*x,b[i].real()*b[i].real()+b[i].imag()*b[i].imag(),1e-7,"modulus"); sym_le(0,x,0,"modulus is not negative"); } break; }
    wfclose(B.c,B.s,0,"the second operand is left alone"); sym_reach("conv"); }
  if(what==4){ int k=sym_pick("kernel",0,1); V A("a",st),B("b",st); D R("r",st); dcomplex z=symc("z",2); if(k==0){ ExpElements(A.c,R.d,z); EACH(A,cexp(z*R.s[i]),"A = exp(R z)"); R.same("the exponent is left alone"); } else { ExpElements(A.c,B.c,z); EACH(A,cexp(B.s.v[i]*z),"A = exp(B z)"); wfclose(B.c,B.s,0,"the exponent is left alone"); } sym_reach("exp"); }
  if(what==5){ int k=sym_pick("kernel",0,9); V A("a",st),B("b",st); D R("r",st); double d=sym_double("d",-2,2); dcomplex z=symc("z",2); std::vector<dcomplex>&a=A.s.v,&b=B.s.v; std::vector<double>&r=R.s;
    switch(k){
    case 0: MultElements(A.c,A.c,R.d); EACH(A,a[i]*r[i],"A = A R aliased"); break;
    case 1: MultElements(A.c,A.c,R.d,d); EACH(A,a[i]*r[i]*d,"A = A R d aliased"); break;
    case 2: MultElementsCopy(A.c,A.c,R.d); EACH(A,a[i]*r[i],"copy A = A R aliased"); break;
    case 3: MultElementsCopy(A.c,A.c,z); EACH(A,a[i]*z,"copy A = A z aliased"); break;
    case 4: MultElementsCopy(A.c,A.c,B.c); EACH(A,a[i]*b[i],"copy A = A B aliased"); break;
    case 5: MultElementsComplexEq(A.c,A.c,R.d,d); EACH(A,a[i]*J*r[i]*d,"A = i A R d aliased"); break;
    case 6: AddElements(A.c,A.c); EACH(A,a[i]+a[i],"A += A"); break;
    case 7: AddElementsEq(A.c,A.c,B.c); EACH(A,a[i]+b[i],"A = A + B aliased"); break;
    case 8: MultElements(A.c,A.c); EACH(A,a[i]*a[i],"A *= A"); break;
    case 9: MultElementsConjugate(A.c,A.c,B.c,d); EACH(A,a[i].conj()*b[i]*d,"A = conj(A) B d aliased"); break; }
    sym_reach("alias"); }
  if(what==6){ if(st==2||par) sym_end(); D R("r",1); double mn=VecMin(*R.d),mx=VecMax(*R.d); bool hit=false,hit2=false; for(int i=0;i<N;i++){ sym_le(mn,R.s[i],0,"minimum is below every element"); sym_le(R.s[i],mx,0,"maximum is above every element"); if(mn==R.s[i]) hit=true; if(mx==R.s[i]) hit2=true; } sym_assert(hit,"the minimum is one of the elements"); sym_assert(hit2,"the maximum is one of the elements"); cVec c(3); double f=sym_double("f",0,4); c[0]=dcomplex(0.6,-0.8); c[1]=dcomplex(0,1)*(-f); c[2]=dcomplex(-2,0); double m=VecMax(c); sym_close(m,f>2?f:2,1e-9,"largest modulus"); dcomplex c0=c[0]; c[0]=c[2]; c[2]=c[1]; c[1]=c0; m=VecMax(c); sym_close(m,f>2?f:2,1e-9,"largest modulus"); 
    double fac=1; for(int i=0;i<=24;i++){ if(i) fac*=i; sym_close(Faculty(i)/fac,1,1e-12,"factorial"); } sym_reach("minmax"); }
  if(what==7){ if(st==2||par) sym_end(); int k=sym_pick("function",0,4); const int M=6; dVec v(M); double s[M]; for(int i=0;i<M;i++){ s[i]=sym_double(nm("v",i).c_str(),-1,1); v[i]=s[i]; } double x0=sym_double("x0",0.5,6),b=sym_double("b",0.1,3); int o=sym_pick("order",1,3); if(k>1&&o>1) sym_end();
    if(k==0){ FunctionGenerator<dVec>::BwLowpass(v,x0,o); for(int i=0;i<M;i++){ double p=1; for(int q=0;q<2*o;q++) p*=i/x0; sym_close(v[i]*(1+p),1,1e-7,"Butterworth lowpass"); sym_le(v[i],1,1e-12,"a lowpass does not amplify"); sym_le(0,v[i],0,"a lowpass does not invert"); } }
    if(k==1){ FunctionGenerator<dVec>::BwHighpass(v,x0,o); for(int i=1;i<M;i++){ double p=1; for(int q=0;q<2*o;q++) p*=x0/i; sym_close(v[i]*(1+p),1,1e-7,"Butterworth highpass"); sym_le(v[i],1,1e-12,"a highpass does not amplify"); } sym_close(v[0],0,0,"a highpass removes the constant part"); }
    if(k==2){ FunctionGenerator<dVec>::Sigmoid(v,x0,b); for(int i=0;i<M;i++) sym_close(v[i]*(1+exp(-b*(i-x0))),1,1e-6,"sigmoid function"); }
    if(k==3){ FunctionGenerator<dVec>::SigmoidInt(v,x0,b); for(int i=0;i<M;i++) sym_close((v[i]-(i-x0))*b,log(1+exp(-b*(i-x0))),1e-6,"integral of the sigmoid"); }
    if(k==4){ FunctionGenerator<dVec>::Hann(v); for(int i=0;i<M;i++){ double t=sin(M_PI*i/(M-1)); sym_close(v[i],s[i]*t*t,1e-9,"Hann window"); } }
    sym_reach("filters"); }
}
