//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TIME 300 600
//BOUNDS finite differences: orders 2,4,6,8,12,50 (thorough: every even order up to 50), first and second derivative, order..order+3 points, 1 to 3 dimensions with 2 or 3 points in the others, both boundary types, all amplitudes and all polynomial coefficients in [-1,1]
//REACH stencil poly all toofew nablasq
#include "ops.h"
#include "qdlib/HOFD.h"
#include <math.h>
#include <stdlib.h>
static int ORD[]={2,4,6,8,12,50}, thor=0;
extern "C" void sym_main(){
  int what=sym_pick("what",0,4);
  if(what==0){ // every point sees the same stencil, wrapped or cut at the edges
    int order=ORD[sym_pick("order",0,3)],der=sym_pick("deriv",1,2),pbc=sym_pick("pbc",0,1),dims=sym_pick("dims",1,3),dim=sym_pick("dim",0,dims-1),acc=sym_pick("acc",0,1),extra=sym_pick("extra",0,2); if(dims>1&&(order>4||extra>1)) sym_end();
    int n[3]={2,3,2}; n[dim]=order+extra; ParamContainer gp; gridparams(gp,dims,n,GLO,GHI); WFGridCartesian*g=mkgrid(dims,n[0],dims>1?n[1]:1,dims>2?n[2]:1);
    cHOFD H(der,order); H.SetGrid(*g); H.SetPBC(pbc); H.SetFactor(0.5); dVec f(dims); for(int i=0;i<dims;i++) f[i]=1+i; H.SetFactor(f);
    int S=g->Size(),N=n[dim],lo=1; for(int i=0;i<dim;i++) lo*=n[i];
    // reference coefficients from a long periodic line
    ParamContainer q; int M=order+3; double l0=0,h0=M-1; gridparams(q,1,&M,&l0,&h0); WFGridCartesian line; line.Init(q); cHOFD R(der,order); R.SetGrid(line); R.SetPBC(false); cVec e(M),o(M); std::vector<double> c(order+1); int mid=order/2;
    for(int j=0;j<=order;j++){ e=dcomplex(0,0); e[j]=1; R.Diff(&o,&e,0); c[j]=o[mid].real(); }
    cVec a(S),r(S); symwf(&a,"a"); symwf(&r,"r"); Snap r0(&r),a0(&a); H.Diff(&r,&a,dim,acc); double h=pow(1/g->Dx(dim),der)*0.5*(1+dim);
    for(int x=0;x<S;x++){ int i=(x/lo)%N; dcomplex v=acc?r0.v[x]:dcomplex(0,0); for(int j=0;j<=order;j++){ int y=i+j-mid; if(y<0||y>=N){ if(!pbc) continue; y=((y%N)+N)%N; } v+=h*c[j]*a0.v[x+(y-i)*lo]; } zclose(r[x],v,1e-8,pbc?"finite differences: periodic stencil at every point":"finite differences: stencil cut at the edges"); }
    wfclose(&a,a0,1e-12,"finite differences: source unchanged"); sym_reach("stencil"); }
  else if(what==1){ // exact on polynomials up to the order
    int order=sym_pick("half",1,25)*2,der=sym_pick("deriv",1,2); int M=order+1,m=order/2; double l0=-1,h0=1; ParamContainer q; gridparams(q,1,&M,&l0,&h0); WFGridCartesian line; line.Init(q); cHOFD R(der,order); R.SetGrid(line); cVec a(M),o(M); std::vector<double> co; for(int p=0;p<=order;p++) co.push_back(sym_double(nm("c",p).c_str(),-1,1));
    for(int i=0;i<M;i++){ double x=double(i-m)/m,t=1,s=0; for(int p=0;p<=order;p++){ s+=co[p]*t; t*=x; } a[i]=dcomplex(s,0); }
    R.Diff(&o,&a,0); double sc=pow(line.Dx(0)*m,-der); sym_close(o[m].real(),(der==1?co[1]:2*co[2])*sc,1e-6,"finite differences: exact for polynomials up to the order"); sym_close(o[m].imag(),0,1e-9,"finite differences: real stays real"); sym_reach("poly"); }
  else if(what==2){ // the operator over all dimensions is the sum of the one-dimensional ones
    int dims=sym_pick("dims",1,2),pbc=sym_pick("pbc",0,1),der=sym_pick("deriv",1,2),mass=sym_pick("mass",0,1); WFGridCartesian*g=mkgrid(dims,5,dims>1?4:1); ParamContainer p; p.SetValue("deriv",der); p.SetValue("order",4); p.SetValue("pbc",pbc==1); if(mass) p.SetValue("mass",dims>1?"2,5":"2"); OGridHOFD O; O.Init(p); O.Init(g);
    WFGridCartesian*a=(WFGridCartesian*)g->NewInstance(),*r=(WFGridCartesian*)g->NewInstance(),*s=(WFGridCartesian*)g->NewInstance(); symwf(a,"a"); symwf(r,"r"); O.Apply(r,a);
    cHOFD H(der,4); H.SetGrid(*g); H.SetPBC(pbc); Snap w; for(int i=0;i<dims;i++){ H.SetFactor(mass?-0.5/(i?5:2):1.); H.Diff(s,a,i); for(int j=0;j<g->Size();j++) if(i) w.v[j]+=(*s)[j]; else w.v.push_back((*s)[j]); }
    wfclose(r,w,1e-8,"finite differences: all dimensions together are the sum over dimensions with their masses"); sym_reach("all"); }
  else if(what==3){ int n=sym_pick("n",2,9); WFGridCartesian*g=mkgrid(1,n); ParamContainer p; p.SetValue("deriv",2); p.SetValue("order",8); WFGridCartesian*a=(WFGridCartesian*)g->NewInstance(),*r=(WFGridCartesian*)g->NewInstance(); symwf(a,"a"); bool thrown=false; try { OGridHOFD O; O.Init(p); O.Init(g); O.Apply(r,a); } catch(Exception&){ thrown=true; }
    sym_assert(thrown==(n<8),"finite differences: grids smaller than the stencil are rejected, others accepted"); sym_reach("toofew"); }
  else { // the kinetic energy by finite differences
    int dims=sym_pick("dims",1,2),pbc=sym_pick("pbc",0,1); WFGridCartesian*g=mkgrid(dims,6,dims>1?5:1); ParamContainer p; p.SetValue("mass",dims>1?"2,5":"2"); p.SetValue("method","HOFD"); p.SetValue("order",4); p.SetValue("pbc",pbc==1); OGridNablaSq O; O.Init(p); O.Init(g);
    WFGridCartesian*a=(WFGridCartesian*)g->NewInstance(),*r=(WFGridCartesian*)g->NewInstance(),*s=(WFGridCartesian*)g->NewInstance(); symwf(a,"a"); symwf(r,"r"); O.Apply(r,a);
    cHOFD H(2,4); H.SetGrid(*g); H.SetPBC(pbc); Snap w; for(int i=0;i<dims;i++){ H.SetFactor(-0.5/(i?5:2)); H.Diff(s,a,i); for(int j=0;j<g->Size();j++) if(i) w.v[j]+=(*s)[j]; else w.v.push_back((*s)[j]); }
    std::string ms=std::string("finite-difference kinetic energy ")+(dims>1?"2D ":"1D ")+(pbc?"periodic":"cut off")+": sum of the derivatives of each dimension with their masses"; 
    if(dims==1){ for(int i=0;i<g->Size();i++) zclose((*r)[i],w.v[i],1e-8,(ms+(i<2?" (left edge)":"")).c_str()); }
    else wfclose(r,w,1e-8,ms.c_str()); sym_reach("nablasq"); }
}
