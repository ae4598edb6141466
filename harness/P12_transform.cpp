//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TIME 300 600
//BOUNDS grids 1-6 points, 2x3, 3x2, 2x3x2; multistate functions of 2 states; orthogonal 2x2 and permuted 3x3 matrices; amplitudes in [-1,1]
//ASSUME FFTW computes the exact discrete Fourier transform; planning may destroy the buffers
//REACH full single copy shapes reduce multistate matrix plain retire
#include "h.h"
#include "fft/fft.h"
#include "qdlib/TransformFFT.h"
#include "qdlib/TransformMSD.h"
#include "qdlib/TransformMat.h"
#include <math.h>
static const int SH[][4]={{1,1},{1,2},{1,3},{1,4},{1,5},{1,6},{2,2,3},{2,3,2},{3,2,3,2}};
static WFGridCartesian*mk(int k){ return mkgrid(SH[k][0],SH[k][1],SH[k][0]>1?SH[k][2]:1,SH[k][0]>2?SH[k][3]:1); }
// reference: transform along the dimensions in mask, sign -1 forward
static std::vector<dcomplex> dft(const std::vector<dcomplex>&v,const int*sh,int mask,int sign){ std::vector<dcomplex> r=v; int low=1; for(int d=0;d<sh[0];d++){ int n=sh[1+d]; if(mask>>d&1){ std::vector<dcomplex> q(r.size()); for(size_t i=0;i<r.size();i++){ int k=int(i)/low%n; size_t base=i-size_t(k)*low; dcomplex s(0,0); for(int j=0;j<n;j++){ double ph=2*M_PI*((j*k)%n)/n; s=s+r[base+size_t(j)*low]*dcomplex(cos(ph),sign*sin(ph)); } q[i]=s; } r=q; } low*=n; } return r; }
static Snap sn(const std::vector<dcomplex>&v){ Snap s; s.v=v; return s; }
static double n2(cVec*w){ double s=0; for(int t=0;t<w->strides();t++) for(int i=0;i<w->lsize();i++){ dcomplex c=w->begin(t)[i]; s+=c.real()*c.real()+c.imag()*c.imag(); } return s; }
static WaveFunction*g3(){ return mkgrid(1,3); } static WaveFunction*l3(){ return mklevel(3); }
extern "C" void sym_main(){
  int what=sym_pick("what",0,8); TransformFFT T;
  if(what==0){ int k=sym_pick("shape",0,8); WFGridCartesian*w=mk(k); symwf(w,"a"); Snap a(w); int all=(1<<SH[k][0])-1; 
    T.Forward(w); sym_assert(w->IsKspace(),"after the forward transform the function is in momentum space"); wfclose(w,sn(dft(a.v,SH[k],all,-1)),1e-9,"forward transform is the discrete Fourier transform"); sym_close(T.Normalization()*w->size(),1,1e-12,"normalisation is one over the number of points");
    double ns=0; for(auto&c:a.v) ns+=c.real()*c.real()+c.imag()*c.imag(); sym_close(n2(w),ns*w->size(),1e-7,"Parseval's equation");
    T.Backward(w); sym_assert(!w->IsKspace(),"after the backward transform the function is in position space"); *w*=T.Normalization(); wfclose(w,a,1e-9,"forward, backward and normalisation give the function back");
    T.Forward(w); T.Backward(w); *w*=T.Normalization(); wfclose(w,a,1e-9,"and again"); sym_reach("full"); }
  if(what==1){ int k=sym_pick("shape",3,8),d=sym_pick("dim",0,2); if(d>=SH[k][0]) sym_end(); WFGridCartesian*w=mk(k); symwf(w,"a"); Snap a(w); int n=SH[k][1+d];
    T.Forward(w,d); sym_assert(w->IsKspace(),"momentum space along one dimension"); wfclose(w,sn(dft(a.v,SH[k],1<<d,-1)),1e-9,"forward transform along one dimension"); T.Backward(w,d); *w*=1./n; wfclose(w,a,1e-9,"forward and backward along one dimension"); sym_assert(!w->IsKspace(),"position space again");
    T.Forward(w); T.Backward(w); *w*=T.Normalization(); wfclose(w,a,1e-9,"a full transform after one along a single dimension"); sym_reach("single"); }
  if(what==2){ int k=sym_pick("shape",4,8); WFGridCartesian*w=mk(k),*u=mk(k); symwf(w,"a"); setwf(u,conc); Snap a(w); int m=sym_pick("used",0,1); if(m){ T.Forward(u); T.Backward(u); }
    T.Forward(w); Snap f(w); WaveFunction*c=m?(WaveFunction*)u:w->NewInstance(); *c=(WaveFunction*)w; sym_assert(c->IsKspace(),"a copy of a momentum space function is in momentum space"); wfclose(c,f,0,"a copy of a momentum space function has its values"); wfclose(w,f,0,"copying leaves the original");
    T.Backward(c); *c*=T.Normalization(); wfclose(c,a,1e-9,"transforming the copy back"); wfclose(w,f,0,"transforming the copy leaves the original"); T.Backward(w); *w*=T.Normalization(); wfclose(w,a,1e-9,"transforming the original back");
    WaveFunction*p=mk(k); setwf(p,conc2); Snap q(p); *c=p; sym_assert(!c->IsKspace(),"copy of a position space function"); T.Forward(c); *c=(WaveFunction*)w; wfclose(c,a,1e-9,"copy of a position space function onto one in momentum space"); sym_assert(!c->IsKspace(),"copy of a position space function onto one in momentum space"); sym_reach("copy"); }
  if(what==3){ int k=sym_pick("shape",0,8),q=sym_pick("from",4,8),how=sym_pick("how",0,2); if(k==q) sym_end(); WFGridCartesian*w=mk(k),*u=mk(q); setwf(w,conc); symwf(u,"a"); Snap a(u); T.Forward(w); if(how!=1) T.Backward(w);
    if(how<2) *(WaveFunction*)w=(WaveFunction*)u; else { T.Forward(u); u->IsKspace(true); Snap f(u); WFGridCartesian*z=mk(q); for(size_t i=0;i<f.v.size();i++) z->begin(0)[i]=f.v[i]; w->Restore(z); wfclose(w,sn(dft(f.v,SH[q],(1<<SH[q][0])-1,1)),1e-9,"restoring a function of another grid"); sym_assert(!w->IsKspace(),"restored into position space"); sym_reach("shapes"); sym_end(); }
    wfclose(w,a,0,"assignment from another grid"); sym_assert(w->Dim()==SH[q][0]&&w->Size()==u->Size(),"assignment takes the grid over"); T.Forward(w); wfclose(w,sn(dft(a.v,SH[q],(1<<SH[q][0])-1,-1)),1e-9,"transform after assignment from another grid"); T.Backward(w); *w*=T.Normalization(); wfclose(w,a,1e-9,"and back"); sym_reach("shapes"); }
  if(what==4){ int k=sym_pick("shape",0,9); WaveFunction*w=k==9?(WaveFunction*)mklevel(3):mk(k); if(w->size()>2) setwf(w,conc); else symwf(w,"a"); w->begin(0)[w->size()-1]=symc("z"); Snap a(w); int r=sym_pick("fresh",0,1); WaveFunction*z=w->Reduce(0); wfclose(w,a,0,"reducing leaves the function alone"); WaveFunction*b=w->NewInstance(); if(r&&k<9){ setwf(b,conc); T.Forward(b); T.Backward(b); } b->Restore(z); sym_assert(!b->IsKspace(),"a restored function is in position space"); wfclose(b,a,1e-9,"reducing with no tolerance and restoring gives the function back"); sym_reach("reduce"); }
  if(what==5){ int how=sym_pick("how",0,3); if(how<3){ WFMultistate*m=mkmulti(2,g3),*o=mkmulti(2,g3); symwf(m,"a"); setwf(o,conc); Snap a(m); TransformFFT A,B; Transform*tt[2]={&A,how==2?0:&B}; TransformMSD M; M.ExternalTransform(tt);
      if(how==2){ /* one state stays */ }
      M.Forward(m); static const int s3[4]={1,3}; std::vector<dcomplex> f; for(int s=0;s<2;s++){ std::vector<dcomplex> p(a.v.begin()+3*s,a.v.begin()+3*s+3); if(how!=2||s==0) p=dft(p,s3,1,-1); f.insert(f.end(),p.begin(),p.end()); }
      if(how!=2){ wfclose(m,sn(f),1e-9,"every state is transformed"); sym_close(M.Normalization()*3,1,1e-12,"normalisation of the states"); if(how==1){ *(WaveFunction*)o=(WaveFunction*)m; wfclose(o,sn(f),1e-9,"copy of a multistate function in momentum space"); for(int s=0;s<2;s++) for(int i=0;i<3;i++) zclose(o->begin(s)[i],o->State(s)->begin(0)[i],0,"the states of a copied function in momentum space are its parts"); M.Backward(o); *(cVec*)o*=dcomplex(M.Normalization(),0); wfclose(o,a,1e-9,"copy transformed back"); }
        M.Backward(m); for(int s=0;s<2;s++) for(int i=0;i<3;i++){ zclose(m->begin(s)[i],m->State(s)->begin(0)[i],0,"the states stay the parts of the function"); } *(cVec*)m*=dcomplex(M.Normalization(),0); wfclose(m,a,1e-9,"forward and backward of every state"); *(WaveFunction*)o=(WaveFunction*)m; wfclose(o,a,1e-9,"copy back in position space"); }
    } else { WFMultistate*m=mkmulti(2,l3); symwf(m,"a"); Snap a(m); double c=sym_double("c",-1,1),s=sym_double("s",-1,1); sym_assume(c*c+s*s==1); static const double C[3]={1,0,0.6},S[3]={0,-1,0.8}; dMat*X[3]; for(int i=0;i<3;i++){ X[i]=new dMat(2,2); double cc=i==1?c:C[i],ss=i==1?s:S[i]; (*X[i])(0,0)=cc; (*X[i])(1,1)=cc; (*X[i])(0,1)=ss; (*X[i])(1,0)=-ss; } TransformMSD M; M.SetMatrixArray(X); M.Forward(m);
      for(int i=0;i<3;i++) for(int t=0;t<2;t++) zclose(m->begin(t)[i],a.v[i]*(*X[i])(0,t)+a.v[3+i]*(*X[i])(1,t),1e-9,"change of basis uses the transposed matrix of the point"); M.Backward(m); wfclose(m,a,1e-7,"change of basis and back"); }
    sym_reach("multistate"); }
  if(what==6){ int n=sym_pick("size",2,3); WFLevel*w=mklevel(n); symwf(w,"a"); Snap a(w); dMat X(n,n); if(n==2){ double c=sym_double("c",-1,1),s=sym_double("s",-1,1); sym_assume(c*c+s*s==1); X(0,0)=c; X(0,1)=s; X(1,0)=-s; X(1,1)=c; } else { double q[3][3]={{0,0.6,0.8},{1,0,0},{0,-0.8,0.6}}; for(int i=0;i<3;i++) for(int j=0;j<3;j++) X(i,j)=q[i][j]; }
    TransformMat M; M.SetMatrix(&X); M.Forward(w); sym_assert(w->IsKspace(),"eigenbasis flag"); for(int i=0;i<n;i++){ dcomplex s(0,0); for(int j=0;j<n;j++) s=s+a.v[j]*X(j,i); zclose(w->begin(0)[i],s,1e-9,"forward multiplies with the transposed matrix"); } M.Backward(w); sym_assert(!w->IsKspace(),"original basis flag"); wfclose(w,a,1e-7,"orthogonal change of basis and back"); sym_close(M.Normalization(),1,0,"an orthogonal change of basis needs no normalisation"); sym_reach("matrix"); }
  if(what==7){ int real=sym_pick("real",0,1),n=sym_pick("n",1,6); static int sh[4]={1}; sh[1]=n;
    if(real){ dVec in(n); cVec out(n/2+1); FFT f(in,out); std::vector<dcomplex> v; for(int i=0;i<n;i++){ in[i]=sym_double(nm("x",i).c_str(),-1,1); v.push_back(dcomplex(in[i],0)); } std::vector<dcomplex> r=dft(v,sh,1,-1); f.forward(); for(int i=0;i<=n/2;i++) zclose(out[i],r[i],1e-9,"real transform: positive frequencies of the Fourier transform"); f.backward(); for(int i=0;i<n;i++) sym_close(in[i],v[i].real()*n,1e-9,"real transform and back"); }
    else { cVec in(n),out(n),in2(n),out2(n); symwf(&in,"x"); symwf(&in2,"y"); Snap a(&in),b(&in2); FFT f(in,out); wfclose(&in,a,0,"planning leaves the input alone"); f.forward(); wfclose(&out,sn(dft(a.v,sh,1,-1)),1e-9,"plain transform"); f.backward(); for(int i=0;i<n;i++) zclose(in[i],a.v[i]*double(n),1e-9,"plain transform and back"); f.ReplaceBuffers(&in2,&out2); f.forward(); wfclose(&out2,sn(dft(b.v,sh,1,-1)),1e-9,"transform of other buffers"); wfclose(&out,sn(dft(a.v,sh,1,-1)),1e-9,"the former buffers are left alone"); }
    sym_reach("plain"); }
  if(what==8){ int k=sym_pick("shape",4,8),rep=sym_pick("representation",0,1); WFGridCartesian*w=mk(k); setwf(w,conc); T.Forward(w); if(!rep) T.Backward(w); w->Retire(); cVec*x=new cVec(w->size()),*y=new cVec(w->size()); setwf(x,conc); setwf(y,conc2); Snap sx(x),sy(y); w->Reaquire(); symwf(w,"a"); Snap a(w); if(rep){ sym_assert(w->IsKspace(),"the representation is known after the storage was requested again"); T.Backward(w); wfclose(w,sn(dft(a.v,SH[k],(1<<SH[k][0])-1,1)),1e-9,"transform back after the storage was given back and requested again in momentum space"); T.Forward(w); *w*=T.Normalization(); wfclose(w,a,1e-9,"and forth"); wfclose(x,sx,0,"other storage is left alone"); wfclose(y,sy,0,"other storage is left alone"); sym_reach("retire"); sym_end(); } T.Forward(w); wfclose(w,sn(dft(a.v,SH[k],(1<<SH[k][0])-1,-1)),1e-9,"transform after the storage was given back and requested again"); T.Backward(w); *w*=T.Normalization(); wfclose(w,a,1e-9,"and back"); wfclose(x,sx,0,"other storage is left alone"); wfclose(y,sy,0,"other storage is left alone"); sym_reach("retire"); }
}
