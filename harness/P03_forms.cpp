//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TIME 300 600
//BOUNDS 50 operator configurations; grids 4, 6, 2x2, 3x2, 4x2, 4x5, 4x4, 3x2x2; level systems of 2 and 3 states; multistate functions of 2 and 3 states; all amplitudes and (where the operator carries numbers) its elements in [-1,1]
//REACH forms
#include "ops.h"
extern "C" void sym_main(){
  int k=sym_pick("op",0,K_N-1);
  OpCase c=mkop(k,true);
  WaveFunction*a=c.w->NewInstance(),*b=c.w->NewInstance(),*d=c.w->NewInstance(),*e=c.w->NewInstance();
  symwf(a,"a"); symwf(b,"b"); symwf(d,"d"); Snap sa(a),sb(b),sd(d);
  c.O->Apply(d,a); Snap r(d);                             // reference result (d held arbitrary old content)
  wfclose(a,sa,1e-9,om(c,"the source is left unchanged").c_str());
  *e=a; c.O->Apply(e); wfclose(e,r,1e-8,om(c,"in place = out of place").c_str());
  c.O->Apply(d,a); wfclose(d,r,1e-8,om(c,"applying again gives the same result").c_str());
  { int i=0; for(int s=0;s<d->strides();s++) for(lint j=0;j<d->lsize();j++,i++) d->begin(s)[j]=sd.v[i]; }
  c.O->ApplyAdd(d,a); Snap want; for(size_t i=0;i<r.v.size();i++) want.v.push_back(sd.v[i]+r.v[i]);
  wfclose(d,want,1e-8,om(c,"adding form = old content + result").c_str()); wfclose(a,sa,1e-9,om(c,"the source is left unchanged by the adding form").c_str());
  // matrix elements and expectation values are inner products with the result
  { int i=0; for(int s=0;s<d->strides();s++) for(lint j=0;j<d->lsize();j++,i++) d->begin(s)[j]=r.v[i]; }
  dcomplex w=*b*d,m=c.O->MatrixElement(b,a); zclose(m,w,1e-8,om(c,"matrix element = <b|O a>").c_str());
  dcomplex wa=*a*d; if(c.herm) sym_close(c.O->Expec(a),wa.real(),1e-8,om(c,"expectation value = <a|O a>").c_str());
  wfclose(a,sa,1e-9,om(c,"the ket is left unchanged").c_str()); wfclose(b,sb,1e-9,om(c,"the bra is left unchanged").c_str());
  sym_reach("forms");
}
