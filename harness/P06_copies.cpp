//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TIME 300 600
//BOUNDS 50 operator configurations; grids 4, 6, 2x2, 3x2, 4x2, 4x5, 4x4, 3x2x2; level systems of 2 and 3 states; multistate functions of 2 and 3 states; all amplitudes and (where the operator carries numbers) its elements in [-1,1]
//REACH copies
#include "ops.h"
extern "C" void sym_main(){
  int k=sym_pick("op",0,K_N-1);
  OpCase c=mkop(k,false);
  WaveFunction*a=c.w->NewInstance(),*d=c.w->NewInstance();
  symwf(a,"a"); c.O->Apply(d,a); Snap r(d);
  Operator*o=c.O->NewInstance(); *o=c.O; o->Init(a); if(c.cl) o->Clock(c.cl);
  o->Apply(d,a); wfclose(d,r,1e-8,om(c,"the copy acts like the original").c_str());
  c.O->Apply(d,a); wfclose(d,r,1e-8,om(c,"the original acts as before copying").c_str());
  delete c.O;
  o->Apply(d,a); wfclose(d,r,1e-8,om(c,"the copy survives the original").c_str());
  delete o;
  sym_reach("copies");
}
