//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TIME 300 600
//BOUNDS 50 operator configurations; grids 4, 6, 2x2, 3x2, 4x2, 4x5, 4x4, 3x2x2; level systems of 2 and 3 states; multistate functions of 2 and 3 states; all amplitudes, the scalar factor and (where the operator carries numbers) its elements in [-1,1]
//REACH linear
#include "ops.h"
extern "C" void sym_main(){
  int k=sym_pick("op",0,K_N-1);
  OpCase c=mkop(k,true);
  WaveFunction*a=c.w->NewInstance(),*b=c.w->NewInstance(),*l=c.w->NewInstance(),*ra=c.w->NewInstance(),*rb=c.w->NewInstance(),*rl=c.w->NewInstance();
  symwf(a,"a"); symwf(b,"b"); dcomplex s=symc("s");
  Snap sa(a),sb(b),sl; { int i=0; for(int t=0;t<l->strides();t++) for(lint j=0;j<l->lsize();j++,i++) l->begin(t)[j]=s*sa.v[i]+sb.v[i]; }
  c.O->Apply(ra,a); c.O->Apply(rb,b); c.O->Apply(rl,l);
  Snap xa(ra),xb(rb),want; for(size_t i=0;i<xa.v.size();i++) want.v.push_back(s*xa.v[i]+xb.v[i]);
  wfclose(rl,want,1e-8,om(c,"O(s a + b) = s O a + O b").c_str());
  sym_reach("linear");
}
