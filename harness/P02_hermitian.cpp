//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TIME 300 600
//BOUNDS 50 operator configurations; grids 4, 6, 2x2, 3x2, 4x2, 4x5, 4x4, 3x2x2; level systems of 2 and 3 states; multistate functions of 2 and 3 states; all amplitudes and (where the operator carries numbers) its elements in [-1,1]
//REACH hermitian antihermitian
#include "ops.h"
extern "C" void sym_main(){
  int k=sym_pick("op",0,K_N-1);
  OpCase c=mkop(k,true);
  int anti = k==K_NAB1 || k==K_NAC || k==K_HOFD || k==K_NAB2 || k==K_NAC2 || k==K_NACS;          // real derivatives are antihermitian
  if(!c.herm && !anti) sym_end();
  WaveFunction*a=c.w->NewInstance(),*b=c.w->NewInstance(),*ra=c.w->NewInstance(),*rb=c.w->NewInstance();
  symwf(a,"a"); symwf(b,"b");
  c.O->Apply(ra,a); c.O->Apply(rb,b);
  dcomplex x=*b*ra,y=*a*rb;
  if(anti){ sym_close(x.real(),-y.real(),1e-8,om(c,"<b|Da> = -<a|Db>* (real part)").c_str()); sym_close(x.imag(),y.imag(),1e-8,om(c,"<b|Da> = -<a|Db>* (imaginary part)").c_str()); sym_reach("antihermitian"); }
  else { sym_close(x.real(),y.real(),1e-8,om(c,"<b|Oa> = <a|Ob>* (real part)").c_str()); sym_close(x.imag(),-y.imag(),1e-8,om(c,"<b|Oa> = <a|Ob>* (imaginary part)").c_str());
    if(c.cl){ // the same at every time step of the field
      for(int t=1;t<c.cl->Steps();t++){ ++(*c.cl); c.O->UpdateTime(); c.O->Apply(ra,a); c.O->Apply(rb,b); x=*b*ra; y=*a*rb; sym_close(x.real(),y.real(),1e-8,om(c,"hermitian at a later time (real part)").c_str()); sym_close(x.imag(),-y.imag(),1e-8,om(c,"hermitian at a later time (imaginary part)").c_str()); } }
    sym_reach("hermitian"); }
}
