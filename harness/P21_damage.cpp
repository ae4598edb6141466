//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TEXT 1
//TIME 300 600
//BOUNDS level functions of 2 amplitudes, grids of 2 points, two states, 2x2 matrices, potentials of 2 points, laser fields of 2 points, compressed or not, stream and raw format; the file ends after any number of bytes, the space for writing ends after any number of bytes, any one byte of the leading mark has any value
//ASSUME raw data do not begin with the mark of a stream or end with the mark of a compressed file; meta files (text) are complete when they are read
//REACH short full mark
#include "ops.h"
#include "text.h"
#include "vfs.h"
#include "zip.h"
#include "qdlib/FileWF.h"
#include "qdlib/Laser.h"
#include "tools/FileSingle.h"
#include "tools/Exception.h"
static void notmagic(const void*first,const void*last){ const char*a=(const char*)first,*b=(const char*)last; sym_assume(a[0]!='Q'); sym_assume(b[0]!='Z'); sym_assume(b[0]!='B'); }
static cVec*fl(WaveFunction*w){ return (cVec*)w; }
static WaveFunction*l2(){ return mklevel(2); }
static WaveFunction*mk(int k){ return k==0?mklevel(2):k==1?(WaveFunction*)mkgrid(1,2):mkmulti(2,l2); }
template<class C> static void out(C*c,bool raw){ FileSingle<C> f; f.Suffix(BINARY_O_SUFFIX); f.Name("f"); f.FormatOut(raw?FileSingle<C>::binary:FileSingle<C>::stream); f << c; }
template<class C> static void in(C*c){ FileSingle<C> f; f.Suffix(BINARY_O_SUFFIX); f.Name("f"); f >> c; }
// kinds 0-2: wave functions, 3 matrix, 4 potential, 5 laser
struct Ob { int k; WaveFunction*w; OHermitianMatrix*m; OGridPotential*v; Laser*l; };
static Ob make(int k){ Ob o; o.k=k; o.w=0; o.m=0; o.v=0; o.l=0; if(k<3){ o.w=mk(k); symwf(fl(o.w),"w"); for(int s=0;s<(int)fl(o.w)->strides();s++) notmagic(fl(o.w)->begin(s),&fl(o.w)->begin(s)[fl(o.w)->lsize()-1]._imag); }
  if(k==3){ o.m=mkmat(2,"m",true); notmagic(&(*o.m)(0,0),&(*o.m)(1,1)); } if(k==4){ o.v=mkpot(mkgrid(1,2),"v",true); notmagic(&(*o.v)[0],&(*o.v)[1]); } if(k==5){ o.l=new Laser(); o.l->Dt(0.5); o.l->Nt(2); for(int i=0;i<2;i++) (*o.l)[i]=sym_double(nm("e",i).c_str(),-1,1); notmagic(&(*o.l)[0],&(*o.l)[1]); } return o; }
static void save(Ob&o,bool raw,bool comp){ if(o.w){ FileWF f; f.Name("f"); f.FormatOut(raw?FileWF::binary:FileWF::stream); if(comp){ f.Compress(true); f.CompressMethod(FileWF::ZLIB); f.CompressionTolerance(0); } f << o.w; } if(o.m) out(o.m,raw); if(o.v) out(o.v,raw); if(o.l) out(o.l,raw); }
static void load(int k,int form){ if(k<3){ FileWF f; f.Name("f"); if(form){ WaveFunction*w; f >> &w; } else { WaveFunction*w=mk(k); f >> w; } } if(k==3){ OHermitianMatrix m; in(&m); } if(k==4){ OGridPotential v; in(&v); } if(k==5){ Laser l; in(&l); } }
static const char*file(int k,bool raw){ return k<3?(k==2&&raw?(sym_pick("state",0,1)?"f-1.wf":"f-0.wf"):"f.wf"):"f.op"; }
extern "C" void sym_main(){ symtext(); std::cout.setstate(std::ios::failbit);
  int what=sym_pick("what",0,2),k=sym_pick("kind",0,5); bool raw=sym_pick("raw",0,1),comp=k<2&&sym_pick("compressed",0,1); Ob o=make(k); bool failed=false;
  if(what==0){ save(o,raw,comp); const char*n=file(k,raw); long l=vfs_size(n); sym_assert(l>0,"a file is written"); int form=k<3?sym_pick("form",0,1):0; vfs_truncate(n,sym_int("length",0,l-1)); try { load(k,form); } catch(Exception&e){ failed=true; } sym_assert(failed,"a file that ends early is refused"); sym_reach("short"); }
  if(what==1){ save(o,raw,comp); long l=0; if(raw){ l=vfs_size("f.meta"); } long d=vfs_size(file(k,raw)); if(d>l) l=d; vfs_remove("f.wf"); vfs_remove("f.op"); vfs_remove("f.meta"); vfs_remove("f-0.wf"); vfs_remove("f-1.wf"); vfs_remove("f-0.meta"); vfs_remove("f-1.meta"); vfs_full(sym_int("space",0,l-1)); try { save(o,raw,comp); } catch(Exception&e){ failed=true; } vfs_full(-1); sym_assert(failed,"running out of space is reported"); sym_reach("full"); }
  if(what==2){ if(raw) return; save(o,false,comp); char b[20]; const char*n=file(k,false); vfs_get(n,0,b,16); int at=sym_pick("byte",0,15); sym_assert(!memcmp(b,"QDngPrtoBuf",12),"a stream begins with its mark"); char c=(char)sym_int("value",0,255); sym_assume(c!=b[at]); vfs_poke(n,at,&c,1); try { load(k,sym_pick("form",0,k<3?1:0)); } catch(Exception&e){ failed=true; } sym_assert(failed,"a file with another mark is refused"); sym_reach("mark"); }
}
