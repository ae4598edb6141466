//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TEXT 1
//TIME 300 600
//BOUNDS level functions of 1 to 3 amplitudes, grids of 2 to 4 points in one dimension and 2x2, two states, symmetric matrices up to 3x3, laser fields of 1 to 3 points, with any contents; stream and raw format; sequences of two files
//ASSUME raw data do not begin with the mark of a stream or end with the mark of a compressed file (the raw format cannot tell)
//REACH compressed level grid multi matrix potential laser
#include "ops.h"
#include "text.h"
#include "vfs.h"
#include "zip.h"
#include "qdlib/FileWF.h"
#include "qdlib/Laser.h"
#include "qdlib/OGridPotential.h"
#include "qdlib/OHermitianMatrix.h"
#include "tools/FileSingle.h"
#include <math.h>
// raw data which begin like a stream or end like a compressed file cannot be told from one
static void notmagic(const void*first,const void*last){ const char*a=(const char*)first,*b=(const char*)last; sym_assume(a[0]!='Q'); sym_assume(b[0]!='Z'); sym_assume(b[0]!='B'); }
// what was read is written once more, in the other format
template<class C> static void second(const char*name,C*q,int fmt,C&z){ FileSingle<C> f; f.Suffix(BINARY_O_SUFFIX); f.Name(name); f.FormatOut(fmt?FileSingle<C>::stream:FileSingle<C>::binary); f << q; FileSingle<C> g; g.Suffix(BINARY_O_SUFFIX); g.Name(name); g >> &z; }
static WaveFunction*l2(){ return mklevel(2); } static WaveFunction*g2(){ return mkgrid(1,2); }
static WaveFunction*mk(int k,int n){ switch(k){ case 0: return mklevel(n); case 1: return n<4?mkgrid(1,n+1):mkgrid(2,2,2); case 2: return mkmulti(2,l2); } return mkmulti(n,g2); }
static cVec*fl(WaveFunction*w){ return (cVec*)w; }
extern "C" void sym_main(){ symtext();
  int what=sym_pick("what",0,3);
  if(what==0){ int k=sym_pick("kind",0,3),n=k<2?sym_pick("n",1,k==0?3:4):k==3?sym_pick("states",1,2):2,fmt=sym_pick("format",0,1),form=sym_pick("form",0,1); WaveFunction*w=mk(k,n); symwf(fl(w),"w"); int N=fl(w)->lsize(),S=fl(w)->strides(); for(int s=0;s<S;s++) notmagic(fl(w)->begin(s),&fl(w)->begin(s)[N-1]._imag);
    bool seq=sym_pick("sequence",0,1); WaveFunction*w2=0; Snap a(fl(w)); { FileWF f; f.Name("file"); f.FormatOut(fmt?FileWF::binary:FileWF::stream); if(seq) f.ActivateSequence(); f << w; if(seq){ w2=mk(k,n); symwf(fl(w2),"v"); for(int s=0;s<S;s++) notmagic(fl(w2)->begin(s),&fl(w2)->begin(s)[N-1]._imag); f << w2; } wfclose(fl(w),a,0,"writing a wave function leaves it alone"); }
    for(int i=0;i<(seq?2:1);i++){ static FileWF*rd=0; if(!i) { rd=new FileWF(); rd->Name("file"); if(seq) rd->ActivateSequence(); } WaveFunction*r; if(form==0){ r=mk(k,n); *rd >> r; } else *rd >> &r; sym_assert(r->Name()==w->Name(),"a file gives back the kind of wave function that was written"); sym_assert((int)fl(r)->lsize()==N&&(int)fl(r)->strides()==S,"a file gives back the size that was written"); Snap b(fl(i?w2:w)); wfclose(fl(r),b,0,"a file gives back the wave function that was written");
      for(int s=0;s<S;s++){ WFGridSystem*x=dynamic_cast<WFGridSystem*>(S>1||k>1?((WFMultistate*)r)->State(s):r),*y=dynamic_cast<WFGridSystem*>(S>1||k>1?((WFMultistate*)w)->State(s):w); if(y){ sym_assert(x!=0,"kind of a state"); sym_assert(*(GridSystem*)x==*(GridSystem*)y,"a file gives back the grid that was written"); } } 
      if(i==0&&!seq){ // written again, as it is or from a fresh object, in the other format
        int again=sym_pick("again",0,2); if(again){ WaveFunction*q=r; if(again==2){ q=r->NewInstance(); for(int s=0;s<S;s++) for(int j=0;j<N;j++) fl(q)->begin(s)[j]=fl(r)->begin(s)[j]; } FileWF f; f.Name("again"); f.FormatOut(fmt?FileWF::stream:FileWF::binary); f << q; FileWF g; g.Name("again"); WaveFunction*t; g >> &t; sym_assert((int)fl(t)->lsize()==N&&(int)fl(t)->strides()==S,"the size survives a second file"); Snap c(fl(w)); wfclose(fl(t),c,0,"the values survive a second file"); WFGridSystem*x=dynamic_cast<WFGridSystem*>(t),*y=dynamic_cast<WFGridSystem*>(w); if(y) sym_assert(x&&*(GridSystem*)x==*(GridSystem*)y,"the grid survives a second file"); } } } sym_reach(k==0?"level":k==1?"grid":"multi"); }
  if(what==1){ int fmt=sym_pick("format",0,1); int k=sym_pick("kind",0,1); if(k==0){ int n=sym_pick("n",1,3); ParamContainer p; p.SetValue("size",n); OHermitianMatrix m,q; m.Init(p); for(int i=0;i<n;i++) for(int j=0;j<n;j++) m(i,j)=i>=j?sym_double(nm("m",i*n+j).c_str(),-1,1):m(i,j); for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) m(i,j)=m(j,i); notmagic(&m(0,0),&m(n-1,n-1)); FileSingle<OHermitianMatrix> f; f.Suffix(BINARY_O_SUFFIX); f.Name("mat"); f.FormatOut(fmt?FileSingle<OHermitianMatrix>::binary:FileSingle<OHermitianMatrix>::stream); f << &m; FileSingle<OHermitianMatrix> g; g.Suffix(BINARY_O_SUFFIX); g.Name("mat"); g >> &q; sym_assert(q.rows()==n&&q.cols()==n,"a file gives back the size of the matrix"); for(int i=0;i<n;i++) for(int j=0;j<n;j++) sym_close(q(i,j),m(i,j),0,"a file gives back the matrix that was written"); OHermitianMatrix z; second("m2",&q,fmt,z); sym_assert(z.rows()==n&&z.cols()==n,"a second file gives back the size of the matrix"); for(int i=0;i<n;i++) for(int j=0;j<n;j++) sym_close(z(i,j),m(i,j),0,"a second file gives back the matrix"); sym_reach("matrix"); }
    else { int n=sym_pick("n",1,4); WFGridCartesian*g=n<4?mkgrid(1,n+1):mkgrid(2,2,2); OGridPotential*v=mkpot(g,"V",true),q; notmagic(&(*v)[0],&(*v)[v->size()-1]); FileSingle<OGridPotential> f; f.Suffix(BINARY_O_SUFFIX); f.Name("pot"); f.FormatOut(fmt?FileSingle<OGridPotential>::binary:FileSingle<OGridPotential>::stream); f << v; FileSingle<OGridPotential> h; h.Suffix(BINARY_O_SUFFIX); h.Name("pot"); h >> &q; sym_assert(q.size()==v->size(),"a file gives back the size of the potential"); sym_assert(*(GridSystem*)&q==*(GridSystem*)v,"a file gives back the grid of the potential"); for(int i=0;i<(int)v->size();i++) sym_close(q[i],(*v)[i],0,"a file gives back the potential that was written"); OGridPotential z; second("p2",&q,fmt,z); sym_assert(*(GridSystem*)&z==*(GridSystem*)v&&z.size()==v->size(),"a second file gives back the grid of the potential"); for(int i=0;i<(int)v->size();i++) sym_close(z[i],(*v)[i],0,"a second file gives back the potential"); sym_reach("potential"); } }
  if(what==2){ int fmt=sym_pick("format",0,1),n=sym_pick("n",1,3); QDClock*cl=new QDClock(); double dt=0.0625*sym_pick("dt",1,3); cl->Dt(dt); cl->Steps(n); Laser l,q; l.Dt(dt); l.Nt(n); for(int i=0;i<n;i++) l[i]=sym_double(nm("e",i).c_str(),-1,1); notmagic(&l[0],&l[n-1]); FileSingle<Laser> f; f.Suffix(BINARY_O_SUFFIX); f.Name("las"); f.FormatOut(fmt?FileSingle<Laser>::binary:FileSingle<Laser>::stream); f << &l; FileSingle<Laser> g; g.Suffix(BINARY_O_SUFFIX); g.Name("las"); g >> &q; sym_assert(q.Nt()==n,"a file gives back the length of a field"); sym_close(q.Dt(),dt,0,"a file gives back the time step of a field"); for(int i=0;i<n;i++) sym_close(q[i],l[i],0,"a file gives back the field that was written"); Laser z; second("l2",&q,fmt,z); sym_assert(z.Nt()==n,"a second file gives back the length of a field"); sym_close(z.Dt(),dt,0,"a second file gives back the time step"); for(int i=0;i<n;i++) sym_close(z[i],l[i],0,"a second file gives back the field"); sym_reach("laser"); }
  if(what==3){ // compressed, without loss
    int k=sym_pick("kind",0,2),fmt=sym_pick("format",0,1),bz=sym_pick("method",0,1),form=sym_pick("form",0,1),n=k==0?sym_pick("n",1,3):2;
#ifndef SYM_REPLAY
    zip_worst=sym_pick("incompressible",0,1);
#else
    sym_pick("incompressible",0,1);
#endif
    WaveFunction*w=mk(k,n); symwf(fl(w),"w"); int N=fl(w)->lsize(),S=fl(w)->strides(); Snap a(fl(w)); { FileWF f; f.Name("zip"); f.FormatOut(fmt?FileWF::binary:FileWF::stream); f.Compress(true); f.CompressMethod(bz?FileWF::BZIP:FileWF::ZLIB); f.CompressionTolerance(0); f << w; wfclose(fl(w),a,1e-12,"writing a compressed wave function leaves it alone"); }
    FileWF rd; rd.Name("zip"); WaveFunction*r; if(form==0){ r=mk(k,n); rd >> r; } else rd >> &r; sym_assert((int)fl(r)->lsize()==N&&(int)fl(r)->strides()==S,"a compressed file gives back the size that was written"); wfclose(fl(r),a,1e-12,"a compressed file gives back the wave function that was written"); sym_reach("compressed"); }
}
