//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TEXT 1
//TIME 300 600
//BOUNDS level functions of 1 to 3 amplitudes, grids of 2 and 4 points and of 2x2 points, two states; one real part takes any value in [-2,2], the other numbers are given; tolerances 0, 1/16 and 1/2; single files and sequences of 2 files, stream and raw format, both compression methods
//ASSUME the compression libraries give back what they compressed (their contract is modelled)
//REACH reduced stored inflated refused default
#include "ops.h"
#include "text.h"
#include "vfs.h"
#include "zip.h"
#include "tools/Exception.h"
#include "tools/Getopt.h"
#include "qdlib/FileWF.h"
#include <iostream>
#include <cstdlib>
#include <math.h>
#include <string.h>
#include <unistd.h>
struct Left { int code; };
#define main qdz_main
#define exit(x) throw Left{x}
#include "qdz.cpp"
#undef main
#undef exit
typedef std::vector<dcomplex> CV;
static cVec*fl(WaveFunction*w){ return (cVec*)w; }
static CV val(WaveFunction*w){ CV r; cVec*c=fl(w); for(int s=0;s<(int)c->strides();s++) for(int i=0;i<(int)c->lsize();i++) r.push_back(c->begin(s)[i]); return r; }
static WaveFunction*l2(){ return mklevel(2); } static WaveFunction*g2(){ return mkgrid(1,2); }
static WaveFunction*mk(int k){ switch(k){ case 0: return mklevel(1); case 1: return mklevel(3); case 2: return mkgrid(1,2); case 3: return mkgrid(1,4); case 4: return mkgrid(2,2,2); case 5: return mkmulti(2,l2); } return mkmulti(2,g2); }
static WaveFunction*some(int k,int salt,bool symbol){ WaveFunction*w=mk(k); static const double a[]={0.5,-0.03125,0.25,-1,0.0625,0.75,-0.5,0.015625}; cVec*c=fl(w); int m=salt; for(int s=0;s<(int)c->strides();s++) for(int i=0;i<(int)c->lsize();i++){ c->begin(s)[i]._real=a[m++%8]; c->begin(s)[i]._imag=a[m++%8]; } if(symbol) c->begin(0)[0]._real=sym_double(nm("x",salt).c_str(),-2,2); return w; }
// one part: kept as it was, or zero when it is below the threshold (squared)
static void part(double r,double p,double t2,const char*m){ double d=r-p; if(d>1e-9||d<-1e-9){ sym_close(r,0,1e-9,m); sym_le(p*p,t2,1e-7,m); } if(p*p<t2-1e-6) sym_close(r,0,1e-7,m); }
static void dft(CV&v,int n1,int n2){ CV r(v.size(),dcomplex(0,0)); for(int a=0;a<n1;a++) for(int b=0;b<n2;b++) for(int i=0;i<n1;i++) for(int j=0;j<n2;j++){ int q=(4*a*i/n1+4*b*j/n2)%4; dcomplex z=v[i*n2+j]; dcomplex f=q==0?z:q==1?dcomplex(z._imag,-z._real):q==2?dcomplex(-z._real,-z._imag):dcomplex(-z._imag,z._real); r[a*n2+b]=r[a*n2+b]+f; } v=r; }
// what a function may look like after compression with a tolerance; kinds 5 and 6 state by state
static void within(int k,const CV&o,const CV&r,double tol,const char*m){ sym_assert(o.size()==r.size(),m); if(k>4){ int h=o.size()/2; within(k==5?1:2,CV(o.begin(),o.begin()+h),CV(r.begin(),r.begin()+h),tol,m); within(k==5?1:2,CV(o.begin()+h,o.end()),CV(r.begin()+h,r.end()),tol,m); return; }
  if(tol==0){ for(size_t i=0;i<o.size();i++){ sym_close(r[i]._real,o[i]._real,1e-9,m); sym_close(r[i]._imag,o[i]._imag,1e-9,m); } return; }
  CV p=o,q=r; double t2=0; if(k<2){ for(size_t i=0;i<o.size();i++) t2+=o[i]._real*o[i]._real+o[i]._imag*o[i]._imag; t2=t2*tol*tol/(o.size()*o.size()); }
  else { dft(p,k==4?2:1,k==3?4:2); dft(q,k==4?2:1,k==3?4:2); for(size_t i=0;i<p.size();i++){ double a=p[i]._real*p[i]._real+p[i]._imag*p[i]._imag; if(a>t2) t2=a; } t2*=tol*tol; }
  for(size_t i=0;i<p.size();i++){ part(q[i]._real,p[i]._real,t2,m); part(q[i]._imag,p[i]._imag,t2,m); } }
static const double tols[]={0,0.0625,0.5};
static bool packed; // whether the file read last is compressed
static WaveFunction*readn(int i,bool seq){ FileWF f; f.Name("f"); if(seq){ f.ActivateSequence(); f.Counter(i); } WaveFunction*w; f >> &w; packed=f.GetMeta().header.compression()!=FileSingleHeader_Compression_UNCOMPRESSED; return w; }
static std::string bytes(const char*n){ long l=vfs_size(n); if(l<0) return "-"; std::string s(l,' '); if(l) vfs_get(n,0,&s[0],l); return s; }
static int program(const std::vector<const char*>&a){ char*v[12]; int n=0; v[n++]=strdup("qdz"); for(size_t i=0;i<a.size();i++) v[n++]=strdup(a[i]); v[n]=0; optind=0; try { qdz_main(n,v); } catch(Left&l){ return l.code; } return -1; }
extern "C" void sym_main(){ symtext(); sym_tidy(1); std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
  int what=sym_pick("what",0,3);
  if(what==0){ int k=sym_pick("kind",0,4),ti=sym_pick("tolerance",0,2); WaveFunction*w=some(k,k,true); CV o=val(w); const char*m="reducing a function drops only what is below the tolerance"; WaveFunction*r=w->Reduce(tols[ti]); CV p=val(w); for(size_t i=0;i<o.size();i++){ sym_close(p[i]._real,o[i]._real,1e-9,"reducing a function leaves it alone"); sym_close(p[i]._imag,o[i]._imag,1e-9,"reducing a function leaves it alone"); }
    WaveFunction*b=sym_pick("fresh",0,1)?w->NewInstance():w; b->Restore(r); within(k,o,val(b),tols[ti],m); if(k>1){ WFGridSystem*x=dynamic_cast<WFGridSystem*>(b),*y=dynamic_cast<WFGridSystem*>(w); sym_assert(!x->IsKspace()&&*(GridSystem*)x==*(GridSystem*)y,"a restored function is on its grid"); } sym_reach("reduced"); }
  if(what==1){ // the utility: compress, then inflate
    int k=sym_pick("kind",0,6),fmt=sym_pick("format",0,1),ti=sym_pick("tolerance",0,1)*2,bz=sym_pick("method",0,1); bool seq=sym_pick("series",0,1); int n=seq?2:1; std::vector<CV> o; { FileWF f; f.Name("f"); f.FormatOut(fmt?FileWF::binary:FileWF::stream); if(seq) f.ActivateSequence(); for(int i=0;i<n;i++){ WaveFunction*w=some(k,k+3*i,i==n-1); o.push_back(val(w)); f << w; } }
    Compress("f",seq,tols[ti],5,bz?"j":"z"); std::vector<CV> z; for(int i=0;i<n;i++){ WaveFunction*r=readn(i,seq); sym_assert(packed,"the file is compressed"); z.push_back(val(r)); within(k,o[i],z[i],tols[ti],"a compressed file differs by no more than the tolerance"); } sym_reach("stored");
    const char*name=seq?(k>4&&fmt?"f-0_0.wf":"f_0.wf"):(k>4&&fmt?"f-0.wf":"f.wf"); std::string before=bytes(name); sym_assert(before!="-","the name of a file stays");
    DeCompress("f",seq); const char*m="an inflated file holds what the compressed one did"; for(int i=0;i<n;i++){ WaveFunction*r=readn(i,seq); sym_assert(!packed,"an inflated file is not compressed"); CV v=val(r); sym_assert(v.size()==z[i].size(),m); for(size_t j=0;j<v.size();j++){ sym_close(v[j]._real,z[i][j]._real,1e-9,m); sym_close(v[j]._imag,z[i][j]._imag,1e-9,m); } }
    sym_assert(vfs_size("f_2.wf")<0&&vfs_size("f-0_2.wf")<0,"no files are added to a series"); sym_reach("inflated"); }
  if(what==2){ // refused command lines
    { FileWF f; f.Name("f"); WaveFunction*w=some(1,0,true); f << w; } std::string a=bytes("f.wf"); int bad=sym_pick("bad",0,5); std::vector<const char*> v; switch(bad){ case 0: v={"-t","2","f"}; break; case 1: v={"-l","10","f"}; break; case 2: v={"-m","x","f"}; break; case 3: v={"none"}; break; case 4: v={"-d","none"}; break; case 5: v={"-s","-m","z","none"}; break; }
    sym_assert(program(v)>0,"a bad command line fails"); sym_assert(bytes("f.wf")==a,"a bad command line changes nothing"); sym_reach("refused"); }
  if(what==3){ // command lines
    int c=sym_pick("line",0,4); CV o; { FileWF f; f.Name("f"); if(c==3) f.ActivateSequence(); WaveFunction*w=some(1,0,true); o=val(w); f << w; if(c==3) f << w; } static const char*L[][5]={{"f",0},{"-m","j","f",0},{"-t","0.5","f",0},{"-s","f",0},{"-l","9","-m","z","f"}}; std::vector<const char*> v; for(int i=0;i<5&&L[c][i];i++) v.push_back(L[c][i]);
    sym_assert(program(v)==0,"a good command line succeeds"); /*1*/ CV z=val(readn(1,c==3)); within(1,o,z,c==2?0.5:1e-5,"a compressed file differs by no more than the tolerance"); sym_assert(packed,"the file is compressed");
    v.clear(); v.push_back("-d"); if(c==3) v.push_back("-s"); v.push_back("f"); sym_assert(program(v)==0,"a good command line succeeds"); CV y=val(readn(1,c==3)); for(size_t j=0;j<y.size();j++){ sym_close(y[j]._real,z[j]._real,1e-9,"an inflated file holds what the compressed one did"); sym_close(y[j]._imag,z[j]._imag,1e-9,"an inflated file holds what the compressed one did"); } sym_assert(!packed,"an inflated file is not compressed"); sym_reach("default"); }
}
