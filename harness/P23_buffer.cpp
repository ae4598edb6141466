//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TEXT 1
//TIME 300 600
//BOUNDS buffers of 4 positions with room for 2 to 4 functions in memory (any number of bytes in between), every sequence of 3 (thorough 4) operations after the first filling, 1 to 3 functions kept for the last accesses, explicit locks; level functions, grids and two states of up to 2 amplitudes with any values; every amount of disk space, every length of a damaged file
//REACH history kinds full damaged files resize
#include "ops.h"
#include "text.h"
#include "vfs.h"
#include "zip.h"
#include "qdlib/FileWF.h"
#include "qdlib/WFBuffer.h"
#include "tools/Exception.h"
#include <algorithm>
#define TMP "QDNG_WFBUFFER_"
static cVec*fl(WaveFunction*w){ return (cVec*)w; }
static WaveFunction*l1(){ return mklevel(1); }
static WaveFunction*mk(int k){ return k==0?mklevel(1):k==1?(WaveFunction*)mkgrid(1,2):mkmulti(2,l1); }
static int fresh_=0;
static WaveFunction*val(int k){ WaveFunction*w=mk(k); symwf(fl(w),nm("w",fresh_++)+"_"); return w; }
static size_t live(){ return Collector<WaveFunction>::Instance()->Elements(); }
struct Ref { Snap v; bool def,lock; WaveFunction*p; bool held; };
static const char*same="the buffer returns what was stored at a position";
static bool in(std::vector<int>&l,int p){ return std::find(l.begin(),l.end(),p)!=l.end(); }
// the functions kept by the last n accesses (distinct positions)
static void access(std::vector<int>&l,int p,size_t n){ auto i=std::find(l.begin(),l.end(),p); if(i!=l.end()) l.erase(i); l.insert(l.begin(),p); if(l.size()>n) l.resize(n); }
static void checkall(WFBuffer&b,std::vector<Ref>&r){ b.AutoLock(1); for(size_t i=0;i<r.size();i++) if(r[i].def) wfclose(fl(b.Get(i)),r[i].v,0,same); }
static void limit(long bytes){ GlobalParams::Instance().SetValue("MaxBufferSize",nm("",(int)bytes)); }
extern "C" void sym_main(){ symtext(); std::cout.setstate(std::ios::failbit); unsetenv("TMPDIR"); const char*tier=getenv("SYM_TIER"); int deep=tier&&*tier=='1';
  int what=sym_pick("what",0,5);
  if(what==0){ // histories
    int room=sym_pick("room",2,4),autol=sym_pick("autolock",1,3),N=4; long bytes=16*room+(room==3?sym_pick("more",0,1)*8:0); limit(bytes); WFBuffer*b=new WFBuffer(); WaveFunction*w0=l1(); b->Init(w0); b->AutoLock(autol); std::vector<Ref> r(N); size_t base=live()-1; std::vector<int> last; std::vector<WaveFunction*> v;
    for(int i=0;i<N;i++){ WaveFunction*w=val(0); base++; r[i].def=true; r[i].lock=r[i].held=false; r[i].p=0; r[i].v=Snap(fl(w)); b->Set(i,w); }
    int ops=sym_pick("ops",3+deep,3+deep); for(int o=0;o<ops;o++){ int kind=sym_pick("op",0,o==ops-1?0:3),pos=sym_pick("pos",0,N-1); std::vector<int> keep; keep.push_back(0); for(int i=1;i<N;i++) if(r[i].lock||in(last,i)) keep.push_back(i); if(kind<2){ std::vector<int> l2=last; access(l2,pos,autol); keep.clear(); keep.push_back(0); for(int i=1;i<N;i++) if(r[i].lock||i==pos||in(l2,i)) keep.push_back(i); }
      bool fits=(long)keep.size()*16<=bytes,bad=false; WaveFunction*nw=0; if(kind==2){ nw=val(0); base++; }
      try { if(kind<2){ WaveFunction*p=b->Get(pos); access(last,pos,autol); r[pos].p=p; wfclose(fl(p),r[pos].v,0,same); if(kind==1){ (*fl(p))[0]=symc(nm("x",fresh_++)); r[pos].v=Snap(fl(p)); } }
        if(kind==2){ b->Set(pos,nw); r[pos].v=Snap(fl(nw)); }
        if(kind==3){ if(r[pos].lock) b->UnLock(pos); else { b->Lock(pos); } r[pos].lock=!r[pos].lock; } } catch(EMemError&e){ bad=true; }
      if(bad){ sym_assert(!fits,"the buffer refuses only what does not fit"); sym_end(); }
      sym_assert(kind==3||(long)(live()-base)*16<=bytes,"the buffer stays within its memory");
      for(int i=0;i<N;i++) if(r[i].p&&in(last,i)) wfclose(fl(r[i].p),r[i].v,0,"a function just accessed stays valid"); else r[i].p=0; }
    for(int i=0;i<N;i++) if(r[i].lock) { b->UnLock(i); r[i].lock=false; }
    checkall(*b,r); delete b; sym_assert(vfs_count(TMP)==0,"the buffer removes its files"); sym_assert(live()==base,"the buffer frees its functions"); sym_reach("history"); }
  if(what==1){ // kinds of wave functions and explicit locks
    int k=sym_pick("kind",0,2); WaveFunction*w=mk(k); long bytes=w->size_bytes(); limit(3*bytes); WFBuffer b; b.Init(w); b.AutoLock(sym_pick("autolock",0,1)); std::vector<Ref> r; int N=5; for(int i=0;i<N;i++){ w=val(k); Ref e; e.def=true; e.lock=e.held=false; e.p=0; e.v=Snap(fl(w)); r.push_back(e); if(sym_pick("add",0,1)==1&&i==(int)b.Size()) b.Add(w); else b.Set(i,w); }
    int pos=sym_pick("lock",1,N-1); WaveFunction*p=b.Get(pos); b.Lock(pos); wfclose(fl(p),r[pos].v,0,same); symwf(fl(p),"y"); r[pos].v=Snap(fl(p)); for(int i=0;i<N;i++){ WaveFunction*q=b[i]; wfclose(fl(q),r[i].v,0,same); } wfclose(fl(p),r[pos].v,0,"a locked function stays valid"); sym_assert(b.Get(pos)==p,"a locked function stays valid"); b.UnLock(pos); checkall(b,r); sym_assert(b.Size()==(size_t)N,"the buffer has one position per function");
    bool bad=false; try { b.Get(N); } catch(Exception&e){ bad=true; } sym_assert(bad,"positions beyond the end are refused"); b.Clear(); sym_assert(vfs_count(TMP)==0,"the buffer removes its files"); bad=false; try { b.Get(0); } catch(Exception&e){ bad=true; } sym_assert(bad,"positions beyond the end are refused"); sym_reach("kinds"); }
  if(what==2){ // no space on the disk
    int k=sym_pick("kind",0,2); WaveFunction*w=mk(k); long bytes=w->size_bytes(); limit(2*bytes); WFBuffer b; b.Init(w); b.AutoLock(1); std::vector<Ref> r(3); for(int i=0;i<2;i++){ w=val(k); r[i].def=true; r[i].v=Snap(fl(w)); b.Set(i,w); } std::string n=vfs_name(TMP); long l=vfs_size(n.c_str()); sym_assert(l>0,"functions beyond the memory are on disk"); bool bad=false; w=val(k); vfs_full(sym_int("space",0,l-1)); try { b.Set(2,w); } catch(EIOError&e){ bad=true; } vfs_full(-1); sym_assert(bad,"a full disk is reported"); r[2].def=false; checkall(b,r); sym_reach("full"); }
  if(what==3){ // damaged buffer files
    int k=sym_pick("kind",0,2); WaveFunction*w=mk(k); long bytes=w->size_bytes(); limit(2*bytes); WFBuffer b; b.Init(w); b.AutoLock(1); for(int i=0;i<2;i++) b.Set(i,val(k)); std::string n=vfs_name(TMP); long l=vfs_size(n.c_str()); vfs_truncate(n.c_str(),sym_int("length",0,l-1)); for(int i=0;i<2;i++){ bool bad=false; try { b.Get(1); } catch(EIOError&e){ bad=true; } sym_assert(bad,"a damaged buffer file is reported"); } sym_reach("damaged"); }
  if(what==4){ // series of files
    limit(16*3); WFBuffer b,c; WaveFunction*w=l1(); b.Init(w); b.AutoLock(1); c.AutoLock(1); int N=4; std::vector<Ref> r(N); for(int i=0;i<N;i++){ w=val(0); r[i].def=true; r[i].v=Snap(fl(w)); b.Set(i,w); } b.SaveToFiles("s"); checkall(b,r); if(sym_pick("used",0,1)) c.Set(5,l1()); int begin=sym_pick("begin",0,2),step=sym_pick("step",1,2),num=sym_pick("num",0,3); if(num==0) num=-1; c.ReadFromFiles("s",begin,step,num); int have=0; std::vector<Ref> q; for(int i=begin;i<N&&(num<0||have<num);i+=step,have++) q.push_back(r[i]); sym_assert(c.Size()==(size_t)have,"a series of files is read completely"); checkall(c,q); sym_reach("files"); }
  if(what==5){ // changed sizes
    int room=sym_pick("room",2,3); limit(16*room); WFBuffer*b=new WFBuffer(); WaveFunction*w=l1(); if(sym_pick("init",0,1)) b->Init(w); b->AutoLock(1); int first=sym_pick("first",0,2),lk=sym_pick("locks",0,1); if(sym_pick("large",0,1)) b->ResizeBuffer(3); std::vector<Ref> r(4); for(auto&e:r) e.def=false; for(int i=first;i<3;i++){ w=val(0); b->Set(i,w); r[i].def=true; r[i].v=Snap(fl(w)); } if(lk) for(int i=1;i<3;i++) if(i<room){ b->Get(i); b->Lock(i); } int n=sym_pick("size",0,4); b->ResizeBuffer(n); sym_assert(b->Size()==(size_t)n,"the buffer has the size it was given"); r.resize(n); for(int i=0;i<n;i++) if(i>=3) r[i].def=false; if(lk) for(int i=1;i<n&&i<3;i++) if(i<room) b->UnLock(i);
    for(int i=0;i<n;i++) if(sym_pick("again",0,1)){ w=val(0); b->Set(i,w); r[i].def=true; r[i].v=Snap(fl(w)); } checkall(*b,r); delete b; sym_assert(vfs_count(TMP)==0,"the buffer removes its files"); sym_reach("resize"); }
}
