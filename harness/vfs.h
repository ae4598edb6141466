// files in memory: the system calls below the library's file streams. A file can end early, the space for writing can run out.
#ifndef VFS_H
#define VFS_H
#include "sym.h"
#include <fstream>
#include <string.h>
#include <stdlib.h>
#ifdef SYM_REPLAY
#include <unistd.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/resource.h>
static void vfs_truncate(const char*n,long l){ if(truncate(n,l)) abort(); }
static long vfs_size(const char*n){ struct stat s; return stat(n,&s)?-1:(long)s.st_size; }
static void vfs_full(long l){ signal(SIGXFSZ,SIG_IGN); struct rlimit r; getrlimit(RLIMIT_FSIZE,&r); r.rlim_cur=l<0?r.rlim_max:l; setrlimit(RLIMIT_FSIZE,&r); }
static void vfs_remove(const char*n){ unlink(n); }
static void vfs_poke(const char*n,long at,const char*b,long l){ std::fstream f(n,std::ios::in|std::ios::out|std::ios::binary); f.seekp(at); f.write(b,l); }
static void vfs_get(const char*n,long at,char*b,long l){ std::ifstream f(n,std::ios::binary); f.seekg(at); f.read(b,l); }
#include <glob.h>
static int vfs_count(const char*prefix){ glob_t g; std::string p=std::string(prefix)+"*"; int r=glob(p.c_str(),0,0,&g)==0?(int)g.gl_pathc:0; globfree(&g); return r; }
static std::string vfs_name(const char*prefix){ glob_t g; std::string p=std::string(prefix)+"*",r; if(glob(p.c_str(),0,0,&g)==0&&g.gl_pathc) r=g.gl_pathv[0]; globfree(&g); return r; }
#else
struct VFile { char name[64]; char*d; long n,cap; bool on; }; struct VHandle { int f; long pos; bool on,app; };
static VFile vf[40]; static VHandle vh[40]; static long vfs_limit=-1; // largest size of a file, -1: no limit
static const char*vfs_n(const char*n){ while(n[0]=='.'&&n[1]=='/') n+=2; return n; }
static int vfs_find(const char*n){ n=vfs_n(n); for(int i=0;i<40;i++) if(vf[i].on&&!strcmp(vf[i].name,n)) return i; return -1; }
static void vfs_truncate(const char*n,long l){ int i=vfs_find(n); if(i<0) sym_fail("vfs: no such file"); vf[i].n=l; }
static long vfs_size(const char*n){ int i=vfs_find(n); return i<0?-1:vf[i].n; }
static void vfs_full(long l){ vfs_limit=l; }
static void vfs_remove(const char*n){ int i=vfs_find(n); if(i>=0) vf[i].on=false; }
static void vfs_poke(const char*n,long at,const char*b,long l){ int i=vfs_find(n); memcpy(vf[i].d+at,b,l); }
static void vfs_get(const char*n,long at,char*b,long l){ int i=vfs_find(n); memcpy(b,vf[i].d+at,l); }
static int vfs_count(const char*prefix){ int k=0; for(int i=0;i<40;i++) if(vf[i].on&&!strncmp(vf[i].name,prefix,strlen(prefix))) k++; return k; }
static std::string vfs_name(const char*prefix){ for(int i=0;i<40;i++) if(vf[i].on&&!strncmp(vf[i].name,prefix,strlen(prefix))) return vf[i].name; return ""; }
struct VBF { long h; bool own; };
#include <errno.h>
extern "C" {
int symm_remove(const char*n){ int i=vfs_find(n); if(i<0){ errno=ENOENT; return -1; } vf[i].on=false; return 0; }
int symm_unlink(const char*n){ return symm_remove(n); }
void symm__ZNSt12__basic_fileIcEC1EP15pthread_mutex_t(VBF*b,void*){ b->h=0; b->own=false; }
void symm__ZNSt12__basic_fileIcEC2EP15pthread_mutex_t(VBF*b,void*){ b->h=0; b->own=false; }
VBF*symm__ZNSt12__basic_fileIcE5closeEv(VBF*b){ if(!b->h) return 0; vh[b->h-1].on=false; b->h=0; return b; }
void symm__ZNSt12__basic_fileIcED1Ev(VBF*b){ symm__ZNSt12__basic_fileIcE5closeEv(b); }
void symm__ZNSt12__basic_fileIcED2Ev(VBF*b){ symm__ZNSt12__basic_fileIcE5closeEv(b); }
VBF*symm__ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei(VBF*b,const char*n,int mode,int){ if(b->h) return 0; bool out=mode&(std::ios::out|std::ios::app),in=mode&std::ios::in; int i=vfs_find(n); if(i<0){ if(!out||(in&&!(mode&(std::ios::trunc|std::ios::app)))) return 0; for(i=0;i<40&&vf[i].on;i++); if(i==40||strlen(n)>60) { sym_note("incomplete: too many files"); sym_end(); } vf[i].on=true; strcpy(vf[i].name,vfs_n(n)); vf[i].n=0; vf[i].cap=0; vf[i].d=0; } else if((out&&!in&&!(mode&std::ios::app))||(mode&std::ios::trunc)) vf[i].n=0;
  int h=0; while(h<40&&vh[h].on) h++; if(h==40) { sym_note("incomplete: too many handles"); sym_end(); } vh[h].on=true; vh[h].f=i; vh[h].pos=0; vh[h].app=mode&std::ios::app; b->h=h+1; return b; }
bool symm__ZNKSt12__basic_fileIcE7is_openEv(VBF*b){ return b->h!=0; }
int symm__ZNSt12__basic_fileIcE2fdEv(VBF*b){ return b->h+1000; }
long symm__ZNSt12__basic_fileIcE6xsgetnEPcl(VBF*b,char*p,long n){ VHandle&h=vh[b->h-1]; VFile&f=vf[h.f]; long a=f.n-h.pos; if(a<=0) return 0; if(n<=a) a=n; memcpy(p,f.d+h.pos,a); h.pos+=a; return a; }
long symm__ZNSt12__basic_fileIcE6xsputnEPKcl(VBF*b,const char*p,long n){ VHandle&h=vh[b->h-1]; VFile&f=vf[h.f]; if(h.app) h.pos=f.n; if(vfs_limit>=0){ long a=vfs_limit-h.pos; if(a<n) n=a<0?0:a; } if(n<=0) return 0; if(h.pos+n>f.cap){ long c=(h.pos+n)*2+64; char*d=(char*)malloc(c); memset(d,0,c); if(f.n) memcpy(d,f.d,f.n); f.d=d; f.cap=c; } memcpy(f.d+h.pos,p,n); h.pos+=n; if(h.pos>f.n) f.n=h.pos; return n; }
long symm__ZNSt12__basic_fileIcE8xsputn_2EPKclS2_l(VBF*b,const char*p,long n,const char*q,long m){ long a=symm__ZNSt12__basic_fileIcE6xsputnEPKcl(b,p,n); if(a<n) return a; return n+symm__ZNSt12__basic_fileIcE6xsputnEPKcl(b,q,m); }
long symm__ZNSt12__basic_fileIcE7seekoffElSt12_Ios_Seekdir(VBF*b,long o,int w){ VHandle&h=vh[b->h-1]; long p=w==std::ios::beg?o:w==std::ios::cur?h.pos+o:vf[h.f].n+o; if(p<0) return -1; h.pos=p; return p; }
int symm__ZNSt12__basic_fileIcE4syncEv(VBF*){ return 0; }
long symm__ZNSt12__basic_fileIcE9showmanycEv(VBF*b){ return vf[vh[b->h-1].f].n-vh[b->h-1].pos; }
}
#endif
#endif
