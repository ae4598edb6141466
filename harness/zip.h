// contract of the compression libraries: decompression gives back what was compressed, a compressed block has any size up to the
// library's bound, chunks have any size, damaged blocks are refused
#ifndef ZIP_H
#define ZIP_H
#include "sym.h"
#include <zlib.h>
#include <bzlib.h>
#include <string.h>
#include <stdlib.h>
#include <google/protobuf/io/gzip_stream.h>
#ifndef SYM_REPLAY
struct ZBlk { char*d; long n; }; static ZBlk zb[64]; static int nzb; struct ZTok { char m[4]; int id; int n; }; static int zip_worst=0; // 1: blocks are as large as the bound allows
static int zput(const char*d,long n){ if(nzb==64){ sym_note("incomplete: too many compressed blocks"); sym_end(); } zb[nzb].d=(char*)malloc(n+1); memcpy(zb[nzb].d,d,n); zb[nzb].n=n; return nzb++; }
static int zget(const char*p,long n){ ZTok t; if(n<(long)sizeof t) return -1; memcpy(&t,p,sizeof t); if(memcmp(t.m,"x\234GZ",4)||t.id<0||t.id>=nzb) return -1; return t.id; }
static void ztok(char*p,int id){ ZTok t; memcpy(t.m,"x\234GZ",4); t.id=id; t.n=zb[id].n; memcpy(p,&t,sizeof t); }
typedef google::protobuf::io::ZeroCopyOutputStream ZOS; typedef google::protobuf::io::ZeroCopyInputStream ZIS;
struct ZO { void*g; ZOS*o; char*d; long n,cap; bool done; }; struct ZI { void*g; ZIS*i; int id; long pos; bool bad; }; static ZO zo[16]; static ZI zi[16];
static ZO*ofo(void*g){ for(int i=0;i<16;i++) if(zo[i].g==g) return &zo[i]; return 0; } static ZI*ofi(void*g){ for(int i=0;i<16;i++) if(zi[i].g==g) return &zi[i]; return 0; }
extern "C" {
void symm__ZN6google8protobuf2io16GzipOutputStream7OptionsC1Ev(google::protobuf::io::GzipOutputStream::Options*o){ memset((void*)o,0,sizeof *o); }
void symm__ZN6google8protobuf2io16GzipOutputStreamC1EPNS1_20ZeroCopyOutputStreamERKNS2_7OptionsE(void*g,ZOS*o,void*){ ZO*z=ofo(0); z->g=g; z->o=o; z->d=(char*)malloc(4096); z->n=0; z->cap=4096; z->done=false; }
bool symm__ZN6google8protobuf2io16GzipOutputStream4NextEPPvPi(void*g,void**p,int*n){ ZO*z=ofo(g); if(z->n+48>z->cap){ sym_note("incomplete: large compressed block"); sym_end(); } *p=z->d+z->n; *n=48; z->n+=48; return true; }
void symm__ZN6google8protobuf2io16GzipOutputStream6BackUpEi(void*g,int n){ ofo(g)->n-=n; }
bool symm__ZN6google8protobuf2io16GzipOutputStream5CloseEv(void*g){ ZO*z=ofo(g); if(z->done) return false; z->done=true; int id=zput(z->d,z->n); char t[sizeof(ZTok)]; ztok(t,id); long w=0; while(w<(long)sizeof t){ void*p; int k; if(!z->o->Next(&p,&k)) return false; long c=sizeof t-w<(size_t)k?sizeof t-w:k; memcpy(p,t+w,c); w+=c; if(c<k) z->o->BackUp(k-c); } return true; }
void symm__ZN6google8protobuf2io16GzipOutputStreamD1Ev(void*g){ ZO*z=ofo(g); if(z){ if(!z->done) symm__ZN6google8protobuf2io16GzipOutputStream5CloseEv(g); free(z->d); z->g=0; } }
void symm__ZN6google8protobuf2io15GzipInputStreamC1EPNS1_19ZeroCopyInputStreamENS2_6FormatEi(void*g,ZIS*i,int,int){ ZI*z=ofi(0); z->g=g; z->i=i; z->id=-1; z->pos=0; z->bad=false; }
bool symm__ZN6google8protobuf2io15GzipInputStream4NextEPPKvPi(void*g,const void**p,int*n){ ZI*z=ofi(g); if(z->bad) return false; if(z->id<0){ char t[sizeof(ZTok)]; long w=0; const void*q; int k; while(w<(long)sizeof t&&z->i->Next(&q,&k)){ long c=sizeof t-w<(size_t)k?sizeof t-w:k; memcpy(t+w,q,c); w+=c; } z->id=zget(t,w); if(z->id<0){ z->bad=true; return false; } } ZBlk&b=zb[z->id]; if(z->pos>=b.n) return false; long c=b.n-z->pos<20?b.n-z->pos:20; *p=b.d+z->pos; *n=c; z->pos+=c; return true; }
void symm__ZN6google8protobuf2io15GzipInputStreamD1Ev(void*g){ ZI*z=ofi(g); if(z) z->g=0; }
static const z_stream*zdummy;
int symm_deflateInit_(z_stream*,int,const char*,int){ return Z_OK; }
int symm_deflate(z_stream*s,int){ int id=zput((const char*)s->next_in,s->avail_in); long c=zip_worst?s->avail_in+11:sizeof(ZTok); if(c<(long)sizeof(ZTok)) c=sizeof(ZTok); if(s->avail_out<c) return Z_OK; ztok((char*)s->next_out,id); s->next_out+=c; s->avail_out-=c; s->next_in+=s->avail_in; s->avail_in=0; s->total_out=c; return Z_STREAM_END; }
int symm_deflateEnd(z_stream*){ return Z_OK; }
int symm_inflateInit_(z_stream*,const char*,int){ return Z_OK; }
int symm_inflate(z_stream*s,int){ int id=zget((const char*)s->next_in,s->avail_in); if(id<0) return Z_DATA_ERROR; ZBlk&b=zb[id]; long c=b.n<(long)s->avail_out?b.n:s->avail_out; memcpy(s->next_out,b.d,c); s->next_out+=c; s->avail_out-=c; s->total_out=c; return c==b.n?Z_STREAM_END:Z_BUF_ERROR; }
int symm_inflateEnd(z_stream*){ return Z_OK; }
unsigned long symm_compressBound(unsigned long n){ return n+(n>>12)+(n>>14)+(n>>25)+13; }
unsigned long symm_deflateBound(z_stream*,unsigned long n){ return n+(n>>12)+(n>>14)+(n>>25)+13; }
int symm_BZ2_bzCompressInit(bz_stream*,int,int,int){ return BZ_OK; }
int symm_BZ2_bzCompress(bz_stream*s,int){ int id=zput(s->next_in,s->avail_in); long c=zip_worst?s->avail_in+s->avail_in/100+600:sizeof(ZTok); if(s->avail_out<c) return BZ_FINISH_OK; ztok(s->next_out,id); s->next_out+=c; s->avail_out-=c; s->next_in+=s->avail_in; s->avail_in=0; return BZ_STREAM_END; }
int symm_BZ2_bzCompressEnd(bz_stream*){ return BZ_OK; }
int symm_BZ2_bzDecompressInit(bz_stream*,int,int){ return BZ_OK; }
int symm_BZ2_bzDecompress(bz_stream*s){ int id=zget(s->next_in,s->avail_in); if(id<0) return BZ_DATA_ERROR_MAGIC; ZBlk&b=zb[id]; long c=b.n<(long)s->avail_out?b.n:s->avail_out; memcpy(s->next_out,b.d,c); s->next_out+=c; s->avail_out-=c; s->total_out_lo32=c; s->total_out_hi32=0; return c==b.n?BZ_STREAM_END:BZ_OK; }
int symm_BZ2_bzDecompressEnd(bz_stream*){ return BZ_OK; }
}
#endif
#endif
