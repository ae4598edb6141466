// common pieces of the harnesses
#ifndef H_H
#define H_H
#include "sym.h"
#include <stdio.h>
#include <string>
#include "tools/Exception.h"
#include "tools/QDClock.h"
#include "tools/GlobalParams.h"
#include "qdlib/WFGridCartesian.h"
#include "qdlib/WFLevel.h"
#include "qdlib/WFMultistate.h"
using namespace QDLIB;
static std::string nm(const char*p,int i,const char*s=""){ char b[64]; snprintf(b,64,"%s%d%s",p,i,s); return b; }
static dcomplex symc(const std::string&n,double lim=1){ double r=sym_double((n+"r").c_str(),-lim,lim); return dcomplex(r,sym_double((n+"i").c_str(),-lim,lim)); }
static void symwf(cVec*w,const std::string&n,double lim=1){ int k=0; for(int s=0;s<w->strides();s++) for(lint i=0;i<w->lsize();i++) w->begin(s)[i]=symc(nm(n.c_str(),k++),lim); }
static void setwf(cVec*w,dcomplex (*f)(int)){ int k=0; for(int s=0;s<w->strides();s++) for(lint i=0;i<w->lsize();i++) w->begin(s)[i]=f(k++); }
static dcomplex conc(int k){ return dcomplex(0.3+0.17*((k*7)%5)-0.05*k,0.4-0.11*((k*3)%7)+0.02*k); }
static dcomplex conc2(int k){ return dcomplex(0.13*((k*5)%11)-0.5,0.21*((k*2)%5)-0.31); }
struct Snap { std::vector<dcomplex> v; Snap(){} Snap(cVec*w){ take(w); } void take(cVec*w){ v.clear(); for(int s=0;s<w->strides();s++) for(lint i=0;i<w->lsize();i++) v.push_back(w->begin(s)[i]); } };
static void zclose(dcomplex a,dcomplex b,double tol,const char*msg){ sym_close(a.real(),b.real(),tol,msg); sym_close(a.imag(),b.imag(),tol,msg); }
static void wfclose(cVec*a,const Snap&b,double tol,const char*msg){ size_t k=0; for(int s=0;s<a->strides();s++) for(lint i=0;i<a->lsize();i++,k++){ if(k>=b.v.size()){ sym_fail(msg); return; } zclose(a->begin(s)[i],b.v[k],tol,msg); } if(k!=b.v.size()) sym_fail(msg); }
static void snclose(const Snap&a,const Snap&b,double tol,const char*msg){ if(a.v.size()!=b.v.size()){ sym_fail(msg); return; } for(size_t k=0;k<a.v.size();k++) zclose(a.v[k],b.v[k],tol,msg); }
static WFLevel*mklevel(int n){ ParamContainer p; p.SetValue("size",n); WFLevel*w=new WFLevel(); w->Init(p); return w; }
static void gridparams(ParamContainer&p,int dims,const int*n,const double*lo,const double*hi){ p.SetValue("dims",dims); for(int i=0;i<dims;i++){ p.SetValue(nm("N",i),n[i]); p.SetValue(nm("xmin",i),lo[i]); p.SetValue(nm("xmax",i),hi[i]); } }
static const double GLO[4]={-5,-2,0,1},GHI[4]={5,6,3,4};
static WFGridCartesian*mkgrid(int dims,int n0,int n1=1,int n2=1){ int n[3]={n0,n1,n2}; ParamContainer p; gridparams(p,dims,n,GLO,GHI); WFGridCartesian*w=new WFGridCartesian(); w->Init(p); *(cVec*)w=dcomplex(0,0); return w; }
static WFMultistate*mkmulti(int states,WaveFunction*(*f)()){ WFMultistate*m=new WFMultistate(); for(int i=0;i<states;i++) m->Add(f(),i); ParamContainer p; p.SetValue("states",states); m->Init(p); return m; }
// the same content as w in a new object
static WaveFunction*dup(WaveFunction*w){ WaveFunction*r=w->NewInstance(); *r=w; return r; }
#endif
