#pragma once
// helpers of the harnesses that run whole programs from their XML description
#include "ops.h"
#include "text.h"
#include "vfs.h"
#include "ChainLoader.h"
#include "GlobalOpList.h"
#include "tools/XmlParser.h"
#include "tools/FileSingle.h"
#include "tools/Logger.h"
#include "qdlib/FileWF.h"
#include "qdlib/OCheby.h"
#include "expm.h"
typedef std::string S;
static XmlNode*X(const S&s){ XmlParser*p=new XmlParser(); p->Parse(s.c_str(),(int)s.size()); return &p->Root(); }
static void putmat(OHermitianMatrix*m,const char*n){ FileSingle<OHermitianMatrix> f; f.Suffix(BINARY_O_SUFFIX); f.Name(n); f << m; }
static void putwf(WaveFunction*w,const char*n){ FileWF f; f.Name(n); f << w; }
static WaveFunction*l2(){ return mklevel(2); }
static CV fv(WaveFunction*w){ int n=total(w); CV r(n,dcomplex(0,0)); for(int i=0;i<n;i++) r[i]=at(w,i); return r; }
static CM cm(OHermitianMatrix*m,int copies){ CM r=zero(2*copies); for(int c=0;c<copies;c++) for(int i=0;i<2;i++) for(int j=0;j<2;j++) r[2*c+i][2*c+j]=dcomplex((*m)(i,j),0); return r; }
static CV mv(const CM&m,const CV&v){ CV r(v.size(),dcomplex(0,0)); for(size_t i=0;i<v.size();i++) for(size_t j=0;j<v.size();j++) r[i]+=m[i][j]*v[j]; return r; }
static dcomplex dot(const CV&a,const CV&b){ dcomplex s(0,0); for(size_t i=0;i<a.size();i++) s+=a[i].conj()*b[i]; return s; }
static S el(const S&n,const S&a,const S&in=""){ return "<"+n+" "+a+">"+in+"</"+n+">"; }
static S num(double d){ std::ostringstream s; s << d; return s.str(); }
static void same(const CV&a,const CV&b,const char*m){ sym_assert(a.size()==b.size(),m); for(size_t i=0;i<a.size();i++){ sym_close(a[i]._real,b[i]._real,1e-7,m); sym_close(a[i]._imag,b[i]._imag,1e-7,m); } }
// the numbers of a table: header line, then all numbers of each line (separated by anything that does not belong to a number)
struct Table { std::vector<S> head; std::vector<std::vector<double> > row; };
static Table table(const char*name,bool header=true){ Table t; std::ifstream f(name); sym_assert(f.is_open(),"the table is written"); S l; if(header){ std::getline(f,l); std::istringstream h(l); S w; while(h >> w) t.head.push_back(w); }
  while(std::getline(f,l)){ if(l.empty()) break; std::vector<double> r; S w; for(size_t i=0;i<=l.size();i++){ char c=i<l.size()?l[i]:' '; if((c>='0'&&c<='9')||c=='+'||c=='-'||c=='.'||c=='e'||c=='E') w+=c; else if(!w.empty()){ std::istringstream n(w); double d; n >> d; r.push_back(d); w=""; } } t.row.push_back(r); } return t; }
static CV readwf(const S&n){ FileWF f; f.Name(n); WaveFunction*r; f >> &r; return fv(r); }
// the matrices of all steps of a propagation, by the same propagator on all unit vectors
static std::vector<CM> steps(const S&prop,WaveFunction*like,double dt,int N,bool imag=false){ QDClock*c=new QDClock(); c->Dt(dt); c->Steps(N); c->Begin(); OPropagator*U=ChainLoader::LoadPropagator(X(prop)); U->Clock(c); if(imag){ U->ImaginaryTime(); U->Backward(); } WaveFunction*w=like->NewInstance(); int n=total(w); for(int i=0;i<n;i++) at(w,i)=conc(i); U->Init(w); std::vector<CM> r; for(int k=0;k<N;k++){ CM M=zero(n); for(int j=0;j<n;j++){ for(int i=0;i<n;i++) at(w,i)=dcomplex(i==j,0); U->Apply(w); for(int i=0;i<n;i++) M[i][j]=at(w,i); } r.push_back(M); ++(*c); } return r; }
static int TIER(){ const char*t=getenv("SYM_TIER"); return t&&*t=='1'; }
static void laserfile(int N,double dt){ Laser l; l.Dt(dt); l.Nt(N); for(int i=0;i<N;i++) l[i]=0.5-0.4*i; FileSingle<Laser> f; f.Suffix(BINARY_O_SUFFIX); f.Name("las"); f << &l; }
