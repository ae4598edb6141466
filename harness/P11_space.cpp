//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TIME 300 600
//BOUNDS level functions of 1-3 states, grids 4, 2x2, 3x2 and 2x3x2, multistate functions of 2-3 states of both kinds; all amplitudes in [-1,1]; teams of 1 and 3 threads for the grid inner product; up to 64 states added to a multistate function
//REACH inner norm algebra mismatch integral multi threads assign
#include "h.h"
static WaveFunction*l2(){ return mklevel(2); } static WaveFunction*g3(){ return mkgrid(1,3); }
static const char*KN[]={"level 1","level 3","grid 4","grid 2x2","grid 3x2","grid 2x3x2","multistate level 2","multistate level 3","multistate grid 2"};
static WaveFunction*mkwf(int k){ switch(k){ case 0: return mklevel(1); case 1: return mklevel(3); case 2: return mkgrid(1,4); case 3: return mkgrid(2,2,2); case 4: return mkgrid(2,3,2); case 5: return mkgrid(3,2,3,2); case 6: return mkmulti(2,l2); case 7: return mkmulti(3,l2); default: return mkmulti(2,g3); } }
static double vol(int k){ double v=1; static const int N[][3]={{4,0,0},{2,2,0},{3,2,0},{2,3,2}}; if(k>=2&&k<=5) for(int d=0;d<3&&N[k-2][d];d++) v*=(GHI[d]-GLO[d])/(N[k-2][d]-1); if(k==8) v*=(GHI[0]-GLO[0])/2; return v; }
static dcomplex ref(const Snap&a,const Snap&b,double v){ dcomplex r(0,0); for(size_t i=0;i<a.v.size();i++) r=r+a.v[i].conj()*b.v[i]; return r*v; }
extern "C" void sym_main(){
  int what=sym_pick("what",0,6);
  if(what==5){ // many states
    WFMultistate*m=new WFMultistate(); int i,n=sym_pick("states",1,3),lim=0; WaveFunction*w=mklevel(1);
    for(i=0;i<QD_MAX_STATES;i++){ try{ m->Add(mklevel(1),i); lim++; }catch(Exception&e){ break; } }
    sym_assert(lim==QD_MAX_STATES,"a multistate function takes as many states as announced"); bool t=false; try{ m->Add(w,QD_MAX_STATES); }catch(Exception&e){ t=true; } sym_assert(t,"one more state is refused");
    WFMultistate*q=new WFMultistate(); int at=sym_pick("at",0,2); q->Add(mklevel(2),at); ParamContainer p; p.SetValue("states",n); q->Init(p); int want=n>at+1?n:at+1; sym_assert(q->States()==want,"missing states are filled in"); for(int s=0;s<q->States();s++) sym_assert(q->State(s)!=0 && q->State(s)->size()==2,"filled-in states have the size of the given one");
    sym_assert(q->strides()==want && q->size()==2*want,"the multistate function spans all its states");
    symwf(q,"q"); for(int s=0;s<want;s++) for(int j=0;j<2;j++) zclose(q->begin(s)[j],q->State(s)->begin(0)[j],0,"the states are the parts of the multistate function");
    { WFMultistate*r=new WFMultistate(); r->Add(mklevel(1),0); ParamContainer p2; int big=sym_pick("toomany",0,1)?65:1000; p2.SetValue("states",big); t=false; try{ r->Init(p2); }catch(Exception&x){ t=true; } sym_assert(t,"too many requested states are refused"); } WFMultistate*e=new WFMultistate(); t=false; try{ e->Init(p); }catch(Exception&x){ t=true; } sym_assert(t,"an empty multistate function is refused"); sym_reach("multi"); sym_end(); }
  if(what==6){ sym_omp(3,1); int k=sym_pick("kind",2,4); WaveFunction*a=mkwf(k),*b=mkwf(k); symwf(a,"a"); symwf(b,"b"); zclose(*a*b,ref(Snap(a),Snap(b),vol(k)),1e-9,"inner product with three threads"); WFGridCartesian*g=(WFGridCartesian*)a; dcomplex s(0,0); for(int i=0;i<g->size();i++) s=s+g->begin(0)[i]; zclose(g->Integral(),s*vol(k),1e-9,"integral with three threads"); sym_reach("threads"); sym_end(); }
  int k=sym_pick("kind",0,8); std::string n=std::string(KN[k])+": "; WaveFunction*a=mkwf(k),*b=mkwf(k),*c=mkwf(k); symwf(a,"a"); symwf(b,"b"); Snap sa(a),sb(b); double v=vol(k);
  if(what==0){ dcomplex ab=*a*b,ba=*b*a; zclose(ab,ref(sa,sb,v),1e-9,(n+"inner product is the volume-weighted sum of conj(a) b").c_str()); zclose(ba,ab.conj(),1e-9,(n+"inner product is conjugate symmetric").c_str()); wfclose(a,sa,0,"the inner product leaves its arguments alone"); wfclose(b,sb,0,"the inner product leaves its arguments alone"); sym_reach("inner"); }
  if(what==1){ double nn=a->Norm(); sym_close(nn*nn,ref(sa,sa,v).real(),1e-7,(n+"squared norm is the inner product with itself").c_str()); sym_le(0,nn,0,(n+"norm is not negative").c_str());
    setwf(b,conc); b->Normalize(); sym_close(b->Norm(),1,1e-9,(n+"a normalised function has norm one").c_str()); Snap nb(b); Snap o; { WaveFunction*d=mkwf(k); setwf(d,conc); o.take(d); } dcomplex f=nb.v[0]/o.v[0]; for(size_t i=0;i<o.v.size();i++) zclose(nb.v[i],o.v[i]*f,1e-9,(n+"normalising only scales").c_str()); sym_close(f.imag(),0,1e-9,"normalising keeps the phase");
    { WaveFunction*d=mkwf(k); setwf(d,conc); double e=sym_double("e",0,1); for(int t=d->strides()>1?1:0;t<d->strides();t++) for(int i=d->strides()>1?0:1;i<d->lsize();i++) d->begin(t)[i]=d->begin(t)[i]*e; Snap q(d); d->Normalize(); Snap g(d); for(size_t i=1;i<q.v.size();i++) zclose(g.v[i]*q.v[0],g.v[0]*q.v[i],1e-9,(n+"normalising scales weakly populated parts like the others").c_str()); }
    sym_reach("norm"); }
  if(what==2){ dcomplex s=symc("s"); double r=sym_double("r",-1,1); Snap w=sa;
    *c=b; wfclose(c,sb,0,(n+"assignment copies").c_str()); *c+=a; for(size_t i=0;i<w.v.size();i++) w.v[i]=sa.v[i]+sb.v[i]; wfclose(c,w,1e-12,(n+"+= adds").c_str()); *c-=b; wfclose(c,sa,1e-12,(n+"-= subtracts").c_str());
    *c*=s; for(size_t i=0;i<w.v.size();i++) w.v[i]=sa.v[i]*s; wfclose(c,w,1e-12,(n+"multiplication by a complex number").c_str()); *c=a; *c*=r; for(size_t i=0;i<w.v.size();i++) w.v[i]=sa.v[i]*r; wfclose(c,w,1e-12,(n+"multiplication by a real number").c_str());
    WaveFunction*d=*a+b; for(size_t i=0;i<w.v.size();i++) w.v[i]=sa.v[i]+sb.v[i]; wfclose(d,w,1e-12,(n+"sum of two functions").c_str()); wfclose(a,sa,0,(n+"operands are left alone").c_str()); wfclose(b,sb,0,(n+"operands are left alone").c_str());
    *c=a; c->DirectProduct(b); for(size_t i=0;i<w.v.size();i++) w.v[i]=sa.v[i]*sb.v[i]; wfclose(c,w,1e-12,(n+"direct product").c_str()); d=DirectProduct(a,b); wfclose(d,w,1e-12,(n+"direct product of two").c_str());
    *c=a; c->DirectProductConjugate(b); for(size_t i=0;i<w.v.size();i++) w.v[i]=sa.v[i].conj()*sb.v[i]; wfclose(c,w,1e-12,(n+"conjugate direct product").c_str()); d=DirectProductConjugate(a,b); wfclose(d,w,1e-12,(n+"conjugate direct product of two").c_str());
    *c=a; c->Real(); for(size_t i=0;i<w.v.size();i++) w.v[i]=dcomplex(sa.v[i].real(),0); wfclose(c,w,0,(n+"real part").c_str()); *c=a; c->Imag(); for(size_t i=0;i<w.v.size();i++) w.v[i]=dcomplex(sa.v[i].imag(),0); wfclose(c,w,0,(n+"imaginary part").c_str());
    *(cVec*)c=dcomplex(0.5,-1); for(auto&x:w.v) x=dcomplex(0.5,-1); wfclose(c,w,0,(n+"assigning a number sets every element").c_str()); sym_reach("algebra"); }
  if(what==3){ int q=sym_pick("other",0,8); if(q==k) sym_end(); WaveFunction*o=mkwf(q); symwf(o,"o"); bool same=o->size()==a->size();
    bool t=false; if(!same){ try{ *a+=o; }catch(Exception&e){ t=true; } sym_assert(t,(n+"functions of another size are refused by +=").c_str()); t=false; try{ *a-=o; }catch(Exception&e){ t=true; } sym_assert(t,(n+"functions of another size are refused by -=").c_str()); }
    static const int cls[]={0,0,1,1,1,1,2,2,2}; if(cls[k]!=cls[q] || (cls[k]==2 && ((WFMultistate*)a)->States()!=((WFMultistate*)o)->States())){ t=false; try{ *a=o; }catch(Exception&e){ t=true; } sym_assert(t,(n+"assignment of another kind is refused").c_str()); wfclose(a,sa,0,(n+"a refused assignment changes nothing").c_str()); }
    sym_reach("mismatch"); }
  if(what==4){ if(k>=2&&k<=5){ WFGridCartesian*g=(WFGridCartesian*)a; dcomplex s(0,0); for(auto&x:sa.v) s=s+x; zclose(g->Integral(),s*v,1e-9,(n+"integral is the volume-weighted sum").c_str()); sym_reach("integral"); }
    // copies and new instances are independent
    WaveFunction*d=a->NewInstance(); sym_assert(d->size()==a->size()&&d->strides()==a->strides(),(n+"a new instance has the same shape").c_str()); *d=a; symwf(a,"z"); wfclose(d,sa,0,(n+"a copy does not change with the original").c_str()); DELETE_WF(a); wfclose(d,sa,0,(n+"a copy outlives the original").c_str()); *d*=2.0; DELETE_WF(d); sym_reach("assign"); }
}
