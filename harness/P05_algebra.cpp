//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TIME 300 600
//BOUNDS sums, products and grid sums of 1-4 members, projections on 1-3 functions (both signs, and inverse), multistate operators of 2-3 states with every pattern of blocks present (2 states) or chosen patterns (3 states); level systems of 2-3 states and a 4-point grid; all amplitudes and all members' numbers in [-1,1]; member lists up to the limits of 128 (lists) and 16 (grid sums)
//REACH sum product scalar projection gridsum multi2 multi3 nested names limit
#include "ops.h"
typedef std::vector<dcomplex> V;
static V mv(OHermitianMatrix*m,const V&x){ int n=x.size(); V r(n); for(int i=0;i<n;i++){ r[i]=dcomplex(0,0); for(int j=0;j<n;j++) r[i]=r[i]+x[j]*(*m)(i,j); } return r; }
static void addv(V&a,const V&b){ for(size_t i=0;i<a.size();i++) a[i]=a[i]+b[i]; }
static Snap S(const V&v){ Snap s; s.v=v; return s; }
// every way of applying the operator gives want
static void all(Operator*O,WaveFunction*x,const V&want,const char*what){
  WaveFunction*d=x->NewInstance(),*y=dup(x); symwf(d,"junk"); Snap j(d); std::string w=what;
  O->ApplyAdd(d,x); V t=j.v; addv(t,want); wfclose(d,S(t),1e-8,(w+" added to a wave function").c_str());
  O->Apply(d,x); wfclose(d,S(want),1e-8,w.c_str());
  O->Apply(y); wfclose(y,S(want),1e-8,(w+" in place").c_str());
  O->Apply(d,x); wfclose(d,S(want),1e-8,(w+" a second time").c_str());
}
static OHermitianMatrix*nsm(int n,const char*s,int i){ // a real matrix that is not symmetric
  OHermitianMatrix*m=mkmat(n,"",false); for(int a=0;a<n;a++) for(int b=0;b<n;b++) (*m)(a,b)=sym_double(nm((nm(s,i)+"_").c_str(),a*n+b).c_str(),-1,1); return m; }
extern "C" void sym_main(){
  int what=sym_pick("case",0,9); ParamContainer p;
  if(what==0){ int n=sym_pick("members",1,4); WaveFunction*x=mklevel(2); symwf(x,"x"); OSum*s=new OSum(); V want(2,dcomplex(0,0)); V xs=Snap(x).v;
    for(int i=0;i<n;i++){ OHermitianMatrix*m=nsm(2,"M",i); addv(want,mv(m,xs)); s->Add(m); }
    s->Init(x); all(s,x,want,"a sum acts as the sum of its members"); sym_reach("sum"); }
  if(what==1){ int n=sym_pick("members",1,3); WaveFunction*x=mklevel(2); symwf(x,"x"); OProduct*s=new OProduct(); std::vector<OHermitianMatrix*> m;
    for(int i=0;i<n;i++){ m.push_back(nsm(2,"M",i)); s->Add(m[i]); }
    V r=Snap(x).v; for(int i=n-1;i>=0;i--) r=mv(m[i],r);
    s->Init(x); all(s,x,r,"a product acts as its members one after the other, last first");
    WaveFunction*b=mklevel(2); symwf(b,"b"); dcomplex me=s->MatrixElement(b,x),w(0,0); V bs=Snap(b).v; for(int i=0;i<2;i++) w=w+bs[i].conj()*r[i]; zclose(me,w,1e-8,"product matrix element"); sym_reach("product"); }
  if(what==2){ int im=sym_pick("im",0,1); WaveFunction*x=mklevel(3); symwf(x,"x"); p.SetValue("value",1.5); if(im) p.SetValue("im",-0.75); OScalar*s=new OScalar(); s->Init(p); s->Init(x);
    V r=Snap(x).v; for(auto&c:r) c=c*dcomplex(1.5,im?-0.75:0); all(s,x,r,"a scalar operator multiplies by its value"); sym_reach("scalar"); }
  if(what==3){ int n=sym_pick("members",1,3),inv=sym_pick("inverse",0,1),pos=sym_pick("positive",0,1); WaveFunction*x=mklevel(3); symwf(x,"x"); p.SetValue("inv",inv!=0); p.SetValue("positive",pos!=0);
    OProjection*s=new OProjection(); s->Init(p); s->Init(x); V xs=Snap(x).v,want(3,dcomplex(0,0));
    for(int i=0;i<n;i++){ WaveFunction*b=mklevel(3); symwf(b,nm("b",i)); V bs=Snap(b).v; dcomplex o(0,0); for(int j=0;j<3;j++) o=o+bs[j].conj()*xs[j]; if(!pos) o=o*(-1.0); for(int j=0;j<3;j++) want[j]=want[j]+bs[j]*o; s->Add(b); }
    if(inv) for(int j=0;j<3;j++) want[j]=xs[j]-want[j];
    all(s,x,want,inv?"an inverse projection gives 1 - sum |b><b|":"a projection gives sum |b><b|x>"); sym_reach("projection"); }
  if(what==4){ int n=sym_pick("members",1,4); WFGridCartesian*x=mkgrid(1,4); symwf(x,"x"); OGridSum*s=new OGridSum(); std::vector<OGridPotential*> v; V r=Snap(x).v,q=r; for(auto&c:q) c=dcomplex(0,0);
    for(int i=0;i<n;i++){ v.push_back(mkpot(x,nm("V",i).c_str(),true)); s->Add(v[i]); for(int j=0;j<4;j++) q[j]=q[j]+r[j]*(*v[i])[j]; }
    s->Init(x); all(s,x,q,"a grid sum acts as the sum of its members"); sym_reach("gridsum"); }
  if(what==5){ int pat=sym_pick("blocks",1,15),herm=sym_pick("hermitian",0,1),un=sym_pick("unity",0,1); if(!(pat&14) && pat==1) { /* one block 0,0: still two states */ p.SetValue("states",2); }
    WFMultistate*x=mkmulti(2,lv2); symwf(x,"x"); OMultistate*s=new OMultistate(); p.SetValue("states",2); p.SetValue("nonhermitian",!herm); p.SetValue("unity",un!=0); s->Init(p); s->Unity(un!=0);
    bool sy=herm; OHermitianMatrix*m[2][2]={{0,0},{0,0}}; for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(pat>>(2*i+j)&1){ m[i][j]=nsm(2,"M",2*i+j); s->Add(m[i][j],i,j); }
    if((pat&6)==6) sy=false; if(sy){ if(m[0][1]) m[1][0]=m[0][1]; else if(m[1][0]) m[0][1]=m[1][0]; }
    V xs=Snap(x).v,want(4,dcomplex(0,0)); for(int i=0;i<2;i++) for(int j=0;j<2;j++){ V part(xs.begin()+2*j,xs.begin()+2*j+2),r; if(m[i][j]) r=mv(m[i][j],part); else if(i==j && un) r=part; else continue; for(int k=0;k<2;k++) want[2*i+k]=want[2*i+k]+r[k]; }
    s->Init(x); all(s,x,want,"a multistate operator acts block by block"); sym_reach("multi2"); }
  if(what==6){ int pat=sym_pick("pattern",0,3),herm=sym_pick("hermitian",0,1); WFMultistate*x=mkmulti(3,lv2); symwf(x,"x"); OMultistate*s=new OMultistate(); s->Hermitian(herm); s->Unity(true);
    static const int P[4][9]={{1,0,0,0,1,0,1,0,0},{0,1,0,0,0,1,0,0,1},{1,0,1,0,0,0,0,1,0},{0,0,0,1,1,0,0,0,1}}; OHermitianMatrix*m[3][3];
    for(int i=0;i<3;i++) for(int j=0;j<3;j++){ m[i][j]=0; if(P[pat][3*i+j]){ m[i][j]=nsm(2,"M",3*i+j); s->Add(m[i][j],i,j); } }
    if(herm) for(int i=0;i<3;i++) for(int j=0;j<i;j++){ if(m[i][j]) m[j][i]=m[i][j]; else m[i][j]=m[j][i]; }
    V xs=Snap(x).v,want(6,dcomplex(0,0)); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ V part(xs.begin()+2*j,xs.begin()+2*j+2),r; if(m[i][j]) r=mv(m[i][j],part); else if(i==j) r=part; else continue; for(int k=0;k<2;k++) want[2*i+k]=want[2*i+k]+r[k]; }
    s->Init(x); all(s,x,want,"a multistate operator of three states acts block by block"); sym_reach("multi3"); }
  if(what==7){ // sums of products inside a multistate operator; one member shared
    WFMultistate*x=mkmulti(2,lv2); symwf(x,"x"); OHermitianMatrix*a=nsm(2,"A",0),*b=nsm(2,"B",0),*c=nsm(2,"C",0); OProduct*pr=new OProduct(); pr->Add(a); pr->Add(b); OSum*su=new OSum(); su->Add(c); su->Add(pr);
    OSum*s2=new OSum(); s2->Add(a); s2->Add(pr);
    OMultistate*s=new OMultistate(); s->Hermitian(true); s->Unity(false); s->Add(su,0,0); s->Add(pr,0,1); s->Add(s2,1,1); s->Init(x);
    V xs=Snap(x).v,x0(xs.begin(),xs.begin()+2),x1(xs.begin()+2,xs.end()); V r0=mv(c,x0); addv(r0,mv(a,mv(b,x0))); addv(r0,mv(a,mv(b,x1))); V r1=mv(a,mv(b,x0)); addv(r1,mv(a,x1)); addv(r1,mv(a,mv(b,x1)));
    r0.insert(r0.end(),r1.begin(),r1.end()); all(s,x,r0,"nested composites act as their algebra says"); sym_reach("nested"); }
  if(what==8){ int n=sym_pick("named",1,4),q=sym_pick("ask",0,4); OSum*s=new OSum(); std::vector<Operator*> m; for(int i=0;i<n;i++){ Operator*o=mkmat(2,"M",false); m.push_back(o); if(i%2) s->Add(o); else s->Add(nm("op",i),o); }
    sym_assert(s->Size()==n,"the list counts its members"); for(int i=0;i<n;i++) sym_assert(s->Get(i)==m[i] && (*s)[i]==m[i],"members are found by index");
    bool has=q<n && q%2==0; sym_assert(s->Exists(nm("op",q))==has,"a named member exists exactly if it was added");
    bool thrown=false; try{ Operator*o=s->Get(nm("op",q)); sym_assert(has && o==m[q],"a named member is found"); }catch(Exception&e){ thrown=true; } sym_assert(thrown==!has,"asking for a missing name is an error");
    thrown=false; try{ s->Get(n); }catch(Exception&e){ thrown=true; } sym_assert(thrown,"asking past the end is an error");
    if(has){ thrown=false; try{ s->Add(nm("op",q),m[0]); }catch(Exception&e){ thrown=true; } sym_assert(thrown && s->Size()==n,"a name cannot be used twice");
      Operator*r=mkmat(2,"R",false); s->Set(nm("op",q),r); sym_assert(s->Get(q)==r && s->Get(nm("op",q))==r,"a member can be replaced by name");
      OSum*c=new OSum(); *(Operator*)c=(Operator*)s; sym_assert(c->Size()==n && c->Exists(nm("op",q)),"a copied list keeps the names of its members"); if(c->Exists(nm("op",q))) sym_assert(c->Get(nm("op",q))==c->Get(q),"a copied list keeps the names of its members"); }
    thrown=false; try{ s->Add((Operator*)0); }catch(Exception&e){ thrown=true; } sym_assert(thrown && s->Size()==n,"an empty operator cannot be added");
    OMultistate*ms=new OMultistate(); ms->Add(m[0],0,1); thrown=false; try{ ms->Add(m[0],0,1); }catch(Exception&e){ thrown=true; } sym_assert(thrown,"a multistate element cannot be set twice");
    sym_assert(ms->State(0,1)==m[0] && ms->State(5,5)==0,"multistate elements are found by position"); sym_reach("names"); }
  if(what==9){ OSum*s=new OSum(); OGridSum*g=new OGridSum(); WFGridCartesian*x=mkgrid(1,2); Operator*o=mkmat(2,"M",false); OGridPotential*v=mkpot(x,"V",false); for(int i=0;i<128;i++) s->Add(o); for(int i=0;i<16;i++) g->Add(v);
    bool thrown=false; try{ s->Add(o); }catch(Exception&e){ thrown=true; } sym_assert(thrown && s->Size()==128,"a full list refuses another member");
    thrown=false; try{ g->Add(v); }catch(Exception&e){ thrown=true; } sym_assert(thrown && g->Size()==16,"a full grid sum refuses another member");
    thrown=false; OGridSum*h=new OGridSum(); h->Add(v); WFGridCartesian*y=mkgrid(1,4); try{ h->Add(mkpot(y,"W",false)); }catch(Exception&e){ thrown=true; } sym_assert(thrown,"a grid sum refuses members of another size");
    OMultistate*ms=new OMultistate(); thrown=false; try{ ms->Add(o,QD_MAX_STATES,0); }catch(Exception&e){ thrown=true; } sym_assert(thrown,"too many states are refused"); sym_reach("limit"); }
}
