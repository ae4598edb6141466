//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TIME 300 600
//BOUNDS grids of 1-4 dimensions with 1-4 points each; grid edges in [-20,20]; vectors of up to 6 elements in 1-3 strides; a team of three threads for the view operations
//REACH index view vector params compare threads
#include "h.h"
static const int SH[][5]={{1,4},{2,3,2},{2,1,3},{3,2,3,2},{3,4,1,2},{4,2,3,2,2},{4,1,2,1,3},{4,3,2,2,4}};
struct GS:public GridSystem{ void set(const int*sh){ ParamContainer p; gridparams(p,sh[0],sh+1,GLO,GHI); grid_sys.InitFromParamContainer(p); } void init(ParamContainer&p){ grid_sys.InitFromParamContainer(p); } void dump(ParamContainer&p){ grid_sys.DumpParams(p); } };
static std::vector<int> coord(const int*sh,int i){ std::vector<int> c; for(int d=0;d<sh[0];d++){ c.push_back(i%sh[1+d]); i/=sh[1+d]; } return c; }
extern "C" void sym_main(){
  int what=sym_pick("what",0,5);
  if(what==0){ int k=sym_pick("shape",0,7); const int*sh=SH[k]; GS*a=new GS(); a->set(sh); GS*g=new GS(); *(GridSystem*)g=*(GridSystem*)a; int tot=1; for(int d=0;d<sh[0];d++) tot*=sh[1+d];
    sym_assert(g->Dim()==sh[0]&&g->Size()==tot,"number of points"); int d=sym_pick("dim",0,3); if(d>=sh[0]) sym_end(); g->ActiveDim(d); sym_assert(g->NumActive()==sh[1+d]&&g->DimSize(d)==sh[1+d]&&g->DimSizes()[d]==sh[1+d],"points of the dimension"); int low=1; for(int e=0;e<d;e++) low*=sh[1+e]; sym_assert(g->LowOthers()==low&&g->LowOthers(d)==low,"stripe size"); sym_assert(g->NumOthers()==tot/sh[1+d]&&g->NumOthers(d)==tot/sh[1+d],"number of replicas");
    int i=sym_int("i",0,sh[1+d]-1),r=sym_int("r",0,tot/sh[1+d]-1),j=sym_int("j",0,sh[1+d]-1),q=sym_int("q",0,tot/sh[1+d]-1); int x=g->Index(i,r),y=g->Index(j,q);
    sym_assert(x>=0&&x<tot,"an index lies on the grid"); sym_assert(x/low%sh[1+d]==i,"an index has the requested coordinate"); sym_assert(x!=y||(i==j&&r==q),"different points have different indices"); sym_assert(g->IndexBase(r)+i*low==x,"base index plus stripes is the index");
    sym_assert(r!=q||((x%low)==(y%low)&&x/(low*sh[1+d])==y/(low*sh[1+d])),"points of one replica differ in the active coordinate only"); for(int e=0;e<sh[0];e++) if(e!=d){ int n=1; for(int f=0;f<sh[0];f++) if(f!=d&&f!=e) n*=sh[1+f]; sym_assert(g->NumOthers(d,e)==n,"replicas of two dimensions"); }
    sym_reach("index"); }
  if(what==1||what==5){ if(what==5) sym_omp(3,1); static const int PK[]={1,3,4,6}; int k=PK[sym_pick("shape",what==5?1:0,what==5?2:3)]; const int*sh=SH[k]; int tot=1; for(int d=0;d<sh[0];d++) tot*=sh[1+d]; if(tot>48) sym_end(); int d=sym_pick("dim",0,3),op=sym_pick("op",0,3),again=sym_pick("again",0,1); if(d>=sh[0]) sym_end(); int cplx=sym_pick("complex",0,1); if(again&&(cplx||what==5||op!=1)) sym_end();
    if(cplx){ cVec v(tot); symwf(&v,"v"); Snap s(&v); cVecView view(v,sh[0],sh+1); view.ActiveDim(d); cVec f(sh[1+d]); symwf(&f,"f"); if(op==0) view=f; if(op==1) view*=f; if(op==2) view+=f; if(op==3) sym_end(); for(int i=0;i<tot;i++){ dcomplex x=f[coord(sh,i)[d]]; zclose(v[i],op==0?x:op==1?s.v[i]*x:s.v[i]+x,1e-12,"complex view acts on the coordinate"); } }
    else { dVec v(tot); std::vector<double> s; for(int i=0;i<tot;i++){ v[i]=sym_double(nm("v",i).c_str(),-1,1); s.push_back(v[i]); } dVecView view(v,sh[0],sh+1); if(again){ view.ActiveDim((d+1)%sh[0]); } view.ActiveDim(d); if(again){ view.ActiveDim((d+1)%sh[0]); view.ActiveDim(d); } dVec f(sh[1+d]); for(int i=0;i<sh[1+d];i++) f[i]=sym_double(nm("f",i).c_str(),-1,1);
      if(op==3){ dVec*r=view.Sum(); sym_assert(r->size()==tot/sh[1+d],"a sum has one dimension less"); int low=1; for(int e=0;e<d;e++) low*=sh[1+e]; for(int j=0;j<r->size();j++){ double t=0; for(int i=0;i<sh[1+d];i++) t+=s[(j/low)*low*sh[1+d]+j%low+i*low]; sym_close((*r)[j],t,1e-9,"sum over one dimension"); } delete r; for(int i=0;i<tot;i++) sym_close(v[i],s[i],0,"summing leaves the vector alone"); }
      else { if(op==0) view=f; if(op==1) view*=f; if(op==2) view+=f; for(int i=0;i<tot;i++){ double x=f[coord(sh,i)[d]]; sym_close(v[i],op==0?x:op==1?s[i]*x:s[i]+x,1e-12,"view acts on the coordinate"); } } }
    sym_reach(what==5?"threads":"view"); }
  if(what==2){ int n=sym_pick("n",1,3),st=sym_pick("strides",1,3); cVec a(n*st,st),b; symwf(&a,"a"); Snap s(&a); sym_assert(a.size()==n*st&&a.lsize()==n&&a.strides()==st&&a.sizeBytes()==n*sizeof(dcomplex),"size, stride size and number of strides"); int i=sym_int("i",0,n*st-1); zclose(a[i],a.begin(i/n)[i%n],0,"element access over strides");
    b=a; wfclose(&b,s,0,"assignment copies"); sym_assert(b.strides()==st,"assignment copies the strides"); cVec c(a); wfclose(&c,s,0,"copy construction copies"); b=dcomplex(0,0); wfclose(&a,s,0,"copies are independent"); cVec e; e.FastCopy(a); wfclose(&e,s,0,"fast copy"); e=dcomplex(1,0); e.FastCopy(a); wfclose(&e,s,0,"fast copy into a vector of the same size"); wfclose(&a,s,0,"fast copy is independent"); cVec z(n+5); z.FastCopy(a); wfclose(&z,s,0,"fast copy into a vector of another size");
    cVec w(n*st,st); symwf(&w,"w"); Snap t(&w); sym_assert(w.swap(a),"swap of equal sizes"); wfclose(&w,s,0,"swap exchanges"); wfclose(&a,t,0,"swap exchanges"); cVec u(n*st+st,st); symwf(&u,"u"); Snap us(&u); sym_assert(!u.swap(a),"swap of different sizes is refused"); wfclose(&u,us,0,"a refused swap changes nothing"); wfclose(&a,t,0,"a refused swap changes nothing");
    w*=dcomplex(0,2); for(size_t q=0;q<s.v.size();q++) s.v[q]=s.v[q]*dcomplex(0,2); wfclose(&w,s,1e-12,"scaling a vector"); w.newsize(n*st,st); wfclose(&w,s,1e-12,"resizing to the same size keeps the content"); w.newsize(2*n+7); sym_assert(w.size()==2*n+7&&w.strides()==1&&w.lsize()==2*n+7,"resizing"); for(int q=0;q<2*n+7;q++) w[q]=dcomplex(q,0);
    cVec p(3,st>1?1:1); for(int q=0;q<3;q++) p[q]=symc(nm("p",q)); Snap ps(&p); int from=sym_pick("from",0,2),to=sym_pick("to",0,2); if(to>=from){ cVec r; r.CopySub(p,from,to); sym_assert(r.size()==to-from+1,"size of a part"); for(int q=from;q<=to;q++) zclose(r[q-from],ps.v[q],0,"copying a part"); }
    cVec x1(n),x2(n); symwf(&x1,"x"); symwf(&x2,"y"); Snap sx(&x1),sy(&x2); cVec y=x1+x2; for(int q=0;q<n;q++) zclose(y[q],sx.v[q]+sy.v[q],1e-12,"sum of vectors"); cVec y2=x1-x2; for(int q=0;q<n;q++) zclose(y2[q],sx.v[q]-sy.v[q],1e-12,"difference of vectors"); x1+=x2; for(int q=0;q<n;q++) zclose(x1[q],sx.v[q]+sy.v[q],1e-12,"adding a vector"); x1-=x2; for(int q=0;q<n;q++) zclose(x1[q],sx.v[q],1e-12,"subtracting a vector"); dcomplex dp(0,0); for(int q=0;q<n;q++) dp=dp+sx.v[q].conj()*sy.v[q]; zclose(x1*x2,dp,1e-12,"scalar product of complex vectors");
    if(st>1){ cVec q(n,1); symwf(&q,"q"); Snap sq(&q); sym_assert(a.StrideCopy(q,0,st-1),"copy into a stride"); for(int j=0;j<n;j++) zclose(a.begin(st-1)[j],sq.v[j],0,"copy into a stride"); for(int j=0;j<n*(st-1);j++) zclose(a.begin(j/n)[j%n],t.v[j],0,"other strides stay"); { dVec dd(n*st,st); dVecView bad(dd,1,SH[0]+1); } }
    sym_reach("vector"); }
  if(what==3){ // grid descriptions from parameters
    int dims=sym_pick("dims",-1,6),have=sym_pick("have",0,5); ParamContainer p; p.SetValue("dims",dims); for(int i=0;i<have;i++){ p.SetValue(nm("N",i),2+i); p.SetValue(nm("xmin",i),-1-i); p.SetValue(nm("xmax",i),2+i); } bool ok=dims>0&&dims<=MAX_DIMS&&have>=dims; GS g; bool t=false; try{ g.init(p); }catch(Exception&e){ t=true; } sym_assert(t!=ok,"grids are accepted exactly if dimensions and sizes fit");
    if(ok){ for(int i=0;i<dims;i++){ sym_assert(g.DimSize(i)==2+i,"points from the parameters"); sym_close(g.Xmin(i),-1-i,0,"lower edge from the parameters"); sym_close(g.Xmax(i),2+i,0,"upper edge from the parameters"); sym_close(g.Dx(i)*(1+i),3+2*i,1e-12,"grid spacing"); } ParamContainer q; g.dump(q); GS h; h.init(q); sym_assert(*(GridSystem*)&h==*(GridSystem*)&g,"a described grid is the same grid");
      int bad=sym_pick("bad",0,2); ParamContainer b=p; if(bad==0) b.SetValue("N0",sym_pick("n",-1,0)); if(bad==1) b.SetValue("xmax0",-1); if(bad==2) b.SetValue("xmax0",-2); t=false; try{ h.init(b); }catch(Exception&e){ t=true; } sym_assert(t,"an empty grid is refused"); }
    sym_reach("params"); }
  if(what==4){ int da=sym_pick("da",1,3),db=sym_pick("db",1,3); GS*a=new GS(),*b=new GS(); std::vector<int> na,nb; std::vector<double> la,lb,ha,hb; bool same=da==db; for(int i=0;i<da;i++){ na.push_back(2+sym_int(nm("na",i).c_str(),0,1)); la.push_back(sym_double(nm("la",i).c_str(),-20,0)); ha.push_back(sym_double(nm("ha",i).c_str(),1,20)); } for(int i=0;i<db;i++){ nb.push_back(2+sym_int(nm("nb",i).c_str(),0,1)); lb.push_back(sym_double(nm("lb",i).c_str(),-20,0)); hb.push_back(sym_double(nm("hb",i).c_str(),1,20)); }
    a->SetFromArrays(na,la,ha); b->SetFromArrays(nb,lb,hb); bool eq=*(GridSystem*)a==*(GridSystem*)b; sym_assert((*(GridSystem*)a!=*(GridSystem*)b)==!eq,"unequal is the opposite of equal"); sym_assert((*(GridSystem*)b==*(GridSystem*)a)==eq,"equality is symmetric"); if(!same) sym_assert(!eq,"grids of different dimension differ"); else { bool n=true,far=false,near=true; for(int i=0;i<da;i++){ if(na[i]!=nb[i]) n=false; double l=la[i]-lb[i],h=ha[i]-hb[i]; if(l>1e-8||l< -1e-8||h>1e-8||h< -1e-8) far=true; if(l>1e-12||l< -1e-12||h>1e-12||h< -1e-12) near=false; } if(!n||far) sym_assert(!eq,"different grids are not equal"); if(n&&near) sym_assert(eq,"same grids are equal"); }
    for(int i=0;i<da;i++){ sym_close(a->Dx(i)*(na[i]-1),ha[i]-la[i],1e-9,"spacing times intervals is the length"); } GS*c=new GS(); *(GridSystem*)c=*(GridSystem*)a; sym_assert(*(GridSystem*)c==*(GridSystem*)a,"a copied grid is equal"); bool t=false; lb.push_back(1); try{ c->SetFromArrays(nb,lb,hb); }catch(Exception&e){ t=true; } sym_assert(t,"lists of different length are refused"); sym_reach("compare"); }
}
