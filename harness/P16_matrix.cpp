//SRC modules/InternalMods.cpp modules/ModuleLoader.cpp tools/*.cpp math/*.cpp linalg/*.cpp fft/*.cpp qdlib/*.cpp qdlib/GridSystem.pb.cc tools/FileSingleHeader.pb.cc
//NOT tools/XmlParser.cpp tools/XmlNode.cpp linalg/lapack_rs.cpp qdlib/HOFD.cpp
//LIBS protobuf z bz2 lapack blas fftw3
//TIME 300 600
//BOUNDS matrices of 1-3 rows and columns with symbolic elements in [-1,1]; symbolic diagonalisation of 2x2 matrices given by eigenvalues in [-2,2] and mixing angles in [-2,2]; library calls on concrete matrices of up to 5x5
//ASSUME LAPACK returns the eigenvectors and eigenvalues of the matrix it is given (its documented contract, including workspace sizes, is checked at the call)
//REACH matrix matvec small diag operator library spectrum
#include "h.h"
#include "ops.h"
#include "lapack.h"
#include "linalg/LapackDiag.h"
#include "math/math_functions.h"
static double SM[3][3]; static dcomplex CM[3][3];
template<class T> static T mk1(const std::string&n); template<> double mk1<double>(const std::string&n){ return sym_double(n.c_str(),-1,1); } template<> dcomplex mk1<dcomplex>(const std::string&n){ return symc(n); }
static void eq(double a,double b,const char*m){ sym_close(a,b,1e-12,m); } static void eq(dcomplex a,dcomplex b,const char*m){ zclose(a,b,1e-12,m); }
static double cj(double a){ return a; } static dcomplex cj(dcomplex a){ return a.conj(); }
template<class T> static void matrix(){ int m=sym_pick("rows",1,3),n=sym_pick("cols",1,3); Matrix<T> A(m,n); T a[3][3]; for(int i=0;i<m;i++) for(int j=0;j<n;j++) { a[i][j]=mk1<T>(nm("a",3*i+j)); A(i,j)=a[i][j]; }
  sym_assert(A.rows()==m&&A.cols()==n&&A.sizeBytes()==sizeof(T)*m*n,"size of a matrix"); for(int i=0;i<m;i++) for(int j=0;j<n;j++){ eq(A(i,j),a[i][j],"elements are stored"); eq(A.begin(j)[i],a[i][j],"columns are contiguous"); eq(A.begin()[j*m+i],a[i][j],"storage is column by column"); }
  for(int j=0;j<n;j++){ Vector<T>*c=A.coloumn(j); sym_assert(c->size()==m,"size of a column"); for(int i=0;i<m;i++) eq((*c)[i],a[i][j],"column of a matrix"); delete c; }
  Matrix<T> B(A),C,D(1,2); C=A; D=A; Matrix<T>*M[3]={&B,&C,&D}; A=T(0); for(int q=0;q<3;q++){ sym_assert(M[q]->rows()==m&&M[q]->cols()==n,"size of a copied matrix"); for(int i=0;i<m;i++) for(int j=0;j<n;j++) eq((*M[q])(i,j),a[i][j],"copied matrices are independent"); }
  T f=mk1<T>("f"); C*=f; for(int i=0;i<m;i++) for(int j=0;j<n;j++){ eq(C(i,j),a[i][j]*f,"scaled matrix"); eq(A(i,j),T(0),"matrix set to a number"); }
  Vector<T>*d=B.diag(); sym_assert((d!=NULL)==(m==n),"the diagonal exists for square matrices"); if(d){ sym_assert(d->size()==m,"size of the diagonal"); for(int i=0;i<m;i++) eq((*d)[i],a[i][i],"diagonal"); for(int i=0;i<m;i++) (*d)[i]=(*d)[i]*f; B.diag(d); for(int i=0;i<m;i++) for(int j=0;j<m;j++) eq(B(i,j),i==j?a[i][j]*f:a[i][j],"setting the diagonal sets the diagonal only"); B=D; delete d; }
  for(int i=0;i<m;i++) for(int j=0;j<i&&j<n;j++) if(i<n) { D(j,i)=cj(a[i][j]); } if(m==n) for(int i=0;i<m;i++) D(i,i)=T(1); Matrix<T> H(D); D.transpose(); if(m==n) for(int i=0;i<m;i++) for(int j=0;j<m;j++) eq(D(i,j),H(i,j),"a hermitian matrix is its own adjoint");
  B.transpose(); for(int i=0;i<m;i++) for(int j=0;j<n;j++) if(m!=n) eq(B(i,j),a[i][j],"only square matrices are transposed"); else if(i!=j||sizeof(T)==8) eq(B(i,j),cj(a[j][i]),"transposed matrix"); B.transpose(); if(m==n) for(int i=0;i<m;i++) for(int j=0;j<m;j++) if(i!=j||sizeof(T)==8) eq(B(i,j),a[i][j],"transposing twice");
  B.newsize(m,n); for(int i=0;i<m;i++) for(int j=0;j<n;j++) if(i!=j||sizeof(T)==8) eq(B(i,j),a[i][j],"resizing to the same size keeps the content"); B.newsize(n+1,m); sym_assert(B.rows()==n+1&&B.cols()==m,"resizing"); for(int i=0;i<=n;i++) for(int j=0;j<m;j++) B(i,j)=T(i+10*j); for(int i=0;i<=n;i++) for(int j=0;j<m;j++) eq(B(i,j),T(i+10*j),"a resized matrix holds its elements");
  for(int p=1;p<=4;p++) for(int q=1;q<=4;q++) for(int k=0;k<2;k++){ int r=k?q:p,c=k?p:q; B.newsize(r,c); sym_assert(B.rows()==r&&B.cols()==c&&B.sizeBytes()==sizeof(T)*r*c,"resizing"); for(int j=0;j<c;j++) sym_assert(B.begin(j)==B.begin()+j*r,"a resized matrix is stored column by column"); Matrix<T> E(c,r); E=B; sym_assert(E.rows()==r&&E.cols()==c,"a matrix takes the shape of the one assigned"); }
  sym_reach("matrix"); }
template<class U> static void matvec(){ int m=sym_pick("rows",1,3),n=sym_pick("cols",1,3),tr=sym_pick("mode",0,2); Matrix<U> A(m,n); U a[3][3]; for(int i=0;i<m;i++) for(int j=0;j<n;j++) { a[i][j]=mk1<U>(nm("a",3*i+j)); A(i,j)=a[i][j]; } int in=tr?m:n,out=tr?n:m; cVec x(in),y(sym_pick("before",1,2)==1?out:out+2); symwf(&x,"x"); Snap s(&x);
  MatVecMult(&y,&A,&x,tr>0,tr>1); sym_assert(y.size()==out,"size of the result"); for(int i=0;i<out;i++){ dcomplex v(0,0); for(int j=0;j<in;j++) v=v+(tr==0?dcomplex(a[i][j]):tr==1?dcomplex(a[j][i]):dcomplex(cj(a[j][i])))*s.v[j]; zclose(y[i],v,1e-12,"matrix times vector"); } wfclose(&x,s,0,"the factor is left alone"); wfclose(&x,s,0,"");
  cVec z(in+1),o(2); o[0]=dcomplex(7,1); o[1]=o[0]; z=dcomplex(1,0); MatVecMult(&o,&A,&z,tr>0,tr>1); sym_assert(o.size()==2,"products of wrong size are not formed"); zclose(o[0],dcomplex(7,1),0,"products of wrong size are not formed"); sym_reach("matvec"); }
static void setlw(){ LW.on=1; LW.w[0]=sym_double("w0",-2,2); LW.w[1]=sym_double("w1",-2,2); sym_assume(LW.w[0]<=LW.w[1]); double t=sym_double("t",-2,2); LW.c=cos(t); LW.s=sin(t); }
static double m11(){ return LW.c*LW.c*LW.w[0]+LW.s*LW.s*LW.w[1]; } static double m22(){ return LW.s*LW.s*LW.w[0]+LW.c*LW.c*LW.w[1]; } static double m12(){ return LW.c*LW.s*(LW.w[0]-LW.w[1]); }
extern "C" void sym_main(){
  int what=sym_pick("what",0,8);
  if(what==0){ if(sym_pick("complex",0,1)) matrix<dcomplex>(); else matrix<double>(); }
  if(what==1){ if(sym_pick("complex",0,1)) matvec<dcomplex>(); else matvec<double>(); }
  if(what==2){ double a=sym_double("m1",-1,1),b=sym_double("m2",-1,1),e[2],v0[2],v1[2]; double*v[2]={v0,v1}; int z=sym_pick("coupling",0,2); double c=z==0?0:sym_double("m12",-1,1); if(z==1) sym_assume(c>=0.001); if(z==2) sym_assume(c<=-0.001);
    int vec=sym_pick("vectors",0,2); if(vec==0){ diag22symm(a,b,c,e); sym_le(e[0],e[1],0,"eigenvalues in ascending order"); sym_close(e[0]+e[1],a+b,1e-9,"sum of the eigenvalues is the trace"); sym_close(e[0]*e[1],a*b-c*c,1e-9,"product of the eigenvalues is the determinant"); }
    else { diag22symm(a,b,c,e,v); if(vec==1){ sym_close(v[0][0]*v[0][0]+v[1][0]*v[1][0],1,1e-9,"eigenvectors are normalised"); sym_close(v[0][1]*v[0][1]+v[1][1]*v[1][1],1,1e-9,"eigenvectors are normalised"); sym_close(v[0][0]*v[0][1]+v[1][0]*v[1][1],0,1e-9,"eigenvectors are orthogonal"); sym_close(e[0]+e[1],a+b,1e-9,"sum of the eigenvalues is the trace"); }
      else { sym_close(a*v[0][0]*v[0][1]+c*(v[0][0]*v[1][1]+v[1][0]*v[0][1])+b*v[1][0]*v[1][1],0,1e-9,"the eigenvectors diagonalise the matrix"); if(z) sym_le(a*v[0][0]*v[0][0]+2*c*v[0][0]*v[1][0]+b*v[1][0]*v[1][0],a*v[0][1]*v[0][1]+2*c*v[0][1]*v[1][1]+b*v[1][1]*v[1][1],1e-9,"eigenvectors in the order of the eigenvalues"); else for(int k=0;k<2;k++) sym_close(a*v[0][k]*v[0][k]+b*v[1][k]*v[1][k],e[k],1e-9,"eigenvalue of the eigenvector"); } }
    sym_reach("small"); }
  if(what==3){ setlw(); dMat A(2,2); dVec e; A(0,0)=m11(); A(1,1)=m22(); A(0,1)=A(1,0)=m12(); double x=A(0,0),y=A(1,1),o=A(0,1); sym_assert(LAPACK::FullDiagHermitian(&A,&e)==0&&e.size()==2,"diagonalisation succeeds"); sym_close(e[0]+e[1],x+y,1e-9,"eigenvalues of the matrix"); sym_le(e[0],e[1],1e-9,"ascending eigenvalues");
    for(int k=0;k<2;k++){ sym_close(x*A(0,k)+o*A(1,k),e[k]*A(0,k),1e-8,"columns are eigenvectors"); sym_close(o*A(0,k)+y*A(1,k),e[k]*A(1,k),1e-8,"columns are eigenvectors"); sym_close(A(0,k)*A(0,k)+A(1,k)*A(1,k),1,1e-8,"eigenvectors are normalised"); }
    sym_reach("diag"); }
  if(what==4){ setlw(); double p=sym_double("p",-2,2); LWer=cos(p); LWeim=sin(p); cMat A(2,2); dVec e; dcomplex o(m12()*LWer,m12()*LWeim); A(0,0)=dcomplex(m11(),0); A(1,1)=dcomplex(m22(),0); A(0,1)=o; A(1,0)=o.conj(); double x=m11(),y=m22(); sym_assert(LAPACK::FullDiagHermitian(&A,&e)==0&&e.size()==2,"hermitian diagonalisation succeeds"); sym_close(e[0]+e[1],x+y,1e-9,"eigenvalues of the hermitian matrix");
    for(int k=0;k<2;k++){ zclose(dcomplex(x,0)*A(0,k)+o*A(1,k),dcomplex(e[k],0)*A(0,k),1e-7,"columns are eigenvectors of the hermitian matrix"); zclose(o.conj()*A(0,k)+dcomplex(y,0)*A(1,k),dcomplex(e[k],0)*A(1,k),1e-7,"columns are eigenvectors of the hermitian matrix"); }
    sym_reach("diag"); }
  if(what==5){ setlw(); dVec d(2),s(1),bad(4,2); dMat Z; d[0]=m11(); d[1]=m22(); s[0]=m12(); double x=d[0],y=d[1],o=s[0]; sym_assert(LAPACK::TriDiagHermitian(&d,&s,&Z,2)==0,"tridiagonal diagonalisation succeeds"); sym_assert(Z.rows()==2&&Z.cols()==2,"size of the eigenvector matrix");
    for(int k=0;k<2;k++){ sym_close(x*Z(0,k)+o*Z(1,k),d[k]*Z(0,k),1e-8,"columns are eigenvectors of the tridiagonal matrix"); sym_close(o*Z(0,k)+y*Z(1,k),d[k]*Z(1,k),1e-8,"columns are eigenvectors of the tridiagonal matrix"); } dMat N(2,3); dVec e; cMat NC(3,2); sym_assert(LAPACK::FullDiagHermitian(&N,&e)!=0&&LAPACK::FullDiagHermitian(&NC,&e)!=0,"only square matrices are diagonalised");
    sym_reach("diag"); }
  if(what==6){ setlw(); OHermitianMatrix*M=mkmat(2,"",false); (*M)(0,0)=m11(); (*M)(1,1)=m22(); (*M)(0,1)=(*M)(1,0)=m12(); double m[2][2]={{m11(),m12()},{m12(),m22()}}; int how=sym_pick("how",0,3); WFLevel*x=mklevel(2); symwf(x,"x"); Snap sx(x);
    if(how==0){ sym_close(M->Emin().real(),LW.w[0],1e-8,"smallest eigenvalue of a matrix operator"); sym_close(M->Emax().real(),LW.w[1],1e-8,"largest eigenvalue of a matrix operator"); }
    if(how==1){ M->Diag(); for(int i=0;i<2;i++) for(int j=0;j<2;j++) sym_close((*M)(i,j),m[i][j],0,"diagonalising leaves the matrix alone"); sym_assert(M->Size()==2,"size of a matrix operator"); sym_close(M->Emin().real(),LW.w[0],1e-8,"smallest eigenvalue after diagonalising"); sym_close(M->Emax().real(),LW.w[1],1e-8,"largest eigenvalue after diagonalising"); }
    if(how==2){ OHermitianMatrix*N=mkmat(2,"",false); dcomplex e0=N->Emin(); N->Copy(M); sym_close(N->Emin().real(),LW.w[0],1e-8,"smallest eigenvalue of a copied matrix"); sym_close(N->Emax().real(),LW.w[1],1e-8,"largest eigenvalue of a copied matrix"); }
    if(how==3){ OHermitianMatrix*N=mkmat(2,"N",true),*P=mkmat(2,"",false); double n[2][2]; for(int i=0;i<2;i++) for(int j=0;j<2;j++) n[i][j]=(*N)(i,j); LW.on=0; M->Apply((Operator*)P,(Operator*)N); for(int i=0;i<2;i++) for(int j=0;j<2;j++) sym_close((*P)(i,j),m[i][0]*n[0][j]+m[i][1]*n[1][j],1e-9,"product of two matrix operators"); }
    sym_reach("operator"); }
  if(what==7){ int n=sym_pick("n",1,5); dMat A(n,n),B; dVec e; for(int i=0;i<n;i++) for(int j=0;j<=i;j++) A(i,j)=A(j,i)=0.3*((i*7+j*3)%5)-0.5+0.1*(i==j)*i; B=A; sym_assert(LAPACK::FullDiagHermitian(&B,&e)==0,"diagonalisation succeeds"); for(int k=0;k<n;k++) for(int i=0;i<n;i++){ double t=0; for(int j=0;j<n;j++) t+=A(i,j)*B(j,k); sym_close(t,e[k]*B(i,k),1e-9,"columns are eigenvectors"); }
    cMat H(n,n),G; for(int i=0;i<n;i++) for(int j=0;j<=i;j++){ H(i,j)=dcomplex(A(i,j),i==j?0:0.2*((i+2*j)%3)-0.1); H(j,i)=H(i,j).conj(); } G=H; dVec f; sym_assert(LAPACK::FullDiagHermitian(&G,&f)==0,"hermitian diagonalisation succeeds"); for(int k=0;k<n;k++) for(int i=0;i<n;i++){ dcomplex t(0,0); for(int j=0;j<n;j++) t=t+H(i,j)*G(j,k); zclose(t,dcomplex(f[k],0)*G(i,k),1e-9,"columns are eigenvectors of the hermitian matrix"); }
    dVec d(n),s(n>1?n-1:1); dMat Z; for(int i=0;i<n;i++) d[i]=A(i,i); for(int i=0;i+1<n;i++) s[i]=0.4+0.1*i; dVec d0=d,s0=s; sym_assert(LAPACK::TriDiagHermitian(&d,&s,&Z,n)==0,"tridiagonal diagonalisation succeeds"); for(int k=0;k<n;k++) for(int i=0;i<n;i++){ double t=d0[i]*Z(i,k)+(i>0?s0[i-1]*Z(i-1,k):0)+(i+1<n?s0[i]*Z(i+1,k):0); sym_close(t,d[k]*Z(i,k),1e-9,"columns are eigenvectors of the tridiagonal matrix"); }
    cMat U(n,n),V; for(int i=0;i<n;i++) for(int j=0;j<n;j++) U(i,j)=i>j+1?dcomplex(0,0):dcomplex(i==j?1.0+i:0.2+0.1*i,0.1*j-0.05*i); V=U; cVec ev; cMat L,R; sym_assert(LAPACK::DiagHessenberg(&V,&ev,&L,&R)==0,"Hessenberg eigenproblem succeeds"); for(int k=0;k<n;k++){ double q=0; for(int i=0;i<n;i++){ dcomplex t(0,0),l(0,0); for(int j=0;j<n;j++){ t=t+U(i,j)*R(j,k); l=l+L(j,k).conj()*U(j,i); } zclose(t,ev[k]*R(i,k),1e-8,"right eigenvectors of a Hessenberg matrix"); zclose(l,ev[k]*L(i,k).conj(),1e-8,"left eigenvectors of a Hessenberg matrix"); q+=R(i,k).real()*R(i,k).real()+R(i,k).imag()*R(i,k).imag(); } sym_close(q,1,1e-9,"right eigenvectors are normalised"); }
    cMat I=U; sym_assert(LAPACK::InvertGeneral(&I)==0,"inversion succeeds"); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ dcomplex t(0,0); for(int k=0;k<n;k++) t=t+U(i,k)*I(k,j); zclose(t,dcomplex(i==j?1:0,0),1e-9,"inverse of a matrix"); }
    if(n>1){ cMat S(n,n); S=dcomplex(1,0.5); sym_assert(LAPACK::InvertGeneral(&S)!=0,"a singular matrix is refused"); }
    sym_reach("library"); }
  if(what==8){ int n=sym_pick("n",1,3); OHermitianMatrix*M=mkmat(n,"",false); double x=M->Emax().real(); ParamContainer p; p.SetValue("size",n+1); M->Init(p); for(int i=0;i<=n;i++) for(int j=0;j<=n;j++) (*M)(i,j)=i==j?2.0+i:0; sym_close(M->Emin().real(),2,1e-9,"smallest eigenvalue after another initialisation"); sym_close(M->Emax().real(),2+n,1e-9,"largest eigenvalue after another initialisation"); M->Size(n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) (*M)(i,j)=i==j?-1.0-i:0; sym_close(M->Emin().real(),-n,1e-9,"smallest eigenvalue after resizing"); sym_close(M->Emax().real(),-1,1e-9,"largest eigenvalue after resizing"); sym_reach("spectrum"); }
}
