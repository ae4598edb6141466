// LAPACK contracts: workspace sizes are checked, concrete calls run the library, symbolic symmetric 2x2 problems are
// answered from a decomposition the harness has built its matrix from (checked against the matrix that is passed).
#ifndef LAPACK_H
#define LAPACK_H
#include "sym.h"
#include "linalg/LapackDiag.h"
extern "C" {
size_t sym_msize(void*); int sym_is_sym(void*,size_t);
}
static struct { int on; double w[2],c,s,ei; } LW; // eigenvector of w[0]: (c, e^{-i p} s), of w[1]: (-e^{i p} s, c); real case: ei unused
static double LWer=1,LWeim=0; // e^{i p}
#ifndef SYM_REPLAY
static int room(void*p,size_t n){ return p==0?n==0:sym_msize(p)>=n; }
static void lw_real(double*a,int ld){ double d=LW.w[0],e=LW.w[1],c=LW.c,s=LW.s; sym_close(a[0],c*c*d+s*s*e,1e-9,"matrix passed to the diagonalisation"); sym_close(a[ld],c*s*(d-e),1e-9,"upper triangle passed to the diagonalisation"); sym_close(a[ld+1],s*s*d+c*c*e,1e-9,"matrix passed to the diagonalisation"); }
extern "C" {
void symm_dsyev_(char*j,char*u,int*n,double*a,int*lda,double*w,double*k,int*lk,int*info){ sym_assert(*lk>=3**n-1&&room(k,8*(size_t)*lk),"workspace of the symmetric diagonalisation"); sym_assert(room(w,8**n),"room for the eigenvalues");
  if(!sym_is_sym(a,8*(size_t)*lda**n)){ LAPACK::dsyev_(j,u,n,a,lda,w,k,lk,info); return; }
  if(*n==1){ w[0]=a[0]; a[0]=1; *info=0; return; } if(*n!=2||!LW.on){ sym_note("incomplete: symbolic diagonalisation"); sym_end(); }
  sym_assert(*u=='U'&&*j=='V',"diagonalisation reads the upper triangle and returns vectors"); lw_real(a,*lda); w[0]=LW.w[0]; w[1]=LW.w[1]; a[0]=LW.c; a[1]=LW.s; a[*lda]=-LW.s; a[*lda+1]=LW.c; *info=0; }
void symm_dstev_(char*j,int*n,double*d,double*e,double*z,int*ldz,double*k,int*info){ sym_assert(room(k,8*(size_t)(2**n-2))&&room(z,8*(size_t)*ldz**n)&&room(d,8**n)&&room(e,8*(*n-1)),"storage of the tridiagonal diagonalisation");
  if(!sym_is_sym(d,8**n)&&!sym_is_sym(e,8*(*n-1))){ LAPACK::dstev_(j,n,d,e,z,ldz,k,info); return; }
  if(*n==1){ z[0]=1; *info=0; return; } if(*n!=2||!LW.on){ sym_note("incomplete: symbolic tridiagonal diagonalisation"); sym_end(); }
  double A[4]={d[0],e[0],e[0],d[1]}; lw_real(A,2); d[0]=LW.w[0]; d[1]=LW.w[1]; z[0]=LW.c; z[1]=LW.s; z[*ldz]=-LW.s; z[*ldz+1]=LW.c; *info=0; }
void symm_zheev_(char*j,char*u,int*n,double*a,int*lda,double*w,double*k,int*lk,double*rk,int*info){ sym_assert(*lk>=2**n-1&&room(k,16*(size_t)*lk)&&room(rk,8*(size_t)(3**n-2>1?3**n-2:1)),"workspace of the hermitian diagonalisation"); sym_assert(room(w,8**n),"room for the eigenvalues");
  if(!sym_is_sym(a,16*(size_t)*lda**n)){ LAPACK::zheev_(j,u,n,(dcomplex*)a,lda,w,(dcomplex*)k,lk,rk,info); return; }
  if(*n==1){ w[0]=a[0]; a[0]=1; a[1]=0; *info=0; return; } if(*n!=2||!LW.on){ sym_note("incomplete: symbolic diagonalisation"); sym_end(); }
  sym_assert(*u=='U'&&*j=='V',"diagonalisation reads the upper triangle and returns vectors"); double d=LW.w[0],e=LW.w[1],c=LW.c,s=LW.s,x=c*s*(d-e); int L=2**lda;
  sym_close(a[0],c*c*d+s*s*e,1e-9,"matrix passed to the diagonalisation"); sym_close(a[L],x*LWer,1e-9,"upper triangle passed to the diagonalisation"); sym_close(a[L+1],x*LWeim,1e-9,"upper triangle passed to the diagonalisation"); sym_close(a[L+2],s*s*d+c*c*e,1e-9,"matrix passed to the diagonalisation");
  w[0]=d; w[1]=e; a[0]=c; a[1]=0; a[2]=s*LWer; a[3]=-s*LWeim; a[L]=-s*LWer; a[L+1]=-s*LWeim; a[L+2]=c; a[L+3]=0; *info=0; }
void symm_zgehrd_(int*n,int*lo,int*hi,double*a,int*lda,double*tau,double*k,int*lk,int*info){ sym_assert(*lk>=*n&&room(k,16*(size_t)*lk)&&room(tau,16*(*n-1)),"storage of the reduction to Hessenberg form"); LAPACK::zgehrd_(n,lo,hi,(dcomplex*)a,lda,(dcomplex*)tau,(dcomplex*)k,lk,info); }
void symm_zhseqr_(char*j,char*c,int*n,int*lo,int*hi,double*h,int*ldh,double*w,double*z,int*ldz,double*k,int*lk,int*info){ sym_assert(*lk>=*n&&room(k,16*(size_t)*lk)&&room(w,16**n)&&room(h,16*(size_t)*ldh**n),"storage of the Hessenberg eigenvalues"); LAPACK::zhseqr_(j,c,n,lo,hi,(dcomplex*)h,ldh,(dcomplex*)w,(dcomplex*)z,ldz,(dcomplex*)k,lk,info); }
void symm_zhsein_(char*sd,char*es,char*iv,int*sel,int*n,double*h,int*ldh,double*w,double*vl,int*ldvl,double*vr,int*ldvr,int*mm,int*m,double*k,double*rk,int*fl,int*fr,int*info){ size_t N=*n; sym_assert(room(k,16*N*N)&&room(rk,8*N)&&room(sel,4*N)&&room(fl,4*N)&&room(fr,4*N)&&room(vl,16*N*N)&&room(vr,16*N*N)&&room(w,16*N),"storage of the Hessenberg eigenvectors"); LAPACK::zhsein_(sd,es,iv,sel,n,(dcomplex*)h,ldh,(dcomplex*)w,(dcomplex*)vl,ldvl,(dcomplex*)vr,ldvr,mm,m,(dcomplex*)k,rk,fl,fr,info); }
void symm_zgetrf_(int*m,int*n,double*a,int*lda,int*p,int*info){ sym_assert(room(a,16*(size_t)*lda**n)&&room(p,4*(*m<*n?*m:*n)),"storage of the factorisation"); if(sym_is_sym(a,16*(size_t)*lda**n)){ sym_note("incomplete: symbolic factorisation"); sym_end(); } LAPACK::zgetrf_(m,n,(dcomplex*)a,lda,p,info); }
void symm_zgetri_(int*n,double*a,int*lda,int*p,double*k,int*lk,int*info){ sym_assert(*lk>=*n&&room(k,16*(size_t)*lk),"workspace of the inversion"); LAPACK::zgetri_(n,(dcomplex*)a,lda,p,(dcomplex*)k,lk,info); }
}
#endif
#endif
