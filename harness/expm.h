// small dense complex matrices: exponential, eigenvectors, matrix of an operator
#ifndef EXPM_H
#define EXPM_H
typedef std::vector<dcomplex> CV; typedef std::vector<CV> CM;
static CM zero(int n){ return CM(n,CV(n,dcomplex(0,0))); }
static CM mul(const CM&a,const CM&b){ int n=a.size(); CM r=zero(n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) for(int k=0;k<n;k++) r[i][j]=r[i][j]+a[i][k]*b[k][j]; return r; }
// exp(c M) by scaling and a Taylor series
static CM mexp(const CM&M,dcomplex c){ int n=M.size(); CM A=M,R=zero(n),P=zero(n); int sq=0; double nn=0; for(auto&r:M) for(auto&x:r) nn+=cabs(x); nn*=cabs(c); while(nn>0.1){ nn/=2; sq++; } for(auto&r:A) for(auto&x:r) x=x*c*pow(0.5,sq); for(int i=0;i<n;i++) R[i][i]=P[i][i]=1; for(int k=1;k<14;k++){ P=mul(P,A); for(auto&r:P) for(auto&x:r) x=x*(1./k); for(int i=0;i<n;i++) for(int j=0;j<n;j++) R[i][j]=R[i][j]+P[i][j]; } while(sq--) R=mul(R,R); return R; }
// eigenvectors (columns) of a Hermitian matrix by Jacobi rotations
static CM eig(CM A,CV&e){ int n=A.size(); CM Z=zero(n); for(int i=0;i<n;i++) Z[i][i]=1; for(int sw=0;sw<60;sw++) for(int p=0;p<n;p++) for(int q=p+1;q<n;q++){ double a=cabs(A[p][q]); if(a<1e-15) continue; dcomplex ph=A[p][q]*(1/a); double t=0.5*atan2(2*a,A[q][q].real()-A[p][p].real()),c=cos(t),s=sin(t); dcomplex u=ph*s,v=ph.conj()*(-s); for(int i=0;i<n;i++){ dcomplex x=A[i][p],y=A[i][q]; A[i][p]=x*c+y*v; A[i][q]=x*u+y*c; x=Z[i][p]; y=Z[i][q]; Z[i][p]=x*c+y*v; Z[i][q]=x*u+y*c; } for(int j=0;j<n;j++){ dcomplex x=A[p][j],y=A[q][j]; A[p][j]=x*c+v.conj()*y; A[q][j]=u.conj()*x+y*c; } } for(int i=0;i<n;i++) e[i]=A[i][i].real(); return Z; }
static cVec*flat(WaveFunction*w){ return (cVec*)w; }
static int total(WaveFunction*w){ return flat(w)->strides()*flat(w)->lsize(); }
static dcomplex&at(WaveFunction*w,int i){ int n=flat(w)->lsize(); return flat(w)->begin(i/n)[i%n]; }
static CM matrix(Operator*O,WaveFunction*w){ int n=total(w); CM M=zero(n); WaveFunction*a=w->NewInstance(),*b=w->NewInstance(); for(int j=0;j<n;j++){ for(int i=0;i<n;i++) at(a,i)=dcomplex(i==j,0); O->Apply(b,a); for(int i=0;i<n;i++) M[i][j]=at(b,i); } return M; }
#endif
