//SRC math/dcomplex.cpp
//TIME 300 600
//BOUNDS operands with both parts in [-2,2] (divisors at least 0.1 away from zero, or exactly zero for functions defined there), powers -16 to 16
//REACH ring divide convert functions power root
#include "sym.h"
#include <math.h>
#include <sstream>
#include "math/dcomplex.h"
using namespace QDLIB;
static dcomplex symc(const char*n,double l=2){ char b[20]; snprintf(b,20,"%sr",n); double r=sym_double(b,-l,l); snprintf(b,20,"%si",n); return dcomplex(r,sym_double(b,-l,l)); }
static void is(dcomplex a,double r,double i,const char*m,double t=1e-9){ sym_close(a.real(),r,t,m); sym_close(a.imag(),i,t,m); }
static void eq(dcomplex a,dcomplex b,const char*m,double t=1e-9){ is(a,b.real(),b.imag(),m,t); }
extern "C" void sym_main(){
  int what=sym_pick("what",0,5); 
  if(what==0){ dcomplex a=symc("a"),b=symc("b"); double ar=a.real(),ai=a.imag(),br=b.real(),bi=b.imag(),d=sym_double("d",-2,2); dcomplex c;
    is(a+b,ar+br,ai+bi,"sum"); is(a-b,ar-br,ai-bi,"difference"); is(a*b,ar*br-ai*bi,ar*bi+ai*br,"product"); is(a+d,ar+d,ai,"sum with a real number"); is(a-d,ar-d,ai,"difference with a real number"); is(a*d,ar*d,ai*d,"product with a real number"); is(d*a,ar*d,ai*d,"real number times complex");
    c=a; c+=b; is(c,ar+br,ai+bi,"+="); c=a; c-=b; is(c,ar-br,ai-bi,"-="); c=a; c*=b; is(c,ar*br-ai*bi,ar*bi+ai*br,"*="); c=a; c*=d; is(c,ar*d,ai*d,"*= with a real number"); c=a; c*=c; is(c,ar*ar-ai*ai,2*ar*ai,"squaring in place");
    is(a.conj(),ar,-ai,"conjugate"); is(conj(a),ar,-ai,"conjugate function"); sym_close(conj(d),d,0,"conjugate of a real number"); c=a; c.conjugate(); is(c,ar,-ai,"conjugate in place"); is(a*I,-ai,ar,"times i"); is(I*a,-ai,ar,"i times"); is(d*I,0,d,"real times i"); is(I*d,0,d,"i times real"); sym_close(I*I,-1,0,"i squared"); sym_reach("ring"); }
  if(what==1){ dcomplex a=symc("a"),b=symc("b"); double n2=b.real()*b.real()+b.imag()*b.imag(); sym_assume(n2>=0.01); double d=sym_double("d",-2,2); sym_assume(d>=0.1||d<=-0.1);
    dcomplex q=a/b; eq(q*b,a,"quotient times divisor",1e-7); dcomplex c=a; c/=b; eq(c,q,"/= is the quotient",1e-7); q=a/d; is(q*d,a.real(),a.imag(),"quotient by a real number",1e-7); q=d/b; is(q*b,d,0,"real number by complex",1e-7); sym_reach("divide"); }
  if(what==2){ double d=sym_double("d",-2,2); int i=sym_int("i",-100,100); dcomplex c(1,1); c=d; is(c,d,0,"assignment of a real number clears the imaginary part",0); c=dcomplex(1,1); c=i; is(c,double(i),0,"assignment of an integer clears the imaginary part",0); c=I; is(c,0,1,"assignment of i",0); is(dcomplex(d),d,0,"conversion of a real number",0); c.real(d); c.imag(-d); is(c,d,-d,"setting the parts",0); dcomplex e; e=c; is(e,d,-d,"assignment",0);
    std::ostringstream o; o<<dcomplex(1.5,-2.25); sym_assert(o.str()=="1.5,-2.25i","printed form"); sym_reach("convert"); }
  if(what==3){ double f=sym_double("f",-20,20),r=sym_double("r",-5,5); dcomplex e=cexpI(f); sym_close(e.real()*e.real()+e.imag()*e.imag(),1,1e-9,"exp(i phi) has modulus one"); is(e,cos(f),sin(f),"exp(i phi) = cos + i sin",1e-9); dcomplex z=cexp(dcomplex(r,f)); is(z,exp(r)*cos(f),exp(r)*sin(f),"exp of a complex number",1e-6); dcomplex zi=cexp(dcomplex(-r,-f)); eq(z*zi,dcomplex(1,0),"exp(z) exp(-z) = 1",1e-6);
    dcomplex a=symc("a"); double n=cabs(a); sym_close(n*n,a.real()*a.real()+a.imag()*a.imag(),1e-9,"modulus"); sym_le(0,n,0,"modulus is not negative");
    if(n>0.01){ sym_trigadd(1); double p=phase(a); sym_close(n*cos(p),a.real(),1e-6,"phase, real part"); sym_close(n*sin(p),a.imag(),1e-6,"phase, imaginary part"); sym_le(p,3.15,0,"phase at most pi"); sym_le(-3.15,p,0,"phase at least -pi"); } sym_reach("functions"); }
  if(what==4){ int n=sym_int("n",-16,16); dcomplex p=cpow(I,n); int m=(n+32)%4; is(p,m==0?1:m==2?-1:0,m==1?1:m==3?-1:0,"powers of i, negative ones included"); sym_reach("power"); }
  if(what==5){ int z=sym_pick("zero",0,1); sym_trigadd(1); dcomplex a=z?dcomplex(0,0):symc("a"); if(!z) sym_assume(a.real()*a.real()+a.imag()*a.imag()>=0.01); dcomplex s=csqrt(a); { dcomplex q=s*s; sym_close(q.real(),a.real(),1e-6,"square of the square root"); double m=s.real()*s.real()+s.imag()*s.imag(); sym_close(m,cabs(a),1e-6,"modulus of the square root"); sym_le(0,s.imag()*a.imag(),1e-9,"half plane of the square root"); } sym_le(0,s.real(),1e-9,"principal square root"); sym_reach("root"); }
}
