// Uninstrumented helpers for the models.
#include <cmath>
#include <new>
extern "C" {
void __verif_throw_bad_alloc(){ throw std::bad_alloc(); }
static double snap(double x){ if(fabs(x)<1e-15) return 0; if(fabs(x-1)<1e-15) return 1; if(fabs(x+1)<1e-15) return -1; if(fabs(x-.5)<1e-15) return .5; if(fabs(x+.5)<1e-15) return -.5; return x; }
double symn_cos2pi(int k,int n){ return snap((double)cosl(2*M_PIl*k/n)); }
double symn_sin2pi(int k,int n){ return snap((double)sinl(2*M_PIl*k/n)); }
}
