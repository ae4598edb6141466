// Harness API. Under symbolic execution these are answered by the engine, in a replay build by values from a file.
#ifndef SYM_H
#define SYM_H
#include <stddef.h>
#include <stdint.h>
extern "C" {
int sym_int(const char*name,int lo,int hi);          // symbolic 32-bit integer in [lo,hi]
int sym_pick(const char*name,int lo,int hi);         // integer in [lo,hi], every feasible value explored as its own path
int64_t sym_long(const char*name,int64_t lo,int64_t hi);
double sym_double(const char*name,double lo,double hi); // symbolic real
void sym_bytes(const char*name,void*p,size_t n);     // n symbolic bytes
void sym_assume(int c);
void sym_assert(int c,const char*msg);
void sym_close(double a,double b,double tol,const char*msg); // assert |a-b|<=tol
void sym_le(double a,double b,double tol,const char*msg);    // assert a<=b+tol
void sym_fail(const char*msg);
void sym_reach(const char*msg);
void sym_note(const char*msg);
void sym_end(void);
int sym_symbolic(void);
void sym_trigadd(int on); void sym_tidy(int on); // keep real terms as polynomials with rounded coefficients
void sym_memcheck(int on);
void sym_omp(int team,int races);
int sym_conc(int v);
double sym_fresh(double lo,double hi);
void sym_dump(const char*,double); void sym_dumpi(const char*,int);
long sym_live(void);
}
#ifdef SYM_REPLAY
#define SYM_ONLY(...)
#else
#define SYM_ONLY(...) __VA_ARGS__
#endif
#endif
