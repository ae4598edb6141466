// Numbers as text. Symbolic integers are written digit by digit; a symbolic double is written as a placeholder which stands for its
// decimal text with the requested number of digits: parsing it back gives a value within half a unit of the last digit.
#ifndef TEXT_H
#define TEXT_H
#include "sym.h"
#include <locale>
#include <sstream>
#include <iostream>
#include <string.h>
#include <stdlib.h>
#ifndef SYM_REPLAY
extern "C" { int sym_tag_put(double v,int prec,char*buf); int sym_tag_is(const char*); void sym_tag_exact(int);  double sym_tag_get(const char*); int sym_is_sym(void*,size_t); }
typedef std::num_put<char> NPut; typedef std::num_get<char> NGet;
struct SymNumPut:NPut { typedef iter_type it;
  static it digits(it o,bool neg,unsigned long v){ char b[24]; int n=0; do{ b[n++]=(char)('0'+v%10); v/=10; }while(v&&n<20); if(neg){ *o='-'; ++o; } while(n){ *o=b[--n]; ++o; } return o; }
  template<class T> static bool plain(std::ios_base&b,T&v){ return sym_is_sym(&v,sizeof v)&&b.width()==0&&(b.flags()&std::ios_base::basefield)!=std::ios_base::hex&&!(b.flags()&std::ios_base::showpos); }
  it do_put(it o,std::ios_base&b,char f,long v) const override { if(!plain(b,v)) return NPut::do_put(o,b,f,v); return digits(o,v<0,v<0?0ul-(unsigned long)v:(unsigned long)v); }
  it do_put(it o,std::ios_base&b,char f,unsigned long v) const override { if(!plain(b,v)) return NPut::do_put(o,b,f,v); return digits(o,false,v); }
  it do_put(it o,std::ios_base&b,char f,long long v) const override { return do_put(o,b,f,(long)v); }
  it do_put(it o,std::ios_base&b,char f,unsigned long long v) const override { return do_put(o,b,f,(unsigned long)v); }
  it do_put(it o,std::ios_base&b,char f,double v) const override { char t[48]; int p=b.precision(); auto fl=b.flags()&std::ios_base::floatfield; if(!sym_is_sym(&v,8)) return NPut::do_put(o,b,f,v); if(fl==std::ios_base::fixed) p+=100; else if(fl==std::ios_base::scientific) p++; else if(p==0) p=1; int n=sym_tag_put(v,p,t); if(!n) return NPut::do_put(o,b,f,v); for(int i=0;i<n;i++){ *o=t[i]; ++o; } return o; }
  it do_put(it o,std::ios_base&b,char f,long double v) const override { return NPut::do_put(o,b,f,v); }
  it do_put(it o,std::ios_base&b,char f,bool v) const override { return NPut::do_put(o,b,f,v); }
  it do_put(it o,std::ios_base&b,char f,const void*v) const override { return NPut::do_put(o,b,f,v); } };
struct SymNumGet:NGet { typedef iter_type it; using NGet::do_get;
  it do_get(it i,it e,std::ios_base&b,std::ios_base::iostate&err,double&v) const override { std::string s; while(i!=e){ char c=*i; if(!((c>='0'&&c<='9')||c=='+'||c=='-'||c=='.'||c=='e'||c=='E')) break; s+=c; ++i; if(s.size()>60) break; } if(i==e) err|=std::ios_base::eofbit; if(sym_tag_is(s.c_str())){ v=sym_tag_get(s.c_str()); return i; } char*q; v=s.empty()?0:strtod(s.c_str(),&q); if(s.empty()||*q){ v=0; err|=std::ios_base::failbit; } return i; } };
static void symtext(){ std::locale l(std::locale(std::locale::classic(),new SymNumPut),new SymNumGet); std::locale::global(l); std::cout.imbue(l); std::cerr.imbue(l); }
static const char*tx_sp(const char*s){ while(*s==' '||(*s>=9&&*s<=13)) s++; return s; }
static int tx_scan(const char*s,const char*f,void*out){ s=tx_sp(s); if(!strcmp(f,"%lf")){ char t[80]; int n=0; while(n<79&&s[n]){ char c=s[n]; if(!((c>='0'&&c<='9')||c=='+'||c=='-'||c=='.'||c=='e'||c=='E')) break; t[n++]=c; } t[n]=0; if(!n) return *s?0:-1; if(sym_tag_is(t)){ *(double*)out=sym_tag_get(t); return 1; } if(sym_is_sym(t,n)){ sym_note("incomplete: symbolic text of a real number"); sym_end(); } char*e; double v=strtod(t,&e); if(e==t) return 0; *(double*)out=v; return 1; }
  if(!*s) return -1; bool neg=false; if(*s=='-'){ neg=true; s++; } else if(*s=='+') s++; if(*s<'0'||*s>'9') return 0; unsigned long v=0; int n=0; while(*s>='0'&&*s<='9'&&n<20){ v=v*10+(unsigned long)(*s-'0'); s++; n++; } if(neg) v=0-v;
  if(!strcmp(f,"%d")||!strcmp(f,"%u")) *(int*)out=(int)v; else if(!strcmp(f,"%ld")||!strcmp(f,"%lu")) *(unsigned long*)out=v; else { sym_note("incomplete: scan format"); sym_end(); } return 1; }
// the format of a number
extern "C" void symm__ZNSt10__num_base15_S_format_floatERKSt8ios_basePcc(const std::ios_base&b,char*p,char mod){ auto f=b.flags(); auto l=f&std::ios_base::floatfield; *p++='%'; if(f&std::ios_base::showpos) *p++='+'; if(f&std::ios_base::showpoint) *p++='#'; if(l!=(std::ios_base::fixed|std::ios_base::scientific)){ *p++='.'; *p++='*'; } if(mod) *p++=mod; bool u=f&std::ios_base::uppercase; if(l==std::ios_base::fixed) *p++=u?'F':'f'; else if(l==std::ios_base::scientific) *p++=u?'E':'e'; else if(l==(std::ios_base::fixed|std::ios_base::scientific)) *p++=u?'A':'a'; else *p++=u?'G':'g'; *p=0; }
// the two stream functions for strings which the library keeps compiled even without extern templates
static bool tx_blank(char c){ return c==' '||(c>=9&&c<=13); }
extern "C" { std::istream&symm__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_(std::istream&is,std::string&s,char d){ std::ios_base::iostate st=std::ios_base::goodbit; std::istream::sentry ok(is,true); size_t n=0; if(ok){ s.clear(); std::streambuf*b=is.rdbuf(); for(;;){ int c=b->sbumpc(); if(c==EOF){ st|=std::ios_base::eofbit; break; } n++; if((char)c==d) break; s.push_back((char)c); } } if(!n) st|=std::ios_base::failbit; if(st) is.setstate(st); return is; }
std::istream&symm__ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE(std::istream&is,std::string&s){ std::ios_base::iostate st=std::ios_base::goodbit; std::istream::sentry ok(is,false); size_t n=0; if(ok){ s.clear(); std::streambuf*b=is.rdbuf(); size_t w=is.width()>0?is.width():~0ul; while(n<w){ int c=b->sgetc(); if(c==EOF){ st|=std::ios_base::eofbit; break; } if(tx_blank((char)c)) break; s.push_back((char)c); n++; b->sbumpc(); } is.width(0); } if(!n) st|=std::ios_base::failbit; if(st) is.setstate(st); return is; } }
extern "C" { int symm_sscanf(const char*s,const char*f,void*o){ return tx_scan(s,f,o); } int symm___isoc99_sscanf(const char*s,const char*f,void*o){ return tx_scan(s,f,o); } int symm___isoc23_sscanf(const char*s,const char*f,void*o){ return tx_scan(s,f,o); } }
// numbers printed with at least this many digits (decimals) are taken as they are: for comparisons with a much larger tolerance
static void textexact(int digits){ sym_tag_exact(digits); }
#else
static void textexact(int){}
static void symtext(){}
#endif
#endif
