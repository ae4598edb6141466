//SRC tools/ParamContainer.cpp tools/helpers.cpp tools/Exception.cpp
//TEXT 1
//TIME 300 600
//BOUNDS integers in [-99999,99999] and at the limits of their type, reals in [-1e6,1e6], keys and texts of up to 2 free printable characters, lines of up to 5000 characters, up to 4 entries, arrays of up to 3 elements
//ASSUME the decimal text of a real with n digits parses back to within half a unit of the n-th digit
//REACH numbers limits text lines arrays merge iterate missing
#include "text.h"
#include <vector>
#include "tools/ParamContainer.h"
#include "tools/helpers.h"
using namespace QDLIB;
using namespace std;
static string via(ParamContainer&p,ParamContainer&q,int how){ string b; if(how==0){ q=p; return b; } if(how==1){ p.Write(b,false); q.Parse(b); } if(how==2){ p.Write(b,true); q.Parse(b); } if(how==3){ stringstream s; s<<"junk = 1\n"; string c; p.Write(c,true); s.str(c+"END\nafter = 3\n"); q.Parse(s,"END"); string rest; getline(s,rest); sym_assert(rest=="after = 3","reading stops after the end mark"); } return b; }
static string txt(const char*n,int len,bool key){ string s; char c[8]; sym_bytes(n,c,len); for(int i=0;i<len;i++){ sym_assume(c[i]>=32&&c[i]<127); if(key) sym_assume(c[i]!='='&&c[i]!='['&&c[i]!=']'&&c[i]!=' '); if(key&&i==0) sym_assume(c[i]!='#'); if(!key&&(i==0||i==len-1)) sym_assume(c[i]!=' '); s+=c[i]; } return s; }
extern "C" void sym_main(){ symtext();
  int what=sym_pick("what",0,7);
  if(what==0){ int how=sym_pick("how",0,3),ty=sym_pick("type",0,4); ParamContainer p,q; p.SetValue("other",7);
    if(ty==0){ int v=sym_int("v",-99999,99999),r=3; p.SetValue("a",v); via(p,q,how); sym_assert(q.GetValue("a",r),"a value that was set is present"); sym_assert(r==v,"integer survives"); if(how!=1) sym_assert(q.isType("a",ParamContainer::t_int)&&q.isType("a","int"),"type survives"); double d; q.GetValue("a",d); SYM_ONLY(;) }
    if(ty==1){ long v=sym_long("v",-99999,99999),r=3; p.SetValue("a",v); via(p,q,how); sym_assert(q.GetValue("a",r)&&r==v,"long integer survives"); }
    if(ty==2){ size_t v=(size_t)sym_long("v",0,99999),r=3; p.SetValue("a",v); via(p,q,how); sym_assert(q.GetValue("a",r)&&r==v,"size survives"); unsigned u; sym_assert(q.GetValue("a",u)&&u==v,"size read as unsigned"); if(how!=1) sym_assert(q.isType("a","sizet"),"type survives"); }
    if(ty==3){ double v=sym_double("v",-1e6,1e6),r=3; p.SetValue("a",v); via(p,q,how); sym_assert(q.GetValue("a",r),"a value that was set is present"); sym_close(r,v,1e-8,"real number survives"); if(how!=1) sym_assert(q.isType("a","double"),"type survives"); }
    if(ty==4){ bool v=sym_pick("v",0,1),r=!v; p.SetValue("a",v); via(p,q,how); sym_assert(q.GetValue("a",r)&&r==v,"switch survives"); r=!v; sym_assert(q.GetValue("a",r,!v)&&r==v,"switch survives"); }
    int o=0; sym_assert(q.GetValue("other",o)&&o==7&&q.Size()==2,"other entries survive"); sym_reach("numbers"); }
  if(what==1){ int how=sym_pick("how",0,3); ParamContainer p,q; int i=sym_pick("sign",0,1)?2147483647:-2147483647-1; long l=i<0?-9223372036854775807L-1:9223372036854775807L; size_t s=i<0?18446744073709551615ul:0; static const double D[]={0,1e-300,1.7976931348623157e308,0.1,-0.3333333333333333,6.02214076e23,123456.789012345,1e-9}; double d=D[sym_pick("real",0,7)]; p.SetValue("i",i); p.SetValue("l",l); p.SetValue("s",s); p.SetValue("d",d); via(p,q,how); int i2=1; long l2=1; size_t s2=1; double d2=1; q.GetValue("i",i2); q.GetValue("l",l2); q.GetValue("s",s2); q.GetValue("d",d2);
    sym_assert(i2==i&&l2==l&&s2==s,"extreme integers survive"); double a=d<0?-d:d; sym_close(d2,d,1e-14*a,"real number survives with all its digits"); sym_reach("limits"); }
  if(what==2){ int how=sym_pick("how",0,3),n=sym_pick("len",0,2),k=sym_pick("keylen",1,2); if(n+k>3) sym_end(); ParamContainer p,q; string key=txt("k",k,true),v=n?txt("v",n,false):string(); string other="zzzzz"; int ty=(n+k+how)%3; p.SetValue(key,v,ty==0?ParamContainer::t_undef:ty==1?ParamContainer::t_string:ParamContainer::t_double); p.SetValue(other,string("w")); if(how==3) sym_assume(!(key=="END")); via(p,q,how); string r="x",w; sym_assert(q.GetValue(key,r),"an entry that was set is present"); sym_assert(r==v,"text survives"); sym_assert(q.isPresent(key)&&q.isPresent(key.c_str())&&q.Size()==2,"entries are complete"); char cb[16]; sym_assert(q.GetValue(key,cb)&&!strcmp(cb,v.c_str()),"text as characters");
    if(how!=1) sym_assert(q.GetType(key)==(ty==0?ParamContainer::t_undef:ty==1?ParamContainer::t_string:ParamContainer::t_double),"type survives"); sym_reach("text"); }
  if(what==3){ // hand written lines
    int f=sym_pick("form",0,10); string in; bool there=true; string want="v w"; ParamContainer q; int bl=sym_pick("blanks",0,3); string sp(bl," \t "[bl>1?1:0]); 
    switch(f){ case 0: in="key = v w"; break; case 1: in=sp+"key"+sp+"="+sp+"v w"+sp; break; case 2: in="# key = v w"; there=false; break; case 3: in="\n\n"+sp+"\nkey=v w\n\n"; break; case 4: in="key v w"; there=false; break; case 5: in="key="+sp; want=""; break; case 6: in=sp+"=v w"; there=false; break; case 7: in="key=a=b"; want="a=b"; break; case 8: in="key[double]= v w"; break; case 9: in="key = x\nkey = v w"; break; case 10: in="first = 1\nkey = v w\nlast = 2"; break; }
    q.Parse(in); string r="z"; sym_assert(q.GetValue("key",r)==there,"only lines with a key define an entry"); if(there) sym_assert(r==want,"blanks around key and value do not matter"); if(!there) sym_assert(r.empty(),"a missing text reads as empty"); if(f==10) sym_assert(q.Size()==3,"all lines are read"); else sym_assert(q.Size()==(there?1:0),"nothing else is read"); if(f==8) sym_assert(q.isType("key","double"),"type of a hand written entry");
    if(f==0){ string t="key"; static const int N[4]={10,2040,2047,5000}; string big(N[bl],'y'); ParamContainer b; b.Parse("a=1\nkey="+big+"\nb=2\n"); string s; sym_assert(b.GetValue("key",s)&&s==big,"long lines are read"); int x=0,y=0; b.GetValue("a",x); b.GetValue("b",y); sym_assert(x==1&&y==2,"entries around a long line are read"); bool th=false; try{ b.Parse("k[floaty]=3\n"); }catch(Exception&e){ th=true; } sym_assert(th,"unknown types are refused"); }
    string t=sp+"a b"+sp; trim(t); sym_assert(t=="a b","blanks are removed on both sides"); t=sp; trim(t); sym_assert(t.empty(),"blanks only are removed completely"); sym_reach("lines"); }
  if(what==4){ int how=sym_pick("how",0,3),n=sym_pick("n",1,3),ty=sym_pick("type",0,3); ParamContainer p,q; if(ty==0){ double v[3]; for(int i=0;i<n;i++) v[i]=sym_double("v",-1e3,1e3); p.SetArray("a",v,n); via(p,q,how); vector<double> r; sym_assert(q.GetArray("a",r)&&r.size()==(size_t)n,"length of an array"); for(int i=0;i<n;i++) sym_close(r[i],v[i],1e-11,"array elements survive"); }
    if(ty==1){ int v[3]; for(int i=0;i<n;i++) v[i]=sym_int("v",-99,99); p.SetArray("a",v,n); via(p,q,how); vector<int> r; sym_assert(q.GetArray("a",r)&&r.size()==(size_t)n,"length of an array"); for(int i=0;i<n;i++) sym_assert(r[i]==v[i],"array elements survive"); vector<string> t; q.GetArray("a",t); sym_assert(t.size()==(size_t)n,"an array read as texts"); if(n<3) { vector<double> d; q.GetArray("a",d); sym_assert(d.size()==(size_t)n,"an array read as reals"); } }
    if(ty==2){ size_t v[3]; for(int i=0;i<n;i++) v[i]=(size_t)sym_long("v",0,999); p.SetArray("a",v,n); via(p,q,how); vector<unsigned> r; sym_assert(q.GetArray("a",r)&&r.size()==(size_t)n,"length of an array"); for(int i=0;i<n;i++) sym_assert(r[i]==v[i],"array elements survive"); }
    if(ty==3){ bool v[3]; for(int i=0;i<n;i++) v[i]=sym_pick("v",0,1); p.SetArray("a",v,n); via(p,q,how); vector<bool> r; sym_assert(q.GetArray("a",r)&&r.size()==(size_t)n,"length of an array"); for(int i=0;i<n;i++) sym_assert(r[i]==v[i],"array elements survive"); vector<char> c; q.GetArray("a",c); for(int i=0;i<n;i++) sym_assert(c[i]==(v[i]?'t':'f'),"first characters of an array"); }
    sym_reach("arrays"); }
  if(what==5){ ParamContainer a,b; int m=sym_pick("in a",0,7),k=sym_pick("in b",0,7); for(int i=0;i<3;i++){ string n(1,'a'+i); if(m>>i&1) a.SetValue(n,i); if(k>>i&1) b.SetValue(n,10.5+i); } ParamContainer c=a; c+=b; for(int i=0;i<3;i++){ string n(1,'a'+i); double v=-1; bool h=c.GetValue(n,v); sym_assert(h==((m|k)>>i&1),"merged entries"); sym_close(v,k>>i&1?10.5+i:m>>i&1?i:0,0,"merging overrides"); if(h) sym_assert(c.isType(n,k>>i&1?"double":"int"),"merging overrides types"); double w=-1; a.GetValue(n,w); sym_close(w,m>>i&1?i:0,0,"merging leaves the source alone"); b.GetValue(n,w); sym_close(w,k>>i&1?10.5+i:0,0,"merging leaves the source alone"); }
    c.clear(); sym_assert(c.Size()==0&&!c.isPresent("a")&&c.GetType("a")==ParamContainer::t_undef,"clearing"); sym_reach("merge"); }
  if(what==6){ // iteration
    int m=sym_pick("entries",0,15),how=sym_pick("how",0,4); ParamContainer*o=new ParamContainer(),*p=0; int n=0; for(int i=0;i<4;i++) if(m>>i&1){ o->SetValue(string(1,'a'+i),i); n++; } o->ResetPosition(); string k,v; if(how==1||how==4){ o->GetNextValue(k,v); }
    if(how==0){ p=o; p->ResetPosition(); } if(how==1){ p=o; p->ResetPosition(); } if(how==2){ p=new ParamContainer(); *p=*o; delete o; } if(how==3){ p=new ParamContainer(*o); delete o; p->ResetPosition(); } if(how==4){ p=o; string b; p->Write(b); p->ResetPosition(); }
    int seen=0,c=0; while(p->GetNextValue(k,v)&&c<9){ c++; if(k.size()==1&&k[0]>='a'&&k[0]<='d'&&v==string(1,'0'+(k[0]-'a'))) seen|=1<<(k[0]-'a'); } sym_assert(c==n&&seen==m,"every entry is visited once"); ParamContainer r(p->Params()); sym_assert((int)r.Size()==n,"entries given as a map"); sym_reach("iterate"); }
  if(what==7){ ParamContainer p; int t=sym_pick("text",0,4); static const char*T[]={"","abc"," ","-","."}; int i=77; unsigned u=77; long l=77; size_t s=77; double d=77; bool b=true; string st="x"; char cb[8]="xy";
    sym_assert(!p.GetValue("a",i)&&i==0&&!p.GetValue("a",u)&&u==0&&!p.GetValue("a",l)&&l==0&&!p.GetValue("a",s)&&s==0&&!p.GetValue("a",d)&&d==0&&!p.GetValue("a",b)&&!b&&!p.GetValue("a",st)&&st.empty()&&!p.GetValue("a",cb)&&!cb[0],"missing entries read as nothing"); b=false; sym_assert(!p.GetValue("a",b,true)&&b,"missing switches read as their default"); vector<int> ai; vector<double> ad; sym_assert(!p.GetArray("a",ai)&&!p.GetArray("a",ad)&&ai.empty()&&ad.empty(),"missing arrays");
    p.SetValue("a",T[t]); i=77; u=77; l=77; s=77; d=77; b=true; p.GetValue("a",i); p.GetValue("a",u); p.GetValue("a",l); p.GetValue("a",s); p.GetValue("a",d); p.GetValue("a",b); sym_assert(i==0&&u==0&&l==0&&s==0&&d==0&&!b,"text that is no number reads as zero"); p.GetValue("a",b,true); sym_assert(b,"misspelled switches read as their default"); p.SetValue("c",(string("5,")+T[t]+",7").c_str()); p.GetArray("c",ai); p.GetArray("c",ad); sym_assert(ai.size()==3&&ai[0]==5&&ai[1]==0&&ai[2]==7,"array elements that are no number read as zero"); sym_assert(ad.size()==3&&ad[0]==5&&ad[1]==0&&ad[2]==7,"array elements that are no number read as zero"); sym_reach("missing"); }
}
