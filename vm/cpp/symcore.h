#pragma once
// One line of JSON per failure (after shrinking), and a STATS line at the end.
#include "Symbolics.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csignal>
#include <functional>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
using namespace Symbolics;
typedef long double ld;
using std::vector; using std::string;

// ---------------------------------------------------------------- random numbers
struct Rng {
  unsigned long long s;
  explicit Rng(unsigned long long seed): s(seed*0x9E3779B97F4A7C15ull+0x1234567){ for(int i=0;i<4;++i) next(); }
  unsigned long long next(){ s+=0x9E3779B97F4A7C15ull; unsigned long long z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
  int below(int n){ return (int)(next()%(unsigned long long)n); }
  double uni(){ return (double)(next()>>11)/9007199254740992.0; }
  bool p(double x){ return uni()<x; }
};

// ---------------------------------------------------------------- shapes and values
struct Sh { int nd,r,c; bool operator==(Sh const&o)const{return nd==o.nd&&r==o.r&&c==o.c;} bool operator<(Sh const&o)const{ return nd!=o.nd?nd<o.nd:r!=o.r?r<o.r:c<o.c;} int n()const{return r*c;} };
static const Sh S={0,1,1},V3={1,3,1},V2={1,2,1},R3={1,1,3},R2={1,1,2},M33={2,3,3},M22={2,2,2},M23={2,2,3},M32={2,3,2},V1={1,1,1},M11={2,1,1},C31={2,3,1};
static string shs(Sh const&s){ char b[40]; if(s.nd==0) return "()"; if(s.nd==1) snprintf(b,40,s.c==1?"(%d)":"row(%d)",s.c==1?s.r:s.c); else snprintf(b,40,"(%d,%d)",s.r,s.c); return b; }
struct Val { int r,c; vector<ld> v,d; Val():r(0),c(0){} Val(int R,int C):r(R),c(C),v(R*C,0),d(R*C,0){} ld&at(int i,int j){return v[i*c+j];} ld at(int i,int j)const{return v[i*c+j];} ld&dt(int i,int j){return d[i*c+j];} ld dt(int i,int j)const{return d[i*c+j];} };
struct Undef { const char*why; };   // the expression has no (well-conditioned) value at this point
struct TooBig {};                    // more nodes than the harness is prepared to look at
struct Bad { string why; };         // the library's tree cannot be evaluated
static bool g_tie=false;            // a comparison, sign or pivot was decided by rounding
static bool g_needdiff=false;       // reject points where not differentiable

static ld EPS_DIV=1e-2L, BIG=1e5L;
static Val mulv(Val const&a,Val const&b){
  if(a.r*a.c==1||b.r*b.c==1){ bool as=a.r*a.c==1; Val const&s=as?a:b; Val const&m=as?b:a; if(as&&b.r*b.c==1){} Val o(m.r,m.c); for(size_t i=0;i<o.v.size();++i){o.v[i]=s.v[0]*m.v[i]; o.d[i]=s.d[0]*m.v[i]+s.v[0]*m.d[i];} return o; }
  if(a.c!=b.r) throw Bad{"inner dimensions differ"};
  Val o(a.r,b.c); for(int i=0;i<a.r;++i)for(int j=0;j<b.c;++j){ ld s=0,t=0; for(int k=0;k<a.c;++k){ s+=a.at(i,k)*b.at(k,j); t+=a.dt(i,k)*b.at(k,j)+a.at(i,k)*b.dt(k,j);} o.at(i,j)=s; o.dt(i,j)=t; } return o; }
static Val addv(Val const&a,Val const&b,bool strictBroadcast){
  if(a.r==b.r&&a.c==b.c){ Val o(a.r,a.c); for(size_t i=0;i<o.v.size();++i){o.v[i]=a.v[i]+b.v[i];o.d[i]=a.d[i]+b.d[i];} return o; }
  if(a.r*a.c==1||b.r*b.c==1){ bool as=a.r*a.c==1; Val const&s=as?a:b; Val const&m=as?b:a; Val o(m.r,m.c); for(size_t i=0;i<o.v.size();++i){o.v[i]=s.v[0]+m.v[i];o.d[i]=s.d[0]+m.d[i];} return o; }
  throw Bad{"sum of different shapes"}; }
// gaussian elimination; strict: reject bad pivots
static Val solvev(Val A,Val B,bool strict){
  int n=A.r; if(A.c!=n||B.r!=n) throw Bad{"solve shapes"};
  // value, then derivative: A dX = dB - dA X
  auto lu=[&](Val M,Val R)->Val{ for(int k=0;k<n;++k){ int p=k; for(int i=k;i<n;++i) if(fabsl(M.at(i,k))>fabsl(M.at(p,k))) p=i; if(strict&&fabsl(M.at(p,k))<0.05L) throw Undef{"near singular"}; if(M.at(p,k)==0) throw Bad{"singular matrix"}; if(!strict&&fabsl(M.at(p,k))<1e-9L) g_tie=true; for(int j=0;j<n;++j) std::swap(M.at(k,j),M.at(p,j)); for(int j=0;j<R.c;++j) std::swap(R.at(k,j),R.at(p,j)); for(int i=k+1;i<n;++i){ ld f=M.at(i,k)/M.at(k,k); for(int j=k;j<n;++j) M.at(i,j)-=f*M.at(k,j); for(int j=0;j<R.c;++j) R.at(i,j)-=f*R.at(k,j);} } Val X(n,R.c); for(int j=0;j<R.c;++j) for(int i=n-1;i>=0;--i){ ld s=R.at(i,j); for(int k=i+1;k<n;++k) s-=M.at(i,k)*X.at(k,j); X.at(i,j)=s/M.at(i,i);} return X; };
  Val X=lu(A,B); Val R(n,B.c); for(int i=0;i<n;++i)for(int j=0;j<B.c;++j){ ld s=B.dt(i,j); for(int k=0;k<n;++k) s-=A.dt(i,k)*X.at(k,j); R.at(i,j)=s; } Val D=lu(A,R); X.d=D.v; return X; }
static Val eyev(int n){ Val o(n,n); for(int i=0;i<n;++i) o.at(i,i)=1; return o; }
static void pw(ld a,ld ad,ld e,bool strict,ld&v,ld&d){
  bool ie=(e==floorl(e));
  if(strict){ if(e<0&&fabsl(a)<EPS_DIV) throw Undef{"division by zero"}; if(!ie&&a<EPS_DIV) throw Undef{"root of a non-positive number"}; if(e==0&&fabsl(a)<EPS_DIV) throw Undef{"0^0"}; }
  v=powl(a,e); if(a<0&&!ie){ throw Bad{"root of a negative number"}; }
  d= e==0?0: ad==0?0: e*powl(a,e-1)*ad; if(e==1) d=ad; }
static Val powm(Val const&a,ld e,bool strict){
  if(a.r*a.c==1){ Val o(a.r,a.c); pw(a.v[0],a.d[0],e,strict,o.v[0],o.d[0]); return o; }
  if(a.r!=a.c) throw Bad{"power of a non-square matrix"};
  if(e!=floorl(e)) throw Bad{"fractional power of a matrix"};
  int k=(int)fabsl(e); if(k>40) throw Bad{"huge power"}; Val o=eyev(a.r); for(int i=0;i<k;++i) o=mulv(o,a);
  if(e<0) o=solvev(o,eyev(a.r),strict); return o; }
static Val skewv(Val const&a){ if(a.r*a.c!=3) throw Bad{"skew of a non 3-vector"}; Val o(3,3); for(int z=0;z<2;++z){ vector<ld> const&x=z?a.d:a.v; vector<ld>&y=z?o.d:o.v; y[1]=-x[2]; y[2]=x[1]; y[3]=x[2]; y[5]=-x[0]; y[6]=-x[1]; y[7]=x[0]; } return o; }
static Val transv(Val const&a){ Val o(a.c,a.r); for(int i=0;i<a.r;++i)for(int j=0;j<a.c;++j){o.at(j,i)=a.at(i,j);o.dt(j,i)=a.dt(i,j);} return o; }
enum Fn { F_SIN,F_COS,F_TAN,F_ASIN,F_ACOS,F_ATAN,F_ABS,F_SIGN };
static void fn1(int f,ld x,ld xd,bool strict,ld&v,ld&d){
  switch(f){
  case F_SIN: v=sinl(x); d=cosl(x)*xd; break;
  case F_COS: v=cosl(x); d=-sinl(x)*xd; break;
  case F_TAN: if(strict&&fabsl(cosl(x))<0.05L) throw Undef{"tan pole"}; v=tanl(x); d=xd*(1+v*v); break;
  case F_ASIN: if(strict&&fabsl(x)>0.99L) throw Undef{"asin domain"}; v=asinl(x); d= xd==0?0:xd/sqrtl(1-x*x); break;
  case F_ACOS: if(strict&&fabsl(x)>0.99L) throw Undef{"acos domain"}; v=acosl(x); d= xd==0?0:-xd/sqrtl(1-x*x); break;
  case F_ATAN: v=atanl(x); d=xd/(1+x*x); break;
  case F_ABS: if(strict&&g_needdiff&&fabsl(x)<1e-3L) throw Undef{"abs kink"}; v=fabsl(x); d= x<0?-xd:xd; break;
  case F_SIGN: if(strict&&fabsl(x)<1e-3L&&(x!=0||g_needdiff)) throw Undef{"sign jump"}; if(!strict&&fabsl(x)<1e-9L) g_tie=true; v=x<0?-1:x>0?1:0; d=0; break;
  } }
static Val fnv(int f,Val const&a,bool strict){ Val o(a.r,a.c); for(size_t i=0;i<o.v.size();++i) fn1(f,a.v[i],a.d[i],strict,o.v[i],o.d[i]); return o; }
static Val atan2v(Val const&a,Val const&b,bool strict){ if(a.r*a.c!=1||b.r*b.c!=1) throw Bad{"atan2 of matrices"}; Val o(1,1); ld y=a.v[0],x=b.v[0]; ld q=x*x+y*y; if(!strict&&y==0&&x<=0) throw Bad{"atan2 cut"}; if(strict&&(q<1e-2L||(x<0&&fabsl(y)<1e-2L))) throw Undef{"atan2 cut"}; o.v[0]=atan2l(y,x); o.d[0]= q==0?0:(x*a.d[0]-y*b.d[0])/q; return o; }
// cmp: 0 less 1 greater 2 equal ; returns truth
static bool cmpv(int op,Val const&a,Val const&b,bool strict){ if(a.r*a.c!=1||b.r*b.c!=1) throw Bad{"comparison of matrices"}; ld x=a.v[0],y=b.v[0]; if(strict&&fabsl(x-y)<1e-3L&&(x!=y||g_needdiff||x!=floorl(x*1024)/1024)) throw Undef{"comparison tie"}; if(!strict&&fabsl(x-y)<1e-9L*(1+fabsl(x))) g_tie=true; return op==0?x<y:op==1?x>y:x==y; }

// ---------------------------------------------------------------- recipes
enum Op { CONST,SYM,ADD,SUB,NEG,MUL,DIV,POW,SQRT,FUN,ATAN2,IF,MAT,SMAT,TRANS,SKEW,SCALAR,ELEM,INV,SOLVE,OUTER,ZERO,EYE,SIMP };
static const char*opn[]={"const","sym","add","sub","neg","mul","div","pow","sqrt","fun","atan2","if","mat","symmat","transpose","skew","scalar","elem","inv","solve","outer","zero","eye","simp"};
static const char*fnn[]={"sin","cos","tan","asin","acos","atan","abs","sign"};
struct N { int op; vector<int> a; Sh sh; double k; int i,j; N():op(0),sh(S),k(0),i(0),j(0){} };
typedef vector<N> Rec;               // topologically ordered, last one is the root
struct SymT { const char*name; Sh sh; Symbol_Kind kind; };
static const SymT SYMS[]={ {"x",S,VARIABLE},{"y",S,VARIABLE},{"z",S,VARIABLE},{"p",S,PARAMETER},{"c",S,CONSTANT},{"u",V3,VARIABLE},{"v",V3,VARIABLE},{"w",V2,VARIABLE},{"A",M33,VARIABLE},{"B",M33,PARAMETER},{"C",M22,VARIABLE},{"D",M23,VARIABLE},{"in",S,INPUT},{"q1",V1,VARIABLE} };
static const int NSYM=sizeof(SYMS)/sizeof(SYMS[0]);

static string num(double k,bool isint){ char b[40]; if(isint) snprintf(b,40,"%d",(int)k); else { snprintf(b,40,"%.17g",k); if(!strpbrk(b,".en")) strcat(b,".0"); } return b; }
static string str(Rec const&R,int i){ N const&n=R[i]; auto A=[&](int k){return str(R,n.a[k]);};
  switch(n.op){ case CONST: return num(n.k,n.i); case SYM: return SYMS[n.i].name; case ADD: return "("+A(0)+" + "+A(1)+")"; case SUB: return "("+A(0)+" - "+A(1)+")"; case NEG: return "-("+A(0)+")"; case MUL: return "("+A(0)+" * "+A(1)+")"; case DIV: return "("+A(0)+" / "+A(1)+")"; case POW: return "("+A(0)+")**"+num(n.k,n.i); case SQRT: return "sqrt("+A(0)+")"; case FUN: return string(fnn[n.i])+"("+A(0)+")"; case ATAN2: return "atan2("+A(0)+","+A(1)+")"; case IF: { const char*o[]={"<",">","=="}; return "If("+A(0)+o[n.i]+A(1)+","+A(2)+","+A(3)+")"; } case MAT: case SMAT: { string s=(n.op==MAT?"mat":"symmat")+shs(n.sh)+"["; for(size_t k=0;k<n.a.size();++k) s+=(k?",":"")+A(k); return s+"]"; } case TRANS: return "transpose("+A(0)+")"; case SKEW: return "skew("+A(0)+")"; case SCALAR: return "scalar("+A(0)+")"; case ELEM: return A(0)+"["+std::to_string(n.i)+","+std::to_string(n.j)+"]"; case INV: return "inv("+A(0)+")"; case SOLVE: return "solve("+A(0)+","+A(1)+")"; case OUTER: return "outer("+A(0)+","+A(1)+")"; case ZERO: return "zeros"+shs(n.sh); case EYE: return "eye("+std::to_string(n.sh.r)+")"; case SIMP: return "simplify("+A(0)+")"; }
  return "?"; }

// ---------------------------------------------------------------- generator (shape directed, with sharing)
struct Gen { Rng&r; Rec R; int budget; bool wide; Gen(Rng&rr,int b,bool w):r(rr),budget(b),wide(w){}
  int push(N n){ R.push_back(n); return (int)R.size()-1; }
  int leaf(Sh sh){ N n; n.sh=sh; vector<int> c; for(int i=0;i<NSYM;++i) if(SYMS[i].sh==sh) c.push_back(i);
    if(sh.nd==0){ if(r.p(0.3)){ n.op=CONST; static const double ks[]={0,1,-1,2,-2,3,0.5,-0.5,1.5,0.25,4,-3,0.1,10,2.5,-1.25}; n.k=ks[r.below(16)]; n.i=(n.k==floor(n.k)&&r.p(0.7)); return push(n);} if(r.p(0.85)) { n.op=SYM; n.i=r.below(r.p(0.6)?2:5); return push(n);} }
    if(sh.nd==0&&r.p(0.2)){ n.op=SYM; n.i=12; return push(n);}
    if(!c.empty()&&r.p(0.75)){ n.op=SYM; n.i=c[r.below(c.size())]; return push(n);} 
    if(sh.r==sh.c&&sh.nd==2&&r.p(0.3)){ n.op=EYE; return push(n);} 
    if(sh.nd>0&&r.p(0.3)){ n.op=ZERO; return push(n);} 
    if(sh.nd==1&&sh.r==1&&sh.c>1){ n.op=TRANS; Sh t={1,sh.c,1}; n.a.push_back(leaf(t)); return push(n);} 
    if(sh==M32){ n.op=TRANS; n.a.push_back(leaf(M23)); return push(n);} 
    if(sh.nd==0){ n.op=SYM; n.i=r.below(5); return push(n);} 
    n.op=MAT; bool same=r.p(0.25); int s0=-1; for(int k=0;k<sh.n();++k){ if(same&&s0>=0) n.a.push_back(s0); else n.a.push_back(s0=leaf(S)); } return push(n); }
  // an expression whose value, shape and kind only show when it is simplified: If((s-s)+1 < (s-s)+2, what, other)
  int konst(double k){ int s=leaf(S); N d; d.sh=S; d.op=SUB; d.a={s,s}; int z=push(d); N c; c.sh=S; c.op=CONST; c.k=k; c.i=(k==floor(k)); int kk=push(c); N a; a.sh=S; a.op=ADD; a.a={z,kk}; return push(a); }
  int late(int what){ Sh sh=R[what].sh; int other=r.p(0.7)?leaf(sh):gen(sh); static const double ks[]={-2,-1,-0.5,0,1,2,3.5}; int p=r.below(7),q=r.below(7); if(p==q) q=(q+1)%7; int x=konst(ks[p]),y=konst(ks[q]); N n; n.sh=sh; n.op=IF; n.i=r.below(2); bool c= n.i==0? p<q : p>q; if(c) n.a={x,y,what,other}; else n.a={x,y,other,what}; return push(n); }
  // one of the kinds of expressions operations have shortcuts for
  int special(Sh sh){ if(sh.nd==0||sh.n()==1) return gen(sh); N n; n.sh=sh; bool sq=sh.nd==2&&sh.r==sh.c;
    switch(r.below(12)){ case 0: n.op=NEG; n.a={leaf(sh)}; break; case 1: n.op=TRANS; n.a={leaf(Sh{sh.nd,sh.c,sh.r})}; break; case 2: n.op=ZERO; break;
      case 3: if(!(sh==M33)) return leaf(sh); n.op=SKEW; n.a={leaf(V3)}; break; case 4: if(!(sh==M33)) return gen(sh); n.op=SKEW; n.a={gen(V3)}; break;
      case 5: if(!sq) return gen(sh); n.op=EYE; break; case 6: if(!sq) return gen(sh); n.op=OUTER; n.a={leaf(Sh{1,sh.r,1}),leaf(Sh{1,sh.r,1})}; break;
      case 7: n.op=MAT; for(int k=0;k<sh.n();++k) n.a.push_back(leaf(S)); break; case 8: n.op=ADD; n.a={leaf(sh),leaf(sh)}; break;
      case 9: n.op=MUL; n.a={leaf(S),leaf(sh)}; break; case 10: n.op=DIV; n.a={leaf(sh),leaf(S)}; break;
      default: if(!sq) return leaf(sh); n.op=SMAT; for(int k=0;k<sh.r*(sh.r+1)/2;++k) n.a.push_back(leaf(S)); break; }
    return push(n); }
  int gen(Sh sh){
    if(!R.empty()&&r.p(0.22)){ vector<int> c; for(size_t i=0;i<R.size();++i) if(R[i].sh==sh) c.push_back(i); if(!c.empty()) return c[r.below(c.size())]; }
    if(budget--<=0) return leaf(sh);
    if((sh.nd==0||sh.n()>1)&&r.p(0.04)) return late(r.p(0.6)?special(sh):gen(sh));
    N n; n.sh=sh;
    Sh any[]={S,S,V3,V2,R3,R2,M33,M22,M23,M32}; 
    if(sh.nd==0) switch(r.below(24)){
      case 0: case 1: case 2: n.op=ADD; n.a={gen(S),gen(S)}; break;
      case 3: n.op=SUB; n.a={gen(S),gen(S)}; break;
      case 4: n.op=NEG; n.a={gen(S)}; break;
      case 5: case 6: case 7: n.op=MUL; n.a={gen(S),gen(S)}; break;
      case 8: case 9: n.op=DIV; n.a={gen(S),gen(S)}; break;
      case 10: case 11: { static const double e[]={2,3,-1,-2,0.5,0,1,-0.5,1.5,4,2,2}; n.op=POW; n.k=e[r.below(12)]; n.i=(n.k==floor(n.k))&&r.p(0.5); n.a={gen(S)}; break; }
      case 12: n.op=SQRT; n.a={gen(S)}; break;
      case 13: case 14: case 15: n.op=FUN; n.i=r.below(8); n.a={gen(S)}; break;
      case 16: n.op=ATAN2; n.a={gen(S),gen(S)}; break;
      case 17: n.op=IF; n.i=r.below(3); n.a={gen(S),gen(S),gen(S),gen(S)}; break;
      case 18: case 19: { Sh m=any[2+r.below(8)]; n.op=ELEM; n.a={r.p(0.2)?late(special(m)):gen(m)}; n.i=r.below(m.r); n.j=r.below(m.c); break; }
      case 20: case 21: n.op=MUL; if(r.p(0.6)) n.a={gen(R3),gen(V3)}; else n.a={gen(R2),gen(V2)}; break;
      case 22: n.op=SCALAR; n.a={gen(V1)}; break;
      default: n.op=SIMP; n.a={gen(S)}; break; }
    else if(sh==V1||sh==M11) switch(r.below(4)){
      case 0: n.op=MAT; n.a={gen(S)}; break;
      case 1: n.op=ADD; n.a={gen(sh),gen(sh)}; break;
      case 2: n.op=MUL; n.a={gen(S),gen(sh)}; break;
      default: n.op=NEG; n.a={gen(sh)}; break; }
    else { int sq=sh.nd==2&&sh.r==sh.c;
      switch(r.below(26)){
      case 0: case 1: case 2: n.op=ADD; n.a={gen(sh),gen(sh)}; break;
      case 3: n.op=SUB; n.a={gen(sh),gen(sh)}; break;
      case 4: n.op=NEG; n.a={gen(sh)}; break;
      case 5: case 6: n.op=MUL; if(r.p(0.5)) n.a={gen(S),gen(sh)}; else n.a={gen(sh),gen(S)}; break;
      case 7: n.op=DIV; n.a={gen(sh),gen(S)}; break;
      case 8: n.op=(r.p(0.7)?ADD:SUB); if(r.p(0.5)) n.a={gen(S),gen(sh)}; else n.a={gen(sh),gen(S)}; break;
      case 9: case 10: case 11: case 12: { int k=2+r.below(2); n.op=MUL; Sh L,Rr;
          if(sh.nd==1&&sh.c==1){ L={2,sh.r,k}; Rr={1,k,1}; } else if(sh.nd==1){ L={1,1,k}; Rr={2,k,sh.c}; }
          else if(r.p(0.25)&&sh.r>1&&sh.c>1){ L={1,sh.r,1}; Rr={1,1,sh.c}; } else { L={2,sh.r,k}; Rr={2,k,sh.c}; }
          n.a={gen(L),gen(Rr)}; break; }
      case 13: case 14: { n.op=TRANS; Sh t={sh.nd,sh.c,sh.r}; n.a={gen(t)}; break; }
      case 15: n.op=IF; n.i=r.below(3); n.a={gen(S),gen(S),gen(sh),gen(sh)}; break;
      case 16: if(sh.n()<=4||r.p(0.3)){ if(sq&&r.p(0.4)){ n.op=SMAT; for(int k=0;k<sh.r*(sh.r+1)/2;++k) n.a.push_back(r.p(0.5)?leaf(S):gen(S)); } else { n.op=MAT; for(int k=0;k<sh.n();++k) n.a.push_back(r.p(0.5)?leaf(S):gen(S)); } break; } return gen(sh);
      case 17: if(sh==M33){ n.op=SKEW; n.a={gen(V3)}; break; } n.op=SIMP; n.a={gen(sh)}; break;
      case 18: if(sq){ n.op=OUTER; Sh t={1,sh.r,1}; n.a={gen(t),gen(t)}; break; } return gen(sh);
      case 19: if(sq&&wide){ n.op=INV; n.a={gen(sh)}; break; } if(sh.nd==1&&sh.c==1){ n.op=SOLVE; Sh m={2,sh.r,sh.r}; n.a={gen(m),gen(sh)}; break; } return gen(sh);
      case 20: if(sh.nd==1&&sh.c==1){ n.op=SOLVE; Sh m={2,sh.r,sh.r}; n.a={gen(m),gen(sh)}; break; } return leaf(sh);
      case 21: if(sq){ static const double e[]={2,3,-1,1,-2,2}; n.op=POW; n.k=e[r.below(wide?6:2)]; n.i=r.p(0.5); n.a={gen(sh)}; break; } return leaf(sh);
      case 22: if(wide&&r.p(0.5)){ n.op=FUN; n.i=r.below(8); n.a={gen(sh)}; break; } return leaf(sh);
      case 23: n.op=MUL; n.a={gen(S),gen(sh)}; break;
      default: n.op=SIMP; n.a={gen(sh)}; break; } }
    return push(n); } };
static void compact(Rec&R,int root){ vector<char> use(root+1,0); use[root]=1; for(int i=root;i>=0;--i) if(use[i]) for(int a:R[i].a) use[a]=1; vector<int> mp(root+1,-1); Rec O; for(int i=0;i<=root;++i) if(use[i]){ mp[i]=O.size(); N n=R[i]; for(int&a:n.a) a=mp[a]; O.push_back(n);} R=O; }
static Rec makeRec(Rng&r,bool wide){ static const int bs[]={1,2,2,3,3,4,5,6,8,10,14,22}; Sh roots[]={S,S,S,V3,V2,R3,M33,M22,M23,M32,R2}; for(;;){ Gen g(r,bs[r.below(12)],wide); Sh sh=roots[r.below(11)]; int i=g.gen(sh); Rec R=g.R; compact(R,i); if(R.size()<=80) return R; } }

// ---------------------------------------------------------------- points
struct Point { vector<Val> s; vector<Val> td; };     // values and time derivatives of the symbols
static Point makePoint(Rng&r,int kind){ Point P; for(int i=0;i<NSYM;++i){ Val v(SYMS[i].sh.r,SYMS[i].sh.c),t(SYMS[i].sh.r,SYMS[i].sh.c); for(size_t k=0;k<v.v.size();++k){ double x; switch(kind%4){ case 0: x=r.uni()*4-2; break; case 1: x=r.uni()*2+0.1; break; case 2: x=r.uni()*9-4.5; break; default: x=r.uni()*0.8+0.1; } if(fabs(x)<0.02) x=0.37; v.v[k]=x; bool moving=SYMS[i].kind!=PARAMETER&&SYMS[i].kind!=CONSTANT; t.v[k]= moving? r.uni()*4-2: 0; } P.s.push_back(v); P.td.push_back(t);} return P; }

// ---------------------------------------------------------------- reference semantics of a recipe
struct Ref { vector<Val> v; vector<char> ok; vector<char> tiny; ld scale; };
// acos(cos(x)) is read as x (likewise asin/sin and atan/tan; the project's own tests ask for it), so such a
// composition is only judged where the inner argument is a plain symbol on the principal branch.
static bool invBad(Rec const&R,int root,Point const&P){ int f=R[root].i,g= f==F_ACOS?F_COS:f==F_ASIN?F_SIN:f==F_ATAN?F_TAN:-1; if(g<0) return false;
  vector<char> in(root+1,0); in[root]=1; for(int i=root;i>=0;--i) if(in[i]) for(int a:R[i].a) in[a]=1;
  for(int i=0;i<root;++i) if(in[i]&&R[i].op==FUN&&R[i].i==g){ N const&s=R[R[i].a[0]]; if(s.op!=SYM) return true; for(ld x:P.s[s.i].v) if(f==F_ACOS? (x<0||x>3.14159265L): fabsl(x)>1.57079632L) return true; }
  return false; }
// seed(sym)->derivative direction; jitter: relative perturbation of every intermediate
typedef std::function<Val(int)> Seed;
static Ref refEval(Rec const&R,Point const&P,Seed const&seed,ld jitter,unsigned long long jseed){
  Ref o; o.v.resize(R.size()); o.ok.assign(R.size(),1); o.scale=0; Rng jr(jseed);
  for(size_t i=0;i<R.size();++i){ N const&n=R[i];
    try{
      auto need=[&](int k)->Val const&{ if(!o.ok[n.a[k]]) throw Undef{"argument"}; return o.v[n.a[k]]; };
      Val v;
      switch(n.op){
      case CONST: v=Val(1,1); v.v[0]=n.k; break;
      case SYM: v=P.s[n.i]; v.d=seed(n.i).v; break;
      case ADD: v=addv(need(0),need(1),true); break;
      case SUB: { Val b=need(1); for(auto&x:b.v)x=-x; for(auto&x:b.d)x=-x; v=addv(need(0),b,true); break; }
      case NEG: v=need(0); for(auto&x:v.v)x=-x; for(auto&x:v.d)x=-x; break;
      case MUL: v=mulv(need(0),need(1)); break;
      case DIV: v=mulv(need(0),powm(need(1),-1,true)); break;
      case POW: v=powm(need(0),n.k,true); break;
      case SQRT: v=powm(need(0),0.5L,true); break;
      case FUN: if(invBad(R,(int)i,P)) throw Undef{"branch"}; v=fnv(n.i,need(0),true); break;
      case ATAN2: v=atan2v(need(0),need(1),true); break;
      case IF: { bool c=cmpv(n.i,need(0),need(1),true); v=need(c?2:3); break; }
      case MAT: v=Val(n.sh.r,n.sh.c); for(size_t k=0;k<n.a.size();++k){ v.v[k]=need(k).v[0]; v.d[k]=need(k).d[0]; } break;
      case SMAT: { v=Val(n.sh.r,n.sh.c); int k=0; for(int a=0;a<n.sh.r;++a) for(int b=a;b<n.sh.r;++b,++k){ v.at(a,b)=v.at(b,a)=need(k).v[0]; v.dt(a,b)=v.dt(b,a)=need(k).d[0]; } break; }
      case TRANS: v=transv(need(0)); break;
      case SKEW: v=skewv(need(0)); break;
      case SCALAR: v=need(0); break;
      case ELEM: { Val const&a=need(0); v=Val(1,1); v.v[0]=a.at(n.i,n.j); v.d[0]=a.dt(n.i,n.j); break; }
      case INV: v=solvev(need(0),eyev(n.sh.r),true); break;
      case SOLVE: v=solvev(need(0),need(1),true); break;
      case OUTER: v=mulv(need(0),transv(need(1))); break;
      case ZERO: v=Val(n.sh.r,n.sh.c); break;
      case EYE: v=eyev(n.sh.r); break;
      case SIMP: v=need(0); break; }
      for(size_t k=0;k<v.v.size();++k){ if(!(fabsl(v.v[k])<BIG)||!(fabsl(v.d[k])<BIG*100)) throw Undef{"too large"}; if(fabsl(v.v[k])>o.scale) o.scale=fabsl(v.v[k]); if(fabsl(v.d[k])>o.scale) o.scale=fabsl(v.d[k]); if(jitter>0&&n.op!=IF){ v.v[k]*=1+jitter*(jr.uni()-0.5); v.d[k]*=1+jitter*(jr.uni()-0.5);} }
      o.v[i]=v;
    } catch(Undef&){ o.ok[i]=0; } catch(Bad&b){ o.ok[i]=0; fprintf(stderr,"generator bug: %s in %s\n",b.why.c_str(),str(R,i).c_str()); abort(); }
  } return o; }

// ---------------------------------------------------------------- the library's objects
struct Ctx { vector<BasicPtr> sym; Ctx(){ for(int i=0;i<NSYM;++i){ Sh s=SYMS[i].sh; Shape sp; if(s.nd==1) sp=Shape(1,s.r,s.c); else if(s.nd==2) sp=Shape(s.r,s.c); sym.push_back(BasicPtr(new Symbol(SYMS[i].name,sp,SYMS[i].kind))); } } };
static Shape shp(Sh s){ if(s.nd==0) return Shape(); if(s.nd==1) return Shape(1,s.r,s.c); return Shape(s.r,s.c); }
static BasicPtr buildNode(N const&n,vector<BasicPtr> const&b,Ctx&c){
  auto A=[&](int k)->BasicPtr const&{ return b[n.a[k]]; };
  switch(n.op){
  case CONST: return n.i? BasicPtr(new Int((int)n.k)): BasicPtr(new Real(n.k));
  case SYM: return c.sym[n.i];
  case ADD: return Add::New(A(0),A(1));
  case SUB: return Add::New(A(0),Neg::New(A(1)));
  case NEG: return Neg::New(A(0));
  case MUL: return Mul::New(A(0),A(1));
  case DIV: return Util::div(A(0),A(1));
  case POW: return Pow::New(A(0), n.i? BasicPtr(new Int((int)n.k)): BasicPtr(new Real(n.k)));
  case SQRT: return Util::sqrt(A(0));
  case FUN: switch(n.i){ case F_SIN: return Sin::New(A(0)); case F_COS: return Cos::New(A(0)); case F_TAN: return Tan::New(A(0)); case F_ASIN: return Asin::New(A(0)); case F_ACOS: return Acos::New(A(0)); case F_ATAN: return Atan::New(A(0)); case F_ABS: return Abs::New(A(0)); case F_SIGN: return Sign::New(A(0)); } break;
  case ATAN2: return Atan2::New(A(0),A(1));
  case IF: { BasicPtr cond= n.i==0? Less::New(A(0),A(1)): n.i==1? Greater::New(A(0),A(1)): Equal::New(A(0),A(1)); return If::New(cond,A(2),A(3)); }
  case MAT: { BasicPtrVec v; for(size_t k=0;k<n.a.size();++k) v.push_back(A(k)); return BasicPtr(new Matrix(v,shp(n.sh))); }
  case SMAT: { BasicPtrVec v; for(size_t k=0;k<n.a.size();++k) v.push_back(A(k)); return BasicPtr(new SymmetricMatrix(v,shp(n.sh))); }
  case TRANS: return Transpose::New(A(0));
  case SKEW: return Skew::New(A(0));
  case SCALAR: return Scalar::New(A(0));
  case ELEM: return Element::New(A(0),n.i,n.j);
  case INV: return Inverse::New(A(0));
  case SOLVE: return Solve::New(A(0),A(1));
  case OUTER: return Outer::New(A(0),A(1));
  case ZERO: return Zero::getZero(shp(n.sh));
  case EYE: return Util::eye(shp(n.sh));
  case SIMP: return A(0)->simplify(); }
  throw Bad{"op"}; }
static vector<BasicPtr> buildAll(Rec const&R,Ctx&c){ vector<BasicPtr> b; b.reserve(R.size()); for(size_t i=0;i<R.size();++i) b.push_back(buildNode(R[i],b,c)); return b; }

// independent evaluation of a library tree.  `special`: node for which a value is prescribed (substitution oracle)
struct LibEval { Point const&P; Seed seed; Ctx&ctx; std::function<bool(const Basic*,Val&)> special; std::map<const Basic*,Val> memo; long steps;
  LibEval(Point const&p,Seed s,Ctx&c):P(p),seed(s),ctx(c),steps(0){}
  Val ev(BasicPtr const&b){ if(b.get()==NULL) throw Bad{"null expression"}; auto it=memo.find(b.get()); if(it!=memo.end()) return it->second; if(++steps>200000) throw TooBig(); Val v; if(special&&special(b.get(),v)){} else v=ev1(b);
    for(auto x:v.v) if(std::isnan(x)) throw Bad{"evaluates to not-a-number"}; memo[b.get()]=v; return v; }
  Val ev1(BasicPtr const&b){ auto A=[&](int k){ return ev(b->getArg(k)); };
    switch(b->getType()){
    case Type_Bool: { const Bool*p=dynamic_cast<const Bool*>(b.get()); Val v(1,1); v.v[0]=p->getValue(); return v; }
    case Type_Symbol: { const Symbol*p=dynamic_cast<const Symbol*>(b.get()); for(int i=0;i<NSYM;++i) if(p->getName()==SYMS[i].name){ Val v=P.s[i]; v.d=seed(i).v; return v; } throw Bad{"foreign symbol "+p->getName()}; }
    case Type_Zero: { return Val(b->getShape().getDimension(1),b->getShape().getDimension(2)); }
    case Type_Eye: return eyev(b->getShape().getDimension(1));
    case Type_Int: { Val v(1,1); v.v[0]=dynamic_cast<const Int*>(b.get())->getValue(); return v; }
    case Type_Real: { Val v(1,1); v.v[0]=dynamic_cast<const Real*>(b.get())->getValue(); return v; }
    case Type_Matrix: { const Matrix*m=dynamic_cast<const Matrix*>(b.get()); int r=b->getShape().getDimension(1),c=b->getShape().getDimension(2); Val v(r,c); for(int i=0;i<r;++i)for(int j=0;j<c;++j){ Val e=ev(m->get(i,j)); if(e.r*e.c!=1) throw Bad{"matrix with a non-scalar entry"}; v.at(i,j)=e.v[0]; v.dt(i,j)=e.d[0]; } return v; }
    case Type_Neg: { Val v=A(0); for(auto&x:v.v)x=-x; for(auto&x:v.d)x=-x; return v; }
    case Type_Add: { if(b->getArgsSize()==0) throw Bad{"empty sum"}; Val v=A(0); for(size_t i=1;i<b->getArgsSize();++i) v=addv(v,A(i),false); return v; }
    case Type_Mul: { if(b->getArgsSize()==0) throw Bad{"empty product"};
        // scalars commute: multiply the non-scalar factors in order
        Val sc(1,1); sc.v[0]=1; Val m; bool has=false; for(size_t i=0;i<b->getArgsSize();++i){ Val a=A(i); if(b->getArg(i)->is_Scalar()) sc=mulv(sc,a); else if(!has){ m=a; has=true; } else m=mulv(m,a); } return has?mulv(sc,m):sc; }
    case Type_Pow: { Val e=A(1); return powm(A(0),e.v[0],false); }
    case Type_Sin: return fnv(F_SIN,A(0),false); case Type_Cos: return fnv(F_COS,A(0),false); case Type_Tan: return fnv(F_TAN,A(0),false);
    case Type_Asin: return fnv(F_ASIN,A(0),false); case Type_Acos: return fnv(F_ACOS,A(0),false); case Type_Atan: return fnv(F_ATAN,A(0),false);
    case Type_Abs: return fnv(F_ABS,A(0),false); case Type_Sign: return fnv(F_SIGN,A(0),false);
    case Type_Atan2: return atan2v(A(0),A(1),false);
    case Type_Der: { Val a=ev(b->getArg(0)); Val v(a.r,a.c);
        LibEval t(P,[&](int i){ return P.td[i]; },ctx); Val d=t.ev(b->getArg(0)); v.v=d.d; v.d.assign(v.v.size(),0); return v; }
    case Type_Element: { const Element*e=dynamic_cast<const Element*>(b.get()); Val a=ev(b->getArg(0)); Val v(1,1); if((int)e->getRow()>=a.r||(int)e->getCol()>=a.c) throw Bad{"element outside"}; v.v[0]=a.at(e->getRow(),e->getCol()); v.d[0]=a.dt(e->getRow(),e->getCol()); return v; }
    case Type_Solve: { Val a=A(0),c=A(1); if(a.r*a.c==1) return mulv(c,powm(a,-1,false)); return solvev(a,c,false); }
    case Type_Inverse: { Val a=A(0); return solvev(a,eyev(a.r),false); }
    case Type_Outer: { Val a=A(0),c=A(1); if(a.c!=1) a=transv(a); if(c.c!=1) c=transv(c); return mulv(a,transv(c)); }
    case Type_Scalar: { Val a=A(0); if(a.r*a.c!=1) throw Bad{"scalar of a matrix"}; return a; }
    case Type_Skew: return skewv(A(0));
    case Type_Transpose: return transv(A(0));
    case Type_Less: { Val v(1,1); v.v[0]=cmpv(0,A(0),A(1),false); return v; }
    case Type_Greater: { Val v(1,1); v.v[0]=cmpv(1,A(0),A(1),false); return v; }
    case Type_Equal: { Val v(1,1); v.v[0]=cmpv(2,A(0),A(1),false); return v; }
    case Type_If: { Val c=A(0); return ev(b->getArg(c.v[0]!=0?1:2)); }
    case Type_Jacobian: { BasicPtr f=b->getArg(0),s=b->getArg(1); vector<std::pair<int,int> > dir; vector<BasicPtr> parts; if(s->getType()==Type_Matrix) for(size_t i=0;i<s->getArgsSize();++i) parts.push_back(s->getArg(i)); else parts.push_back(s);
        for(auto&q:parts){ if(q->getType()!=Type_Symbol) throw Bad{"jacobian w.r.t. an expression"}; int si=-1; for(int i=0;i<NSYM;++i) if(dynamic_cast<const Symbol*>(q.get())->getName()==SYMS[i].name) si=i; if(si<0) throw Bad{"foreign symbol"}; for(int k=0;k<SYMS[si].sh.n();++k) dir.push_back({si,k}); }
        Val v(0,0); int m=dir.size(); for(int c=0;c<m;++c){ int si=dir[c].first,k=dir[c].second; LibEval t(P,[k,si](int i){ Val z(SYMS[i].sh.r,SYMS[i].sh.c); if(i==si) z.v[k]=1; return z; },ctx); Val d=t.ev(f); if(c==0) v=Val(d.r*d.c,m); for(int i=0;i<d.r*d.c;++i) v.at(i,c)=d.d[i]; } return v; }
    case Type_Unknown: throw Bad{"unknown function"};
    }
    throw Bad{"unknown node type"}; } };

// ---------------------------------------------------------------- verdicts
struct Fail { string kind,detail; Fail(){} Fail(string k,string d):kind(k),detail(d){} };
static long n_cmp=0,n_points=0,n_undef=0,n_changed=0,n_throw=0,n_eq=0,n_neq=0,n_ill=0;
static std::set<unsigned long long> distinct; static std::map<string,long> opcount;
static string vs(Val const&v){ std::ostringstream o; o.precision(9); o<<"["; for(size_t i=0;i<v.v.size();++i) o<<(i?",":"")<<(double)v.v[i]; o<<"]"; return o.str(); }
static bool close(vector<ld> const&a,vector<ld> const&b,vector<ld> const&bj,ld scale){ for(size_t i=0;i<a.size();++i){ ld tol=1e-8L*(1+scale)+1e5L*fabsl(b[i]-bj[i]); if(!(fabsl(a[i]-b[i])<=tol)) return false; } return true; }
static string shapeOf(BasicPtr const&b){ Shape const&s=b->getShape(); char t[60]; snprintf(t,60,"nd%d(%d,%d)",(int)s.getNrDimensions(),(int)s.getDimension(1),(int)s.getDimension(2)); return t; }
static bool shapeOk(BasicPtr const&b,Sh const&s){ Shape const&t=b->getShape(); int nd=t.getNrDimensions(),r=t.getDimension(1),c=t.getDimension(2); if(r!=s.r||c!=s.c) return false; if((int)t.getNumEl()!=r*c) return false; if(nd==0&&r*c!=1) return false; if(nd==1&&r!=1&&c!=1) return false; if(r>1&&c>1&&nd!=2) return false; if(s.nd==0&&nd!=0) return false; return true; }
static Seed zeroSeed(){ return [](int i){ return Val(SYMS[i].sh.r,SYMS[i].sh.c); }; }

static vector<Point> points(unsigned long long seed,int n){ vector<Point> v; for(int i=0;i<n;++i){ Rng r(seed*977+i); v.push_back(makePoint(r,i)); } return v; }
static bool wellDefined(Rec const&R,unsigned long long ps){ vector<Point> pts=points(ps,12); for(auto&P:pts){ Ref a=refEval(R,P,zeroSeed(),0,0); bool all=true; for(char c:a.ok) all=all&&c; if(all) return true; } return false; }

