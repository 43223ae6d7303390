// symfuzz: generates random expressions, builds them through the library's public operators and monitors
// what the resulting objects denote, against an independent long double reference for the written expression.
//   symfuzz MODE SEED START COUNT [maxfail] [progressfile]   modes: value shape deriv equal subs
//   symfuzz show MODE SEED IDX
#include "symcore.h"
// value and shape monitoring of every object of a recipe
static bool checkValue(Rec const&R,unsigned long long ps,bool wantShape,bool wantValue,Fail&f){
  Ctx ctx; vector<BasicPtr> b; bool defined=wellDefined(R,ps);
  try{ b=buildAll(R,ctx); }
  catch(Exception&e){ ++n_throw; if(!defined) return true; f={"refused",string("raises ")+e.what()}; return !wantShape; }
  catch(Bad&e){ f={"harness",e.why}; return false; }
  vector<Point> pts=points(ps,7);
  vector<Ref> ra,rj; for(size_t k=0;k<pts.size();++k){ ra.push_back(refEval(R,pts[k],zeroSeed(),0,0)); rj.push_back(refEval(R,pts[k],zeroSeed(),1e-13L,k+1)); }
  auto cmpAll=[&](vector<BasicPtr> const&o,const char*stage)->bool{
    for(size_t i=0;i<o.size();++i){
      if(wantShape){ ++n_cmp; if(!shapeOk(o[i],R[i].sh)){ f={string("shape-")+stage, str(R,i)+" has shape "+shapeOf(o[i])+", expected "+shs(R[i].sh)}; return false; } }
      if(!wantValue) continue;
      for(size_t k=0;k<pts.size();++k){ if(!ra[k].ok[i]||!rj[k].ok[i]){ ++n_undef; continue; } ++n_cmp; LibEval le(pts[k],zeroSeed(),ctx); Val v;
        try{ v=le.ev(o[i]); } catch(Bad&e){ f={string("value-")+stage, str(R,i)+" became "+o[i]->toString()+": "+e.why}; return false; }
        Val const&w=ra[k].v[i]; if(v.v.size()!=w.v.size()||!close(v.v,w.v,rj[k].v[i].v,ra[k].scale)){ f={string("value-")+stage, str(R,i)+" became "+o[i]->toString()+" = "+vs(v)+", expected "+vs(w)}; return false; } } }
    return true; };
  if(!cmpAll(b,"built")) return false;
  vector<string> before; for(auto&x:b) before.push_back(x->toString());
  vector<BasicPtr> s=b;
  try{ s.back()=b.back()->simplify(); } catch(Exception&e){ ++n_throw; if(!defined) return true; f={"refused",string("simplify raises ")+e.what()}; return !wantShape; }
  if(s.back()->toString()!=before.back()) ++n_changed;
  if(!cmpAll(s,"simplified")) return false;
  if(!cmpAll(b,"operand")) return false;       // operands built earlier keep their value
  vector<BasicPtr> t=s;
  try{ for(size_t i=t.size();i-->0;) t[i]=t[i]->simplify(); } catch(Exception&e){ ++n_throw; if(!defined) return true; f={"refused",string("simplify raises ")+e.what()}; return !wantShape; }
  if(!cmpAll(t,"simplified2")) return false;
  if(!cmpAll(b,"operand2")) return false;
  return true; }

static bool derCompare(Rec const&R,BasicPtr const&D,Ctx&ctx,vector<Point> const&pts,std::function<Seed(Point const&)> mk,string const&what,Fail&f){
  g_needdiff=true; size_t root=R.size()-1;
  for(size_t k=0;k<pts.size();++k){ Ref a=refEval(R,pts[k],mk(pts[k]),0,0),j=refEval(R,pts[k],mk(pts[k]),1e-13L,k+1); if(!a.ok[root]||!j.ok[root]){ ++n_undef; continue; } ++n_cmp;
    // everything below the root that matters must be defined too (an undefined branch is not taken)
    LibEval le(pts[k],zeroSeed(),ctx); Val v; string ds;
    try{ v=le.ev(D); } catch(Bad&e){ if(e.why=="evaluates to not-a-number"||e.why=="singular matrix"){ bool all=true; for(char c:a.ok) all=all&&c; if(!all){ ++n_undef; continue; } } f={"deriv","d("+str(R,root)+")/"+what+" = "+D->toString()+": "+e.why}; g_needdiff=false; return false; }
    vector<ld> const&w=a.v[root].d; bool ok=true; if(v.v.size()!=w.size()){ if(v.v.size()==1) { bool z=true; for(auto x:w) z=z&&fabsl(x)<1e-9L; ok= z&&v.v[0]==0; } else ok=false; } else ok=close(v.v,w,j.v[root].d,a.scale);
    if(!ok){ Val e=a.v[root]; e.v=w; f={"deriv","d("+str(R,root)+")/"+what+" = "+D->toString()+" = "+vs(v)+", expected "+vs(e)}; g_needdiff=false; return false; } }
  g_needdiff=false; return true; }
static bool hasOp(Rec const&R,int op,int i=-1){ for(auto&n:R) if(n.op==op&&(i<0||n.i==i)) return true; return false; }
static bool checkDeriv(Rec const&R,unsigned long long ps,Fail&f){
  Ctx ctx; vector<BasicPtr> b; bool defined=wellDefined(R,ps); g_needdiff=false;
  try{ b=buildAll(R,ctx); } catch(Exception&){ ++n_throw; return true; }
  vector<Point> pts=points(ps,6); BasicPtr root=b.back(); Sh sh=R.back().sh;
  std::set<int> used; for(auto&n:R) if(n.op==SYM) used.insert(n.i); used.insert(2);
  for(int pass=0;pass<2;++pass){
    if(pass==1){ try{ root=root->simplify(); }catch(Exception&){ return true; } }
    for(int si: used) if(SYMS[si].sh.nd==0){ string what=SYMS[si].name; BasicPtr D;
      auto mk=[si](Point const&){ return Seed([si](int i){ Val z(SYMS[i].sh.r,SYMS[i].sh.c); if(i==si) z.v[0]=1; return z; }); };
      try{ D=root->der(ctx.sym[si]); } catch(Exception&e){ ++n_throw; if(!defined) return true; f={"deriv-refused","d("+str(R,R.size()-1)+")/"+what+" raises "+e.what()}; return false; }
      if(!derCompare(R,D,ctx,pts,mk,what,f)) return false;
      try{ D=D->simplify(); } catch(Exception&e){ ++n_throw; if(!defined) return true; f={"deriv-refused","d("+str(R,R.size()-1)+")/"+what+" simplify raises "+e.what()}; return false; }
      if(!derCompare(R,D,ctx,pts,mk,what+" (simplified)",f)) return false; }
    { BasicPtr D; auto mk=[](Point const&P){ return Seed([&P](int i){ return P.td[i]; }); };
      try{ D=Der::New(root); } catch(Exception&e){ ++n_throw; if(!defined) return true; f={"deriv-refused","d("+str(R,R.size()-1)+")/dt raises "+e.what()}; return false; }
      if(!derCompare(R,D,ctx,pts,mk,"dt",f)) return false;
      try{ D=D->simplify(); } catch(Exception&e){ ++n_throw; if(!defined) return true; f={"deriv-refused","d("+str(R,R.size()-1)+")/dt simplify raises "+e.what()}; return false; }
      if(!derCompare(R,D,ctx,pts,mk,"dt (simplified)",f)) return false; }
    if((sh.nd==0||(sh.nd==1&&sh.c==1))&&pass==0){ BasicPtrVec q; int qs[3]={0,1,2}; for(int k=0;k<3;++k) q.push_back(ctx.sym[qs[k]]); BasicPtr J;
      try{ J=Jacobian::New(root,BasicPtr(new Matrix(q,Shape(3)))); } catch(Exception&e){ ++n_throw; if(!defined) return true; f={"jacobian-refused","jacobian of "+str(R,R.size()-1)+" raises "+e.what()}; return false; }
      if((int)J->getShape().getDimension(1)!=sh.r||(int)J->getShape().getDimension(2)!=3){ f={"jacobian-shape","jacobian of "+str(R,R.size()-1)+" has shape "+shapeOf(J)}; return false; }
      for(int st=0;st<2;++st){ if(st){ try{ J=J->simplify(); }catch(Exception&e){ if(!defined) return true; f={"jacobian-refused",string("simplify raises ")+e.what()}; return false; } }
      for(int k=0;k<3;++k) for(size_t pi=0;pi<pts.size();++pi){ g_needdiff=true; Seed sd=[k](int i){ Val z(SYMS[i].sh.r,SYMS[i].sh.c); if(i==k) z.v[0]=1; return z; }; Ref a=refEval(R,pts[pi],sd,0,0),j=refEval(R,pts[pi],sd,1e-13L,k+1); g_needdiff=false; size_t rt=R.size()-1; if(!a.ok[rt]||!j.ok[rt]) continue; bool all=true; for(char c:a.ok) all=all&&c; ++n_cmp; LibEval le(pts[pi],zeroSeed(),ctx); Val v; try{ v=le.ev(J); }catch(Bad&e){ if(!all) continue; f={"jacobian","jacobian of "+str(R,rt)+" = "+J->toString()+": "+e.why}; return false; }
        for(int i=0;i<sh.r;++i){ ld w=a.v[rt].d[i], tol=1e-8L*(1+a.scale)+1e5L*fabsl(w-j.v[rt].d[i]); if(!(fabsl(v.at(i,k)-w)<=tol)){ f={"jacobian","jacobian of "+str(R,rt)+" w.r.t. (x,y,z) = "+J->toString()+" entry "+std::to_string(i)+","+std::to_string(k)+" = "+std::to_string((double)v.at(i,k))+" expected "+std::to_string((double)w)}; return false; } } } } }
  }
  return true; }

// structural identity decided by us, not by the library
static bool numVal(const Basic*a,double&v){ switch(a->getType()){ case Type_Int: v=dynamic_cast<const Int*>(a)->getValue(); return true; case Type_Real: v=dynamic_cast<const Real*>(a)->getValue(); return true; case Type_Bool: v=dynamic_cast<const Bool*>(a)->getValue(); return true; case Type_Zero: v=0; return a->getShape().getNrDimensions()==0; default: return false; } }
static bool allZero(const Basic*a){ double v; if(a->getType()==Type_Zero) return true; if(a->getType()==Type_Matrix){ for(size_t i=0;i<a->getArgsSize();++i) if(!allZero(a->getArg(i).get())) return false; return true; } return numVal(a,v)&&v==0; }
static bool same(const Basic*a,const Basic*b){ if(a==b) return true; double x,y; if(numVal(a,x)&&numVal(b,y)) return x==y; if(a->getShape()==b->getShape()&&allZero(a)&&allZero(b)) return true; if(a->getType()!=b->getType()) return false; if(a->getShape()!=b->getShape()) return false;
  if(a->getType()==Type_Matrix){ const Matrix*p=dynamic_cast<const Matrix*>(a),*q=dynamic_cast<const Matrix*>(b); size_t r=a->getShape().getDimension(1),c=a->getShape().getDimension(2); for(size_t i=0;i<r;++i) for(size_t j=0;j<c;++j) if(!same(p->get(i,j).get(),q->get(i,j).get())) return false; return true; }   // full and symmetric storage
  switch(a->getType()){ case Type_Symbol: return dynamic_cast<const Symbol*>(a)->getName()==dynamic_cast<const Symbol*>(b)->getName(); case Type_Zero: case Type_Eye: return true; default: break; }
  if(a->getArgsSize()!=b->getArgsSize()) return false;
  size_t n=a->getArgsSize();
  if(a->getType()==Type_Add||a->getType()==Type_Mul){ // commutative: terms of a sum, scalar factors of a product
    bool add=a->getType()==Type_Add; vector<const Basic*> fa,fb,ma,mb; for(size_t i=0;i<n;++i){ const Basic*p=a->getArg(i).get(),*q=b->getArg(i).get(); (add||p->is_Scalar()?fa:ma).push_back(p); (add||q->is_Scalar()?fb:mb).push_back(q); }
    if(ma.size()!=mb.size()) return false; for(size_t i=0;i<ma.size();++i) if(!same(ma[i],mb[i])) return false;
    for(size_t i=0;i<fa.size();++i){ size_t k=0; while(k<fb.size()&&!same(fa[i],fb[k])) ++k; if(k==fb.size()) return false; fb.erase(fb.begin()+k); } return true; }
  for(size_t i=0;i<n;++i) if(!same(a->getArg(i).get(),b->getArg(i).get())) return false; return true; }
static bool hasNan(const Basic*b,long&n){ if(++n>20000) return false; if(b->getType()==Type_Real){ double v=dynamic_cast<const Real*>(b)->getValue(); return !std::isfinite(v); } for(size_t i=0;i<b->getArgsSize();++i) if(hasNan(b->getArg(i).get(),n)) return true; return false; }
static bool hasNan(BasicPtr const&b){ long n=0; return hasNan(b.get(),n); }
static void walkSyms(const Basic*b,std::set<string>&s,long&n){ if(++n>2000000) throw TooBig(); if(b->getType()==Type_Symbol) s.insert(dynamic_cast<const Symbol*>(b)->getName()); for(size_t i=0;i<b->getArgsSize();++i) walkSyms(b->getArg(i).get(),s,n); }

static bool eqPair(BasicPtr const&p,BasicPtr const&q,string const&sp,string const&sq,Ctx&ctx,vector<Point> const&pts,Fail&f,bool strict,Rec const*RA,int ia,Rec const*RB,int ib){
  bool e1,e2,n1; try{ e1=(p==q); e2=(q==p); n1=(p!=q); } catch(Exception&e){ f={"equal-throws",sp+" == "+sq+" raises "+e.what()}; return false; }
  if(e1!=e2){ f={"equal-asymmetric",sp+" == "+sq+" is "+(e1?"true":"false")+" but reversed it is not"}; return false; }
  if(n1==e1){ f={"equal-negation",sp+" == "+sq+" and != agree"}; return false; }
  if(hasNan(p)||hasNan(q)) return true;   // a constant without a value (acos(2)) equals nothing
  if(strict&&!e1){ f={"equal-rebuild",sp+": two identical constructions compare unequal ("+p->toString()+" / "+q->toString()+")"}; return false; }
  bool lt1=p<q,lt2=q<p; if(lt1&&lt2){ f={"order",sp+" < "+sq+" and "+sq+" < "+sp}; return false; }
  if(e1){ ++n_eq;
    if(p->getShape().getDimension(1)!=q->getShape().getDimension(1)||p->getShape().getDimension(2)!=q->getShape().getDimension(2)){ f={"equal-shape",sp+" == "+sq+" but shapes "+shapeOf(p)+" and "+shapeOf(q)}; return false; }
    for(size_t k=0;k<pts.size();++k){ Ref ja,jb; if(RA){ ja=refEval(*RA,pts[k],zeroSeed(),0,0); jb=refEval(*RB,pts[k],zeroSeed(),0,0); if(!ja.ok[ia]||!jb.ok[ib]) continue; } LibEval le(pts[k],zeroSeed(),ctx); Val a,b; try{ a=le.ev(p); b=le.ev(q);}catch(Bad&){ continue; } ++n_cmp; ld sc=0; for(auto x:a.v) sc=std::max(sc,fabsl(x)); if(RA) sc=std::max(sc,std::max(ja.scale,jb.scale)); if(!std::isfinite((double)sc)) continue; for(size_t i=0;i<a.v.size();++i) if(!(fabsl(a.v[i]-b.v[i])<=1e-7L*(1+sc))){ f={"equal-value",sp+" == "+sq+" but values "+vs(a)+" and "+vs(b)}; return false; } } }
  else ++n_neq;
  return true; }
static Rec mutate(Rec R,Rng&r,bool wide){ int tries=1+r.below(2); for(int t=0;t<tries;++t){ int i=r.below(R.size()); N&n=R[i]; switch(n.op){ case CONST: n.k= r.p(0.5)? -n.k : n.k+1; break; case SYM: { vector<int> c; for(int k=0;k<NSYM;++k) if(SYMS[k].sh==n.sh) c.push_back(k); n.i=c[r.below(c.size())]; break; } case ADD: case MUL: if(n.a.size()==2&&r.p(0.5)&&R[n.a[0]].sh==R[n.a[1]].sh&&n.op==ADD) std::swap(n.a[0],n.a[1]); else if(n.op==ADD) n.op=SUB; else if(R[n.a[0]].sh==R[n.a[1]].sh) std::swap(n.a[0],n.a[1]); break; case SUB: n.op= r.p(0.5)?ADD:SUB; if(R[n.a[0]].sh==R[n.a[1]].sh&&r.p(0.5)) std::swap(n.a[0],n.a[1]); break; case DIV: if(R[n.a[0]].sh==R[n.a[1]].sh) std::swap(n.a[0],n.a[1]); break; case POW: n.k+=1; if(n.k==0&&n.sh.nd>0) n.k=2; break; case FUN: n.i=(n.i+1+r.below(7))%8; break; case ATAN2: case OUTER: std::swap(n.a[0],n.a[1]); break; case IF: if(r.p(0.5)) n.i=(n.i+1)%3; else if(r.p(0.5)) std::swap(n.a[2],n.a[3]); else std::swap(n.a[0],n.a[1]); break; case MAT: { if(n.a.size()>1) std::swap(n.a[0],n.a[n.a.size()-1]); break; } case SMAT: if(n.a.size()>1) std::swap(n.a[0],n.a[1]); break; case ELEM: { Sh m=R[n.a[0]].sh; n.i=r.below(m.r); n.j=r.below(m.c); break; } default: { // replace a reference
        if(!n.a.empty()){ int k=r.below(n.a.size()); vector<int> c; for(int q=0;q<i;++q) if(R[q].sh==R[n.a[k]].sh) c.push_back(q); if(!c.empty()) n.a[k]=c[r.below(c.size())]; } } } }
  compact(R,R.size()-1); return R; }
static bool checkEqual(Rec const&R,unsigned long long ps,Fail&f){
  Ctx ctx; vector<BasicPtr> b1,b2; try{ b1=buildAll(R,ctx); b2=buildAll(R,ctx); } catch(Exception&){ ++n_throw; return true; }
  vector<Point> pts=points(ps,5); Rng r(ps*31+7);
  if(!hasOp(R,SIMP)) for(size_t i=0;i<b1.size();++i) if(!eqPair(b1[i],b2[i],str(R,i),str(R,i),ctx,pts,f,true,&R,i,&R,i)) return false;
  for(size_t i=0;i<b1.size();++i) if(!eqPair(b1[i],b1[i],str(R,i),str(R,i),ctx,pts,f,true,&R,i,&R,i)) return false;
  int cnt=0; for(size_t i=0;i<b1.size()&&cnt<60;++i) for(size_t j=0;j<i;++j,++cnt) if(!eqPair(b1[i],b2[j],str(R,i),str(R,j),ctx,pts,f,false,&R,i,&R,j)) return false;
  for(int m=0;m<3;++m){ Rec Q=mutate(R,r,true); Ctx*c=&ctx; vector<BasicPtr> b3; try{ b3=buildAll(Q,*c);} catch(Exception&){ continue; }
    if(!eqPair(b1.back(),b3.back(),str(R,R.size()-1),str(Q,Q.size()-1),ctx,pts,f,false,&R,(int)R.size()-1,&Q,(int)Q.size()-1)) return false;
    BasicPtr s1,s3; try{ vector<BasicPtr> c1=buildAll(R,ctx),c3=buildAll(Q,ctx); s1=c1.back()->simplify(); s3=c3.back()->simplify(); } catch(Exception&){ continue; }
    if(!eqPair(s1,s3,"simplify("+str(R,R.size()-1)+")","simplify("+str(Q,Q.size()-1)+")",ctx,pts,f,false,&R,(int)R.size()-1,&Q,(int)Q.size()-1)) return false; }
  if(!hasOp(R,SIMP)){ try{ BasicPtr s1=b1.back()->simplify(), s2=b2.back()->simplify(); if(!eqPair(s1,s2,"simplify("+str(R,R.size()-1)+")","the same built again",ctx,pts,f,true,&R,(int)R.size()-1,&R,(int)R.size()-1)) return false; } catch(Exception&){} }
  return true; }

static bool checkSubs(Rec const&R,unsigned long long ps,Fail&f){
  Ctx ctx; vector<BasicPtr> b; bool defined=wellDefined(R,ps);
  try{ b=buildAll(R,ctx); } catch(Exception&){ ++n_throw; return true; }
  Rng r(ps*131+3); vector<Point> pts=points(ps,6); BasicPtr root=b.back(); if(r.p(0.4)){ try{ root=root->simplify(); }catch(Exception&){ return true; } }
  // --- atoms
  { std::set<string> w,g; long n=0; walkSyms(root.get(),w,n); Basic::BasicSet at=root->getAtoms(); size_t cnt=0; for(auto&p:at){ if(p->getType()!=Type_Symbol){ f={"atoms","atom "+p->toString()+" of "+root->toString()+" is not a symbol"}; return false; } g.insert(dynamic_cast<const Symbol*>(p.get())->getName()); ++cnt; } ++n_cmp;
    std::set<string> rs; for(auto&x:R) if(x.op==SYM) rs.insert(SYMS[x.i].name);
    if(cnt!=g.size()){ f={"atoms","an atom of "+root->toString()+" is reported twice"}; return false; }
    if(w!=g){ f={"atoms","atoms of "+root->toString()+" are not its symbols"}; return false; }
    for(auto&s:g) if(!rs.count(s)){ f={"atoms",str(R,R.size()-1)+" reports foreign atom "+s}; return false; }
    // symbols the value really depends on must be reported
    for(int si=0;si<NSYM;++si) if(rs.count(SYMS[si].name)&&!g.count(SYMS[si].name)) for(auto&P:pts){ Point Q=P; for(auto&x:Q.s[si].v) x+=0.0625; Ref a=refEval(R,P,zeroSeed(),0,0),c=refEval(R,Q,zeroSeed(),0,0); size_t k=R.size()-1; if(a.ok[k]&&c.ok[k]) for(size_t i=0;i<a.v[k].v.size();++i) if(fabsl(a.v[k].v[i]-c.v[k].v[i])>1e-6L*(1+a.scale)){ f={"atoms",str(R,k)+" depends on "+SYMS[si].name+" which is not among its atoms"}; return false; } }
    Basic::BasicSizeTMap am=root->getAtomsAmound(); if(am.size()!=at.size()){ f={"atoms","counted atoms of "+root->toString()+" differ from its atoms"}; return false; } }
  // --- substitution, whole-tree oracle
  vector<BasicPtr> olds; { std::vector<BasicPtr> st(1,root); std::set<const Basic*> seen; while(!st.empty()&&seen.size()<200){ BasicPtr x=st.back(); st.pop_back(); if(!seen.insert(x.get()).second) continue; if(x->getType()==Type_Symbol||(x->getArgsSize()>0&&x->getType()!=Type_Less&&x->getType()!=Type_Greater&&x->getType()!=Type_Equal)) olds.push_back(x); for(size_t i=0;i<x->getArgsSize();++i) if(!(x->getType()==Type_Element&&i>0)&&!(x->getType()==Type_Pow&&i>0)) st.push_back(x->getArg(i)); } }
  if(olds.empty()||hasNan(root)) return true;
  for(int t=0;t<2;++t){ BasicPtr old=olds[r.below(olds.size())]; Shape os=old->getShape(); Sh s; s.nd=os.getNrDimensions(); s.r=os.getDimension(1); s.c=os.getDimension(2); if(s.nd==2&&(s.r==1||s.c==1)) continue; if(s.nd==1&&s.r==1&&s.c==1) continue; if(s.nd==2&&(s.r>3||s.c>3)) continue; if(old->getType()==Type_Transpose&&s.nd==1){}
    // the replacement: another expression of the same shape
    Gen g(r,2,false); int ni=g.gen(s); Rec NR=g.R; compact(NR,ni); BasicPtr nw; try{ nw=buildAll(NR,ctx).back(); } catch(Exception&){ continue; }
    BasicPtr res; string before=root->toString();
    try{ res=root->subs(old,nw); } catch(Exception&e){ ++n_throw; if(!defined) continue; f={"subs-refused","substituting "+old->toString()+" by "+nw->toString()+" in "+before+" raises "+e.what()}; return false; }
    if(root->toString()!=before){ f={"subs-operand","substitution changed its argument "+before+" into "+root->toString()}; return false; }
    for(int st=0;st<2;++st){ if(st){ try{ res=res->simplify(); }catch(Exception&e){ break; } }
    for(auto&P:pts){ Ref nr=refEval(NR,P,zeroSeed(),0,0); if(!nr.ok.back()) continue; Ref rr=refEval(R,P,zeroSeed(),0,0);
      // the oracle: evaluate the original tree, with every occurrence of old taking the new value
      LibEval o(P,zeroSeed(),ctx); o.special=[&](const Basic*x,Val&v){ if(same(x,old.get())){ v=nr.v.back(); return true; } return false; };
      Val w; bool undef=false; g_tie=false; try{ w=o.ev(root); }catch(Bad&){ undef=true; } if(undef||g_tie) continue; ld sc=0; bool big=false; for(auto&kv:o.memo) for(auto x:kv.second.v){ sc=std::max(sc,fabsl(x)); if(!(fabsl(x)<1e6L)) big=true; } if(big) continue;
      // ill-conditioned points: perturb
      LibEval o2(P,zeroSeed(),ctx); o2.special=[&](const Basic*x,Val&v){ if(same(x,old.get())){ v=nr.v.back(); for(auto&y:v.v) y*=1+1e-12L; return true; } return false; }; Val w2; try{ w2=o2.ev(root);}catch(Bad&){ continue; }
      LibEval l(P,zeroSeed(),ctx); Val v; ++n_cmp; try{ v=l.ev(res); }catch(Bad&e){ f={"subs","substituting "+old->toString()+" by "+nw->toString()+" in "+before+" gives "+res->toString()+": "+e.why}; if(e.why=="singular matrix"||e.why=="root of a negative number"||e.why=="atan2 cut"||hasNan(res)) continue; return false; }
      bool ok=v.v.size()==w.v.size(); if(ok) for(size_t i=0;i<w.v.size();++i) if(!(fabsl(v.v[i]-w.v[i])<=1e-7L*(1+sc)+1e4L*fabsl(w.v[i]-w2.v[i]))) ok=false;
      if(!ok&&st==1){ // simplification may cross ill-defined points of the substituted expression; judged by S01
        continue; }
      if(!ok){ f={"subs","substituting "+old->toString()+" by "+nw->toString()+" in "+before+" gives "+res->toString()+" = "+vs(v)+", expected "+vs(w)}; return false; } } }
    (void)0; }
  // --- substitution of a symbol in the written expression
  { vector<int> ss; for(auto&x:R) if(x.op==SYM) ss.push_back(x.i); if(ss.empty()) return true; int si=ss[r.below(ss.size())]; Sh s=SYMS[si].sh; if(s==V1) return true; Gen g(r,2,false); int ni=g.gen(s); Rec NR=g.R; compact(NR,ni); bool simpin=hasOp(NR,SIMP); (void)simpin; BasicPtr nw; try{ nw=buildAll(NR,ctx).back(); }catch(Exception&){ return true; }
    BasicPtr res; try{ res=root->subs(ctx.sym[si],nw); }catch(Exception&e){ ++n_throw; // is the substituted expression defined anywhere?
      return true; }
    for(auto&P:pts){ Ref nr=refEval(NR,P,zeroSeed(),0,0); if(!nr.ok.back()) continue; Ref nj=refEval(NR,P,zeroSeed(),1e-13L,5); Point Q=P; Q.s[si].v=nr.v.back().v; Ref a=refEval(R,Q,zeroSeed(),0,0), j=refEval(R,Q,zeroSeed(),1e-13L,3); if(!a.ok.back()||!j.ok.back()) continue; bool all=true; for(char c:a.ok) all=all&&c; if(!all) continue; LibEval l(P,zeroSeed(),ctx); Val v; ++n_cmp; try{ v=l.ev(res);}catch(Bad&e){ f={"subs","substituting "+string(SYMS[si].name)+" by "+str(NR,NR.size()-1)+" in "+str(R,R.size()-1)+" gives "+res->toString()+": "+e.why}; if(e.why=="atan2 cut"||hasNan(res)) continue; return false; }
      if(v.v.size()!=a.v.back().v.size()||!close(v.v,a.v.back().v,j.v.back().v,std::max(a.scale,nr.scale))){ f={"subs","substituting "+string(SYMS[si].name)+" by "+str(NR,NR.size()-1)+" in "+str(R,R.size()-1)+" gives "+res->toString()+" = "+vs(v)+", expected "+vs(a.v.back())}; return false; } } }
  return true; }

// ill-shaped combinations must be refused
static bool checkIll(Rec const&R0,unsigned long long ps,Fail&f){
  Rng r(ps*77+1); Ctx ctx; Rec R=R0; vector<BasicPtr> b; try{ b=buildAll(R,ctx);}catch(Exception&){ return true; }
  // a second operand of another shape
  Sh any[]={S,V3,V2,R3,R2,M33,M22,M23,M32}; Sh s2=any[r.below(9)]; Gen g(r,2,false); int k=g.gen(s2); Rec R2_=g.R; compact(R2_,k); vector<BasicPtr> b2; try{ b2=buildAll(R2_,ctx);}catch(Exception&){ return true; }
  BasicPtr p=b.back(),q=b2.back(); Sh s1=R.back().sh; if(!shapeOk(p,s1)||!shapeOk(q,s2)) return true;   // judged by the well-shaped monitor
  auto must=[&](bool ill,const char*what,std::function<BasicPtr()> mk)->bool{ if(!ill) return true; ++n_ill; ++n_cmp; BasicPtr x; try{ x=mk(); }catch(Exception&){ return true; } f={string("accepts-")+what, string(what)+" of "+p->toString()+" "+shs(s1)+" and "+q->toString()+" "+shs(s2)+" gives "+x->toString()+" of shape "+shapeOf(x)}; return false; };
  bool sc1=s1.nd==0,sc2=s2.nd==0;
  if(!must(!sc1&&!sc2&&!(s1.r==s2.r&&s1.c==s2.c),"sum",[&]{ return Add::New(p,q); })) return false;
  if(!must(!sc1&&!sc2&&!(s1.r==s2.r&&s1.c==s2.c),"difference",[&]{ return Add::New(p,Neg::New(q)); })) return false;
  if(!must(!sc1&&!sc2&&s1.c!=s2.r,"product",[&]{ return Mul::New(p,q); })) return false;
  int ei=s1.r-1+r.below(3),ej=s1.c-1+r.below(3);
  if(!must(ei>=s1.r||ej>=s1.c,"element",[&]{ return Element::New(p,ei,ej); })) return false;
  if(!must(s1.r!=s1.c,"power",[&]{ static const double e[]={2,-1,3,0.5}; return Pow::New(p,BasicPtr(new Real(e[r.below(4)]))); })) return false;
  if(!must(!(s1.r==3&&s1.c==1)&&!Util::is_Zero(p),"skew",[&]{ return Skew::New(p); })) return false;
  if(!must(s1.r!=1||s1.c!=1,"scalar",[&]{ return Scalar::New(p); })) return false;
  if(!must(s1.r!=s1.c,"inverse",[&]{ return Inverse::New(p); })) return false;
  if(!must(!sc1&&(s1.r!=s1.c||s2.r!=s1.r||s2.c!=1),"solve",[&]{ return Solve::New(p,q); })) return false;
  if(!must(s1.nd!=1||s2.nd!=1||s1.n()!=s2.n(),"outer",[&]{ return Outer::New(p,q); })) return false;
  if(!must(!sc1||!sc2,"atan2",[&]{ return Atan2::New(p,q); })) return false;
  if(!must(!(s1.r==s2.r&&s1.c==s2.c),"if",[&]{ return If::New(Less::New(ctx.sym[0],ctx.sym[1]),p,q); })) return false;
  if(!must(!(s1.r==s2.r&&s1.c==s2.c),"less",[&]{ return Less::New(p,q); })) return false;
  if(!must(s2.nd==2&&!sc2,"divide-by-nonsquare",[&]{ if(s2.r==s2.c) throw ShapeError("n/a"); return Util::div(p,q); })) return false;
  if(!must(s2.nd==1,"divide-by-vector",[&]{ return Util::div(p,q); })) return false;
  if(!must(true,"matrix-count",[&]{ BasicPtrVec v; v.push_back(ctx.sym[0]); v.push_back(ctx.sym[1]); return BasicPtr(new Matrix(v,r.p(0.5)?Shape(3):Shape(2,2))); })) return false;
  if(!must(s1.nd==2,"jacobian",[&]{ BasicPtrVec q2(1,ctx.sym[0]); q2.push_back(ctx.sym[1]); return Jacobian::New(p,BasicPtr(new Matrix(q2,Shape(2)))); })) return false;
  if(!must(s2.nd!=1,"jacobian-by",[&]{ return Jacobian::New(ctx.sym[0],q); })) return false;
  return true; }

// every operation of the library on a program, without the oracles: workload for the sanitizers
static void exercise(Rec const&R,unsigned long long ps){
  Rng r(ps*13+5); Ctx ctx; vector<BasicPtr> b,b2; try{ b=buildAll(R,ctx); b2=buildAll(R,ctx); }catch(Exception&){}
  volatile size_t sink=0; vector<BasicPtr> extra;
  for(size_t i=0;i<b.size();++i){ BasicPtr x=b[i]; sink+=x->toString().size(); x->getAtoms();
    for(size_t j=0;j<b2.size()&&j<6;++j){ BasicPtr y=b2[r.below(b2.size())]; try{ sink+=(x==y)+(y!=x)+(x<y)+(y<x); }catch(Exception&){} }
    try{ BasicPtr d=x->der(ctx.sym[r.below(3)]); sink+=d->toString().size(); d=d->simplify(); extra.push_back(d); }catch(Exception&){}
    try{ BasicPtr d=x->der(); d=d->simplify(); extra.push_back(d); }catch(Exception&){}
    try{ BasicPtr d=x->der(ctx.sym[r.below(NSYM)]); d=d->simplify(); }catch(Exception&){}
    try{ BasicPtrVec q; for(int k=0;k<3;++k) q.push_back(ctx.sym[r.below(NSYM)]); BasicPtr J=Jacobian::New(x,BasicPtr(new Matrix(q,Shape(3)))); J=J->simplify(); sink+=J->toString().size(); }catch(Exception&){}
    try{ BasicPtr J=Jacobian::New(x,ctx.sym[r.below(NSYM)]); J=J->simplify(); sink+=J->toString().size(); J->der(); }catch(Exception&){}
    try{ BasicPtr y=b2[r.below(b2.size())],z=b2[r.below(b2.size())]; BasicPtr t=x->subs(y,z); t=t->simplify(); sink+=t->toString().size(); }catch(Exception&){}
    try{ BasicPtr y=b2[r.below(b2.size())]; BasicPtr t; switch(r.below(8)){ case 0: t=Add::New(x,y); break; case 1: t=Mul::New(x,y); break; case 2: t=Solve::New(x,y); break; case 3: t=Outer::New(x,y); break; case 4: t=Element::New(x,r.below(7)-2,r.below(7)-2); break; case 5: t=Atan2::New(x,y); break; case 6: t=Pow::New(x,y); break; default: t=If::New(Less::New(x,y),y,x); } t=t->simplify(); sink+=t->toString().size(); extra.push_back(t); }catch(Exception&){}
    try{ static const double e[]={2147483647.0,-2147483648.0,1e300,65536,0.5,-1}; BasicPtr t=Mul::New(x,BasicPtr(new Real(e[r.below(6)]))); t=Add::New(t,BasicPtr(new Int(r.p(0.5)?2147483647:-2147483647-1))); t=Mul::New(t,BasicPtr(new Int(r.p(0.5)?2147483647:65537))); t=Neg::New(t); t=t->simplify(); t=Pow::New(x,BasicPtr(new Int(r.below(9)-4))); t=t->simplify(); t=Abs::New(BasicPtr(new Int(-2147483647-1)))*x; }catch(Exception&){} }
  for(auto&x:extra){ if(x.get()==NULL) continue; try{ sink+=x->toString().size(); x=x->simplify(); x->getAtoms(); for(size_t k=0;k<x->getArgsSize();++k) sink+=x->getArg(k)->toString().size(); x->getArg(x->getArgsSize()); x->getArg(1000000); }catch(Exception&){} }
  for(size_t i=0;i<b.size();++i){ try{ b[i]=b[i]->simplify(); sink+=b[i]->toString().size(); b[i]=b[i]->simplify(); }catch(Exception&){} if(r.p(0.3)) b[i]=BasicPtr(); }
  Fail f; checkIll(R,ps,f); }
static double treeSize(Rec const&R){ vector<double> z; for(auto&n:R){ double t=1; for(int a:n.a) t+=z[a]; if(n.op==SIMP) t-=1; z.push_back(t); } return z.empty()?0:z.back(); }
static long n_toobig=0;
// functions of constants: also where the values at random points say nothing (the cut of atan2), and where the arguments become constants only while simplifying
static BasicPtr constForm(Rng&r,int twice,BasicPtr x){ bool whole=twice%2==0; int k=twice/2; BasicPtr c;
  switch(r.below(whole?7:4)){ case 0: c=BasicPtr(new Real(twice/2.0)); break; case 1: c=Add::New(BasicPtr(new Real(twice/2.0)),Mul::New(Zero::getZero(),x)); break;
    case 2: c=Add::New(Add::New(x,BasicPtr(new Real(twice/2.0))),Neg::New(x)); break; case 3: c=Mul::New(Int::getOne(),BasicPtr(new Real(twice/2.0))); break;
    case 4: c= k==0&&r.p(0.5)? Zero::getZero() : BasicPtr(new Int(k)); break; case 5: c=Add::New(BasicPtr(new Int(k-3)),BasicPtr(new Int(3))); break; default: c=Add::New(Neg::New(x),Add::New(BasicPtr(new Int(k)),x)); }
  return c; }
static bool checkConst(unsigned long long ps,Fail&f){ Rng r(ps^0x51ed27ULL); BasicPtr x(new Symbol("xc"));
  for(int t=0;t<4;++t){ int a=(int)r.below(9)-4,b=(int)r.below(9)-4; if(r.p(0.4)) a=0; if(a==0&&b==0) continue; BasicPtr p,q; string s; double v,w=std::atan2(a/2.0,b/2.0);
    try{ p=constForm(r,a,x); q=constForm(r,b,x); BasicPtr e=Atan2::New(p,q); s=e->toString(); for(int i=0;i<3;++i){ e=e->simplify(); if(numVal(e.get(),v)||e->getType()==Type_Zero) break; }
      if(e->getType()==Type_Zero) v=0; else if(!numVal(e.get(),v)) continue; ++n_cmp; bool ok=std::fabs(v-w)<1e-12||(a==0&&b<0&&std::fabs(v+w)<1e-12);
      if(!ok){ f={"value",s+" of ("+std::to_string(a/2.0)+", "+std::to_string(b/2.0)+") becomes "+e->toString()+", not "+std::to_string(w)}; return false; } }catch(Exception&){ continue; } }
  return true; }
static bool runMode(string const&mode,Rec const&R,unsigned long long ps,Fail&f){
  if(treeSize(R)>(mode=="value"||mode=="shape"?20000:3000)){ ++n_toobig; return true; }   // shared operands can unfold to trees no one could afford
  if(mode=="value") return checkValue(R,ps,false,true,f)&&checkConst(ps,f);
  if(mode=="shape") return checkValue(R,ps,true,false,f)&&checkIll(R,ps,f);
  if(mode=="deriv") return checkDeriv(R,ps,f);
  if(mode=="equal") return checkEqual(R,ps,f);
  if(mode=="subs") return checkSubs(R,ps,f);
  if(mode=="san"){ if(treeSize(R)>1500){ ++n_toobig; return true; } exercise(R,ps); return true; }
  if(mode=="all"){ Fail g; checkValue(R,ps,true,true,g); checkDeriv(R,ps,g); checkEqual(R,ps,g); checkSubs(R,ps,g); checkIll(R,ps,g); return true; }
  fprintf(stderr,"mode?\n"); exit(2); }

static Rec shrink(string const&mode,Rec R,unsigned long long ps,Fail&f){
  bool go=true; int budget=1500;
  auto attempt=[&](Rec Q,int root)->bool{ compact(Q,root); if(Q.size()>R.size()) return false; if(--budget<0) return false; Fail g; bool ok; try{ ok=runMode(mode,Q,ps,g);}catch(...){ return false; } if(!ok&&g.kind!="harness"){ R=Q; f=g; return true; } return false; };
  while(go&&budget>0){ go=false; int n=R.size();
    for(int i=0;i<n-1&&!go;++i) if(attempt(R,i)) go=true;                       // any sub-expression alone
    for(int i=n-1;i>=0&&!go;--i){ N const x=R[i];
      for(int a: x.a) if(!go&&R[a].sh==x.sh){ Rec Q=R; for(int j=i+1;j<n;++j) for(int&y:Q[j].a) if(y==i) y=a; if(i==n-1){ if(attempt(Q,a)) go=true; } else if(attempt(Q,n-1)) go=true; }
      if(!go&&!x.a.empty()){ for(int si=0;si<NSYM&&!go;++si) if(SYMS[si].sh==x.sh){ Rec Q=R; Q[i]=N(); Q[i].op=SYM; Q[i].i=si; Q[i].sh=x.sh; if(attempt(Q,n-1)) go=true; break; }
        if(!go&&x.sh.nd==0){ Rec Q=R; Q[i]=N(); Q[i].op=CONST; Q[i].k=2; Q[i].i=1; Q[i].sh=S; if(attempt(Q,n-1)) go=true; }
        if(!go&&x.sh.nd>0){ Rec Q=R; Q[i]=N(); Q[i].op=ZERO; Q[i].sh=x.sh; if(attempt(Q,n-1)) go=true; } }
      else if(!go&&x.op==SYM&&x.sh.nd==0&&x.i!=0){ Rec Q=R; Q[i].i=0; if(attempt(Q,n-1)) go=true; }
      else if(!go&&x.op==CONST&&!(x.k==2&&x.i==1)&&x.k!=0&&fabs(x.k)!=1){ Rec Q=R; Q[i].k=2; Q[i].i=1; if(attempt(Q,n-1)) go=true; } } }
  return R; }
static string esc(string const&s){ string o; for(char c: s.substr(0,1200)){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if((unsigned char)c<32) o+=' '; else o+=c; } return o; }
static int pfd=-1; static long cur=0;
static void onAlarm(int){ char b[64]; int n=snprintf(b,64,"HANG %ld\n",cur); if(write(1,b,n)){} _exit(97); }
int main(int argc,char**argv){
  bool worker=argc>7&&string(argv[1])=="worker"; if(worker){ char**a=argv; static char ten[]="10"; char*nv[8]={a[0],a[2],a[3],a[4],a[5],ten,a[6],NULL}; static char*keep[8]; for(int i=0;i<8;++i) keep[i]=nv[i]; argv=keep; argc=7; }
  bool show=argc>1&&string(argv[1])=="show"; if(show){ argv++; argc--; }
  if(argc<5&&!(show&&argc>=4)){ fprintf(stderr,"usage\n"); return 2; }
  string mode=argv[1]; unsigned long long seed=strtoull(argv[2],0,10); long start=atol(argv[3]),count=show?1:atol(argv[4]); int maxfail=argc>5?atoi(argv[5]):30; if(argc>6) pfd=open(argv[6],O_CREAT|O_RDWR,0644);
  signal(SIGPROF,onAlarm); int fails=0; std::map<string,int> seen; std::map<int,long> sizes;
  for(long i=start;i<start+count;++i){ cur=i; if(pfd>=0){ char b[32]; int n=snprintf(b,32,"%-20ld\n",i); if(pwrite(pfd,b,n,0)){} }
    struct itimerval tv={{0,0},{20,0}}; setitimer(ITIMER_PROF,&tv,0);
    Rng r(seed*1000003ull+i); Rec R=makeRec(r,r.p(0.8)); unsigned long long ps=r.next()%1000000;
    if(show){ printf("%s\n",str(R,R.size()-1).c_str()); }
    unsigned long long h=1469598103934665603ull; for(auto&n:R){ int q[4]={n.op,n.i,n.j,(int)(n.k*64)}; for(int z:q) h=(h^(unsigned)z)*1099511628211ull; for(int a:n.a) h=(h^(unsigned)(a+7))*1099511628211ull; opcount[n.op==FUN?fnn[n.i]:opn[n.op]]++; } if(R.size()>=3) distinct.insert(h);
    Fail f; bool ok=true;
    try{ ok=runMode(mode,R,ps,f); } catch(TooBig&){ ++n_toobig; ok=true; } catch(Exception&e){ ok=false; f={"escaped",e.what()}; } catch(std::exception&e){ ok=false; f={"escaped",e.what()}; } catch(Bad&e){ ok=false; f={"harness",e.why}; } catch(Undef&e){ ok=false; f={"harness",e.why}; }
    if(worker&&i==start+count/2) printf("SAMPLE {\"idx\":%ld,\"program\":\"%s\"}\n",i,esc(str(R,R.size()-1)).substr(0,300).c_str());
    if(!ok&&!show){ string k0=f.kind; try{ R=shrink(mode,R,ps,f);}catch(...){ } string rs=str(R,R.size()-1); string key=f.kind+"|"+rs; if(seen[key]++==0){ printf("FAIL {\"idx\":%ld,\"mode\":\"%s\",\"seed\":%llu,\"kind\":\"%s\",\"expr\":\"%s\",\"detail\":\"%s\"}\n",i,mode.c_str(),seed,f.kind.c_str(),esc(rs).c_str(),esc(f.detail).c_str()); fflush(stdout); if(++fails>=maxfail) { count=i-start+1; break; } } }
    else if(!ok) printf("FAIL %s: %s\n",f.kind.c_str(),f.detail.c_str());
    if((i&255)==0) Util::newScope(); }
  string oc; for(auto&k:opcount) oc+=(oc.empty()?"":",")+("\""+k.first+"\":"+std::to_string(k.second));
  printf("STATS {\"cases\":%ld,\"distinct\":%zu,\"comparisons\":%ld,\"undefined_points\":%ld,\"changed_by_simplify\":%ld,\"exceptions\":%ld,\"equal_pairs\":%ld,\"unequal_pairs\":%ld,\"ill_shaped\":%ld,\"too_big\":%ld,\"ops\":{%s}}\n",count,distinct.size(),n_cmp,n_undef,n_changed,n_throw,n_eq,n_neq,n_ill,n_toobig,oc.c_str());
  return 0; }
