// C13: band operators (Tridiagonal) and transition operators (Sigma) against dense matrices, with interaction-picture phases.
#include "qharness.h"
#include "TridiagonalHamiltonian.h"
#include "Sigma.h"
using namespace q; using quantumoperator::Tridiagonal; using quantumoperator::Sigma; using vmc::cat;

// model of an operator: matrix at t=0 and the (complex) main diagonal of the free generator of each basis state: M(t)_ij = M_ij exp((w_i-w_j)t)
struct Mod { M m; V w; bool freqs=false; };
M at(const Mod& o, double t) {M r=o.m; for (int i=0;i<r.n;++i) for (int j=0;j<r.n;++j) r(i,j)*=std::exp((o.w[i]-o.w[j])*t); return r;}
Mod tensor(const Mod& a, const Mod& b) {Mod r{kron(a.m,b.m),V(a.m.n*b.m.n),a.freqs||b.freqs}; for (int i=0;i<a.m.n;++i) for (int j=0;j<b.m.n;++j) r.w[i*b.m.n+j]=a.w[i]+b.w[j]; return r;}
template<int R> M act(const Tridiagonal<R>& T, const Dims& d) {int n=total(d); M m(n); for (int j=0;j<n;++j) {auto psi=arr<R>(basis(n,j),d); V init=genV(n,j); auto dp=arr<R>(init,d); T.apply(psi,dp); V c=toV<R>(dp)-init; for (int i=0;i<n;++i) m(i,j)=c[i]; if (toV<R>(psi)!=basis(n,j)) vmc::check(false,"apply changes its operand");} {V v=genV(n,502); auto psi=arr<R>(v,d); CArray<R> dp(ext<R>(d)); dp=0; T.apply(psi,dp); eq(toV<R>(dp),m*v,"small components",1e-12*(1+maxabs(m)));} return m;}
template<int R> bool sameOp(Tridiagonal<R>& T, const Mod& o, const Dims& d, const std::string& w, const vector<double>& times) {
  vmc::same(dims<R>(T.getDimensions()),d,w+": dimensions"); eq(act<R>(T,d),at(o,T.getTime()),w); for (double t : times) {T.propagate(t); vmc::step(); vmc::near(T.getTime(),t,w+": time"); if (!eq(act<R>(T,d),at(o,t),cat(w," propagated to ",t),1e-9)) return false;} vmc::state(hash(o.m.a)); return !vmc::failed(); }

struct Leaf { std::string name; int n, k; std::function<Tridiagonal<1>()> make; Mod mod; bool off; int fr; };
const C fw(int n, int i, int kind) {return kind==1 ? C(0,.7*i+.3*i*i) : C(-.2*i,.4*i*(n-i)+.9*i);}
vector<Leaf> leaves(int n, int kmax, bool freqsToo, int wide=0) { vector<Leaf> r;
  for (int k=0;k<=kmax && k<n;++k) for (int mask=1;mask<8;++mask) { if ((mask>1)!=(k>0)) {if (!(mask==1 && k==0)) continue;} 
    for (int fr=0;fr<(freqsToo && mask>1 ? 4 : 1);++fr) { // 0: none, 1: real frequencies via furnish, 2: complex via furnish, 3: complex via the constructor
      if (fr==3 && !(mask&1)) continue;
      V z=genV(n,wide+k+mask,false), mi=genV(n-k,wide+k+mask+10,false), pl=genV(n-k,wide+k+mask+20,false); Mod o{M(n),V(n),fr>0}; 
      if ((mask&1) && fr!=3) for (int i=0;i<n;++i) o.m(i,i)=z[i];
      if (mask&2) for (int i=0;i+k<n;++i) o.m(i+k,i)=mi[i];
      if (mask&4) for (int i=0;i+k<n;++i) o.m(i,i+k)=pl[i];
      V w(n); for (int i=0;i<n;++i) w[i]=fr==3 ? -z[i] : fr ? fw(n,i,fr) : C(0); o.w=w;
      r.push_back({cat("n",n,"k",k,"m",mask,"f",fr,wide?"spread":""),n,k,[=]{ CArray<1> e; auto a=[&](int bit, const V& v){return mask&bit ? arr<1>(v,{int(v.size())}) : CArray<1>();}; Tridiagonal<1> t(a(1,z),k,a(2,mi),a(4,pl),fr==3); if (fr==1||fr==2) t.furnishWithFreqs(arr<1>(w,{n})); return t; },o,mask>1,fr}); } }
  return r; }
const vector<vector<double>> TS={{},{.5},{-.3,.5},{1.,0.},{.5,.5,-.3},{2.,.25,0.,1.}};

template<int R> struct Ex { Tridiagonal<R> t; Mod o; };
// algebra on a single space: every sequence of operations on an accumulator, the other operand being drawn from all compatible leaves
void algebra(int n, int kmax, int depth) { auto ls=leaves(n,kmax,true);
  static const char* names[]={"+=","-=","+","-","*=c","*d","/=c","/d","neg","dagger","+HC","-HC","+HC/i","copy"}; const int NO=14; const C z(.5,-1.25);
  for (auto& a : ls) vmc::sequences(NO,depth,[&](const vector<int>& s){ for (auto& b : ls) { bool binary=false; for (int x : s) binary|=x<4; if (!binary && &b!=&ls[0]) continue;
      bool fits=!(a.off && b.off) || (a.k==b.k && (a.fr==b.fr && a.mod.w==b.mod.w)); if (binary && !fits) continue; // rejected combinations are explored separately; unfurnished with furnished off-diagonals is a matter of convention
      std::string id=cat("algebra/",a.name); for (int x : s) id+=cat("/",names[x]); if (binary) id+="/"+b.name;
      vmc::scenario(id,[&]{ Tridiagonal<1> t(a.make()); Mod o=a.mod; Tridiagonal<1> B(b.make()); if (b.off && !a.off && binary) {o.w=b.mod.w;} Mod ob=b.mod; 
        std::unique_ptr<Tridiagonal<1>> T(new Tridiagonal<1>(t)); auto set=[&](const Tridiagonal<1>& x){T.reset(new Tridiagonal<1>(x));};
        for (int x : s) { vmc::step(); switch (x) { case 0: *T+=B; o.m=o.m+ob.m; break; case 1: *T-=B; o.m=o.m-ob.m; break; case 2: set(*T+B); o.m=o.m+ob.m; break; case 3: set(B-*T); o.m=ob.m-o.m; break;
            case 4: *T*=z; o.m=z*o.m; break; case 5: set(3.*(*T)); o.m=C(3.)*o.m; break; case 6: *T/=z; o.m=(1./z)*o.m; break; case 7: set(*T/2.); o.m=C(.5)*o.m; break; case 8: set(-*T); o.m=C(-1.)*o.m; break;
            case 9: set(T->dagger()); o.m=dag(o.m); break; case 10: set(tridiagPlusHC(*T)); o.m=o.m+dag(o.m); break; case 11: set(tridiagMinusHC(*T)); o.m=o.m-dag(o.m); break; case 12: set(tridiagPlusHC_overI(*T)); o.m=(-I)*(o.m+dag(o.m)); break; case 13: {Tridiagonal<1> c(+*T); c*=2.; set(c); o.m=C(2.)*o.m;} break; } 
          if (!sameOp<1>(*T,o,{n},cat("after ",names[x]),{})) return; }
        eq(act<1>(t,{n}),a.mod.m,"the first operand is left alone"); eq(act<1>(B,{n}),b.mod.m,"the second operand is left alone");
        for (auto& ts : TS) {Tridiagonal<1> c(*T); if (!sameOp<1>(c,o,{n},"expression",ts)) return;} }); } }); }
void special() { // an operand without any diagonal stands for zero; both operands may be the same object
  auto all=leaves(3,2,true); auto l1=leaves(1,0,true), l4=leaves(4,3,true); all.insert(all.end(),l1.begin(),l1.end()); all.insert(all.end(),l4.begin(),l4.end());
  static const char* names[]={"T+=0","T-=0","T+0","T-0","0+T","0-T","0+=T","0-=T","T+=T","T-=T","T+T","T-T","T+=T+T","T-=-T"};
  for (auto& a : all) for (int op=0;op<14;++op) vmc::scenario(cat("special/",a.name,"/",names[op]),[&]{ Tridiagonal<1> t(a.make()), e, c(t); Mod o=a.mod; vmc::step(); auto fin=[&](Tridiagonal<1> r, C f, const char* w){ Mod p=o; p.m=f*o.m; for (auto& ts : TS) {Tridiagonal<1> x(r); if (!sameOp<1>(x,p,{a.n},w,ts)) return;} eq(act<1>(c,{a.n}),o.m,"copy made before"); };
      switch (op) { case 0: t+=e; fin(t,1.,"T+=0"); break; case 1: t-=e; fin(t,1.,"T-=0"); break; case 2: fin(t+e,1.,"T+0"); break; case 3: fin(t-e,1.,"T-0"); break; case 4: fin(e+t,1.,"0+T"); break; case 5: fin(e-t,-1.,"0-T"); break; case 6: e+=t; fin(e,1.,"0+=T"); break; case 7: e-=t; fin(e,-1.,"0-=T"); break;
        case 8: t+=t; fin(t,2.,"T+=T"); break; case 9: t-=t; fin(t,0.,"T-=T"); break; case 10: fin(t+t,2.,"T+T"); break; case 11: fin(t-t,0.,"T-T"); break; case 12: t+=t+t; fin(t,3.,"T+=T+T"); break; case 13: t-=-t; fin(t,2.,"T-=-T"); break; } }); 
  vmc::scenario("special/empty",[&]{ Tridiagonal<1> e, f; vmc::step(); e+=f; vmc::same(int(e.getTotalDimension()),0,"dimension of 0+0"); }); }
// larger extents and wide bands, and long histories of times (growing, returning, repeated, large)
void large() { for (int wide : {0,500}) for (int n : {3,5,7,12,30}) for (auto& a : leaves(n,n-1,true,wide)) { if (n==30 && a.k!=1 && a.k!=7 && a.k!=29) continue; vmc::scenario(cat("large/",a.name),[&]{ Tridiagonal<1> t(a.make()); if (!sameOp<1>(t,a.mod,{n},"band operator",{.5})) return; Tridiagonal<1> h(tridiagMinusHC(t)*C(.5,2.)); Mod o=a.mod; M m=at(o,.5); m=C(.5,2.)*(m-dag(m)); eq(act<1>(h,{n}),m,"minus its conjugate",1e-9);
      Tridiagonal<1> s(a.make()), r(a.make()); s+=r; s*=2.; Mod p=a.mod; p.m=C(4.)*p.m; sameOp<1>(s,p,{n},"sum",{-.25,1.}); }); }
  for (int wide : {0,500}) for (auto& a : leaves(4,3,true,wide)) vmc::scenario(cat("history/",a.name),[&]{ vector<double> ts; for (int i=0;i<60;++i) ts.push_back(.05*i); for (double x : {3.,3.,0.,-2.,100.,7.25,7.25,-.5,1e-9,0.,0.}) if (a.fr<2) ts.push_back(x); else if (std::abs(x)<4) ts.push_back(x); Tridiagonal<1> t(a.make()); sameOp<1>(t,a.mod,{4},"band operator over a long history",ts); });
  for (Dims d : {Dims{7,5},{4,9}}) for (int wide : {0,500}) {auto A=leaves(d[0],3,true,wide), B=leaves(d[1],4,true,wide); for (size_t i=0;i<A.size();i+=3) for (size_t j=1;j<B.size();j+=4) vmc::scenario(cat("large-product/",A[i].name,"x",B[j].name),[&]{ Tridiagonal<1> a(A[i].make()), b(B[j].make()); Tridiagonal<2> t(a*b), h(tridiagMinusHC(t)); Mod o=tensor(A[i].mod,B[j].mod); if (!sameOp<2>(t,o,d,"product",{.5,-.25})) return; o.m=o.m-dag(o.m); sameOp<2>(h,o,d,"product minus its conjugate",{.5}); }); } }
void rejected() { // operands that do not fit
  auto l3=leaves(3,2,true), l4=leaves(4,3,true); auto all=l3; all.insert(all.end(),l4.begin(),l4.end());
  for (auto& a : all) for (auto& b : all) { bool dim=a.n!=b.n, band=a.off && b.off && a.k!=b.k, fr=a.off && b.off && a.fr && b.fr && a.mod.w!=b.mod.w; if (!dim && !band && !fr) continue; if (!dim && !band && a.k!=b.k) continue;
    vmc::scenario(cat("reject/",a.name,"/",b.name),[&]{ vmc::step(3); Tridiagonal<1> A(a.make()), B(b.make()); vmc::check(vmc::throws<std::exception>([&]{A+=B;}),"misfit operands of += are combined"); Tridiagonal<1> A2(a.make()); vmc::check(vmc::throws<std::exception>([&]{A2-B;}),"misfit operands of - are combined"); eq(act<1>(B,{b.n}),b.mod.m,"operand after a refusal"); }); }
  // inconsistent constructor arguments
  for (int nz=0;nz<=4;++nz) for (int nm=0;nm<=4;++nm) for (int np=0;np<=4;++np) for (int k=0;k<=3;++k) { if (!nz && !nm && !np) continue; bool ok=!((nm||np) && !k) && !(nz && nm && nz!=nm+k) && !(nz && np && nz!=np+k) && !(nm && np && nm!=np);
    vmc::scenario(cat("construct/",nz,"/",nm,"/",np,"/",k),[&]{ auto a=[](int n, int s){return n ? arr<1>(genV(n,s,false),{n}) : CArray<1>();}; vmc::step(); bool threw=vmc::throws<std::exception>([&]{ Tridiagonal<1> t(a(nz,1),k,a(nm,2),a(np,3)); int n=std::max(nz,std::max(nm,np)+k); if (ok && (nm || np)) { M m(n); V z=genV(nz,1,false), mi=genV(nm,2,false), pl=genV(np,3,false); for (int i=0;i<nz;++i) m(i,i)=z[i]; for (int i=0;i<nm;++i) m(i+k,i)=mi[i]; for (int i=0;i<np;++i) m(i,i+k)=pl[i]; eq(act<1>(t,{n}),m,"constructed operator"); } }); vmc::same(threw,!ok,"refusal of inconsistent diagonals"); }); }
  // direct products of operators that stand at different times
  for (double t1 : {0.,.5}) for (double t2 : {0.,.5}) vmc::scenario(cat("times/",t1,"/",t2),[&]{ auto A=l3[5].make(), B=l4[9].make(); A.propagate(t1); B.propagate(t2); vmc::step(); vmc::same(vmc::throws<std::exception>([&]{Tridiagonal<2> c(A*B);}),t1!=t2,"direct product of operators standing at different times"); }); }
// direct products, then algebra on them
vector<Leaf> few(int n) {vector<Leaf> r; for (auto& l : leaves(n,2,true)) if (!(l.off && l.k==2 && (l.fr>1 || n==2))) r.push_back(l); return r;}
void products2() { static const char* names[]={"id","dagger","+HC","-HC","neg","*c","+HC/i"}; 
  for (int n1 : {2,3}) for (int n2 : {3,2}) { if (n1==2 && n2==2) continue; auto A=few(n1), B=few(n2); Dims d{n1,n2};
    for (auto& a : A) for (auto& b : B) for (int op=0;op<7;++op) vmc::scenario(cat("product/",a.name,"x",b.name,"/",names[op]),[&]{ Tridiagonal<1> ta(a.make()), tb(b.make()); Tridiagonal<2> t(ta*tb); Mod o=tensor(a.mod,b.mod); std::unique_ptr<Tridiagonal<2>> T; vmc::step();
        switch (op) {case 0: T.reset(new Tridiagonal<2>(t)); break; case 1: T.reset(new Tridiagonal<2>(t.dagger())); o.m=dag(o.m); break; case 2: T.reset(new Tridiagonal<2>(tridiagPlusHC(t))); o.m=o.m+dag(o.m); break; case 3: T.reset(new Tridiagonal<2>(tridiagMinusHC(t))); o.m=o.m-dag(o.m); break; case 4: T.reset(new Tridiagonal<2>(-t)); o.m=C(-1.)*o.m; break; case 5: T.reset(new Tridiagonal<2>(t*C(.5,2.))); o.m=C(.5,2.)*o.m; break; case 6: T.reset(new Tridiagonal<2>(tridiagPlusHC_overI(t))); o.m=(-I)*(o.m+dag(o.m)); break;}
        for (auto& ts : TS) {Tridiagonal<2> c(*T); if (!sameOp<2>(c,o,d,"product",ts)) return;} eq(act<1>(ta,{n1}),a.mod.m,"left factor"); eq(act<1>(tb,{n2}),b.mod.m,"right factor"); }); } }
// sums of two products sharing bands and frequencies axis by axis
void sums2() { int n1=3,n2=2; Dims d{n1,n2}; auto A=few(n1), B=few(n2);
  auto compat=[](const Leaf& x, const Leaf& y){return !x.off || !y.off || (x.k==y.k && x.fr==y.fr && x.mod.w==y.mod.w);};
  for (auto& a : A) for (auto& b : B) for (auto& c : A) for (auto& e : B) { if (!compat(a,c)||!compat(b,e)) continue; if (!vmc::thorough() && ((a.fr!=c.fr && a.off && c.off)||a.fr>2||c.fr>2||b.fr==1||e.fr==1)) continue;
    vmc::scenario(cat("sum/",a.name,"x",b.name,"+",c.name,"x",e.name),[&]{ Tridiagonal<1> ta(a.make()), tb(b.make()), tc(c.make()), te(e.make()); Tridiagonal<2> T(ta*tb+tc*te); Mod o=tensor(a.mod,b.mod), p=tensor(c.mod,e.mod); vmc::step(); 
      // each axis rotates with the frequencies of whichever operand has any
      V w1=a.off ? a.mod.w : c.mod.w, w2=b.off ? b.mod.w : e.mod.w; for (int i=0;i<n1;++i) for (int j=0;j<n2;++j) o.w[i*n2+j]=w1[i]+w2[j]; o.m=o.m+p.m; for (auto& ts : TS) {Tridiagonal<2> cc(T); if (!sameOp<2>(cc,o,d,"sum of products",ts)) return;} }); } }
void products3() { auto A=few(2), B=few(3), Cc=leaves(2,1,true); Dims d{2,3,2}; for (auto& a : A) for (auto& b : B) for (auto& c : Cc) for (int hc=0;hc<2;++hc) { if (!vmc::thorough() && (a.fr==3||b.fr==1||b.fr==3||c.fr==2)) continue;
    vmc::scenario(cat("triple/",a.name,"x",b.name,"x",c.name,"/",hc),[&]{ Tridiagonal<1> ta(a.make()), tb(b.make()), tc(c.make()); Tridiagonal<3> l((ta*tb)*tc), r(ta*(tb*tc)); Mod o=tensor(tensor(a.mod,b.mod),c.mod); if (hc) o.m=o.m-dag(o.m); Tridiagonal<3> L(hc?tridiagMinusHC(l):l), R(hc?tridiagMinusHC(r):r); vmc::step(); sameOp<3>(L,o,d,"triple product",{.5,-.3}) && sameOp<3>(R,o,d,"triple product, right-associated",{-.3,0.,1.}); }); } }
void hamiltonians() { using namespace quantumoperator; auto ls=leaves(3,2,true); // a Hamiltonian made of a list of band operators, evaluated in every order of times
  static const double ts[]={0.,.5,1.25}; static const double t0s[]={0.,.5};
  for (size_t i=0;i<ls.size();i+=3) for (size_t j=0;j<ls.size();j+=4) vmc::sequences(6,3,[&](const vector<int>& s){ vmc::scenario(cat("hamiltonian/",ls[i].name,"+",ls[j].name,"/",s),[&]{ std::list<Tridiagonal<1>> l; l.push_back(ls[i].make()); l.push_back(ls[j].make()); TridiagonalHamiltonian<1,true> td(l); TridiagonalHamiltonian<1,false> ti(l);
      for (int x : s) {double t0=t0s[x%2], t=t0+ts[x/2]; vmc::step(); eq(matrixOf<1>(td,{3},t,t0),I*(at(ls[i].mod,t-t0)+at(ls[j].mod,t-t0)),cat("time-dependent list at ",t,", ",t0)); eq(matrixOf<1>(ti,{3},t,t0),I*(ls[i].mod.m+ls[j].mod.m),"time-independent list");} }); }); }
M sig(int n, int l, int r) {M m(n); m(l,r)=1.; return m;}
template<int R, typename O> M actO(const O& o, const Dims& d) {int n=total(d); M m(n); for (int j=0;j<n;++j) {auto psi=arr<R>(basis(n,j),d); V init=genV(n,j); auto dp=arr<R>(init,d); o.apply(psi,dp); V c=toV<R>(dp)-init; for (int i=0;i<n;++i) m(i,j)=c[i];} {V v=genV(n,502); auto psi=arr<R>(v,d); CArray<R> dp(ext<R>(d)); dp=0; o.apply(psi,dp); eq(toV<R>(dp),m*v,"small components",1e-12*(1+maxabs(m)));} return m;}
template<int L, int R> void sigmas() { for (int n=std::max(L,R)+1;n<=4;++n) vmc::scenario(cat("sigma/",L,R,"/",n),[&]{ vmc::step(); Sigma<L,R> s; eq(actO<1>(s,{n}),sig(n,L,R),"transition operator"); eq(actO<1>(s.dagger(),{n}),sig(n,R,L),"its conjugate"); });
  for (auto& b : leaves(3,2,true)) for (double t : {0.,.5}) vmc::scenario(cat("sigma-tridiagonal/",L,R,"/",b.name,"/",t),[&]{ const int n=3; Tridiagonal<1> T(b.make()); T.propagate(t); M m=at(b.mod,t), s=sig(n,L,R); Sigma<L,R> S; vmc::step(4); auto p=S*T; eq(actO<2>(p,{n,3}),kron(s,m),"sigma x band"); auto p2=T*S; eq(actO<2>(p2,{3,n}),kron(m,s),"band x sigma");
      auto p3=S*p; eq(actO<3>(p3,{n,n,3}),kron(s,kron(s,m)),"sigma x sigma x band"); auto p4=p2*S; eq(actO<3>(p4,{3,n,n}),kron(kron(m,s),s),"band x sigma x sigma"); auto p5=S*p2; eq(actO<3>(p5,{n,3,n}),kron(s,kron(m,s)),"sigma x band x sigma"); auto p6=p*S; eq(actO<3>(p6,{n,3,n}),kron(s,kron(m,s)),"(sigma x band) x sigma"); });
  vmc::scenario(cat("sigma-sigma/",L,R),[&]{ Sigma<L,R> S; auto pair=[&]<int L2, int R2>(Sigma<L2,R2> q){ auto p=S*q; vmc::step(); eq(actO<2>(p,{3,4}),kron(sig(3,L,R),sig(4,L2,R2)),cat("sigma x sigma ",L2,R2)); auto p2=q*S; eq(actO<2>(p2,{4,3}),kron(sig(4,L2,R2),sig(3,L,R)),"sigma x sigma, reversed"); }; pair(Sigma<0,0>()); pair(Sigma<0,1>()); pair(Sigma<1,0>()); pair(Sigma<1,1>()); pair(Sigma<3,1>()); pair(Sigma<0,3>()); pair(Sigma<2,3>()); }); 
  for (auto& b : few(2)) for (auto& c : few(3)) { if (c.fr==1) continue; vmc::scenario(cat("sigma-pair/",L,R,"/",b.name,"/",c.name),[&]{ Tridiagonal<1> tb(b.make()), tc(c.make()); Tridiagonal<2> T(tb*tc); T.propagate(.5); M m=at(tensor(b.mod,c.mod),.5), s=sig(3,L,R); Sigma<L,R> S; auto p=S*T; eq(actO<3>(p,{3,2,3}),kron(s,m),"sigma x (band x band)"); auto p2=T*S; eq(actO<3>(p2,{2,3,3}),kron(m,s),"(band x band) x sigma"); vmc::step(2); }); } }
int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough();
  algebra(2,1,2); algebra(3,2,th?3:2); algebra(4,3,th?2:1); algebra(1,0,2); rejected(); special(); large(); products2(); sums2(); products3(); hamiltonians();
  for (int n=1;n<=5;++n) vmc::scenario(cat("identity/",n),[&]{vmc::step(); Tridiagonal<1> t(quantumoperator::identity(n)); eq(act<1>(t,{n}),eye(n),"identity");});
  sigmas<0,0>(); sigmas<0,1>(); sigmas<1,0>(); sigmas<0,2>(); sigmas<2,0>(); sigmas<1,2>(); sigmas<2,1>(); sigmas<1,1>(); sigmas<2,2>();
  return vmc::finish(); }
