// C11: entropy, purity, negativity and mutual information for every bipartition (every ordered subset) of finite families of states of ranks 2..4.
#include "qharness.h"
#include "arr.h"
#include "EntanglementMeasures.h"
using namespace q; using namespace quantumdata; using vmc::cat;
template<int... I> std::string nm() {std::string r; for (int i : {I...}) r+=char('0'+i); return r;}
double ent(const M& m) {double r=0; for (double e : heig(m)) if (e>0) r-=e*std::log(e); return r;}
M ptrans(const M& m, const vector<int>& at, const Dims& d) {M r(m.n); for (int i=0;i<m.n;++i) for (int j=0;j<m.n;++j) {auto x=unflat(i,d), y=unflat(j,d); for (int a : at) std::swap(x[a],y[a]); r(flat(x,d),flat(y,d))=m(i,j);} return r;}
double neg(const M& m) {double r=0; for (double e : heig(m)) if (e<0) r-=e; return r;}

struct Fam {std::string name; M rho; bool product=false, pure=false;};
vector<Fam> family(const Dims& d) { vector<Fam> f; int n=total(d), R=d.size(); int m=*std::min_element(d.begin(),d.end());
  for (int i : {0,n/2,n-1}) {V v=basis(n,i); f.push_back({cat("basis",i),outer(v,v),true,true});}
  {V v{1.}; M r=eye(1); for (int k=0;k<R;++k) {v=kron(v,genV(d[k],k)); r=kron(r,genRho(d[k],k));} f.push_back({"pure-product",outer(v,v),true,true}); f.push_back({"mixed-product",r,true,false});}
  {V v(n); for (int k=0;k<m;++k) {vector<int> x(R,k); v[flat(x,d)]=1/std::sqrt(double(m));} f.push_back({"GHZ",outer(v,v),false,true});
   for (double p : {0.,.25,1./3,.5,.75}) f.push_back({cat("Werner",p),C(p)*outer(v,v)+C((1-p)/n)*eye(n)});}
  {V v(n); for (int k=0;k<R;++k) {vector<int> x(R,0); x[k]=d[k]-1; v[flat(x,d)]=std::polar(1/std::sqrt(double(R)),double(k));} f.push_back({"W",outer(v,v),false,true});}
  for (int s=0;s<3;++s) {V v=genV(n,s); f.push_back({cat("generic-pure",s),outer(v,v),false,true}); f.push_back({cat("generic-mixed",s),genRho(n,s)});}
  {M a(n); for (int i=0;i<n;++i) a(i,i)=2.*(i+1)/(n*(n+1.)); f.push_back({"classical",a});}
  {V v=genV(n,1),w=genV(n,2); f.push_back({"rank-two",C(.6)*outer(v,v)+C(.4)*outer(w,w)});}
  for (double e : {1e-3,1e-5,1e-7,1e-9}) { V v=genV(n,4); f.push_back({cat("almost-pure",e),C(1-e)*outer(v,v)+C(e/n)*eye(n)}); M a=kron(eye(1),eye(1)); for (int k=0;k<R;++k) {V w=genV(d[k],k); a=kron(a,C(1-e)*outer(w,w)+C(e/d[k])*eye(d[k]));} f.push_back({cat("almost-pure-product",e),a,true}); }
  return f; }
// local basis changes: every subsystem cyclically permuted, phased or Fourier-rotated
M local(const Dims& d, int kind) {M u=eye(1); for (int k=0;k<(int)d.size();++k) {int n=d[k]; M m(n); int kk=(kind+k)%3; for (int i=0;i<n;++i) if (kk==0) m((i+1)%n,i)=1.; else if (kk==1) m(i,i)=std::polar(1.,1.3*i*(k+1)); else for (int j=0;j<n;++j) m(i,j)=std::polar(1/std::sqrt(double(n)),2*M_PI*i*j/n); u=kron(u,m);} return u;}

template<int R, int... I> void one(const Dims& d) { using Vec=tmptools::Vector<I...>; constexpr int K=sizeof...(I); vector<int> at{I...}, rest; for (int k=0;k<R;++k) if (std::find(at.begin(),at.end(),k)==at.end()) rest.push_back(k);
  for (auto& f : family(d)) for (int u=-1;u<3;++u) { vmc::scenario(cat("measure/",d,"/",nm<I...>(),"/",f.name,"/",u),[&]{ M rho=f.rho; if (u>=0) {M l=local(d,u); rho=l*rho*dag(l);} auto r=dop<R>(rho,d); vmc::step();
    double N=neg(ptrans(rho,at,d)); vmc::near(negPT(r,Vec{}),N,"negativity",1e-7); double S=ent(rho), SA=ent(reduce(rho,at,d)); vmc::near(entropy(r),S,"entropy",1e-7); vmc::check(std::abs(entropy(r)-S)<=1e-12*rho.n+1e-3*S || f.pure,[&]{return cat("entropy relative to its size: got ",entropy(r),", model says ",S);}); vmc::near(purity(r),tr(rho*rho).real(),"purity");
    vmc::near(purityOfPartialTrace(r,Vec{}),[&]{M x=reduce(rho,at,d); return tr(x*x).real();}(),"purity of the partial trace"); vmc::near(entropy(::quantumdata::reduce<Vec>(r)),SA,"entropy of the partial trace",1e-7);
    if (f.product) vmc::check(std::abs(negPT(r,Vec{}))<1e-7,"negativity of a product state"); if (f.pure) vmc::check(std::abs(entropy(r))<1e-7,"entropy of a pure state");
    eq(toM<R>(r),rho,"the operand is left alone"); vmc::near(negPT(r,tmptools::V_Empty{}),0.,"negativity with an empty part");
    if constexpr (K<R) {double I_=SA+ent(reduce(rho,rest,d))-S; vmc::near(mutualInformation(r,Vec{}),I_,"mutual information",1e-7); if (f.product) vmc::check(std::abs(mutualInformation(r,Vec{}))<1e-7,"mutual information of a product state"); }
    vmc::state(vmc::fnv(&N,8)^hash(rho.a)); }); } }
template<int R, int K> void all(const Dims& d) { arr::each<R,K>([&]<int... I>(){one<R,I...>(d);}); }
int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough();
  all<1,1>({3}); for (Dims d : {Dims{2,2},{2,3},{3,2},{1,3}}) {all<2,1>(d); all<2,2>(d);} 
  for (Dims d : {Dims{2,3,2}}) {all<3,1>(d); all<3,2>(d); all<3,3>(d);} for (Dims d : {Dims{2,1,2,2}}) {all<4,1>(d); all<4,2>(d); all<4,3>(d);}
  if (th) {for (Dims d : {Dims{3,3},{4,2},{2,5}}) {all<2,1>(d); all<2,2>(d);} for (Dims d : {Dims{3,2,2},{2,2,3}}) {all<3,1>(d); all<3,2>(d); all<3,3>(d);} for (Dims d : {Dims{2,2,2,2}}) {all<4,1>(d); all<4,2>(d); all<4,3>(d);}}
  // larger extents: spectra of many eigenvalues
  one<1,0>({24}); one<2,0>({5,4}); one<2,1>({5,4}); one<2,1>({3,9}); one<3,1>({3,4,2}); one<3,2,0>({2,4,3}); one<5,3,1>({2,2,1,2,2}); one<5,0,4,2>({2,1,2,2,2});
  return vmc::finish(); }
