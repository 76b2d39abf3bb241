// Dense linear algebra (independent of the code under test), conversions, and table-driven user-defined quantum systems.
#pragma once
#include "vmc.h"
#include "StateVector.h"
#include "DensityOperator.h"
#include "Structure.h"
#include "Free.h"
#include "Interaction.h"
#include "FormDouble.h"
#include <array>
#include <memory>

namespace q {
using std::vector; using C=std::complex<double>; using V=vector<C>;
inline const C I{0.,1.};

struct M { int n=0; V a; M() {} explicit M(int n_) : n(n_), a(n_*n_) {} C& operator()(int i, int j) {return a[i*n+j];} const C& operator()(int i, int j) const {return a[i*n+j];} };
inline M eye(int n) {M m(n); for (int i=0;i<n;++i) m(i,i)=1.; return m;}
inline M operator+(M x, const M& y) {for (size_t i=0;i<x.a.size();++i) x.a[i]+=y.a[i]; return x;}
inline M operator-(M x, const M& y) {for (size_t i=0;i<x.a.size();++i) x.a[i]-=y.a[i]; return x;}
inline M operator*(C c, M x) {for (auto& e : x.a) e*=c; return x;}
inline M operator*(const M& x, const M& y) {M r(x.n); for (int i=0;i<x.n;++i) for (int k=0;k<x.n;++k) {C f=x(i,k); if (f!=0.) for (int j=0;j<x.n;++j) r(i,j)+=f*y(k,j);} return r;}
inline V operator*(const M& x, const V& v) {V r(x.n); for (int i=0;i<x.n;++i) for (int j=0;j<x.n;++j) r[i]+=x(i,j)*v[j]; return r;}
inline V operator+(V x, const V& y) {for (size_t i=0;i<x.size();++i) x[i]+=y[i]; return x;}
inline V operator-(V x, const V& y) {for (size_t i=0;i<x.size();++i) x[i]-=y[i]; return x;}
inline V operator*(C c, V x) {for (auto& e : x) e*=c; return x;}
inline M dag(const M& x) {M r(x.n); for (int i=0;i<x.n;++i) for (int j=0;j<x.n;++j) r(j,i)=std::conj(x(i,j)); return r;}
inline M transpose(const M& x) {M r(x.n); for (int i=0;i<x.n;++i) for (int j=0;j<x.n;++j) r(j,i)=x(i,j); return r;}
inline M kron(const M& x, const M& y) {M r(x.n*y.n); for (int i=0;i<x.n;++i) for (int j=0;j<x.n;++j) for (int k=0;k<y.n;++k) for (int l=0;l<y.n;++l) r(i*y.n+k,j*y.n+l)=x(i,j)*y(k,l); return r;}
inline V kron(const V& x, const V& y) {V r; for (auto& a : x) for (auto& b : y) r.push_back(a*b); return r;}
inline M outer(const V& x, const V& y) {M r(x.size()); for (int i=0;i<r.n;++i) for (int j=0;j<r.n;++j) r(i,j)=x[i]*std::conj(y[j]); return r;}
inline C tr(const M& x) {C r=0; for (int i=0;i<x.n;++i) r+=x(i,i); return r;}
inline C dot(const V& x, const V& y) {C r=0; for (size_t i=0;i<x.size();++i) r+=std::conj(x[i])*y[i]; return r;}
inline double norm(const V& x) {return std::sqrt(dot(x,x).real());}
inline double maxabs(const V& x) {double r=0; for (auto& e : x) r=std::max(r,std::abs(e)); return r;}
inline double maxabs(const M& x) {return maxabs(x.a);}
inline M expm(M x) { int s=0; double nn=maxabs(x)*x.n; while (nn>.25) {nn/=2; ++s;} x=C(std::pow(.5,s))*x; M r=eye(x.n), t=r; for (int k=1;k<20;++k) {t=C(1./k)*(t*x); r=r+t;} while (s--) r=r*r; return r; }
// eigenvalues of a Hermitian matrix (Jacobi)
inline vector<double> heig(M h) { int n=h.n; for (int sweep=0;sweep<200;++sweep) { double off=0; for (int p=0;p<n;++p) for (int r=p+1;r<n;++r) off+=std::norm(h(p,r)); if (off<1e-30) break;
  for (int p=0;p<n;++p) for (int r=p+1;r<n;++r) { C x=h(p,r); if (std::abs(x)<1e-300) continue; double th=.5*std::atan2(2*std::abs(x),(h(r,r)-h(p,p)).real()), c=std::cos(th), s=std::sin(th); C ph=x/std::abs(x);
    // rotate columns then rows with unitary [[c, s],[-s conj(ph), c conj(ph)]]
    for (int k=0;k<n;++k) {C a=h(k,p), b=h(k,r); h(k,p)=c*a-s*std::conj(ph)*b; h(k,r)=s*a+c*std::conj(ph)*b;}
    for (int k=0;k<n;++k) {C a=h(p,k), b=h(r,k); h(p,k)=c*a-s*ph*b; h(r,k)=s*a+c*ph*b;} } }
  vector<double> e; for (int i=0;i<n;++i) e.push_back(h(i,i).real()); std::sort(e.begin(),e.end()); return e; }

// multi-indices in row-major order
using Dims=vector<int>;
inline int total(const Dims& d) {int r=1; for (int x : d) r*=x; return r;}
inline vector<int> unflat(int i, const Dims& d) {vector<int> r(d.size()); for (int k=(int)d.size()-1;k>=0;--k) {r[k]=i%d[k]; i/=d[k];} return r;}
inline int flat(const vector<int>& x, const Dims& d) {int r=0; for (size_t k=0;k<d.size();++k) r=r*d[k]+x[k]; return r;}
// embeds operator m acting on the subsystems `at` (in that order) into the full space
inline M embed(const M& m, const vector<int>& at, const Dims& d) { int n=total(d); M r(n); Dims sd; for (int a : at) sd.push_back(d[a]);
  for (int j=0;j<n;++j) { auto x=unflat(j,d); vector<int> s; for (int a : at) s.push_back(x[a]); int c=flat(s,sd);
    for (int k=0;k<m.n;++k) if (m(k,c)!=0.) { auto y=x; auto sk=unflat(k,sd); for (size_t l=0;l<at.size();++l) y[at[l]]=sk[l]; r(flat(y,d),j)+=m(k,c); } } return r; }
// reduced density matrix over the subsystems `keep`, in that order
inline M reduce(const M& rho, const vector<int>& keep, const Dims& d) { Dims kd; for (int k : keep) kd.push_back(d[k]); M r(total(kd)); int n=total(d);
  for (int i=0;i<n;++i) for (int j=0;j<n;++j) { auto x=unflat(i,d), y=unflat(j,d); bool ok=true; vector<int> xi,yi; for (size_t k=0;k<d.size();++k) {bool kept=std::find(keep.begin(),keep.end(),(int)k)!=keep.end(); if (!kept && x[k]!=y[k]) ok=false;}
    if (!ok) continue; for (int k : keep) {xi.push_back(x[k]); yi.push_back(y[k]);} r(flat(xi,kd),flat(yi,kd))+=rho(i,j); } return r; }
inline M annihilate(int n) {M r(n); for (int i=1;i<n;++i) r(i-1,i)=std::sqrt(double(i)); return r;}
inline M diag(const V& v) {M r(v.size()); for (int i=0;i<r.n;++i) r(i,i)=v[i]; return r;}

// deterministic "generic" data
inline C gen(int i, int seed) {double a=std::fmod(std::sin(12.9898*(i+1)+78.233*(seed+1))*43758.5453,1.), b=std::fmod(std::sin(39.3468*(i+1)+11.135*(seed+1))*24634.6345,1.); return {a,b};}
// seeds from 500: the magnitudes spread over many orders, so that contributions dropped because they are small show
inline double spread(int i, int seed) {static const double p[]={1.,1e-6,3e-3,4e-8,2e-5,1e-9}; return seed<500 ? 1. : p[(i*5+seed)%6];}
inline V genV(int n, int seed, bool normed=true) {V v; for (int i=0;i<n;++i) v.push_back(spread(i,seed)*gen(i,seed)); if (normed) {double x=norm(v); for (auto& e : v) e/=x;} return v;}
inline M genM(int n, int seed, double s=1.) {M m(n); for (int i=0;i<n*n;++i) m.a[i]=s*spread(i,seed)*gen(i,seed+1000); return m;}
inline M genH(int n, int seed, double s=1.) {M m=genM(n,seed,s); return C(.5)*(m+dag(m));}
inline M genRho(int n, int seed) {M m=genM(n,seed); m=m*dag(m); if (seed>=500) for (int i=0;i<n;++i) for (int j=0;j<n;++j) if (i!=j) m(i,j)*=spread(std::min(i,j)*n+std::max(i,j),seed); return (1./tr(m))*m;}
inline V basis(int n, int i) {V v(n); v[i]=1.; return v;}

// conversions (elementwise by index, so independent of memory layout)
template<int R> Dims dims(const ExtTiny<R>& d) {Dims r; for (int i=0;i<R;++i) r.push_back(d(i)); return r;}
template<int R> Dims shape(const CArray<R>& a) {Dims r; for (int i=0;i<R;++i) r.push_back(a.extent(i)); return r;}
template<int R> ExtTiny<R> ext(const Dims& d) {ExtTiny<R> r; for (int i=0;i<R;++i) r(i)=d[i]; return r;}
template<int R> IdxTiny<R> idx(const vector<int>& x) {IdxTiny<R> r; for (int i=0;i<R;++i) r(i)=x[i]; return r;}
template<int R> V toV(const CArray<R>& a) {Dims d=shape(a); V v; for (int i=0;i<total(d);++i) v.push_back(a(idx<R>(unflat(i,d)))); return v;}
template<int R> void put(CArray<R> a, const V& v) {Dims d=shape(a); for (int i=0;i<total(d);++i) a(idx<R>(unflat(i,d)))=v[i];}
template<int R> CArray<R> arr(const V& v, const Dims& d) {CArray<R> a(ext<R>(d)); put<R>(a,v); return a;}
template<int R> M toM(const CArray<R>& a) {Dims d=shape(a); int n=1; for (int i=0;i<R/2;++i) n*=d[i]; M m(n); m.a=toV(a); return m;}
template<int R> V toV(const quantumdata::StateVector<R>& s) {return toV<R>(s.getArray());}
template<int R> M toM(const quantumdata::DensityOperator<R>& s) {return toM<2*R>(s.getArray());}
template<int R> quantumdata::StateVector<R> sv(const V& v, const Dims& d) {quantumdata::StateVector<R> s(ext<R>(d)); put<R>(s.getArray(),v); return s;}
template<int R> quantumdata::DensityOperator<R> dop(const M& m, const Dims& d) {quantumdata::DensityOperator<R> s(ext<R>(d)); put<2*R>(s.getArray(),m.a); return s;}
inline quantumdata::StateVector<1> sv1(const V& v) {return sv<1>(v,{int(v.size())});}
inline quantumdata::DensityOperator<1> do1(const M& m) {return dop<1>(m,{m.n});}
template<int R> M toM(const quantumdata::LazyDensityOperator<R>& l) {Dims d=dims<R>(l.getDimensions()); int n=total(d); M m(n); for (int i=0;i<n;++i) for (int j=0;j<n;++j) {auto x=idx<R>(unflat(i,d)), y=idx<R>(unflat(j,d)); m(i,j)=i==j ? C(l(x)) : C(l(x)(y));} return m;}

inline bool eq(const V& got, const V& want, const std::string& what, double tol=1e-10) {
  if (!vmc::same(got.size(),want.size(),what+": size")) return false; double s=1.; for (auto& x : want) s=std::max(s,std::abs(x));
  for (size_t i=0;i<got.size();++i) if (!(std::abs(got[i]-want[i])<=tol*s)) {vmc::check(false,[&]{return vmc::cat(what,": element ",i,": got ",got[i],", model says ",want[i]);}); return false;} ++vmc::ctx().checks; return true; }
inline bool eq(const M& got, const M& want, const std::string& what, double tol=1e-10) {vmc::state(vmc::fnv(want.a.data(),want.a.size()*sizeof(C))); return eq(got.a,want.a,what,tol);}
inline bool eqd(const vector<double>& got, const vector<double>& want, const std::string& what, double tol=1e-10) {V a(got.begin(),got.end()), b(want.begin(),want.end()); return eq(a,b,what,tol);}
inline vector<double> toD(const DArray<1>& a) {vector<double> r; for (int i=0;i<a.extent(0);++i) r.push_back(a(i)); return r;}
inline uint64_t hash(const V& v) {return vmc::fnv(v.data(),v.size()*sizeof(C));}

// the operation whose columns are m acts linearly on a vector with both large and small components
template<typename F, typename A> void linear(const M& m, int n, const Dims&, F f, A psi) {V v=genV(n,503), out; f(psi,out); eq(out,m*v,"linearity",1e-13*(1+n*maxabs(m)));}
// dense matrix of a Hamiltonian object: d psi/dt = H/i psi
template<int R> M matrixOf(const structure::Hamiltonian<R>& h, const Dims& d, double t, double t0) { int n=total(d); M m(n); for (int j=0;j<n;++j) { auto psi=arr<R>(basis(n,j),d); CArray<R> dp(ext<R>(d)); dp=0; h.addContribution(t,psi,dp,t0); V c=toV<R>(dp); for (int i=0;i<n;++i) m(i,j)=I*c[i]; } linear(m,n,d,[&](const auto& psi, V& out){CArray<R> dp(ext<R>(d)); dp=0; h.addContribution(t,psi,dp,t0); out=I*toV<R>(dp);},arr<R>(genV(n,503),d)); return m; }
template<int R> M matrixOfU(const structure::Exact<R>& e, const Dims& d, double t, double t0) { int n=total(d); M m(n); for (int j=0;j<n;++j) { auto psi=arr<R>(basis(n,j),d); e.actWithU(t,psi,t0); V c=toV<R>(psi); for (int i=0;i<n;++i) m(i,j)=c[i]; } linear(m,n,d,[&](auto& psi, V& out){e.actWithU(t,psi,t0); out=toV<R>(psi);},arr<R>(genV(n,503),d)); return m; }
template<int R> M matrixOfJ(const structure::Liouvillean<R>& l, const Dims& d, double t, int k) { int n=total(d); M m(n); for (int j=0;j<n;++j) { auto psi=arr<R>(basis(n,j),d); l.actWithJ(t,psi,k); V c=toV<R>(psi); for (int i=0;i<n;++i) m(i,j)=c[i]; } linear(m,n,d,[&](auto& psi, V& out){l.actWithJ(t,psi,k); out=toV<R>(psi);},arr<R>(genV(n,503),d)); return m; }

// ---- table-driven systems -------------------------------------------------------------------------------------------
// All matrices are given as functions of the times the framework passes; a null function with the feature flag set is an error.
struct Tables {
  std::function<M(double,double)> H;            // Hamiltonian matrix (any matrix) at (t,t0)
  std::function<M(double,double)> U;            // propagator
  bool unitary=true;
  vector<std::function<M(double)>> J; bool superOp=false; vector<bool> negRate; // jump operators; explicit superoperator; "special" (negative) rates
  vector<M> A;                                   // operators whose expectation values are reported (real parts)
  std::string name="sys"; mutable long nH=0, nU=0, nJ=0;
};
template<int R> struct HamPart : structure::Hamiltonian<R> { virtual const Tables& tab() const=0;
  void addContribution_v(double t, const structure::StateVectorLow<R>& psi, structure::StateVectorLow<R>& d, double t0) const override { ++tab().nH; V v=toV<R>(psi), r=toV<R>(d); put<R>(d,r+(-I)*(tab().H(t,t0)*v)); } };
template<int R> struct ExPart : structure::Exact<R> { virtual const Tables& tab() const=0; bool applicableInMaster_v() const override {return tab().unitary;}
  void actWithU_v(double t, structure::StateVectorLow<R>& psi, double t0) const override { ++tab().nU; put<R>(psi,tab().U(t,t0)*toV<R>(psi)); } };
template<int R> struct LiPart : structure::Liouvillean<R> { virtual const Tables& tab() const=0;
  std::ostream& streamKey_v(std::ostream& os, size_t& i) const override {os<<tab().name<<" channels\n"; for (size_t k=0;k<tab().J.size();++k) os<<i++<<". "<<tab().name<<" jump "<<k<<"\n"; return os;}
  size_t nAvr_v() const override {return tab().J.size();}
  const structure::Averages average_v(double t, const quantumdata::LazyDensityOperator<R>& l) const override { M rho=toM<R>(l); structure::Averages a((int)tab().J.size()); for (size_t k=0;k<tab().J.size();++k) {M j=tab().J[k](t); a((int)k)=(k<tab().negRate.size() && tab().negRate[k]) ? -1. : tr(j*rho*dag(j)).real();} return a; }
  void actWithJ_v(double t, structure::StateVectorLow<R>& psi, size_t k) const override {++tab().nJ; put<R>(psi,tab().J.at(k)(t)*toV<R>(psi));}
  void actWithSuperoperator_v(double t, const structure::DensityOperatorLow<R>& rho, structure::DensityOperatorLow<R>& d, size_t k) const override {
    if (!tab().superOp) throw structure::SuperoperatorNotImplementedException(k); M j=tab().J.at(k)(t); put<2*R>(d,toV<2*R>(d)+(j*toM<2*R>(rho)*dag(j)).a); } };
template<int R> struct AvPart : structure::Averaged<R> { virtual const Tables& tab() const=0;
  std::ostream& streamKey_v(std::ostream& os, size_t& i) const override {os<<tab().name<<" averages\n"; for (size_t k=0;k<tab().A.size();++k) os<<i++<<". "<<tab().name<<" average "<<k<<"\n"; return os;}
  size_t nAvr_v() const override {return tab().A.size();}
  const structure::Averages average_v(double, const quantumdata::LazyDensityOperator<R>& l) const override { M rho=toM<R>(l); structure::Averages a((int)tab().A.size()); for (size_t k=0;k<tab().A.size();++k) a((int)k)=tr(tab().A[k]*rho).real(); return a; }
  void process_v(structure::Averages& a) const override { for (int k=1;k<a.extent(0);++k) a(k)-=a(0); } // a derived quantity, so that misplaced processing shows
  std::ostream& stream_v(const structure::Averages& a, std::ostream& os, int p) const override {os<<'\t'; for (int k=0;k<a.extent(0);++k) os<<FormDouble(p)(a(k)); return os;} };
struct E1 {}; struct E2 {}; struct E3 {}; struct E4 {};
template<int R, bool H, bool E, bool L, bool A> struct Parts : std::conditional_t<H,HamPart<R>,E1>, std::conditional_t<E,ExPart<R>,E2>, std::conditional_t<L,LiPart<R>,E3>, std::conditional_t<A,AvPart<R>,E4> {};

template<bool H, bool E, bool L, bool A> struct FreeSys : structure::Free, Parts<1,H,E,L,A> { Tables t_; const Tables& tab() const {return t_;}
  FreeSys(int dim, Tables t, double freq=1.) : structure::Free(dim,{RF{"f",freq,1.}}), t_(t) {getParsStream()<<"free "<<t.name<<"\n";} };
template<int R, bool H, bool E, bool L, bool A> struct IaSys : structure::Interaction<R>, Parts<R,H,E,L,A> { Tables t_; const Tables& tab() const {return t_;}
  IaSys(const typename structure::Interaction<R>::Frees& f, Tables t, double freq=1.) : structure::Interaction<R>(f,{structure::DynamicsBase::RF{"g",freq,1.}}), t_(t) {this->getParsStream()<<"interaction "<<t.name<<"\n";} };
template<int R, bool H, bool E, bool L, bool A> struct WholeSys : structure::QuantumSystem<R>, Parts<R,H,E,L,A> { Tables t_; double f_; const Tables& tab() const {return t_;}
  WholeSys(const Dims& d, Tables t, double freq=1.) : structure::QuantumSystem<R>(ext<R>(d)), t_(t), f_(freq) {}
  double highestFrequency_v() const override {return f_;} std::ostream& streamParameters_v(std::ostream& os) const override {return os<<"whole "<<t_.name<<"\n";} };
// runtime selection of the feature set (bits: 1 H, 2 E, 4 L, 8 A)
inline structure::FreePtr makeFree(int mask, int dim, const Tables& t, double f=1.) { structure::FreePtr r;
  [&]<size_t... K>(std::index_sequence<K...>) {((int(K)==mask ? void(r=std::make_shared<FreeSys<bool(K&1),bool(K&2),bool(K&4),bool(K&8)>>(dim,t,f)) : void()),...);}(std::make_index_sequence<16>{}); return r; }
template<int R> structure::InteractionPtr<R> makeIa(int mask, const typename structure::Interaction<R>::Frees& fr, const Tables& t, double f=1.) { structure::InteractionPtr<R> r;
  [&]<size_t... K>(std::index_sequence<K...>) {((int(K)==mask ? void(r=std::make_shared<IaSys<R,bool(K&1),bool(K&2),bool(K&4),bool(K&8)>>(fr,t,f)) : void()),...);}(std::make_index_sequence<16>{}); return r; }
template<int R> structure::QuantumSystemPtr<R> makeWhole(int mask, const Dims& d, const Tables& t, double f=1.) { structure::QuantumSystemPtr<R> r;
  [&]<size_t... K>(std::index_sequence<K...>) {((int(K)==mask ? void(r=std::make_shared<WholeSys<R,bool(K&1),bool(K&2),bool(K&4),bool(K&8)>>(d,t,f)) : void()),...);}(std::make_index_sequence<16>{}); return r; }
} // q
