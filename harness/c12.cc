// C12: Fourier transforms on every set of axes of every basis state and basis operator, both directions.
#include "qharness.h"
#include "arr.h"
#include "LazyDensityOperatorFFT.h"
using namespace q; using namespace quantumdata; using vmc::cat;
template<int... I> std::string nm() {std::string r; for (int i : {I...}) r+=char('0'+i); return r;}
// discrete transform with index j standing for j-n/2 in both x (in units of 2pi/n) and k; XK: exp(-i k x); overall sign: that of j^th output being (-1)^j at x=0 (matters for n=2 only)
M dft(int n, bool xk) { M f(n); if (n<2) return eye(n); for (int k=0;k<n;++k) for (int x=0;x<n;++x) f(k,x)=(n==2?-1.:1.)*std::polar(1/std::sqrt(double(n)),(xk?-1.:1.)*2*M_PI*(k-n/2)*(x-n/2)/n); 
  return f; }
M full(const Dims& d, const vector<int>& at, bool xk) {int n=total(d); M u=eye(n); for (int a : at) u=embed(dft(d[a],xk),{a},d)*u; return u;}
template<int R, int... I> void one(const Dims& d) { using Vec=tmptools::Vector<I...>; vector<int> at{I...}; int n=total(d);
  for (bool xk : {true,false}) { auto dir=xk?fft::DIR_XK:fft::DIR_KX; M u=full(d,at,xk); std::string id=cat(d,"/",nm<I...>(),"/",xk?"XK":"KX");
    auto svOf=[](const auto& p){return toV<R>(dynamic_cast<const StateVector<R>&>(*p));}; auto doOf=[](const auto& p){return toM<R>(dynamic_cast<const DensityOperator<R>&>(*p));};
    vmc::scenario("state/"+id,[&]{ for (int k=0;k<=n+1;++k) { V v=k<n?basis(n,k):genV(n,k>n?501:1); auto psi=sv<R>(v,d); auto t=ffTransform<Vec>(static_cast<const LazyDensityOperator<R>&>(psi),dir); V got=svOf(t); vmc::step(); vmc::state(hash(got));
        eq(got,u*v,cat("transform of state ",k)); eq(toV<R>(psi),v,"the operand is left alone"); vmc::near(norm(got),norm(v),"norm"); eq(svOf(ffTransform<Vec>(*t,fft::reverse(dir))),v,"back-transform"); if (vmc::failed()) return;
        DensityOperator<R> pr(psi); eq(doOf(ffTransform<Vec>(static_cast<const LazyDensityOperator<R>&>(pr),dir)),outer(got,got),"transform of the projector"); if (vmc::failed()) return; } });
    if (n<=16) vmc::scenario("operator/"+id,[&]{ for (int i=0;i<n;++i) for (int j=0;j<n;++j) { M m(n); m(i,j)=C(1,i==j?0:.5); auto rho=dop<R>(m,d); auto t=ffTransform<Vec>(static_cast<const LazyDensityOperator<R>&>(rho),dir); M got=doOf(t); vmc::step();
        eq(got,u*m*dag(u),cat("transform of operator ",i,",",j)); eq(toM<R>(rho),m,"the operand is left alone"); eq(doOf(ffTransform<Vec>(*t,fft::reverse(dir))),m,"back-transform of the operator"); if (vmc::failed()) return; } }); } }
template<int R, int K> void all(const Dims& d) { arr::each<R,K>([&]<int... I>(){one<R,I...>(d);}); }
int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough();
  for (int n=1;n<=(th?256:64);n*=2) { all<1,1>({n}); for (bool xk : {true,false}) vmc::scenario(cat("low/",n,"/",xk),[&]{ auto dir=xk?fft::DIR_XK:fft::DIR_KX; M u=dft(n,xk); for (int k=0;k<n;++k) {auto a=q::arr<1>(basis(n,k),{n}); ffTransform(a,dir); vmc::step(); eq(toV<1>(a),u*basis(n,k),"low-level transform");} 
      for (int k=0;k<n;++k) { CArray<2> big(n,3); big=C(7,7); linalg::CVector s(big(blitz::Range::all(),1)); put<1>(s,basis(n,k)); ffTransform(s,dir); eq(toV<1>(s),u*basis(n,k),"transform of a strided view"); for (int i=0;i<n;++i) for (int c : {0,2}) if (big(i,c)!=C(7,7)) vmc::check(false,"transform touches elements outside the view"); }
      if (n<=8) for (int i=0;i<n;++i) for (int j=0;j<n;++j) {M m(n); m(i,j)=1.; linalg::CMatrix a(q::arr<2>(m.a,{n,n})); ffTransform(a,dir); eq(toM<2>(a),u*m*dag(u),"low-level matrix transform");} }); }
  for (Dims d : {Dims{2,4},{4,2},{1,8},{8,1},{2,2}}) {all<2,1>(d); all<2,2>(d);} if (th) for (Dims d : {Dims{8,4},{16,2},{2,16}}) {all<2,1>(d); all<2,2>(d);}
  for (Dims d : {Dims{2,4,1},{2,2,4},{4,2,2}}) {all<3,1>(d); all<3,2>(d); all<3,3>(d);} 
  // axes that are not transformed may have any dimension
  one<2,0>({4,3}); one<2,1>({3,4}); one<3,1>({3,4,1}); one<3,2,0>({2,3,2});
  // larger extents, rank four, and states whose memory order differs from their index order
  one<2,0>({32,3}); one<2,1>({3,32}); one<2,1,0>({8,16}); one<3,1>({2,16,3}); one<4,2>({1,2,4,3}); one<4,3,0>({2,3,1,4}); one<4,1,3>({3,2,1,4}); one<4,2,0,3>({2,3,2,2}); one<4,3,1,0,2>({2,1,4,2});
  for (bool xk : {true,false}) vmc::scenario(cat("reordered/",xk),[&]{ auto dir=xk?fft::DIR_XK:fft::DIR_KX; Dims d{4,3,2}, e{2,3,4}; int n=24; M u=full(d,{0,2},xk); auto p=[&](int i){auto x=unflat(i,d); return flat({x.rbegin(),x.rend()},e);};
    for (int k=0;k<=n;++k) { V v=k<n?basis(n,k):genV(n,1), w(n); for (int i=0;i<n;++i) w[p(i)]=v[i]; auto psi=sv<3>(w,e); psi.transposeSelf(2,1,0); auto t=ffTransform<tmptools::Vector<0,2>>(static_cast<const LazyDensityOperator<3>&>(psi),dir); vmc::step(); eq(toV<3>(dynamic_cast<const StateVector<3>&>(*t)),u*v,cat("reordered state ",k)); if (vmc::failed()) return; }
    M m=genM(n,3), w(n); for (int i=0;i<n;++i) for (int j=0;j<n;++j) w(p(i),p(j))=m(i,j); auto rho=dop<3>(w,e); rho.transposeSelf(2,1,0); auto t=ffTransform<tmptools::Vector<0,2>>(static_cast<const LazyDensityOperator<3>&>(rho),dir); vmc::step(); eq(toM<3>(dynamic_cast<const DensityOperator<3>&>(*t)),u*m*dag(u),"reordered operator"); });
  return vmc::finish(); }
