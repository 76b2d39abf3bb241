// C10: every ordered choice of subsystems of state vectors and density operators of ranks 1..4: partial traces, and the flattened representation.
#include "qharness.h"
#include "arr.h"
using namespace q; using namespace quantumdata; using vmc::cat;
template<int... I> std::string nm() {std::string r; for (int i : {I...}) r+=char('0'+i); return r;}

// the same state held in reversed memory order (strides increasing), as left behind by a transposition of the subsystems
template<int R> StateVector<R> reversed(const V& v, const Dims& d) { Dims e(d.rbegin(),d.rend()); V w(v.size()); for (int i=0;i<(int)v.size();++i) {auto x=unflat(i,d); w[flat({x.rbegin(),x.rend()},e)]=v[i];} auto s=sv<R>(w,e); [&]<size_t... K>(std::index_sequence<K...>){s.transposeSelf(int(R-1-K)...);}(std::make_index_sequence<R>{}); return s; }
template<int R> DensityOperator<R> reversed(const M& m, const Dims& d) { Dims e(d.rbegin(),d.rend()); M w(m.n); auto p=[&](int i){auto x=unflat(i,d); return flat({x.rbegin(),x.rend()},e);}; for (int i=0;i<m.n;++i) for (int j=0;j<m.n;++j) w(p(i),p(j))=m(i,j); auto s=dop<R>(w,e); [&]<size_t... K>(std::index_sequence<K...>){s.transposeSelf(int(R-1-K)...);}(std::make_index_sequence<R>{}); return s; }
template<int R, int... I> void one(const Dims& d, bool light=false) { using Vec=tmptools::Vector<I...>; constexpr int K=sizeof...(I); using LK=LazyDensityOperator<int(sizeof...(I))>; const vector<int> keep{I...}; Dims kd; for (int k : keep) kd.push_back(d[k]);
  const int n=total(d), nk=total(kd);
  auto checkOne=[&](const M& rho, const LazyDensityOperator<R>& l, const std::string& w) { M want=reduce(rho,keep,d); bool herm=true; for (int i=0;i<n;++i) for (int j=0;j<n;++j) herm&=std::abs(rho(i,j)-std::conj(rho(j,i)))<1e-13; vmc::step();
    // the accumulation interface itself, with a callable that extracts all matrix elements as seen through the read-only interface
    auto flatv=partialTrace<Vec>(l,[&](const auto& x) { const LK& lx=x; M m=toM<K>(lx); CArray<1> a(nk*nk); for (int i=0;i<nk*nk;++i) a(i)=m.a[i]; return a; });
    M got(nk); for (int i=0;i<nk*nk;++i) got.a[i]=flatv(i); if (herm) eq(got,want,w+": partialTrace"); else for (int i=0;i<nk;++i) for (int j=0;j<nk;++j) vmc::near(got(i,j),i==j ? C(want(i,i).real()) : want(i,j),w+": partialTrace");
    vmc::near(partialTrace<Vec>(l,[](const auto& x) {const LK& lx=x; return lx.trace();}),tr(want).real(),w+": accumulated trace");
    if (herm) { auto red=::quantumdata::reduce<I...>(l); eq(toM<K>(red),want,w+": reduce"); vmc::same(dims<K>(red.getDimensions()),kd,w+": dimensions of the reduced operator"); vmc::near(red.norm(),tr(rho).real(),w+": trace of the reduced operator"); }
    if (auto* p=dynamic_cast<const DensityOperator<R>*>(&l)) { auto red=::quantumdata::reduce<Vec>(*p); eq(toM<K>(red),want,w+": reduce of density operator"); vmc::same(dims<K>(red.getDimensions()),kd,w+": dimensions of the reduced density operator"); red*=2.; eq(toM<R>(*p),rho,w+": original after the reduced operator is changed");
      // two-stage: first keep all of I, then each single member
      M w1=reduce(want,{K-1},kd); red*=.5; auto red2=::quantumdata::reduce<tmptools::Vector<K-1>>(red); eq(toM<1>(red2),w1,w+": two-stage reduction"); }
    vmc::state(hash(got.a)); };
  vmc::scenario(cat("reduce/",d,"/",nm<I...>()),[&]{
    for (int i=0;i<n;++i) { if (light && i!=0 && i!=n/2 && i!=n-1) continue; V v=basis(n,i); checkOne(outer(v,v),sv<R>(v,d),cat("basis state ",i)); if (vmc::failed()) return; }
    for (int s : {0,1,501,504}) { V v=genV(n,s,false); checkOne(outer(v,v),sv<R>(v,d),"generic state"); auto rho=genRho(n,s); checkOne(rho,dop<R>(rho,d),"generic density operator"); M g=genM(n,s); checkOne(g,dop<R>(g,d),"generic matrix"); }
    if constexpr (R>1) { V v=genV(n,3,false); checkOne(outer(v,v),reversed<R>(v,d),"state in another memory order"); auto rho=genRho(n,4); checkOne(rho,reversed<R>(rho,d),"density operator in another memory order"); }
    for (double x : {0.,1e-12,1e8}) {V v=C(x)*genV(n,2); M m=outer(v,v); if (x>1.) m=C(1/x/x)*m, v=C(1/x)*v; checkOne(m,sv<R>(v,d),"extreme amplitudes"); } });
  if (light) return;
  vmc::scenario(cat("basis/",d,"/",nm<I...>()),[&]{ for (int i=0;i<n;++i) for (int j=0;j<n;++j) { M m(n); m(i,j)=C(1.,i==j?0.:.5); checkOne(m,dop<R>(m,d),cat("basis operator ",i,",",j)); if (vmc::failed()) return; } }); }
template<int R, int K> void all(const Dims& d) { arr::each<R,K>([&]<int... I>(){one<R,I...>(d);}); }

template<int R> void flattened(const Dims& d) { int n=total(d); for (bool off : {false,true}) vmc::scenario(cat("flat/",d,"/",off),[&]{
    for (int kind=0;kind<n*n+5;++kind) { M m(n); bool pure=false; V v; if (kind<n*n) {int i=kind/n,j=kind%n; if (i==j) m(i,i)=1.; else if (i<j) {m(i,j)=m(j,i)=1.;} else {m(i,j)=I; m(j,i)=-I;}} else if (kind==n*n) m=genRho(n,1); else if (kind==n*n+3) m=genRho(n,502); else {v=genV(n,kind-n*n+(kind>n*n+3)*500,false); m=outer(v,v); pure=true;}
      vector<double> want; for (int i=0;i<n;++i) want.push_back(m(i,i).real()); if (off) for (int i=0;i<n;++i) for (int j=i+1;j<n;++j) {want.push_back(m(i,j).real()); want.push_back(m(i,j).imag());} vmc::step();
      auto rho=dop<R>(m,d); DArray<1> f(deflate<R>(rho,off)); eqd(toD(f),want,"deflate of the density operator");
      if (pure) {auto psi=sv<R>(v,d); eqd(toD(deflate<R>(psi,off)),want,"deflate of the state vector");}
      DensityOperator<R> back(ext<R>(d)); inflate<R>(f,back,off); if (off) eq(toM<R>(back),m,"inflate after deflate"); else {M dg(n); for (int i=0;i<n;++i) dg(i,i)=m(i,i); eq(toM<R>(back),dg,"inflate of the diagonal");}
      if (!off) {M g=genM(n,5), e=g; for (int i=0;i<n;++i) e(i,i)=m(i,i); auto o=dop<R>(g,d); inflate<R>(f,o,false); eq(toM<R>(o),e,"inflate of the diagonal leaves the off-diagonals");}
      auto dz=densityOperatorize<R>(rho); eq(toM<R>(dz),m,"densityOperatorize"); } }); }
int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough();
  for (Dims d : {Dims{1},{2},{3}}) {all<1,1>(d); flattened<1>(d);} if (th) for (Dims d : {Dims{4},{5},{8}}) {all<1,1>(d); flattened<1>(d);}
  for (Dims d : {Dims{2,3},{3,2},{1,3}}) {all<2,1>(d); all<2,2>(d); flattened<2>(d);} if (th) for (Dims d : {Dims{4,3},{2,5},{3,1},{2,2}}) {all<2,1>(d); all<2,2>(d); flattened<2>(d);}
  {Dims d{2,3,4}; all<3,1>(d); all<3,2>(d); all<3,3>(d);} {Dims d{3,2,2}; flattened<3>(d); all<3,1>(d); all<3,2>(d); all<3,3>(d);}
  for (Dims d : {Dims{2,3,1,2}}) {all<4,1>(d); all<4,2>(d); all<4,3>(d); all<4,4>(d); flattened<4>(d);}
  if (th) {for (Dims d : {Dims{3,2,2,2},{2,1,3,2}}) {all<4,1>(d); all<4,2>(d); all<4,3>(d); all<4,4>(d);} Dims e{4,3,2}; all<3,1>(e); all<3,2>(e); all<3,3>(e);}
  // larger extents and rank five (representative index choices)
  one<1,0>({40},true); one<2,0>({12,9},true); one<2,1>({12,9},true); one<2,1,0>({9,8},true); one<3,2>({5,3,6},true); one<3,1,0>({3,7,4},true); one<3,0,2>({4,3,7},true); flattened<1>({12}); flattened<2>({3,4});
  {Dims d{2,3,1,2,2}; one<5,0>(d,true); one<5,4>(d,true); one<5,4,0>(d,true); one<5,1,3>(d,true); one<5,3,1,0>(d,true); one<5,2,4,1,0>(d,true); one<5,4,2,3,0,1>(d,true);}
  return vmc::finish(); }
