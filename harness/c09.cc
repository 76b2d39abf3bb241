// C09: operation sequences on state vectors and density operators, in lockstep with dense vectors and matrices.
#include "qharness.h"
#include "CMatrix.h"
#include "ComplexArrayExtensions.h"
using namespace q; using namespace quantumdata; using vmc::cat;

// register file: two state vectors, two density operators, plus an alias (byReference) of each kind
template<int R> struct World { Dims d; int n; StateVector<R> a,b; DensityOperator<R> r,s; V ma,mb; M mr,ms;
  World(const Dims& dd, int seed) : d(dd), n(total(dd)), a(sv<R>(genV(n,seed,false),d)), b(sv<R>(genV(n,seed+1,false),d)), r(dop<R>(genM(n,seed),d)), s(dop<R>(genM(n,seed+5),d)),
    ma(genV(n,seed,false)), mb(genV(n,seed+1,false)), mr(genM(n,seed)), ms(genM(n,seed+5)) {}
  bool compare(const std::string& w) { eq(toV<R>(a),ma,w+": psi a"); eq(toV<R>(b),mb,w+": psi b"); eq(toM<R>(r),mr,w+": rho r"); eq(toM<R>(s),ms,w+": rho s");
    for (auto* x : {&a,&b}) {vmc::same(dims<R>(x->getDimensions()),d,w+": dimensions of psi"); vmc::same(x->getTotalDimension(),size_t(n),w+": total dimension of psi");}
    for (auto* x : {&r,&s}) {vmc::same(dims<R>(x->getDimensions()),d,w+": dimensions of rho"); vmc::same(x->getTotalDimension(),size_t(n),w+": total dimension of rho");}
    vmc::near(a.norm(),norm(ma),w+": norm of psi"); vmc::near(r.norm(),tr(mr).real(),w+": norm (trace) of rho"); vmc::near(r.frobeniusNorm(),norm(mr.a),w+": Frobenius norm"); vmc::near(frobeniusNorm(r),norm(mr.a),w+": Frobenius norm (free)");
    const LazyDensityOperator<R> &la=a, &lr=r; vmc::near(la.trace(),dot(ma,ma).real(),w+": trace of the projector of psi"); vmc::near(lr.trace(),tr(mr).real(),w+": trace of rho");
    vmc::near(braket(a,b),dot(ma,mb),w+": braket"); vmc::near(purity(r),dot(mr.a,mr.a).real(),w+": purity");
    vmc::check(a.getArray().data()!=b.getArray().data() && r.getArray().data()!=s.getArray().data(),w+": objects share memory");
    vmc::state(hash(ma)^3*hash(mb)^5*hash(mr.a)^7*hash(ms.a)); return !vmc::failed(); }
};
template<int R> struct Op { std::string name; std::function<void(World<R>&)> f; };
template<int R> std::vector<Op<R>> ops() { using W=World<R>; const C z{.5,-.75}; const C I_=I; std::vector<Op<R>> o;
  o.push_back({"a+=b",[](W& w){w.a+=w.b; w.ma=w.ma+w.mb;}});
  o.push_back({"a-=b",[](W& w){w.a-=w.b; w.ma=w.ma-w.mb;}});
  o.push_back({"a*=c",[=](W& w){w.a*=z; w.ma=z*w.ma;}});
  o.push_back({"a/=c",[=](W& w){w.a/=z; w.ma=(1./z)*w.ma;}});
  o.push_back({"b*=d",[=](W& w){w.b*=2.; w.mb=C(2.)*w.mb;}});
  o.push_back({"b/=d",[=](W& w){w.b/=-4.; w.mb=C(-.25)*w.mb;}});
  o.push_back({"a=b",[](W& w){w.a=w.b; w.ma=w.mb;}});
  o.push_back({"b=copy(a)",[](W& w){StateVector<R> t(w.a); t*=3.; w.b=t; w.mb=C(3.)*w.ma;}});
  o.push_back({"b=move(a+b)",[](W& w){w.b=w.a+w.b; w.mb=w.ma+w.mb;}});
  o.push_back({"a=a-b",[](W& w){w.a=w.a-w.b; w.ma=w.ma-w.mb;}});
  o.push_back({"a=2a*c/3",[=](W& w){w.a=2.*w.a*z/3.; w.ma=(2.*z/3.)*w.ma;}});
  o.push_back({"b=c*b/c",[=](W& w){w.b=I_*w.b/z; w.mb=(I_/z)*w.mb;}});
  o.push_back({"a=b.array",[](W& w){w.a=w.b.getArray(); w.ma=w.mb;}});
  o.push_back({"b=const",[=](W& w){w.b=z; w.mb=V(w.n,z);}});
  o.push_back({"a.renorm",[](W& w){double x=norm(w.ma); if (x<1e-9) return; vmc::near(w.a.renorm(),x,"renorm returns the norm"); w.ma=C(1/x)*w.ma; vmc::near(w.a.norm(),1.,"norm after renorm");}});
  o.push_back({"ref(b)*=c",[=](W& w){StateVector<R> t(w.b.getArray(),byReference); t*=z; w.mb=z*w.mb;}});
  o.push_back({"b(i)+=c",[=](W& w){ for (int i=0;i<w.n;++i) {auto x=unflat(i,w.d); [&]<size_t... K>(std::index_sequence<K...>){w.b(x[K]...)+=z*double(i+1);}(std::make_index_sequence<R>{}); w.mb[i]+=z*double(i+1);} }});
  o.push_back({"swap via move",[](W& w){StateVector<R> t(std::move(w.a)); StateVector<R> c(t); w.a.reference(w.b); w.b.reference(c); std::swap(w.ma,w.mb);}});
  o.push_back({"a=-a",[](W& w){w.a=-w.a; w.ma=C(-1.)*w.ma;}});
  o.push_back({"b=+a",[](W& w){w.b=+w.a; w.mb=w.ma; w.a*=2.; w.ma=C(2.)*w.ma;}});
  // density operators
  o.push_back({"r+=s",[](W& w){w.r+=w.s; w.mr=w.mr+w.ms;}});
  o.push_back({"r-=s",[](W& w){w.r-=w.s; w.mr=w.mr-w.ms;}});
  o.push_back({"s=c*s/d",[=](W& w){w.s=z*w.s/2.; w.ms=(z/2.)*w.ms;}});
  o.push_back({"r=s+r",[](W& w){w.r=w.s+w.r; w.mr=w.ms+w.mr;}});
  o.push_back({"r=s-r",[](W& w){w.r=w.s-w.r; w.mr=w.ms-w.mr;}});
  o.push_back({"r=s",[](W& w){w.r=w.s; w.mr=w.ms;}});
  o.push_back({"s=copy(r)",[](W& w){DensityOperator<R> t(w.r); t*=-2.; w.s=t; w.ms=C(-2.)*w.mr;}});
  o.push_back({"r=psi",[](W& w){w.r=w.a; w.mr=outer(w.ma,w.ma);}});
  o.push_back({"s=DO(psi)",[](W& w){w.s=DensityOperator<R>(w.b); w.ms=outer(w.mb,w.mb);}});
  o.push_back({"s=dyad(a,b)",[](W& w){w.s=dyad(w.a,w.b); w.ms=outer(w.ma,w.mb);}});
  o.push_back({"a.addTo(r)",[](W& w){w.a.addTo(w.r); w.mr=w.mr+outer(w.ma,w.ma);}});
  o.push_back({"b.addTo(r,w)",[](W& w){w.b.addTo(w.r,.3); w.mr=w.mr+C(.3)*outer(w.mb,w.mb);}});
  o.push_back({"r.renorm",[](W& w){double x=tr(w.mr).real(); if (std::abs(x)<1e-9) return; vmc::near(w.r.renorm(),x,"renorm returns the trace"); w.mr=C(1/x)*w.mr; vmc::near(w.r.norm(),1.,"trace after renorm");}});
  o.push_back({"ref(s)/=c",[=](W& w){DensityOperator<R> t(w.s.getArray(),byReference); t/=z; w.ms=(1./z)*w.ms;}});
  o.push_back({"s(i)(j)*=",[=](W& w){ for (int i=0;i<w.n;++i) for (int j=0;j<w.n;++j) {auto x=unflat(i,w.d), y=unflat(j,w.d); [&]<size_t... K>(std::index_sequence<K...>){w.s(x[K]...)(y[K]...)*=C(i+1,j);}(std::make_index_sequence<R>{}); w.ms(i,j)*=C(i+1,j);} }});
  o.push_back({"s.matrixView",[](W& w){auto m=w.s.matrixView(); vmc::same(m.extent(0),w.n,"matrix view rows"); vmc::same(m.extent(1),w.n,"matrix view columns"); for (int i=0;i<w.n;++i) m(i,(i+1)%w.n)+=1., w.ms(i,(i+1)%w.n)+=1.;}});
  o.push_back({"2Re",[](W& w){linalg::CMatrix m(w.r.matrixView()); linalg::calculateTwoTimesRealPartOfSelf(m); w.mr=w.mr+dag(w.mr);}});
  o.push_back({"a+=a",[](W& w){w.a+=w.a; w.ma=w.ma+w.ma;}});
  o.push_back({"b=b",[](W& w){const auto& t=w.b; w.b=t; vmc::check(!(w.b.norm()!=w.b.norm()),"self-assignment");}});
  o.push_back({"r=r",[](W& w){const auto& t=w.r; w.r=t; w.r+=t; w.mr=w.mr+w.mr;}});
  o.push_back({"r=const",[=](W& w){w.r=0; w.mr=M(w.n);}});
  o.push_back({"s=-r",[](W& w){w.s=-w.r; w.ms=C(-1.)*w.mr;}});
  return o; }
template<int R> void sequencesOf(const Dims& d, int depth) { auto o=ops<R>();
  for (int len=1;len<=depth;++len) vmc::sequences(o.size(),len,[&](const std::vector<int>& s){ if (len>1 && len<depth) return; // prefixes are checked step by step
    std::string id=cat("ops/",d); for (int k : s) id+="/"+o[k].name;
    for (int wide : {0,500}) if (!wide || len==1 || (s[0]+2*s[len-1])%5==0) vmc::scenario(wide ? id+"/spread" : id,[&]{World<R> w(d,R+wide); if (!w.compare("initially")) return; for (int k : s) {o[k].f(w); vmc::step(); if (!w.compare("after "+o[k].name)) return;} }); }); }

template<int R> void lazy(const Dims& d) { // common read-only interface of both representations
  for (int wide : {0,500}) vmc::scenario(cat(wide?"lazy-spread/":"lazy/",d),[&]{ int n=total(d); V v=genV(n,wide+3,false); M m=genM(n,wide+4); auto psi=sv<R>(v,d); auto rho=dop<R>(m,d); DensityOperator<R> pr(psi);
    const LazyDensityOperator<R> &lp=psi, &lr=rho, &lpr=pr; vmc::same(dims<R>(lp.getDimensions()),d,"dimensions"); for (int k=0;k<R;++k) vmc::same(lp.getDimension(k),size_t(d[k]),"dimension of axis");
    for (int i=0;i<n;++i) { auto x=unflat(i,d); vmc::near(double(lp(idx<R>(x))),std::norm(v[i]),"diagonal of psi"); vmc::near(double(lr(idx<R>(x))),m(i,i).real(),"diagonal of rho"); vmc::near(double(lpr(idx<R>(x))),std::norm(v[i]),"diagonal of projector");
      for (int j=0;j<n;++j) { auto y=unflat(j,d); C w=v[i]*std::conj(v[j]); vmc::step();
        vmc::near(lp(idx<R>(x))(idx<R>(y)),w,"coherence of psi"); vmc::near(lpr(idx<R>(x))(idx<R>(y)),w,"coherence of projector"); vmc::near(lr(idx<R>(x))(idx<R>(y)),m(i,j),"coherence of rho");
        [&]<size_t... K>(std::index_sequence<K...>){ vmc::near(lp(x[K]...)(y[K]...),w,"coherence of psi by subscripts"); vmc::near(lr(x[K]...)(y[K]...),m(i,j),"coherence of rho by subscripts"); vmc::near(double(lp(x[K]...)),std::norm(v[i]),"diagonal of psi by subscripts"); const auto& crho=rho; vmc::near(crho(x[K]...)(y[K]...),m(i,j),"const element access"); const auto& cpsi=psi; vmc::near(cpsi(x[K]...),v[i],"const amplitude access"); }(std::make_index_sequence<R>{}); } }
    vmc::check(lp==lpr,"equal dimensions compare unequal"); vmc::same(dims<R>(psi.ubound()),[&]{Dims u=d; for (int& x : u) --x; return u;}(),"ubound of psi"); vmc::same(dims<R>(rho.ubound()),[&]{Dims u=d; for (int& x : u) --x; return u;}(),"ubound of rho");
    { Dims e=d; ++e[R-1]; StateVector<R> other(ext<R>(e)); const LazyDensityOperator<R>& lo=other; vmc::check(lp!=lo,"different dimensions compare equal"); eq(toV<R>(other),V(total(e)),"a newly constructed state vector vanishes"); DensityOperator<R> od(ext<R>(e)); eq(toM<R>(od),M(total(e)),"a newly constructed density operator vanishes");} }); }
// transposition of the subsystems: the same amplitudes under permuted indices
template<int R, typename I> std::string nm(I) {return "";}
template<int... P> void transposed(const Dims& d) { constexpr int R=sizeof...(P); vmc::scenario(cat("transpose/",d,"/",std::vector<int>{P...}),[&]{ int n=total(d); V v=genV(n,3,false); M m=genM(n,4); auto psi=sv<R>(v,d); auto rho=dop<R>(m,d);
    psi.transposeSelf(P...); rho.transposeSelf(P...); Dims e; for (int p : {P...}) e.push_back(d[p]); vmc::same(dims<R>(psi.getDimensions()),e,"dimensions of psi"); vmc::same(dims<R>(rho.getDimensions()),e,"dimensions of rho"); vmc::step();
    auto back=[&](int i){auto x=unflat(i,e); vector<int> y(R); int k=0; for (int p : {P...}) y[p]=x[k++]; return flat(y,d);};
    V wv(n); M wm(n); for (int i=0;i<n;++i) {wv[i]=v[back(i)]; for (int j=0;j<n;++j) wm(i,j)=m(back(i),back(j));}
    eq(toV<R>(psi),wv,"transposed psi"); eq(toM<R>(rho),wm,"transposed rho"); StateVector<R> c(psi); DensityOperator<R> cr(rho); c*=2.; cr*=2.; eq(toV<R>(c),C(2.)*wv,"copy of transposed psi"); eq(toM<R>(cr),C(2.)*wm,"copy of transposed rho"); eq(toV<R>(psi),wv,"original of copy"); vmc::near(psi.norm(),norm(v),"norm of transposed psi"); vmc::near(rho.norm(),tr(m).real(),"trace of transposed rho"); }); }
// a transposed (non-contiguous) state as the operand of everything else
template<int... P> void transposedOperand(const Dims& d) { constexpr int R=sizeof...(P); vmc::scenario(cat("transposed-operand/",d,"/",std::vector<int>{P...}),[&]{ int n=total(d); V v=genV(n,3,false), u=genV(n,6,false); M m=genM(n,4), k=genM(n,8); auto psi=sv<R>(v,d); auto rho=dop<R>(m,d);
    psi.transposeSelf(P...); rho.transposeSelf(P...); Dims e; for (int p : {P...}) e.push_back(d[p]); auto other=sv<R>(u,e); auto sigma=dop<R>(k,e); vmc::step(8);
    auto back=[&](int i){auto x=unflat(i,e); vector<int> y(R); int k=0; for (int p : {P...}) y[p]=x[k++]; return flat(y,d);};
    V wv(n); M wm(n); for (int i=0;i<n;++i) {wv[i]=v[back(i)]; for (int j=0;j<n;++j) wm(i,j)=m(back(i),back(j));}
    eq(toV<R>(psi+other),wv+u,"sum with a transposed vector"); eq(toV<R>(other-psi),u-wv,"difference with a transposed vector"); vmc::near(braket(psi,other),dot(wv,u),"braket with a transposed vector"); vmc::near(braket(other,psi),dot(u,wv),"braket with a transposed vector on the right");
    eq(toM<R>(DensityOperator<R>(psi)),outer(wv,wv),"projector of a transposed vector"); eq(toM<R>(dyad(psi,other)),outer(wv,u),"dyad of a transposed vector"); eq(toM<R>(dyad(other,psi)),outer(u,wv),"dyad with a transposed vector");
    eq(toM<R>(rho+sigma),wm+k,"sum with a transposed operator"); eq(toM<R>(sigma-rho),k-wm,"difference with a transposed operator"); psi.addTo(sigma); eq(toM<R>(sigma),k+outer(wv,wv),"projector of a transposed vector added"); vmc::near(purity(rho),dot(wm.a,wm.a).real(),"purity of a transposed operator"); vmc::near(rho.frobeniusNorm(),norm(wm.a),"Frobenius norm of a transposed operator");
    if constexpr (R<=3) {V w=genV(2,9,false); eq(toV<R+1>(psi*sv1(w)),kron(wv,w),"product with a transposed vector"); eq(toV<R+1>(sv1(w)*psi),kron(w,wv),"product with a transposed vector on the right");}
    const LazyDensityOperator<R> &lp=psi, &lr=rho; for (int i=0;i<n;++i) for (int j=0;j<n;++j) {vmc::near(lp(idx<R>(unflat(i,e)))(idx<R>(unflat(j,e))),wv[i]*std::conj(wv[j]),"coherence of a transposed vector"); vmc::near(lr(idx<R>(unflat(i,e)))(idx<R>(unflat(j,e))),wm(i,j),"coherence of a transposed operator");}
    double x=norm(wv); vmc::near(psi.renorm(),x,"renorm of a transposed vector returns its norm"); eq(toV<R>(psi),C(1/x)*wv,"renorm of a transposed vector"); C t=tr(wm); vmc::near(rho.renorm(),t.real(),"renorm of a transposed operator returns its trace"); eq(toM<R>(rho),C(1/t.real())*wm,"renorm of a transposed operator"); other=psi; other*=2.; eq(toV<R>(psi),C(1/x)*wv,"vector after its assignee is changed"); eq(toV<R>(other),C(2/x)*wv,"assignee of a transposed vector"); }); }
template<int R> void hc(const Dims& d) { vmc::scenario(cat("hermitian/",d),[&]{ int n=total(d); M m=genM(n,7); auto a=dop<R>(m,d).getArray(); CArray<2*R> x(a.copy()); auto h=blitzplusplus::hermitianConjugate(x); eq(toM<2*R>(h),dag(m),"Hermitian conjugate"); eq(toM<2*R>(x),m,"operand of the Hermitian conjugate"); blitzplusplus::hermitianConjugateSelf(x); eq(toM<2*R>(x),dag(m),"Hermitian conjugate in place"); vmc::step(2); }); }
template<int R1, int R2> void product(const Dims& d1, const Dims& d2) { vmc::scenario(cat("product/",d1,"x",d2),[&]{ V v1=genV(total(d1),1,false), v2=genV(total(d2),2,false); auto p1=sv<R1>(v1,d1); auto p2=sv<R2>(v2,d2); Dims d=d1; d.insert(d.end(),d2.begin(),d2.end()); vmc::step();
    auto p=p1*p2; vmc::same(dims<R1+R2>(p.getDimensions()),d,"dimensions of the product"); eq(toV<R1+R2>(p),kron(v1,v2),"direct product"); vmc::near(p.norm(),norm(v1)*norm(v2),"norm of the product"); p*=2.; eq(toV<R1>(p1),v1,"left factor after the product is changed");
    auto s=blitzplusplus::doDirect<blitzplusplus::dodirect::addition,R1,R2>(p1.getArray(),p2.getArray()); V w; for (auto& x : v1) for (auto& y : v2) w.push_back(x+y); eq(toV<R1+R2>(s),w,"direct sum");
    if constexpr (R1+R2<=3) { V v3=genV(2,9,false); auto t=(p1*p2)*sv1(v3), u=p1*(p2*sv1(v3)); eq(toV<R1+R2+1>(t),kron(kron(v1,v2),v3),"triple product"); eq(toV<R1+R2+1>(u),kron(v1,kron(v2,v3)),"triple product, right-associated"); } }); }
int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough();
  sequencesOf<1>({3},th?4:3); sequencesOf<2>({2,3},th?3:2); sequencesOf<3>({2,1,3},th?3:2); sequencesOf<4>({2,2,1,3},2);
  for (Dims d : {Dims{1},{2},{5}}) {lazy<1>(d); hc<1>(d);} for (Dims d : {Dims{2,3},{3,2},{1,4}}) {lazy<2>(d); hc<2>(d);} for (Dims d : {Dims{2,3,4},{3,1,2},{4,2,3}}) {lazy<3>(d); hc<3>(d);} lazy<4>({2,1,3,2}); hc<4>({2,1,3,2});
  transposed<0,1>({2,3}); transposed<1,0>({2,3}); transposed<0,1,2>({2,3,4}); transposed<0,2,1>({2,3,4}); transposed<1,0,2>({2,3,4}); transposed<1,2,0>({2,3,4}); transposed<2,0,1>({2,3,4}); transposed<2,1,0>({2,3,4});
  transposedOperand<1,0>({2,3}); transposedOperand<1,0>({5,4}); transposedOperand<0,2,1>({2,3,4}); transposedOperand<1,2,0>({2,3,4}); transposedOperand<2,1,0>({3,1,2}); transposedOperand<3,1,0,2>({2,3,1,2});
  sequencesOf<1>({64},1); sequencesOf<1>({11},1); sequencesOf<2>({9,8},1); sequencesOf<3>({4,3,5},1); sequencesOf<5>({2,1,2,3,2},1); lazy<1>({40}); lazy<2>({6,7}); lazy<5>({2,2,1,2,2}); hc<1>({33}); hc<2>({7,5}); hc<5>({2,1,2,2,2});
  product<1,1>({70},{65}); product<2,2>({9,8},{7,9}); product<2,3>({3,2},{2,1,3}); product<3,2>({2,3,2},{2,4}); product<1,4>({3},{2,1,2,3}); product<4,1>({2,2,1,3},{5}); product<3,3>({2,1,3},{2,2,2});
  std::vector<Dims> one={{1},{2},{3},{4}}, two={{2,3},{3,2},{1,2}}, three={{2,3,2},{1,2,3}};
  for (auto& a : one) {for (auto& b : one) product<1,1>(a,b); for (auto& b : two) {product<1,2>(a,b); product<2,1>(b,a);} for (auto& b : three) {product<1,3>(a,b); product<3,1>(b,a);}}
  for (auto& a : two) for (auto& b : two) product<2,2>(a,b);
  for (int n=1;n<=5;++n) for (int k=0;k<n;++k) vmc::scenario(cat("apply/",n,"/",k),[&]{ M m=genM(n,k); V a=basis(n,k), b=genV(n,2,false); linalg::CMatrix mm(arr<2>(m.a,{n,n})); auto x=arr<1>(a,{n}), y=arr<1>(b,{n}); linalg::apply(x,y,mm); vmc::step(); eq(toV<1>(y),b+m*a,"apply"); eq(toV<1>(x),a,"operand of apply"); });
  return vmc::finish(); }
