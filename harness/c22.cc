// C22: printed expectation values: every averaging class on a spanning set of density operators plus generic pure and mixed states,
// alone, collected, cloned, and inside composed systems; key and columns.
#include "elements.h"
#include "Particle.h"
#include "JaynesCummings.h"
#include "CoupledModes.h"
#include "GeneralDicke.h"
#include "ModeCorrelations.h"
#include "QbitModeCorrelations.h"
#include "AveragingUtils.h"
#include "BinarySystem.h"
#include "Composite.tcc"
#include "DensityOperatorStreamer.h"
using namespace el; using D=vector<double>; using Want=std::function<D(const M&)>;
static double re(const M& o, const M& r) {return tr(o*r).real();}
static double im(const M& o, const M& r) {return tr(o*r).imag();}
static void add(D& a, const D& b) {a.insert(a.end(),b.begin(),b.end());}
// ---- what the keys promise
static D wMode(const M& r) {int n=r.n; M a=annihilate(n), N=number(n); double m=re(N,r); return {m,re(N*N,r)-m*m,re(a,r),im(a,r)};}
static D wQuad(const M& r) {int n=r.n; M a=annihilate(n), N=number(n); D w=wMode(r); C al=tr(a*r), a2=tr(a*a*r); double t=tr(r).real(); (void)t; double x=std::sqrt(2.)*al.real(), y=std::sqrt(2.)*al.imag(); w.push_back(re(N,r)+.5+a2.real()-x*x); w.push_back(re(N,r)+.5-a2.real()-y*y); w.push_back(a2.imag()-x*y); return w;}
static Want cut(Want f) {return [=](const M& r){D w=f(r); w.push_back(r(r.n-1,r.n-1).real()); return w;};}
static D wQbit(const M& r) {return {r(0,0).real(),r(1,1).real(),r(1,0).real(),r(1,0).imag()};}
static Want wSpin(int twoS) {return [=](const M& r){int n=r.n; M z=spinZ(n,twoS), p=spinPlus(n,twoS); double m=re(z,r); return D{m,re(z*z,r)-m*m,re(p,r),im(p,r),r(n-1,n-1).real()};};}
static D wDiag(const M& r) {D w; for (int i=0;i<r.n;++i) w.push_back(r(i,i).real()); return w;}
static D wFull(const M& r) {D w=wDiag(r); for (int i=0;i<r.n;++i) for (int j=i+1;j<r.n;++j) {w.push_back(r(i,j).real()); w.push_back(r(i,j).imag());} return w;}
static double neg(const M& r, const Dims& d, const vector<int>& sub) {M t(r.n); for (int i=0;i<r.n;++i) for (int j=0;j<r.n;++j) {auto x=unflat(i,d), y=unflat(j,d); for (int s : sub) std::swap(x[s],y[s]); t(flat(x,d),flat(y,d))=r(i,j);} double s=0; for (double e : heig(t)) s+=std::abs(e); return (s-1)/2;}
static Want wNeg(Dims d, vector<int> sub) {return [=](const M& r){D w=wFull(r); w.push_back(neg(r,d,sub)); return w;};}
static D wPart(const M& r) {int n=r.n; M f(n); double dx=2*M_PI/n; for (int j=0;j<n;++j) for (int m=0;m<n;++m) f(j,m)=std::exp(I*double(m-n/2)*(dx*j-M_PI))/std::sqrt(double(n)); M rx=f*r*dag(f); double k1=0,k2=0,x1=0,x2=0; for (int i=0;i<n;++i) {double k=i-n/2, x=dx*(i-n/2); k1+=k*r(i,i).real(); k2+=k*k*r(i,i).real(); x1+=x*rx(i,i).real(); x2+=x*x*rx(i,i).real();} return {k1,k2-k1*k1,x1,std::sqrt(std::max(0.,x2-x1*x1))};}
static Want wQM(int n) {return [=](const M& r){M s=annihilate(2), a=annihilate(n), z=diag({-.5,.5}); M x=kron(s,dag(a)), y=kron(s,a), w=kron(z,a); return D{re(x,r),im(x,r),re(y,r),im(y,r),re(w,r),im(w,r)};};}
static Want wModes(int n, int m) {return [=](const M& r){Dims d{n,m}; D w=wQuad(reduce(r,{0},d)); add(w,wQuad(reduce(r,{1},d))); double h=std::sqrt(.5); auto X=[&](int k){M a=annihilate(k); return C(h)*(a+dag(a));}; auto Y=[&](int k){M a=annihilate(k); return (-I*h)*(a-dag(a));}; M x=kron(X(n),eye(m)), y=kron(Y(n),eye(m)), q=kron(eye(n),X(m)), p=kron(eye(n),Y(m)); auto cov=[&](const M& u, const M& v){return re(u*v,r)-re(u,r)*re(v,r);}; add(w,{cov(x,q),cov(x,p),cov(y,q),cov(y,p)}); return w;};}
static Want on(Want f, vector<int> at, Dims d) {return [=](const M& r){return f(reduce(r,at,d));};}
static Want all(vector<Want> f) {return [=](const M& r){D w; for (auto& g : f) add(w,g(r)); return w;};}
// ---- the enumeration of states
struct St {V v; M rho; bool pure;};
static vector<St> states(int n, bool th) { vector<St> r; auto p=[&](V v){double x=norm(v); for (auto& e : v) e/=x; r.push_back({v,outer(v,v),true});}; for (int i=0;i<n;++i) p(basis(n,i)); for (int i=0;i<n;++i) for (int j=i+1;j<n;++j) {p(basis(n,i)+basis(n,j)); p(basis(n,i)+I*basis(n,j));} for (int s=0;s<(th?6:2);++s) p(genV(n,s+11)); for (int s : {501,504}) p(genV(n,s)); for (int s=0;s<(th?6:3);++s) r.push_back({{},genRho(n,s+5),false}); r.push_back({{},genRho(n,502),false}); M mx=C(1./n)*eye(n); r.push_back({{},mx,false}); return r; }
struct Key {vector<int> no; vector<std::string> label; size_t next;};
template<typename A> Key key(const A& a, size_t from) { std::ostringstream o; size_t i=from; a.streamKey(o,i); Key k; k.next=i; std::istringstream s(o.str()); std::string l; while (std::getline(s,l)) { size_t b=l.find_first_not_of(' '), d=l.find(". "); if (b==std::string::npos || d==std::string::npos || l.find_first_not_of("0123456789",b)!=d) continue; k.no.push_back(std::stoi(l.substr(b,d-b))); k.label.push_back(l.substr(d+2)); } return k; }
template<typename A> void keyChecks(const A& a, size_t n) { for (size_t from : {size_t(1),size_t(3),size_t(98)}) { Key k=key(a,from); vmc::step(); vmc::same(k.no.size(),n,"number of key entries"); vmc::same(k.next,from+n,"next number"); for (size_t i=0;i<k.no.size();++i) {vmc::same((size_t)k.no[i],from+i,"numbered consecutively"); vmc::check(!k.label[i].empty(),"label");} } }
static D tokens(const std::string& s) {D r; std::istringstream i(s); std::string t; while (i>>t) r.push_back(std::atof(t.c_str())); return r;}
template<int R> void verify(std::shared_ptr<const structure::Averaged<R>> a, const Dims& d, Want want, bool th, double tol=1e-8) { if (!vmc::check(bool(a),"calculates averages")) return; int n=total(d); auto ss=states(n,th); size_t N=want(ss.back().rho).size(); if (!vmc::same((size_t)a->nAvr(),N,"number of averages")) return; keyChecks(*a,N);
  vector<D> raw; for (size_t k=0;k<ss.size();++k) { auto& s=ss[k]; D w=want(s.rho), rw; for (int asDO=0;asDO<2;++asDO) { if (!asDO && !s.pure) continue; auto p=s.pure ? sv<R>(s.v,d) : sv<R>(basis(n,0),d); auto q=dop<R>(s.rho,d); const quantumdata::LazyDensityOperator<R>& l=asDO ? static_cast<const quantumdata::LazyDensityOperator<R>&>(q) : p; std::string nm=cat(asDO?"density operator ":"state ",k); vmc::step(); D r0=toD(a->average(0.,l)); if (asDO) {rw=r0;} int prec=k%3 ? 12 : 5; std::ostringstream o; D got=toD(std::get<1>(structure::stream<R>(a,1.3*(k%2),l,o,prec))); vmc::state(vmc::fnv(w.data(),w.size()*8)); if (!eqd(got,w,nm+": values",tol)) return; if (!eqd(tokens(o.str()),w,nm+": printed",std::max(tol,prec==12?1e-8:1e-3))) return; eq(toM<R>(q),s.rho,"state not disturbed",1e-14); }
    raw.push_back(rw); }
  // unprocessed averages are linear in the density operator
  for (size_t k=n*n;k<ss.size();++k) { const M& rho=ss[k].rho; D sum(N); auto acc=[&](double f, const D& x){for (size_t i=0;i<N;++i) sum[i]+=f*x[i];}; size_t o=n; for (int i=0;i<n;++i) acc(rho(i,i).real(),raw[i]); for (int i=0;i<n;++i) for (int j=i+1;j<n;++j) { double x=2*rho(i,j).real(), y=-2*rho(i,j).imag(); auto pair=[&](double f, const D& v){acc(f,v); acc(-f/2,raw[i]); acc(-f/2,raw[j]);}; pair(x,raw[o++]); pair(y,raw[o++]); } D lin=raw[k]; if (!eqd(lin,sum,cat("state ",k,": linearity of the unprocessed averages"),tol)) return; } }
template<int R> auto avr(std::shared_ptr<const structure::QuantumSystem<R>> s) {return std::dynamic_pointer_cast<const structure::Averaged<R>>(s);}
template<typename T> auto avi(T s) {return std::dynamic_pointer_cast<const structure::Averaged<2>>(s);}
using Cea=structure::ClonableElementAveraged<1>;
struct Choice {std::string name; std::function<Cea*(int)> make; Want w;};
static vector<Choice> choices() { vector<Choice> r; r.push_back({"plain",[](int){return new mode::Averaged;},wMode}); r.push_back({"quad",[](int){return new mode::AveragedQuadratures;},wQuad}); r.push_back({"cutoff",[](int){return new mode::AveragedMonitorCutoff<>;},cut(wMode)}); r.push_back({"quadcutoff",[](int){return new mode::AveragedMonitorCutoff<mode::AveragedQuadratures>;},cut(wQuad)}); r.push_back({"diag",[](int n){return new ReducedDensityOperator<1>("r",n);},wDiag}); r.push_back({"full",[](int n){return new ReducedDensityOperator<1>("r",n,true);},wFull}); return r; }
using Coll=averagingUtils::Collecting<1>;
struct Refusing {};

int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough(); auto ch=choices();
  for (auto& c : ch) for (int n=1;n<=(th?8:6);++n) for (int cl=0;cl<3;++cl) vmc::scenario(cat("single/",c.name,"/n",n,"/clone",cl),[&]{ std::unique_ptr<Cea> o(c.make(n)); std::shared_ptr<const structure::Averaged<1>> a; if (cl==0) a=std::move(o); else if (cl==1) {a.reset(o->clone()); o.reset();} else {std::unique_ptr<Cea> p(o->clone()); o.reset(); a.reset(p->clone());} verify<1>(a,{n},c.w,th); });
  // all sequences of up to three (four) of them collected
  for (int len=1;len<=(th?4:3);++len) vmc::sequences(6,len,[&](const vector<int>& s){ for (int n : {2,3}) { if (n==3 && len==4) continue; std::string id; for (int x : s) id+=cat(id.empty()?"":"+",ch[x].name); for (int k=0;k<3;++k) vmc::scenario(cat("collect/",id,"/n",n,"/",std::vector<std::string>{"direct","clone","inmode"}[k]),[&]{ Coll::Collection col; vector<Want> w; for (int x : s) {col.push_back(ch[x].make(n)); w.push_back(ch[x].w);} std::shared_ptr<const structure::Averaged<1>> a; if (k==0) a=std::make_shared<Coll>(col); else if (k==1) a.reset(Coll(col).clone()); else {parameters::Table t; mode::ParsPumpedLossy p(t); p.cutoff=n; p.kappa=.3; p.eta=.2; auto m=mode::make<Coll>(p,QMP_IP,col); col.clear(); a=avr<1>(m);} verify<1>(a,{n},all(w),th && len<4); }); } });
  // collections of collections
  for (int x=0;x<6;++x) for (int y=0;y<6;++y) for (int z=0;z<6;++z) vmc::scenario(cat("nested/",ch[x].name,"+(",ch[y].name,"+",ch[z].name,")"),[&]{ int n=3; Coll::Collection in, out; in.push_back(ch[y].make(n)); in.push_back(ch[z].make(n)); out.push_back(ch[x].make(n)); out.push_back(new Coll(in)); out.push_back(ch[x].make(n)); verify<1>(std::make_shared<Coll>(out),{n},all({ch[x].w,ch[y].w,ch[z].w,ch[x].w}),th); });
  for (auto& c : ch) for (int n : {11,17}) vmc::scenario(cat("single/",c.name,"/n",n),[&]{verify<1>(std::shared_ptr<const structure::Averaged<1>>(c.make(n)),{n},c.w,false);});
  // long collections, many columns
  for (int rot=0;rot<6;++rot) for (int len : {7,13}) for (int n : {2,4}) vmc::scenario(cat("collect/long",len,"/from",rot,"/n",n),[&]{ Coll::Collection col; vector<Want> w; for (int i=0;i<len;++i) {auto& c=ch[(rot+i*5)%6]; col.push_back(c.make(n)); w.push_back(c.w);} verify<1>(std::make_shared<Coll>(col),{n},all(w),false); });
  vmc::scenario("corr/qbitmode/11",[&]{verify<2>(std::make_shared<QbitModeCorrelations>(),{2,11},wQM(11),false);}); vmc::scenario("corr/modes/6,5",[&]{verify<2>(std::make_shared<ModeCorrelations>(),{6,5},wModes(6,5),false);});
  // elements
  for (auto& x : modes(th)) vmc::scenario("element/"+x.name,[&]{auto s=x.make(); verify<1>(avr<1>(s),{x.n},wMode,th);});
  for (auto& x : homodyned(th)) if (x.n<4) vmc::scenario("element/"+x.name,[&]{auto s=x.make(); verify<1>(avr<1>(s),{x.n},wMode,th);});
  for (auto& x : bichromatic(th)) if (x.n<4) vmc::scenario("element/"+x.name,[&]{auto s=x.make(); verify<1>(avr<1>(s),{x.n},wMode,th);});
  for (auto& x : qbits(th)) vmc::scenario("element/"+x.name,[&]{auto s=x.make(); verify<1>(avr<1>(s),{2},wQbit,th);});
  for (auto& x : spins(th)) { int twoS=std::atoi(x.name.c_str()+x.name.find("twoS")+4); if (x.n>10 && (x.name.find("theta0/")==std::string::npos || x.name.find("gamma0/")==std::string::npos)) continue; vmc::scenario("element/"+x.name,[&]{auto s=x.make(); auto a=avr<1>(s); verify<1>(a,{x.n},wSpin(twoS),th); Key k=key(*a,1); vmc::check(k.label.size()<2 || k.label[1].find("^2>")==std::string::npos,"the column holding the variance is not labelled as the second moment");}); }
  for (auto& x : multilevels(th)) { bool full=x.name.back()=='5'; vmc::scenario("element/"+x.name,[&]{auto s=x.make(); verify<1>(avr<1>(s),{x.n},full?Want(wFull):Want(wDiag),th);}); }
  for (int fin=1;fin<=(th?4:3);++fin) for (int kind=0;kind<2;++kind) for (int p : {QMP_IP,QMP_SCH}) vmc::scenario(cat("element/particle/",fin,kind?"pumped":"free",pic(p)),[&]{ parameters::Table t; Sys s; if (kind) {particle::ParsPumped q(t); q.fin=fin; s=particle::makePumped(q,QM_Picture(p));} else {particle::Pars q(t); q.fin=fin; s=particle::make(q,QM_Picture(p));} verify<1>(avr<1>(s),{1<<fin},wPart,th,1e-6); });
  { auto av=[&]<typename A>(A*, const char* nm, Want w){ for (int n : {1,2,5}) for (int p : {QMP_IP,QMP_UIP,QMP_SCH}) for (int k=0;k<8;++k) vmc::scenario(cat("mode/",nm,"/n",n,pic(p),k),[&]{ parameters::Table t; mode::ParsPumpedLossy q(t); q.cutoff=n; q.delta=.5; q.kappa=k&1?.3:0.; q.eta=k&2?.2:0.; q.nTh=k&4?.5:0.; if (n==1 && k) return; verify<1>(avr<1>(structure::QuantumSystemPtr<1>(mode::make<A>(q,QM_Picture(p)))),{n},w,th); }); }; av((mode::Averaged*)0,"plain",wMode); av((mode::AveragedQuadratures*)0,"quad",wQuad); av((mode::AveragedMonitorCutoff<>*)0,"cutoff",cut(wMode)); av((mode::AveragedMonitorCutoff<mode::AveragedQuadratures>*)0,"quadcutoff",cut(wQuad)); }
  // correlations, reduced density operators and negativity of composite systems
  for (int n=1;n<=(th?5:4);++n) { vmc::scenario(cat("corr/qbitmode/",n),[&]{verify<2>(std::make_shared<QbitModeCorrelations>(),{2,n},wQM(n),th);}); for (int m=1;m<=3;++m) vmc::scenario(cat("corr/modes/",n,",",m),[&]{verify<2>(std::make_shared<ModeCorrelations>(),{n,m},wModes(n,m),th);}); }
  for (int n : {1,2,3}) for (int m : {1,2,4}) for (int full=0;full<2;++full) for (int cl=0;cl<2;++cl) vmc::scenario(cat("rdo2/",n,",",m,"/",full,"/clone",cl),[&]{ ReducedDensityOperator<2> o("r",{n,m},full); std::shared_ptr<const structure::Averaged<2>> a; if (cl) a.reset(o.clone()); else a=std::make_shared<ReducedDensityOperator<2>>(o); verify<2>(a,{n,m},full?Want(wFull):Want(wDiag),th); if (full) { Key k=key(*a,1); if (n*m>1) vmc::check(k.label[n*m].find("real")==0 && k.label[n*m+1].find("imag")==0,"real and imaginary parts alternate"); } });
  for (int full=0;full<2;++full) vmc::scenario(cat("rdo3/",full),[&]{verify<3>(std::make_shared<ReducedDensityOperator<3>>("r",ExtTiny<3>(2,1,3),full),{2,1,3},full?Want(wFull):Want(wDiag),th);});
  { auto ng=[&]<int R, typename VV>(VV*, vector<Dims> ds, vector<int> sub, const std::string& nm){ for (auto& d : ds) for (int cl=0;cl<2;++cl) vmc::scenario(cat("negativity/",nm,"/",vmc::str(d),"/clone",cl),[&]{ using N=ReducedDensityOperatorNegativity<R,VV>; auto o=std::make_shared<N>("r",ext<R>(d)); std::shared_ptr<const structure::Averaged<R>> a=o; if (cl) a.reset(o->clone()); verify<R>(a,d,wNeg(d,sub),th,1e-6); }); };
    vector<Dims> d2={{2,2},{2,3},{3,2},{1,3}}; ng.operator()<2>((tmptools::Vector<0>*)0,d2,{0},"0"); ng.operator()<2>((tmptools::Vector<1>*)0,d2,{1},"1"); vector<Dims> d3={{2,2,2},{2,1,3}}; ng.operator()<3>((tmptools::Vector<0>*)0,d3,{0},"0of3"); ng.operator()<3>((tmptools::Vector<0,2>*)0,d3,{0,2},"02of3"); ng.operator()<3>((tmptools::Vector<1>*)0,d3,{1},"1of3"); }
  // two-part systems: first free, second free, interaction
  for (int n : {2,3}) for (int p : {QMP_IP,QMP_SCH}) for (double g : {0.,.7}) for (int k=0;k<4;++k) vmc::scenario(cat("binary/jc/n",n,pic(p),"/g",g,"/",k),[&]{ parameters::Table t; qbit::ParsPumpedLossy pq(t); pq.delta=.4; pq.gamma=.2; mode::ParsPumpedLossy pm(t,"M"); pm.cutoff=n; pm.kappa=.3; pm.delta=1.; auto q=qbit::make(pq,QM_Picture(p)); auto m=mode::make<mode::AveragedQuadratures>(pm,QM_Picture(p)); Dims d{2,n}; vector<Want> w={on(wQbit,{0},d),on(wQuad,{1},d)}; jaynescummings::Ptr ia; using Neg=ReducedDensityOperatorNegativity<2,tmptools::Vector<0>>; if (k==0) ia=jaynescummings::make(q,m,g); else if (k==1) {ia=jaynescummings::make<QbitModeCorrelations>(q,m,g); w.push_back(wQM(n));} else if (k==2) {ia=jaynescummings::make<ReducedDensityOperator<2>>(q,m,g,"r",ExtTiny<2>(2,n),true); w.push_back(wFull);} else {ia=jaynescummings::make<Neg>(q,m,g,"r",ExtTiny<2>(2,n)); w.push_back(wNeg(d,{0}));} if (k) verify<2>(avi(ia),d,w[2],th,1e-6); auto b=binary::make(ia); verify<2>(avr<2>(structure::QuantumSystemPtr<2>(b)),d,all(w),th,1e-6); });
  for (int n : {2,3}) for (int m : {2,3}) for (double u : {0.,.7}) for (int k=0;k<2;++k) vmc::scenario(cat("binary/modes/",n,",",m,"/u",u,"/",k),[&]{ auto mk=[](int c){parameters::Table t; mode::ParsPumpedLossy p(t); p.cutoff=c; p.kappa=.3; return mode::make<mode::AveragedMonitorCutoff<>>(p,QMP_IP);}; auto a=mk(n), c=mk(m); Dims d{n,m}; vector<Want> w={on(cut(wMode),{0},d),on(cut(wMode),{1},d)}; coupledmodes::Ptr ia; if (k) {ia=coupledmodes::make<coupledmodes::CM_XX,ModeCorrelations>(a,c,u); w.push_back(wModes(n,m));} else ia=coupledmodes::make<coupledmodes::CM_XX>(a,c,u); verify<2>(avr<2>(structure::QuantumSystemPtr<2>(binary::make(ia))),d,all(w),th); });
  // three parts: every subsystem, then the interactions in the order they are given, each on its own subsystems
  for (int k=0;k<4;++k) vmc::scenario(cat("composite/",k),[&]{ parameters::Table t; qbit::ParsPumpedLossy pq(t); pq.gamma=.2; auto q=qbit::make(pq,QMP_IP); auto mk=[&](int c){parameters::Table u; mode::ParsPumpedLossy p(u); p.cutoff=c; p.kappa=.3; return p;}; auto m0=mode::make<mode::AveragedQuadratures>(mk(2),QMP_IP), m1=mode::make<mode::AveragedMonitorCutoff<>>(mk(3),QMP_IP);
      if (k==0) { Dims d{2,2,3}; auto s=composite::make(composite::_<0,1>(jaynescummings::make<QbitModeCorrelations>(q,m0,.4)),composite::_<1,2>(coupledmodes::make<coupledmodes::CM_XX,ModeCorrelations>(m0,m1,.2))); verify<3>(avr<3>(structure::QuantumSystemPtr<3>(s)),d,all({on(wQbit,{0},d),on(wQuad,{1},d),on(cut(wMode),{2},d),on(wQM(2),{0,1},d),on(wModes(2,3),{1,2},d)}),th); }
      if (k==1) { Dims d{3,2,2}; auto s=composite::make(composite::_<1,0>(jaynescummings::make<QbitModeCorrelations>(q,m1,.4)),composite::_<1,2>(jaynescummings::make<QbitModeCorrelations>(q,m0,.4))); verify<3>(avr<3>(structure::QuantumSystemPtr<3>(s)),d,all({on(cut(wMode),{0},d),on(wQbit,{1},d),on(wQuad,{2},d),on(wQM(3),{1,0},d),on(wQM(2),{1,2},d)}),th); }
      if (k==2) { Dims d{2,2,3}; auto s=composite::make(composite::_<2,0>(coupledmodes::make<coupledmodes::CM_XX,ModeCorrelations>(m1,m0,.2)),composite::_<1,0>(jaynescummings::make<ReducedDensityOperatorNegativity<2,tmptools::Vector<0>>>(q,m0,.3,"r",ExtTiny<2>(2,2)))); verify<3>(avr<3>(structure::QuantumSystemPtr<3>(s)),d,all({on(wQuad,{0},d),on(wQbit,{1},d),on(cut(wMode),{2},d),on(wModes(3,2),{2,0},d),on(wNeg({2,2},{0}),{1,0},d)}),th,1e-6); }
      if (k==3) { Dims d{2,2,3}; auto s=composite::make(composite::_<0,2>(jaynescummings::make(q,m1,.4)),composite::_<1,2>(coupledmodes::make<coupledmodes::CM_XX>(m0,m1,.2))); verify<3>(avr<3>(structure::QuantumSystemPtr<3>(s)),d,all({on(wQbit,{0},d),on(wQuad,{1},d),on(cut(wMode),{2},d)}),th); } });
  // averages transferred to another view of the same state
  for (int n : {2,3}) vmc::scenario(cat("transfer/",n),[&]{ parameters::Table t; qbit::ParsPumpedLossy pq(t); mode::ParsPumpedLossy pm(t,"M"); pm.cutoff=n; auto b=binary::make(jaynescummings::make<QbitModeCorrelations>(qbit::make(pq,QMP_SCH),mode::make(pm,QMP_SCH),.3)); Dims d{2,n}; Want w=all({on(wQbit,{0},d),on(wMode,{1},d),wQM(n)}); auto psi2=sv<2>(basis(2*n,0),d); quantumdata::StateVector<1> psi1(psi2.vectorView(),quantumdata::byReference); linalg::CMatrix h(2*n,2*n); h=0; auto s=std::make_shared<TimeIndependentMatrixHamiltonianAveraged<2>>(h,b,psi2); std::shared_ptr<const structure::Averaged<1>> a=s; D e=w(outer(basis(2*n,0),basis(2*n,0))); vmc::same((size_t)a->nAvr(),e.size(),"number"); keyChecks(*a,e.size()); for (auto& st : states(2*n,th)) if (st.pure) {put<1>(psi1.getArray(),st.v); std::ostringstream o; D g=toD(std::get<1>(structure::stream<1>(a,0.,psi1,o,12))); vmc::step(); eqd(g,w(st.rho),"values",1e-9); eqd(tokens(o.str()),w(st.rho),"printed",1e-9); vmc::state(q::hash(st.v));} });
  // entanglement columns of density-operator trajectories
  for (int e=0;e<8;++e) for (int withAv=0;withAv<2;++withAv) for (int sub=0;sub<2;++sub) vmc::scenario(cat("streamer/",e,withAv?"/averages":"/none","/",sub),[&]{ Dims d{2,3}; parameters::Table t; qbit::ParsPumpedLossy pq(t); mode::ParsPumpedLossy pm(t,"M"); pm.cutoff=3; auto b=binary::make(jaynescummings::make(qbit::make(pq,QMP_SCH),mode::make(pm,QMP_SCH),.3)); structure::AveragedPtr<2> a; if (withAv) a=avr<2>(structure::QuantumSystemPtr<2>(b)); quantumtrajectory::EntanglementMeasuresSwitch ems(e); Want base=withAv ? all({on(wQbit,{0},d),on(wMode,{1},d)}) : Want([](const M&){return D{};});
      auto ent=[](const M& r){double s=0; for (double x : heig(r)) if (x>0) s-=x*std::log(x); return s;}; auto go=[&](const auto& st){ Key k=key(st,3); size_t N=(withAv?8:0)+(e&1)+((e>>1)&1)+((e>>2)&1); struct Kk {decltype(&st) s; std::ostream& streamKey(std::ostream& o, size_t& i) const {return s->streamKey(o,i);}}; keyChecks(Kk{&st},N); for (auto& s : states(6,th)) { D w=base(s.rho); M r0=reduce(s.rho,{sub},d), r1=reduce(s.rho,{1-sub},d); if (e&1) w.push_back(neg(s.rho,d,{sub})); if (e&2) w.push_back(ent(r0)+ent(r1)-ent(s.rho)); if (e&4) w.push_back(tr(r0*r0).real()); std::ostringstream o; vmc::step(); auto q=dop<2>(s.rho,d); auto res=st(0.,q,o,10); if (N) eqd(toD(std::get<1>(res)),w,"values",1e-6); eqd(tokens(o.str()),w,"printed",1e-6); vmc::state(vmc::fnv(o.str())); } };
      if (sub) go(quantumtrajectory::DensityOperatorStreamer<2,tmptools::Vector<1>>(a,ems)); else go(quantumtrajectory::DensityOperatorStreamer<2,tmptools::Vector<0>>(a,ems)); });
  return vmc::finish(); }
