// C17: master-equation steps in lockstep with the dense Lindblad form (scripted engine), and whole evolutions against dense integration (real engine).
#include "Evolution_.h"
#include "mcwf_model.h"
using namespace q; using namespace quantumtrajectory; using vmc::cat;
// Hermitian operators whose expectation values determine the density operator
static std::vector<M> tomography(int n) { std::vector<M> r; for (int i=0;i<n;++i) for (int j=0;j<n;++j) {M m(n); if (i==j) m(i,i)=1; else if (i<j) {m(i,j)=m(j,i)=1;} else {m(i,j)=I; m(j,i)=-I;} r.push_back(m);} return r; }
template<typename T> M stateOf(const T& tr, int n) { std::ostringstream os; auto a=toD(std::get<1>(tr.stream(os,6))); for (size_t k=1;k<a.size();++k) a[k]+=a[0]; M m(n); for (int i=0;i<n;++i) for (int j=0;j<n;++j) { if (i==j) m(i,i)=a[i*n+i]; else if (i<j) {double re=a[i*n+j]/2, im=a[j*n+i]/2; /* tr(op(j,i) rho) = i rho_ij - i rho_ji = -2 Im rho_ij */ m(i,j)=C(re,-im); m(j,i)=C(re,im);} } return m; }
static M lindblad(const Tables& tb, int mask, const M& rho, double t, double t0) { M r(rho.n); if (mask&1) {M d=(-I)*(tb.H(t,t0)*rho); r=d+dag(d);} if (mask&4) for (auto& j : tb.J) {M x=j(t); r=r+x*rho*dag(x);} return r; }
struct MasterModel { Tables tab; int mask; M rho; double t=0, t0=0, dtTry, dtDid=0; vstep::Script sc;
  void step(double Dt) { double next=std::abs(Dt)<std::abs(dtTry/10)?dtTry:0, h=std::min(dtTry,Dt); h*=std::pow(.5,sc.fails[sc.call%sc.fails.size()]); auto f=[&](const M& r, double tt){return lindblad(tab,mask,r,tt,t0);};
    M k1=f(rho,t), k2=f(rho+C(.5*h)*k1,t+.5*h), k3=f(rho+C(.5*h)*k2,t+.5*h), k4=f(rho+C(h)*k3,t+h); rho=rho+C(h/6)*(k1+C(2)*k2+C(2)*k3+k4); t+=h; dtDid=h; dtTry=h*sc.factor[sc.call%sc.factor.size()]; ++sc.call; if (next) dtTry=next;
    if (mask&2) {M u=tab.U(t,t0); rho=u*rho*dag(u);} t0=t; rho=rho+dag(rho); rho=(1./tr(rho))*rho; } };
static Tables tables(int n, int mask, bool superOp, int var) { Tables t; M h0=genH(n,1+10*var), h1=genH(n,2+10*var), K=diag(genV(n,3+10*var,false)); for (auto& x : K.a) x=x.real(); std::vector<M> J{C(.6)*genM(n,20+10*var),C(.4)*genM(n,21+10*var)}; if (var==2) J.pop_back(); if (var==3) J.push_back(M(n));
  M nh=h0; if (mask&4) for (auto& j : J) nh=nh+(-.5*I)*(dag(j)*j);
  // the jump operators must be the same in every picture for a time-independent Lindblad form: with an exact part, they pick up only phases, i.e. are of the form |a><b|
  if (mask&2) { for (auto& j : J) {M x(n); x(0,n-1)=j(0,0)+C(.5); j=x;} nh=h0; if (mask&4) for (auto& j : J) nh=nh+(-.5*I)*(dag(j)*j); }
  auto g=[=](double tt){return var==4 ? 1+.5*std::sin(2*tt) : 1.;}; // variant 4: the decay rates vary in time
  t.H=[=](double tt, double t0)->M{ M nh=h0; if (mask&4) for (auto& j : J) nh=nh+(-.5*g(tt)*g(tt)*I)*(dag(j)*j); if (!(mask&2)) return var==1 ? nh+C(std::sin(3*tt))*h1 : nh; return expm((I*(tt-t0))*K)*nh*expm((-I*(tt-t0))*K); };
  t.U=[=](double tt, double t0)->M{return expm((-I*(tt-t0))*K);}; for (auto& j : J) t.J.push_back([=](double tt)->M{return C(g(tt))*j;}); t.superOp=superOp; t.A=tomography(n); return t; }
template<int R> void go(const Dims& d, bool th, bool light=false) { const int n=total(d); using Low=quantumdata::DensityOperatorLow<R>;
  using SEng=ScriptedEngine; using REng=cppqedutils::ODE_EngineBoost<Low>;
  struct Eng {std::string name; std::vector<double> f; std::vector<int> fail; double dt;}; const std::vector<Eng> engs={{"steady",{1.},{0},.05},{"growing",{5.,3.},{0},.01},{"failing",{1.2,3.},{0,2,1},.2}};
  const double reqs[]={10.,.03,1e-4};
  for (int mask=0;mask<8;++mask) for (int so=0;so<((mask&4)?2:1);++so) for (int var=0;var<5;++var) for (int init=0;init<4;++init) { if (light && (mask<4 || init%2 || (var!=1 && var!=4))) continue; auto rho0=[&]{ return init==0 ? outer(genV(n,8),genV(n,8)) : init==1 ? genRho(n,9) : init==2 ? outer(basis(n,n-1),basis(n,n-1)) : outer(genV(n,8),genV(n,8)); };
    for (auto& e : engs) vmc::scenario(cat("step/",d,"/features=",mask,"/superoperator=",so,"/variant",var,"/state",init,"/",e.name),[&]{ vmc::sequences(3,light?2:th?4:3,[&](const std::vector<int>& seq){ if (vmc::failed()) return;
      Tables tb=tables(n,mask,so,var); vstep::Script sc; sc.factor=e.f; sc.fails=e.fail; vstep::script()=sc; auto sys=makeWhole<R>(mask|8,d,tb); MasterModel m{tb,mask,rho0(),0,0,e.dt,0,sc};
      auto tr=[&]{ SEng en(e.dt,0,1e-6,1e-6); if (init==3) return Master<R,SEng>(sys,sv<R>(genV(n,8),d),en,0); return Master<R,SEng>(sys,dop<R>(rho0(),d),en,0); }(); std::ostringstream log; eq(stateOf(tr,n),m.rho,"initial state",1e-9);
      for (size_t s=0;s<seq.size();++s) { tr.step(reqs[seq[s]],log); m.step(reqs[seq[s]]); vmc::step(); std::string at=cat("requests ",seq,", step ",s); vmc::near(tr.getTime(),m.t,at+": time",1e-12); vmc::near(tr.getDtDid(),m.dtDid,at+": step taken",1e-12); M g=stateOf(tr,n); eq(g,m.rho,at+": density operator",1e-9); vmc::near(q::tr(g),1.,at+": trace",1e-10); vmc::state(hash(g.a)); if (vmc::failed()) return; } }); });
    for (double dt : {1e-3,.3}) if (!light) vmc::scenario(cat("evolve/",d,"/features=",mask,"/superoperator=",so,"/variant",var,"/state",init,"/dt=",dt),[&]{ Tables tb=tables(n,mask,so,var); auto sys=makeWhole<R>(mask|8,d,tb); Master<R,REng> tr(sys,dop<R>(rho0(),d),REng(dt,0,1e-9,1e-9),0); std::ostringstream log;
      // reference: in the picture without an exact part
      M K(n); if (mask&2) {M u=tb.U(1e-3,0); for (int i=0;i<n;++i) K(i,i)=-std::arg(u(i,i))/1e-3;} M rho=rho0(); double t=0; const double h=2e-3; auto f=[&](const M& r, double tt){ M x=(-I)*(K*r); if (mask&1) x=x+(-I)*(tb.H(tt,tt)*r); M y=x+dag(x); if (mask&4) for (auto& j : tb.J) {M b=j(tt); y=y+b*r*dag(b);} return y; };
      if ((mask&4) && !(mask&1)) return; // jump terms alone are no Lindblad form
      for (double T : {.2,.5,1.}) { cppqedutils::advanceTo(tr,T,log); vmc::step(); for (int k=0;k<int(std::lround((T-t)/h));++k) {double s=t+k*h; M k1=f(rho,s), k2=f(rho+C(.5*h)*k1,s+.5*h), k3=f(rho+C(.5*h)*k2,s+.5*h), k4=f(rho+C(h)*k3,s+h); rho=rho+C(h/6)*(k1+C(2)*k2+C(2)*k3+k4);} t=T;
        M g=stateOf(tr,n); vmc::same(tr.getTime(),T,"time"); eq(g,rho,cat("density operator at ",T),2e-6); eq(g,dag(g),"Hermiticity",1e-12); vmc::near(q::tr(g),1.,"trace",1e-10); vmc::check(heig(g)[0]>-1e-6,"positivity"); vmc::state(hash(g.a)); if (vmc::failed()) return; } }); }
  // without jumps: density operator = projector of the state vector
  for (int mask : {0,1,2,3}) for (int var=0;var<2;++var) vmc::scenario(cat("noiseless/",d,"/features=",mask,"/variant",var),[&]{ Tables tb=tables(n,mask,false,var); auto sys=makeWhole<R>(mask|8,d,tb); using VEng=cppqedutils::ODE_EngineBoost<quantumdata::StateVectorLow<R>>; V v=genV(n,8); Master<R,REng> ma(sys,sv<R>(v,d),REng(.01,0,1e-9,1e-9),0); MCWF_Trajectory<R,VEng,pcg64> mc(sys,sv<R>(v,d),VEng(.01,0,1e-9,1e-9),randomutils::EngineWithParameters<pcg64>(7,1),.01,10.,0); std::ostringstream log;
    for (double T : {.1,.4,1.}) { cppqedutils::advanceTo(ma,T,log); cppqedutils::advanceTo(mc,T,log); vmc::step(2); V w=toV<R>(mc.getStateVector()); eq(stateOf(ma,n),outer(w,w),cat("density operator and state vector at ",T),2e-6); } });
  // refusals
  for (int mask=0;mask<8;++mask) for (int un=0;un<2;++un) vmc::scenario(cat("refuse/",d,"/features=",mask,"/unitary=",un),[&]{ Tables tb=tables(n,mask,false,0); tb.unitary=un; auto sys=makeWhole<R>(mask|8,d,tb); bool t=vmc::throws<master::SystemNotApplicable>([&]{Master<R,REng> m(sys,dop<R>(genRho(n,1),d),REng(.1,0,1e-6,1e-6),0);}); vmc::same(t,(mask&2) && !un,"refused because of a non-unitary picture"); 
    for (size_t i=0;i<d.size();++i) for (int delta : {-1,1}) { Dims e=d; e[i]+=delta; int m=total(e); tb.unitary=true; auto s2=makeWhole<R>(mask|8,d,tables(n,mask,false,0)); vmc::step(); vmc::check(vmc::throws<DimensionalityMismatchException>([&]{Master<R,REng> m2(s2,dop<R>(genRho(m,1),e),REng(.1,0,1e-6,1e-6),0);}),"a density operator of the wrong dimension is refused"); vmc::check(vmc::throws<DimensionalityMismatchException>([&]{Master<R,REng> m2(s2,sv<R>(genV(m,1),e),REng(.1,0,1e-6,1e-6),0);}),"a state vector of the wrong dimension is refused");
      using VEng=cppqedutils::ODE_EngineBoost<quantumdata::StateVectorLow<R>>; if (!(mask&4)) vmc::check(vmc::throws<DimensionalityMismatchException>([&]{MCWF_Trajectory<R,VEng,pcg64> m2(s2,sv<R>(genV(m,1),e),VEng(.1,0,1e-6,1e-6),randomutils::EngineWithParameters<pcg64>(7,1),.01,10.,0);}),"a single trajectory from a state of the wrong dimension is refused"); } });
}
int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough(); vstub::script()=[](uint64_t, uint64_t, uint64_t, uint64_t& out){out=~0ull; return true;};
  go<1>({3},th); go<1>({2},th); go<2>({2,3},th); go<1>({12},th,true); go<2>({4,3},th,true); go<3>({2,3,2},th,true); go<4>({2,1,2,2},th,true); go<1>({1},th,true); if (th) {go<1>({5},th); go<2>({3,2},th);} 
  return vmc::finish(); }
