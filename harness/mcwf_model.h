// A scripted controlled stepper (classical RK4, so that the coherent evolution can be reproduced by the model) and the reference model of the Monte Carlo wave-function step.
#pragma once
#include "qharness.h"
#include "MCWF_Trajectory.h"
namespace vstep {
struct Script {std::vector<double> factor={1.}; std::vector<int> fails={0}; size_t call=0; bool failing=false; int left=0; };
inline Script& script() {static Script s; return s;}
struct Stepper { using time_type=double;
  template<typename Sys, typename S> boost::numeric::odeint::controlled_step_result try_step(Sys sys, S&& y, double& t, double& dt) { auto& s=script();
    if (!s.failing) {s.failing=true; s.left=s.fails[s.call%s.fails.size()];}
    if (s.left>0) {--s.left; auto d=y.copy(); sys(y,d,t); dt*=.5; return boost::numeric::odeint::fail;}
    auto k1=y.copy(), k2=y.copy(), k3=y.copy(), k4=y.copy(), x=y.copy(); sys(y,k1,t); x=y+.5*dt*k1; sys(x,k2,t+.5*dt); x=y+.5*dt*k2; sys(x,k3,t+.5*dt); x=y+dt*k3; sys(x,k4,t+dt); x=y+dt/6.*(k1+2.*k2+2.*k3+k4); y=x; t+=dt; dt*=s.factor[s.call%s.factor.size()]; ++s.call; s.failing=false; return boost::numeric::odeint::success; } };
}
namespace cppqedutils::ode_engine {
template<> inline const std::string StepperDescriptor<vstep::Stepper> ="scripted";
template<> struct MakeControlledErrorStepper<vstep::Stepper> { static auto _(double r, double a) {return ControlledErrorStepperWithParameters<vstep::Stepper>{{},r,a};} template<typename B> static auto _(const Pars<B>& p) {return _(p.epsRel,p.epsAbs);} };
}
namespace q {
using ScriptedEngine=cppqedutils::ode_engine::Base<vstep::Stepper>;
struct McwfModel { Tables tab; int mask; double dpLimit, tol; V psi; double t=0, t0=0, dtTry, dtDid=0; vstep::Script sc; std::vector<std::pair<double,size_t>> jumps; long steps=0, over=0, back=0; bool ambiguous=false; double maxOver=0, maxBack=0, maxNorm=0; std::vector<double> rates; struct Ev {char kind; double a, b, c, d;}; std::vector<Ev> events; // b: step back, o: overshoot, j: jump, f: failed tries of a step
  static V rk4(const Tables& tab, const V& y, double t, double t0, double h) {auto f=[&](const V& v, double tt){return (-I)*(tab.H(tt,t0)*v);}; V k1=f(y,t), k2=f(y+C(.5*h)*k1,t+.5*h), k3=f(y+C(.5*h)*k2,t+.5*h), k4=f(y+C(h)*k3,t+h); return y+C(h/6)*(k1+C(2)*k2+C(2)*k3+k4);}
  McwfModel(const Tables& tb, int m, V p, double dt, double dp, double to, const vstep::Script& s) : tab(tb), mask(m), dpLimit(dp), tol(to), psi(p), dtTry(dt), sc(s) { if (mask&4) {calcRates(); manage(0,0,0,false);} }
  double total() const {double r=0; for (double x : rates) r+=x; return r;}
  void calcRates() {rates.clear(); for (auto& j : tab.J) rates.push_back(std::pow(norm(j(t)*psi),2));}
  bool manage(double tc, double t0c, double dc, bool log=true) { double R=total(), sug=dpLimit/R; auto at=[&](double a, double b){if (std::abs(a-b)<1e-9*b) ambiguous=true;}; at(R*dtDid,tol*dpLimit); at(R*dtTry,dpLimit); if (R*dtDid>tol*dpLimit) {if (log) maxBack=std::max(maxBack,R*dtDid); {double did=dtDid; t=tc; t0=t0c; dtTry=std::min(sug,.9*dtDid); dtDid=dc; if (log) events.push_back({'b',R*did,tc,did,dtTry});} ++back; return true;} if (R*dtTry>dpLimit) {++over; if (log) {maxOver=std::max(maxOver,R*dtTry); events.push_back({'o',R*dtTry,dtTry,sug,0});}} dtTry=mask&1 ? std::min(dtTry,sug) : sug; return false; }
  void coherent(double Dt) { if (mask&1) { double next=std::abs(Dt)<std::abs(dtTry/10)?dtTry:0; double h=std::min(dtTry,Dt); h*=std::pow(.5,sc.fails[sc.call%sc.fails.size()]); psi=rk4(tab,psi,t,t0,h); t+=h; dtDid=h; events.push_back({'f',double(sc.fails[sc.call%sc.fails.size()]),0,0,0}); dtTry=h*sc.factor[sc.call%sc.factor.size()]; ++sc.call; if (next) dtTry=next; }
    else { double h=mask&4 ? std::min(dtTry,Dt) : Dt; t+=h; dtDid=h; }
    if (mask&2) {psi=tab.U(t,t0)*psi; t0=t;} double n=norm(psi); maxNorm=std::max(maxNorm,std::abs(1-n)); psi=C(1/n)*psi; }
  // everything up to the draw; returns the cumulative jump probabilities
  std::vector<double> before(double Dt, int maxTries=200) { V c=psi; double tc=t, t0c=t0, dc=dtDid; coherent(Dt); std::vector<double> cum; if (!(mask&4)) return cum; calcRates(); while (manage(tc,t0c,dc)) {psi=c; coherent(Dt); calcRates(); if (!--maxTries) throw std::runtime_error("model: too many retries");} double s=0; for (double r : rates) cum.push_back((s+=r)*dtDid); return cum; }
  void after(double draw) { ++steps; if (!(mask&4)) return; double s=0; for (size_t k=0;k<rates.size();++k) { s+=rates[k]*dtDid; if (draw<s) {V j=tab.J[k](t)*psi; psi=C(1/norm(j))*j; jumps.push_back({t,k}); events.push_back({'j',double(k),t,0,0}); return;} } }
};
} // q
