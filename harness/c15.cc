// C15: every sequence of jump decisions over several steps, for all feature sets, limits, engine behaviours and requests, against the Monte Carlo wave-function model.
#include "Evolution_.h"
#include "mcwf_model.h"
using namespace q; using namespace quantumtrajectory; using vmc::cat;
static double nextDraw=.5; static long draws=0;
static double grab(const std::string& txt, const std::string& key, size_t nth=0) {auto k=txt.find(key); if (k==std::string::npos) return NAN; return std::atof(txt.c_str()+k+key.size());}
struct Chan {std::string name; std::vector<int> kind;}; // 0 normal, 1 special, 2 zero rate, 3 zero rate special
Tables tables(int n, int mask, const Chan& ch, bool nonUnitary, double strength) { Tables t; M h0=genH(n,1)+(-.2*I)*genRho(n,4), h1=genH(n,2), K=diag(genV(n,3,false)); if (!nonUnitary) for (auto& x : K.a) x=x.real();
  t.H=[=](double tt, double t0)->M{ if (!(mask&2)) return h0+C(std::cos(2*tt))*h1; M u=expm((I*(tt-t0))*K), w=expm((-I*(tt-t0))*K); return u*h0*w; };
  t.U=[=](double tt, double t0)->M{return expm((-I*(tt-t0))*K);}; t.unitary=!nonUnitary; int i=0;
  for (int k : ch.kind) { M j0=C(strength)*genM(n,20+i), j1=C(.3*strength)*genM(n,30+i); if (k>=2) {j0=M(n); j1=M(n);} t.J.push_back([=](double tt)->M{return j0+C(tt)*j1;}); t.negRate.push_back(k==1); ++i; } return t; }
template<typename T> void compare(T& tr, const McwfModel& m, const std::string& at) {
  vmc::near(tr.getTime(),m.t,at+": time",1e-12); vmc::near(tr.getDtDid(),m.dtDid,at+": step taken",1e-12); if (std::isfinite(m.dtTry)) vmc::near(tr.getDtTry(),m.dtTry,at+": step proposed",1e-9); else vmc::check(!std::isfinite(tr.getDtTry())||tr.getDtTry()>1e10,at+": step proposed is unlimited");
  eq(toV<1>(tr.getStateVector()),m.psi,at+": state",1e-8); vmc::near(norm(toV<1>(tr.getStateVector())),1.,at+": norm",1e-9);
  std::vector<std::pair<double,size_t>> js(tr.getLogger().getTrajectory().begin(),tr.getLogger().getTrajectory().end()); if (vmc::same(js.size(),m.jumps.size(),at+": number of jumps")) for (size_t i=0;i<js.size();++i) {vmc::same(js[i].second,m.jumps[i].second,at+": jump channel"); vmc::near(js[i].first,m.jumps[i].first,at+": jump instant",1e-12);}
  std::ostringstream o; tr.logOnEnd(o); std::string s=o.str(); vmc::same(long(grab(s,"number of MCWF steps: ")),m.steps,at+": logged steps"); vmc::same(long(grab(s,"dpLimit overshot: ")),m.over,at+": logged overshoots"); vmc::same(long(grab(s,"dpTolerance overshot: ")),m.back,at+": logged retries"); vmc::near(grab(s,"deviation of norm from 1: "),m.maxNorm,at+": logged norm deviation",1e-4);
  auto ov=s.find("dpLimit overshot: "); vmc::near(grab(s.substr(ov),"maximal overshoot: "),m.maxOver,at+": logged largest overshoot",1e-4); ov=s.find("dpTolerance overshot: "); vmc::near(grab(s.substr(ov),"maximal overshoot: "),m.maxBack,at+": logged largest tolerance overshoot",1e-4);
  size_t p=s.find("MCWF Trajectory:\n"); if (vmc::check(p!=std::string::npos,"log lists the jumps")) {std::istringstream is(s.substr(p+17)); double t; size_t k; size_t c=0; while (is>>t>>k) {if (c<m.jumps.size()) {vmc::same(k,m.jumps[c].second,"listed jump channel"); vmc::near(t,m.jumps[c].first,"listed jump instant",1e-4);} ++c;} vmc::same(c,m.jumps.size(),"listed jumps");} }
int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough();
  vstub::script()=[](uint64_t, uint64_t, uint64_t, uint64_t& out){ ++draws; out=nextDraw>=1. ? ~0ull : uint64_t(std::ldexp(nextDraw,64)); return true; };
  const std::vector<Chan> chans={{"N",{0}},{"S",{1}},{"NN",{0,0}},{"SN",{1,0}},{"ZN",{2,0}},{"NZS",{0,2,1}},{"NNN",{0,0,0}},{"SS",{1,1}},{"Z",{2}},{"NSN",{0,1,0}},{"none",{}}};
  struct Lim {double dp, tol;}; const std::vector<Lim> lims={{.01,10},{.3,1.},{.05,3},{.9,1.}};
  struct Eng {std::string name; std::vector<double> f; std::vector<int> fail; double dt;}; const std::vector<Eng> engs={{"steady",{1.},{0},.05},{"growing",{5.,3.},{0},.01},{"large",{4.},{0},2.},{"failing",{1.2,3.},{0,2,1},.2},{"shrinking",{.5},{1},.3}};
  const std::vector<std::vector<double>> reqs={{5.},{.03},{.2,1e-4},{1e-3,.5}};
  for (int mask=0;mask<8;++mask) for (auto& ch : chans) { if (!(mask&4) && ch.name!="N") continue;
    for (size_t li=0;li<lims.size();++li) for (size_t ei=0;ei<engs.size();++ei) { if (!(mask&1) && ei>2) continue; for (size_t ri=0;ri<reqs.size();++ri) for (int nu=0;nu<2;++nu) { if (nu && !(mask&2)) continue; if (!(mask&5) && ri==0) continue;
      for (int flav=0;flav<3;++flav) for (double strength : {.4,3.}) { if (!(mask&4) && (flav || strength>1)) continue; if (!th && flav!=int((li+ei+ri)%3)) continue; int K=mask&4 ? ch.kind.size()+1 : 1, N=th?4:3;
        vmc::scenario(cat("step/features=",mask,"/",ch.name,"/dp=",lims[li].dp,",",lims[li].tol,"/",engs[ei].name,"/req",ri,"/",nu?"nonunitary":"unitary","/flavour",flav,"/strength",strength),[&]{
        vmc::sequences(K,N,[&](const std::vector<int>& seq){ if (vmc::failed()) return; const int n=3; Tables tb=tables(n,mask,ch,nu,strength); vstep::Script sc; sc.factor=engs[ei].f; sc.fails=engs[ei].fail; vstep::script()=sc;
          auto sys=makeWhole<1>(mask,{n},tb); V v=genV(n,8); MCWF_Trajectory<1,ScriptedEngine,pcg64> tr(sys,sv1(v),ScriptedEngine(engs[ei].dt,0,1e-6,1e-6),randomutils::EngineWithParameters<pcg64>(7,1),lims[li].dp,lims[li].tol,1);
          McwfModel m(tb,mask,v,engs[ei].dt,lims[li].dp,lims[li].tol,sc); compare(tr,m,"start"); std::ostringstream log;
          for (size_t s=0;s<seq.size();++s) { double Dt=reqs[ri][s%reqs[ri].size()]; std::string at=cat("sequence ",seq,", step ",s);
            if (mask&4) for (double r : m.rates) if (r*std::min(Dt,m.dtTry)>1e6) return;
            auto cum=m.before(Dt); if (m.ambiguous) {vmc::step(); tr.step(Dt,log); return;} /* a comparison within rounding: only termination is required */ double lo=0, hi=1; if (mask&4) { int k=seq[s]; if (k<(int)cum.size()) {lo=k?cum[k-1]:0; hi=std::min(1.,cum[k]); if (!(hi>lo)) return;} else {lo=cum.empty()?0:cum.back(); if (lo>=1) return;} }
            nextDraw=flav==0 ? lo+(hi-lo)*1e-6+1e-15 : flav==1 ? .5*(lo+hi) : hi-(hi-lo)*1e-6; long d0=draws; tr.step(Dt,log); vmc::step(); m.after(nextDraw); if (mask&4) vmc::same(draws-d0,1l,at+": random numbers used");
            if ((mask&4) && m.total()>0) vmc::check(tr.getDtTry()<=m.dpLimit/m.total()*(1+1e-9) || (m.mask&4 && !m.jumps.empty()),at+": proposed step within the limit");
            compare(tr,m,at); vmc::state(hash(toV<1>(tr.getStateVector()))); if (vmc::failed()) return; } }); }); } } } }
  // long histories, many channels, larger and rank-two systems: draws hit every channel in turn (and none), in each of several orders
  const std::vector<Chan> longs={{"N*12",std::vector<int>(12,0)},{"mixed*9",{0,1,2,0,0,1,0,2,1}},{"NN",{0,0}},{"N*40",std::vector<int>(40,0)}};
  auto longRun=[&]<int R>(std::integral_constant<int,R>, const Dims& d, int mask, const Chan& ch, int order, bool nu, double strength, int steps){ vmc::scenario(cat("long/",d,"/features=",mask,"/",ch.name,"/order",order,"/nonunitary=",nu,"/strength=",strength),[&]{ int n=total(d), K=ch.kind.size(); Tables tb=tables(n,mask,ch,nu,strength); vstep::Script sc; sc.factor={2.,.7,1.1}; sc.fails={0,1,0,0}; vstep::script()=sc;
      auto sys=makeWhole<R>(mask,d,tb); V v=genV(n,8); MCWF_Trajectory<R,ScriptedEngine,pcg64> tr(sys,sv<R>(v,d),ScriptedEngine(.05,0,1e-6,1e-6),randomutils::EngineWithParameters<pcg64>(7,1),.2,2.,1); McwfModel m(tb,mask,v,.05,.2,2.,sc); std::ostringstream log;
      for (int s=0;s<steps;++s) { double Dt=s%5==4?1e-3:.4; auto cum=m.before(Dt); if (m.ambiguous) {tr.step(Dt,log); return;} int k=order==0 ? s%(K+1) : order==1 ? K-s%(K+1) : (s%3 ? K : (s*7/3)%(K+1)); double lo=k?cum[k-1]:0, hi=k<K?cum[k]:1; if (!(hi>lo) || lo>=1) {lo=cum.back(); hi=1; if (lo>=1) return;} nextDraw=.5*(lo+std::min(1.,hi)); long d0=draws; tr.step(Dt,log); vmc::step(); m.after(nextDraw); vmc::same(draws-d0,1l,"random numbers used"); 
        vmc::near(tr.getTime(),m.t,cat("step ",s,": time"),1e-12); eq(toV<R>(tr.getStateVector()),m.psi,cat("step ",s,": state"),1e-7); vmc::near(tr.getDtTry(),m.dtTry,cat("step ",s,": step proposed"),1e-7); vmc::state(hash(toV<R>(tr.getStateVector()))); if (vmc::failed()) return; }
      std::vector<std::pair<double,size_t>> js(tr.getLogger().getTrajectory().begin(),tr.getLogger().getTrajectory().end()); if (vmc::same(js.size(),m.jumps.size(),"number of jumps")) for (size_t i=0;i<js.size();++i) {vmc::same(js[i].second,m.jumps[i].second,"jump channel"); vmc::near(js[i].first,m.jumps[i].first,"jump instant",1e-12);}
      std::ostringstream o; tr.logOnEnd(o); std::string s=o.str(); vmc::same(long(grab(s,"number of MCWF steps: ")),m.steps,"logged steps"); vmc::same(long(grab(s,"dpLimit overshot: ")),m.over,"logged overshoots"); vmc::same(long(grab(s,"dpTolerance overshot: ")),m.back,"logged retries"); }); };
  for (auto& ch : longs) for (int order=0;order<3;++order) for (int mask : {4,5,6,7}) for (bool nu : {false,true}) for (double strength : {.15,.6}) { if (nu && !(mask&2)) continue; longRun(std::integral_constant<int,1>{},{3},mask,ch,order,nu,strength,th?400:120); if (ch.kind.size()==2) {longRun(std::integral_constant<int,2>{},{2,3},mask,ch,order,nu,strength,60); longRun(std::integral_constant<int,1>{},{20},mask,ch,order,nu,.3*strength,30); longRun(std::integral_constant<int,3>{},{2,1,3},mask,ch,order,nu,strength,30);} }
  // real adaptive engine, no jumps: the state is that of the (non-Hermitian) Schroedinger evolution, in every picture, also across undone steps
  using RealEng=cppqedutils::ODE_EngineBoost<quantumdata::StateVectorLow<1>>;
  for (int mask : {1,3,5,7}) for (int nu=0;nu<2;++nu) for (double dp : {.001,.02,.2}) for (double dt : {1e-3,.1,2.}) for (double strength : {.2,1.,3.}) { if (nu && !(mask&2)) continue; vmc::scenario(cat("coherent/features=",mask,"/nonunitary=",nu,"/dp=",dp,"/dt=",dt,"/strength=",strength),[&]{
    const int n=3; M h0=genH(n,1)+(-.2*I)*genRho(n,4), K=diag(genV(n,3,false)); if (!nu) for (auto& x : K.a) x=x.real(); Tables tb; tb.unitary=!nu;
    tb.H=[=](double t, double t0)->M{ if (!(mask&2)) return h0+K; return expm((I*(t-t0))*K)*h0*expm((-I*(t-t0))*K); }; tb.U=[=](double t, double t0)->M{return expm((-I*(t-t0))*K);}; M j=C(strength)*genM(n,20); tb.J={[=](double)->M{return j;}};
    auto sys=makeWhole<1>(mask,{n},tb); V v=genV(n,8); MCWF_Trajectory<1,RealEng,pcg64> tr(sys,sv1(v),RealEng(dt,0,1e-9,1e-9),randomutils::EngineWithParameters<pcg64>(7,1),dp,1.2,0); nextDraw=1.; std::ostringstream log; long k=0;
    for (double T : {.3,.7,1.5}) { while (tr.getTime()<T && ++k<100000) {double b=tr.getTime(); tr.step(T-b,log); vmc::step(); if (!vmc::check(tr.getTime()>b && std::abs(tr.getTime()-b-tr.getDtDid())<1e-14,"a step advances the time by the reported amount")) return;} V w=expm((-I*T)*(h0+K))*v; w=C(1/norm(w))*w; eq(toV<1>(tr.getStateVector()),w,cat("state at ",T),1e-5); vmc::state(hash(toV<1>(tr.getStateVector()))); } }); }
  return vmc::finish(); }
