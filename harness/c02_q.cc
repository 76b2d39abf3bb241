// C02 (quantum level): interruption points of master-equation, quantum-jump and ensemble runs, for every sequence of random draws over a small alphabet.
#include "Evolution_.h"
#include "statefile.h"
#include "qharness.h"
#include "Mode.h"
using namespace q; using vmc::cat;
// the script of random draws: draw i of stream s
static std::vector<double> draws; static int nStreams=1;
int main(int argc, char** argv) {
  vmc::init(argc,argv); const bool th=vmc::thorough();
  vstub::script()=[](uint64_t seed, uint64_t stream, uint64_t pos, uint64_t& out){ double d=draws[(pos+3*stream)%draws.size()]; out=uint64_t(d*18446744073709551615.); return true; };
  std::vector<sf::Set> sets;
  for (unsigned sdf : {0u,1u,2u}) { sets.push_back({1.,0,.25,0,sdf,true,""}); sets.push_back({1.,0,.3,0,sdf,false,""}); sets.push_back({1.,3,.1,0,sdf,true,""}); sets.push_back({9.,0,.25,4,sdf,true,""}); }
  // systems: every combination of Hamiltonian / exact part / jumps
  const int n=3; M Hm=genH(n,1), Km=diag({.3,-.7,1.1}), J0=.5*genM(n,2), J1=.4*genM(n,3);
  auto tables=[&](int mask, bool nonUnitary){ Tables t; t.H=[=](double tt, double t0)->M{M h=Hm; if (!(mask&2)) h=h+C(std::cos(2*tt))*Km; else {M u=expm((I*(tt-t0))*Km); h=u*h*dag(u);} return h;};
    t.U=[=](double tt, double t0)->M{return expm((-I*(tt-t0))*(Km+(nonUnitary ? (-.3*I)*eye(n) : M(n))));}; t.unitary=!nonUnitary; t.J={[=](double)->M{return J0;},[=](double)->M{return J1;}}; t.negRate={false,true}; t.A={genH(n,5),genH(n,6)}; return t; };
  std::vector<double> alpha={.00002,.004,.9};
  for (auto& s : sets) for (int mask=0;mask<8;++mask) {
    if (s.NDt && mask%3) continue;
    auto with=[&](auto f){parameters::Table tab; evolution::Pars<> p(tab); p.logLevel=1; p.nTraj=3; f(p);};
    vmc::scenario(cat("master/",sf::id(s),"/features=",mask),[&]{draws={.5}; with([&](auto& p){ sf::resumeAll(s,[&]{ auto sys=makeWhole<1>(mask|8,{n},tables(mask,false));
      using Eng=cppqedutils::ODE_EngineBoost<quantumdata::DensityOperatorLow<1>>; using T=Master<1,Eng>; return std::make_unique<T>(sys,dop<1>(genRho(n,7),{n}),Eng(initialTimeStep<1>(sys),p),0); },p,th); });});
    vmc::sequences(3,th?3:2,[&](const std::vector<int>& d){ std::string ds; for (int i : d) ds+=cat(i);
      vmc::scenario(cat("mcwf/",sf::id(s),"/features=",mask,"/draws=",ds),[&]{draws.clear(); for (int i : d) draws.push_back(alpha[i]); draws.push_back(.03); with([&](auto& p){ sf::resumeAll(s,[&]{ auto sys=makeWhole<1>(mask|8,{n},tables(mask,true));
        p.seed=1001; p.prngStream=1; using Eng=cppqedutils::ODE_EngineBoost<quantumdata::StateVectorLow<1>>; using T=MCWF_Trajectory<1,Eng,pcg64>; return std::make_unique<T>(mcwf::make<Eng,pcg64>(sys,sv1(genV(n,8)),p)); },p,false); });});
      if (!s.dc) vmc::scenario(cat("ensemble/",sf::id(s),"/features=",mask,"/draws=",ds),[&]{draws.clear(); for (int i : d) draws.push_back(alpha[i]); draws.push_back(.03); with([&](auto& p){ sf::resumeAll(s,[&]{ auto sys=makeWhole<1>(mask|8,{n},tables(mask,true));
        p.seed=1001; p.prngStream=1; using Eng=cppqedutils::ODE_EngineBoost<quantumdata::StateVectorLow<1>>; auto e=mcwf::makeEnsemble<Eng,pcg64,tmptools::V_Empty>(sys,sv1(genV(n,8)),p,0); return std::make_unique<decltype(e)>(std::move(e)); },p,false,false); });});
    });
  }
  // two subsystems of different dimensions, continued from every record
  { const Dims d{2,3}; const int n2=6; M H2=genH(n2,11), K2=diag({.3,-.7,1.1,.2,-.1,.6}), Ja=.5*genM(n2,12), Jb=.4*genM(n2,13);
    auto tb=[&](int mask){ Tables t; t.H=[=](double tt, double t0)->M{M h=H2; if (!(mask&2)) h=h+C(std::cos(2*tt))*K2; else {M u=expm((I*(tt-t0))*K2); h=u*h*dag(u);} return h;}; t.U=[=](double tt, double t0)->M{return expm((-I*(tt-t0))*K2);}; t.J={[=](double)->M{return Ja;},[=](double)->M{return Jb;}}; t.A={genH(n2,15)}; return t; };
    for (auto& s : sets) if (s.sdf==1) for (int mask : {1,4,5,7}) {
      auto with=[&](auto f){parameters::Table tab; evolution::Pars<> p(tab); p.logLevel=1; p.nTraj=2; p.seed=1001; p.prngStream=1; f(p);};
      vmc::scenario(cat("rank2-master/",sf::id(s),"/features=",mask),[&]{draws={.5}; with([&](auto& p){ sf::resumeAll(s,[&]{ auto sys=makeWhole<2>(mask|8,d,tb(mask)); using Eng=cppqedutils::ODE_EngineBoost<quantumdata::DensityOperatorLow<2>>; using T=Master<2,Eng>; return std::make_unique<T>(sys,dop<2>(genRho(n2,17),d),Eng(initialTimeStep<2>(sys),p),0); },p,false); });});
      vmc::scenario(cat("rank2-mcwf/",sf::id(s),"/features=",mask),[&]{draws={.004,.9,.00002,.03}; with([&](auto& p){ sf::resumeAll(s,[&]{ auto sys=makeWhole<2>(mask|8,d,tb(mask)); p.seed=1001; p.prngStream=1; using Eng=cppqedutils::ODE_EngineBoost<quantumdata::StateVectorLow<2>>; using T=MCWF_Trajectory<2,Eng,pcg64>; return std::make_unique<T>(mcwf::make<Eng,pcg64>(sys,sv<2>(genV(n2,18),d),p)); },p,false); });});
      if (!s.dc) vmc::scenario(cat("rank2-ensemble/",sf::id(s),"/features=",mask),[&]{draws={.004,.9,.00002,.03}; with([&](auto& p){ sf::resumeAll(s,[&]{ auto sys=makeWhole<2>(mask|8,d,tb(mask)); p.seed=1001; p.prngStream=1; using Eng=cppqedutils::ODE_EngineBoost<quantumdata::StateVectorLow<2>>; auto e=mcwf::makeEnsemble<Eng,pcg64,tmptools::V_Empty>(sys,sv<2>(genV(n2,18),d),p,0); return std::make_unique<decltype(e)>(std::move(e)); },p,false,false); });});
    } }
  return vmc::finish();
}
