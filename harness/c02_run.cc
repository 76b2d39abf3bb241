// C02 (trajectory level): every interruption point of file-backed runs of scripted and integrated trajectories.
#include "statefile.h"
#include "ODE_GSL.h"
using namespace mock; using vmc::cat;
using D1=DArray<1>; using C1=CArray<1>;
int main(int argc, char** argv) {
  vmc::init(argc,argv); const bool th=vmc::thorough();
  std::vector<sf::Set> sets;
  for (unsigned sdf : {0u,1u,2u,3u}) for (bool first : {true,false}) {
    for (double Dt : {.25,.375,.3}) for (double T : {1.,1.625}) sets.push_back({T,0,Dt,0,sdf,first,""});
    for (int dc : {1,2,3}) for (double T : {1.,1.625}) sets.push_back({T,dc,.1,0,sdf,first,""});
    sets.push_back({7.,0,.25,5,sdf,first,""}); sets.push_back({7.,0,.3,4,sdf,first,""}); }
  for (auto& s : sets) for (bool info : {true,false}) for (int lev : {0,4}) {
    auto pars=[&](auto f){parameters::Table tab; cppqedutils::trajectory::Pars<> p(tab); p.streamInfo=info; p.logLevel=lev; f(p);};
    auto nm=[&](const char* k){return cat(k,"/",sf::id(s),",info=",(int)info,",lev=",lev);};
    if (lev==0) {
      vmc::scenario(nm("stepping"),[&]{pars([&](auto& p){sf::resumeAll(s,[]{auto q=std::make_unique<Stepping>(); q->script={.125,.375,.0625}; return q;},p,true);});});
      if (!s.dc || s.dc==1) vmc::scenario(nm("advancing"),[&]{pars([&](auto& p){sf::resumeAll(s,[]{auto q=std::make_unique<Advancing>(); q->s.script={.375,.125}; return q;},p,true,false);});});
    }
    if (!info && !th) continue;
    auto osc=[](auto eng, auto& p, auto z0){ using St=std::decay_t<decltype(z0)>; using F=std::function<void(const St&,St&,double)>;
      F f=[](const St& y, St& d, double t){d(0)=y(1); d(1)=-4.*y(0)-.3*y(1)+std::sin(t*3.);};
      return std::make_unique<cppqedutils::Simulated<St,F,decltype(eng)>>(cppqedutils::Simulated<St,F,decltype(eng)>(z0.copy(),f,{"x","y"},eng)); };
    D1 d(2); d=1.,-.5; C1 c(2); c=dcomp(1.,.25),dcomp(0.,-.5);
    vmc::scenario(nm("simulated-boost-real"),[&]{pars([&](auto& p){sf::resumeAll(s,[&]{return osc(cppqedutils::ODE_EngineBoost<D1>(.01,p),p,d);},p,th);});});
    vmc::scenario(nm("simulated-boost-complex"),[&]{pars([&](auto& p){sf::resumeAll(s,[&]{return osc(cppqedutils::ODE_EngineBoost<C1>(.01,p),p,c);},p,th);});});
    vmc::scenario(nm("simulated-gsl-real"),[&]{pars([&](auto& p){sf::resumeAll(s,[&]{return osc(cppqedutils::ODE_EngineGSL<D1>(.01,p),p,d);},p,th);});});
  }
  // states larger than any buffer, and long runs with many records
  { using F=std::function<void(const C1&,C1&,double)>; using E=cppqedutils::ODE_EngineBoost<C1>; using S=cppqedutils::Simulated<C1,F,E>;
    for (int n : {70,1000,9000}) for (sf::Set s : {sf::Set{.75,0,.25,0,1,true,""},sf::Set{1.,2,.25,0,2,false,""}}) vmc::scenario(cat("large/n=",n,"/",sf::id(s)),[&]{ parameters::Table tab; cppqedutils::trajectory::Pars<> p(tab); p.epsRel=1e-4;
      sf::resumeAll(s,[&]{ C1 c(n); for (int i=0;i<n;++i) c(i)=dcomp(std::cos(.1*i),std::sin(.37*i)); F f=[n](const C1& y, C1& d, double){for (int i=0;i<n;++i) d(i)=dcomp(-.1,.5+i/double(n))*y((i+1)%n);}; return std::make_unique<S>(S(c,f,{},E(.01,p))); },p,false); }); }
  for (sf::Set s : {sf::Set{15.,0,.25,0,1,true,""},sf::Set{15.,0,.25,0,7,true,""},sf::Set{15.,5,.1,0,3,false,""}}) vmc::scenario(cat("long/",sf::id(s)),[&]{parameters::Table tab; cppqedutils::trajectory::Pars<> p(tab); sf::resumeAll(s,[]{auto q=std::make_unique<Stepping>(); q->script={.125,.375,.0625}; q->logs=false; return q;},p,false);});
  return vmc::finish();
}
