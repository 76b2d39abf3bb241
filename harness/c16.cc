// C16: ensembles against the mean of independently modelled members, for every assignment of random draws to members and steps, every sequence of advances and queries.
#include "Evolution_.h"
#include "mcwf_model.h"
using namespace q; using namespace quantumtrajectory; using vmc::cat;
static std::function<double(uint64_t,uint64_t,uint64_t)> drawOf;
static Tables tables(int n, int mask) { Tables t; M h0=genH(n,1)+(-.2*I)*genRho(n,4), K=diag({.3,-.7,1.1}); t.H=[=](double tt, double t0)->M{ if (!(mask&2)) return h0+C(std::cos(2*tt))*K; return expm((I*(tt-t0))*K)*h0*expm((-I*(tt-t0))*K); }; t.U=[=](double tt, double t0)->M{return expm((-I*(tt-t0))*K);};
  M j0=genM(n,20), j1=genM(n,21); t.J={[=](double)->M{return j0;},[=](double)->M{return j1;}}; t.negRate={false,true}; for (int i=0;i<3;++i) t.A.push_back(genH(n,40+i)); return t; }
// the model of a member: advances in adaptive steps until the instant is reached
static void advance(McwfModel& m, double len, uint64_t seed, uint64_t stream, uint64_t& pos) { double end=m.t+len; while (m.t<end) { m.before(end-m.t); m.after((m.mask&4) ? drawOf(seed,stream,pos++) : 1.); } }
static double grab(const std::string& txt, const std::string& key) {auto k=txt.find(key); if (k==std::string::npos) return NAN; return std::atof(txt.c_str()+k+key.size());}
// generic averaging of trajectories that only offer a value
struct Val { using EnsembleAverageElement=double; using EnsembleAverageResult=double; using StreamedArray=DArray<1>; double v, t=0; double averaged() const {return v*(1+t);} double getTime() const {return t;} double getDtDid() const {return v;} void step(double d, std::ostream&) {t+=std::min(d,.1*v);} std::ostream& streamParameters(std::ostream& os) const {return os;} };
struct ValStr { auto operator()(double t, double av, std::ostream& os, int) const {DArray<1> a(1); a=av; return std::tuple<std::ostream&,DArray<1>>{os<<av,a};} std::ostream& streamKey(std::ostream& os, size_t&) const {return os;} };
struct ValLog { void operator()(const std::vector<Val>& v, std::ostream& os) const {os<<v.size();} };
int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough();
  vstub::script()=[](uint64_t seed, uint64_t stream, uint64_t pos, uint64_t& out){ double d=drawOf(seed,stream,pos); out=d>=1 ? ~0ull : uint64_t(std::ldexp(d,64)); return true; };
  const double alpha[]={1e-4,.11,.97};
  struct Eng {std::vector<double> f; double dt;}; const std::vector<Eng> engs={{{1.},.05},{{3.,.5},.01}};
  const std::vector<std::vector<double>> adv={{.1},{.25,.05},{.05,.05,.1},{.3,1e-3}};
  for (int mask : {1,3,4,5,6,7}) for (int N : {1,2,3,5,16,40}) for (size_t ei=0;ei<engs.size();++ei) for (size_t ai=0;ai<adv.size();++ai) for (unsigned long prng : {1ul,4ul}) { if ((mask&5)==4 && ei) continue; if (N>5 && (ei || ai%3 || prng>1)) continue;
    int D=(mask&4) ? (N<=2?4:N==3?5:6) : 0; if (!th && N==5) D=4; if (N>5 && D) D=3; if (N>16 && D) D=2;
    vmc::scenario(cat("members=",N,"/features=",mask,"/engine",ei,"/advances",ai,"/stream",prng),[&]{ vmc::sequences(3,D,[&](const std::vector<int>& seq){ if (vmc::failed()) return; const int n=3; const uint64_t seed=1001;
      // draw number pos of the i-th member; the sequences enumerate the first draws of the members, later ones cycle through them shifted
      drawOf=[&,prng](uint64_t s, uint64_t stream, uint64_t pos)->double{ if (D==0) return .5; if (s!=seed || stream<prng || stream>=prng+N) return .77; uint64_t i=stream-prng; return alpha[seq[(i+pos*N)%D]]; };
      Tables tb=tables(n,mask); vstep::Script sc; sc.factor=engs[ei].f; 
      parameters::Table pt; evolution::Pars<> p(pt); p.nTraj=N; p.seed=seed; p.prngStream=prng; p.dpLimit=.2; p.overshootTolerance=1.5; p.logLevel=1;
      double freq=.1/engs[ei].dt; auto sys=makeWhole<1>(mask|8,{n},tb,freq); V v=genV(n,8); std::ostringstream log;
      auto psi=sv1(v); auto ens=mcwf::makeEnsemble<ScriptedEngine,pcg64,tmptools::V_Empty>(sys,psi,p,0); eq(toV<1>(psi),v,"the initial state is not changed");
      double dtInit=initialTimeStep<1>(sys); std::vector<McwfModel> ms; std::vector<uint64_t> pos(N,0); for (int i=0;i<N;++i) ms.emplace_back(tb,mask,v,dtInit,.2,1.5,sc);
      auto cmp=[&](const std::string& at){ M mean(n); for (auto& m : ms) mean=mean+outer(m.psi,m.psi); mean=C(1./N)*mean; for (int twice=0;twice<2;++twice) { M got=toM<1>(ens.averaged()); eq(got,mean,at+": ensemble state",1e-8); eq(got,dag(got),at+": Hermiticity",1e-12); vmc::near(tr(got),1.,at+": trace",1e-9); vmc::check(heig(got)[0]>-1e-9,at+": positivity"); std::ostringstream o; auto a=toD(std::get<1>(ens.stream(o,6))); std::vector<double> want; for (size_t k=0;k<tb.A.size();++k) want.push_back(q::tr(tb.A[k]*mean).real()); for (size_t k=1;k<want.size();++k) want[k]-=want[0]; eqd(a,want,at+": streamed averages",1e-8); }
        vmc::near(ens.getTime(),ms[0].t,at+": time",1e-12); double dd=0; for (auto& m : ms) dd+=m.dtDid/N; vmc::near(ens.getDtDid(),dd,at+": mean step",1e-9); vmc::state(hash(mean.a));
        std::ostringstream o; ens.logOnEnd(o); double st=0, ju=0, ov=0, ba=0; for (auto& m : ms) {st+=m.steps; ju+=m.jumps.size(); ov+=m.over; ba+=m.back;} vmc::near(grab(o.str(),"number of total steps: "),st/N,at+": logged mean number of steps",1e-4); vmc::near(grab(o.str(),"number of total jumps: "),ju/N,at+": logged mean number of jumps",1e-4); vmc::near(grab(o.str(),"dpLimit overshot: "),ov/N,at+": logged overshoots",1e-4); vmc::near(grab(o.str(),"dpTolerance overshot: "),ba/N,at+": logged retries",1e-4); };
      cmp("start"); if (mask&1) for (auto& m : ms) m.sc.call=0;
      double t=0; for (double len : adv[ai]) { // the scripted engine has one global script: members are advanced one after the other, so its position is carried along
        for (int i=0;i<N;++i) { advance(ms[i],len,seed,prng+i,pos[i]); for (auto& m : ms) m.sc.call=ms[i].sc.call; }
        bool amb=false; for (auto& m : ms) amb|=m.ambiguous; if (amb) return; if (t==0) {vstep::script()=sc;} ens.advance(len,log); vmc::step(N); t+=len; cmp(cat("draws ",seq,", after ",t)); vmc::near(ens.getTime(),t,"common instant",1e-12); if (vmc::failed()) return; }
      std::ostringstream o; ens.streamParameters(o); vmc::check(o.str().find(cat("Ensemble of ",N," trajectories"))!=std::string::npos,"number of trajectories in the header"); }); }); }
  // members do not share state, and no element of the ensemble depends on how often it was asked
  for (int N=1;N<=4;++N) vmc::sequences(3,N,[&](const std::vector<int>& vals){ vmc::scenario(cat("generic/",vals),[&]{ std::vector<Val> ts; for (int x : vals) ts.push_back({1.+x}); cppqedutils::trajectory::Ensemble<Val,ValStr,ValLog> e(std::vector<Val>(ts),ValStr{},ValLog{},0.); std::ostringstream log;
    for (double len : {.3,.05,1.}) { double want=0, dd=0; for (int x : vals) {want+=(1.+x)*(1+e.getTime())/N; dd+=(1.+x)/N;} vmc::near(e.averaged(),want,"mean of the members"); vmc::near(e.averaged(),want,"mean, asked again"); vmc::near(e.getDtDid(),dd,"mean step"); double t=e.getTime(); e.advance(len,log); vmc::step(); vmc::near(e.getTime(),t+len,"time"); } }); });
  return vmc::finish(); }
