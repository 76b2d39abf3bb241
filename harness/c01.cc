// C01: the run schedule. Every combination of run settings x step scripts x (sequences of) runs, real run loop vs schedule model.
#include "mocktraj.h"
using namespace mock; using vmc::cat;

struct Cfg {double T; int dc; double Dt; long NDt; unsigned sdf; bool info; bool first; bool toFile; bool doStreaming;};
static std::string id(const Cfg& c) {return cat("T=",c.T,",dc=",c.dc,",Dt=",c.Dt,",NDt=",c.NDt,",sdf=",(int)c.sdf,",info=",(int)c.info,",first=",(int)c.first,",file=",(int)c.toFile,",str=",(int)c.doStreaming);}

// the model: which instants are printed, given the times of the adaptive steps (hist) that the run performed.
// returns false in `rejected`, number of scheduled lines, whether the last line is end-only
struct Expect {bool rejected=false; std::vector<double> times; bool lastUnscheduled=false; double end=0; bool nothing=false; bool header=true;};

template<bool CANSTEP> Expect model(const Cfg& c, double t0, const std::vector<double>& hist) {
  Expect e; bool dcMode=CANSTEP && c.dc;
  if (!dcMode && !c.Dt) {e.rejected=true; return e;}
  double end=(!dcMode && c.NDt) ? t0+c.NDt*c.Dt : c.T;
  e.end=end;
  if (end && end<=t0) {e.nothing=true; e.end=t0; return e;}
  if (!end) {e.times={t0}; e.end=t0; return e;}
  e.times.push_back(t0);
  if (dcMode) { for (std::size_t i=0;i<hist.size();++i) if ((i+1)%c.dc==0) e.times.push_back(hist[i]);
    if (hist.size()%c.dc) {e.times.push_back(hist.back()); e.lastUnscheduled=true;} }
  else if (c.NDt) for (long i=0;i<c.NDt;++i) e.times.push_back(e.times.back()+c.Dt);
  else while (e.times.back()<c.T) e.times.push_back(e.times.back()+std::min(c.Dt,c.T-e.times.back()));
  return e; }

template<typename TR, bool CANSTEP, typename Get> void runOne(TR& traj, Get get, const Cfg& c, int precision, const std::string& fn, bool exactTimes) {
  parameters::Table tab; cppqedutils::trajectory::Pars<> p(tab);
  p.T=c.T; p.dc=c.dc; p.Dt=c.Dt; p.NDt=c.NDt; p.sdf=c.sdf; p.streamInfo=c.info; p.firstStateStream=c.first; p.precision=precision;
  if (c.toFile) {p.ofn=fn; rm(fn); rm(fn+".state");}
  Stepping& s=get(traj); s.hist.clear(); double t0=s.t; long n0=s.nSteps; double acc0=s.acc; long str0=s.nStreamed;
  cppqedutils::trajectory::TemporalStreamedArray<DArray<1>> res; bool threw=false; std::string out;
  { CaptureCout cap; try {res=cppqedutils::run(traj,p,c.doStreaming,true);} catch (const std::runtime_error&) {threw=true;} out=cap.str(); }
  Expect e=model<CANSTEP>(c,t0,s.hist);
  vmc::same(threw,e.rejected,"rejection of settings without a streaming interval");
  if (threw || e.rejected) {vmc::same(s.t,t0,"rejected run must not evolve"); return;}
  if (c.toFile) {vmc::check(out.empty(),"file-backed run printed to standard output"); out=slurp(fn);}
  Output o=parse(out);
  if (e.nothing) {vmc::check(out.empty() && res.empty() && s.nSteps==n0 && s.t==t0,"run already at its end must do nothing"); return;}
  bool visible=c.toFile || c.doStreaming;
  // end time
  if (exactTimes) vmc::same(s.t,e.end,"time after the run"); else vmc::near(s.t,e.end,"time after the run",1e-15);
  vmc::state(cat(s.t,s.nSteps,s.acc));
  vmc::same((long)s.nStreamed-str0,(long)e.times.size(),"number of times the state was streamed");
  if (visible) {
    vmc::check(o.bad.empty(),[&]{return "unparsable uncommented line: "+(o.bad.empty()?"":o.bad[0]);});
    if (vmc::same(o.data.size(),e.times.size(),"number of data lines")) { std::size_t hi=0; long n=n0; double acc=acc0, prev=t0, last=0;
      for (std::size_t i=0;i<e.times.size();++i) { auto& v=o.data[i].v;
        if (!vmc::same(v.size(),std::size_t(4),"columns in a data line")) break;
        if (!vmc::near(v[0],e.times[i],[&]{return cat("time of line ",(int)i);},exactTimes?1e-12:1e-9)) break;
        // the values printed belong to that instant: number of steps done by then
        for (; hi<s.hist.size() && s.hist[hi]<=e.times[i]; ++hi) {++n; last=s.hist[hi]-prev; acc+=n*last; prev=s.hist[hi];}
        if (exactTimes) {vmc::near(v[2],double(n),"step count printed"); vmc::near(v[3],acc,"accumulated value printed",1e-9);}
        if (i>0) {if (exactTimes) vmc::near(v[1],last,"dtDid printed",1e-9);} } }
    vmc::same(commentsContaining(o,"step log")>0, !s.hist.empty() && s.logs, "step log appears as comments");
    if (c.info && e.times.size()>0) {
      vmc::same(commentsContaining(o,"Mock trajectory"),1l,"header lines"); vmc::same(commentsContaining(o,"second line of parameters"),1l,"second header line");
      vmc::same(commentsContaining(o,"3. nSteps"),1l,"key in header"); vmc::same(commentsContaining(o,"1. time"),1l,"time key"); vmc::same(commentsContaining(o,"2. dtDid"),1l,"dtDid key"); }
    if (!c.info) vmc::same(commentsContaining(o,"Mock trajectory"),0l,"no header requested");
    if (e.end!=t0 || e.times.size()>1) vmc::same(commentsContaining(o,"mock log on end"),1l,"log on end, commented");
  } else vmc::check(out.empty(),"streaming was disabled but something was printed");
  // in-memory record: mirrors the scheduled lines (an extra final end-only line may or may not be included; a zero-length run may record nothing)
  if (e.end!=t0) {
    std::size_t nsched=e.times.size()-(e.lastUnscheduled?1:0);
    if (vmc::check(res.size()==nsched || res.size()==e.times.size(),[&]{return cat("records returned: ",res.size(),", lines scheduled ",nsched);})) {
      std::size_t i=0; for (auto& [t,dt,a] : res) { vmc::near(t,e.times[i],"time in returned record",1e-12);
        if (visible && i<o.data.size() && o.data[i].v.size()==4) {vmc::near(dt,o.data[i].v[1],"dtDid in returned record",1e-8); vmc::near(a(0),o.data[i].v[2],"value in returned record",1e-8); vmc::near(a(1),o.data[i].v[3],"value in returned record",1e-8);} ++i; } } }
  // state file (content is decided by C02): as many records as scheduled
  if (c.toFile && e.end!=t0) vmc::check(exists(fn+".state"),"no state file written");
  if (c.toFile) {rm(fn); rm(fn+".state");}
}

// a real ODE trajectory that also records its step history
struct RealSim : Simulated<DArray<1>,std::function<void(const DArray<1>&,DArray<1>&,double)>,ODE_EngineBoost<DArray<1>>> {
  using Base=Simulated<DArray<1>,std::function<void(const DArray<1>&,DArray<1>&,double)>,ODE_EngineBoost<DArray<1>>>;
  using Base::Base; std::vector<double> hist;
  void step(double dT, std::ostream& os) {Base::step(dT,os); hist.push_back(getTime()); vmc::step();}
};
template<> struct cppqedutils::trajectory::MakeSerializationMetadata<RealSim> {static auto _() {return SerializationMetadata{"DArray","RealSim",1};}};

int main(int argc, char** argv) {
  vmc::init(argc,argv); const bool th=vmc::thorough();
  const std::string fn="c01_out";
  std::vector<std::vector<double>> scripts;
  std::vector<double> sizes={.125,.375,1.};
  vmc::sequences(3,2,[&](auto& s){scripts.push_back({sizes[s[0]],sizes[s[1]]});});
  if (th) vmc::sequences(3,3,[&](auto& s){scripts.push_back({sizes[s[0]],sizes[s[1]],sizes[s[2]]});});
  std::vector<double> Ts={0.,.25,.625,1.,1.125,-1.}, Dts={0.,.125,.25,.375,.5,1.,2.}; if (th) {Ts.push_back(2.375); Dts.push_back(.625);}
  std::vector<int> dcs={0,1,2,3,5}; std::vector<long> NDts={0,1,2,5,-2};
  auto get1=[](Stepping& s)->Stepping& {return s;}; auto get2=[](Advancing& a)->Stepping& {return a.s;};
  // 1. single fresh runs: the full product of settings
  for (auto& sc : scripts) for (double T : Ts) for (int dc : dcs) for (double Dt : Dts) for (long NDt : NDts) {
    if (dc && (Dt==.25||Dt==.5||Dt==2.) && !th) continue; // Dt is irrelevant in dc mode: keep a few values only
    for (int v=0; v<6; ++v) {
      // variants: header, file/stdout/disabled, state frequency
      Cfg c{T,dc,Dt,NDt,v==3?1u:v==4?2u:0u,v!=1,v!=4,v>=2&&v<=4,v!=5};
      if (v>0 && &sc!=&scripts[0] && &sc!=&scripts[5] && !th) continue;
      vmc::scenario(cat("single/script=",vmc::str(sc),"/",id(c),"/stepping"),[&]{Stepping tr; tr.script=sc; runOne<Stepping,true>(tr,get1,c,10,fn,true);});
      if (dc<=1) vmc::scenario(cat("single/script=",vmc::str(sc),"/",id(c),"/advancing"),[&]{Advancing tr; tr.s.script=sc; runOne<Advancing,false>(tr,get2,c,10,fn,true);});
    } }
  // 2. histories: sequences of runs on the same object (initial times other than zero)
  { std::vector<Cfg> al; for (double T : {.25,.625,1.125}) {al.push_back({T,2,.25,0,0,true,true,false,true}); al.push_back({T,0,.375,0,0,false,true,false,true});}
    al.push_back({.625,0,.25,2,0,true,true,false,true}); al.push_back({.625,3,.25,2,0,true,true,true,true}); al.push_back({0.,0,.25,0,0,false,true,false,true}); al.push_back({1.,0,0.,0,0,true,true,false,true});
    for (auto& sc : {std::vector<double>{.125,1.},std::vector<double>{.375,.125,.125}}) for (int len=2; len<=(th?4:3); ++len) vmc::sequences((int)al.size(),len,[&](const std::vector<int>& s){
      std::string n; for (int i : s) n+=cat(".",i);
      vmc::scenario(cat("history/script=",vmc::str(sc),"/runs",n),[&]{Stepping tr; tr.script=sc; for (int i : s) {runOne<Stepping,true>(tr,get1,al[i],10,fn,true); if (vmc::failed()) break;}}); }); }
  // 2b. long runs: many lines, many steps between lines, late start times; nothing may depend on the length of the run
  { struct L {double t0; Cfg c; double big;}; std::vector<L> ls;
    for (bool file : {false,true}) for (double t0 : {0.,4096.}) {
      ls.push_back({t0,{t0+40.,0,.125,0,0,true,true,file,true},.375}); ls.push_back({t0,{1.,0,.125,1100,file?100u:0u,true,true,file,true},.375}); ls.push_back({t0,{t0+200.,7,0.,0,0,true,true,file,true},.375});
      ls.push_back({t0,{t0+200.,300,0.,0,0,true,true,file,true},.125}); ls.push_back({t0,{t0+512.,64,0.,0,0,false,true,file,true},1.}); ls.push_back({t0,{t0+128.,0,16.,0,0,true,true,file,true},.125}); ls.push_back({t0,{t0+1000.,5000,0.,0,0,true,true,file,true},.375}); }
    ls.push_back({0.,{1.,0,.125,70000,0,true,true,false,true},.125}); ls.push_back({0.,{9000.,1,0.,0,0,true,true,false,true},.125});
    for (auto& l : ls) vmc::scenario(cat("long/t0=",l.t0,"/",id(l.c),"/step=",l.big),[&]{Stepping tr; tr.t=l.t0; tr.logs=false; tr.script={l.big}; runOne<Stepping,true>(tr,get1,l.c,12,fn,true);}); }
  // 3. non-dyadic intervals (accumulation), precisions
  for (int prec : {0,1,6,8,12}) for (double Dt : {.3,.7,.1}) for (long NDt : {0l,7l}) for (double T : {1.,2.}) { if (Dt==.1 && !NDt) continue;
    Cfg c{T,0,Dt,NDt,0,true,true,false,true};
    vmc::scenario(cat("nondyadic/prec=",prec,"/",id(c)),[&]{Stepping tr; tr.script={.05,.17}; tr.logs=false;
      parameters::Table tab; cppqedutils::trajectory::Pars<> p(tab); p.T=T; p.dc=0; p.Dt=Dt; p.NDt=NDt; p.precision=prec;
      std::string out; {CaptureCout cap; cppqedutils::run(tr,p); out=cap.str();}
      Expect e=model<true>(c,0.,tr.hist); Output o=parse(out);
      vmc::near(tr.t,e.end,"final time",1e-15);
      vmc::check(o.bad.empty(),"bad lines");
      if (vmc::same(o.data.size(),e.times.size(),"number of lines")) for (std::size_t i=0;i<e.times.size();++i) vmc::near(o.data[i].v[0],e.times[i],"time",5*std::pow(10.,-std::max(prec,6))); }); }
  // 4. a real adaptive integrator under the run loop
  for (double T : {.7,1.,3.}) for (int dc : {0,1,3,10}) for (double Dt : {.05,.3,1.}) for (long NDt : {0l,3l}) {
    Cfg c{T,dc,Dt,NDt,0,true,true,false,true};
    vmc::scenario("real/"+id(c),[&]{
      DArray<1> y(2); y=1.,0.;
      RealSim tr(y,[](const DArray<1>& y, DArray<1>& d, double){d(0)=y(1); d(1)=-y(0);},std::initializer_list<std::string>{"x","v"},ODE_EngineBoost<DArray<1>>(.01,0,1e-6,1e-9));
      parameters::Table tab; cppqedutils::trajectory::Pars<> p(tab); p.T=T; p.dc=dc; p.Dt=Dt; p.NDt=NDt; p.precision=10;
      std::string out; {CaptureCout cap; cppqedutils::run(tr,p); out=cap.str();}
      Expect e=model<true>(c,0.,tr.hist); Output o=parse(out);
      vmc::near(tr.getTime(),e.end,"final time",1e-15); vmc::check(o.bad.empty(),"bad lines");
      if (vmc::same(o.data.size(),e.times.size(),"number of lines")) for (std::size_t i=0;i<e.times.size();++i) {
        vmc::near(o.data[i].v[0],e.times[i],"time",1e-9); if (vmc::same(o.data[i].v.size(),std::size_t(4),"columns")) {
        vmc::near(o.data[i].v[2],std::cos(e.times[i]),"x at that instant",1e-4); vmc::near(o.data[i].v[3],-std::sin(e.times[i]),"v at that instant",1e-4); } } }); }
  return vmc::finish();
}
