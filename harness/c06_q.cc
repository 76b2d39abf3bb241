// C06 (bundles): every option of every parameter bundle, alone and in ordered pairs, with and without module suffix, sets exactly its own field.
#include "Evolution_.h"
#include "QM_Picture.h"
#include "Mode_.h"
#include "BichromaticMode.h"
#include "ParsQbit.h"
#include "ParsParticle.h"
#include "Spin.h"
#include "ParsParticleCavity.h"
#include "JaynesCummings_.h"
#include "DistributionFunctions.h"
#include "HomodynedMode.h"
#include "MultiLevel.h"
#include "MLJC.h"
#include <cctype>
#include "vmc.h"
#include <sys/wait.h>
#include <memory>
using vmc::cat; using std::string; using std::vector;
struct Field {string opt, tok; std::function<string()> get; string want;};
struct Bundle { parameters::Table t; std::shared_ptr<void> obj; vector<Field> f; };
template<typename T> string show(const T& x) {std::ostringstream o; o.precision(12); o<<x; return o.str();}
static string show(bool b) {return b?"1":"0";}
static string show(evolution::Method m) {return m==evolution::SINGLE?"single":m==evolution::ENSEMBLE?"ensemble":m==evolution::MASTER?"master":"?";}
static string show(ModeFunctionType m) {return m==MFT_SIN?"Sin":m==MFT_COS?"Cos":m==MFT_PLUS?"Plus":m==MFT_MINUS?"Minus":"?";}
static string show(const particle::InitialCondition& i) {return cat(i.getX0(),"|",i.getK0(),"|",i.getSig(),"|",i.isInK());}
static vector<string> enumAlternatives;
template<typename P> using Def=std::function<void(Bundle&,P&,const string&)>;
template<typename P> static void bundle(Bundle& b, const string& mod, Def<P> def) { auto p=std::make_shared<P>(b.t,mod); b.obj=p; def(b,*p,mod); }
#define F(option,field,token,expect) b.f.push_back({string(option)+m,token,[&p]{return show(p.field);},expect})

static void evo(Bundle& b, const string& mod) { bundle<evolution::Pars<>>(b,mod,[](Bundle& b, evolution::Pars<>& p, const string& m){
  F("T",T,"3.5","3.5"); F("dc",dc,"7","7"); F("Dt",Dt,".025","0.025"); F("NDt",NDt,"11","11"); F("o",ofn,"file","file"); F("initialFileName",initialFileName,"init","init"); F("precision",precision,"9","9"); F("no_streamInfo",streamInfo,"","0"); F("no_firstStateStream",firstStateStream,"","0"); F("sdf",sdf,"4","4");
  F("autoStopEpsilon",autoStopEpsilon,".5","0.5"); F("autoStopEpsilonAbs",autoStopEpsilonAbs,".25","0.25"); F("autoStopRepetition",autoStopRepetition,"13","13"); F("eps",epsRel,"1e-3","0.001"); F("epsAbs",epsAbs,"1e-4","0.0001"); F("logLevel",logLevel,"2","2"); F("seed",seed,"77","77"); F("prngStream",prngStream,"5","5"); F("no_noise",noise,"","0"); F("nTraj",nTraj,"21","21");
  F("dpLimit",dpLimit,".125","0.125"); F("overshootTolerance",overshootTolerance,"3","3"); F("nBins",nBins,"31","31"); F("nJumpsPerBin",nJumpsPerBin,"17","17"); F("evol",evol,"ensemble","ensemble"); F("evol",evol,"master","master"); F("evol",evol,"single","single"); F("ems",ems,"101","101"); }); }
static void mode_(Bundle& b, const string& mod) { bundle<mode::ParsBichromatic>(b,mod,[](Bundle& b, mode::ParsBichromatic& p, const string& m){
  F("cutoff",cutoff,"5","5"); F("minitFock",minitFock,"2","2"); F("minit",minit,"(1,-2)","(1,-2)"); F("modeStreamLevel",streamLevel,"1","1"); F("deltaC",delta,"-3","-3"); F("omegaKerr",omegaKerr,".5","0.5"); F("omegaKerrAlter",omegaKerrAlter,".75","0.75"); F("eta",eta,"(0,2)","(0,2)"); F("kappa",kappa,"6","6"); F("nTh",nTh,"1.5","1.5"); F("deltaC_Other",deltaOther,"8","8"); F("etaOther",etaOther,"(3,1)","(3,1)"); }); }
static void qbit_(Bundle& b, const string& mod) { using P=qbit::ParsPumpedLossyPhaseNoise; bundle<P>(b,mod,[](Bundle& b, P& p, const string& m){
  F("qbitInit",qbitInit,"(.5,.5)","(0.5,0.5)"); F("deltaA",delta,"4","4"); F("etat",eta,"(1,2)","(1,2)"); F("gamma",gamma,"3","3"); F("gamma_parallel",gamma_parallel,"2","2"); }); }
static void part(Bundle& b, const string& mod) { using P=particle::ParsPumped; bundle<P>(b,mod,[](Bundle& b, P& p, const string& m){
  F("omrec",omrec,"2","2"); F("fin",fin,"4","4"); F("pinit",init,"(0.25,2,0.5,1)",cat(.25,"|",2.,"|",.5,"|",true)); F("HOinitn",hoInitn,"3","3"); F("vClass",vClass,"-4","-4"); F("kPart",kPart,"2","2"); F("modePart",modePart,"Cos","Cos"); F("modePart",modePart,"Plus","Plus"); F("modePart",modePart,"Minus","Minus"); F("modePart",modePart,"Sin","Sin"); }); }
static void spin_(Bundle& b, const string& mod) { using P=spin::Pars; bundle<P>(b,mod,[](Bundle& b, P& p, const string& m){
  F("twoS",twoS,"3","3"); F("spinDim",dim,"2","2"); F("theta",theta,".5","0.5"); F("phi",phi,".25","0.25"); F("omega",omega,"4","4"); F("gamma",gamma,"5","5"); }); }
static void pc(Bundle& b, const string& mod) { using P=particlecavity::ParsAlongGenericPump; bundle<P>(b,mod,[](Bundle& b, P& p, const string& m){
  F("Unot",uNot,"3","3"); F("etaeff",etaeff,"2","2"); F("kCav",kCav,"4","4"); F("modeCav",modeCav,"Cos","Cos"); F("modeCav",modeCav,"Minus","Minus"); F("modeCav",modeCav,"Plus","Plus"); }); }
static void jc(Bundle& b, const string& mod) { using P=jaynescummings::Pars; bundle<P>(b,mod,[](Bundle& b, P& p, const string& m){ F("g",g,"(2,1)","(2,1)"); F("g",g,"3","(3,0)"); }); }
static void scan(Bundle& b, const string& mod) { using P=quantumdata::ParsFunctionScan; bundle<P>(b,mod,[](Bundle& b, P& p, const string& m){
  F("fLimitXUL",fLimitXUL,"3","3"); F("fLimitYUL",fLimitYUL,"4","4"); F("fLimitXL",fLimitXL,"-5","-5"); F("fLimitXU",fLimitXU,"6","6"); F("fLimitYL",fLimitYL,"-7","-7"); F("fLimitYU",fLimitYU,"8","8"); F("fStep",fStep,".5","0.5"); F("fCutoff",fCutoff,"9","9"); }); }

namespace ml=multilevel; using VP=ml::result_of::make_vector<ml::Pump<0,2>,ml::Pump<1,2>>::type; using VL=ml::result_of::make_vector<ml::Decay<0,2>,ml::Decay<1,2>>::type; using VC=ml::result_of::make_vector<Coupling<0,2>,Coupling<1,2>>::type;
template<typename V> static string show2(const V& v) {return show(boost::fusion::at_c<0>(v).get())+";"+show(boost::fusion::at_c<1>(v).get());}
template<int N> static string show(const blitz::TinyVector<double,N>& v) {string r; for (int i=0;i<N;++i) r+=cat(v(i),";"); return r;}
#define F2(option,field,token,expect) b.f.push_back({string(option)+m,token,[&p]{return show2(p.field);},expect})
static void mlevel(Bundle& b, const string& mod) { using P=ml::ParsPumpedLossy<3,VP,VL>; bundle<P>(b,mod,[](Bundle& b, P& p, const string& m){
  F("deltas",deltas,"[1,-2,3.5]","1;-2;3.5;"); F2("etas",etas,"[(1,2),(3,-4)]","(1,2);(3,-4)"); F2("gammas",gammas,"[.5,.25]","0.5;0.25"); F("gamma_parallel",gamma_parallel,"2","2"); F("gamma_parallel_vector",gamma_parallel_vector,"[.5,.25,.125]","0.5;0.25;0.125;"); }); }
static void mljc_(Bundle& b, const string& mod) { using P=mljc::Pars<VC>; bundle<P>(b,mod,[](Bundle& b, P& p, const string& m){ F2("gs",gs,"[(1,2),(3,-4)]","(1,2);(3,-4)"); }); }
static void homo(Bundle& b, const string& mod) { using P=mode::ParsHomodyned<mode::ParsPumpedLossy>; bundle<P>(b,mod,[](Bundle& b, P& p, const string& m){
  F("homodyneAmplitude",homodyneAmplitude,"(1,-2)","(1,-2)"); F("cutoff",cutoff,"5","5"); F("eta",eta,"(0,2)","(0,2)"); F("kappa",kappa,"6","6"); F("nTh",nTh,"1.5","1.5"); F("deltaC",delta,"-3","-3"); F("minit",minit,"4","(4,0)"); }); }
static void lossy(Bundle& b, const string& mod) { using P=mode::ParsLossy; bundle<P>(b,mod,[](Bundle& b, P& p, const string& m){ F("cutoff",cutoff,"5","5"); F("kappa",kappa,"6","6"); F("nTh",nTh,"1.5","1.5"); F("omegaKerr",omegaKerr,"2","2"); F("minitFock",minitFock,"3","3"); }); }
static void pumped(Bundle& b, const string& mod) { using P=mode::ParsPumped; bundle<P>(b,mod,[](Bundle& b, P& p, const string& m){ F("cutoff",cutoff,"5","5"); F("eta",eta,"(6,1)","(6,1)"); F("omegaKerrAlter",omegaKerrAlter,"2","2"); }); }
static void qlossy(Bundle& b, const string& mod) { using P=qbit::ParsLossyPhaseNoise<>; bundle<P>(b,mod,[](Bundle& b, P& p, const string& m){ F("deltaA",delta,"5","5"); F("gamma",gamma,"6","6"); F("gamma_parallel",gamma_parallel,"2","2"); F("qbitInit",qbitInit,".5","(0.5,0)"); }); }
static void orth(Bundle& b, const string& mod) { using P=particlecavity::ParsOrthogonalGenericPump; bundle<P>(b,mod,[](Bundle& b, P& p, const string& m){ F("Unot",uNot,"3","3"); F("etaeff",etaeff,"2","2"); }); }
static void parse(parameters::Table& t, const vector<string>& w) {vector<string> s{"prog"}; for (auto& x : w) s.push_back(x); vector<char*> a; for (auto& x : s) a.push_back(&x[0]); a.push_back(nullptr); parameters::update(t,s.size(),a.data());}
static vector<string> words(const Field& f) {vector<string> r{"--"+f.opt}; if (!f.tok.empty()) r.push_back(f.tok); return r;}
static bool refused(std::function<void()> f) { int p[2]; if (pipe(p)) return false; pid_t c=fork(); if (!c) {alarm(20); dup2(p[1],2); dup2(p[1],1); close(p[0]); f(); _exit(77);} close(p[1]); char b[4096]; while (read(p[0],b,4096)>0); close(p[0]); int st; waitpid(c,&st,0); return !(WIFEXITED(st) && (WEXITSTATUS(st)==77||WEXITSTATUS(st)==0)) && !(WIFSIGNALED(st) && WTERMSIG(st)==SIGALRM); }

int main(int argc, char** argv) { vmc::init(argc,argv);
  struct Maker {string name; void (*make)(Bundle&,const string&);};
  for (auto& mk : vector<Maker>{{"evolution",evo},{"mode",mode_},{"qbit",qbit_},{"particle",part},{"spin",spin_},{"particlecavity",pc},{"jaynescummings",jc},{"scan",scan},{"multilevel",mlevel},{"mljc",mljc_},{"homodyned",homo},{"lossy mode",lossy},{"pumped mode",pumped},{"lossy qbit",qlossy},{"orthogonal",orth}}) for (string mod : {"","2","_xy"}) {
    int n; {Bundle b; mk.make(b,mod); n=b.f.size();}
    for (int i=-1;i<n;++i) vmc::scenario(cat(mk.name,mod,"/",i),[&]{ for (int j=-1;j<n;++j) { vmc::step(); Bundle b; mk.make(b,mod); vector<string> before, w; for (auto& x : b.f) before.push_back(x.get());
      std::map<string,string> want; for (int k : {i,j}) if (k>=0) {for (auto& x : words(b.f[k])) w.push_back(x); want[b.f[k].opt]=b.f[k].want;}
      parse(b.t,w); string line; for (auto& x : w) line+=x+" "; vmc::state(line);
      for (int k=0;k<n;++k) vmc::same(b.f[k].get(),want.count(b.f[k].opt)?want[b.f[k].opt]:before[k],cat(mk.name," parameter ",b.f[k].opt," after \"",line,"\"")); }
      // the same bundle under the other module name does not react, and a wrong value or name is refused
      if (i>=0) { Bundle b; mk.make(b,mod); if (mod.size()) vmc::check(refused([&]{ parse(b.t,{"--"+b.f[i].opt.substr(0,b.f[i].opt.size()-mod.size()),b.f[i].tok.empty()?"":b.f[i].tok}); }),"option of another module accepted");
        if (!b.f[i].tok.empty() && mk.name+b.f[i].opt!="evolutiono"+mod && b.f[i].opt!="initialFileName"+mod) vmc::check(refused([&]{parse(b.t,{"--"+b.f[i].opt,"wrong"});}),[&]{return cat("wrong value accepted for ",b.f[i].opt);}); } }); }
  // names are matched exactly: shortened, extended, case-changed and module-shifted names are refused unless they name another parameter
  for (auto& mk : vector<Maker>{{"evolution",evo},{"mode",mode_},{"qbit",qbit_},{"particle",part},{"spin",spin_},{"particlecavity",pc},{"scan",scan},{"multilevel",mlevel}}) for (string mod : {"","2","_xy"}) vmc::scenario(cat("exact names/",mk.name,mod),[&]{ Bundle b0; mk.make(b0,mod); for (auto& f : b0.f) { vector<string> alt{f.opt.substr(0,f.opt.size()-1),f.opt+"x",f.opt+"2",f.opt+mod+"_","_"+f.opt,"no_"+f.opt,"no"+f.opt}; string c=f.opt; for (char& ch : c) ch=std::islower((unsigned char)ch)?std::toupper(ch):std::tolower(ch); alt.push_back(c); c=f.opt; c[0]=std::islower((unsigned char)c[0])?std::toupper(c[0]):std::tolower(c[0]); alt.push_back(c);
    for (auto& a : alt) { if (a.empty() || a=="no") continue; bool exists=false; for (auto& g : b0.f) {if (g.opt==a || "no_"+a==g.opt || a=="no_"+g.opt) exists=exists||g.opt==a||g.tok.empty();} if (exists) continue; vmc::step(); vmc::check(refused([&]{Bundle b; mk.make(b,mod); vector<string> w{"--"+a}; if (!f.tok.empty()) w.push_back(f.tok); parse(b.t,w);}),[&]{return cat("--",a," accepted where there is only --",f.opt);}); } } });
  // long command lines: every parameter of the bundle set, in order, reversed, and twice
  for (auto& mk : vector<Maker>{{"evolution",evo},{"mode",mode_},{"qbit",qbit_},{"particle",part},{"multilevel",mlevel}}) for (int v=0;v<3;++v) vmc::scenario(cat("all options/",mk.name,"/",v),[&]{ vmc::step(); Bundle b; mk.make(b,""); vector<Field> l=b.f; if (v==1) std::reverse(l.begin(),l.end()); if (v==2) {auto k=l; std::reverse(k.begin(),k.end()); l.insert(l.begin(),k.begin(),k.end());} vector<string> w; std::map<string,string> want; for (auto& f : l) {for (auto& x : words(f)) w.push_back(x); want[f.opt]=f.want;} parse(b.t,w); for (auto& f : b.f) vmc::same(f.get(),want[f.opt],f.opt+" after a command line setting everything"); });
  // the defaults in force when the command line is empty
  for (auto& [mk,want] : vector<std::pair<Maker,string>>{{{"evolution",evo},"T=1 dc=10 Dt=0.1 NDt=0 o= initialFileName= precision=6 no_streamInfo=1 no_firstStateStream=1 sdf=0 autoStopEpsilon=1e-06 autoStopEpsilonAbs=1e-12 autoStopRepetition=0 eps=1e-06 epsAbs=1e-12 logLevel=0 seed=1001 prngStream=1 no_noise=1 nTraj=500 dpLimit=0.01 overshootTolerance=10 nBins=0 nJumpsPerBin=50 evol=single evol=single evol=single ems=000 "},
    {{"mode",mode_},"cutoff=10 minitFock=0 minit=(0,0) modeStreamLevel=0 deltaC=-10 omegaKerr=0 omegaKerrAlter=0 eta=(0,0) kappa=10 nTh=0 deltaC_Other=0 etaOther=(0,0) "},
    {{"qbit",qbit_},"qbitInit=(0,0) deltaA=-10 etat=(0,0) gamma=10 gamma_parallel=0 "},
    {{"particle",part},"omrec=1 fin=6 pinit=-0.5|0|0.10000000000000001|false HOinitn=-1 vClass=-10 kPart=1 modePart=Sin modePart=Sin modePart=Sin modePart=Sin "},
    {{"spin",spin_},"twoS=1 spinDim=0 theta=0 phi=0 omega=1 gamma=1 "},
    {{"particlecavity",pc},"Unot=-1 etaeff=0 kCav=1 modeCav=Sin modeCav=Sin modeCav=Sin "},
    {{"jaynescummings",jc},"g=(1,0) g=(1,0) "},
    {{"scan",scan},"fLimitXUL=2 fLimitYUL=2 fLimitXL=-2 fLimitXU=2 fLimitYL=-2 fLimitYU=2 fStep=0.1 fCutoff=100 "},
    {{"multilevel",mlevel},"deltas=0;0;0; etas=(0,0);(0,0) gammas=0;0 gamma_parallel=0 gamma_parallel_vector=0;0;0; "},
    {{"mljc",mljc_},"gs=(0,0);(0,0) "},
    {{"homodyned",homo},"homodyneAmplitude=(0,0) cutoff=10 eta=(0,0) kappa=10 nTh=0 deltaC=-10 minit=(0,0) "}}) for (string mod : {"","2"}) vmc::scenario(cat("defaults/",mk.name,mod),[&]{ vmc::step(); Bundle b; mk.make(b,mod); parse(b.t,{}); string l; for (auto& f : b.f) l+=f.opt.substr(0,f.opt.size()-mod.size())+"="+f.get()+" "; vmc::state(l); vmc::same(l,want,"defaults of "+mk.name); });
  // defaults derived from other parameters
  vmc::scenario("derived defaults",[&]{ parameters::Table t; mode::ParsPumpedLossy m(t); vmc::same(m.kappa,-m.delta,"kappa default"); qbit::ParsPumpedLossy p(t,"q"); vmc::same(p.gamma,std::abs(p.delta),"gamma default"); vmc::check(vmc::throwsAny([&]{mode::ParsPumpedLossy again(t);}),"registering the same bundle twice"); mode::ParsPumpedLossy other(t,"2"); vmc::step(); });
  // picture selection
  for (string pic : {"","IP","UIP","Sch"}) for (string ev : {"","single","ensemble","master"}) for (bool hasEvol : {true,false}) for (bool first : {true,false}) vmc::scenario(cat("picture=",pic," evol=",ev," has=",hasEvol," first=",first),[&]{ if (!hasEvol && ev!="") return; vmc::step();
    parameters::Table t; std::unique_ptr<evolution::Pars<>> p; if (hasEvol) p.reset(new evolution::Pars<>(t)); vector<string> w{"prog"}; auto P=[&]{if (pic!="") {w.push_back("--picture"); w.push_back(pic);}}; if (first) P(); if (ev!="") {w.push_back("--evol"); w.push_back(ev);} if (!first) P();
    vector<char*> a; for (auto& x : w) a.push_back(&x[0]); a.push_back(nullptr); QM_Picture& q=picture::updateWithPicture(t,w.size(),a.data());
    QM_Picture want=pic=="Sch"?QMP_SCH:pic=="UIP"?QMP_UIP:QMP_IP; if (ev=="master" && want==QMP_IP) want=QMP_UIP; vmc::same(int(q),int(want),"picture"); });
  vmc::scenario("picture=wrong",[&]{vmc::step(); vmc::check(refused([&]{parameters::Table t; string w[3]={"prog","--picture","sch"}; char* a[4]={&w[0][0],&w[1][0],&w[2][0],nullptr}; picture::updateWithPicture(t,3,a);}),"wrong picture accepted");});
  return vmc::finish(); }
