// C03: every truncation point of state files (plain, compressed, appended by several runs) and every writer/reader pair of trajectory kinds.
#include "Evolution_.h"
#include "statefile.h"
#include "qharness.h"
#include "ODE_GSL.h"
#include <sys/stat.h>
using namespace q; using vmc::cat; using namespace mock;
using D1=DArray<1>; using C1=CArray<1>; using D2=DArray<2>;

struct Case {std::string name, text; std::vector<std::string> recs; std::vector<std::pair<std::size_t,std::size_t>> bounds;}; // bounds: (prefix length, records complete there)
static std::size_t complete(const Case& c, std::size_t L) {std::size_t k=0; for (auto& b : c.bounds) if (b.first<=L) k=b.second; return k;}

// what a fresh trajectory makes of the prefix: as continuation or as initial condition
template<typename MK> void prefixes(const std::string& nm, const Case& c, MK mk, std::size_t stride) {
  for (int mode=0;mode<2;++mode) for (std::size_t blk=0;blk<=c.text.size();blk+=64) vmc::scenario(cat("torn/",nm,"/",c.name,mode?"/initial":"/continue","/prefix-block=",blk),[&]{
    for (std::size_t L=blk; L<std::min(blk+64,c.text.size()+1); ++L) { if (stride>1 && L%stride && complete(c,L)==complete(c,L?L-1:0)) continue; vmc::step();
      std::size_t k=complete(c,L); bool boundary=false; for (auto& b : c.bounds) if (b.first==L) boundary=true; if (!L) boundary=true;
      parameters::Table tab; evolution::Pars<> p(tab); auto o=mk(p); auto before=sf::snapshot(*o); bool threw=false;
      std::string out="out"; sf::wipe(out); mock::spit(mode?"ini.state":"out.state",c.text.substr(0,L)); if (!mode) mock::spit(out,"# previous output\n");
      p.ofn=mode?"":out; p.initialFileName=mode?"ini.state":""; p.T=1e-9; p.dc=0; p.Dt=1.; p.streamInfo=false;
      { CaptureCout cap; try {cppqedutils::run(*o,p);} catch (const std::exception&) {threw=true;} }
      if (threw) { vmc::check(!boundary || k==0,[&]{return cat("prefix of ",L," bytes, ending exactly after ",k," complete snapshots, is refused");}); vmc::state("refused"); if (!mode) vmc::check(mock::slurp(out)=="# previous output\n","refused state file, but output was written"); continue; }
      if (k==0) { vmc::check(boundary,[&]{return cat("prefix of ",L," bytes without any complete snapshot is accepted silently");}); continue; }
      vmc::state(cat("restored ",k)); auto got=sf::snapshot(*o);
      if (!vmc::check(got==c.recs[k-1],[&]{ std::string w="data that was never saved"; for (std::size_t i=0;i<c.recs.size();++i) if (got==c.recs[i]) w=cat("snapshot ",i+1); if (got==before) w="nothing"; return cat("prefix of ",L," bytes with ",k," complete snapshots restores ",w);})) break; } }); }

template<typename T> auto sys(int mask, const Dims& d) { Tables t; int n=total(d); M h=genH(n,1), j=.5*genM(n,2); t.H=[=](double,double){return h;}; t.U=[=](double a, double b){return eye(n);}; t.J={[=](double){return j;}}; t.A={genH(n,3)}; return t; }
template<int R> auto whole(const Dims& d) {return makeWhole<R>(13,d,sys<int>(13,d));}
template<int R> auto mkMaster(const Dims& d) {return [d](auto& p){ using Eng=cppqedutils::ODE_EngineBoost<quantumdata::DensityOperatorLow<R>>; using T=Master<R,Eng>; auto s=whole<R>(d); return std::make_unique<T>(s,dop<R>(genRho(total(d),7),d),Eng(initialTimeStep<R>(s),p),0);}; }
template<int R> auto mkMCWF(const Dims& d) {return [d](auto& p){ using Eng=cppqedutils::ODE_EngineBoost<quantumdata::StateVectorLow<R>>; using T=MCWF_Trajectory<R,Eng,pcg64>; auto s=whole<R>(d); return std::make_unique<T>(mcwf::make<Eng,pcg64>(s,sv<R>(genV(total(d),8),d),p));}; }
template<int R> auto mkEns(const Dims& d, int members=2) {return [d,members](auto& p){ p.nTraj=members; p.prngStream=1; using Eng=cppqedutils::ODE_EngineBoost<quantumdata::StateVectorLow<R>>; auto s=whole<R>(d); auto e=mcwf::makeEnsemble<Eng,pcg64,tmptools::V_Empty>(s,sv<R>(genV(total(d),8),d),p,0); return std::make_unique<decltype(e)>(std::move(e));}; }
template<typename ENG, typename St> auto mkSim(const St& z) {return [z](auto& p){ using F=std::function<void(const St&,St&,double)>; F f=[](const St& y, St& d, double t){d=-y;}; using T=cppqedutils::Simulated<St,F,ENG>; return std::make_unique<T>(T(St(z.copy()),f,{},ENG(.01,p)));}; }

template<typename MK> std::vector<std::string> makeRecords(MK mk, double T, double Dt) { // records of a genuine run
  parameters::Table tab; evolution::Pars<> p(tab); auto o=mk(p); sf::wipe("w"); sf::Set s{T,0,Dt,0,1,false,""}; sf::go(*o,p,s,"w"); auto r=sf::records("w.state"); sf::wipe("w"); return r; }

template<typename MK> void torn(const std::string& nm, MK mk, std::size_t stride) {
  auto recs=makeRecords(mk,.9,.3); // 3 records
  { Case c{"plain","",recs,{}}; for (std::size_t i=0;i<recs.size();++i) {c.text+=std::to_string(recs[i].size())+recs[i]; c.bounds.push_back({c.text.size(),i+1});} prefixes(nm,c,mk,stride); }
  { Case c{"compressed","",recs,{}}; sf::writeZ("z",sf::join(recs,recs.size())); c.text=mock::slurp("z"); c.bounds={{c.text.size(),recs.size()}}; prefixes(nm,c,mk,1); }
  { Case c{"compressed-two-runs","",recs,{}}; sf::writeZ("z",sf::join(recs,2)); std::size_t l1=mock::slurp("z").size(); {auto o=cppqedutils::trajectory::openStateFileWriting("z"); *o<<std::to_string(recs[2].size())<<recs[2];} c.text=mock::slurp("z"); c.bounds={{l1,2},{c.text.size(),3}}; prefixes(nm,c,mk,1); }
}

struct Any { std::string name; std::string record; std::function<bool(const std::string&)> accepts; std::string meta; std::function<bool(const std::string&)> starts; };
template<typename MK> Any any(const std::string& name, MK mk, bool keeps=true) { parameters::Table tab; evolution::Pars<> p(tab); auto o=mk(p); using T=std::decay_t<decltype(*o)>; auto m=cppqedutils::trajectory::MakeSerializationMetadata<T>::_();
  return {name,sf::snapshot(*o),[mk,keeps](const std::string& r){ parameters::Table tab; evolution::Pars<> p(tab); auto o=mk(p); auto before=sf::snapshot(*o); mock::spit("for.state",std::to_string(r.size())+r); p.initialFileName="for.state"; p.ofn=""; p.T=1e-3; p.dc=0; p.Dt=1.; CaptureCout cap;
    try {cppqedutils::run(*o,p);} catch (const std::exception&) {if (keeps) vmc::check(sf::snapshot(*o)==before,"the state changed although the record was refused"); return false;} return true; },m.typeID+"|"+m.trajectoryID+"|"+std::to_string(m.rank),
    [mk](const std::string& f){ parameters::Table tab; evolution::Pars<> p(tab); auto o=mk(p); auto before=sf::snapshot(*o); p.initialFileName=f; p.ofn=""; p.T=1e-3; p.dc=0; p.Dt=1.; CaptureCout cap;
    try {cppqedutils::run(*o,p);} catch (const std::exception&) {vmc::check(sf::snapshot(*o)==before,"the state changed although the file was refused"); return false;} return true; }}; }

template<typename Arr> std::string arrayOnly(const Arr& a, int rank, const std::string& type="") { std::ostringstream oss(std::ios_base::binary); {cppqedutils::oarchive ar(oss); cppqedutils::trajectory::SerializationMetadata m(type.empty() ? std::string(std::is_same_v<typename Arr::T_numtype,double> ? "DArray" : "CArray") : type,cppqedutils::trajectory::SerializationMetadata::ARRAY_ONLY,rank); ar & m; Arr b(a.copy()); ar & b;} return oss.str(); }

// the same record under another label: what follows the metadata is kept byte by byte
static std::string relabelled(const std::string& rec, std::function<void(cppqedutils::trajectory::SerializationMetadata&)> f) { std::istringstream iss(rec,std::ios_base::binary); cppqedutils::trajectory::SerializationMetadata m; {cppqedutils::iarchive ar(iss); ar & m;} auto tail=rec.substr(size_t(iss.tellg())); f(m); std::ostringstream oss(std::ios_base::binary); {cppqedutils::oarchive ar(oss); ar & m;} return oss.str()+tail; }

int main(int argc, char** argv) {
  vmc::init(argc,argv); const bool th=vmc::thorough();
  vstub::script()=[](uint64_t seed, uint64_t stream, uint64_t pos, uint64_t& out){ out=uint64_t((pos%3?.9:.002)*18446744073709551615.); return true; };
  D1 d(2); d=1.,-.5; C1 cc(2); cc=dcomp(1.,.25),dcomp(0.,-.5);
  using EB=cppqedutils::ODE_EngineBoost<D1>; using EC=cppqedutils::ODE_EngineBoost<C1>; using EG=cppqedutils::ODE_EngineGSL<D1>;
  auto step=[](auto& p){auto o=std::make_unique<Stepping>(); o->script={.125,.375}; return o;}; auto adv=[](auto& p){auto o=std::make_unique<Advancing>(); o->s.script={.125,.375}; return o;};
  torn("stepping",step,1); torn("advancing",adv,th?1:3); torn("simulated-real",mkSim<EB>(d),1); torn("simulated-complex",mkSim<EC>(cc),th?1:3); torn("simulated-gsl",mkSim<EG>(d),th?1:3);
  torn("master",mkMaster<1>({2}),th?1:3); torn("mcwf",mkMCWF<1>({2}),1); torn("ensemble",mkEns<1>({2}),th?1:3); if (th) {torn("master2",mkMaster<2>({2,2}),1); torn("mcwf2",mkMCWF<2>({2,2}),1);}
  // foreign records
  std::vector<Any> ks; ks.push_back(any("stepping",step)); ks.push_back(any("advancing",adv)); ks.push_back(any("simulated-real",mkSim<EB>(d))); ks.push_back(any("simulated-complex",mkSim<EC>(cc))); ks.push_back(any("simulated-gsl",mkSim<EG>(d)));
  ks.push_back(any("master1",mkMaster<1>({4}))); ks.push_back(any("master2",mkMaster<2>({2,2}))); ks.push_back(any("mcwf1",mkMCWF<1>({4}))); ks.push_back(any("mcwf2",mkMCWF<2>({2,2}))); ks.push_back(any("ensemble1",mkEns<1>({4}))); ks.push_back(any("ensemble2",mkEns<2>({2,2}))); ks.push_back(any("mcwf3",mkMCWF<3>({2,2,2}))); ks.push_back(any("ensemble3",mkEns<3>({2,2,2})));
  auto cls=[](const std::string& n){return n=="simulated-gsl" ? std::string("simulated-real") : n;};
  for (auto& w : ks) for (auto& r : ks) vmc::scenario(cat("foreign/writer=",w.name,"/reader=",r.name),[&]{ vmc::step(); vmc::state(w.name+r.name); bool ok=cls(w.name)==cls(r.name); vmc::same(r.accepts(w.record),ok,"acceptance of the record"); });
  // records that differ from the trajectory's own only in what they say they are: each of element type, trajectory kind and rank decides
  for (auto& r : ks) for (int f=0;f<5;++f) for (int v=0;v<(f==0?1:f<3?6:3);++v) vmc::scenario(cat("relabelled/",r.name,"/field=",f,"/variant=",v),[&]{ bool changed=false; auto rec=relabelled(r.record,[&](auto& m){ static const char *types[]={"CArray","DArray","FArray","carray","","CArrayX"}, *ids[]={"Simulated","Master","MCWF_Trajectory","Ensemble","","Sim"};
    std::string t=m.typeID, i=m.trajectoryID; int k=m.rank; if (f==1) m.typeID=types[v]; if (f==2) m.trajectoryID=ids[v]; if (f==3) m.rank+=v+1; if (f==4) m.rank-=v+1; changed=t!=m.typeID || i!=m.trajectoryID || k!=m.rank; });
    vmc::step(); vmc::state(cat(r.name,f,v)); vmc::same(r.accepts(rec),!changed,"acceptance of the relabelled record"); });
  // state files that cannot be opened: an error, never a run from whatever state the trajectory happens to have
  for (auto& r : ks) for (auto f : {"missing.state","nodir/x.state","adir"}) vmc::scenario(cat("unopenable/",r.name,"/",f),[&]{ vmc::step(); vmc::state(r.name+f); mkdir("adir",0755); vmc::check(!r.starts(f),"a run started from a state file that cannot be read"); });
  // array-only records: initial condition at the time the trajectory already has
  auto asInit=[&](const std::string& nm, auto mk, const std::string& rec, auto expect){ for (double tStart : {0.,.5}) for (int dc : {0,2}) vmc::scenario(cat("array-only/",nm,"/t=",tStart,"/dc=",dc),[&]{ vmc::step();
    parameters::Table tab; evolution::Pars<> p(tab); auto o=mk(p); if (tStart) cppqedutils::advanceTo(*o,tStart,std::cerr); mock::spit("a.state",std::to_string(rec.size())+rec);
    p.initialFileName="a.state"; p.T=tStart+.4; p.dc=dc; p.Dt=.2; p.precision=10; std::string out; {CaptureCout cap; cppqedutils::run(*o,p); out=cap.str();} auto l=parse(out); expect(l.data.empty()?std::vector<double>{}:l.data[0].v,tStart); vmc::near(o->getTime(),tStart+.4,"final time"); vmc::state(out); }); };
  { D1 a(2); a=.25,3.; asInit("simulated-real",mkSim<EB>(d),arrayOnly(a,1),[](auto v,double t){if (vmc::same((int)v.size(),4,"columns")) {vmc::near(v[0],t,"initial time"); vmc::near(v[2],.25,"array"); vmc::near(v[3],3.,"array");}}); asInit("simulated-gsl",mkSim<EG>(d),arrayOnly(a,1),[](auto v,double t){if (vmc::same((int)v.size(),4,"columns")) {vmc::near(v[0],t,"initial time"); vmc::near(v[2],.25,"array"); vmc::near(v[3],3.,"array");}}); }
  { V v=genV(4,11); M A=genH(4,3); double want=dot(v,A*v).real(); auto ex=[=](auto l,double t){if (vmc::same((int)l.size(),3,"columns")) {vmc::near(l[0],t,"initial time"); vmc::near(l[2],want,"average of the initial condition",1e-8);}};
    asInit("mcwf2",mkMCWF<2>({2,2}),arrayOnly(arr<2>(v,{2,2}),2),ex); asInit("master2",mkMaster<2>({2,2}),arrayOnly(arr<4>(outer(v,v).a,{2,2,2,2}),4),ex); asInit("mcwf1",mkMCWF<1>({4}),arrayOnly(arr<1>(v,{4}),1),ex); asInit("master1",mkMaster<1>({4}),arrayOnly(arr<2>(outer(v,v).a,{4,4}),2),ex); }
  // records of other dimensions, and arrays of another element type, rank or shape
  { std::vector<std::pair<Any,std::string>> w; auto add=[&](const std::string& kind, const Dims& d, auto mk, const std::string& type, bool keeps=true){ w.emplace_back(any(cat(kind,vmc::str(std::vector<long>(d.begin(),d.end()))),mk,keeps),type); };
    auto sh=[](const Dims& d){return vmc::str(std::vector<long>(d.begin(),d.end()));}; auto twice=[](Dims d){Dims e=d; e.insert(e.end(),d.begin(),d.end()); return e;};
    struct Arr0 {std::string name, rec;}; std::vector<Arr0> as; auto real=[](auto a){int i=0; for (auto& x : a) x=.5+i++; return a;}; auto cplx=[](auto a){int i=0; for (auto& x : a) {x=dcomp(.5+i,-.25*i); ++i;} return a;};
    for (int a : {2,3,4}) { as.push_back({cat("D",sh({a})),arrayOnly(real(DArray<1>(a)),1)}); as.push_back({cat("C",sh({a})),arrayOnly(cplx(CArray<1>(a)),1)}); }
    for (Dims d : {Dims{2,2},Dims{2,3},Dims{3,2},Dims{3,3},Dims{4,4},Dims{4,1},Dims{1,4}}) { as.push_back({cat("D",sh(d)),arrayOnly(real(DArray<2>(d[0],d[1])),2)}); as.push_back({cat("C",sh(d)),arrayOnly(cplx(CArray<2>(d[0],d[1])),2)}); }
    as.push_back({cat("C",sh({2,1,2})),arrayOnly(cplx(CArray<3>(2,1,2)),3)}); for (Dims d : {Dims{2,2,2,2},Dims{2,3,2,3},Dims{3,2,3,2},Dims{4,1,4,1}}) as.push_back({cat("C",sh(d)),arrayOnly(cplx(CArray<4>(d[0],d[1],d[2],d[3])),4)});
    for (int a : {2,3}) { D1 d(a); d=1.; C1 c(a); c=dcomp(1.,.25); add("simulated-real",{a},mkSim<EB>(d),cat("D",sh({a})),false); add("simulated-gsl",{a},mkSim<EG>(d),cat("D",sh({a})),false); add("simulated-complex",{a},mkSim<EC>(c),cat("C",sh({a})),false); }
    for (int a : {2,3,4}) { add("mcwf",{a},mkMCWF<1>({a}),cat("C",sh({a}))); add("master",{a},mkMaster<1>({a}),cat("C",sh({a,a}))); add("ensemble",{a},mkEns<1>({a}),"-"); }
    for (Dims d : {Dims{2,2},Dims{2,3},Dims{3,2},Dims{4,1}}) { add("mcwf",d,mkMCWF<2>(d),cat("C",sh(d))); add("master",d,mkMaster<2>(d),cat("C",sh(twice(d)))); add("ensemble",d,mkEns<2>(d),"-"); }
    auto kind=[](const std::string& n){auto k=n.substr(0,n.find('[')); auto d=n.substr(n.find('[')); return (k=="simulated-gsl" ? std::string("simulated-real") : k)+d;};
    for (auto& a : w) for (auto& r : w) vmc::scenario(cat("dimensions/writer=",a.first.name,"/reader=",r.first.name),[&]{ vmc::step(); vmc::state(a.first.name+r.first.name); vmc::same(r.first.accepts(a.first.record),kind(a.first.name)==kind(r.first.name),"acceptance of the record"); });
    for (auto& a : as) for (auto& r : w) vmc::scenario(cat("array-only/array=",a.name,"/reader=",r.first.name),[&]{ vmc::step(); vmc::state(a.name+r.first.name); vmc::same(r.first.accepts(a.rec),a.name==r.second,"acceptance of the array"); }); }
  // ensembles of another number of members
  for (int a=1;a<=3;++a) for (int b=1;b<=3;++b) vmc::scenario(cat("members/writer=",a,"/reader=",b),[&]{ vmc::step(); vmc::state(cat(a,b)); auto w=any("w",mkEns<1>({2},a),false), r=any("r",mkEns<1>({2},b),false); vmc::same(r.accepts(w.record),a==b,"acceptance of the ensemble's record"); });
  return vmc::finish();
}
