// helpers on state files shared by C02/C03
#pragma once
#include "mocktraj.h"
namespace sf {
inline std::string inflate(const std::string& fn) {auto in=cppqedutils::trajectory::openStateFileReading(fn); std::stringstream s; s<<in->rdbuf(); return s.str();}
// a state file's content is a sequence of <size in decimal><bytes>
inline bool split(const std::string& c, std::vector<std::string>& recs) { std::size_t i=0; recs.clear();
  while (i<c.size()) { std::size_t n=0, j=i; while (j<c.size() && std::isdigit((unsigned char)c[j])) {n=n*10+(c[j]-'0'); ++j;}
    if (j==i || j+n>c.size()) return false; recs.push_back(c.substr(j,n)); i=j+n; } return true; }
inline std::vector<std::string> records(const std::string& fn) {std::vector<std::string> r; if (!split(inflate(fn),r)) vmc::fail("state file is not a sequence of complete records"); return r;}
inline std::string join(const std::vector<std::string>& r, std::size_t n) {std::string s; for (std::size_t i=0;i<n;++i) s+=std::to_string(r[i].size())+r[i]; return s;}
inline void writeZ(const std::string& fn, const std::string& c) {mock::rm(fn); auto o=cppqedutils::trajectory::openStateFileWriting(fn); *o<<c;}
template<typename T> std::string snapshot(T& traj) {std::ostringstream oss(std::ios_base::binary); {cppqedutils::oarchive ar(oss); cppqedutils::trajectory::WriteState<T>::_(traj,ar);} return oss.str();}
template<typename T> void restore(T& traj, const std::string& s) {std::istringstream iss(s,std::ios_base::binary); cppqedutils::iarchive ar(iss); cppqedutils::trajectory::ReadState<T>::_(traj,ar);}

struct Set {double T; int dc; double Dt; long NDt; unsigned sdf; bool first; std::string ini;};
inline std::string id(const Set& c) {return vmc::cat("T=",c.T,",dc=",c.dc,",Dt=",c.Dt,",NDt=",c.NDt,",sdf=",(int)c.sdf,",first=",(int)c.first);}
template<typename P, typename T> std::string go(T& traj, P& p, const Set& c, const std::string& ofn) { // returns what was printed to cout
  p.T=c.T; p.dc=c.dc; p.Dt=c.Dt; p.NDt=c.NDt; p.sdf=c.sdf; p.firstStateStream=c.first; p.ofn=ofn; p.initialFileName=c.ini; p.precision=17;
  mock::CaptureCout cap; cppqedutils::run(traj,p); return cap.str(); }
inline void wipe(const std::string& fn) {mock::rm(fn); mock::rm(fn+".state");}
inline std::vector<std::string> raws(const std::string& text) {std::vector<std::string> r; std::istringstream is(text); std::string l; while (std::getline(is,l)) if (l.find_first_not_of(" \t")!=std::string::npos && l[0]!='#') r.push_back(l); return r;}
// truncate the output after its n-th data line
inline std::string uptoLine(const std::string& text, std::size_t n) { std::istringstream is(text); std::string l,r; std::size_t k=0; if (!n) return "# header only\n";
  while (std::getline(is,l)) {r+=l+"\n"; if (l.find_first_not_of(" \t")!=std::string::npos && l[0]!='#' && ++k==n) break;} return r; }

inline void sameLines(const std::vector<std::string>& got, const std::vector<std::string>& want, std::size_t from, const std::string& what) {
  if (vmc::same(got.size(),want.size()-from,what+": number of data lines")) for (std::size_t i=0;i<got.size();++i) if (!vmc::same(got[i],want[i+from],vmc::cat(what,": data line ",i))) break; }

// The C02 exploration for one kind of trajectory and one setting: mk() makes a fresh object, pars is its parameter bundle
template<typename P, typename MK> void resumeAll(const Set& c, MK mk, P& pars, bool pairs, bool stepped=true) {
  const std::string fn="ref", f2="cut";
  auto ref=mk(); wipe(fn); go(*ref,pars,c,fn);
  auto refText=mock::slurp(fn); auto refLines=raws(refText); auto refRecs=records(fn+".state"); auto refFinal=snapshot(*ref);
  vmc::state(refFinal); if (!vmc::check(!refLines.empty(),"no data lines")) return;
  // 1. which states were saved: the model of the state schedule
  bool dcMode=stepped && c.dc; std::size_t nl=refLines.size(); bool lastSched=true;
  if (dcMode) { // the last line is end-only if the number of steps is not a multiple of dc: determined from a run with dc=1
    auto one=mk(); Set d=c; d.dc=1; d.ini=c.ini; wipe(f2); go(*one,pars,d,f2); std::size_t steps=raws(mock::slurp(f2)).size()-1; lastSched=steps%c.dc==0;
    vmc::same(nl,std::size_t(1+steps/c.dc+(lastSched?0:1)),"number of lines in step-counting mode"); vmc::check(snapshot(*one)==refFinal,"streaming more often changed the evolution"); }
  std::vector<std::size_t> saved; std::size_t nsched=nl-(lastSched?0:1);
  for (std::size_t j=0;j<nsched;++j) if (c.sdf && j%c.sdf==0 && (j>0||c.first)) saved.push_back(j);
  if (saved.empty() || saved.back()!=nl-1) saved.push_back(nl-1);
  if (!vmc::same(refRecs.size(),saved.size(),"number of state records")) return;
  for (std::size_t k=0;k<saved.size();++k) { auto o=mk(); restore(*o,refRecs[k]);
    vmc::near(o->getTime(),std::strtod(refLines[saved[k]].c_str(),nullptr),vmc::cat("time of state record ",k),1e-14); vmc::check(snapshot(*o)==refRecs[k],"reading and writing a state changes it"); }
  vmc::check(refRecs.back()==refFinal,"last record is not the final state");
  // 2. killed after record k and the line of that instant; continued by a fresh object
  auto cont=[&](std::size_t k, bool z) { auto o=mk(); go(*o,pars,c,f2); vmc::step();
    std::string what=vmc::cat("continued from line ",saved[k],z?" (compressed)":" (plain)");
    auto txt=mock::slurp(f2); sameLines(raws(txt),refLines,0,what);
    vmc::same(mock::commentsContaining(mock::parse(txt),"Continuing"),pars.streamInfo?1l:0l,what+": continuation notice");
    vmc::check(snapshot(*o)==refFinal,what+": final state differs from that of the uninterrupted run"); 
    auto recs=records(f2+".state"); if (vmc::same(recs.size(),refRecs.size(),what+": number of state records")) for (std::size_t i=0;i<recs.size();++i) if (!vmc::check(recs[i]==refRecs[i],vmc::cat(what,": state record ",i," differs"))) break; };
  for (std::size_t k=0;k+1<saved.size();++k) for (bool z : {false,true}) { if (c.NDt && !dcMode) break; // with NDt a continuation appends as many intervals again: below
    wipe(f2); mock::spit(f2,uptoLine(refText,saved[k]+1)); if (z) writeZ(f2+".state",join(refRecs,k+1)); else mock::spit(f2+".state",join(refRecs,k+1));
    cont(k,z); if (vmc::failed()) return; }
  // continuing a finished run does nothing
  if (!c.NDt || dcMode) { auto o=mk(); auto before=mock::slurp(fn), sb=mock::slurp(fn+".state"); go(*o,pars,c,fn); vmc::check(mock::slurp(fn)==before && mock::slurp(fn+".state")==sb,"continuing a completed run changed its files"); vmc::check(snapshot(*o)==refFinal,"continuing a completed run: state"); }
  // 3. stopped gracefully at every scheduled instant (the run was given that end), once or twice
  if (!dcMode) { std::vector<double> t; for (auto& l : refLines) t.push_back(std::strtod(l.c_str(),nullptr));
    auto stops=[&](std::vector<std::size_t> at) { wipe(f2); std::size_t prev=0; at.push_back(nl-1); std::string fin;
      for (std::size_t j : at) { Set d=c; if (c.NDt) d.NDt=j-prev; else d.T=t[j]; auto o=mk(); go(*o,pars,d,f2); vmc::step(); prev=j; fin=snapshot(*o); vmc::check(records(f2+".state").back()==fin,"the final state of a run is not the last record"); }
      std::string what=vmc::cat("stopped at lines ",vmc::str(std::vector<long>(at.begin(),at.end())));
      sameLines(raws(mock::slurp(f2)),refLines,0,what); vmc::check(fin==refFinal,what+": final state differs from that of the uninterrupted run"); };
    for (std::size_t i=1;i+1<nl;++i) {stops({i}); if (vmc::failed()) return; if (pairs) for (std::size_t j=i+1;j+1<nl;++j) {stops({i,j}); if (vmc::failed()) return;} } }
  else { // in step-counting mode a stop cuts the last step, so the reference is the same object run on in memory
    for (double f : {.3,.55,.8}) { double t0=std::strtod(refLines[0].c_str(),nullptr); Set d=c; d.T=t0+f*(c.T-t0); auto a=mk(); wipe(f2); go(*a,pars,d,f2); Set e=c; e.ini=""; auto l=raws(go(*a,pars,e,"")); auto b=mk(); std::size_t n1=raws(mock::slurp(f2)).size();
      go(*b,pars,e,f2); vmc::step(); auto l2=raws(mock::slurp(f2)); l2.erase(l2.begin(),l2.begin()+std::min(n1,l2.size())); sameLines(l2,l,1,vmc::cat("stopped at time ",d.T)); vmc::check(snapshot(*a)==snapshot(*b),"stopped in step-counting mode: final state"); } }
  if (vmc::failed()) return;
  // 4. as initial condition of a new run
  if (!c.NDt || dcMode) for (std::size_t k=0;k+1<saved.size();++k) { mock::spit("ini.state",join(refRecs,k+1)); wipe(f2); Set d=c; d.ini="ini.state"; auto o=mk(); go(*o,pars,d,f2); vmc::step();
    auto txt=mock::slurp(f2); sameLines(raws(txt),refLines,saved[k],vmc::cat("started from the state at line ",saved[k])); vmc::check(snapshot(*o)==refFinal,"started from a saved state: final state");
    vmc::same(mock::commentsContaining(mock::parse(txt),"Continuing"),0l,"a run from an initial condition is not a continuation");
    // an empty output file is not a run to be continued
    if (k==0) {wipe(f2); mock::spit(f2,""); auto q=mk(); go(*q,pars,d,f2); sameLines(raws(mock::slurp(f2)),refLines,saved[k],"empty output file present");} 
    if (vmc::failed()) return; }
  wipe(fn); wipe(f2); mock::rm("ini.state");
}
}
