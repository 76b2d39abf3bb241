// Trajectories whose every adaptive step is scripted by the harness (all nondeterminism owned), plus output parsing helpers.
#pragma once
#include "vmc.h"
#include "Simulated.h"
#include <cstdio>
#include <sys/stat.h>

namespace mock {

// One-variable "state": value = hash-like function of number of steps done and time, so that any lost/extra step shows in the printed value
struct Stepping {
  using StreamedArray=DArray<1>;
  std::vector<double> script; // step sizes the "integrator" would like to take, used cyclically
  double t=0, dtDid=0; long nSteps=0; double acc=0;
  std::vector<double> hist;   // times after each step (not part of the archived state)
  int nCols=2; bool logs=true;
  std::function<double(long,int)> valueOf; // if set: value of column at n-th streaming
  mutable long nStreamed=0;

  double getTime() const {return t;}
  double getDtDid() const {return dtDid;}
  double want() const {return script[nSteps%script.size()];}
  void step(double deltaT, std::ostream& log) {
    dtDid=std::min(want(),deltaT); t+=dtDid; ++nSteps; acc+=nSteps*dtDid; hist.push_back(t); vmc::step();
    if (logs) log<<"step log "<<nSteps<<std::endl; }
  std::ostream& streamParameters(std::ostream& os) const {return os<<"Mock trajectory\nsecond line of parameters\n";}
  std::ostream& streamKey(std::ostream& os) const {return os<<"Mock\n 3. nSteps\n 4. acc"<<std::endl;}
  std::tuple<std::ostream&,DArray<1>> stream(std::ostream& os, int precision) const {
    DArray<1> v(nCols); for (int i=0;i<nCols;++i) v(i)=valueOf ? valueOf(nStreamed,i) : (i ? acc : double(nSteps));
    ++nStreamed;
    for (int i=0;i<nCols;++i) os<<FormDouble(precision)(v(i))<<' ';
    return {os,v}; }
  std::ostream& logOnEnd(std::ostream& os) const {return os<<"mock log on end\n"<<"steps "<<nSteps<<std::endl;}
  template<typename Archive> Archive& stateIO(Archive& ar) {ar & acc & t & dtDid & nSteps; return ar;}
  cppqedutils::iarchive& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {return iar & acc;}
};

// the same, but it can only be advanced
struct Advancing {
  using StreamedArray=DArray<1>;
  Stepping s;
  double getTime() const {return s.t;}
  double getDtDid() const {return s.dtDid;}
  void advance(double deltaT, std::ostream& log) { double end=s.t+deltaT; while (double d=end-s.t) s.step(d,log); }
  auto streamParameters(std::ostream& os) const -> std::ostream& {return s.streamParameters(os);}
  auto streamKey(std::ostream& os) const -> std::ostream& {return s.streamKey(os);}
  auto stream(std::ostream& os, int p) const {return s.stream(os,p);}
  auto logOnEnd(std::ostream& os) const -> std::ostream& {return s.logOnEnd(os);}
  template<typename Archive> Archive& stateIO(Archive& ar) {return s.stateIO(ar);}
  cppqedutils::iarchive& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {return s.readFromArrayOnlyArchive(iar);}
};

struct Line {std::vector<double> v; std::string raw;};
struct Output {std::vector<Line> data; std::vector<std::string> comments; std::vector<std::string> bad;};
inline Output parse(const std::string& text) { Output o; std::istringstream is(text); std::string l;
  while (std::getline(is,l)) {
    if (l.find_first_not_of(" \t")==std::string::npos) continue;
    if (l[0]=='#') {o.comments.push_back(l); continue;}
    std::istringstream ls(l); Line ln; ln.raw=l; std::string tok; bool ok=true;
    while (ls>>tok) {char* e; double d=std::strtod(tok.c_str(),&e); if (*e || e==tok.c_str()) ok=false; ln.v.push_back(d);}
    if (ok) o.data.push_back(ln); else o.bad.push_back(l); }
  return o; }
inline std::string slurp(const std::string& fn) {std::ifstream f(fn,std::ios::binary); std::stringstream s; s<<f.rdbuf(); return s.str();}
inline bool exists(const std::string& fn) {struct stat st; return !stat(fn.c_str(),&st);}
inline void spit(const std::string& fn, const std::string& c) {std::ofstream f(fn,std::ios::binary|std::ios::trunc); f<<c;}
inline void rm(const std::string& fn) {std::remove(fn.c_str());}

struct CaptureCout { std::stringstream ss; std::streambuf* old; CaptureCout() : old(std::cout.rdbuf(ss.rdbuf())) {} ~CaptureCout() {std::cout.rdbuf(old);} std::string str() {return ss.str();} };

inline long commentsContaining(const Output& o, const std::string& s) {long n=0; for (auto& c : o.comments) if (c.find(s)!=std::string::npos) ++n; return n;}

} // mock

template<> struct cppqedutils::trajectory::MakeSerializationMetadata<mock::Stepping> {static auto _() {return SerializationMetadata{"double","MockStepping",1};}};
template<> struct cppqedutils::trajectory::MakeSerializationMetadata<mock::Advancing> {static auto _() {return SerializationMetadata{"double","MockAdvancing",1};}};
