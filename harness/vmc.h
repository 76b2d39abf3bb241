// Minimal explicit-state exploration runtime shared by all harnesses.
// A harness enumerates *scenarios* (configuration + complete operation sequence); in each, the real code and a reference
// model are driven in lockstep. The runtime shards scenarios over processes, replays a single one (--only), records distinct
// states, transitions, completed (validated) traces, samples and violations, and writes a JSON summary.
#pragma once
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

namespace vmc {

struct Violation {std::string scenario, what;};

struct Ctx {
  bool thorough=false; int shard=0, nshards=1; std::string only, out, curfile; bool haveOnly=false;
  long seq=0; unsigned long long scenarios=0, transitions=0, traces=0, checks=0, nontrivial=0;
  std::unordered_set<std::uint64_t> states, scenarioIds;
  std::vector<std::string> samples; std::vector<Violation> violations; unsigned long long nviol=0;
  std::string cur; bool curFailed=false; char* map=nullptr; unsigned limit=60; // seconds per scenario: a scenario that exceeds it is killed by SIGALRM and reported as a hang
};
inline Ctx& ctx() {static Ctx c; return c;}
inline bool thorough() {return ctx().thorough;}

inline std::uint64_t fnv(const void* p, std::size_t n, std::uint64_t h=1469598103934665603ull) {
  auto b=static_cast<const unsigned char*>(p); for (std::size_t i=0;i<n;++i) {h^=b[i]; h*=1099511628211ull;} return h; }
inline std::uint64_t fnv(const std::string& s, std::uint64_t h=1469598103934665603ull) {return fnv(s.data(),s.size(),h);}

inline void init(int argc, char** argv) {
  struct rlimit rl{2ul<<30,2ul<<30}; setrlimit(RLIMIT_AS,&rl); // runaway code under test ends in bad_alloc (a violation), not in an exhausted machine
  auto& c=ctx(); const char* t=std::getenv("VERIF_TIER"); c.thorough=t && !std::strcmp(t,"thorough"); if (const char* l=std::getenv("VMC_LIMIT")) c.limit=std::atoi(l);
  for (int i=1;i<argc;++i) { std::string a=argv[i]; auto next=[&]{return std::string(argv[++i]);};
    if (a=="--shard") {c.shard=std::stoi(next()); c.nshards=std::stoi(next());}
    else if (a=="--only") {c.only=next(); c.haveOnly=true;}
    else if (a=="--out") c.out=next();
    else if (a=="--cur") c.curfile=next();
    else if (a=="--thorough") c.thorough=true;
    else if (a=="--quick") c.thorough=false; }
  if (!c.curfile.empty()) { int fd=open(c.curfile.c_str(),O_RDWR|O_CREAT|O_TRUNC,0644);
    if (fd>=0 && !ftruncate(fd,4096)) c.map=static_cast<char*>(mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0));
    if (c.map==MAP_FAILED) c.map=nullptr; }
}
inline void fail(const std::string& what) {
  auto& c=ctx(); ++c.nviol; c.curFailed=true;
  if (c.violations.size()<40) { for (auto& v : c.violations) if (v.scenario==c.cur) return; c.violations.push_back({c.cur,what}); } }
template<typename W> bool check(bool ok, W&& w) { ++ctx().checks; if (!ok) { if constexpr (std::is_invocable_v<W>) fail(w()); else fail(w);} return ok; }

inline std::string str(double x) {char b[64]; std::snprintf(b,64,"%.17g",x); return b;}
inline std::string str(std::complex<double> z) {return "("+str(z.real())+","+str(z.imag())+")";}
inline std::string str(const std::string& s) {return s;}
inline std::string str(const char* s) {return s;}
inline std::string str(bool s) {return s?"true":"false";}
template<typename T> std::enable_if_t<std::is_integral_v<T>||std::is_enum_v<T>,std::string> str(T i) {return std::to_string((long long)i);}
template<typename T> std::string str(const std::vector<T>& v) {std::string r="["; for (std::size_t i=0;i<v.size();++i) r+=(i?",":"")+str(T(v[i])); return r+"]";}
template<typename... T> std::string cat(const T&... t) {return (std::string()+...+str(t));}

// |a-b| <= tol*(1+|a|+|b|), NaN never passes
inline bool close(std::complex<double> a, std::complex<double> b, double tol=1e-10) {return std::abs(a-b)<=tol*(1.+std::abs(a)+std::abs(b));}
template<typename W> bool near(std::complex<double> got, std::complex<double> want, W&& what, double tol=1e-10) {
  return check(close(got,want,tol),[&]{ std::string w; if constexpr (std::is_invocable_v<W>) w=what(); else w=what; return cat(w,": got ",got,", model says ",want);}); }
template<typename A, typename B, typename W> bool same(const A& got, const B& want, W&& what) {
  return check(got==want,[&]{ std::string w; if constexpr (std::is_invocable_v<W>) w=what(); else w=what; return cat(w,": got ",got,", model says ",want);}); }

inline void state(std::uint64_t h) {ctx().states.insert(fnv(&h,8,fnv(ctx().cur)));}           // state within this configuration
inline void state(const std::string& s) {state(fnv(s));}
inline void gstate(const std::string& s) {ctx().states.insert(fnv(s));}                         // state identified globally
inline void step(unsigned long long n=1) {ctx().transitions+=n;}
inline void trace() {++ctx().traces;}
inline void sample(const std::string& s) {if (ctx().samples.size()<4) ctx().samples.push_back(s);}
inline bool failed() {return ctx().curFailed;}

// runs f if the scenario belongs to this shard; every completed scenario is one trace validated against the implementation
template<typename F> void scenario(const std::string& id, F&& f) {
  auto& c=ctx();
  if (c.haveOnly) {if (id!=c.only) return;} else if ((c.seq++)%c.nshards!=c.shard) return;
  c.cur=id; c.curFailed=false; ++c.scenarios; c.scenarioIds.insert(fnv(id));
  if (c.map) {std::strncpy(c.map,id.c_str(),4095); c.map[4095]=0;}
  unsigned long long before=c.transitions; alarm(c.limit);
  try {f();}
  catch (const std::exception& e) {fail(cat("unexpected exception: ",e.what()));}
  catch (const std::string& e) {fail(cat("unexpected exception (string): ",e));}
  catch (const char* e) {fail(cat("unexpected exception (chars): ",e));}
  catch (...) {fail("unexpected exception of unknown type");}
  if (c.transitions>before) ++c.nontrivial;
  alarm(0); ++c.traces; if (c.samples.size()<2) sample(id);
  c.cur.clear(); if (c.map) c.map[0]=0;
}
template<typename Ex, typename F> bool throws(F&& f) {try {f();} catch (const Ex&) {return true;} return false;}
template<typename F> bool throwsAny(F&& f) {try {f();} catch (...) {return true;} return false;}

inline std::string jstr(const std::string& s) { std::string r="\""; for (unsigned char ch : s) { char b[8];
  if (ch=='"'||ch=='\\') {r+='\\'; r+=ch;} else if (ch<32||ch>126) {std::snprintf(b,8,"\\u%04x",ch); r+=b;} else r+=ch;} return r+"\""; }
inline int finish() {
  auto& c=ctx(); std::ostringstream o;
  o<<"{\"scenarios\":"<<c.scenarios<<",\"distinct_scenarios\":"<<c.scenarioIds.size()<<",\"nontrivial\":"<<c.nontrivial<<",\"states\":"<<c.states.size()<<",\"transitions\":"<<c.transitions<<",\"traces\":"<<c.traces<<",\"checks\":"<<c.checks<<",\"nviol\":"<<c.nviol<<",\"samples\":[";
  for (std::size_t i=0;i<c.samples.size();++i) o<<(i?",":"")<<jstr(c.samples[i]);
  o<<"],\"violations\":[";
  for (std::size_t i=0;i<c.violations.size();++i) o<<(i?",":"")<<"{\"scenario\":"<<jstr(c.violations[i].scenario)<<",\"what\":"<<jstr(c.violations[i].what)<<"}";
  o<<"]}\n";
  if (!c.out.empty()) {std::ofstream f(c.out); f<<o.str();} else {std::cerr<<o.str();}
  for (auto& v : c.violations) std::cerr<<"FAIL "<<v.scenario<<" :: "<<v.what<<"\n";
  std::cerr.flush();
  return c.nviol ? 3 : 0;
}

// all sequences over {0..k-1} of length exactly n
template<typename F> void sequences(int k, int n, F&& f) { std::vector<int> s(n,0);
  for (;;) { f(s); int i=n-1; while (i>=0 && ++s[i]==k) s[i--]=0; if (i<0) break; } }
// all ordered subsets (arrangements) of {0..n-1} of size m
inline std::vector<std::vector<int>> arrangements(int n, int m) { std::vector<std::vector<int>> r; std::vector<int> cur; std::vector<bool> used(n,false);
  std::function<void()> rec=[&]{ if ((int)cur.size()==m) {r.push_back(cur); return;}
    for (int i=0;i<n;++i) if (!used[i]) {used[i]=true; cur.push_back(i); rec(); cur.pop_back(); used[i]=false;} }; rec(); return r; }

} // vmc
