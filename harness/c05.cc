// C05: all sequences of step requests (both directions, ordinary, tiny and huge) on both adaptive engines, over several equations with known solutions; every right-hand-side evaluation is recorded.
#include "vmc.h"
#include "BlitzArray.h"
#include "Simulated.h"
#include "ODE_GSL.h"
#include <type_traits>
using vmc::cat; using std::vector; using std::string; using C=std::complex<double>;
using VD=vector<double>;
struct Eqn {string name; int n; std::function<VD(double,const VD&)> f; std::function<VD(double,const VD&,double)> exact; VD y0; bool homogeneous;};
static vector<Eqn> eqns={
  {"oscillator",2,[](double,const VD& y){return VD{y[1],-4*y[0]};},[](double t0,const VD& y,double t){double c=std::cos(2*(t-t0)),s=std::sin(2*(t-t0)); return VD{y[0]*c+y[1]*s/2,y[1]*c-2*y[0]*s};},{1.,.5},true},
  {"fast decay",1,[](double,const VD& y){return VD{-40*y[0]};},[](double t0,const VD& y,double t){return VD{y[0]*std::exp(-40*(t-t0))};},{1.},true},
  {"driven",2,[](double t,const VD&){return VD{std::cos(5*t),3*t*t};},[](double t0,const VD& y,double t){return VD{y[0]+(std::sin(5*t)-std::sin(5*t0))/5,y[1]+t*t*t-t0*t0*t0};},{.3,1.},false},
  {"parametric",1,[](double t,const VD& y){return VD{2*std::cos(3*t)*y[0]};},[](double t0,const VD& y,double t){return VD{y[0]*std::exp(2./3*(std::sin(3*t)-std::sin(3*t0)))};},{-.7},true},
  {"logistic",1,[](double,const VD& y){return VD{2*y[0]*(1-y[0])};},[](double t0,const VD& y,double t){double e=std::exp(2*(t-t0)); return VD{y[0]*e/(1-y[0]+y[0]*e)};},{.2},false}};
// state types
template<typename S> struct St;
template<> struct St<DArray<1>> { static constexpr bool cplx=false; static DArray<1> make(const VD& v) {DArray<1> a((int)v.size()); set(a,v); return a;} static void set(DArray<1>& a, const VD& v) {for (size_t i=0;i<v.size();++i) a((int)i)=v[i];} static VD get(const DArray<1>& a) {VD v; for (int i=0;i<a.extent(0);++i) v.push_back(a(i)); return v;} };
// complex: real and imaginary part are two independent copies of the equation
template<> struct St<CArray<1>> { static constexpr bool cplx=true; static CArray<1> make(const VD& v) {CArray<1> a((int)v.size()/2); set(a,v); return a;} static void set(CArray<1>& a, const VD& v) {for (size_t i=0;i<v.size()/2;++i) a((int)i)=C(v[2*i],v[2*i+1]);} static VD get(const CArray<1>& a) {VD v; for (int i=0;i<a.extent(0);++i) {v.push_back(a(i).real()); v.push_back(a(i).imag());} return v;} };
static VD deinter(const VD& v, int k) {VD r; for (size_t i=k;i<v.size();i+=2) r.push_back(v[i]); return r;}
static VD inter(const VD& a, const VD& b) {VD r; for (size_t i=0;i<a.size();++i) {r.push_back(a[i]); r.push_back(b[i]);} return r;}
template<typename S> VD lift(const VD& y, double s=1.) { VD a; for (double x : y) a.push_back(s*x); if (!St<S>::cplx) return a; VD b; for (double x : a) b.push_back(.5*x); return inter(a,b); }
template<typename S, typename F> VD both(const VD& y, F f) { if (!St<S>::cplx) return f(y); return inter(f(deinter(y,0)),f(deinter(y,1))); }
struct Eval {double t; VD y;};
template<typename S> struct Rhs { const Eqn* e; vector<Eval>* rec; void operator()(const S& y, S& d, double t) const { VD v=St<S>::get(y); if (rec->size()>3000000) throw std::runtime_error("millions of right-hand-side evaluations: the stepping does not get anywhere"); rec->push_back({t,v}); St<S>::set(d,both<S>(v,[&](const VD& x){return e->f(t,x);})); } };
static long field(const string& txt, const string& key) {auto k=txt.find(key); if (k==string::npos) return -1; return std::atol(txt.c_str()+k+key.size());}
struct Counts {long steps=0, failed=0, rhs=0;};
template<typename Eng> string logOf(const Eng& e) {std::ostringstream o; e.logOnEnd(o); return o.str();}

template<typename S, typename Eng> void oneStep(Eng& e, const Eqn& q, double deltaT, double& t, S& y, double epsRel, double epsAbs, bool retries, Counts& cnt, bool first) {
  vector<Eval> rec; Rhs<S> rhs{&q,&rec}; std::ostringstream log; const double t0=t, tryBefore=e.getDtTry(); const VD y0=St<S>::get(y);
  e.step(deltaT,log,rhs,t,y); vmc::step(); VD y1=St<S>::get(y); const double did=e.getDtDid();
  auto ctx=[&]{return cat("request ",deltaT," at t=",t0,", proposed step ",tryBefore,": ");};
  vmc::check(did==t-t0,[&]{return cat(ctx(),"reported step ",did,", time advanced by ",t-t0);});
  vmc::check(did*deltaT>0,[&]{return cat(ctx(),"step in the wrong direction or of zero length: ",did);});
  vmc::check(std::abs(did)<=std::abs(deltaT)*(1+1e-12)+1e-15*std::abs(t0),[&]{return cat(ctx(),"step beyond the request: ",did);});
  if (std::abs(deltaT)<.0999*std::abs(tryBefore)) vmc::same(e.getDtTry(),tryBefore,"step proposed for later after a tiny request");
  vmc::check(std::isfinite(e.getDtTry()) && e.getDtTry()!=0,"proposed step is finite and nonzero");
  // attempts: each begins with an evaluation at the unchanged state and instant
  vector<double> size; bool tiny=std::abs(did)<1e-11*std::max(1.,std::abs(t0));
  if (!tiny) for (auto& r : rec) { if (r.t==t0 && std::abs(r.t-t0)<=0) {size.push_back(0); vmc::check(r.y==y0,[&]{return cat(ctx(),"an attempt does not start from the unchanged state");});} else if (size.empty()) {vmc::fail(ctx()+"first evaluation is not at the present instant"); size.push_back(0);} if (!size.empty()) size.back()=std::max(size.back(),std::abs(r.t-t0)); }
  if (!tiny && !size.empty()) { for (size_t i=1;i<size.size();++i) vmc::check(size[i]<size[i-1],[&]{return cat(ctx(),"a retry is not shorter");}); vmc::near(size.back(),std::abs(did),ctx()+"size of the accepted attempt",1e-9); vmc::check(size[0]<=std::abs(deltaT)*(1+1e-12)+1e-15*std::abs(t0),ctx()+"an attempt goes beyond the request");
    vmc::check(size[0]<=std::max(std::abs(tryBefore),std::abs(deltaT))*(1+1e-12),ctx()+"an attempt exceeds the proposed step"); cnt.failed+=size.size()-1; vmc::same(field(log.str(),"Number of failed steps in this timestep: "),long(size.size()-1),ctx()+"logged failures of this step"); }
  cnt.steps++; cnt.rhs+=rec.size(); string l=logOf(e);
  vmc::same(field(l,"Total number of ODE steps: "),cnt.steps,ctx()+"logged number of steps"); vmc::same(field(l,"Number of failed ODE steps: "),cnt.failed,ctx()+"logged number of failures"); vmc::same(field(l,"RHS for ODE: "),cnt.rhs,ctx()+"logged number of evaluations");
  // the result solves the equation to the requested precision
  if (retries) { VD ex=both<S>(y0,[&](const VD& x){return q.exact(t0,x,t);}), d0=both<S>(y0,[&](const VD& x){return q.f(t0,x);}); double sc=0; for (double x : y0) sc=std::max(sc,std::abs(x)); double worst=0; for (size_t i=0;i<ex.size();++i) worst=std::max(worst,std::abs(ex[i]-y1[i])/(epsAbs+epsRel*(std::abs(y0[i])+std::abs(did*d0[i]))+1e-15*(1+sc)+1e-13*std::abs(did*t0*t0)));
    vmc::check(worst<500.,[&]{return cat(ctx(),"error of the accepted step is ",worst," times the allowed one");}); }
  vmc::state(cat(t,"/",e.getDtTry()));
}
// Are the two precisions, as documented, relative and absolute in this order? (Everything else is explored with the roles the engine really gives them.)
template<typename S, typename Eng> bool scales(double a, double b, double a2, double b2, const Eqn& q) { const double s=1024.; Eng e1(.05,0,a,b), e2(.05,0,a2,b2); S y1=St<S>::make(lift<S>(q.y0)), y2=St<S>::make(lift<S>(q.y0,s)); double t1=0,t2=0; vector<Eval> rec; Rhs<S> rhs{&q,&rec}; std::ostringstream log; for (int k=0;k<20;++k) {e1.step(.3,log,rhs,t1,y1); e2.step(.3,log,rhs,t2,y2); if (t1!=t2 || e1.getDtTry()!=e2.getDtTry()) return false;} return true; }
template<typename S, typename Eng0> struct Roles { static bool swapped() {static const bool r=!scales<S,Eng0>(1e-5,0,1e-5,0,eqns[0]) && scales<S,Eng0>(0,1e-5,0,1e-5,eqns[0]) && scales<S,Eng0>(1e-5,0,1024*1e-5,0,eqns[0]); return r;} };
template<typename S, typename Eng0> struct InRole : Eng0 { InRole(double dt, int l, double er, double ea) : Eng0(dt,l,Roles<S,Eng0>::swapped()?ea:er,Roles<S,Eng0>::swapped()?er:ea) {} };
template<typename S, typename Eng0> void explore(const string& name, bool retries, bool th) { using Eng=InRole<S,Eng0>; string id=name; for (char& ch : id) if (ch==' ') ch='-';
  vmc::scenario("roles/"+id,[&]{vmc::step(); vmc::check(!Roles<S,Eng0>::swapped(),"the relative precision acts absolutely and the absolute precision relatively");});
  const vector<double> req={.3,.02,1e-5,-.2,-.015,-1e-6};
  for (auto& q : eqns) for (double dtInit : {.05,1e-3,3.}) for (auto [er,ea] : vector<std::pair<double,double>>{{1e-6,1e-12},{1e-3,1e-9},{1e-9,1e-6}}) for (int a=0;a<6;++a) for (int b=0;b<6;++b)
    vmc::scenario(cat(name,"/",q.name,"/dt=",dtInit,"/eps=",er,",",ea,"/",a,b),[&]{
      if (!retries && std::abs(dtInit)>1) return; // an engine without rejection accepts whatever it is first told to try
      vmc::sequences(6,th?3:2,[&](const vector<int>& r){ if (vmc::failed()) return; Eng e(dtInit,4,er,ea); S y=St<S>::make(lift<S>(q.y0)); double t=.25; Counts c; vector<int> w={a,b}; w.insert(w.end(),r.begin(),r.end()); for (int k : w) {oneStep<S>(e,q,req[k],t,y,er,ea,retries,c,false); if (vmc::failed()) return;} }); });
  // reaching an instant exactly, forward and backward, in a bounded number of steps, with the right solution there
  for (auto& q : eqns) for (double er : {1e-4,1e-6,1e-9}) for (double ea : {1e-12,1e-8}) for (double t0 : {0.,-.7,1e3}) for (double len : {1.,.1,1./3,1e-9,-.5,-.07}) vmc::scenario(cat(name,"/reach/",q.name,"/",er,",",ea,"/t0=",t0,"/len=",len),[&]{
    Eng e(.01*(len<0?-1:1),4,er,ea); S y=St<S>::make(lift<S>(q.y0)); double t=t0, end=t0+len; Counts c; long n=0; while (t!=end) { oneStep<S>(e,q,end-t,t,y,er,ea,retries,c,false); if (vmc::failed()) return; if (!vmc::check(++n<20000,"requested instant not reached in 20000 steps")) return; }
    VD ex=both<S>(lift<S>(q.y0),[&](const VD& x){return q.exact(t0,x,end);}), g=St<S>::get(y); double grow=len<0 && q.name=="fast decay" ? std::exp(-40*len) : 1.; double sc=1; for (double x : ex) sc=std::max(sc,std::abs(x)); for (size_t i=0;i<g.size();++i) vmc::check(std::abs(g[i]-ex[i])<=sc*grow*1000*(er+ea)+1e-9*(std::abs(t0)>100),[&]{return cat("solution at the requested instant: got ",g[i],", exact ",ex[i]);}); });
  // relative means relative: with zero absolute precision the steps do not depend on the scale of the solution; absolute means absolute
  for (auto& q : eqns) for (double dtInit : {.05,1e-3,1.}) for (double er : {1e-3,1e-6,1e-9}) for (int p : {-20,-3,5,20}) for (bool rel : {true,false}) vmc::scenario(cat(name,"/scale/",q.name,"/dt=",dtInit,"/",er,"/2^",p,rel?"/relative":"/absolute"),[&]{ if (!q.homogeneous || (!retries && dtInit>.5)) return;
    const double s=std::ldexp(1.,p); Eng e1(dtInit,0,rel?er:0.,rel?0.:er), e2(dtInit,0,rel?er:0.,rel?0.:er*s); S y1=St<S>::make(lift<S>(q.y0)), y2=St<S>::make(lift<S>(q.y0,s)); double t1=0,t2=0; vector<Eval> rec; Rhs<S> rhs{&q,&rec}; std::ostringstream log; for (int k=0;k<12;++k) {double req=k%3==2?.004:.3; e1.step(req,log,rhs,t1,y1); e2.step(req,log,rhs,t2,y2); vmc::step(2); if (!vmc::same(t2,t1,cat("step ",k,": instant reached by the scaled problem")) || !vmc::same(e2.getDtTry(),e1.getDtTry(),cat("step ",k,": proposed step of the scaled problem"))) return; VD a=St<S>::get(y1), b=St<S>::get(y2); for (size_t i=0;i<a.size();++i) vmc::same(b[i],a[i]*s,"scaled solution");} });
  // a looser precision never needs more steps
  for (auto& q : eqns) for (bool rel : {true,false}) vmc::scenario(cat(name,"/monotone/",q.name,rel?"/relative":"/absolute"),[&]{ long prev=-1; for (double ep : {1e-10,1e-8,1e-6,1e-4}) { Eng e(.001,1,rel?ep:0.,rel?0.:ep); S y=St<S>::make(lift<S>(q.y0)); double t=0; vector<Eval> rec; Rhs<S> rhs{&q,&rec}; std::ostringstream log; long n=0; while (t!=1. && n<100000) {e.step(1.-t,log,rhs,t,y); ++n; vmc::step();} if (prev>=0) vmc::check(n<=prev && n<100000,[&]{return cat("precision ",ep," needs ",n," steps, the finer one ",prev);}); prev=n; } });
  // backward in time is the mirror image of forward: same steps, same proposals, same solution
  for (auto& q : eqns) for (double dtInit : {.05,1e-3,.4}) for (auto [er,ea] : vector<std::pair<double,double>>{{1e-6,1e-12},{1e-3,1e-9},{1e-9,1e-6}}) for (double sg : {-1.}) vmc::sequences(4,4,[&](const vector<int>& w){ vmc::scenario(cat(name,"/mirror/",q.name,"/dt=",sg*dtInit,"/eps=",er,",",ea,"/",w),[&]{
    const double len[]={.3,.02,1e-5,.8}; Eqn m=q; m.f=[&](double t, const VD& y){VD r=q.f(-t,y); for (double& x : r) x=-x; return r;}; Eng e1(dtInit,0,er,ea), e2(sg*dtInit,0,er,ea); S y1=St<S>::make(lift<S>(q.y0)), y2=St<S>::make(lift<S>(q.y0)); double t1=.25,t2=-.25; vector<Eval> r1,r2; Rhs<S> f1{&q,&r1}, f2{&m,&r2}; std::ostringstream log;
    for (int k : w) {e1.step(len[k],log,f1,t1,y1); e2.step(-len[k],log,f2,t2,y2); vmc::step(2); if (!vmc::same(-t2,t1,"instant reached by the mirrored problem") || !vmc::same(std::abs(e2.getDtTry()),std::abs(e1.getDtTry()),"size of the step proposed for later in the mirrored problem") || !vmc::same(-e2.getDtDid(),e1.getDtDid(),"mirrored step")) return; VD a=St<S>::get(y1), b=St<S>::get(y2); for (size_t i=0;i<a.size();++i) vmc::check(a[i]==b[i] || std::isnan(a[i]),"mirrored solution");} vmc::state(cat(t1,e1.getDtTry())); }); });
  // what is streamed about the engine
  vmc::scenario(name+"/parameters",[&]{ Eng0 e(.1,0,1e-3,1e-7); std::ostringstream o; e.streamParameters(o); vmc::check(o.str().find("epsRel=0.001")!=string::npos && o.str().find("epsAbs=1e-07")!=string::npos,"streamed precisions: "+o.str()); vmc::same(logOf(e),string(""),"log at level 0"); parameters::Table t; cppqedutils::ode_engine::Pars<> p(t); p.epsRel=1e-4; p.epsAbs=1e-8; p.logLevel=1; Eng0 f(.1,p); std::ostringstream o2; f.streamParameters(o2); vmc::check(o2.str().find("epsRel=0.0001")!=string::npos && o2.str().find("epsAbs=1e-08")!=string::npos,"precisions taken from the parameters"); vmc::check(!logOf(f).empty(),"log at level 1"); vmc::step(); });
}
// advance() of a whole trajectory
template<template<typename> class Eng> void trajectories(const string& name) { for (auto& q : eqns) for (double dt : {1e-3,.3}) vmc::sequences(4,3,[&](const vector<int>& w){ const double len[]={.25,1e-4,.1,1./3}; vmc::scenario(cat(name,"/advance/",q.name,"/",dt,"/",vmc::str(vector<long>(w.begin(),w.end()))),[&]{
  vector<Eval> rec; Rhs<DArray<1>> rhs{&q,&rec}; auto tr=cppqedutils::simulated::make<Eng<DArray<1>>>(St<DArray<1>>::make(q.y0),rhs,{"a"},dt,0,1e-7,1e-7); double t=0; std::ostringstream log; for (int k : w) {t+=len[k]; cppqedutils::advanceTo(tr,t,log); vmc::step(); vmc::same(tr.getTime(),t,"time after advancing");} VD ex=q.exact(0,q.y0,t); auto r=tr.stream(log,6); auto a=std::get<1>(r); for (int i=0;i<q.n;++i) vmc::near(a(i),ex[i],"solution after advancing",name=="gsl"&&dt>.1?1e9:1e-3); }); }); }
// arrays of higher rank and larger size: every element is integrated as in the flattened array, by the same steps
template<template<typename> class Eng, template<int> class A> void shapes(const string& name) { using A1=A<1>; using A2=A<2>; using A3=A<3>;
  for (auto [a,b,c] : vector<std::array<int,3>>{{1,1,1},{2,3,1},{3,2,1},{1,4,2},{2,1,3},{3,4,5},{7,11,13}}) vmc::sequences(3,3,[&](const vector<int>& w){ const double len[]={.3,-.05,1e-4}; vmc::scenario(cat(name,"/shape/",a,",",b,",",c,"/",vmc::str(vector<long>(w.begin(),w.end()))),[&]{
    const int n=a*b*c; auto co=[n](int i){return -1.+2.*i/(n+1);}; A1 y1(n); A2 y2(a,b*c); A3 y3(a,b,c); for (int i=0;i<n;++i) {auto v=1.+.3*std::sin(i); y1(i)=v; y2(i/(b*c),i%(b*c))=v; y3(i/(b*c),i/c%b,i%c)=v;}
    auto f1=[&](const A1& y, A1& d, double t){for (int i=0;i<n;++i) d(i)=co(i)*(1+t)*y((i+1)%n);}; auto f2=[&](const A2& y, A2& d, double t){for (int i=0;i<n;++i) {int j=(i+1)%n; d(i/(b*c),i%(b*c))=co(i)*(1+t)*y(j/(b*c),j%(b*c));}}; auto f3=[&](const A3& y, A3& d, double t){for (int i=0;i<n;++i) {int j=(i+1)%n; d(i/(b*c),i/c%b,i%c)=co(i)*(1+t)*y(j/(b*c),j/c%b,j%c);}};
    Eng<A1> e1(.05,0,1e-6,1e-9); Eng<A2> e2(.05,0,1e-6,1e-9); Eng<A3> e3(.05,0,1e-6,1e-9); double t1=0,t2=0,t3=0; std::ostringstream log;
    for (int k : w) { e1.step(len[k],log,f1,t1,y1); e2.step(len[k],log,f2,t2,y2); e3.step(len[k],log,f3,t3,y3); vmc::step(3); if (!vmc::near(t2,t1,"time reached by the matrix",1e-12) || !vmc::near(t3,t1,"time reached by the rank-3 array",1e-12)) return; for (int i=0;i<n;++i) {vmc::near(y2(i/(b*c),i%(b*c)),y1(i),"element of the matrix",1e-12); vmc::near(y3(i/(b*c),i/c%b,i%c),y1(i),"element of the rank-3 array",1e-12);} }
    vmc::state(cat(t1,std::abs(y1(0)))); }); }); }
int main(int argc, char** argv) { vmc::init(argc,argv); const bool th=vmc::thorough();
  explore<DArray<1>,cppqedutils::ODE_EngineBoost<DArray<1>>>("boost real",true,th); explore<CArray<1>,cppqedutils::ODE_EngineBoost<CArray<1>>>("boost complex",true,th);
  explore<DArray<1>,cppqedutils::ODE_EngineGSL<DArray<1>>>("gsl real",false,th); explore<CArray<1>,cppqedutils::ODE_EngineGSL<CArray<1>>>("gsl complex",false,th);
  trajectories<cppqedutils::ODE_EngineBoost>("boost"); trajectories<cppqedutils::ODE_EngineGSL>("gsl");
  shapes<cppqedutils::ODE_EngineBoost,DArray>("boost real"); shapes<cppqedutils::ODE_EngineBoost,CArray>("boost complex"); shapes<cppqedutils::ODE_EngineGSL,DArray>("gsl real"); shapes<cppqedutils::ODE_EngineGSL,CArray>("gsl complex");
  return vmc::finish(); }
