// C19: all pictures of an element are one physics: propagators under every call history, restarts of the interaction picture at every instant, factories by feature.
#include "elements.h"
using namespace el;
static V rhs(const Sys& s, double t, double t0, const V& v) {int n=v.size(); CArray<1> p=arr<1>(v,{n}), d(n); d=0; if (auto h=ha(s)) h->addContribution(t,p,d,t0); return toV<1>(d);}
// integrates the element's own equation of motion (4th order), the pictures coinciding at t0, and transforms back at the end
static V evolve(const Sys& s, V v, double t0, double t1, double h) { int N=std::max(1,(int)std::ceil(std::abs(t1-t0)/h)); double dt=(t1-t0)/N; if (ha(s)) for (int i=0;i<N;++i) {double t=t0+i*dt; V a=rhs(s,t,t0,v), b=rhs(s,t+dt/2,t0,v+C(dt/2)*a), c=rhs(s,t+dt/2,t0,v+C(dt/2)*b), d=rhs(s,t+dt,t0,v+C(dt)*c); v=v+C(dt/6)*(a+C(2)*b+C(2)*c+d);}
  if (auto e=ex(s)) {CArray<1> p=arr<1>(v,{(int)v.size()}); e->actWithU(t1,p,t0); v=toV<1>(p);} return v; }
int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough();
  const std::vector<std::pair<double,double>> calls={{0.,0.},{.4,0.},{.4,.4},{1.,.6},{.1,.5},{2.4,2.},{.400001,0.}};
  auto insts=all(th);
  for (auto& x : insts) if (!x.Gt) { const int n=x.n;
    // features
    vmc::scenario("features/"+x.name,[&]{ auto s=x.make(); auto e=ex(s); vmc::step();
      bool pumpOrLoss=x.family=="matrix" || x.family=="multilevel"; if (x.picture==QMP_SCH) {if (x.family!="qbitphase") vmc::check(!e,"no exact propagation in the Schroedinger picture"); if (x.family!="qbitphase") vmc::check(ha(s)!=nullptr,"a Hamiltonian in the Schroedinger picture");}
      else if (x.picture>=0) { if (!vmc::check(e!=nullptr,"exact propagation in interaction picture")) return; M u=matrixOfU<1>(*e,{n},.7,.1); if (x.picture==QMP_UIP) {eq(u*dag(u),eye(n),"unitarity"); vmc::check(e->applicableInMaster(),"applicable in the master equation");} else vmc::same(e->applicableInMaster(),maxabs(u*dag(u)-eye(n))<1e-12,"applicable in the master equation iff unitary"); }
      // where the master equation accepts the picture, the transformed jumps act like the jumps themselves
      if (e && e->applicableInMaster()) if (auto l=li(s)) for (size_t k=0;k<x.J.size();++k) for (double t : {.7,1.9}) { M u=matrixOfU<1>(*e,{n},t,0.), j=matrixOfJ<1>(*l,{n},0.,k), w(n), d=j; for (int i=0;i<n;++i) for (int m=0;m<n;++m) w(i,m)=j(i,m)*u(m,m)/u(i,i); C p=0; for (int i=0;i<n;++i) for (int m=0;m<n;++m) if (std::abs(j(i,m))>1e-12 && p==0.) p=w(i,m)/j(i,m); vmc::step(); if (p!=0.) {vmc::near(std::abs(p),1.,cat("modulus of the phase of jump ",k),1e-9); eq(w,p*j,cat("jump ",k," transformed to the picture"),1e-9);} }
      vmc::same(li(s)!=nullptr,!x.J.empty(),"jumps iff there is loss"); vmc::check(av(s)!=nullptr || x.family=="matrix","averages"); });
    if (auto probe=x.make(); ex(probe)) { M g=logU(x.make(),n);
      vmc::scenario("calls/"+x.name,[&]{ for (int len=1;len<=3;++len) vmc::sequences((int)calls.size(),len,[&](const std::vector<int>& seq){ if (vmc::failed()) return; auto s=x.make(); auto e=ex(s); V v=genV(n,2); CArray<1> p=arr<1>(v,{n}); std::string h; 
          for (int k : seq) { auto [t,t0]=calls[k]; h+=cat("(",t,",",t0,")"); e->actWithU(t,p,t0); for (int i=0;i<n;++i) v[i]*=std::exp(g(i,i)*(t-t0)); vmc::step(); eq(toV<1>(p),v,"after propagations "+h,1e-9); vmc::state(h); } });
        // the used object keeps the group property
        auto s=x.make(); auto e=ex(s); for (double a : {0.,.3,1.2}) for (double b : {0.,.5,-.2}) {M ua=matrixOfU<1>(*e,{n},a,0.), ub=matrixOfU<1>(*e,{n},b+3.,3.), uab=matrixOfU<1>(*e,{n},a+b-1.,-1.); eq(ua*ub,uab,cat("U(",a,")U(",b,")"),1e-10);} eq(matrixOfU<1>(*e,{n},5.,5.),eye(n),"no time, no change"); }); } }
  // evolution of the state over a time that is split at every choice of restarts; all pictures agree with the Schroedinger-picture exponential
  const std::vector<std::vector<double>> splits={{0.,1.},{0.,.3,1.},{0.,.5,.5,1.},{0.,.1,.7,1.},{2.,3.},{-1.,-.5,0.}};
  size_t stride=1, cnt=0;
  for (auto& x : insts) { if (x.Gt || x.family=="matrix") continue; if (cnt++%stride) continue; const int n=x.n;
    vmc::scenario("evolve/"+x.name,[&]{ auto s=x.make(); double gn=0; for (int i=0;i<n;++i) {double r=0; for (int j=0;j<n;++j) r+=std::abs(x.G(i,j)); gn=std::max(gn,r);} const double h=std::min(.004,.03/gn); for (auto& sp : splits) { V v=genV(n,4), w=expm(C(sp.back()-sp[0])*x.G)*v; for (size_t i=0;i+1<sp.size();++i) {v=evolve(s,v,sp[i],sp[i+1],h); vmc::step();} if (x.upToConst) {C f=dot(v,w)/dot(v,v); v=f*v;} eq(v,w,cat("evolved through ",sp),1e-6); vmc::state(cat(sp)); } }); }
  return vmc::finish(); }
