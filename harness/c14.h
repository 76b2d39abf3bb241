// C14: composed systems against dense embeddings of their parts, for all feature masks of the parts.
#pragma once
#include "qharness.h"
using namespace q; using vmc::cat;
struct Part { Tables t; int mask; vector<int> at; double f; };
// generic tables of a part: every matrix depends on the times handed over, so that wrong times show; propagators are diagonal so that their order does not matter
inline Part part(int seed, int mask, const vector<int>& at, const Dims& d, int nJ, int nA, bool unitary, bool superOp, double f) { int n=1; for (int a : at) n*=d[a]; Part p; p.mask=mask; p.at=at; p.f=f;
  M h0=genM(n,seed), h1=genM(n,seed+50); p.t.H=[=](double t, double t0){return h0+C(t,t0)*h1;}; V e=genV(n,seed+7,false);
  p.t.U=[=](double t, double t0){V v; for (auto& x : e) v.push_back(std::exp(-I*x*C(t-t0)+C(.1*t0)*x)); return diag(v);}; p.t.unitary=unitary;
  for (int k=0;k<nJ;++k) {M j0=genM(n,seed+100+k), j1=genM(n,seed+200+k); p.t.J.push_back([=](double t){return j0+C(t)*j1;});} p.t.superOp=superOp;
  for (int k=0;k<nA;++k) p.t.A.push_back(genH(n,seed+300+k)); p.t.name=cat("p",seed); return p; }
struct KeyLine {int i; std::string text;};
inline vector<KeyLine> keyLines(const std::string& s) { vector<KeyLine> r; std::istringstream is(s); std::string l; while (std::getline(is,l)) { size_t p=l.find_first_not_of(" \t#"); if (p==std::string::npos || !isdigit(l[p])) continue; size_t e; int i=std::stoi(l.substr(p),&e); size_t b=l.find_first_not_of(". ",p+e); r.push_back({i,b==std::string::npos?"":l.substr(b)}); } return r; }
// the whole against its parts (frees in the order of their subsystems first, then interactions in the order given)
template<int R> void against(std::shared_ptr<const structure::QuantumSystem<R>> whole, const vector<Part>& parts, const Dims& d, bool heavy) {
  int n=total(d); vmc::same(dims<R>(whole->getDimensions()),d,"dimensions"); vmc::same((int)whole->getTotalDimension(),n,"total dimension");
  double hf=0; for (auto& p : parts) hf=std::max(hf,std::abs(p.f)); vmc::near(whole->highestFrequency(),hf,"highest frequency");
  auto any=[&](int bit){bool r=false; for (auto& p : parts) r|=bool(p.mask&bit); return r;};
  auto ha=dynamic_cast<const structure::Hamiltonian<R>*>(whole.get()); auto ex=dynamic_cast<const structure::Exact<R>*>(whole.get()); auto li=dynamic_cast<const structure::Liouvillean<R>*>(whole.get()); auto av=dynamic_cast<const structure::Averaged<R>*>(whole.get());
  vmc::same(bool(ha),any(1),"has a Hamiltonian"); vmc::same(bool(ex),any(2),"has a propagator"); vmc::same(bool(li),any(4),"has jumps"); if (!vmc::check(bool(av) || !any(8),"has averages")) return; if (vmc::failed()) return;
  int pass=0;
  for (auto [t,t0] : {std::pair(.7,.3),std::pair(-.4,.9),std::pair(0.,0.),std::pair(12.5,12.5)}) { const int w=pass++%2?500:0; V v=genV(n,w+5); M rho=genRho(n,w+6);
    if (ha) { M m(n); for (auto& p : parts) if (p.mask&1) m=m+embed(p.t.H(t,t0),p.at,d); if (heavy) {vmc::step(n); eq(matrixOf<R>(*ha,d,t,t0),m,"Hamiltonian");}
      auto psi=arr<R>(v,d); CArray<R> dp(ext<R>(d)); V start=genV(n,9); put<R>(dp,start); ha->addContribution(t,psi,dp,t0); vmc::step(); eq(toV<R>(dp),start+(-I)*(m*v),"Hamiltonian contribution is added"); eq(toV<R>(psi),v,"the state is not changed by the Hamiltonian"); }
    if (ex) { M u=eye(n); bool un=true; for (auto& p : parts) if (p.mask&2) {u=embed(p.t.U(t,t0),p.at,d)*u; un=un && p.t.unitary;} auto psi=arr<R>(v,d); ex->actWithU(t,psi,t0); vmc::step(); eq(toV<R>(psi),u*v,"propagator"); vmc::same(ex->applicableInMaster(),un,"unitarity"); }
    if (li) { vector<M> js; vector<std::string> names; for (auto& p : parts) if (p.mask&4) for (size_t k=0;k<p.t.J.size();++k) {js.push_back(embed(p.t.J[k](t),p.at,d)); names.push_back(cat(p.t.name," jump ",k));}
      if (!vmc::same(li->nAvr(),js.size(),"number of jump channels")) return;
      auto psi=sv<R>(v,d); auto ro=dop<R>(rho,d); vector<double> rv, rr; for (auto& j : js) {rv.push_back(std::pow(norm(j*v),2)); rr.push_back(tr(j*rho*dag(j)).real());}
      vmc::step(2); eqd(toD(li->rates(t,psi)),rv,"rates in a pure state"); eqd(toD(li->average(t,ro)),rr,"rates in a mixed state");
      for (size_t k=0;k<js.size();++k) { vmc::step(2); auto a=arr<R>(v,d); li->actWithJ(t,a,k); eq(toV<R>(a),js[k]*v,cat("jump ",k)); 
        bool so=true; size_t c=0; for (auto& p : parts) if (p.mask&4) for (size_t l=0;l<p.t.J.size();++l) if (c++==k) so=p.t.superOp;
        auto r=arr<2*R>(rho.a,[&]{Dims x=d; x.insert(x.end(),d.begin(),d.end()); return x;}()); CArray<2*R> dr(r.shape()); V start=genV(n*n,11); put<2*R>(dr,start);
        if (so) {li->actWithSuperoperator(t,r,dr,k); eq(toV<2*R>(dr),start+(js[k]*rho*dag(js[k])).a,cat("superoperator ",k)); eq(toV<2*R>(r),rho.a,"superoperator leaves the operand alone");}
        else vmc::check(vmc::throws<structure::SuperoperatorNotImplementedException>([&]{li->actWithSuperoperator(t,r,dr,k);}),cat("superoperator ",k," is not available")); if (vmc::failed()) return; }
      for (size_t first : {0,3}) { std::ostringstream os; size_t i=first; li->streamKey(os,i); auto kl=keyLines(os.str()); vmc::same(i,first+names.size(),"key counter"); if (vmc::same(kl.size(),names.size(),"number of key lines")) for (size_t k=0;k<kl.size();++k) {vmc::same(kl[k].i,int(first+k),"key number"); vmc::same(kl[k].text,names[k],"key");} } }
    if (av) { vector<double> raw, rawm, proc; vector<std::string> names; for (auto& p : parts) if (p.mask&8) { size_t b=raw.size(); for (size_t k=0;k<p.t.A.size();++k) {M a=embed(p.t.A[k],p.at,d); raw.push_back(dot(v,a*v).real()); rawm.push_back(tr(a*rho).real()); proc.push_back(rawm.back()-(k?rawm[b]:0.)); names.push_back(cat(p.t.name," average ",k));} }
      if (!vmc::same(av->nAvr(),raw.size(),"number of averages")) return;
      auto psi=sv<R>(v,d); auto ro=dop<R>(rho,d); vmc::step(2); eqd(toD(av->average(t,psi)),raw,"averages in a pure state"); auto a=av->average(t,ro); eqd(toD(a),rawm,"averages in a mixed state");
      structure::Averages ac(a.copy()); av->process(ac); eqd(toD(ac),proc,"processed averages"); std::ostringstream os; av->stream(ac,os,12); std::istringstream is(os.str()); vector<double> printed; double x; while (is>>x) printed.push_back(x); eqd(printed,proc,"printed averages",1e-9);
      for (size_t first : {0,3}) { std::ostringstream ks; size_t i=first; av->streamKey(ks,i); auto kl=keyLines(ks.str()); vmc::same(i,first+names.size(),"averages' key counter"); if (vmc::same(kl.size(),names.size(),"number of averages' key lines")) for (size_t k=0;k<kl.size();++k) {vmc::same(kl[k].i,int(first+k),"averages' key number"); vmc::same(kl[k].text,names[k],"averages' key");} } }
    if (vmc::failed()) return; }
  std::ostringstream os; whole->streamParameters(os); size_t at=0; for (auto& p : parts) {size_t f=os.str().find(p.t.name+"\n",at); if (!vmc::check(f!=std::string::npos,[&]{return cat("parameters of ",p.t.name," are printed in order");})) return; at=f+1;}
  vmc::state(vmc::cat(any(1),any(2),any(4),any(8))); }
