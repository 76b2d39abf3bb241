// C23: the evolution driver: every combination of method, initial-state kind, entanglement switch and run mode on small systems, against dense integration
// (no noise, master equation) and against members stepped one by one (quantum jumps, ensembles).
#include "EvolutionBinary.h"
#include "EvolutionComposite.h"
#include "qharness.h"
#include "mocktraj.h"
#include "Mode.h"
#include "Qbit.h"
#include "JaynesCummings.h"
using namespace q; using vmc::cat; using D=vector<double>;
static double neg(const M& r, const Dims& d, const vector<int>& sub) {M t(r.n); for (int i=0;i<r.n;++i) for (int j=0;j<r.n;++j) {auto x=unflat(i,d), y=unflat(j,d); for (int s : sub) std::swap(x[s],y[s]); t(flat(x,d),flat(y,d))=r(i,j);} double s=0; for (double e : heig(t)) s+=std::abs(e); return (s-1)/2;}
static double ent(const M& r) {double s=0; for (double x : heig(r)) if (x>0) s-=x*std::log(x); return s;}
static D ems(const M& rho, const Dims& d, const vector<int>& sub, int e) {D w; if (sub.empty()) return w; vector<int> rest; for (int i=0;i<(int)d.size();++i) if (std::find(sub.begin(),sub.end(),i)==sub.end()) rest.push_back(i); M r0=reduce(rho,sub,d), r1=reduce(rho,rest,d); if (e&1) w.push_back(neg(rho,d,sub)); if (e&2) w.push_back(ent(r0)+ent(r1)-ent(rho)); if (e&4) w.push_back(tr(r0*r0).real()); return w;}
static D avg(const Tables& t, const M& rho) {D a; for (auto& o : t.A) a.push_back(tr(o*rho).real()); for (size_t k=1;k<a.size();++k) a[k]-=a[0]; return a;} // the table-driven systems subtract the first one
static Tables tables(int n, int mask) { Tables t; M h0=genH(n,1), K=diag(genV(n,3,false)); for (auto& x : K.a) x=x.real(); vector<M> J; for (int k=0;k<2;++k) {M j(n); j(0,n-1)=C(.5+.3*k); if (k) {j(0,n-1)=0; j(n-1,0)=C(.4);} J.push_back(j);} M nh=h0; if (mask&4) for (auto& j : J) nh=nh+(-.5*I)*(dag(j)*j);
  t.H=[=](double tt, double t0)->M{return mask&2 ? expm((I*(tt-t0))*K)*nh*expm((-I*(tt-t0))*K) : nh;}; t.U=[=](double tt, double t0)->M{return expm((-I*(tt-t0))*K);}; for (auto& j : J) t.J.push_back([=](double)->M{return j;}); for (int i=0;i<3;++i) t.A.push_back(genH(n,40+i)); return t; }
static M Lin(const Tables& tb, int mask, const M& r, bool jumps=true) { int n=r.n; M K(n); if (mask&2) {M u=tb.U(1e-3,0); for (int i=0;i<n;++i) K(i,i)=-std::arg(u(i,i))/1e-3;} M x=(-I)*(K*r); if (mask&1) x=x+(-I)*(tb.H(0,0)*r); M y=x+dag(x); if (mask&4 && jumps) for (auto& j : tb.J) {M b=j(0); y=y+b*r*dag(b);} return y; }
static M evolveTo(const Tables& tb, int mask, M rho, double T, bool jumps=true) { if (T<=0) return rho; int N=std::max(1,int(std::ceil(T/2e-3))); double h=T/N; auto f=[&](const M& r){return Lin(tb,mask,r,jumps);}; for (int k=0;k<N;++k) {M k1=f(rho), k2=f(rho+C(.5*h)*k1), k3=f(rho+C(.5*h)*k2), k4=f(rho+C(h)*k3); rho=rho+C(h/6)*(k1+C(2)*k2+C(2)*k3+k4);} return rho; }
struct Mode_ {std::string name; double T; int dc; double Dt; long NDt; D times; int N=3; bool noise=true;};
static const vector<Mode_> runs={{"T",.7,0,.2,0,{0,.2,.4,.6,.7}},{"NDt",9.,0,.15,4,{0,.15,.3,.45,.6},1},{"dc",.5,3,.1,0,{},7},{"zero",0.,0,.1,0,{0},2},{"quiet",.7,0,.2,0,{0,.2,.4,.6,.7},5,false}};
template<typename P> void fill(P& p, const Mode_& m, int method, int e, int N, const std::string& ofn) {p.T=m.T; p.dc=m.dc; p.Dt=m.Dt; p.NDt=m.NDt; p.evol=evolution::Method(method); p.ems=e; p.nTraj=N; p.ofn=ofn; p.epsRel=1e-9; p.epsAbs=1e-9; p.seed=1001; p.prngStream=1; p.logLevel=0; p.precision=12; p.noise=m.noise; p.dpLimit=.05; p.overshootTolerance=10;}
static const int SINGLE_=evolution::SINGLE, ENSEMBLE_=evolution::ENSEMBLE, MASTER_=evolution::MASTER; static const char* MN[]={"single","ensemble","master"};
static const char* IN_[]={"sv&","sv&&","do&","do&&"};
struct Rows {vector<D> r; int keys=0; long nan=0; vector<std::string> lab;};
static Rows parse(const std::string& txt) {Rows o; std::istringstream is(txt); std::string l; while (std::getline(is,l)) {if (l.empty()||l.find_first_not_of(" \t")==std::string::npos) continue; if (l[0]=='#') {size_t b=l.find_first_not_of("# \t"); if (b!=std::string::npos && std::isdigit((unsigned char)l[b])) {size_t e=l.find_first_not_of("0123456789",b); if (e!=std::string::npos && l[e]=='.' && l[e+1]==' ') {int k=std::stoi(l.substr(b,e-b)); if (k==o.keys+1) {o.keys=k; std::string x=l.substr(e+2); for (auto& c : x) c=std::tolower((unsigned char)c); o.lab.push_back(x);}}} continue;} D v; std::istringstream ls(l); std::string t; while (ls>>t) v.push_back(std::atof(t.c_str())); o.r.push_back(v);} return o;}
template<int R, typename Call> void go(const std::string& pre, const Dims& d, const vector<int>& sub, int emsMax, Call call, bool th) { const int n=total(d);
  for (int mask : {1,3,5,7,0,2}) for (int method=0;method<3;++method) for (int ini=0;ini<4;++ini) for (int e=0;e<emsMax;++e) for (auto& m : runs) for (int out=0;out<3;++out) { // out: 0 file, 1 cout, 2 no streaming
    if (!th && ((e && (mask==0 || mask==2 || m.name!="T")) || (out && m.name=="NDt"))) continue;
    vmc::scenario(cat(pre,"/features=",mask,"/",MN[method],"/",IN_[ini],"/ems",e,"/",m.name,"/",std::vector<std::string>{"file","cout","silent"}[out]),[&]{ Tables tb=tables(n,mask); int N=m.N; V v=genV(n,8); M rho0=ini<2 ? outer(v,v) : genRho(n,9);
      vstub::script()=[](uint64_t seed, uint64_t stream, uint64_t pos, uint64_t& o){ static const double a[]={.001,.6,.02,.9,.005}; o=uint64_t(std::ldexp(a[(pos+2*stream)%5],64)); return true; };
      auto sys=makeWhole<R>(mask|8,d,tb); parameters::Table pt; evolution::Pars<> p(pt); fill(p,m,method,e,N,out==0?"c23out":""); mock::rm("c23out"); mock::rm("c23out.state"); auto psi=sv<R>(v,d); auto rho=dop<R>(rho0,d); evolution::TemporalStreamedArray res; std::string txt; bool threw=false;
      { mock::CaptureCout cap; try { if (ini==0) res=call(psi,sys,p,out<2,true); else if (ini==1) res=call(sv<R>(v,d),sys,p,out<2,true); else if (ini==2) res=call(rho,sys,p,out<2,true); else res=call(dop<R>(rho0,d),sys,p,out<2,true); } catch (const std::runtime_error&) {threw=true;} txt=cap.str(); }
      if (out==0) txt=mock::slurp("c23out"); vmc::step(); vmc::same(threw,ini>=2 && method!=MASTER_,"stochastic trajectories from a density operator are refused"); if (threw) return;
      // the expected states at the instants of streaming
      vector<D> got; D times; for (auto& x : res) {times.push_back(std::get<0>(x)); got.push_back(toD(std::get<2>(x)));} bool dcMode=m.dc && method!=ENSEMBLE_; D wt=m.times; if (m.dc && !dcMode) wt={0,.1,.2,.3,.4,.5}; if (m.T==0) {if (times.empty()) wt.clear();} // the line printed only because the run ends there need not be recorded
      if (!dcMode) {if (!eqd(times,wt,"instants of streaming",1e-10)) return;} else {if (!vmc::check(times.size()>=1 && times.front()==0 && times.back()<=m.T,"begins at zero, not beyond T")) return; if (times.back()!=m.T) {times.push_back(m.T); got.push_back({});}} if (times.empty()) {times={0}; got={{}};}
      vector<M> want; using Eng=cppqedutils::ODE_EngineBoost<quantumdata::StateVectorLow<R>>; double tol=2e-6; int ns=method==ENSEMBLE_ ? N : 1; std::ostringstream log;
      if (method==MASTER_ || !(mask&4) || !m.noise) {for (double t : times) {M r=evolveTo(tb,mask,rho0,t,method==MASTER_); want.push_back(C(1./tr(r).real())*r);}}
      else { tol=1e-9; parameters::Table pt2; evolution::Pars<> p2(pt2); fill(p2,m,method,0,N,""); for (size_t k=0;k<times.size();++k) want.push_back(M(n)); for (int i=0;i<ns;++i) { p2.prngStream=1+i; auto tr=mcwf::make<Eng,pcg64>(sys,sv<R>(v,d),p2); for (size_t k=0;k<times.size();++k) {if (!dcMode) cppqedutils::advanceTo(tr,times[k],log); else if (k) {for (int s=0;s<m.dc && tr.getTime()<m.T;++s) tr.step(m.T-tr.getTime(),log);} if (!vmc::near(tr.getTime(),times[k],"instant of the member",1e-10)) return; V w=toV<R>(tr.getStateVector()); want[k]=want[k]+C(1./ns)*outer(w,w); vmc::step();} } }
      for (size_t k=0;k<times.size();++k) { D w=avg(tb,want[k]), x=method==SINGLE_ ? D{} : ems(want[k],d,sub,e); w.insert(w.end(),x.begin(),x.end()); if (got[k].empty()) got[k]=w; else if (!eqd(got[k],w,cat("averages at t=",times[k]),x.empty()?tol:std::max(tol,2e-5))) return; vmc::state(hash(want[k].a)); }
      // printed lines and key
      if (out==2) {vmc::check(txt.empty(),"no output if not streaming"); } else { Rows r=parse(txt); if (!vmc::same(r.r.size(),times.size(),"number of lines")) return; for (size_t k=0;k<times.size();++k) { if (!vmc::same(r.r[k].size(),got[k].size()+2,"number of columns")) return; vmc::near(r.r[k][0],times[k],"printed time",1e-9); eqd(D(r.r[k].begin()+2,r.r[k].end()),got[k],"printed averages",k+1==times.size()?3e-5:1e-9); } if (!vmc::same(r.keys,int(got[0].size()+2),"number of key entries")) return; if (method!=SINGLE_ && !sub.empty()) { static const char* ln[]={"negativity","mutual information","purity"}; vector<std::string> wl; for (int k=0;k<3;++k) if ((e>>k)&1) wl.push_back(ln[k]); for (size_t k=0;k<wl.size();++k) vmc::check(r.lab[r.lab.size()-wl.size()+k].find(wl[k])!=std::string::npos,cat("the key names the column ",wl[k])); } }
      // the evolved state is accessible through the lvalue it was started from
      if (ini==0) { if (method==SINGLE_) {V w=toV<R>(psi); eq(outer(w,w),want.back(),"evolved state vector",tol);} else eq(toV<R>(psi),v,"the initial state vector is kept",1e-15); } else if (ini==2) eq(toM<R>(rho),want.back(),"evolved density operator",tol);
    }); } }

int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough();
  auto plain=[](auto&& s, auto sys, const auto& p, bool a, bool b){return evolve(std::forward<decltype(s)>(s),sys,p,a,b);};
  go<1>("one",{3},{},8,plain,th); go<1>("one11",{11},{},1,plain,th); if (th) go<1>("one2",{2},{},2,plain,th);
  go<2>("two/none",{2,3},{},2,plain,th);
  go<2>("two/0",{2,2},{0},8,[](auto&& s, auto sys, const auto& p, bool a, bool b){return evolve<0>(std::forward<decltype(s)>(s),sys,p,a,b);},th);
  go<2>("two/1",{2,3},{1},8,[](auto&& s, auto sys, const auto& p, bool a, bool b){return evolve<tmptools::Vector<1>>(std::forward<decltype(s)>(s),sys,p,a,b);},th);
  go<3>("three/20",{2,1,2},{2,0},8,[](auto&& s, auto sys, const auto& p, bool a, bool b){return evolve<2,0>(std::forward<decltype(s)>(s),sys,p,a,b);},th);
  if (th) go<2>("two/big",{3,5},{1},8,[](auto&& s, auto sys, const auto& p, bool a, bool b){return evolve<1>(std::forward<decltype(s)>(s),sys,p,a,b);},th);
  // real elements: pictures and methods; two-part systems measure the entanglement of the first part by default
  auto hilb=[](int c, double g, double dq, double dm, C eta){ M s=annihilate(2), a=annihilate(c); M H=(-dq)*kron(dag(s)*s,eye(c))+(-dm)*kron(eye(2),dag(a)*a)+(I*g)*kron(s,dag(a))+(-I*g)*kron(dag(s),a)+I*(eta*kron(eye(2),dag(a))-std::conj(eta)*kron(eye(2),a)); return H; };
  for (int pic : {QMP_IP,QMP_UIP,QMP_SCH}) for (int method=0;method<3;++method) for (int loss=0;loss<2;++loss) for (int e=0;e<8;++e) vmc::scenario(cat("jc/",pic,"/",MN[method],"/loss",loss,"/ems",e),[&]{ const int c=3; double kappa=loss?.3:0, gamma=loss?.2:0, g=.8; C eta(.3,.1); parameters::Table pt; evolution::Pars<> p(pt); fill(p,runs[0],method,e,2,"c23jc"); mock::rm("c23jc"); mock::rm("c23jc.state"); vstub::script()=[](uint64_t, uint64_t, uint64_t, uint64_t& o){o=~0ull; return true;};
      qbit::ParsPumpedLossy pq(pt,"Q"); pq.delta=.4; pq.gamma=gamma; mode::ParsPumpedLossy pm(pt,"M"); pm.cutoff=c; pm.delta=-1.; pm.kappa=kappa; pm.eta=eta; auto b=binary::make(jaynescummings::make(qbit::make(pq,QM_Picture(pic)),mode::make(pm,QM_Picture(pic)),g)); V v=genV(2*c,8); evolution::TemporalStreamedArray res; bool threw=false; try {res=evolve(sv<2>(v,{2,c}),b,p,true,true);} catch (const master::SystemNotApplicable&) {threw=true;} vmc::step();
      vmc::same(threw,method==MASTER_ && pic==QMP_IP && loss,"master equation in a non-unitary picture is refused"); if (threw) return; M s=kron(annihilate(2),eye(c)), a=kron(eye(2),annihilate(c)); M H=hilb(c,g,.4,-1.,eta); vector<M> J; if (loss) J={C(std::sqrt(2*gamma))*s,C(std::sqrt(2*kappa))*a}; M nh=H; for (auto& j : J) nh=nh+(-.5*I)*(dag(j)*j);
      M rho=outer(v,v); double t=0; for (auto& x : res) { double T=std::get<0>(x); int N=int(std::ceil((T-t)/1e-3)); if (N) {double h=(T-t)/N; auto f=[&](const M& r){M y=(-I)*(nh*r); y=y+dag(y); if (method==MASTER_) for (auto& j : J) y=y+j*r*dag(j); return y;}; for (int k=0;k<N;++k) {M k1=f(rho), k2=f(rho+C(.5*h)*k1), k3=f(rho+C(.5*h)*k2), k4=f(rho+C(h)*k3); rho=rho+C(h/6)*(k1+C(2)*k2+C(2)*k3+k4);}} t=T; M r=C(1./tr(rho).real())*rho; // no jump occurs with the scripted draws
        M rq=reduce(r,{0},{2,c}), rm=reduce(r,{1},{2,c}), N_=dag(annihilate(c))*annihilate(c), A=annihilate(c); double nn=tr(N_*rm).real(); D w={rq(0,0).real(),rq(1,1).real(),rq(1,0).real(),rq(1,0).imag(),nn,tr(N_*N_*rm).real()-nn*nn,tr(A*rm).real(),tr(A*rm).imag()}; if (method!=SINGLE_) {D x=ems(r,{2,c},{0},e); w.insert(w.end(),x.begin(),x.end());} if (!eqd(toD(std::get<2>(x)),w,cat("at t=",T),5e-5)) return; vmc::state(hash(r.a)); } vmc::same(res.size(),runs[0].times.size(),"lines"); });
  // names and the adjustment of the picture
  for (int m=-1;m<3;++m) for (int pc=-1;pc<3;++pc) for (int order=0;order<2;++order) for (int withEvol=0;withEvol<2;++withEvol) vmc::scenario(cat("picture/evol",m,"/picture",pc,"/order",order,"/",withEvol),[&]{ static const char* pn[]={"IP","UIP","Sch"}; vector<std::string> a={"prog"}; if (!withEvol && m>=0) return; auto e=[&]{if (m>=0) {a.push_back("--evol"); a.push_back(MN[m]);}}; auto q=[&]{if (pc>=0) {a.push_back("--picture"); a.push_back(pn[pc]);}}; if (order) {e(); q();} else {q(); e();} vector<char*> av; for (auto& s : a) av.push_back(s.data()); parameters::Table t; std::unique_ptr<evolution::Pars<>> p; if (withEvol) p=std::make_unique<evolution::Pars<>>(t); QM_Picture got=updateWithPicture(t,av.size(),av.data(),"--"); vmc::step(); int want=pc<0 ? QMP_IP : std::vector<int>{QMP_IP,QMP_UIP,QMP_SCH}[pc]; if (withEvol && m==2 && want==QMP_IP) want=QMP_UIP; vmc::same(int(got),want,"picture"); if (withEvol) vmc::same(int(p->evol),m<0?SINGLE_:m,"method"); vmc::state(cat(got)); });
  vmc::scenario("names",[&]{ for (int m=0;m<3;++m) {std::ostringstream o; o<<evolution::Method(m); vmc::same(o.str(),std::string(MN[m]),"name of method"); evolution::Method x=evolution::Method((m+1)%3); std::istringstream i(MN[m]); i>>x; vmc::same(int(x),m,"parsed method"); vmc::step();} int k=0; for (auto pc : {QMP_IP,QMP_UIP,QMP_SCH}) {static const char* pn[]={"IP","UIP","Sch"}; std::ostringstream o; o<<pc; vmc::same(o.str(),std::string(pn[k]),"name of picture"); QM_Picture x=pc==QMP_IP?QMP_SCH:QMP_IP; std::istringstream i(pn[k++]); i>>x; vmc::same(int(x),int(pc),"parsed picture");}
    for (auto bad : {"","Single","masterr","ens","IP","x"}) {evolution::Method x=evolution::ENSEMBLE; std::istringstream i(bad); i>>x; vmc::check(!i,cat("unknown method refused: ",bad)); vmc::same(int(x),ENSEMBLE_,"value kept");} for (auto bad : {"","ip","SCH","UIPP","single"}) {QM_Picture x=QMP_UIP; std::istringstream i(bad); i>>x; vmc::check(!i,cat("unknown picture refused: ",bad)); vmc::same(int(x),int(QMP_UIP),"value kept");} });
  // switches given on the command line
  for (int e=0;e<8;++e) vmc::scenario(cat("switch/",e),[&]{ std::string b; for (int k=2;k>=0;--k) b+=(e>>k)&1?'1':'0'; vector<std::string> a={"prog","--ems",b}; vector<char*> av; for (auto& s : a) av.push_back(s.data()); parameters::Table t; evolution::Pars<> p(t); update(t,av.size(),av.data(),"--"); vmc::step(); vmc::same((int)p.ems.to_ulong(),e,"switch"); });
  return vmc::finish(); }
