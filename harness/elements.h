// Instances of the free elements with their textbook matrices (written independently of the code under test).
#pragma once
#include "qharness.h"
#include "Mode.h"
#include "HomodynedMode.h"
#include "BichromaticMode.h"
#include "Qbit.h"
#include "Spin.h"
#include "MultiLevel.h"
#include "PumpedTwoLevelAtom.h"
#include "TimeIndependentMatrixHamiltonian.h"

namespace el {
using namespace q; using vmc::cat; using Sys=structure::QuantumSystemPtr<1>;

struct Inst { std::string family, name; std::function<Sys()> make; int n; M G; // total generator d psi/dt = G psi in the Schroedinger picture (no jumps)
  vector<M> J; bool negRate=false; std::function<M(double)> Gt;                // jump operators; time dependent generator, if any
  int picture=-1; bool upToConst=false; bool lossNotOf=false;                  // G only up to a multiple of 1; G's loss is not that of the jump operators
  M g(double t) const {return Gt ? Gt(t) : G;} };
inline const char* pic(int p) {return p==QMP_IP?"IP":p==QMP_UIP?"UIP":"SCH";}
inline const structure::Exact<1>* ex(const Sys& s) {return dynamic_cast<const structure::Exact<1>*>(s.get());}
inline const structure::Hamiltonian<1>* ha(const Sys& s) {return dynamic_cast<const structure::Hamiltonian<1>*>(s.get());}
inline const structure::Liouvillean<1>* li(const Sys& s) {return dynamic_cast<const structure::Liouvillean<1>*>(s.get());}
inline const structure::Averaged<1>* av(const Sys& s) {return dynamic_cast<const structure::Averaged<1>*>(s.get());}
inline M number(int n) {M r(n); for (int i=0;i<n;++i) r(i,i)=i; return r;}
inline M kerr(int n) {M r(n); for (int i=0;i<n;++i) r(i,i)=i*(i-1.); return r;}
inline M spinPlus(int n, int twoS) {M r(n); for (int i=0;i+1<n;++i) r(i+1,i)=std::sqrt(double((twoS-i)*(i+1))); return r;}
inline M spinZ(int n, int twoS) {M r(n); for (int i=0;i<n;++i) r(i,i)=i-twoS/2.; return r;}
inline M ket(int n, int i, int j) {M r(n); r(i,j)=1.; return r;}

struct ModePars {int cutoff; double delta, kappa, nTh; C eta; double kerr, kerrAlter; std::string str() const {return cat("cutoff",cutoff,"/delta",delta,"/kappa",kappa,"/nTh",nTh,"/eta",eta.real(),",",eta.imag(),"/kerr",kerr,"/alt",kerrAlter);}};
template<typename P> void fill(P& p, const ModePars& m) {p.cutoff=m.cutoff; p.delta=m.delta; p.omegaKerr=m.kerr; p.omegaKerrAlter=m.kerrAlter; if constexpr (std::is_base_of_v<mode::ParsLossy,P>) {p.kappa=m.kappa; p.nTh=m.nTh;} if constexpr (std::is_base_of_v<mode::ParsPumped,P>) p.eta=m.eta;}
inline M modeG(const ModePars& m) {int n=m.cutoff; M a=annihilate(n); return (-(m.kappa*(2*m.nTh+1)-I*m.delta))*number(n)+(-I*(m.kerr+m.kerrAlter))*kerr(n)+m.eta*dag(a)-std::conj(m.eta)*a;}
inline vector<M> modeJ(const ModePars& m) {vector<M> r; int n=m.cutoff; if (m.kappa) {r.push_back(std::sqrt(2*m.kappa*(m.nTh+1))*annihilate(n)); if (m.nTh) r.push_back(std::sqrt(2*m.kappa*m.nTh)*dag(annihilate(n)));} return r;}

inline vector<ModePars> modePars(bool th) { vector<ModePars> r; vector<int> cut=th ? vector<int>{1,2,3,5,8} : vector<int>{2,3,5};
  for (int c : cut) for (double d : {0.,-1.5,2.}) for (double k : {0.,.7}) for (double nth : {0.,.4}) for (C e : {C(0.),C(.3,-.8)}) for (double w : {0.,.25}) for (double wa : {0.,-.15}) if ((k || !nth) && (c>2 || (!w && !wa) || d<0) && c>1) r.push_back({c,d,k,nth,e,w,wa});
  // large cutoffs, tiny (but nonzero) parameters, purely imaginary and negative drives, strong thermal light
  for (ModePars m : vector<ModePars>{{12,-.5,.05,.4,C(.3,-.8),.02,-.01},{24,.3,.02,0.,C(0.,.5),0.,0.},{20,-.3,0.,0.,0.,.01,0.},{9,.3,.03,2.5,0.,0.,0.},{3,1e-6,1e-6,0.,0.,0.,0.},{3,0.,1e-6,1e-6,C(1e-6,0.),0.,0.},{3,-1.,.7,0.,C(0.,-1e-6),0.,0.},{4,.5,0.,0.,C(-.4,0.),1e-6,0.},{4,.5,.7,3.5,C(0.,.4),0.,1e-6},{3,40.,5.,0.,C(30.,0.),0.,0.},{4,0.,1e-6,0.,C(1.,1.),0.,0.},{4,-1e-6,0.,0.,C(1.,-1.),0.,0.}}) r.push_back(m); return r; }

inline vector<Inst> modes(bool th) { vector<Inst> r;
  for (auto& m : modePars(th)) for (int p : {QMP_IP,QMP_UIP,QMP_SCH}) { Inst x; x.n=m.cutoff; x.G=modeG(m); x.J=modeJ(m); x.picture=p; x.family="mode";
    auto add=[&](std::string kind, std::function<Sys()> f) {Inst y=x; y.name=cat("mode/",kind,"/",pic(p),"/",m.str()); y.make=f; r.push_back(y);};
    auto viaTable=[=]<typename P>(P*) {return std::function<Sys()>([=]()->Sys {parameters::Table t; P q(t); fill(q,m); return mode::make(q,QM_Picture(p));});};
    add("pumpedlossy",viaTable((mode::ParsPumpedLossy*)0));
    if (m.eta==0.) add("lossy",viaTable((mode::ParsLossy*)0));
    if (!m.kappa) add("pumped",viaTable((mode::ParsPumped*)0));
    if (!m.kappa && m.eta==0.) add("plain",viaTable((mode::Pars*)0)); }
  return r; }

// homodyne detection: J0=alpha+sqrt(2k(nTh+1))a, J1=conj(alpha)+sqrt(2k nTh)a^dagger; same averaged dynamics as the lossy mode
inline vector<Inst> homodyned(bool th) { vector<Inst> r;
  for (auto& m : modePars(th)) if (m.kappa) for (C al : {C(0.),C(.6,.3),C(-1.1,0.)}) for (int pumped=0;pumped<2;++pumped) { if (!pumped && m.eta!=0.) continue; Inst x; x.n=m.cutoff; x.family="homodyned"; int n=m.cutoff; M a=annihilate(n);
    x.name=cat("homodyned/",pumped?"pumped":"lossy","/",m.str(),"/alpha",al.real(),",",al.imag()); x.G=modeG(m);
    if (al!=0.) { x.negRate=true; x.J={al*eye(n)+std::sqrt(2*m.kappa*(m.nTh+1))*a, std::conj(al)*eye(n)+std::sqrt(2*m.kappa*m.nTh)*dag(a)}; x.upToConst=true;
      x.G=x.G-std::sqrt(2*m.kappa*(m.nTh+1))*std::conj(al)*a-std::sqrt(2*m.kappa*m.nTh)*al*dag(a); } // the averaged dynamics is independent of alpha iff the no-jump part contains exactly these terms
    else {x.J=modeJ(m); x.picture=QMP_SCH;}
    x.make=[=]()->Sys{parameters::Table t; if (pumped) {mode::ParsHomodyned<mode::ParsPumpedLossy> q(t); fill(static_cast<mode::ParsPumpedLossy&>(q),m); q.homodyneAmplitude=al; return mode::make<mode::Averaged>(q);} else {mode::ParsHomodyned<mode::ParsLossy> q(t); fill(static_cast<mode::ParsLossy&>(q),m); q.homodyneAmplitude=al; return mode::make<mode::Averaged>(q);}}; r.push_back(x); }
  return r; }

// a second drive detuned from the first one: in the frame of the first, eta' a^dagger exp(i(delta'-delta)t)-h.c. with the detunings measured as (drive frequency - mode frequency)
inline vector<Inst> bichromatic(bool th) { vector<Inst> r;
  for (auto& m : modePars(th)) for (C eo : {C(0.),C(.5,.2)}) for (double dO : {0.,1.3,-1.5}) { if (eo==0. && dO) continue; Inst x; x.n=m.cutoff; x.family="bichromatic"; x.name=cat("bichromatic/",m.str(),"/other",eo.real(),",",eo.imag(),"/deltaOther",dO); x.G=modeG(m); x.J=modeJ(m); M a=annihilate(m.cutoff); double dd=dO-m.delta; M G=x.G;
    x.picture=QMP_IP; if (eo!=0.) {if (!m.kappa) x.J={M(m.cutoff)}; x.Gt=[=](double t)->M{C e=eo*std::exp(-I*dd*t); return G+e*dag(a)-std::conj(e)*a;};}
    x.make=[=]()->Sys{parameters::Table t; mode::ParsBichromatic q(t); fill(static_cast<mode::ParsPumpedLossy&>(q),m); q.deltaOther=dO; q.etaOther=eo; return mode::make<mode::Averaged>(q,QMP_IP);}; r.push_back(x); }
  return r; }

inline vector<Inst> qbits(bool) { vector<Inst> r; M s=annihilate(2), sz=diag({1.,-1.});
  for (double d : {0.,-1.5,2.,1e-6,-30.}) for (double g : {0.,.7,1e-6,20.}) for (C e : {C(0.),C(.3,-.8),C(0.,1e-6),C(-2.,0.),C(0.,25.)}) { M G=(-(g-I*d))*number(2)+std::conj(e)*s-e*dag(s);
    for (int p : {QMP_IP,QMP_UIP,QMP_SCH}) for (double gp : {-1.,0.,.3,1e-6}) { Inst x; x.n=2; x.family="qbit"; x.G=G; x.picture=p; if (g) x.J={std::sqrt(2*g)*s}; if (gp>0) {x.J={std::sqrt(2*g)*s,std::sqrt(2*gp)*sz}; x.negRate=true; x.upToConst=true; x.family="qbitphase";}
      x.name=cat("qbit/",pic(p),"/delta",d,"/gamma",g,"/eta",e.real(),",",e.imag(),"/gammapar",gp);
      x.make=[=]()->Sys{parameters::Table t; if (gp<0) {qbit::ParsPumpedLossy q(t); q.delta=d; q.gamma=g; q.eta=e; return qbit::make(q,QM_Picture(p));} qbit::ParsPumpedLossyPhaseNoise q(t); q.delta=d; q.gamma=g; q.eta=e; q.gamma_parallel=gp; return qbit::make(q,QM_Picture(p));}; r.push_back(x); }
    { Inst x; x.n=2; x.family="ptla"; x.G=G; x.J={std::sqrt(2*g)*s}; x.name=cat("ptla/delta",d,"/gamma",g,"/eta",e.real(),",",e.imag()); x.picture=QMP_SCH; x.make=[=]()->Sys{parameters::Table t; qbit::ParsPumpedLossy q(t); q.delta=d; q.gamma=g; q.eta=e; return std::make_shared<PumpedTwoLevelAtomSch>(q);}; r.push_back(x); } }
  return r; }

inline vector<Inst> spins(bool th) { vector<Inst> r;
  for (int twoS : th ? vector<int>{1,2,3,4,5,6,9,20} : vector<int>{1,2,3,4,9,20}) for (int dim : {0,2,3,9}) { if (twoS>6 && dim==2) continue; int n=(dim && dim<twoS+1) ? dim : twoS+1; for (double w : {0.,1.3,-.6}) for (double g : {0.,.7}) for (int kind=0;kind<4;++kind) for (double th_ : {0.,1.1}) for (double ph : {0.,.7}) { // Spin, LossySpin, SpinSch, LossySpinSch
      if ((kind<2 && (th_||ph)) || (!th_ && ph)) continue; Inst x; x.n=n; x.family="spin"; x.upToConst=true; M sp=spinPlus(n,twoS), sm=dag(sp), sz=spinZ(n,twoS), sx=C(.5)*(sp+sm), sy=(-.5*I)*(sp-sm); M sn=C(std::sin(th_)*std::cos(ph))*sx+C(std::sin(th_)*std::sin(ph))*sy+C(std::cos(th_))*sz;
      x.G=(-C(g,w))*sn; x.picture=kind<2 ? QMP_IP : QMP_SCH; if (kind&1) x.J={std::sqrt(2*g)*sm}; x.lossNotOf=!(kind&1) || th_!=0; x.name=cat("spin/",std::vector<std::string>{"Spin","LossySpin","SpinSch","LossySpinSch"}[kind],"/twoS",twoS,"/dim",dim,"/omega",w,"/gamma",g,"/theta",th_,"/phi",ph);
      x.make=[=]()->Sys{parameters::Table t; spin::Pars p(t); p.twoS=twoS; p.dim=dim; p.theta=th_; p.phi=ph; p.omega=w; p.gamma=g; switch (kind) {case 0: return std::make_shared<Spin>(p); case 1: return std::make_shared<LossySpin>(p); case 2: return std::make_shared<SpinSch>(p);} return std::make_shared<LossySpinSch>(p);}; r.push_back(x); } }
  return r; }

// multi-level atoms: drive (l,m) adds conj(eta)|l><m|-eta|m><l|, decay (l,m) is the jump |m> -> |l>
struct Tr {int l,m; C v;};
inline M mlG(int n, const vector<double>& d, const vector<Tr>& pumps, const vector<Tr>& decays) {M G(n); for (int i=0;i<n;++i) G(i,i)+=I*d[i]; for (auto& p : pumps) {G(p.l,p.m)+=std::conj(p.v); G(p.m,p.l)-=p.v;} for (auto& k : decays) G(k.m,k.m)-=k.v; return G;}
template<int NL, typename VP, typename VL> void addML(vector<Inst>& r, const std::string& nm, const VP& vp, const VL& vl, const vector<Tr>& pumps, const vector<Tr>& decays) { namespace ml=multilevel;
  for (int dv=0;dv<3;++dv) for (int gk=0;gk<6;++gk) { Inst x; x.n=NL; x.family="multilevel"; x.picture=QMP_SCH; vector<double> d; ml::RealPerLevel<NL> de, gv; vector<double> gp; for (int i=0;i<NL;++i) {d.push_back(dv ? (dv==1 ? i*.7-.4 : (i%2?0.:1.9)) : 0.); de(i)=d[i]; double g=gk==0||gk==2 ? 0. : gk==1||gk==3 ? .35 : gk==4 ? .2+.15*i : (i==NL-1 ? .5 : 0.); gp.push_back(g); gv(i)=g;}
    x.name=cat("multilevel/",nm,"/deltas",dv,"/diffusion",gk); x.G=mlG(NL,d,pumps,decays); for (auto& k : decays) x.J.push_back(std::sqrt(2.*k.v)*ket(NL,k.l,k.m)); bool any=false; for (double g : gp) any|=g!=0; if (any) {x.upToConst=true; for (int l=0;l<NL;++l) x.J.push_back(C(std::sqrt(2*gp[l]))*(eye(NL)-C(2.)*ket(NL,l,l)));}
    x.make=[=]()->Sys{ if (gk<2) return ml::makePumpedLossySch(de,vp,vl,gp[0]); if (gk<5) return ml::makePumpedLossySch(de,vp,vl,gv); // by rates
      return ml::makePumpedLossySch<ReducedDensityOperator<1>>(de,vp,vl,gv,"atom",NL,true); }; r.push_back(x); } }
inline vector<Inst> multilevels(bool) { namespace ml=multilevel; using ml::Pump; using ml::Decay; using boost::fusion::make_vector; vector<Inst> r; const C a(.3,-.8), b(-.5,.2); const double g1=.4, g2=.9;
  addML<2>(r,"2",make_vector(Pump<0,1>(a)),make_vector(Decay<0,1>(g1),Decay<1,0>(g2)),{{0,1,a}},{{0,1,g1},{1,0,g2}});
  addML<2>(r,"2rev",make_vector(Pump<1,0>(a)),make_vector(Decay<1,0>(g1),Decay<0,1>(0.)),{{1,0,a}},{{1,0,g1},{0,1,0.}});
  addML<3>(r,"lambda",make_vector(Pump<0,2>(a),Pump<1,2>(b)),make_vector(Decay<0,2>(g1),Decay<1,2>(g2)),{{0,2,a},{1,2,b}},{{0,2,g1},{1,2,g2}});
  addML<3>(r,"ladder",make_vector(Pump<0,1>(a),Pump<1,2>(b)),make_vector(Decay<0,1>(g1),Decay<1,2>(g2)),{{0,1,a},{1,2,b}},{{0,1,g1},{1,2,g2}});
  addML<3>(r,"vee",make_vector(Pump<0,1>(a),Pump<0,2>(b)),make_vector(Decay<0,2>(g2),Decay<0,1>(g1)),{{0,1,a},{0,2,b}},{{0,2,g2},{0,1,g1}});
  addML<3>(r,"cycle",make_vector(Pump<0,1>(a),Pump<2,1>(b),Pump<0,2>(C(.7))),make_vector(Decay<0,1>(g1),Decay<2,1>(g2),Decay<0,2>(1.2)),{{0,1,a},{2,1,b},{0,2,.7}},{{0,1,g1},{2,1,g2},{0,2,1.2}});
  addML<4>(r,"four",make_vector(Pump<0,3>(a),Pump<1,2>(b)),make_vector(Decay<0,3>(g1),Decay<1,3>(g2),Decay<0,2>(.6)),{{0,3,a},{1,2,b}},{{0,3,g1},{1,3,g2},{0,2,.6}});
  addML<6>(r,"six",make_vector(Pump<0,5>(a),Pump<4,2>(b),Pump<3,1>(C(0.,1e-6))),make_vector(Decay<0,5>(g1),Decay<5,4>(1e-6),Decay<3,2>(.6),Decay<1,4>(2.)),{{0,5,a},{4,2,b},{3,1,C(0.,1e-6)}},{{0,5,g1},{5,4,1e-6},{3,2,.6},{1,4,2.}});
  addML<5>(r,"fan",make_vector(Pump<2,0>(a),Pump<2,1>(b),Pump<2,3>(C(-.1)),Pump<2,4>(C(0.,.6)),Pump<0,4>(C(.2))),make_vector(Decay<2,0>(g1),Decay<2,1>(g2),Decay<2,3>(.6),Decay<2,4>(2.),Decay<4,0>(.1),Decay<3,0>(.7)),{{2,0,a},{2,1,b},{2,3,-.1},{2,4,C(0.,.6)},{0,4,.2}},{{2,0,g1},{2,1,g2},{2,3,.6},{2,4,2.},{4,0,.1},{3,0,.7}});
  return r; }

inline vector<Inst> matrices(bool) { vector<Inst> r; for (int n : {1,2,3,5,18}) for (int s=0;s<3;++s) { Inst x; x.n=n; x.family="matrix"; x.picture=QMP_SCH; x.name=cat("matrix/",n,"/",s); M g=s ? genM(n,s) : (-I)*genH(n,7); x.G=g; x.lossNotOf=true; x.make=[=]()->Sys{linalg::CMatrix m(n,n); for (int i=0;i<n;++i) for (int j=0;j<n;++j) m(i,j)=g(i,j); auto r=std::make_shared<TimeIndependentMatrixHamiltonian>(m); m=0; return r;}; r.push_back(x); } return r; }

inline vector<Inst> all(bool th) { vector<Inst> r; for (auto& f : {modes(th),homodyned(th),bichromatic(th),qbits(th),spins(th),multilevels(th),matrices(th)}) r.insert(r.end(),f.begin(),f.end()); return r; }

// equality of generators, up to a multiple of the identity if so allowed
inline bool eqG(M got, const M& want, bool upToConst, const std::string& what, double tol=1e-8) {if (upToConst) got=got+(want(0,0)-got(0,0))*eye(got.n); return eq(got,want,what,tol);}
// the generator in the Schroedinger picture, whatever picture the object uses: U(t-t0) H_I(t,t0)/i U^-1 + d/dt ln U
inline M logU(const Sys& fresh, int n) {M g(n); if (auto e=ex(fresh)) {const double h=1e-3; M u=matrixOfU<1>(*e,{n},h,0.); for (int i=0;i<n;++i) g(i,i)=std::log(u(i,i))/h;} return g;}
inline M generator(const Sys& s, const M& g, int n, double t, double t0) { M h(n); if (auto p=ha(s)) h=(-I)*matrixOf<1>(*p,{n},t,t0); M u(n), v(n); for (int i=0;i<n;++i) {u(i,i)=std::exp(g(i,i)*(t-t0)); v(i,i)=std::exp(-g(i,i)*(t-t0));} return u*h*v+g; }
} // el
