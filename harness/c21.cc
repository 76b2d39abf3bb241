// C21: interaction elements against their textbook Hamiltonians, in every combination of pictures of the partners.
#include "elements.h"
#include "Particle.h"
#include "JaynesCummings.h"
#include "CoupledModes.h"
#include "GeneralDicke.h"
#include "MLJC.h"
#include "ParticleCavity.h"
#include "ParticleTwoModes.h"
using namespace el;
using Ser=std::map<int,C>; // a function of x as sum of shifts: coefficient of exp(i s x)
static Ser mf(ModeFunctionType t, int K) {Ser r; switch (t) {case MFT_SIN: r[K]+=-.5*I; r[-K]+=.5*I; break; case MFT_COS: r[K]+=.5; r[-K]+=.5; break; case MFT_PLUS: r[K]+=1.; break; default: r[-K]+=1.;} return r;}
static Ser conjOf(const Ser& a) {Ser r; for (auto& [s,c] : a) r[-s]+=std::conj(c); return r;}
static Ser mul(const Ser& a, const Ser& b) {Ser r; for (auto& [s,c] : a) for (auto& [u,d] : b) r[s+u]+=c*d; return r;}
static M shifts(const Ser& a, int n) {M r(n); for (auto& [s,c] : a) for (int i=0;i<n;++i) if (i+s>=0 && i+s<n) r(i+s,i)+=c; return r;}
static const ModeFunctionType MT[]={MFT_SIN,MFT_COS,MFT_PLUS,MFT_MINUS};
static const char* MN[]={"Sin","Cos","Plus","Minus"};

// partners: the object together with the diagonal generator of the picture it defines
template<typename P> struct Part { std::string name; std::function<std::shared_ptr<const P>()> make; int n; V w; };
static Part<ModeBase> modePart(int c, double delta, double kappa, double nth, double kerr, int pic, bool pumped) { ModePars m{c,delta,kappa,nth,pumped?C(.3,-.8):C(0.),kerr,0.}; Part<ModeBase> r; r.name=cat("mode",c,el::pic(pic),"d",delta,"k",kappa,"n",nth,"K",kerr,pumped?"p":""); r.n=c; r.w=V(c);
  r.make=[=]{parameters::Table t; if (pumped) {mode::ParsPumpedLossy q(t); fill(q,m); return mode::Ptr(mode::make(q,QM_Picture(pic)));} mode::ParsLossy q(t); fill(q,m); return mode::Ptr(mode::make(q,QM_Picture(pic)));}; M g=logU(r.make(),c); for (int i=0;i<c;++i) r.w[i]=g(i,i); return r; } // which part of its generator a mode puts in the picture is its own affair (the whole of it is checked in C18)
static vector<Part<ModeBase>> modeParts(bool th, int c) { vector<Part<ModeBase>> r; for (int p : {QMP_IP,QMP_UIP,QMP_SCH}) {r.push_back(modePart(c,-1.5,.7,0.,0.,p,true)); r.push_back(modePart(c,2.,.4,.3,.25,p,false)); if (th) {r.push_back(modePart(c,0.,.7,0.,0.,p,false)); r.push_back(modePart(c,.8,0.,0.,0.,p,true)); r.push_back(modePart(c,0.,0.,0.,.5,p,true));}} return r; }
static vector<Part<QbitBase>> qbitParts() { vector<Part<QbitBase>> r; for (int p : {QMP_IP,QMP_UIP,QMP_SCH}) for (double d : {0.,1.3}) for (double g : {0.,.6}) for (int pumped=0;pumped<2;++pumped) { Part<QbitBase> x; x.name=cat("qbit",el::pic(p),"d",d,"g",g,pumped?"p":""); x.n=2; x.w={0.,p==QMP_SCH ? C(0.) : I*d-(p==QMP_IP ? g : 0.)}; x.make=[=]{parameters::Table t; qbit::ParsPumpedLossy q(t); q.delta=d; q.gamma=g; q.eta=pumped ? C(.2,.5) : C(0.); return qbit::make(q,QM_Picture(p));}; r.push_back(x); } return r; }
static vector<Part<SpinBase>> spinParts(bool th) { vector<Part<SpinBase>> r; for (int twoS=1;twoS<=9;++twoS) for (int dim : {0,2,7}) if (twoS<(th?5:4) || twoS==9) for (int kind=0;kind<4;++kind) for (double w : {0.,1.3}) for (double g : {0.,.6}) { int n=dim && dim<twoS+1 ? dim : twoS+1; Part<SpinBase> x; x.name=cat("spin",twoS,"/",n,std::vector<std::string>{"Spin","LossySpin","SpinSch","LossySpinSch"}[kind],"w",w,"g",g); x.n=n; x.w=V(n); for (int i=0;i<n;++i) x.w[i]=kind<2 ? -C(g,w)*double(i) : C(0.); x.make=[=]()->spin::Ptr{parameters::Table t; spin::Pars p(t); p.twoS=twoS; p.dim=dim; p.omega=w; p.gamma=g; p.theta=0; p.phi=0; switch (kind) {case 0: return std::make_shared<Spin>(p); case 1: return std::make_shared<LossySpin>(p); case 2: return std::make_shared<SpinSch>(p);} return std::make_shared<LossySpinSch>(p);}; r.push_back(x); } return r; }
static Part<ParticleBase> partPart(int fin, int pic) { Part<ParticleBase> x; int n=1<<fin; x.name=cat("particle",fin,el::pic(pic)); x.n=n; x.w=V(n); for (int i=0;i<n;++i) x.w[i]=pic==QMP_SCH ? C(0.) : -I*.7*std::pow(i-n/2,2); x.make=[=]{parameters::Table t; particle::Pars p(t); p.fin=fin; p.omrec=.7; return particle::make(p,QM_Picture(pic));}; return x; }
static Part<PumpedParticleBase> pumpedPart(int fin, int pic, double v, ModeFunctionType m, int K) { auto b=partPart(fin,pic); Part<PumpedParticleBase> x; x.name=cat("pumped",fin,el::pic(pic),"v",v,MN[m],K); x.n=b.n; x.w=b.w; x.make=[=]{parameters::Table t; particle::ParsPumped p(t); p.fin=fin; p.omrec=.7; p.vClass=v; p.modePart=m; p.kPart=K; return particle::makePumped(p,QM_Picture(pic));}; return x; }
static V sumW(const V& a, const V& b) {V r; for (auto& x : a) for (auto& y : b) r.push_back(x+y); return r;}
static const vector<vector<std::pair<double,double>>> ORD={{{0.,0.},{.3,0.},{1.1,.4},{.3,.3},{.2,.9}},{{.7,.2},{.7,.2},{0.,0.},{-.4,0.},{.1,0.}}};
static M inPicture(const M& h, const V& w, double dt) {M r=h; for (int i=0;i<h.n;++i) for (int j=0;j<h.n;++j) r(i,j)*=std::exp((w[j]-w[i])*dt); return r;}
// H: the Hamiltonian in the Schroedinger picture; if inner is given, only columns where it is true are prescribed (momentum cutoff), but Hermiticity is
template<int R, typename F> void run(F make, const Dims& d, const M& H, const V& w, bool hermitian, const vector<bool>& inner={}, bool dummy=false) { for (auto& o : ORD) { auto ia=make(); auto h=dynamic_cast<const structure::Hamiltonian<R>*>(ia.get()); int n=total(d); if (dummy && !h) {vmc::step(); vmc::state(vmc::fnv("none")); continue;} if (!vmc::check(h!=nullptr,"has a Hamiltonian")) return;
    for (auto [t,t0] : o) { M g=matrixOf<R>(*h,d,t,t0), want=inPicture(H,w,t-t0); vmc::step(); if (inner.size()) { for (int i=0;i<n;++i) for (int j=0;j<n;++j) if (!inner[j] || !inner[i]) want(i,j)=g(i,j); } if (!eq(g,want,cat("Hamiltonian at t=",t,", t0=",t0),1e-9)) return;
      if (hermitian) {M s=inPicture(g,w,t0-t); if (!eq(s,dag(s),cat("Hermiticity at t=",t,", t0=",t0),1e-9)) return;} } } }
template<typename IA, typename... P> void frees(const IA& ia, const P&... p) { int i=0; ((vmc::check(ia->getFrees()[i].get()==static_cast<const structure::Free*>(p.get()),cat("subsystem ",i," of the interaction")),++i),...); }

template<int NL, typename VC> void mljcs(const std::string& nm, const VC& vc, const vector<Tr>& g, bool th) { namespace ml=multilevel; for (int c : {2,4}) for (auto& mo : modeParts(th,c)) vmc::scenario(cat("mljc/",nm,"/",mo.name),[&]{ auto mk=[&]{ ml::RealPerLevel<NL> de; for (int i=0;i<NL;++i) de(i)=.4*i-.3; auto atom=ml::makePumpedLossySch(de,boost::fusion::make_vector(ml::Pump<0,1>(C(.3))),boost::fusion::make_vector(ml::Decay<0,1>(.2),ml::Decay<1,0>(.1)),0.); parameters::Table t; mljc::Pars<VC> p(t); p.gs=vc; auto m=mo.make(); auto ia=std::make_shared<MLJC<NL,VC>>(atom,m,p); frees(ia,atom,m); return ia; };
    M a=annihilate(c), H(NL*c); for (auto& x : g) H=H+I*(std::conj(x.v)*kron(ket(NL,x.l,x.m),dag(a))-x.v*kron(ket(NL,x.m,x.l),a)); run<2>(mk,{NL,c},H,sumW(V(NL),mo.w),true); }); }

int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough(); const vector<C> gs={0.,1.,-.7,C(.3,-.8),C(0.,1.2),C(0.,-1e-6),C(1e-6,0.),C(-40.,25.)};
  // two-level system or spin with a mode: i(g* sigma a^dagger - h.c.)
  for (int c : {2,3,5,11}) for (auto& mo : modeParts(th,c)) for (C g : gs) {
    for (auto& qb : qbitParts()) vmc::scenario(cat("jc/",qb.name,"/",mo.name,"/g",g),[&]{ auto mk=[&]{auto f=qb.make(); auto m=mo.make(); auto ia=jaynescummings::make(f,m,g); frees(ia,f,m); return ia;}; M a=annihilate(c), s=annihilate(2); M H=I*(std::conj(g)*kron(s,dag(a))-g*kron(dag(s),a)); run<2>(mk,{2,c},H,sumW(qb.w,mo.w),true,{},g==0.); });
    if (c==3) for (auto& sp : spinParts(th)) vmc::scenario(cat("jc/",sp.name,"/",mo.name,"/g",g),[&]{ auto mk=[&]{auto f=sp.make(); auto m=mo.make(); auto ia=jaynescummings::make(f,m,g); frees(ia,f,m); return ia;}; int twoS=sp.name[4]-'0'; M a=annihilate(c), s=dag(spinPlus(sp.n,twoS)); M H=I*(std::conj(g)*kron(s,dag(a))-g*kron(dag(s),a)); run<2>(mk,{sp.n,c},H,sumW(sp.w,mo.w),true,{},g==0.); }); }
  // mode with a collective spin: u n (Sz+s) + y (a+a^dagger) Sx
  for (int c : {2,4}) for (auto& mo : modeParts(th,c)) for (auto& sp : spinParts(th)) for (C u : {C(0.),C(.9),C(-.4,.2)}) for (C y : {C(0.),C(-1.1),C(.3,.6)}) { if ((u.imag()||y.imag()) && c==2) continue; vmc::scenario(cat("dicke/",mo.name,"/",sp.name,"/u",u,"/y",y),[&]{ auto mk=[&]{auto m=mo.make(); auto f=sp.make(); auto ia=std::make_shared<GeneralDicke<>>(m,f,u,y); frees(ia,m,f); return ia;}; int twoS=sp.name[4]-'0'; M a=annihilate(c), pl=spinPlus(sp.n,twoS); M H=u*kron(number(c),spinZ(sp.n,twoS)+C(twoS/2.)*eye(sp.n))+y*kron(a+dag(a),C(.5)*(pl+dag(pl))); run<2>(mk,{c,sp.n},H,sumW(mo.w,sp.w),!u.imag() && !y.imag()); }); }
  // coupled modes, with X=(a+a^dagger)/sqrt(2): Re(u) n X, Re(u) X X, i(u* a b^dagger - h.c.)
  for (int c0 : {2,4}) for (int c1 : {3,2}) for (auto& m0 : modeParts(th,c0)) for (auto& m1 : modeParts(th,c1)) for (C u : gs) for (int kind=0;kind<3;++kind) { static const char* kn[]={"NX","XX","XXRWA"}; vmc::scenario(cat("modes/",kn[kind],"/",m0.name,"/",m1.name,"/u",u),[&]{ auto mk=[&]()->coupledmodes::Ptr{auto a=m0.make(), b=m1.make(); coupledmodes::Ptr ia; switch (kind) {case 0: ia=coupledmodes::make<coupledmodes::CM_NX>(a,b,u); break; case 1: ia=coupledmodes::make<coupledmodes::CM_XX>(a,b,u); break; default: ia=coupledmodes::make<coupledmodes::CM_XX_RWA>(a,b,u);} frees(ia,a,b); return ia;};
      M a=annihilate(c0), b=annihilate(c1), H; double r=std::sqrt(.5); if (kind==0) H=C(u.real()*r)*kron(number(c0),b+dag(b)); else if (kind==1) H=C(u.real()*.5)*kron(a+dag(a),b+dag(b)); else H=I*(std::conj(u)*kron(a,dag(b))-u*kron(dag(a),b)); run<2>(mk,{c0,c1},H,sumW(m0.w,m1.w),true,{},u==0.); }); }
  // multi-level atoms with a mode: i(g* |i><j| a^dagger - h.c.) for each coupled pair, the convention of the two-level case
  { using boost::fusion::make_vector; const C a(.3,-.8), b(-.5,.2); mljcs<2>("2",make_vector(Coupling<0,1>(a)),{{0,1,a}},th); mljcs<3>("lambda",make_vector(Coupling<0,2>(a),Coupling<1,2>(b)),{{0,2,a},{1,2,b}},th); mljcs<3>("one",make_vector(Coupling<1,2>(a)),{{1,2,a}},th); mljcs<3>("rev",make_vector(Coupling<2,0>(a),Coupling<0,1>(b),Coupling<1,2>(C(.7))),{{2,0,a},{0,1,b},{1,2,.7}},th); mljcs<4>("four",make_vector(Coupling<0,3>(a),Coupling<1,2>(b)),{{0,3,a},{1,2,b}},th); }
  // particle with a mode
  auto etaEff=[](double u, double v){return (u<0?-1:1)*std::sqrt(u*v);};
  for (int c : {2,3}) for (auto& mo : modeParts(th,c)) for (int fin : {2,3}) for (int pic : {QMP_IP,QMP_SCH}) { int n=1<<fin; M a=annihilate(c);
    for (auto t : MT) for (int K : {1,2,-1}) for (double u : {0.,-.8,1.1}) for (double v : {0.,-2.,1.5}) { auto pp=pumpedPart(fin,pic,v,t,K); std::string id=cat(mo.name,"/",pp.name,"/u",u); if (2*std::abs(K)>n) continue;
      vmc::scenario(cat("orthogonal/",id),[&]{ parameters::Table tab; particlecavity::ParsOrthogonal p(tab); p.uNot=u; auto mk=[&]{auto m=mo.make(); auto f=pp.make(); auto ia=std::make_shared<ParticleOrthogonalToCavity>(m,f,p); frees(ia,m,f); return ia;}; if (u*v<0) {vmc::step(); vmc::check(vmc::throws<std::domain_error>([&]{mk();}),"opposite signs refused"); return;} double eta=etaEff(u,v); M h=C(eta)*kron(dag(a),shifts(mf(t,K),n)); run<2>(mk,{c,n},h+dag(h),sumW(mo.w,pp.w),true); }); }
    // along the cavity, the pump orthogonal to the motion (or none)
    for (auto t : MT) for (int K : {1,2,0}) for (double u : {0.,-.8,1.1}) for (int generic=0;generic<2;++generic) for (double v : {0.,-2.,1.5}) { auto pp=partPart(fin,pic); if (2*K>=n || (K==0 && fin==3)) continue; vmc::scenario(cat("along/",mo.name,"/",pp.name,"/",MN[t],K,"/u",u,generic?"/eta":"/v",v),[&]{ auto mk=[&]{auto m=mo.make(); auto f=pp.make(); parameters::Table tab; std::shared_ptr<ParticleAlongCavity> ia; if (generic) {particlecavity::ParsAlongGenericPump p(tab); p.uNot=u; p.kCav=K; p.modeCav=t; p.etaeff=v; ia=std::make_shared<ParticleAlongCavity>(m,f,p);} else {particlecavity::ParsAlong p(tab); p.uNot=u; p.kCav=K; p.modeCav=t; ia=std::make_shared<ParticleAlongCavity>(m,f,p,v);} frees(ia,m,f); return ia;};
        if (!generic && u*v<0) {vmc::step(); vmc::check(vmc::throws<std::domain_error>([&]{mk();}),"opposite signs refused"); return;} double eta=generic ? v : etaEff(u,v); Ser m2=mul(conjOf(mf(t,K)),mf(t,K)); if (K) m2.erase(0); else {m2.clear(); if (t==MFT_SIN) m2[0]=-.5; else if (t==MFT_COS) m2[0]=.5;} M h=C(eta)*kron(dag(a),shifts(conjOf(mf(t,K)),n)); run<2>(mk,{c,n},C(u)*kron(number(c),shifts(m2,n))+h+dag(h),sumW(mo.w,pp.w),true); }); }
    // along the cavity, with a pump along it, of the same or another wave number
    for (auto t : MT) for (int K : {1,2}) for (auto t2 : MT) for (int K2 : {1,-1,2}) for (double u : {0.,-.8}) for (int generic=0;generic<2;++generic) { double v=generic ? .6 : -2.; auto pp=pumpedPart(fin,pic,v,t2,K2); bool special=K==std::abs(K2); if ((fin==2 && (K==2 || K2==2)) || (c==2 && u==0. && generic)) continue; vmc::scenario(cat("alongpumped/",mo.name,"/",pp.name,"/",MN[t],K,"/u",u,generic?"/generic":""),[&]{ auto mk=[&]{auto m=mo.make(); auto f=pp.make(); parameters::Table tab; std::shared_ptr<ParticleAlongCavity> ia; if (generic) {particlecavity::ParsAlongGenericPump p(tab); p.uNot=u; p.kCav=K; p.modeCav=t; p.etaeff=1.3; ia=std::make_shared<ParticleAlongCavity>(m,f,p);} else {particlecavity::ParsAlong p(tab); p.uNot=u; p.kCav=K; p.modeCav=t; ia=std::make_shared<ParticleAlongCavity>(m,f,p);} frees(ia,m,f); return ia;};
        double eta=generic ? 1.3 : etaEff(u,v); Ser m2=mul(conjOf(mf(t,K)),mf(t,K)); m2.erase(0); M h=C(eta)*kron(dag(a),shifts(mul(conjOf(mf(t,K)),mf(t2,K2)),n)); vector<bool> in; if (!special) {int k=std::max(K,std::abs(K2)); for (int i=0;i<c*n;++i) in.push_back(i%n>=k && i%n<n-k);} run<2>(mk,{c,n},C(u)*kron(number(c),shifts(m2,n))+h+dag(h),sumW(mo.w,pp.w),true,in); }); } }
  // particle with two modes: sign(U0) sqrt(U0 U1) (exp(i phi) m0* m1 a0^dagger a1 + h.c.)
  { auto l0=modeParts(th,2), l1=modeParts(th,3); for (size_t i=0;i<l0.size();++i) for (size_t j=0;j<l1.size();++j) { if (!th && i!=j && (i+j)%3) continue; auto& m0=l0[i]; auto& m1=l1[j]; for (int fin : {2,3}) for (int pic : {QMP_IP,QMP_SCH}) for (auto t0 : MT) for (auto t1 : MT) for (int K0 : {1,2}) for (int K1 : {1,2}) for (double u0 : {-.8,0.,1.1}) for (double u1 : {-.3,0.,.5}) for (double phi : {0.,.9}) { if ((u0*u1==0 && (K0==2 || t0!=MFT_COS || (!th && j%2))) || (fin==2 && (K0==2||K1==2)) || (u0*u1<0 && (phi||t1!=MFT_SIN)) || (!th && u0>0 && phi && t0>1)) continue; int n=1<<fin; auto pp=partPart(fin,pic); bool special=K0==K1;
    vmc::scenario(cat("twomodes/",m0.name,"/",m1.name,"/",pp.name,"/",MN[t0],K0,"/",MN[t1],K1,"/u",u0,",",u1,"/phi",phi),[&]{ auto mk=[&]{auto a=m0.make(), b=m1.make(); auto f=pp.make(); parameters::Table ta,tb; particlecavity::ParsAlong p0(ta), p1(tb); p0.uNot=u0; p0.kCav=K0; p0.modeCav=t0; p1.uNot=u1; p1.kCav=K1; p1.modeCav=t1; auto ia=std::make_shared<ParticleTwoModes>(a,b,f,p0,p1,phi); frees(ia,a,b,f); return ia;}; if (u0*u1<0) {vmc::step(); vmc::check(vmc::throws<std::domain_error>([&]{mk();}),"opposite signs refused"); return;}
      M a=annihilate(2), b=annihilate(3); M h=(etaEff(u0,u1)*std::exp(I*phi))*kron(kron(dag(a),b),shifts(mul(conjOf(mf(t0,K0)),mf(t1,K1)),n)); vector<bool> in; if (!special) {int k=std::max(K0,K1); for (int i=0;i<6*n;++i) in.push_back(i%n>=k && i%n<n-k);} run<3>(mk,{2,3,n},h+dag(h),sumW(sumW(m0.w,m1.w),pp.w),true,in); }); } } }
  return vmc::finish(); }
