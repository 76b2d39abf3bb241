// C18: every free element, parameter combination and picture against its textbook matrices.
#include "elements.h"
using namespace el;
int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough();
  const std::vector<std::pair<double,double>> times={{0.,0.},{.3,0.},{.3,.3},{1.1,.4},{-.5,.2}};
  for (auto& x : all(th)) { const int n=x.n;
    vmc::scenario(x.name,[&]{ auto s=x.make(); vmc::same((int)s->getTotalDimension(),n,"dimension"); M g=logU(x.make(),n);
      for (auto& [t,t0] : times) { std::string at=cat("t=",t,", t0=",t0,": "); if (auto e=ex(s)) {M u=matrixOfU<1>(*e,{n},t,t0), w(n); for (int i=0;i<n;++i) w(i,i)=std::exp(g(i,i)*(t-t0)); eq(u,w,at+"propagator",1e-9);}
        M got=generator(s,g,n,t,t0), want=x.g(t); if (x.Gt && maxabs(got-want)>1e-7) want=x.g(t-t0); // known finding, pinned down by bichromatic-phase/* below: the phase of the second drive may be counted from t0
        eqG(got,want,x.upToConst,at+"generator"); vmc::step(); vmc::state(cat(t,t0));
        if (auto h=ha(s)) { // the contribution is added
          V psi=genV(n,3), d0=genV(n,5); CArray<1> p=arr<1>(psi,{n}), d=arr<1>(d0,{n}); h->addContribution(t,p,d,t0); eq(toV<1>(d),d0+(-I)*(matrixOf<1>(*h,{n},t,t0)*psi),at+"the contribution is added to what is there"); eq(toV<1>(p),psi,"the state is not touched"); } }
      auto l=li(s); vmc::same(l ? (int)l->nAvr() : 0,(int)x.J.size(),"number of jump channels");
      if (l) for (size_t k=0;k<x.J.size();++k) for (double t : {0.,.7}) { M j=matrixOfJ<1>(*l,{n},t,k); eq(j,x.J[k],cat("jump operator ",k)); vmc::step();
          // thermal absorption in the highest Fock state has a rate although the truncated jump annihilates it
          bool mode=x.family=="mode" || x.family=="bichromatic" || x.family=="homodyned";
          for (int st=0;st<n+2;++st) { V psi=st<n ? basis(n,st) : genV(n,st); if (mode && k==1) {if (st==n-1 && n>1) continue; psi[n-1]=0.;} double want=std::pow(norm(x.J[k]*psi),2);
            auto chk=[&](double r, const std::string& of){vmc::check((x.negRate||r<0) ? r<0 : vmc::close(r,want),[&]{return cat("rate of jump ",k," in the ",of," ",st,": got ",r,", model says ",want);});}; 
            chk(l->rates(t,sv1(psi))(k),"state vector"); chk(l->average(t,do1(outer(psi,psi)))(k),"density operator"); chk(l->average(t,sv1(psi))(k),"printed channel of state"); }
          for (int st=0;st<2;++st) { M rho=st ? genM(n,11) : genRho(n,9), d0=genM(n,13); CArray<2> r=arr<2>(rho.a,{n,n}), d=arr<2>(d0.a,{n,n}); try {l->actWithSuperoperator(t,r,d,k); eq(toV<2>(d),(d0+x.J[k]*rho*dag(x.J[k])).a,cat("superoperator ",k)); eq(toV<2>(r),rho.a,"the density operator is not touched");} catch (const structure::SuperoperatorNotImplementedException&) {eq(toV<2>(d),d0.a,"a refused superoperator contributes nothing");} } }
      if (l) { if (!x.upToConst || x.family=="spin") vmc::check(vmc::throwsAny([&]{CArray<1> p=arr<1>(genV(n,1),{n}); l->actWithJ(0.,p,x.J.size());}),"a jump beyond the last channel is refused"); }
      if (!x.lossNotOf && x.family!="homodyned" && x.family!="spin") { M loss(n); for (auto& j : x.J) loss=loss+C(-.5)*(dag(j)*j); M got=generator(s,g,n,.3,.1); got=C(.5)*(got+dag(got)); bool mode=x.family=="mode"||x.family=="bichromatic"; if (mode && x.J.size()==2) {loss(n-1,n-1)+=C(-.5)*double(n)*std::pow(std::abs(x.J[1](1,0)),2);} 
        eqG(got,loss,true,"loss of norm without jumps equals the rate of jumps"); } }); }
  // the loss of the spins without jumps must be that by their jumps
  for (int twoS=1;twoS<=4;++twoS) for (int kind=0;kind<2;++kind) vmc::scenario(cat("spin-loss/",kind?"LossySpinSch":"LossySpin","/twoS",twoS),[&]{ parameters::Table t; spin::Pars p(t); p.twoS=twoS; p.omega=.3; p.gamma=.7; Sys s; if (kind) s=std::make_shared<LossySpinSch>(p); else s=std::make_shared<LossySpin>(p); int n=twoS+1; M got=generator(s,logU(s,n),n,.3,.1), j=matrixOfJ<1>(*li(s),{n},0.,0); vmc::step(); eqG(C(.5)*(got+dag(got)),C(-.5)*(dag(j)*j),true,"loss of norm without jumps equals the rate of jumps"); });
  // the relative phase of the two drives evolves with absolute time, independently of when the pictures last coincided
  for (double d : {0.,-1.5}) for (double dO : {1.3,-1.5}) vmc::scenario(cat("bichromatic-phase/delta",d,"/deltaOther",dO),[&]{ for (auto& x : bichromatic(false)) if (x.name==cat("bichromatic/",ModePars{3,d,.7,0.,C(.3,-.8),0.,0.}.str(),"/other",.5,",",.2,"/deltaOther",dO)) { vmc::step(); auto s=x.make(); eqG(generator(s,logU(s,x.n),x.n,.9,.4),x.g(.9),false,"generator at t=.9, t0=.4"); } });
  // initial states
  for (int dim=1;dim<=(th?12:6);++dim) for (int k=0;k<=dim+2;++k) vmc::scenario(cat("fock/",k,"/dim",dim),[&]{ vmc::step(); for (double ph : {0.,.9}) { if (k>=dim) {vmc::check(vmc::throwsAny([&]{mode::fock(k,dim,ph);}),"a Fock state beyond the cutoff is refused"); continue;} V w(dim); w[k]=std::exp(I*ph); eq(toV<1>(mode::fock(k,dim,ph).getArray()),w,"Fock state"); }
    parameters::Table t; mode::ParsPumpedLossy p(t); p.cutoff=dim; p.minitFock=k; p.minit=.3; if (k>=dim) vmc::check(vmc::throwsAny([&]{mode::init(p);}),"init refuses it too"); else if (k) {V w(dim); w[k]=1.; eq(toV<1>(mode::init(p).getArray()),w,"init");} });
  for (int dim : {1,2,5,30,70,200}) for (C al : {C(0.),C(.5,0.),C(-.3,.8),C(1.2,-.4),C(0.,2.),C(4.,-3.)}) vmc::scenario(cat("coherent/",al.real(),",",al.imag(),"/dim",dim),[&]{ vmc::step(); V w; C c=std::exp(-std::norm(al)/2); for (int i=0;i<dim;++i) {w.push_back(c); c*=al/std::sqrt(i+1.);} auto got=toV<1>(mode::coherent(al,dim).getArray()); double nn=norm(w); V wn=w; for (auto& e : wn) e/=nn; bool okRaw=maxabs(got-w)<1e-10, okN=maxabs(got-wn)<1e-10; vmc::check(okRaw||okN,[&]{return cat("coherent state ",got);}); if (std::abs(nn-1.)<1e-9) vmc::near(norm(got),1.,"norm",1e-8);
    parameters::Table t; mode::ParsPumpedLossy p(t); p.cutoff=dim; p.minitFock=0; p.minit=al; eq(toV<1>(mode::init(p).getArray()),got,"init dispatches to the coherent state"); });
  for (C a : {C(0.),C(1.),C(.6,0.),C(.3,-.4),C(0.,1.)}) vmc::scenario(cat("qbit-init/",a.real(),",",a.imag()),[&]{ vmc::step(); V w={std::sqrt(1-std::norm(a)),a}; eq(toV<1>(qbit::init(a).getArray()),w,"amplitudes"); parameters::Table t; qbit::ParsPumpedLossy p(t); p.qbitInit=a; eq(toV<1>(qbit::init(p).getArray()),w,"from parameters"); eq(toV<1>(qbit::state0().getArray()),{1.,0.},"state 0"); eq(toV<1>(qbit::state1().getArray()),{0.,1.},"state 1"); });
  for (int r=1;r<=3;++r) for (int k=1;k<=3;++k) if (r!=k) vmc::scenario(cat("nonsquare/",r,"x",k),[&]{ vmc::step(); linalg::CMatrix m(r,k); m=1.; vmc::check(vmc::throws<std::invalid_argument>([&]{TimeIndependentMatrixHamiltonian h(m);}),"a non-square matrix is refused"); });
  // operators of the mode, two-level and spin bundles
  for (int n : {2,3,6}) vmc::scenario(cat("operators/mode/",n),[&]{ vmc::step(); parameters::Table t; mode::ParsPumpedLossy p(t); p.cutoff=n; auto m=mode::make(p,QMP_SCH); auto dense=[&](const quantumoperator::Tridiagonal<1>& op){M r(n); for (int j=0;j<n;++j) {auto psi=arr<1>(basis(n,j),{n}); CArray<1> d(n); d=0; quantumoperator::apply<1>(psi,d,op); for (int i=0;i<n;++i) r(i,j)=d(i);} return r;};
    M a=annihilate(n); eq(dense(mode::aop(n)),a,"a"); eq(dense(mode::aop(m)),a,"a of a mode"); eq(dense(mode::nop(m)),number(n),"number"); eq(dense(mode::xop(m)),C(std::sqrt(.5))*(a+dag(a)),"x"); V psi=genV(n,1); vmc::near(mode::photonNumber(arr<1>(psi,{n})),dot(psi,number(n)*psi),"photon number of an array"); vmc::near(mode::photonNumber(sv1(psi)),dot(psi,number(n)*psi),"photon number"); vmc::near(mode::photonNumber(do1(genRho(n,3))),tr(number(n)*genRho(n,3)),"photon number of a density operator");
    for (int twoS=n-1;twoS<n+2;++twoS) {M sp=spinPlus(n,twoS); eq(dense(spin::splus(n,twoS,0.,false)),sp,"S+"); eq(dense(spin::sminus(n,twoS,0.,false)),dag(sp),"S-"); eq(dense(spin::sx(n,twoS,0.,false)),C(.5)*(sp+dag(sp)),"Sx"); eq(dense(spin::sy(n,twoS,0.,false)),(-.5*I)*(sp-dag(sp)),"Sy"); eq(dense(spin::sz(n,twoS)),spinZ(n,twoS),"Sz"); } });
  vmc::scenario("operators/qbit",[&]{ vmc::step(); auto dense=[&](const quantumoperator::Tridiagonal<1>& op){M r(2); for (int j=0;j<2;++j) {auto psi=arr<1>(basis(2,j),{2}); CArray<1> d(2); d=0; quantumoperator::apply<1>(psi,d,op); for (int i=0;i<2;++i) r(i,j)=d(i);} return r;}; eq(dense(qbit::sigmadagsigmaop()),number(2),"sigma^dagger sigma"); parameters::Table t; qbit::ParsPumpedLossy p(t); eq(dense(qbit::sigmaop(qbit::make(p,QMP_SCH))),annihilate(2),"sigma"); });
  return vmc::finish(); }
