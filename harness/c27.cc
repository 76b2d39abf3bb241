// C27: the dense matrix of a Hamiltonian against the table or textbook it comes from, on every basis vector; the matrix system against the system it was taken from; the driven damped oscillator against dense exponentiation.
#include "EvolutionBinary.h"
#include "EvolutionComposite.h"
#include "qharness.h"
#include "MatrixOfHamiltonian.h"
#include "TimeIndependentMatrixHamiltonian.h"
#include "Mode.h"
#include "Qbit.h"
#include "Spin.h"
#include "JaynesCummings.h"
#include "GeneralDicke.h"
#include "DrivenDampedHarmonicOscillator.h"
using namespace q; using vmc::cat;
static M fromCM(const linalg::CMatrix& c) {M m(c.extent(0)); for (int i=0;i<m.n;++i) for (int j=0;j<m.n;++j) m(i,j)=c(i,j); return m;}
template<int R> void tableDriven(const Dims& d) { int n=total(d); for (int mask=0;mask<16;++mask) for (int kind=0;kind<4;++kind) vmc::scenario(cat("table/",d,"/features=",mask,"/kind",kind),[&]{ Tables t; t.H=[=](double tt, double t0)->M{ M h=kind==0 ? genH(n,3) : kind==1 ? genM(n,4) : kind==2 ? diag(genV(n,5,false)) : genM(n,6); return kind==3 ? C(1+tt)*h+C(t0)*genM(n,7) : h; }; t.U=[=](double,double)->M{return eye(n);}; t.J={[=](double)->M{return genM(n,9);}}; t.A={genH(n,8)}; auto s=makeWhole<R>(mask,d,t);
  for (double tt : {0.,.7,-2.}) for (double t0 : {0.,.3}) { if (kind!=3 && (tt||t0)) continue; M got=fromCM(calculateMatrix(*s,tt,t0)); vmc::step(n); M want=mask&1 ? t.H(tt,t0) : M(n); if (!vmc::same(got.n,n,"dimension")) return; eq(got,want,cat("matrix at t=",tt,", t0=",t0),1e-12); M again=fromCM(calculateMatrix(*s,tt,t0)); eq(again,got,"asked again",0.); vmc::state(hash(got.a)); } M def=fromCM(calculateMatrix(*s)); eq(def,mask&1 ? t.H(0,0) : M(n),"default instants",1e-12); }); }
int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough();
  for (int n : {1,2,3,7,16}) tableDriven<1>({n}); for (Dims d : {Dims{1,1},Dims{2,3},Dims{3,2},Dims{4,5}}) tableDriven<2>(d); for (Dims d : {Dims{2,1,3},Dims{2,2,2},Dims{3,2,4}}) tableDriven<3>(d); tableDriven<4>({2,3,1,2});
  // real elements: a two-part system in the Schroedinger picture; and the matrix put back as a system, with the averages of the original
  const double ds[]={0.,.8,-1.3}; for (int c : {2,3,6}) for (double dq : ds) for (double dm : ds) for (C g : {C(0),C(.7,.4)}) for (int loss=0;loss<2;++loss) vmc::scenario(cat("jaynescummings/",c,"/",dq,"/",dm,"/",g,"/loss",loss),[&]{ parameters::Table pt; qbit::ParsPumpedLossy pq(pt,"Q"); mode::ParsPumpedLossy pm(pt,"M"); C eq_(.3,-.2), em(-.4,.6); pq.delta=dq; pq.eta=eq_; pq.gamma=loss?.4:0; pm.cutoff=c; pm.delta=dm; pm.eta=em; pm.kappa=loss?.25:0; auto b=binary::make(jaynescummings::make(qbit::make(pq,QMP_SCH),mode::make(pm,QMP_SCH),g)); 
    M s=kron(annihilate(2),eye(c)), a=kron(eye(2),annihilate(c)), sp=dag(s), ap=dag(a); M H=C(-dq,-pq.gamma)*(sp*s)+C(-dm,-pm.kappa)*(ap*a)+I*(std::conj(eq_)*s+(-eq_)*sp)+I*(em*ap+(-std::conj(em))*a)+I*(std::conj(g)*(s*ap)+(-g)*(sp*a)); linalg::CMatrix m(calculateMatrix(*b)); eq(fromCM(m),H,"matrix of the composite Hamiltonian",1e-11); vmc::step(2*c);
    V v=genV(2*c,9); auto psi2=sv<2>(v,{2,c}); quantumdata::StateVector<1> psi1(psi2.vectorView(),quantumdata::byReference); linalg::CMatrix over(m/dcomp(0,1)); auto sys=std::make_shared<TimeIndependentMatrixHamiltonianAveraged<2>>(over,b,psi2); over=0.; // the matrix is copied in
    eq(fromCM(calculateMatrix(*sys)),H,"matrix of the matrix system",1e-11); auto av1=dynamic_cast<const structure::Averaged<1>*>(sys.get()); auto av2=dynamic_cast<const structure::Averaged<2>*>(b.get()); for (int k=0;k<4;++k) { if (k) put<1>(psi1.getArray(),genV(2*c,20+k)); vmc::same(av1->nAvr(),av2->nAvr(),"number of averages"); eqd(toD(av1->average(0,psi1)),toD(av2->average(0,psi2)),"averages of the original",1e-12); vmc::step(); }
    // evolving the flat copy evolves the original
    auto psi3=sv<2>(v,{2,c}); put<1>(psi1.getArray(),v); evolution::Pars<> pe(pt); pe.T=.5; pe.Dt=.25; pe.dc=0; pe.noise=false; pe.epsRel=1e-9; pe.epsAbs=1e-9; if (!loss) { auto r1=evolve(psi1,sys,pe,false,true); auto r2=evolve(psi3,b,pe,false,true); if (vmc::same(r1.size(),r2.size(),"lines")) {auto j=r2.begin(); for (auto& x : r1) eqd(toD(std::get<2>(x)),toD(std::get<2>(*j++)),"averages during the evolution",1e-6);} eq(toV<2>(psi2),toV<2>(psi3),"final state",1e-6); V w=expm((-I*.5)*H)*v; eq(toV<2>(psi2),w,"final state and dense exponentiation",1e-6); } });
  // the driven damped oscillator
  vector<double> gs={0.,.1,.5,.99,1.,1.01,1.5,3.,1e-3,1-1e-5,1+1e-5}, os={0.,.3,1.,-1.,2.5,-.7,10.}; if (th) {gs.insert(gs.end(),{.05,.2,.8,2.,5.}); os.insert(os.end(),{.9,1.1,-3.,.01});}
  for (double g : gs) for (double om : os) { if (g<1e-9 && std::abs(std::abs(om)-1)<1e-9) continue; /* undamped resonance: no bounded particular solution */ for (double ti : {0.,1.,-1.,2.5}) vmc::scenario(cat("oscillator/gamma=",g,"/omega=",om,"/from",ti),[&]{ for (C y0 : {C(1,0),C(0,0),C(-.5,2)}) for (C v0 : {C(0,0),C(1,-1),C(0,.3)}) { auto o=cppqedutils::ddho::make(g,om,y0,v0,ti); M A(3); A(0,1)=1; A(1,0)=-1; A(1,1)=-2*g; A(1,2)=1; A(2,2)=I*om; V x0={y0,v0,std::exp(I*om*ti)}; double cond=std::abs(g-1)<1e-3 && g!=1 ? 1e-7 : 1e-9;
    for (double dt : {0.,1e-3,.1,.5,1.,3.,10.,-.2}) { V x=expm(C(dt)*A)*x0; vmc::step(); vmc::near(o->amp(ti+dt),x[0],cat("amplitude after ",dt),cond); vmc::near(o->ampDeriv(ti+dt),x[1],cat("derivative after ",dt),cond); vmc::state(hash(x)); } auto copy=o; o.reset(); vmc::near(copy->amp(ti),y0,"initial amplitude",cond); } }); }
  return vmc::finish(); }
