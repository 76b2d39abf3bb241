// C20: moving particles: grids, transforms, kinetics, optical potentials, mode-function algebra, moments, wave packets.
#include "elements.h"
#include "Particle.h"
#include "LazyDensityOperatorFFT.h"
#include <boost/math/special_functions/hermite.hpp>
using namespace el;
using Ser=std::map<int,C>; // a function of x as sum of shifts: coefficient of exp(i s x)
static Ser mf(ModeFunctionType t, int K) {Ser r; switch (t) {case MFT_SIN: r[K]+=-.5*I; r[-K]+=.5*I; break; case MFT_COS: r[K]+=.5; r[-K]+=.5; break; case MFT_PLUS: r[K]+=1.; break; default: r[-K]+=1.;} return r;}
static Ser conjOf(const Ser& a) {Ser r; for (auto& [s,c] : a) r[-s]+=std::conj(c); return r;}
static Ser mul(const Ser& a, const Ser& b) {Ser r; for (auto& [s,c] : a) for (auto& [u,d] : b) r[s+u]+=c*d; return r;}
static M shifts(const Ser& a, int n) {M r(n); for (auto& [s,c] : a) for (int i=0;i<n;++i) if (i+s>=0 && i+s<n) r(i+s,i)+=c; return r;}
static M dft(int n) {M f(n); double dx=2*M_PI/n; for (int j=0;j<n;++j) for (int m=0;m<n;++m) f(j,m)=std::exp(I*double(m-n/2)*(dx*j-M_PI))/std::sqrt(double(n)); return f;} // k -> x
static bool eqPhase(V got, const V& want, const std::string& what, double tol=1e-9) {C f=dot(got,want); if (std::abs(f)>0) f/=std::abs(f); return eq(f*got,want,what,tol);}
static M dense(const quantumoperator::Tridiagonal<1>& op, int n) {M r(n); if (op.getTotalDimension()==0) return r; for (int j=0;j<n;++j) {auto psi=arr<1>(basis(n,j),{n}); CArray<1> d(n); d=0; quantumoperator::apply<1>(psi,d,op); for (int i=0;i<n;++i) r(i,j)=d(i);} return r;}
static const ModeFunctionType MT[]={MFT_SIN,MFT_COS,MFT_PLUS,MFT_MINUS};
int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough();
  for (int fin=0;fin<=(th?10:7);++fin) for (double dk : {1.,.5,3.}) vmc::scenario(cat("grid/",fin,"/",dk),[&]{ particle::Spatial s(fin,dk); int n=1<<fin; vmc::same((int)s.getDimension(),n,"number of points"); vmc::same((int)s.getFinesse(),fin,"finesse"); vmc::step(); for (int i=0;i<n;++i) {vmc::near(s.k(i),dk*(i-n/2.),"momentum grid"); vmc::near(s.x(i),2*M_PI/dk/n*(i-n/2.),"position grid");} });
  for (int fin=0;fin<=(th?7:5);++fin) vmc::scenario(cat("transform/",fin),[&]{ int n=1<<fin; M f=dft(n); C ph=0; for (int j=0;j<n+3;++j) { V v=j<n ? basis(n,j) : genV(n,j); for (int stride : {1,2}) { CArray<1> big(n*stride); big=C(7.); CArray<1> a(big(blitz::Range(0,n*stride-1,stride))); put<1>(a,v); quantumdata::ffTransform(a,fft::DIR_KX); V g=toV<1>(a), w=f*v; if (ph==0.) {ph=dot(w,g); ph/=std::abs(ph);} eq(g,ph*w,cat("momentum to position, state ",j)); quantumdata::ffTransform(a,fft::DIR_XK); eq(toV<1>(a),v,"and back"); if (stride==2) for (int i=1;i<n*stride;i+=2) vmc::near(big(i),7.,"other elements untouched"); vmc::step(); }
      auto m=quantumdata::ffTransform<tmptools::Vector<0>>(static_cast<const quantumdata::LazyDensityOperator<1>&>(sv1(v)),fft::DIR_KX); eq(toM<1>(*m),outer(f*v,f*v),"lazy, of a state"); M rho=genRho(n,j); auto d=do1(rho); auto m2=quantumdata::ffTransform<tmptools::Vector<0>>(static_cast<const quantumdata::LazyDensityOperator<1>&>(d),fft::DIR_KX); eq(toM<1>(*m2),f*rho*dag(f),"lazy, of a density operator"); eq(toM<1>(d),rho,"the original is untouched"); } });
  for (int f0 : {1,2}) for (int f1 : {1,2}) vmc::scenario(cat("transform2/",f0,f1),[&]{ int a=1<<f0, b=1<<f1; M fa=dft(a), fb=dft(b); V v=genV(a*b,3); auto s=sv<2>(v,{a,b}); M rho=genRho(a*b,4); auto d=dop<2>(rho,{a,b}); vmc::step();
    auto go=[&]<typename VV>(VV*, M F, const std::string& w){ eq(toM<2>(*quantumdata::ffTransform<VV>(static_cast<const quantumdata::LazyDensityOperator<2>&>(s),fft::DIR_KX)),outer(F*v,F*v),w+" of a state"); eq(toM<2>(*quantumdata::ffTransform<VV>(static_cast<const quantumdata::LazyDensityOperator<2>&>(d),fft::DIR_KX)),F*rho*dag(F),w+" of a density operator"); eq(toM<2>(*quantumdata::ffTransform<VV>(static_cast<const quantumdata::LazyDensityOperator<2>&>(d),fft::DIR_XK)),dag(F)*rho*F,w+" reverse"); };
    go((tmptools::Vector<0>*)0,kron(fa,eye(b)),"first"); go((tmptools::Vector<1>*)0,kron(eye(a),fb),"second"); go((tmptools::Vector<0,1>*)0,kron(fa,fb),"both"); });
  // Hamiltonians in both pictures
  for (int fin=1;fin<=(th?5:4);++fin) for (double om : {.5,1.3}) for (int kind=0;kind<2;++kind) for (double v : {0.,-10.,2.5}) for (int K : {0,1,2,3,9}) for (auto t : MT) for (int pic : {QMP_IP,QMP_UIP,QMP_SCH}) { if (!kind && (v||K||t!=MFT_SIN)) continue; int n=1<<fin;
    vmc::scenario(cat("hamiltonian/",kind?"pumped":"free","/fin",fin,"/omrec",om,"/v",v,"/K",K,"/",int(t),"/",el::pic(pic)),[&]{ Sys s; auto mk=[&]()->Sys{parameters::Table tab; if (kind) {particle::ParsPumped p(tab); p.omrec=om; p.fin=fin; p.vClass=v; p.kPart=K; p.modePart=t; return particle::makePumped(p,QM_Picture(pic));} particle::Pars p(tab); p.omrec=om; p.fin=fin; return particle::make(p,QM_Picture(pic));};
      s=mk(); M G(n); for (int i=0;i<n;++i) G(i,i)=-I*om*std::pow(i-n/2,2); if (kind) {Ser a=mul(conjOf(mf(t,K)),mf(t,K)); if (K) a.erase(0); G=G+(-I*v)*shifts(a,n);} M g=logU(mk(),n);
      vmc::same((int)s->getTotalDimension(),n,"dimension"); vmc::same(ex(s)!=nullptr,pic!=QMP_SCH,"exact propagation iff interaction picture"); if (auto e=ex(s)) {vmc::check(e->applicableInMaster(),"applicable in master"); for (double tt : {0.,.2,1.5}) {M u=matrixOfU<1>(*e,{n},tt+.3,.3), w(n); for (int i=0;i<n;++i) w(i,i)=std::exp(G(i,i)*tt); if (K==0 || t==MFT_PLUS || t==MFT_MINUS || !kind) for (int i=0;i<n;++i) w(i,i)=std::exp(-I*om*std::pow(i-n/2,2)*tt); eq(u,w,"propagator of kinetic energy",1e-9);}}
      for (auto [tt,t0] : {std::pair{0.,0.},{.3,0.},{.3,.3},{1.1,.4}}) {eqG(generator(s,g,n,tt,t0),G,K==0,cat("t=",tt,", t0=",t0,": generator"),1e-6); vmc::step();} vmc::check(!li(s),"no jumps"); }); }
  // fine grids, large wave numbers, tiny and strong potentials
  for (int fin : {5,6}) for (double om : {.02,.3}) for (double v : {1e-6,-300.}) for (int K : {1,4,13}) for (auto t : MT) for (int pic : {QMP_IP,QMP_SCH}) { int n=1<<fin; vmc::scenario(cat("hamiltonian/fine/fin",fin,"/omrec",om,"/v",v,"/K",K,"/",int(t),"/",el::pic(pic)),[&]{ auto mk=[&]()->Sys{parameters::Table tab; particle::ParsPumped p(tab); p.omrec=om; p.fin=fin; p.vClass=v; p.kPart=K; p.modePart=t; return particle::makePumped(p,QM_Picture(pic));}; auto s=mk(); M G(n); for (int i=0;i<n;++i) G(i,i)=-I*om*std::pow(i-n/2,2); Ser a=mul(conjOf(mf(t,K)),mf(t,K)); a.erase(0); G=G+(-I*v)*shifts(a,n); M g=logU(mk(),n); vmc::step(); eqG(generator(s,g,n,.9,.6),G,false,"generator",1e-9); eqG(generator(s,g,n,.1,.1),G,false,"generator at coincidence",1e-9); }); }
  // shift operators and mode functions
  for (int fin=1;fin<=4;++fin) for (int pic : {QMP_IP,QMP_SCH}) { int n=1<<fin; parameters::Table tab; particle::Pars p(tab); p.omrec=.7; p.fin=fin; auto part=particle::make(p,QM_Picture(pic)); auto inPic=[&](const M& a, double t){M u(n), v(n); for (int i=0;i<n;++i) {C e=std::exp(-I*.7*std::pow(i-n/2,2)*t); u(i,i)=pic==QMP_SCH ? C(1.) : e; v(i,i)=std::conj(u(i,i));} return v*a*u;};
    for (int K=-n-1;K<=n+1;++K) vmc::scenario(cat("modefunction/fin",fin,"/",el::pic(pic),"/K",K),[&]{ if (std::abs(K)<n) for (double t : {0.,.4}) { vmc::step(); auto ch=[&](quantumoperator::Tridiagonal<1> op, const Ser& a, const std::string& w){op.propagate(t); eq(dense(op,n),inPic(shifts(a,n),t),cat(w," at t=",t));}; ch(particle::expINKX(part,K),{{K,1.}},"exp(iKx)"); ch(particle::sinNKX(part,K),mf(MFT_SIN,K),"sin"); ch(particle::cosNKX(part,K),mf(MFT_COS,K),"cos"); for (auto m : MT) ch(particle::mfNKX(part,{m,K}),mf(m,K),cat("mode function ",int(m))); }
      for (int L : {K,-K,K+1,0}) for (auto a : MT) for (auto b : MT) { if (std::abs(K)!=std::abs(L)) {vmc::check(vmc::throwsAny([&]{particle::mfComposition(part,{a,K},{b,L});}),"composition of different wave numbers refused"); continue;} if (2*std::abs(K)>=n) continue; vmc::step(); for (double t : {0.,.4}) {auto op=particle::mfComposition(part,{a,K},{b,L}); op.propagate(t); Ser w=mul(conjOf(mf(a,K)),mf(b,L)); for (auto it=w.begin();it!=w.end();) if (std::abs(it->second)<1e-14) it=w.erase(it); else ++it; eq(dense(op,n),inPic(shifts(w,n),t),cat("conj of mode function ",int(a)," K=",K," times ",int(b)," K=",L," at t=",t));} } }); }
  vmc::scenario("names",[&]{ const char* nm[]={"Sin","Cos","Plus","Minus"}; for (int i=0;i<4;++i) { std::ostringstream o; o<<MT[i]; vmc::same(o.str(),std::string(nm[i]),"name"); ModeFunctionType t=MT[(i+1)%4]; std::istringstream is(nm[i]); is>>t; vmc::check(bool(is)||is.eof(),"parsing works"); vmc::same(int(t),int(MT[i]),"parsed"); for (double x : {0.,.3,-2.}) {C w=0; for (auto& [s,c] : mf(MT[i],1)) w+=c*std::exp(I*double(s)*x); vmc::near(modeFunction(MT[i],x),w,"value");} vmc::step(); }
    for (const char* bad : {"sin","Sinus","","Plu","MINUS"}) {ModeFunctionType t=MFT_COS; std::istringstream is(bad); is>>t; vmc::check(!is,cat("unknown name refused: ",bad)); vmc::same(int(t),int(MFT_COS),"value kept");} });
  // printed moments
  for (int fin=1;fin<=6;++fin) vmc::scenario(cat("moments/fin",fin),[&]{ int n=1<<fin; parameters::Table tab; particle::Pars p(tab); p.fin=fin; auto part=particle::make(p,QMP_SCH); M f=dft(n); vmc::same((int)part->nAvr(),4,"columns");
    for (int j=0;j<2*n+6;++j) { M rho; V v; bool pure=j<2*n+3; if (j<n) v=basis(n,j); else if (j<2*n) v=dag(f)*basis(n,j-n); else if (pure) v=genV(n,j); rho=pure ? outer(v,v) : genRho(n,j); M rx=f*rho*dag(f); double k1=0,k2=0,x1=0,x2=0; for (int i=0;i<n;++i) {double k=i-n/2, x=2*M_PI/n*(i-n/2); k1+=k*rho(i,i).real(); k2+=k*k*rho(i,i).real(); x1+=x*rx(i,i).real(); x2+=x*x*rx(i,i).real();}
      for (int asDO=0;asDO<2;++asDO) { if (!asDO && !pure) continue; std::ostringstream o; auto a=asDO ? part->average(0.,do1(rho)) : part->average(0.,sv1(v)); part->process(a); vmc::step(); std::string w=cat(asDO?"density operator ":"state ",j,": "); vmc::near(a(0),k1,w+"<P>",1e-9); vmc::near(a(1),k2-k1*k1,w+"VAR(P)",1e-9); vmc::near(a(2),x1,w+"<X>",1e-9); double var=x2-x1*x1; if (var>1e-9) vmc::near(a(3),std::sqrt(var),w+"DEV(X)",1e-7); else vmc::check(!(std::abs(a(3))>1e-4),w+"DEV(X) vanishes"); } } });
  // wave packets
  for (int fin : {1,3,5,6}) for (double x0 : {-.5,0.,.25}) for (double k0 : {0.,2.,-3.}) for (double sig : {.3,.5,1.2}) for (int inK=0;inK<2;++inK) for (int kFlag=0;kFlag<2;++kFlag) for (int kind=0;kind<2;++kind) vmc::scenario(cat("packet/fin",fin,"/x",x0,"/k",k0,"/sig",sig,"/inK",inK,"/k",kFlag,"/",kind?"pumped":"free"),[&]{ int n=1<<fin; M f=dft(n); particle::InitialCondition ic(x0,k0,sig,inK); V w(n); for (int i=0;i<n;++i) {double k=i-n/2, x=2*M_PI/n*(i-n/2); w[i]=inK ? std::exp(-std::pow((k-k0)/(2*sig),2)-I*k*M_PI*x0) : std::exp(-std::pow((x-M_PI*x0)/(2*sig),2)+I*k0*x);} if (inK && !kFlag) w=f*w; if (!inK && kFlag) w=dag(f)*w; double nn=norm(w); for (auto& e : w) e/=nn;
      vmc::step(); V g=toV<1>(particle::wavePacket(ic,particle::Spatial(fin),kFlag).getArray()); vmc::near(norm(g),1.,"norm"); eqPhase(g,w,"wave packet"); parameters::Table tab; std::unique_ptr<particle::Pars> p; if (kind) p=std::make_unique<particle::ParsPumped>(tab); else p=std::make_unique<particle::Pars>(tab); p->fin=fin; const_cast<particle::InitialCondition&>(p->init).get()=ic.get(); p->hoInitn=-1; eqPhase(toV<1>((kind ? particle::wavePacket(static_cast<particle::ParsPumped&>(*p),kFlag) : particle::wavePacket(*p,kFlag)).getArray()),w,"from parameters"); if (kFlag) eqPhase(toV<1>(particle::init(*p).getArray()),w,"init");
      if (fin>=5 && kFlag) { auto part=particle::make(*p,QMP_SCH); auto a=part->average(0.,sv1(g)); part->process(a); bool res=inK ? sig>=1. : sig<=.5; if (res) { vmc::near(a(0),k0,"<P>",2e-2); vmc::near(a(2),M_PI*x0,"<X>",5e-2); if (!inK) vmc::near(a(3),sig,"DEV(X)",3e-2); else if (sig>=.5) vmc::near(a(1),sig*sig,"VAR(P)",3e-2); } } });
  // harmonic-oscillator states and the default width in the potential of the pump
  // the representation is the position one unless said otherwise, and the four values keep their places when read from and written as text
  for (double x0 : {-.5,.25}) for (double k0 : {0.,-3.}) for (double sig : {.3,1.2}) vmc::scenario(cat("packet-defaults/x",x0,"/k",k0,"/sig",sig),[&]{ particle::InitialCondition a(x0,k0,sig), b(x0,k0,sig,false), c(0.,0.,.5,true); vmc::step(); vmc::check(!a.isInK() && a.getX0()==x0 && a.getK0()==k0 && a.getSig()==sig,"default representation"); V u=toV<1>(particle::wavePacket(a,particle::Spatial(5)).getArray()), w=toV<1>(particle::wavePacket(b,particle::Spatial(5),true).getArray()); for (int i=0;i<32;++i) vmc::near(u[i],w[i],"wave packet"); vmc::state(cat(x0,k0,sig)); });
  for (int fin : {3,5,6}) for (int ho=-1;ho<4;++ho) for (double x0 : {-.25,0.}) for (double sig : {.25,.6}) for (int kFlag=0;kFlag<2;++kFlag) vmc::scenario(cat("ho/fin",fin,"/n",ho,"/x",x0,"/sig",sig,"/k",kFlag),[&]{ int n=1<<fin, m=std::max(ho,0); M f=dft(n); V w(n); for (int i=0;i<n;++i) {double y=(2*M_PI/n*(i-n/2)-M_PI*x0)/sig; w[i]=std::exp(-y*y/2)*boost::math::hermite(m,y);} if (kFlag) w=dag(f)*w; double nn=norm(w); for (auto& e : w) e/=nn; vmc::step(); particle::InitialCondition ic(x0,0.,sig); V g=toV<1>(particle::hoState(ho,ic,particle::Spatial(fin),kFlag).getArray()); vmc::near(norm(g),1.,"norm"); eqPhase(g,w,"oscillator state"); parameters::Table tab; particle::Pars p(tab); p.fin=fin; p.init.get()=ic.get(); p.hoInitn=ho; if (ho>=0) {eqPhase(toV<1>(particle::hoState(p,kFlag).getArray()),w,"from parameters"); if (kFlag) eqPhase(toV<1>(particle::init(p).getArray()),w,"init");} });
  for (int fin : {5,6}) for (double om : {.5,1.}) for (double v : {-40.,60.}) for (int ho=-1;ho<3;++ho) for (double x0 : {0.,.25}) vmc::scenario(cat("pumpwidth/fin",fin,"/omrec",om,"/v",v,"/n",ho,"/x",x0),[&]{ // H=om k^2+|v|x^2: characteristic length (om/|v|)^(1/4)
      int n=1<<fin, m=std::max(ho,0); M f=dft(n); V w(n); double l=std::pow(om/std::abs(v),.25); for (int i=0;i<n;++i) {double y=(2*M_PI/n*(i-n/2)-M_PI*x0)/l; w[i]=std::exp(-y*y/2)*boost::math::hermite(m,y);} w=dag(f)*w; double nn=norm(w); for (auto& e : w) e/=nn; vmc::step(); parameters::Table tab; particle::ParsPumped p(tab); p.fin=fin; p.omrec=om; p.vClass=v; p.hoInitn=ho; p.init.get()=particle::InitialCondition(x0,0.,0.).get(); eqPhase(toV<1>(particle::init(p).getArray()),w,"state of the oscillator formed by the pump"); });
  return vmc::finish(); }
