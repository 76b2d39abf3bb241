// C29: the shipped programs against dense models of the systems their command lines describe. The programs are linked in with main renamed.
#include "c29.h"
#define P(n) extern "C" int prog_##n(int, char**);
P(tutorialMode) P(PumpedLossyMode_C__QED) P(PumpedLossyMode_Evolved) P(HomodynedMode) P(PumpedLossyQbit) P(PTLA_C__QED) P(PTLA_Evolved) P(PTLA_EvolvedHL) P(Spin) P(SingleParticle) P(Raman) P(QbitMode_Evolved) P(Ring_Evolved) P(tutorialBinary) P(QbitMode_C__QED) P(QbitMode_Matrix) P(CavityRaman) P(Optomechanics) P(1particle1mode) P(Ring) P(tutorialCompositeRing) P(2particles1mode) P(tutorialCompositeMultiparticle) P(FourModes)
#undef P
using namespace p29;
static D wModes(const M& r, int n, int m) { Dims d{n,m}; D w=wQuad(reduce(r,{0},d)); add(w,wQuad(reduce(r,{1},d))); auto xy=[](int k, int y){M a=annihilate(k); return C(std::sqrt(.5))*(y ? (-I)*(a-dag(a)) : a+dag(a));}; for (int i=0;i<2;++i) for (int j=0;j<2;++j) {M x=embed(xy(n,i),{0},d), q=embed(xy(m,j),{1},d); w.push_back(re(x*q,r)-re(x,r)*re(q,r));} return w; }

int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough();
  // ---- one mode
  { vector<std::pair<ModePars,std::pair<C,int>>> ms; for (double d : {-1.5,.8,0.}) for (double k : {.6,0.}) for (double nth : {0.,.3}) for (C e : {C(0.),C(.4,-.3)}) for (double w : {0.,.2}) {if (!k && nth) continue; ms.push_back({{5,d,k,nth,e,w,0.},{0.,2}}); if (th || !w) ms.push_back({{9,d,k,nth,e,w,w?-.1:0.},{C(.3,-.2),0}});}
    for (auto& [m,i] : ms) { Part p=modeP(m,i.first,i.second); Model x=compose({p},{}); 
      agree("tutorialMode",prog_tutorialMode,x,{},{{"default",{},true},{"single",{"--evol","single","--no_noise"},false}});
      Model q=x; q.w=wQuad; agree("PumpedLossyMode",prog_PumpedLossyMode_C__QED,q,{},hows(true,th)); q.w=all({wQuad,wDiag}); agree("PumpedLossyMode",prog_PumpedLossyMode_C__QED,q,{"--doStream"},hows(true,th,{"UIP"})); q.w=all({wQuad,wFull}); agree("PumpedLossyMode",prog_PumpedLossyMode_C__QED,q,{"--doStream","--doOffDiag"},hows(true,th,{"IP"}));
      q.w=wQuad; for (C eo : {C(.5,.2)}) for (double dO : {m.delta}) { if (m.kerr && !th) continue; // with another detuning: the known finding of C18
        M a=annihilate(m.cutoff), G=x.G; double dd=dO-m.delta; q.Gt=[=](double t)->M{C e=eo*std::exp(-I*dd*t); return G+e*dag(a)-std::conj(e)*a;}; agree("PumpedLossyMode",prog_PumpedLossyMode_C__QED,q,{"--etaOther",num(eo),"--deltaC_Other",num(dO)},{{"IPsingle",{"--picture","IP","--evol","single","--no_noise"},false}}); }
      // homodyne detection leaves the averaged evolution as it is
      if (m.kappa) {Model h=x; for (C al : {C(0.),C(.6,.3)}) {h.w=wQuad; vector<How> hs={{"master",{"--evol","master"},true}}; if (al==0.) hs.push_back({"single",{"--evol","single","--no_noise"},false}); agree("HomodynedMode",prog_HomodynedMode,h,{"--homodyneAmplitude",num(al)},hs); h.w=all({wQuad,wFull}); agree("HomodynedMode",prog_HomodynedMode,h,{"--homodyneAmplitude",num(al),"--doStream","--doOffDiag"},{hs[0]});}} }
    for (double d : {-1.5,.8}) for (double k : {.6,0.}) for (C e : {C(0.),C(.4,-.3)}) for (C al : {C(0.),C(.3,-.2)}) for (C eo : {C(0.),C(.5,.2)}) for (double dO : {0.,1.3,-.7}) { Args a={"--cutoff","5","--deltaC",num(d),"--kappa",num(k),"--eta",num(e),"--minit",num(al),"--etaOther",num(eo),"--deltaC_Other",num(dO)}; classical("PumpedLossyMode_Evolved",prog_PumpedLossyMode_Evolved,a,{al},[=](double t, const V& x)->V{return {C(-k,d)*x[0]+e+eo*std::exp(-I*(dO-d)*t)};},parts); } }
  // the implementation in the interaction picture without an exact part (option --alternative)
  for (int master=0;master<2;++master) vmc::scenario(cat("alternative/",master?"master":"single"),[&]{ Model x=compose({modeP({5,.8,.6,0.,C(.4,-.3),0.,0.},0.,2)},{}); vector<D> want; for (auto& r : states(x,master,.13,3)) {D w=wMode(r); w.erase(w.begin()+1); want.push_back(w);} rows(program(prog_PumpedLossyMode_C__QED,x.a+Args{"--alternative"}+(master ? Args{"--evol","master"} : Args{"--evol","single","--no_noise"})+driver(.13,3)),want,.13); });
  // ---- one two-level system
  for (double d : {-1.5,.8,0.}) for (double g : {.6,0.}) for (C e : {C(0.),C(.4,-.3)}) for (double gp : {0.,.25}) for (C in : {C(0.),C(1.),C(.5,-.4)}) { Part p=qbitP(d,g,e,gp,in); Model x=compose({p},{});
    if (!gp) {agree("PumpedLossyQbit",prog_PumpedLossyQbit,x,{},hows(true,th)); if (g) agree("PTLA",prog_PTLA_C__QED,x,{},hows(false,th));
      M rho=outer(p.psi,p.psi); if (g || e!=0. || d) classical("PTLA_Evolved",prog_PTLA_Evolved,p.a,rho.a,[=](double, const V& v)->V{M r(2); r.a=v; return deriv(x,x.G,r,true).a;},[](const V& v)->D{return {2*v[0].real()-1,2*v[1].real(),-2*v[1].imag()};});
      if (g || e!=0. || d) classical("PTLA_EvolvedHL",prog_PTLA_EvolvedHL,p.a,{rho(1,0)},[=](double, const V& v)->V{return {C(-g,d)*v[0]-e};},parts); }
    agree("PTLA",prog_PTLA_C__QED,x,{"--fullImpl"},gp ? vector<How>{{"IPmaster",{"--evol","master"},true},{"UIPmaster",{"--picture","UIP","--evol","master"},true}} : hows(true,th)); }
  // ---- a spin, started from its highest state
  for (int twoS : {1,2,5}) for (int dim : {0,3}) for (double w : {1.3,-.6}) for (double g : {.7,0.}) for (double ta : {0.,1.1}) for (double ph : {0.,.7}) { if (g && ta) continue; int n=(dim && dim<twoS+1) ? dim : twoS+1; Part p; p.n=n; M sp=spinPlus(n,twoS), sm=dag(sp), sz=spinZ(n,twoS), sx=C(.5)*(sp+sm), sy=(-.5*I)*(sp-sm); p.G=(-C(g,w))*(C(std::sin(ta)*std::cos(ph))*sx+C(std::sin(ta)*std::sin(ph))*sy+C(std::cos(ta))*sz); if (g) p.J={C(std::sqrt(2*g))*sm}; p.psi=basis(n,n-1); p.w=wSpin(twoS); p.a={"--twoS",num(twoS),"--spinDim",num(dim),"--omega",num(w),"--gamma",num(g),"--theta",num(ta),"--phi",num(ph)}; Model x=compose({p},{}); auto hs=hows(false,th); if (g) hs.pop_back(); agree("Spin",prog_Spin,x,{},hs); }
  // ---- a particle, free or in a classical potential
  for (double v : {0.,-3.,2.}) for (std::string mt : {"Sin","Cos","Plus"}) for (int K : {1,2}) for (int ini=0;ini<5;++ini) { if (v==0. && (mt!="Sin" || K>1 || ini==3)) continue; PPars q{4,.7,.25,1.,.4,false,-1,true,v,mt,K}; if (ini==1) {q.inK=true; q.sig=1.2; q.k0=-2;} if (ini==2) {q.ho=1; q.k0=0;} if (ini==3) q.sig=0; if (ini==4) {q.ho=2; q.k0=0; q.x0=-.1;} agree("SingleParticle",prog_SingleParticle,compose({particleP(q)},{}),{},hows(true,th,{"IP","Sch"})); }
  // ---- a three-level atom
  for (int dv=0;dv<3;++dv) for (int k=0;k<3;++k) for (double gp : {0.,.25}) { D d{dv?.4:0.,dv?-.3:0.,dv==2?1.7:-.9}; C e1(.4,-.3), e2(k?-.6:0.,.2); double g1=.5, g2=k==2?0.:.9; M G=mlG(3,d,{{0,2,e1},{1,2,e2}},{{0,2,g1},{1,2,g2}}); Part p; p.n=3; p.G=G; p.J={C(std::sqrt(2*g1))*ket(3,0,2),C(std::sqrt(2*g2))*ket(3,1,2)}; if (gp) for (int l=0;l<3;++l) p.J.push_back(C(std::sqrt(2*gp))*(eye(3)-C(2.)*ket(3,l,l))); p.psi={std::sqrt(.5),std::sqrt(.5),0.}; p.w=wFull; p.a={"--deltas",cat("[",num(d[0]),",",num(d[1]),",",num(d[2]),"]"),"--etas",cat("[",num(e1),",",num(e2),"]"),"--gammas",cat("[",num(g1),",",num(g2),"]")}; if (gp) p.a=p.a+Args{"--gamma_parallel",num(gp)}; auto hs=hows(false,th); if (gp) hs.erase(hs.begin(),hs.begin()+2); agree("Raman",prog_Raman,compose({p},{}),{},hs); }
  // ---- classical field and dipole; two running waves scattering on a fixed particle
  for (double d : {-1.5,.8}) for (double k : {.6,0.}) for (C e : {C(0.),C(.4,-.3)}) for (double da : {-.7,1.2}) for (C et : {C(0.),C(.2,.5)}) for (C g : {C(1.),C(.3,-.8)}) for (C s0 : {C(0.),C(.5,-.4)}) { Args a={"--deltaC",num(d),"--kappa",num(k),"--eta",num(e),"--minit","(0.3,-0.2)","--deltaA",num(da),"--gamma",num(.4),"--etat",num(et),"--g",num(g),"--qbitInit",num(s0)}; classical("QbitMode_Evolved",prog_QbitMode_Evolved,a,{C(.3,-.2),s0},[=](double, const V& v)->V{return {C(-k,d)*v[0]+std::conj(g)*v[1]+e,C(-.4,da)*v[1]-g*v[0]-et};},parts); }
  for (double u0 : {-.8,1.1}) for (double u1 : {-.8,1.1,-.3}) for (double x0 : {0.,-.3,.25}) for (std::string t0 : {"Plus","Sin","Cos"}) for (std::string t1 : {"Minus","Cos"}) for (C e : {C(0.),C(.4,-.3)}) { if (u0*u1<0) continue; double d0=-1.5,d1=.8,k0=.6,k1=.3; C e1(.2,.1); Args a={"--deltaCP",num(d0),"--deltaCM",num(d1),"--kappaP",num(k0),"--kappaM",num(k1),"--etaP",num(e),"--etaM",num(e1),"--UnotP",num(u0),"--UnotM",num(u1),"--minitP","(0.3,-0.2)","--minitM","0.1","--pinit",cat("(",num(x0),",0,.1,0)"),"--modeCavP",t0,"--modeCavM",t1}; C m0=mfAt(t0,M_PI*x0), m1=mfAt(t1,M_PI*x0), g=etaEff(u0,u1)*std::conj(m0)*m1; classical("Ring_Evolved",prog_Ring_Evolved,a,{C(.3,-.2),C(.1)},[=](double, const V& v)->V{return {(C(-k0,d0)-I*u0*std::norm(m0))*v[0]+e-I*g*v[1],(C(-k1,d1)-I*u1*std::norm(m1))*v[1]+e1-I*std::conj(g)*v[0]};},parts); }
  // ---- Jaynes-Cummings
  for (int k=0;k<8;++k) for (C g : {C(.9),C(.3,-.8)}) for (int c : {3,5}) { double d=k&1?-1.5:.8, ka=k&2?.6:0., gm=k&4?.4:0.; C e=k%3?C(.4,-.3):C(0.), et=k%4?C(.2,.5):C(0.); ModePars mp{c,d,ka,k==7?.3:0.,e,k==6?.2:0.,k==3?-.1:0.}; Part q=qbitP(k&1?1.2:-.7,gm,et,0.,k&2?C(.5,-.4):C(1.)), m=modeP(mp,k<4 && c==5?C(.05,-.02):C(0.),c==3 ? k%2 : k>=4); M a=annihilate(c), s=annihilate(2); M h=I*(std::conj(g)*kron(s,dag(a))-g*kron(dag(s),a)); Model x=compose({q,m},{{h,{0,1}}}); x.a=x.a+Args{"--g",num(g)};
    agree("tutorialBinary",prog_tutorialBinary,x,{},hows(true,th)); agree("QbitMode",prog_QbitMode_C__QED,x,{},hows(true,th)); agree("QbitMode_Matrix",prog_QbitMode_Matrix,x,{},{{"single",{"--evol","single"},false}});
    Part qp=qbitP(k&1?1.2:-.7,gm,et,.25,k&2?C(.5,-.4):C(1.)); Model y=compose({qp,m},{{h,{0,1}}}); y.a=y.a+Args{"--g",num(g)}; agree("QbitMode",prog_QbitMode_C__QED,y,{},{{"master",{"--evol","master"},true}}); }
  // ---- a three-level atom, one transition driven, the other coupled to a mode
  for (int dv=0;dv<3;++dv) for (int k=0;k<4;++k) for (int c : {2,4}) { D d{dv?.4:0.,dv?-.3:0.,dv==2?1.7:-.9}; C e1(.4,-.3), g=k&1?C(.9):C(.3,-.8); double g1=.5, g2=k==2?0.:.9; Part p; p.n=3; p.G=mlG(3,d,{{0,2,e1}},{{0,2,g1},{1,2,g2}}); p.J={C(std::sqrt(2*g1))*ket(3,0,2),C(std::sqrt(2*g2))*ket(3,1,2)}; p.psi={std::sqrt(.5),std::sqrt(.5),0.}; p.w=wFull; p.a={"--deltas",cat("[",num(d[0]),",",num(d[1]),",",num(d[2]),"]"),"--etas",cat("[",num(e1),"]"),"--gammas",cat("[",num(g1),",",num(g2),"]"),"--gs",cat("[",num(g),"]")};
    ModePars mp{c,dv==1?-1.5:.8,k>1?.6:0.,k==3?.3:0.,k%3?C(.4,-.3):C(0.),0.,0.}; Part m=modeP(mp,0.,k%2); M a=annihilate(c), h=I*(std::conj(g)*kron(ket(3,1,2),dag(a))-g*kron(ket(3,2,1),a)); Model x=compose({p,m},{{h,{0,1}}}); auto hs=hows(false,th); if (mp.kappa) hs.pop_back(); agree("CavityRaman",prog_CavityRaman,x,{},hs); }
  // ---- optomechanics: -u n_0 (b+b^dagger)
  for (int k=0;k<8;++k) for (double u : {.7,-1.1,0.}) for (int c1 : {3,4}) { ModePars m0{3,k&1?-1.5:.8,k&2?.6:0.,k==6?.3:0.,k%3?C(.4,-.3):C(0.),0.,0.}, m1{c1,k&1?.9:-2.,k&4?.3:0.,k==4||k==7?.5:0.,0.,k==5?.2:0.,0.}; Part a=modeP(m0,0.,k%3,"Opt"), b=modeP(m1,k%2?C(.02,-.01):C(0.),k%2?0:1,"Mech",true,false); M bb=annihilate(c1); Model x=compose({a,b},{{C(-u)*kron(number(3),bb+dag(bb)),{0,1}}}); x.w=[=](const M& r){return wModes(r,3,c1);}; x.a=x.a+Args{"--u",num(u)}; agree("Optomechanics",prog_Optomechanics,x,{},hows(true,th)); }
  // ---- a particle and a mode, in four configurations
  for (int conf=0;conf<6;++conf) for (int k=0;k<6;++k) for (std::string tc : {"Sin","Cos","Plus","Minus"}) for (std::string tp : {"Sin","Cos","Plus"}) { if (!th && (k+conf+tc.size()+tp.size())%2 && conf!=2) continue; double u=k%2?-.8:1.1, v=u<0?-1.5:.9; if (k==5) v=0; int K=1, Kp=k==3 && conf==1?2:1; bool sup=k==4; bool lost=conf==2 && k==5, along=conf>=2 && conf<=4;
    ModePars mp{3,k%3?-1.5:.8,k<3?.6:0.,k==2?.3:0.,k%3 && !lost?C(.4,-.3):C(0.),0.,0.}; PPars q{3,.7,.1,sup?0.:1.,.7,k==1,k==2?1:-1,conf==1||conf==3||conf==4,v,tp,Kp}; if (q.inK) q.sig=1.1; if (k==0 && !v) q.sig=.5; Part b=particleP(q); if (!q.pumped) b.a=b.a+Args{"--vClass",num(v),"--modePart",tp,"--kPart",num(Kp)}; if (sup) {C s(.4,-.3); b.psi=C(std::sqrt(1-std::norm(s)))*oscillator(8,0,q.x0,q.sig)+s*oscillator(8,2,q.x0,q.sig); b.a=b.a+Args{"--superposition",num(s)};}
    Part a=modeP(mp,0.,k%2); M an=annihilate(3), h(24); double e=conf==4 ? 0. : etaEff(u,v); Ser fc=mf(tc,K), fp=mf(tp,Kp); h=C(e)*kron(dag(an),shifts(conf==1 ? fp : conf==2 ? conjOf(fc) : mul(conjOf(fc),fp),8)); h=h+dag(h); if (conf!=1) {M f=shifts(mul(conjOf(fc),fc),8); for (int i=0;i<8;++i) f(i,i)=cplx(tc)?1.:.5; h=h+C(u)*kron(number(3),f);} // the whole light shift counts, also its constant part
    Model x=compose({a,b},{{h,{0,1}}}); x.a=x.a+Args{"--Unot",num(u),"--modeCav",tc,"--kCav",num(K),"--1p1mconf",num(conf)}; 
    if (conf<1 || conf>4 || (conf==2 && mp.eta==0. && !v)) {vmc::scenario(cat("1particle1mode/refused/",join(x.a)),[&]{vmc::step(); auto o=program(prog_1particle1mode,x.a+driver(.13,2)); vmc::state(vmc::fnv(&conf,4)); vmc::same(o.rc,1,"exit status"); vmc::same(o.rows.size(),(size_t)0,"lines printed");}); continue;}
    auto hs=hows(true,th,{k%2?"IP":"Sch",k%3?"UIP":"Sch"}); if (k%2==0 && k%3==0) hs.resize(3); agree("1particle1mode",prog_1particle1mode,x,{},hs,.11,2); (void)along; }
  // ---- a particle between two running (or standing) waves; the tutorial program leaves out the constant part of the light shifts
  for (int tut=0;tut<2;++tut) for (int k=0;k<6;++k) for (int t=0;t<5;++t) { static const char* T[][2]={{"",""},{"Plus","Minus"},{"Sin","Cos"},{"Cos","Plus"},{"Minus","Minus"}}; if (!th && (k+t)%2 && t) continue; std::string t0=t?T[t][0]:"Plus", t1=t?T[t][1]:"Minus"; double u0=k%2?-.8:1.1, u1=k%2?-.3:.5; ModePars m0{k==2?3:2,k%3?-1.5:.8,k<3?.6:0.,k==2?.3:0.,k%3 && !tut?C(.4,-.3):C(0.),0.,0.}, m1{2,k%2?.9:-.4,k<4?.2:0.,k==1?.2:0.,k?C(.2,.1):C(0.),0.,0.}; PPars q{3,.7,.1,1.,.7,k==1,k==3 && !tut?1:-1}; if (q.inK) q.sig=1.1; Part p=particleP(q), a=modeP(m0,0.,k%2,"P",true,!tut), b=modeP(m1,0.,k==4,"M"); M A=annihilate(m0.cutoff), B=annihilate(2);
    auto shift=[&](const std::string& ty, const M& N, double u){Ser f=mf(ty,1); M s=shifts(mul(conjOf(f),f),8); for (int i=0;i<8;++i) s(i,i)=tut ? 0. : cplx(ty)?1.:.5; return C(u)*kron(N,s);}; M h=C(etaEff(u0,u1))*kron(kron(dag(A),B),shifts(mul(conjOf(mf(t0,1)),mf(t1,1)),8)); h=h+dag(h);
    Model x=compose({p,a,b},{{shift(t0,number(m0.cutoff),u0),{1,0}},{shift(t1,number(2),u1),{2,0}},{h,{1,2,0}}}); x.a=x.a+Args{"--UnotP",num(u0),"--UnotM",num(u1)}; if (t) x.a=x.a+Args{"--modeCavP",t0,"--modeCavM",t1}; auto hs=hows(true,th,{k%2?"IP":"Sch",k%3?"UIP":"Sch"}); if (k%2==0 && k%3==0) hs.resize(3); agree(tut?"tutorialCompositeRing":"Ring",tut?prog_tutorialCompositeRing:prog_Ring,x,{},hs,.11,2,3e-7,{0}); }
  // ---- two particles in a standing wave scattering into one mode (at zero temperature)
  for (int tut=0;tut<2;++tut) for (int k=0;k<8;++k) for (std::string tp : {"Sin","Cos","Plus"}) { double u=k%2?-.8:1.1, v=u<0?-1.5:.9; ModePars mp{2,k%3?-1.5:.8,k<4?.6:0.,0.,k%3 && !tut?C(.4,-.3):C(0.),0.,0.}; PPars q{2,.7,.1,tut?0.:1.,k==6?0.:.7,k==1 && !tut,tut?k%3:k==2?1:-1,true,v,tp,1}; if (q.inK) q.sig=1.1; Part p=particleP(q), m=modeP(mp,0.,k%2,"",true,!tut); Part p2=p; p2.a={}; M h=C(etaEff(u,v))*kron(dag(annihilate(2)),shifts(mf(tp,1),4)); h=h+dag(h); Model x=compose({m,p,p2},{{h,{0,1}},{h,{0,2}}}); x.a=x.a+Args{"--Unot",num(u)}; auto hs=hows(false,th); if (mp.kappa) hs.pop_back(); agree(tut?"tutorialCompositeMultiparticle":"2particles1mode",tut?prog_tutorialCompositeMultiparticle:prog_2particles1mode,x,{},hs,.11,2); }
  // ---- four independent modes (at zero temperature)
  for (int k=0;k<8;++k) { vector<Part> ps; for (int i=0;i<4;++i) ps.push_back(modeP({(k+i)%3?2:3,i%2?-1.5+.3*i:.8-.2*k,k<4?.3+.1*i:0.,0.,(k+i)%3?C(.1*i+.2,-.3):C(0.),0.,0.},0.,(k>>i)&1,num(i))); auto hs=hows(false,th); if (k<4) hs.pop_back(); agree("FourModes",prog_FourModes,compose(ps,{}),{},hs,.11,2); }
  // ---- the default precision is a sensible one
  for (int k=0;k<4;++k) for (int master=0;master<2;++master) vmc::scenario(cat("precision/",k,master?"/master":"/single"),[&]{ Part q=qbitP(k&1?1.2:-.7,.4,C(.2,.5),0.,C(.5,-.4)), m=modeP({4,k&2?-1.5:.8,k&1?.6:0.,0.,C(.4,-.3),0.,0.},0.,1); M a=annihilate(4), s=annihilate(2); C g(.3,-.8); Model x=compose({q,m},{{I*(std::conj(g)*kron(s,dag(a))-g*kron(dag(s),a)),{0,1}}}); vector<D> want; for (auto& r : states(x,master,1.,3)) want.push_back(x.w(r)); rows(program(prog_QbitMode_C__QED,x.a+Args{"--g",num(g),"--dc","0","--Dt","1","--T","3","--precision","12","--logLevel","0"}+(master ? Args{"--evol","master"} : Args{"--evol","single","--no_noise"})),want,1.,2e-4); });
  return vmc::finish(); }
