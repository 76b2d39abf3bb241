// C29: the programs shipped with the framework, run in-process with a command line, against dense models of the system the command line describes.
#pragma once
#include "elements.h"
#include "mocktraj.h"
#include <map>
namespace p29 {
using namespace el; using D=vector<double>; using Want=std::function<D(const M&)>; using Args=vector<std::string>; using Main=int(*)(int,char**);
using q::operator+; inline Args operator+(Args a, const Args& b) {a.insert(a.end(),b.begin(),b.end()); return a;}
inline std::string num(double x) {char b[40]; std::snprintf(b,40,"%.12g",x); return b;}
inline std::string num(C x) {return x.imag() ? "("+num(x.real())+","+num(x.imag())+")" : num(x.real());}
inline std::string join(const Args& a) {std::string r; for (auto& x : a) r+=(r.empty()?"":" ")+x; return r;}
// ---- observables promised by the keys
inline double re(const M& o, const M& r) {return tr(o*r).real();}
inline double im(const M& o, const M& r) {return tr(o*r).imag();}
inline void add(D& a, const D& b) {a.insert(a.end(),b.begin(),b.end());}
inline D wMode(const M& r) {int n=r.n; M a=annihilate(n), N=number(n); double m=re(N,r); return {m,re(N*N,r)-m*m,re(a,r),im(a,r)};}
inline D wQuad(const M& r) {int n=r.n; M a=annihilate(n), N=number(n); D w=wMode(r); C al=tr(a*r), a2=tr(a*a*r); double x=std::sqrt(2.)*al.real(), y=std::sqrt(2.)*al.imag(); w.push_back(re(N,r)+.5+a2.real()-x*x); w.push_back(re(N,r)+.5-a2.real()-y*y); w.push_back(a2.imag()-x*y); return w;}
inline D wQbit(const M& r) {return {r(0,0).real(),r(1,1).real(),r(1,0).real(),r(1,0).imag()};}
inline D wDiag(const M& r) {D w; for (int i=0;i<r.n;++i) w.push_back(r(i,i).real()); return w;}
inline D wFull(const M& r) {D w=wDiag(r); for (int i=0;i<r.n;++i) for (int j=i+1;j<r.n;++j) {w.push_back(r(i,j).real()); w.push_back(r(i,j).imag());} return w;}
inline M dft(int n) {M f(n); double dx=2*M_PI/n; for (int j=0;j<n;++j) for (int m=0;m<n;++m) f(j,m)=std::exp(I*double(m-n/2)*(dx*j-M_PI))/std::sqrt(double(n)); return f;}
inline D wPart(const M& r) {int n=r.n; M f=dft(n); double dx=2*M_PI/n; M rx=f*r*dag(f); double k1=0,k2=0,x1=0,x2=0; for (int i=0;i<n;++i) {double k=i-n/2, x=dx*(i-n/2); k1+=k*r(i,i).real(); k2+=k*k*r(i,i).real(); x1+=x*rx(i,i).real(); x2+=x*x*rx(i,i).real();} return {k1,k2-k1*k1,x1,std::sqrt(std::max(0.,x2-x1*x1))};}
inline Want wSpin(int twoS) {return [=](const M& r){int n=r.n; M z=spinZ(n,twoS), p=spinPlus(n,twoS); double m=re(z,r); return D{m,re(z*z,r)-m*m,re(p,r),im(p,r),r(n-1,n-1).real()};};}
inline Want on(Want f, vector<int> at, Dims d) {return [=](const M& r){return f(reduce(r,at,d));};}
inline Want all(vector<Want> f) {return [=](const M& r){D w; for (auto& g : f) add(w,g(r)); return w;};}
// ---- mode functions as sums of momentum shifts
using Ser=std::map<int,C>;
inline Ser mf(const std::string& t, int K) {Ser r; if (t=="Sin") {r[K]+=-.5*I; r[-K]+=.5*I;} else if (t=="Cos") {r[K]+=.5; r[-K]+=.5;} else if (t=="Plus") r[K]+=1.; else r[-K]+=1.; return r;}
inline C mfAt(const std::string& t, double x) {C r=0; for (auto& [s,c] : mf(t,1)) r+=c*std::exp(I*(s*x)); return r;}
inline Ser conjOf(const Ser& a) {Ser r; for (auto& [s,c] : a) r[-s]+=std::conj(c); return r;}
inline Ser mul(const Ser& a, const Ser& b) {Ser r; for (auto& [s,c] : a) for (auto& [u,d] : b) r[s+u]+=c*d; return r;}
inline M shifts(const Ser& a, int n) {M r(n); for (auto& [s,c] : a) for (int i=0;i<n;++i) if (i+s>=0 && i+s<n) r(i+s,i)+=c; return r;}
inline double etaEff(double u, double v) {return (u<0?-1:1)*std::sqrt(u*v);}
inline bool cplx(const std::string& t) {return t=="Plus" || t=="Minus";}
// ---- subsystems: options, generator, jumps, initial state
struct Part {Args a; int n; M G; vector<M> J; V psi; Want w;};
inline V coherent(C al, int n) {V v(n); C x=std::exp(-std::norm(al)/2); for (int i=0;i<n;++i) {v[i]=x; x*=al/std::sqrt(i+1.);} return v;}
inline Part modeP(const ModePars& m, C minit, int fock, std::string s="", bool lossy=true, bool pumped=true) {Part p; p.a={"--cutoff"+s,num(m.cutoff),"--deltaC"+s,num(m.delta)}; if (m.kerr) p.a=p.a+Args{"--omegaKerr"+s,num(m.kerr)}; if (m.kerrAlter) p.a=p.a+Args{"--omegaKerrAlter"+s,num(m.kerrAlter)}; if (lossy) {p.a=p.a+Args{"--kappa"+s,num(m.kappa)}; if (m.nTh) p.a=p.a+Args{"--nTh"+s,num(m.nTh)};} if (pumped && m.eta!=0.) p.a=p.a+Args{"--eta"+s,num(m.eta)}; if (fock) p.a=p.a+Args{"--minitFock"+s,num(fock)}; else if (minit!=0.) p.a=p.a+Args{"--minit"+s,num(minit)};
  p.n=m.cutoff; p.G=modeG(m); p.J=modeJ(m); p.psi=fock ? basis(p.n,fock) : coherent(minit,p.n); p.w=wMode; return p; }
inline Part qbitP(double d, double g, C e, double gp, C init) {Part p; p.a={"--deltaA",num(d),"--gamma",num(g)}; if (e!=0.) p.a=p.a+Args{"--etat",num(e)}; if (gp>0) p.a=p.a+Args{"--gamma_parallel",num(gp)}; if (init!=0.) p.a=p.a+Args{"--qbitInit",num(init)}; M s=annihilate(2); p.n=2; p.G=(-(g-I*d))*number(2)+std::conj(e)*s-e*dag(s); if (g) p.J.push_back(C(std::sqrt(2*g))*s); if (gp>0) p.J.push_back(C(std::sqrt(2*gp))*diag({1.,-1.})); p.psi={std::sqrt(1-std::norm(init)),init}; p.w=wQbit; return p;}
inline V packet(int n, double x0, double k0, double sig, bool inK) {V w(n); for (int i=0;i<n;++i) {double x=2*M_PI/n*(i-n/2), k=i-n/2; w[i]=inK ? std::exp(-(k-k0)*(k-k0)/(4*sig*sig))*std::exp(-I*k*(M_PI*x0)) : std::exp(-(x-M_PI*x0)*(x-M_PI*x0)/(4*sig*sig))*std::exp(I*x*k0);} if (!inK) w=dag(dft(n))*w; double nn=norm(w); for (auto& e : w) e/=nn; return w;}
inline V oscillator(int n, int m, double x0, double sig) {V w(n); for (int i=0;i<n;++i) {double y=(2*M_PI/n*(i-n/2)-M_PI*x0)/sig, h[]={1.,2*y,4*y*y-2,8*y*y*y-12*y}; w[i]=std::exp(-y*y/2)*h[m];} w=dag(dft(n))*w; double nn=norm(w); for (auto& e : w) e/=nn; return w;}
struct PPars {int fin; double omrec; double x0, k0, sig; bool inK=false; int ho=-1; bool pumped=false; double v=0; std::string mt="Sin"; int K=1; };
inline Part particleP(const PPars& q) {Part p; p.a={"--fin",num(q.fin),"--omrec",num(q.omrec),"--pinit",cat("(",num(q.x0),",",num(q.k0),",",num(q.sig),",",q.inK?"1":"0",")")}; if (q.ho>=0) p.a=p.a+Args{"--HOinitn",num(q.ho)}; if (q.pumped) p.a=p.a+Args{"--vClass",num(q.v),"--modePart",q.mt,"--kPart",num(q.K)}; p.n=1<<q.fin; p.G=M(p.n); for (int i=0;i<p.n;++i) p.G(i,i)=-I*q.omrec*std::pow(i-p.n/2,2); if (q.pumped && q.v) {M u=shifts(mul(conjOf(mf(q.mt,q.K)),mf(q.mt,q.K)),p.n); for (int i=0;i<p.n;++i) u(i,i)=0; p.G=p.G+(-I*q.v)*u;} // the constant part of the potential is left out
  double sig=q.sig; if (!sig && q.pumped) sig=std::pow(q.omrec/std::abs(q.v),.25)/std::sqrt(2.); p.psi=q.ho<0 ? packet(p.n,q.x0,q.k0,sig,q.inK) : oscillator(p.n,q.ho,q.x0,q.sig ? q.sig : std::sqrt(2.)*sig); p.w=wPart; return p; }
// ---- composition
struct Model {Args a; Dims d; M G; std::function<M(double)> Gt; vector<M> J; V psi; Want w;};
inline Model compose(const vector<Part>& ps, const vector<std::pair<M,vector<int>>>& H) {Model m; V v{1.}; for (auto& p : ps) {m.d.push_back(p.n); v=kron(v,p.psi); m.a=m.a+p.a;} m.psi=v; m.G=M(total(m.d)); vector<Want> ws; for (int i=0;i<(int)ps.size();++i) {m.G=m.G+embed(ps[i].G,{i},m.d); for (auto& j : ps[i].J) m.J.push_back(embed(j,{i},m.d)); if (ps[i].w) ws.push_back(on(ps[i].w,{i},m.d));} for (auto& [h,at] : H) m.G=m.G+(-I)*embed(h,at,m.d); m.w=all(ws); return m;}
inline M deriv(const Model& m, const M& G, const M& r, bool jumps) {M y=G*r; y=y+dag(y); if (jumps) for (auto& j : m.J) y=y+j*(r*dag(j)); return y;}
// the state at the instants k*dt, normalised
inline vector<M> states(const Model& m, bool jumps, double dt, int N) { vector<M> r; if (!jumps && !m.Gt) {V v=m.psi; M U=expm(C(dt)*m.G); for (int k=0;k<=N;++k) {V w=v; double x=norm(w); for (auto& e : w) e/=x; r.push_back(outer(w,w)); v=U*v;} return r;}
  M rho=outer(m.psi,m.psi); double nn=maxabs(m.G)*2; for (auto& j : m.J) nn+=std::pow(maxabs(j),2); int n=std::max(40,int(dt*nn*8)); double h=dt/n; for (int k=0;k<=N;++k) {r.push_back(C(1./tr(rho).real())*rho); if (k<N) for (int i=0;i<n;++i) { double t=k*dt+i*h;
      if (!m.Gt) {M y=rho; for (int o=1;o<=8;++o) {y=C(h/o)*deriv(m,m.G,y,jumps); rho=rho+y;}}
      else {auto f=[&](double s, const M& x){return deriv(m,m.Gt(s),x,jumps);}; M k1=f(t,rho), k2=f(t+h/2,rho+C(.5*h)*k1), k3=f(t+h/2,rho+C(.5*h)*k2), k4=f(t+h,rho+C(h)*k3); rho=rho+C(h/6)*(k1+C(2)*k2+C(2)*k3+k4);} }} return r; }
inline double neg(const M& r, const Dims& d, const vector<int>& sub) {M t(r.n); for (int i=0;i<r.n;++i) for (int j=0;j<r.n;++j) {auto x=unflat(i,d), y=unflat(j,d); for (int s : sub) std::swap(x[s],y[s]); t(flat(x,d),flat(y,d))=r(i,j);} double s=0; for (double e : heig(t)) s+=std::abs(e); return (s-1)/2;}
// ---- running a program
struct Out {vector<D> rows; std::string txt; int rc=0;};
inline Out program(Main f, const Args& args) { Out o; Args a=Args{"prog"}+args; vector<char*> v; for (auto& s : a) v.push_back(s.data()); v.push_back(nullptr); std::stringstream e; auto* ec=std::cerr.rdbuf(e.rdbuf()); auto* lc=std::clog.rdbuf(e.rdbuf()); struct R {std::streambuf *a,*b; ~R() {std::cerr.rdbuf(a); std::clog.rdbuf(b);}} rs{ec,lc}; auto fl=std::cout.flags(); auto pr=std::cout.precision();
  { mock::CaptureCout cap; struct F {std::ios::fmtflags f; std::streamsize p; ~F() {std::cout.flags(f); std::cout.precision(p); std::cout.clear();}} fs{fl,pr}; o.rc=f((int)a.size(),v.data()); o.txt=cap.str(); }
  std::istringstream is(o.txt); std::string l; while (std::getline(is,l)) { if (l.empty() || l[0]=='#' || l.find_first_not_of(" \t")==std::string::npos) continue; for (char& c : l) if (c=='(' || c==')' || c==',') c=' '; D r; std::istringstream ls(l); std::string t; bool ok=true; while (ls>>t) {char* q; r.push_back(std::strtod(t.c_str(),&q)); ok&=!*q;} if (ok) o.rows.push_back(r); } return o; }
inline const Args& driver(double dt, int N) {static Args a; a={"--dc","0","--Dt",num(dt),"--T",num(dt*N),"--eps","1e-10","--epsAbs","1e-12","--precision","12","--logLevel","0"}; return a;}
inline void rows(const Out& o, const vector<D>& want, double dt, double tol=3e-7) { vmc::same(o.rc,0,"exit status"); if (!vmc::same(o.rows.size(),want.size(),"number of lines")) return; for (size_t k=0;k<want.size();++k) { vmc::step(); auto& r=o.rows[k]; if (!vmc::same(r.size(),want[k].size()+2,"number of columns")) return; if (!vmc::near(r[0],k*dt,"time",1e-8)) return; vmc::state(vmc::fnv(want[k].data(),want[k].size()*8)); if (!eqd(D(r.begin()+2,r.end()),want[k],cat("line at t=",num(k*dt)),tol)) return; } }
struct How {std::string name; Args a; bool jumps; bool ems;};
inline vector<How> hows(bool picture, bool th, vector<std::string> pics={"IP","UIP","Sch"}) {vector<How> r; if (!picture) pics={""}; for (auto& p : pics) for (int k=0;k<3;++k) {if (k==1 && !th && &p!=&pics[0]) continue; Args a; if (!p.empty()) a={"--picture",p}; if (k==2) a=a+Args{"--evol","master"}; else if (k) a=a+Args{"--evol","ensemble","--nTraj","2","--no_noise"}; else a=a+Args{"--evol","single","--no_noise"}; r.push_back({cat(p,k==2?"master":k?"ensemble":"single"),a,k==2,false});} return r;}
// the program run with the options of the model (and more) prints the model's expectation values; if sub is given, the negativity of that part may be asked for in a master equation
inline void agree(const std::string& id, Main f, const Model& m, const Args& more, const vector<How>& hs, double dt=.13, int N=3, double tol=3e-7, vector<int> sub={}) { for (auto& h : hs) for (int e=0;e<(h.jumps && sub.size() ? 2 : 1);++e) vmc::scenario(cat(id,"/",h.name,e?"/negativity":"","/",join(m.a+more)),[&]{ auto st=states(m,h.jumps,dt,N); vector<D> want; for (auto& r : st) {D w=m.w(r); if (e) w.push_back(neg(r,m.d,sub)); want.push_back(w);} rows(program(f,m.a+more+h.a+driver(dt,N)+(e ? Args{"--ems","1"} : Args{})),want,dt,e?1e-5:tol); }); }
// an ordinary differential equation
inline void classical(const std::string& id, Main f, const Args& a, V x, std::function<V(double,const V&)> rhs, std::function<D(const V&)> w, double dt=.13, int N=3) { vmc::scenario(cat(id,"/",join(a)),[&]{ vector<D> want; int n=1000; double h=dt/n; V y=x; for (int k=0;k<=N;++k) {want.push_back(w(y)); if (k<N) for (int i=0;i<n;++i) {double t=k*dt+i*h; V k1=rhs(t,y), k2=rhs(t+h/2,y+C(h/2)*k1), k3=rhs(t+h/2,y+C(h/2)*k2), k4=rhs(t+h,y+C(h)*k3); y=y+C(h/6)*(k1+C(2)*k2+C(2)*k3+k4);}} rows(program(f,a+driver(dt,N)),want,dt); }); }
inline D parts(const V& v) {D r; for (auto& x : v) {r.push_back(x.real()); r.push_back(x.imag());} return r;}
} // p29
