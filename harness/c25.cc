// C25: phase-space functions against the displaced parity / coherent-state overlap computed by recursion; formatting of every magnitude, sign and precision.
#include "DistributionFunctions.h"
#include "FormDouble.h"
#include "ElementAveraged.h"
#include "Trajectory.h"
#include "qharness.h"
#include "mocktraj.h"
using namespace q; using vmc::cat; using D=vector<double>;
// <n|D(b)|m> for n,m<N by recursion
static M displacement(int N, C b) { M d(N); d(0,0)=std::exp(-.5*std::norm(b)); for (int n=1;n<N;++n) d(n,0)=d(n-1,0)*b/std::sqrt(double(n)); for (int m=0;m+1<N;++m) for (int n=0;n<N;++n) d(n,m+1)=((n?std::sqrt(double(n))*d(n-1,m):C(0))-std::conj(b)*d(n,m))/std::sqrt(m+1.); return d; }
static double wig(const M& rho, int dim, C al) { M d=displacement(std::max(dim,1),2.*al); C s=0; for (int m=0;m<dim;++m) for (int n=0;n<dim;++n) s+=rho(m,n)*d(n,m)*C(m%2?-1.:1.); return s.real()/M_PI; }
static double qf(const M& rho, C al) { int N=rho.n; M d=displacement(N,al); C s=0; for (int m=0;m<N;++m) for (int n=0;n<N;++n) s+=std::conj(d(m,0))*rho(m,n)*d(n,0); return s.real(); }
struct Functor {const M& r; size_t getDimension(size_t=0) const {return r.n;} C operator()(int m, int n) const {return r(m,n);}};
static vector<std::pair<std::string,M>> states(int n, bool th) { vector<std::pair<std::string,M>> s; for (int k=0;k<n;++k) {M r(n); r(k,k)=1; s.push_back({cat("fock",k),r});} for (int i=0;i<n;++i) for (int j=i+1;j<n;++j) for (int ph=0;ph<2;++ph) {V v(n,C(0)); v[i]=std::sqrt(.5); v[j]=std::sqrt(.5)*(ph?I:C(1)); s.push_back({cat("super",i,j,ph),outer(v,v)});} V c(n); C a=1; for (int k=0;k<n;++k) {c[k]=a; a*=C(.7,-.4)/std::sqrt(k+1.);} double no=0; for (auto x : c) no+=std::norm(x); for (auto& x : c) x/=std::sqrt(no); s.push_back({"coherent",outer(c,c)}); for (int k=0;k<(th?6:2);++k) {V g=genV(n,30+k); s.push_back({cat("pure",k),outer(g,g)}); s.push_back({cat("mixed",k),genRho(n,50+k)});} return s; }
static bool pureOf(const M& r, V& v) { int n=r.n; int k=-1; for (int i=0;i<n;++i) if (std::abs(r(i,i))>1e-12) {k=i; break;} if (k<0) return false; v.assign(n,C(0)); for (int i=0;i<n;++i) v[i]=r(i,k)/std::sqrt(r(k,k).real()); M o=outer(v,v); for (int i=0;i<n;++i) for (int j=0;j<n;++j) if (std::abs(o(i,j)-r(i,j))>1e-12) return false; return true; }
static double readback(const std::string& s) {size_t p=0; try {return std::stod(s,&p);} catch (const std::out_of_range&) {return std::strtod(s.c_str(),nullptr);}}
// the printed token stands for v with p significant digits
static bool faithful(const std::string& tok, double v, int p, const std::string& what) { if (std::isnan(v)) return vmc::check(tok.find("nan")!=std::string::npos,what); if (std::isinf(v)) return vmc::check(tok==(v<0?"-inf":"inf"),what); char* e; double g=std::strtod(tok.c_str(),&e); if (!vmc::check(!*e && !tok.empty(),[&]{return cat(what,": not a number: `",tok,"'");})) return false; if (p<1) p=1;
  char b[64]; std::snprintf(b,64,"%.*e",p-1,v); double w=std::strtod(b,nullptr); // v correctly rounded to p significant digits
  int digits=0; bool lead=true; for (char c : tok) {if (c=='e') break; if (std::isdigit((unsigned char)c)) {if (lead && c=='0') continue; lead=false; ++digits;}} return vmc::check(g==w && std::signbit(g)==std::signbit(v) && (digits<=p || std::abs(v)>=1e5),[&]{return cat(what,": printed `",tok,"' for ",v," with precision ",p);}); }
static vector<double> values(bool th) { vector<double> r={0.,-0.,INFINITY,-INFINITY,NAN,5e-324,2.2250738585072014e-308,1.7976931348623157e308,-1.7976931348623157e308,-2.2250738585072014e-308,-5e-324,1./3,-2./3,M_PI}; for (int k=-307;k<=307;k+=(th||std::abs(k)<22)?1:(k%25==0?1:5)) for (double m : {1.,9.999999999,5.55,-1.2345678901234567,-9.5,-9.99999949999,1.0000005}) r.push_back(m*std::pow(10.,k)); return r; }
struct El : structure::ElementAveraged<1> {El() : structure::ElementAveraged<1>("el",{"a","b","c"}) {} const structure::Averages average_v(structure::NoTime, const quantumdata::LazyDensityOperator<1>&) const override {return initializedAverages();}};
struct Traj {double t, dt; D a; double getTime() const {return t;} double getDtDid() const {return dt;} auto stream(std::ostream& os, int precision) const {DArray<1> x(a.size()); for (size_t i=0;i<a.size();++i) x(i)=a[i]; return std::tuple<std::ostream&,DArray<1>>{El().stream(x,os,precision),x};} };
static vector<std::string> tokens(const std::string& s) {std::istringstream i(s); vector<std::string> r; std::string t; while (i>>t) r.push_back(t); return r;}
int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough(); int dmax=th?14:9;
  vector<C> pts; for (double x : {0.,.5,-.5,1.25,-2.,.001}) for (double y : {0.,.3,-1.,2.5}) pts.push_back({x,y}); if (th) for (int k=0;k<24;++k) for (double r : {.2,1.1,3.}) pts.push_back(std::polar(r,k*M_PI/12));
  for (int n=1;n<=dmax;++n) for (auto& [name,rho_] : states(n,th)) vmc::scenario(cat("phase/dim",n,"/",name),[&,name=name]{ M rho=rho_; auto d=dop<1>(rho,{n}); const quantumdata::LazyDensityOperator<1>& ld=d; V v; bool pure=pureOf(rho,v); auto s=sv<1>(pure?v:V(n,C(0)),{n}); const quantumdata::LazyDensityOperator<1>& ls=s; Functor fo{rho}; double t=1e-9;
      for (C a : pts) { double x=a.real(), y=a.imag(), w=wig(rho,n,a), Q=qf(rho,a); vmc::step(); std::string at=cat(" at ",a); if (!vmc::near(quantumdata::wignerFunction(d,x,y),w,"Wigner of density operator"+at,t)) return; vmc::near(quantumdata::wignerFunction(ld,x,y),w,"Wigner through the common interface"+at,t); if (pure) {vmc::near(quantumdata::wignerFunction(ls,x,y),w,"Wigner of state vector"+at,t); vmc::near(quantumdata::qFunction(ls,x,y,0),Q,"Q of state vector"+at,t);} vmc::near(quantumdata::qFunction(d,x,y,0),Q,"Q of density operator"+at,t); vmc::near(quantumdata::qFunction(ld,x,y,100),Q,"Q through the common interface"+at,t); vmc::near(quantumdata::wignerFunctionOld(fo,x,y),2*w,"old form of the Wigner function"+at,1e-8);
        for (int tr=1;tr<=n+2;++tr) vmc::near(quantumdata::wignerFunction(d,x,y,tr),wig(rho,std::min(tr,n),a),cat("truncated to ",tr,at),t); } vmc::state(hash(rho.a)); });
  // large dimensions
  for (int n : {30,80,120}) for (int k=0;k<3;++k) vmc::scenario(cat("phase/large",n,"/",k),[&]{ V c(n); C al=k==0?C(1.5,.5):k==1?C(-2,1):C(0,3), a=std::exp(-.5*std::norm(al)); for (int j=0;j<n;++j) {c[j]=a; a*=al/std::sqrt(j+1.);} auto s=sv<1>(c,{n}); auto d=dop<1>(outer(c,c),{n}); const quantumdata::LazyDensityOperator<1>& ls=s; for (C b : {al,C(0),al+C(.3,-.2),C(1,-1)}) { vmc::step(); vmc::near(quantumdata::wignerFunction(ls,b.real(),b.imag()),std::exp(-2*std::norm(b-al))/M_PI,cat("Wigner of a coherent state at ",b),1e-6); vmc::near(quantumdata::qFunction(d,b.real(),b.imag(),0),std::exp(-std::norm(b-al)),cat("Q of a coherent state at ",b),1e-6);} vmc::state(cat(n,k)); });
  // coherent amplitudes across the switch to the Stirling formula
  for (int n=0;n<=260;++n) vmc::scenario(cat("amplitude/",n),[&]{ for (C al : {C(1.5,.5),C(-2,1),C(3,0),C(0,-4),C(8,3)}) { C w=1; for (int j=1;j<=n;++j) w*=al/std::sqrt(double(j)); C g=cppqedutils::coherentElement(n,al); vmc::step(); vmc::check(std::abs(g-w)<=(n<160?1e-10:1e-3)*std::abs(w),[&]{return cat("amplitude of ",n," at ",al,": ",g," model says ",w);}); } });
  // scans
  for (int sym=0;sym<3;++sym) for (int mod=0;mod<2;++mod) for (int fn=0;fn<2;++fn) for (int cut : {100,2,0}) for (double step : {.5,.25,1.}) vmc::scenario(cat("scan/",sym,"/",mod,"/",fn,"/",cut,"/",step),[&]{ const int n=4; M rho=genRho(n,3); auto d=dop<1>(rho,{n}); parameters::Table pt; quantumdata::ParsFunctionScan p(pt,mod?"M":""); std::string sfx=mod?"M":""; vector<std::string> av={"prog","--fStep"+sfx,cat(step),"--fCutoff"+sfx,cat(cut)}; double xl=-2,xu=2,yl=-2,yu=2; auto set=[&](std::string k, double v){av.push_back("--"+k+sfx); av.push_back(cat(v));}; if (sym==1) {set("fLimitXUL",1.5); set("fLimitYUL",1.); xl=-1.5; xu=1.5; yl=-1; yu=1;} if (sym==2) {set("fLimitXUL",0.); set("fLimitYUL",0.); set("fLimitXL",-1.); set("fLimitXU",.5); set("fLimitYL",.25); set("fLimitYU",2.); xl=-1; xu=.5; yl=.25; yu=2;} vector<char*> c; for (auto& s : av) c.push_back(s.data()); update(pt,c.size(),c.data(),"--");
      std::ostringstream o; o.precision(15); using DO=quantumdata::DensityOperator<1>; if (fn) quantumdata::scanFunction(quantumdata::qFunction<DO>,d,o,p); else quantumdata::scanFunction(quantumdata::wignerFunction<DO>,d,o,p); std::istringstream is(o.str()); std::string l; for (double x=xl;x<xu;x+=step) { for (double y=yl;y<yu;y+=step) { if (!vmc::check(bool(std::getline(is,l)),"line missing")) return; auto t=tokens(l); if (!vmc::same(t.size(),size_t(3),"columns of line `"+l+"'")) return; vmc::step(); vmc::near(std::stod(t[0]),x,"x",1e-12); vmc::near(std::stod(t[1]),y,"y",1e-12); vmc::near(std::stod(t[2]),fn?qf(rho,{x,y}):wig(rho,cut?std::min(cut,n):n,{x,y}),cat("value at ",x,",",y),1e-9); } vmc::check(bool(std::getline(is,l)) && l.empty(),"blocks are separated by an empty line"); } vmc::check(!std::getline(is,l),"nothing beyond"); vmc::state(o.str()); });
  // single numbers
  auto vals=values(th);
  for (int p=1;p<=17;++p) for (int kind=0;kind<5;++kind) vmc::scenario(cat("number/precision",p,"/",kind),[&]{ for (double v : vals) { if (kind==1 && std::signbit(v)) continue; FormDouble fd=kind==0?FormDouble(p):kind==1?formdouble::positive(p):kind==2?formdouble::zeroAdditional(p):kind==3?FormDouble(p,0):FormDouble(p,40); int pp=kind==1||kind==2?std::max(p,6):p; vmc::same(fd.getPrecision(),pp,"precision"); std::ostringstream o; o.precision(3); o.setf(std::ios::fixed,std::ios::floatfield); o<<fd(v); std::string s=o.str(); vmc::step(); vmc::check(o.precision()==3 && (o.flags()&std::ios::fixed) && o.width()==0,"the stream's own format is unaffected"); auto t=tokens(s); if (!vmc::check(t.size()==1 && s.find(t[0])==0,[&]{return cat("one left-adjusted token: `",s,"'");})) return; if (!faithful(t[0],v,pp,"number")) return; if (kind<2) vmc::check(s.back()==' ' && (int)s.size()==fd.getWidth(),[&]{return cat("column of the announced width ending with a space: `",s,"'");}); if (kind==2||kind==3) vmc::same(s,t[0],"no padding"); if (kind==4) vmc::same(s.size(),size_t(40),"width"); } vmc::state(cat(p,kind)); });
  for (int p=1;p<=17;++p) vmc::scenario(cat("complex/precision",p),[&]{ D few={0.,1.,-1./3,2e-20,-3.25e150,1e5,-123456.789}; for (double a : few) for (double b : few) { std::ostringstream o; o<<FormDouble(p)(C(a,b)); std::string s=o.str(); vmc::step(); size_t c=s.find(','), e=s.find(')'); if (!vmc::check(s[0]=='(' && c!=std::string::npos && e!=std::string::npos,"(re,im): "+s)) return; faithful(s.substr(1,c-1),a,p,"real part"); faithful(s.substr(c+1,e-c-1),b,p,"imaginary part"); } });
  // adjacent columns, in every combination
  D col={0.,1.,-1./3,-1.2345678901234567e-300,9.8765432109876543e+299,-1.2345678901234567e-5,123456789.123456789,-9.99999999e99,5e-324,-.00012345678901234567}; for (int p=1;p<=17;++p) for (double a : col) vmc::scenario(cat("columns/precision",p,"/",a),[&]{ for (double b : col) for (double c : col) for (int pos=0;pos<3;++pos) { Traj tr{pos==0?std::abs(a):.5,pos==1?std::abs(b):1e-3,{a,b,c}}; std::ostringstream o; o.precision(4); cppqedutils::trajectory::stream(tr,o,p); std::string s=o.str(); vmc::step(); if (!vmc::check(std::count(s.begin(),s.end(),'\n')==1 && s.back()=='\n',"one line")) return; auto t=tokens(s); if (!vmc::check(t.size()==5,[&]{return cat("five separate columns: `",s,"'");})) return; int q=std::max(6,p); if (!faithful(t[0],tr.t,q,"time") || !faithful(t[1],tr.dt,q,"step") || !faithful(t[2],a,p,"first") || !faithful(t[3],b,p,"second") || !faithful(t[4],c,p,"third")) return; } vmc::state(cat(p,a)); });
  // the overall precision set from the command line
  for (int p=0;p<=17;++p) for (int mod=0;mod<2;++mod) vmc::scenario(cat("option/",p,"/",mod),[&]{ FormDouble::overallPrecision=3; parameters::Table t; cppqedutils::trajectory::Pars<> pa(t,mod?"X":""); vmc::same(int(pa.precision),6,"default"); vmc::same(FormDouble::overallPrecision,3,"untouched by registration"); vector<std::string> av={"prog",mod?"--precisionX":"--precision",cat(p)}; vector<char*> c; for (auto& s : av) c.push_back(s.data()); update(t,c.size(),c.data(),"--"); vmc::step(); vmc::same(int(pa.precision),p,"precision"); vmc::same(FormDouble::overallPrecision,p,"overall precision"); vmc::same(formdouble::actualPrecision(p),std::max(6,p),"actual precision"); });
  // the two generic precisions
  vmc::scenario("generic precisions",[&]{ for (double v : vals) { std::ostringstream a,b; a<<formdouble::low()(v); b<<formdouble::high()(v); vmc::step(); if (!faithful(tokens(a.str())[0],v,3,"low precision") || !faithful(tokens(b.str())[0],v,6,"high precision")) return; } vmc::state("generic"); });
  return vmc::finish(); }
