// C04: every sequence of printed lines over a small alphabet, every repetition count, precision, streaming mode and state-output frequency, through the real run loop with automatic stopping.
#include "statefile.h"
#include "StochasticTrajectory.h"
using vmc::cat; using std::vector;
struct Cfg {unsigned rep; double eps, epsAbs; int dc; unsigned sdf; bool file; bool nDt;};
// the model: index of the line at which the run stops, or -1
static long stopsAt(const vector<vector<double>>& lines, unsigned rep, double eps, double epsAbs) { if (!rep) return -1; vector<vector<double>> v=lines; for (auto& l : v) for (auto& x : l) if (std::abs(x)<epsAbs) x=epsAbs;
  for (size_t k=rep+1;k<v.size();++k) { double worst=0; for (size_t c=0;c<v[k].size();++c) { long double a=0; for (size_t j=k-rep;j<k;++j) a+=v[j][c]; a/=rep; long double den=std::abs(a)+std::abs((long double)v[k][c]); worst=std::max<double>(worst,den==0?0.:double(std::abs(a-v[k][c])/den)); }
    if (std::abs(worst-eps)<1e-9) {vmc::fail("harness: borderline comparison"); return -1;} if (worst<eps) return k; } return -1; }
static void one(const vector<vector<double>>& seq, const Cfg& c, bool direct) {
  const long n=seq.size(); long want=stopsAt(seq,c.rep,c.eps,c.epsAbs); const int cols=seq[0].size();
  vmc::state(cat(want,c.rep)); vmc::step(n);
  if (direct) { cppqedutils::trajectory::AutostopHandlerGeneric<DArray<1>> h(c.eps,c.epsAbs,c.rep); long got=-1; for (long k=0;k<n && got<0;++k) { DArray<1> a(cols); for (int i=0;i<cols;++i) a(i)=seq[k][i]; DArray<1> before(a.copy()); try {h(a);} catch (const cppqedutils::trajectory::StoppingCriterionReachedException&) {got=k;} vmc::check(all(a==before),"the streamed data are modified"); } vmc::same(got,want,"stopping line (handler)"); return; }
  parameters::Table t; cppqedutils::trajectory::Pars<cppqedutils::trajectory::ParsStochastic<pcg64>> p(t);
  mock::Stepping tr; tr.script={.5,.25}; tr.nCols=cols; tr.valueOf=[&](long k, int i){return seq[std::min<long>(k,n-1)][i];};
  p.autoStopEpsilon=c.eps; p.autoStopEpsilonAbs=c.epsAbs; p.autoStopRepetition=c.rep; p.dc=c.dc; p.sdf=c.sdf; p.precision=17;
  // a run with exactly n scheduled lines
  double T; if (c.dc) { double tt=0; for (long s=0;s<c.dc*(n-1);++s) tt+=tr.script[s%2]; T=tt; p.T=T; p.Dt=0; } else {p.Dt=.5; T=.5*(n-1); if (c.nDt) {p.NDt=n-1; p.T=1000;} else {p.T=T; p.NDt=0;}}
  if (T==0) return; const std::string fn="as"; sf::wipe(fn); p.ofn=c.file?fn:"";
  mock::CaptureCout cap; auto res=cppqedutils::run(tr,p,true,true); std::string txt=c.file?mock::slurp(fn):cap.str(); auto o=mock::parse(txt);
  long lines=want<0?n:want+1; if (!vmc::same(long(o.data.size()),lines,"number of printed lines")) return;
  vmc::same(long(res.size()),lines,"number of returned records"); vmc::same(mock::commentsContaining(o,"Stopping criterion has been reached"),want<0?0l:1l,"stop notice"); vmc::check(o.bad.empty(),"uncommented text"); vmc::same(mock::commentsContaining(o,"mock log on end"),1l,"log on end");
  double tStop=c.dc?o.data.back().v[0]:.5*(lines-1); if (c.dc) {double tt=0; for (long s=0;s<c.dc*(lines-1);++s) tt+=tr.script[s%2]; tStop=tt;} vmc::same(tr.t,tStop,"time at which the run ended"); for (long k=0;k<lines;++k) for (int i=0;i<cols;++i) vmc::near(o.data[k].v[2+i],seq[k][i],"printed value",1e-14);
  // everything after the notice is commented
  if (c.file) { auto recs=sf::records(fn+".state"); size_t nrec=0; bool last=false; for (long k=0;k<lines;++k) {last=c.sdf && k%c.sdf==0; if (last) ++nrec;} if (!last) ++nrec; vmc::same(recs.size(),nrec,"number of saved states"); mock::Stepping b; sf::restore(b,recs.back()); vmc::same(b.t,tr.t,"time of the last saved state"); vmc::same(b.nSteps,tr.nSteps,"steps of the last saved state"); vmc::check(sf::snapshot(b)==sf::snapshot(tr),"last saved state"); sf::wipe(fn); }
}
int main(int argc, char** argv) { vmc::init(argc,argv); const bool th=vmc::thorough();
  auto run=[&](const std::string& name, const vector<vector<double>>& alpha, int maxLen, const vector<double>& epss, const vector<double>& abss, bool direct, bool fullCfg){
    for (int len=1;len<=maxLen;++len) for (unsigned rep=0;rep<=4;++rep) { // scenario: prefix of two letters, inner loop over the rest
      int pre=std::min(len,2); vmc::sequences(alpha.size(),pre,[&](const vector<int>& a){ std::string as; for (int x : a) as+=cat(x,"."); vmc::scenario(cat(name,"/len=",len,"/rep=",(int)rep,"/",as),[&]{
        vmc::sequences(alpha.size(),len-pre,[&](const vector<int>& b){ if (vmc::failed()) return; vector<vector<double>> s; for (int x : a) s.push_back(alpha[x]); for (int x : b) s.push_back(alpha[x]);
          for (double e : epss) for (double ea : abss) { if (direct) one(s,{rep,e,ea,0,0,false,false},true);
            else if (fullCfg) for (int dc : {0,1,3}) for (unsigned sdf : {0u,1u,2u}) for (bool file : {false,true}) {if (!file && sdf) continue; one(s,{rep,e,ea,dc,sdf,file,sdf==1},false);}
            else one(s,{rep,e,ea,(int)(len%2),0,false,false},false); } }); }); }); } };
  // one column: values on both sides of both precisions
  vector<vector<double>> c1; for (double x : {1.,1.06,2.,-1.,.001,-.0015}) c1.push_back({x});
  run("handler1",c1,th?8:6,{.045,.3},{1e-12,.002},true,false);
  // two and three columns: agreement is needed in every column
  vector<vector<double>> c2; for (double x : {1.,1.06,5.}) for (double y : {-2.,-2.15,.0001}) c2.push_back({x,y});
  run("handler2",c2,th?6:5,{.045,.0005},{1e-12,.001},true,false);
  vector<vector<double>> c3; for (int i=0;i<5;++i) {vector<double> l(3,1.); if (i<3) l[i]=1.3; if (i==4) l={7.,8.,9.}; c3.push_back(l);}
  run("handler3",c3,th?7:5,{.045,.2},{1e-12},true,false);
  vector<vector<double>> c4; for (double x : {1.,1.02,4.}) c4.push_back({x,-x*x}); c4.push_back({1.,1e-9});
  run("run",c4,th?6:5,{.045},{1e-6},false,false);
  run("files",{{1.,2.},{1.02,2.},{4.,2.}},th?6:4,{.045},{1e-6},false,true);
  // longer histories: high repetition counts, many columns, any magnitude; every line at which the output may settle, and a late outlier in one column
  for (unsigned rep : {5u,8u,16u,33u,100u}) for (int cols : {1,2,9,40}) for (double scale : {1.,1e-7,-3e8}) for (long settle : {0l,1l,2l,long(rep)-1,long(rep),long(rep)+1,3l*rep}) for (int kind=0;kind<4;++kind)
    vmc::scenario(cat("long/rep=",(int)rep,"/cols=",cols,"/scale=",scale,"/settle=",settle,"/kind=",kind),[&]{ for (int odd : {0,cols/2,cols-1}) for (int mode=0;mode<3;++mode) { if (vmc::failed()) return; vector<vector<double>> s; const long n=settle+2*rep+8;
      for (long k=0;k<n;++k) { vector<double> l(cols); for (int c=0;c<cols;++c) l[c]=scale*(1+.37*c); if (kind==0 && k<settle) l[odd]*=1.5+.25*(k%3); if (kind==1) l[odd]*=1+.9*std::pow(.8,double(k)); if (kind==2 && k==settle+long(rep)) l[odd]*=-1.; if (kind==3) l[odd]*=k>=settle ? 1. : (k%2 ? 1.7 : .3); s.push_back(l); }
      double eps=.013; if (mode<2) one(s,{rep,eps,mode?1e-6:1e-12,0,0,false,false},true); else one(s,{rep,eps,1e-12,int(rep%2),unsigned(kind%3),kind>1,settle%2==0},false); } });
  // an array of complex... the generic handler on a fresh object per run: two runs in sequence do not share their history
  for (unsigned rep=1;rep<=3;++rep) for (int n1=1;n1<=5;++n1) vmc::scenario(cat("second run/rep=",(int)rep,"/n1=",n1),[&]{ parameters::Table t; cppqedutils::trajectory::Pars<cppqedutils::trajectory::ParsStochastic<pcg64>> p(t); mock::Stepping tr; tr.script={.5}; tr.valueOf=[&](long,int){return 3.;}; p.autoStopRepetition=rep; p.autoStopEpsilon=.01; p.autoStopEpsilonAbs=1e-12; p.Dt=.5; p.dc=0; p.T=.5*n1;
    {mock::CaptureCout c; cppqedutils::run(tr,p);} long l1=std::min<long>(n1+1,rep+2); double t1=.5*(l1-1); vmc::same(tr.t,t1,"end of the first run"); vmc::step(); p.T=100; mock::CaptureCout c; cppqedutils::run(tr,p); auto o=mock::parse(c.str()); vmc::same(long(o.data.size()),long(rep+2),"lines of the second run"); });
  return vmc::finish(); }
