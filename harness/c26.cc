// C26: what is logged: commented out under all interleavings with data, complete and true at every log level, without influence on the data.
#include "EvolutionBinary.h"
#include "mcwf_model.h"
#include "mocktraj.h"
#include "CommentingStream.h"
using namespace q; using namespace quantumtrajectory; using vmc::cat;
using quantumtrajectory::mcwf::Logger; using quantumtrajectory::mcwf::EnsembleLogger;
static double nextDraw=.5;
static double grab(const std::string& txt, const std::string& key) {auto k=txt.find(key); if (k==std::string::npos) return NAN; return std::atof(txt.c_str()+k+key.size());}
static std::string commented(const std::string& s) {std::string r; bool begin=true; for (char c : s) {if (c=='\n') {r+=c; begin=true;} else {if (begin) r+="# "; begin=false; r+=c;}} return r;}
// all numbers of a line
static std::vector<double> numbers(const std::string& l) {std::vector<double> r; for (const char* p=l.c_str(); *p;) { bool start=p==l.c_str() || std::strchr(" \t,:=(",p[-1]); char* e; double d; if (start && (std::isdigit((unsigned char)*p) || ((*p=='-'||*p=='+') && std::isdigit((unsigned char)p[1]))) && (d=std::strtod(p,&e),e!=p)) {r.push_back(d); p=e;} else ++p; } return r;}
static Tables tables(int n, int mask, const std::vector<int>& neg, double strength) { Tables t; M h0=genH(n,1)+(-.2*I)*genRho(n,4), K=diag(genV(n,3,false)); for (auto& x : K.a) x=x.real(); t.H=[=](double tt, double t0)->M{ if (!(mask&2)) return h0; return expm((I*(tt-t0))*K)*h0*expm((-I*(tt-t0))*K); }; t.U=[=](double tt, double t0)->M{return expm((-I*(tt-t0))*K);};
  for (size_t i=0;i<neg.size();++i) {M j=C(strength)*genM(n,20+i); t.J.push_back([=](double)->M{return j;}); t.negRate.push_back(neg[i]);} for (int i=0;i<2;++i) t.A.push_back(genH(n,40+i)); return t; }
struct CaptureClog { std::stringstream ss; std::streambuf* old; CaptureClog() : old(std::clog.rdbuf(ss.rdbuf())) {} ~CaptureClog() {std::clog.rdbuf(old);} };
struct Member { Logger l; const Logger& getLogger() const {return l;} };
struct Ref { long steps=0, over=0, back=0; double mo=0, mb=0, mn=0; std::vector<std::pair<double,size_t>> jumps; };
int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough();
  vstub::script()=[](uint64_t, uint64_t, uint64_t, uint64_t& out){ out=nextDraw>=1. ? ~0ull : uint64_t(std::ldexp(nextDraw,64)); return true; };
  // 1. commenting: every text, written in every partition into flushed pieces
  { const char* al="x# \n1"; const int L=th?7:6; for (int len=0;len<=L;++len) { std::vector<std::vector<int>> heads; vmc::sequences(5,std::min(len,2),[&](const std::vector<int>& s){heads.push_back(s);}); for (auto& h : heads) vmc::scenario(cat("comment/",len,"/",h),[&]{ vmc::sequences(5,len-(int)h.size(),[&](const std::vector<int>& s){ if (vmc::failed()) return; std::string t; for (int i : h) t+=al[i]; for (int i : s) t+=al[i];
      for (int cut=0;cut<(1<<std::max(0,len-1));++cut) { if (len>5 && cut!=0 && cut!=(1<<(len-1))-1 && (cut&(cut-1))) continue; auto o=std::make_shared<std::ostringstream>(); { cppqedutils::CommentingStream cs{o}; for (int i=0;i<len;++i) {cs<<t[i]; if (cut>>i&1) cs.flush();} vmc::step(); } if (!vmc::same(o->str(),commented(t),cat("text ",vmc::jstr(t),", flushed after ",cut))) return; vmc::gstate(t); } }); }); } }
  // two commenting streams and the data on one target, line by line in every order
  vmc::sequences(6,th?6:5,[&](const std::vector<int>& s){ static std::string cur; vmc::scenario(cat("interleave/",s),[&]{ auto o=std::make_shared<std::ostringstream>(); std::string want; { cppqedutils::CommentingStream a{o}, b{o}; for (size_t i=0;i<s.size();++i) { int k=s[i]%3; bool two=s[i]/3; std::string txt=cat("v",i,two?"\n\nw":""); if (k==0) {a<<txt<<std::endl; want+=commented(txt+"\n");} else if (k==1) {b<<txt<<std::endl; want+=commented(txt+"\n");} else {*o<<i<<"\t1.5"<<std::endl; want+=cat(i,"\t1.5\n");} vmc::step(); vmc::same(o->str(),want,cat("after line ",i)); } } vmc::same(o->str(),want,"at the end"); vmc::gstate(want); }); });
  // retargeting
  for (int n=0;n<4;++n) for (int m=0;m<4;++m) vmc::scenario(cat("retarget/",n,"/",m),[&]{ auto o=std::make_shared<std::ostringstream>(), p=std::make_shared<std::ostringstream>(); std::string a, b; {cppqedutils::CommentingStream cs{o}; for (int i=0;i<n;++i) {cs<<i<<" a\n"<<std::flush; a+=cat(i," a\n");} cs.set(p); for (int i=0;i<m;++i) {cs<<i<<" b\n"<<std::flush; b+=cat(i," b\n");} vmc::step(n+m);} vmc::same(o->str(),commented(a),"first target"); vmc::same(p->str(),commented(b),"second target"); });
  // 2. the ODE engine: every sequence of requests with all patterns of failed tries, at every level
  for (int level=-1;level<=5;++level) vmc::sequences(3,3,[&](const std::vector<int>& fails){ vmc::scenario(cat("ode/level",level,"/fails",fails),[&]{ vmc::sequences(3,th?4:3,[&](const std::vector<int>& seq){ if (vmc::failed()) return; vstep::Script sc; sc.fails=fails; sc.factor={1.5,.5}; vstep::script()=sc; ScriptedEngine e(.1,level,1e-6,1e-6); CArray<1> y(1); y=1.; double t=0; long calls=0, steps=0, failed=0; const double req[]={1.,.04,1e-3};
    for (int s : seq) { long f=fails[vstep::script().call%3]; std::ostringstream log; e.step(req[s],log,[&](const CArray<1>& a, CArray<1>& d, double){++calls; d=-a;},t,y); ++steps; failed+=f; vmc::step(); std::string at=cat("requests ",seq,", step ",steps); if (level>3) {auto n=numbers(log.str()); vmc::check(!log.str().empty(),at+": the failed tries are reported"); if (vmc::same(n.size(),size_t(1),at+": numbers reported")) vmc::same(long(n[0]),f,at+": failed tries reported");} else vmc::same(log.str(),std::string(),at+": nothing is reported during the run");
      std::ostringstream o; e.logOnEnd(o); if (level>0) {vmc::same(long(grab(o.str(),"Total number of ODE steps: ")),steps,at+": steps"); vmc::same(long(grab(o.str(),"failed ODE steps: ")),failed,at+": failed"); vmc::same(long(grab(o.str(),"RHS for ODE: ")),calls,at+": calls");} else vmc::same(o.str(),std::string(),at+": no summary"); vmc::state(cat(steps,",",failed,",",calls)); } }); }); });
  // 3. quantum jumps: every sequence of decisions at every level; the reports during the run are exactly what happened, in order
  struct Lim {double dp, tol;}; const std::vector<Lim> lims={{.05,1.5},{.3,10}}; const std::vector<std::vector<int>> chans={{0},{0,1},{1,0,0},{1,1}};
  for (int mask : {4,5,6,7}) for (auto& ch : chans) for (auto& lim : lims) for (double strength : {.4,2.}) for (int level=-1;level<=5;++level) vmc::scenario(cat("jump/features=",mask,"/",ch,"/dp=",lim.dp,"/strength",strength,"/level",level),[&]{ int K=ch.size()+1, n=3; vmc::sequences(K,th?4:3,[&](const std::vector<int>& seq){ if (vmc::failed()) return;
    Tables tb=tables(n,mask,ch,strength); vstep::Script sc; sc.factor={3.,1.2}; sc.fails={0,1}; vstep::script()=sc; auto sys=makeWhole<1>(mask,{n},tb); V v=genV(n,8); CaptureClog clog; MCWF_Trajectory<1,ScriptedEngine,pcg64> tr(sys,sv1(v),ScriptedEngine(.2,level,1e-6,1e-6),randomutils::EngineWithParameters<pcg64>(7,1),lim.dp,lim.tol,level); McwfModel m(tb,mask,v,.2,lim.dp,lim.tol,sc); vmc::same(clog.ss.str().empty(),!(level>2 && m.over),"reports at the beginning");
    for (size_t s=0;s<seq.size();++s) { m.events.clear(); double Dt=s%2?.4:.15; auto cum=m.before(Dt); std::ostringstream log; log.precision(12); if (m.ambiguous) return; int k=seq[s]; double lo=k?cum[k-1]:0, hi=k<K-1?cum[k]:1; if (lo>=1 || !(hi>lo)) return; hi=std::min(hi,1.); nextDraw=.5*(lo+hi); tr.step(Dt,log); vmc::step(); m.after(nextDraw); std::string at=cat("decisions ",seq,", step ",s);
      std::vector<std::vector<double>> want, got; for (auto& e : m.events) { if (e.kind=='j' && level>1) want.push_back({e.a,e.b}); if (e.kind=='b' && level>2) want.push_back({e.a,e.b,e.c,e.d}); if (e.kind=='o' && level>2) want.push_back({e.a,e.b,e.c}); if (e.kind=='f' && level>3) want.push_back({e.a}); }
      std::istringstream is(log.str()); std::string l; while (std::getline(is,l)) if (!l.empty()) got.push_back(numbers(l)); if (!vmc::same(got.size(),want.size(),at+": number of reports")) return; for (size_t i=0;i<got.size();++i) if (!eqd(got[i],want[i],cat(at,": report ",i),1e-6)) return;
      std::ostringstream o; tr.logOnEnd(o); if (level<=0) vmc::same(o.str(),std::string(),at+": no summary"); else {vmc::same(long(grab(o.str(),"number of MCWF steps: ")),m.steps,at+": steps"); vmc::same(long(grab(o.str(),"dpLimit overshot: ")),m.over,at+": overshoots"); vmc::same(long(grab(o.str(),"dpTolerance overshot: ")),m.back,at+": retries"); size_t p=o.str().find("MCWF Trajectory:\n"); if (vmc::check(p!=std::string::npos,"list of jumps")) {std::istringstream js(o.str().substr(p+17)); double t; size_t c=0, ch; while (js>>t>>ch) {if (c<m.jumps.size()) {vmc::same(ch,m.jumps[c].second,at+": listed channel"); vmc::near(t,m.jumps[c].first,at+": listed instant",1e-4);} ++c;} vmc::same(c,m.jumps.size(),at+": listed jumps");}}
      vmc::state(cat(m.steps,m.over,m.back,m.jumps.size(),seq)); if (vmc::failed()) return; } }); });
  // header: the channels and those to be computed by acting
  for (int mask=0;mask<16;++mask) for (auto& ch : chans) { if (!(mask&4) && ch.size()>1) continue; vmc::scenario(cat("header/features=",mask,"/",ch),[&]{ CaptureClog clog; Tables tb=tables(3,mask,ch,.5); auto sys=makeWhole<1>(mask,{3},tb); MCWF_Trajectory<1,ScriptedEngine,pcg64> tr(sys,sv1(genV(3,8)),ScriptedEngine(.2,0,1e-6,1e-7),randomutils::EngineWithParameters<pcg64>(17,3),.0625,4.5,0); std::ostringstream o; tr.streamParameters(o); vmc::step(); std::string s=o.str(); vmc::near(grab(s,"dpLimit="),.0625,"limit in the header"); vmc::near(grab(s,"(overshoot tolerance factor)="),4.5,"tolerance in the header"); vmc::same(s.find("Interaction picture")!=std::string::npos,bool(mask&2),"picture"); vmc::same(s.find("Hamiltonian evolution")!=std::string::npos,bool(mask&1),"Hamiltonian"); vmc::same(s.find("Liouvillean evolution")!=std::string::npos,bool(mask&4),"Liouvillean"); vmc::same(s.find("calculates Averages")!=std::string::npos,bool(mask&8),"averages");
    auto p=s.find("Alternative Lindblads:"); vmc::same(p!=std::string::npos,bool(mask&4),"channels are listed"); if (p==std::string::npos) return; std::string l=s.substr(p+22,s.find('\n',p)-p-22); std::vector<int> want, got; for (size_t i=0;i<ch.size();++i) if (ch[i]) want.push_back(i); std::istringstream is(l); int x; while (is>>x) got.push_back(x); vmc::same(got,want,"channels calculated by acting"); vmc::same(l.find("none")!=std::string::npos,want.empty(),"none"); for (size_t i=0;i<ch.size();++i) vmc::check(s.find(cat(i,". sys jump ",i))!=std::string::npos,"key of the channel"); }); }
  // the header of a Master equation: the channels, and those whose superoperator is explicit
  for (int mask=0;mask<16;++mask) for (int so=0;so<2;++so) for (size_t nj=1;nj<=3;++nj) { if (!(mask&4) && (nj>1 || so)) continue; vmc::scenario(cat("masterheader/features=",mask,"/superoperator",so,"/channels",nj),[&]{ CaptureClog clog; Tables tb=tables(3,mask,std::vector<int>(nj,0),.5); tb.superOp=so; tb.unitary=true; auto sys=makeWhole<1>(mask,{3},tb); using SEng=cppqedutils::ODE_EngineBoost<quantumdata::DensityOperatorLow<1>>; Master<1,SEng> tr(sys,sv<1>(genV(3,8),{3}),SEng(.125,1,.0625,.25),0); std::ostringstream o; tr.streamParameters(o); vmc::step(); std::string s=o.str(); vmc::check(s.find("Master equation")!=std::string::npos,"method"); vmc::near(grab(s,"epsRel="),.0625,"epsRel"); vmc::near(grab(s,"epsAbs="),.25,"epsAbs"); vmc::check(s.find("#parameters of sys")!=std::string::npos || s.find("sys")!=std::string::npos,"parameters of the system");
    vmc::same(s.find("Interaction picture")!=std::string::npos,bool(mask&2),"picture"); vmc::same(s.find("Hamiltonian evolution")!=std::string::npos,bool(mask&1),"Hamiltonian"); vmc::same(s.find("Liouvillean evolution")!=std::string::npos,bool(mask&4),"Liouvillean"); vmc::same(s.find("calculates Averages")!=std::string::npos,bool(mask&8),"averages");
    auto p=s.find("superoperator calculations:"); vmc::same(p!=std::string::npos,bool(mask&4),"channels are listed"); if (p==std::string::npos) return; std::string l=s.substr(p+27,s.find('\n',p)-p-27); std::vector<int> want, got; if (so) for (size_t i=0;i<nj;++i) want.push_back(i); std::istringstream is(l); int x; while (is>>x) got.push_back(x); vmc::same(got,want,"channels with explicit superoperators"); vmc::same(l.find("none")!=std::string::npos,want.empty(),"none"); for (size_t i=0;i<nj;++i) vmc::check(s.find(cat(i,". sys jump ",i))!=std::string::npos,"key of the channel"); vmc::state(cat(mask,so,nj)); }); }
  // frequencies of an element: all lists, every one with its name and value, in the precision of the stream
  { struct Freq : structure::DynamicsBase {Freq(const RealFreqs& r, const ComplexFreqs& c, const std::string& more) : DynamicsBase(r,c) {getParsStream()<<more;} using DynamicsBase::getRealFreqs; using DynamicsBase::getComplexFreqs;}; const double vals[]={0,.5,-3.0625,2e-7}; const C cv[]={C(0,0),C(3,-4),C(-1e-5,.5)};
  for (int nr=0;nr<=2;++nr) for (int nc=0;nc<=2;++nc) for (int later=0;later<2;++later) vmc::sequences(4,nr,[&](const std::vector<int>& r){ vmc::sequences(3,nc,[&](const std::vector<int>& c){ vmc::scenario(cat("frequencies/",r,c,"/later",later),[&]{ structure::DynamicsBase::RealFreqs rf; structure::DynamicsBase::ComplexFreqs cf; int k=0; for (int x : r) rf.push_back({cat("real",k++),vals[x],2.}); for (int x : c) cf.push_back({cat("cplx",k++),cv[x],3.});
    Freq f(later?structure::DynamicsBase::RealFreqs():rf,later?structure::DynamicsBase::ComplexFreqs():cf,"Some text\n"); if (later) {f.getRealFreqs()=rf; f.getComplexFreqs()=cf;} for (int again=0;again<2;++again) { std::ostringstream o; o.precision(8); f.streamParameters(o); vmc::step(); std::string s=o.str(); vmc::same(s.find("Some text\n"),size_t(0),"the own text of the element comes first"); k=0; for (int x : r) {std::string key=cat("real",k++,"="); auto p=s.find(key); if (vmc::check(p!=std::string::npos,key)) vmc::near(std::atof(s.c_str()+p+key.size()),vals[x],key,1e-7);} for (int x : c) {std::string key=cat("cplx",k++,"="); auto p=s.find(key); C z; if (vmc::check(p!=std::string::npos,key)) {std::istringstream is(s.substr(p+key.size())); is>>z; vmc::check(bool(is),"complex value"); vmc::near(z,cv[x],key,1e-7);}} } vmc::state(cat(r,c)); }); }); }); }
  // 4. summary of an ensemble: all histories of events of up to three members
  for (int N=1;N<=3;++N) for (int nBins : {0,1,2,3,5}) for (int per : {1,2,3}) vmc::sequences(7,2,[&](const std::vector<int>& head){ vmc::scenario(cat("ensemble/",N,"/bins",nBins,"/per",per,"/",head),[&]{ vmc::sequences(7,th?4:3,[&](const std::vector<int>& tail){ if (vmc::failed()) return; std::vector<int> seq=head; seq.insert(seq.end(),tail.begin(),tail.end()); std::vector<Member> ms; std::vector<Ref> rs(N); for (int i=0;i<N;++i) ms.push_back({Logger(1,3)}); std::ostringstream log; int total=0; const double at[]={.13,.77,.2,1.9,.21,.5,1.1};
    for (size_t s=0;s<seq.size();++s) { auto& l=ms[s%N].l; auto& r=rs[s%N]; double x=.1*(1+(s*5)%7); switch (seq[s]) {case 0: l.step(); ++r.steps; break; case 1: l.stepBack(log,x,.1,.05,.3,true); ++r.back; r.mb=std::max(r.mb,x); break; case 2: l.overshot(log,x,.1,.05,true); ++r.over; r.mo=std::max(r.mo,x); break; case 3: l.processNorm(1+(s%2?x:-x)); r.mn=std::max(r.mn,x); break; default: for (int k=4;k<=seq[s];++k) {double t=at[(s+3*k)%7]+.01*s; l.jumpOccured(log,t,k%3); r.jumps.push_back({t,k%3}); ++total;}} vmc::step(); }
    std::ostringstream o; EnsembleLogger{size_t(nBins),size_t(per)}(ms,o); std::string txt=o.str(), w=cat("events ",seq); auto mean=[&](auto f){double x=0; for (auto& r : rs) x+=f(r); return x/N;}; auto mx=[&](auto f){double x=0; for (auto& r : rs) x=std::max(x,f(r)); return x;};
    vmc::near(grab(txt,"number of total steps: "),mean([](Ref& r){return double(r.steps);}),w+": mean steps",1e-5); auto a=txt.find("dpLimit overshot: "), b=txt.find("dpTolerance overshot: "); if (!vmc::check(a!=std::string::npos && b!=std::string::npos,w+": overshoots")) return; vmc::near(grab(txt.substr(a),"overshot: "),mean([](Ref& r){return double(r.over);}),w+": mean overshoots",1e-5); vmc::near(grab(txt.substr(a),"maximal overshoot: "),mx([](Ref& r){return r.mo;}),w+": largest overshoot",1e-5); vmc::near(grab(txt.substr(b),"overshot: "),mean([](Ref& r){return double(r.back);}),w+": mean retries",1e-5); vmc::near(grab(txt.substr(b),"maximal overshoot: "),mx([](Ref& r){return r.mb;}),w+": largest retry",1e-5); vmc::near(grab(txt,"deviation of norm from 1: "),mx([](Ref& r){return r.mn;}),w+": norm",1e-5); vmc::near(grab(txt,"number of total jumps: "),double(total)/N,w+": mean jumps",1e-5);
    auto h=txt.find("Number of bins="); bool few=!nBins && total<2*per; vmc::same(h==std::string::npos,few,w+": histogram"); vmc::same(txt.find("Too few jumps")!=std::string::npos,few,w+": too few jumps"); if (few || h==std::string::npos) return; if (!total) return; int bins=nBins ? nBins : total/per; vmc::near(grab(txt,"Number of bins="),bins+2,w+": bins"); std::istringstream is(txt.substr(txt.find('\n',h)+1)); std::vector<std::pair<double,double>> hist; double p, f; std::string l; while (std::getline(is,l) && !l.empty()) {std::istringstream ls(l); if (ls>>p>>f) hist.push_back({p,f});} if (!vmc::same(hist.size(),size_t(bins+2),w+": bins listed")) return; double sum=0; std::vector<double> ts; for (auto& r : rs) for (auto& j : r.jumps) ts.push_back(j.first); 
    double lo=*std::min_element(ts.begin(),ts.end()), hi=*std::max_element(ts.begin(),ts.end()); if (hi-lo<1e-12) return; for (size_t i=0;i<hist.size();++i) { sum+=hist[i].second; double l=hist[i].first, u=i+1<hist.size()?hist[i+1].first:1e300; if (!i) l=-1e300; double in=0, out=0; for (double t : ts) {if (t>l+1e-4 && t<u-1e-4) ++in; if (t>=l-1e-4 && t<=u+1e-4) ++out;} vmc::check(hist[i].second*total>=in-1e-3 && hist[i].second*total<=out+1e-3,[&]{return cat(w,": fraction of jumps in bin ",i," is ",hist[i].second,", should be between ",in/total," and ",out/total);}); } vmc::near(sum,1.,w+": all jumps are in the histogram",1e-4); vmc::state(txt); }); }); });
  // 5. whole runs: the data do not depend on the level, everything else is commented out
  for (int mask : {5,7,1}) for (int method=0;method<3;++method) for (int dc : {0,2}) for (int draws=0;draws<3;++draws) vmc::scenario(cat("run/features=",mask,"/method",method,"/dc",dc,"/draws",draws),[&]{ std::vector<std::string> base; const double ds[]={1e-4,.03,.9}; 
    for (int level=0;level<=5;++level) { vstub::script()=[&](uint64_t, uint64_t stream, uint64_t pos, uint64_t& o){ o=uint64_t(std::ldexp(ds[(draws+pos+stream)%3],64)); return true; }; Tables tb=tables(3,mask,{0,1},.6); tb.superOp=true; auto sys=makeWhole<1>(mask|8,{3},tb); parameters::Table pt; evolution::Pars<> p(pt); p.T=.6; p.Dt=.1; p.dc=dc; p.NDt=0; p.evol=evolution::Method(method); p.nTraj=2; p.ofn="c26out"; p.logLevel=level; p.epsRel=1e-6; p.epsAbs=1e-6; p.dpLimit=.02; p.overshootTolerance=2; p.precision=8; mock::rm("c26out"); mock::rm("c26out.state"); CaptureClog clog; 
      evolve(sv1(genV(3,8)),sys,p,true,true); vmc::step(); auto out=mock::parse(mock::slurp("c26out")); std::vector<std::string> d; for (auto& l : out.data) d.push_back(l.raw); vmc::check(out.bad.empty(),[&]{return cat("level ",level,": every line is data or commented: ",out.bad.front());}); if (!level) {base=d; vmc::check(d.size()>=2,"there are data");} else vmc::check(d==base,cat("level ",level,": the data are those of level 0")); long summary=mock::commentsContaining(out,"Total number of ODE steps"), jumps=mock::commentsContaining(out,"Jump No."), failed=mock::commentsContaining(out,"failed steps in this timestep"); 
      if (method!=evolution::ENSEMBLE) {vmc::same(summary,long(level>0),cat("level ",level,": summary")); vmc::same(failed>0,level>3,cat("level ",level,": failed tries"));} else {vmc::same(mock::commentsContaining(out,"Average number of total steps"),1l,"summary of the ensemble"); vmc::same(jumps+failed,0l,"members of an ensemble report nothing during the run");} if (method==evolution::MASTER || !(mask&4) || level<2) vmc::same(jumps,0l,cat("level ",level,": jumps reported")); vmc::state(cat(level,out.comments.size())); } });
  return vmc::finish(); }
