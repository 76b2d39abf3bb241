// C24: random engines: every sequence (to a depth) of draws, saves, loads and re-seedings on two instances, against the model (seed, position);
// torn engine texts; array filling; streams of ordinal.
#include "Random.h"
#include "BlitzArray.h"
#include "Pars.h"
#include "vmc.h"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <map>
using vmc::cat; using std::vector; using u64=std::uint64_t;
using Gsl=randomutils::GSL_Engine; using Mt=std::mt19937_64; using Xo=XoshiroCpp::Xoshiro256PlusPlus;
// reference sequences, straight from the underlying libraries
template<typename E> struct Ref;
template<> struct Ref<Gsl> {static constexpr const char* n="gsl"; static vector<u64> seq(u64 s, int k) {auto r=gsl_rng_alloc(gsl_rng_taus2); gsl_rng_set(r,s); vector<u64> v(k); for (auto& x : v) x=gsl_rng_get(r); gsl_rng_free(r); return v;} static Gsl make(u64 s) {return Gsl(s);} static constexpr bool reseed=true;};
template<> struct Ref<Mt> {static constexpr const char* n="mt"; static vector<u64> seq(u64 s, int k) {Mt r(s); vector<u64> v(k); for (auto& x : v) x=r(); return v;} static Mt make(u64 s) {return Mt(s);} static constexpr bool reseed=true;};
template<> struct Ref<Xo> {static constexpr const char* n="xoshiro"; static vector<u64> seq(u64 s, int k) {Xo r(s); vector<u64> v(k); for (auto& x : v) x=r(); return v;} static Xo make(u64 s) {return Xo(s);} static constexpr bool reseed=false;};
template<> struct Ref<pcg64> {static constexpr const char* n="pcg"; static vector<u64> seq(u64 s, int k) {pcg64 r(s,7); vector<u64> v(k); for (auto& x : v) x=r(); return v;} static pcg64 make(u64 s) {return pcg64(s,7);} static constexpr bool reseed=false;};
template<typename E> u64 at(u64 seed, int pos) {static std::map<u64,vector<u64>> m; auto& v=m[seed]; if (v.empty()) v=Ref<E>::seq(seed,6000); return v.at(pos);}
struct Text {using I=boost::archive::text_iarchive; using O=boost::archive::text_oarchive; static constexpr const char* n="text";};
struct Bin {using I=boost::archive::binary_iarchive; using O=boost::archive::binary_oarchive; static constexpr const char* n="binary";};
template<typename A, typename T> std::string put(const T& x) {std::ostringstream o; {typename A::O a(o); a<<x;} return o.str();}
template<typename A, typename T> void get(const std::string& s, T& x) {std::istringstream i(s); typename A::I a(i); a>>x;}
struct Abs {u64 seed; int pos;};
// operations: instance*NOP + {draw once, draw 313 times, save, load, re-seed}
static const int NOP=5; static const char* ON[]={"d","D","s","l","r"};
template<typename E, typename A> void explore(const std::string& prefix, int depth, const vector<int>& ops) {
  vector<int> full=ops; std::function<void()> rec=[&]{
    if ((int)full.size()==depth) { E e[2]={Ref<E>::make(1001),Ref<E>::make(42)}; Abs m[2]={{1001,0},{42,0}}; std::string slot; Abs ms{};
      auto draw=[&](int i){u64 g=e[i]();  return vmc::check(g==at<E>(m[i].seed,m[i].pos++),[&]{std::string s; for (int o : full) s+=ON[o%NOP]+std::to_string(o/NOP); return cat("draw of instance ",i," number ",m[i].pos-1," after seed ",(unsigned long)m[i].seed," in history ",s,": got ",(unsigned long)g);});};
      for (int o : full) { int i=o/NOP; vmc::step(); switch (o%NOP) { case 0: if (!draw(i)) return; break; case 1: for (int k=0;k<313;++k) if (!draw(i)) return; break; case 2: slot=put<A>(e[i]); ms=m[i]; break; case 3: get<A>(slot,e[i]); m[i]=ms; break; case 4: if constexpr (Ref<E>::reseed) {e[i].seed(7+i); m[i]={u64(7+i),0};} } }
      for (int k=0;k<3;++k) for (int i=0;i<2;++i) if (!draw(i)) return;
      vmc::gstate(cat(Ref<E>::n,A::n,(unsigned long)m[0].seed,",",m[0].pos,",",(unsigned long)m[1].seed,",",m[1].pos,",",(unsigned long)ms.seed,",",ms.pos)); vmc::trace(); return; }
    bool saved=false; for (int o : full) if (o%NOP==2) saved=true;
    for (int o=0;o<2*NOP;++o) { if (o%NOP==3 && !saved) continue; if (o%NOP==4 && !Ref<E>::reseed) continue; full.push_back(o); rec(); full.pop_back(); } };
  rec(); }
template<typename E, typename A> void histories(int depth) { for (int a=0;a<2*NOP;++a) for (int b=0;b<2*NOP;++b) { if (a%NOP==3 || (b%NOP==3 && a%NOP!=2) || (!Ref<E>::reseed && (a%NOP==4 || b%NOP==4))) continue; vmc::scenario(cat("history/",Ref<E>::n,"/",A::n,"/",ON[a%NOP],a/NOP,ON[b%NOP],b/NOP,"/depth",depth),[&]{explore<E,A>("",depth,{a,b});}); } }
template<typename E, typename A> void positions() { // a state saved at every position of a long stretch, loaded into instances at other positions
  for (int p=0;p<700;p+=(p<20||(p>300&&p<330)||(p>610&&p<640))?1:17) vmc::scenario(cat("position/",Ref<E>::n,"/",A::n,"/",p),[&]{ auto e=Ref<E>::make(5); for (int k=0;k<p;++k) e(); auto s=put<A>(e); auto s2=put<A>(e); vmc::check(s==s2,"saving does not change the state"); for (int q : {0,1,100,311,312,313}) { auto f=Ref<E>::make(6); for (int k=0;k<q;++k) f(); get<A>(s,f); vmc::step(2); for (int k=0;k<350;++k) if (!vmc::check(f()==at<E>(5,p+k),[&]{return cat("loaded into instance at ",q,", draw ",k);})) return; } for (int k=0;k<5;++k) vmc::check(e()==at<E>(5,p+k),"the saved engine itself goes on"); vmc::state(s); }); }
template<typename E, typename A> void together() { // several engines and other data in one archive
  for (int k=0;k<3;++k) for (int order=0;order<2;++order) vmc::scenario(cat("together/",Ref<E>::n,"/",A::n,"/",k,"/",order),[&]{ auto a=Ref<E>::make(1), b=Ref<E>::make(2); for (int j=0;j<k;++j) {a(); b(); b();} std::ostringstream o; { typename A::O ar(o); int i=17; double x=.1; std::string t=" te xt "; const auto &ca=a, &cb=b; if (order) ar&ca&i&cb&x&t; else ar&i&ca&x&cb&t; } auto c=Ref<E>::make(3), d=Ref<E>::make(4); int i=0; double x=0; std::string t; {std::istringstream is(o.str()); typename A::I ar(is); if (order) ar&c&i&d&x&t; else ar&i&c&x&d&t;} vmc::step(2); vmc::same(i,17,"integer after"); vmc::check(x==.1,"real after"); vmc::same(t,std::string(" te xt "),"text after"); for (int j=0;j<400;++j) if (!vmc::check(c()==at<E>(1,k+j) && d()==at<E>(2,2*k+j),cat("draw ",j))) return; vmc::state(o.str()); }); }
struct Fake {std::string t; template<typename Ar> void serialize(Ar& ar, unsigned) {ar&t;}}; // an engine archived as this text
template<typename E> void torn() { auto e=Ref<E>::make(9); std::ostringstream o; o<<e; std::string t=o.str(); bool gsl=std::is_same_v<E,Gsl>; int step=std::max<int>(1,t.size()/(vmc::thorough()?4000:400)); size_t last=gsl ? t.size() : t.rfind(' ')+1;
  for (size_t n=0;n<last;n=(n+step<last||n+1==last)?n+step:n+1) vmc::scenario(cat("torn/",Ref<E>::n,"/",(unsigned long)n),[&]{ auto f=Ref<E>::make(1); std::string p=put<Text>(Fake{t.substr(0,n)}); bool threw=false; try {get<Text>(p,f);} catch (const std::invalid_argument&) {threw=true;} vmc::step(); vmc::check(threw,"an incomplete engine state is refused"); });
  vmc::scenario(cat("torn/",Ref<E>::n,"/whole"),[&]{ auto f=Ref<E>::make(1); get<Text>(put<Text>(Fake{t}),f); vmc::step(); for (int k=0;k<400;++k) if (!vmc::check(f()==at<E>(9,k),cat("draw ",k))) return; }); }

template<typename E, int R> void fills(const vector<blitz::TinyVector<int,R>>& exts) { for (auto& x : exts) for (int kind=0;kind<5;++kind) for (int view=0;view<3;++view) for (int from=0;from<3;++from) vmc::scenario(cat("fill/",Ref<E>::n,"/rank",R,"/",x(0),"x",x(R-1),"/dist",kind,"/view",view,"/from",from),[&]{
    auto run=[&](auto tag, auto... dp){ using T=decltype(tag); using Dist=std::conditional_t<std::is_same_v<T,int>,std::uniform_int_distribution<int>,std::conditional_t<std::is_same_v<T,float>,std::normal_distribution<double>,std::uniform_real_distribution<double>>>; using V=std::conditional_t<std::is_same_v<T,dcomp>,dcomp,std::conditional_t<std::is_same_v<T,int>,int,double>>;
      blitz::TinyVector<int,R> big=x; if (view) big+=2; blitz::Array<V,R> a(big); a=V(-77); blitz::Array<V,R> v; if (view==1) {blitz::TinyVector<int,R> l(1), u; for (int i=0;i<R;++i) u(i)=x(i); v.reference(a(blitz::RectDomain<R>(l,u)));} else if (view==2) {blitz::TinyVector<int,R> l(0), u; for (int i=0;i<R;++i) u(i)=x(i)-1; v.reference(a(blitz::RectDomain<R>(l,u)));} else v.reference(a);
      auto ref=Ref<E>::make(31); Dist d(dp...); for (int k=0;k<from;++k) ref(); vector<V> want(v.size()); for (auto& w : want) w=d(ref);
      auto e=Ref<E>::make(31); for (int k=0;k<from;++k) e(); if (from==2 && !std::is_same_v<E,pcg64>) { auto& r=randomutils::fill<Dist>(v,e,dp...); vmc::check(&r==&e,"the engine itself is returned"); } else if (from==0 && std::is_constructible_v<E,unsigned long> && !std::is_same_v<E,pcg64>) { if constexpr (!std::is_same_v<E,pcg64>) randomutils::fill<Dist,E>(v,31ul,dp...); for (size_t k=0;k<want.size();++k) ; } else randomutils::fill<Dist>(v,e,dp...); vmc::step(); size_t k=0; long inside=0;
      blitz::TinyVector<int,R> i=v.lbound(); if (v.size()) while (true) { if (!vmc::check(v(i)==want[k],cat("element ",k))) return; ++k; ++inside; int r=R-1; for (;r>=0;--r) {if (++i(r)<=v.ubound(r)) break; i(r)=v.lbound(r);} if (r<0) break; }
      long other=0; for (auto& y : a) if (y==V(-77)) ++other; vmc::same(other,(long)a.size()-inside,"elements outside are untouched"); if (from) {auto n1=e(), n2=ref(); vmc::check(n1==n2,"the engine has made exactly the draws of the elements");} vmc::state(vmc::fnv(cat((unsigned long)want.size()))); };
    switch (kind) {case 0: run(double{}); break; case 1: run(double{},-3.,5.); break; case 2: if constexpr (!std::is_same_v<E,Gsl>) run(int{},1,6); break; /* integer distributions do not compile with the GSL engine */ case 3: run(float{},2.,.5); break; case 4: run(dcomp{}); break;} }); }
template<typename E> void all(bool th) { histories<E,Bin>(th?7:6); histories<E,Text>(th?6:5); positions<E,Bin>(); positions<E,Text>(); together<E,Bin>(); together<E,Text>();
  fills<E,1>({{0},{1},{2},{5},{313}}); fills<E,2>({{1,1},{2,3},{3,2},{1,4},{20,17}}); fills<E,3>({{1,1,1},{2,3,2},{3,1,2}}); fills<E,4>({{2,1,3,2}}); }
struct Empty {Empty(parameters::Table&, const std::string&) {}};
int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough(); vstub::script()=nullptr;
  all<Gsl>(th); all<Mt>(th); all<Xo>(th); all<pcg64>(th); torn<Gsl>(); torn<Mt>(); torn<pcg64>();
  for (u64 s : {0ul,1ul,2ul,3ul,7ul,8ul,16ul,1001ul,4294967295ul,4294967296ul,4294967297ul}) vmc::scenario(cat("gsl/seed/",(unsigned long)s),[&]{ Gsl a(s), b(55), c(s); b(); b.seed(s); auto want=Ref<Gsl>::seq(s,50); vmc::step(); for (int k=0;k<50;++k) {auto x=a(); if (!vmc::check(x==want[k] && b()==x && c()==x && x>=a.min() && x<=a.max(),cat("draw ",k))) return;} vmc::same((unsigned long)a.min(),gsl_rng_taus2->min,"min"); vmc::same((unsigned long)a.max(),gsl_rng_taus2->max,"max"); });
  // parameters and streams
  for (unsigned long seed : {1001ul,0ul,1ul,~0ul}) for (unsigned long str : {1ul,0ul,2ul,1000ul}) for (int inc=0;inc<4;++inc) for (int mod=0;mod<2;++mod) vmc::scenario(cat("stream/",seed,"/",str,"/",inc,"/",mod),[&]{ parameters::Table t; std::string sfx=mod?"X":""; randomutils::Pars<pcg64,Empty> p(t,sfx); vmc::same(p.seed,1001ul,"default seed"); vmc::same(p.prngStream,1ul,"default stream"); vector<std::string> av={"prog","--seed"+sfx,std::to_string(seed),"--prngStream"+sfx,std::to_string(str)}; vector<char*> c; for (auto& s : av) c.push_back(s.data()); update(t,c.size(),c.data(),"--"); vector<pcg64> got; for (int k=0;k<=inc;++k) {if (k) incrementForNextStream(p); got.push_back(streamOfOrdo(p)); vmc::step();} vmc::same(p.seed,seed,"seed is kept"); vmc::same(p.prngStream,str+inc,"ordinal"); for (int k=0;k<=inc;++k) { for (int j=0;j<=inc;++j) vmc::check((got[k]==got[j])==(j==k),"streams are distinct"); parameters::Table t2; randomutils::Pars<pcg64,Empty> q(t2); q.seed=seed; q.prngStream=str+k; vmc::check(streamOfOrdo(q)==got[k],"equal parameters give equal streams"); }
      randomutils::EngineWithParameters<pcg64> ep(seed,str); vmc::check(ep.seed==seed && ep.prngStream==str && ep.engine==pcg64(seed,str),"engine with parameters"); std::ostringstream o; ep.stream(o); std::string x=o.str(); vmc::check(x.find("PCG64")!=std::string::npos && x.find("seed="+std::to_string(seed))!=std::string::npos && x.find("streamOrdo="+std::to_string(str))!=std::string::npos,"description: "+x); vmc::state(cat(seed,str)); });
  return vmc::finish(); }
