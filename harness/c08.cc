// C08: all boxes with small corners in ranks 1-4 (1-5 thorough), and all tables of combinations with repetition up to a size.
#include "MultiIndexIterator.h"
#include "Combinatorics.h"
#include "BlitzTinyExtensions.h"
#include "vmc.h"
#include <map>
#include <algorithm>
using vmc::cat; using std::vector; using namespace cppqedutils;
template<int R> IdxTiny<R> tiny(const vector<int>& v) {IdxTiny<R> r; for (int i=0;i<R;++i) r(i)=v[i]; return r;}
template<int R> vector<int> vec(const IdxTiny<R>& v) {vector<int> r; for (int i=0;i<R;++i) r.push_back(v(i)); return r;}
static std::string sh(const vector<int>& v) {std::string s; for (int x : v) s+=cat(s.empty()?"":",",x); return s;}
template<int R> void box(const vector<int>& lo, const vector<int>& up, bool zeroBased) { using It=MultiIndexIterator<R>;
  It b=zeroBased?It(tiny<R>(up),mii::begin):It(tiny<R>(lo),tiny<R>(up),mii::begin), e=zeroBased?It(tiny<R>(up),mii::end):It(tiny<R>(lo),tiny<R>(up),mii::end);
  vector<int> x=lo; long n=0; bool over=false; long total=1; for (int i=0;i<R;++i) total*=up[i]-lo[i]+1;
  { It i(b); while (!over) { vmc::step(); const It& ci=i; if (!vmc::check(vec<R>(*ci)==x && vec<R>(*i)==x,[&]{return cat("position ",n,": got ",sh(vec<R>(*i)),", should be ",sh(x));})) return; vmc::state(sh(x)); if (!vmc::check(!(i==e) && i!=e,[&]{return cat("end recognised too early at ",sh(x));})) return; vmc::check(n==0 ? i==b : !(i==b),"comparison with the beginning");
      It c(i); It old(c++); vmc::check(old==i && vec<R>(*old)==x,"post-increment returns the old position"); It d(i); vmc::check(&++d==&d && d==c,"pre-increment"); ++i; ++n; int k=R-1; while (k>=0 && ++x[k]>up[k]) {x[k]=lo[k]; --k;} over=k<0; }
    vmc::check(i==e && !(i!=e),"end not recognised"); vmc::same(n,total,"number of indices"); }
  It m(b); for (long k=0;k<total/2;++k) ++m; It g=m.getBegin(), h=m.getEnd(); vmc::check(g==b && h==e,"getBegin / getEnd"); It m2(m); vmc::check(&m2.setToBegin()==&m2 && m2==b,"setToBegin"); vmc::check(&m2.setToEnd()==&m2 && m2==e,"setToEnd"); m2.setToBegin(); long k=0; for (;m2!=e;++m2) if (++k>total) break; vmc::same(k,total,"length after resetting");
  // the mutable view sets the position
  It w(b); *w=tiny<R>(up); vmc::check(!(w==e),"last position is not the end"); ++w; vmc::check(w==e,"advancing from the last position"); }
template<int R> void boxes(int lim) { vector<std::pair<int,int>> iv; for (int l=-lim;l<=lim;++l) for (int u=l;u<=lim;++u) iv.push_back({l,u}); // all intervals per axis
  vmc::sequences(iv.size(),R,[&](const vector<int>& s){ vector<int> lo,up; for (int k : s) {lo.push_back(iv[k].first); up.push_back(iv[k].second);} vmc::scenario(cat("box/",sh(lo),"..",sh(up)),[&]{box<R>(lo,up,false); if (*std::max_element(lo.begin(),lo.end())==0 && *std::min_element(lo.begin(),lo.end())==0) box<R>(lo,up,true);}); }); }
template<size_t N> void cwr(size_t kmax) { for (size_t k=0;k<=kmax;++k) vmc::scenario(cat("combinations/",N,"/",k),[&]{ CWR_Dir<N> d(k); std::map<std::array<size_t,N>,int> seen; size_t total=1; for (size_t i=1;i<N;++i) total=total*(k+i)/i; if (!vmc::same(d().size(),total,"size of table")) return;
  for (size_t i=0;i<total;++i) { vmc::step(); auto& c=d[i]; size_t s=0; for (size_t x : c) s+=x; vmc::same(s,k,"objects in configuration"); vmc::same(++seen[c],1,"multiplicity of configuration"); vmc::same(d[c],i,"position of configuration"); vmc::check(c==d()[i],"two ways of access"); if (i) vmc::check(d[i-1]<c,"configurations in order"); }
  std::array<size_t,N> bad{}; bad[0]=k+1; vmc::check(vmc::throws<std::range_error>([&]{d[bad];}),"looking up a foreign configuration is reported");
  // every configuration of a neighbouring number of objects is foreign
  std::array<size_t,N> x{}; auto rec=[&](auto& self, size_t at, size_t left)->void { if (at==N-1) {x[at]=left; vmc::step(); vmc::check(vmc::throws<std::range_error>([&]{d[x];}),"looking up a configuration of another number of objects is reported"); return;} for (size_t y=0;y<=left && !vmc::failed();++y) {x[at]=y; self(self,at+1,left-y);} };
  for (size_t o : {size_t(0),k-1,k+1,k+3}) if (o!=k && o<=k+3 && (N<5 || o<=k+1)) rec(rec,0,o); }); }
template<int A, int B> void tinies() { vmc::scenario(cat("concatenate/",A,"/",B),[&]{ blitz::TinyVector<int,A> a; blitz::TinyVector<int,B> b; for (int i=0;i<A;++i) a(i)=i+1; for (int i=0;i<B;++i) b(i)=-i-1; auto c=blitzplusplus::concatenateTinies(a,b); vmc::step(); for (int i=0;i<A;++i) vmc::same(c(i),a(i),"first part"); for (int i=0;i<B;++i) vmc::same(c(A+i),b(i),"second part"); if constexpr (A==B) {blitz::TinyVector<int,2*A> d; for (int i=0;i<A;++i) d(i)=d(i+A)=a(i); auto h=blitzplusplus::halfCutTiny(d); for (int i=0;i<A;++i) vmc::same(h(i),a(i),"half");} }); }
int main(int argc, char** argv) { vmc::init(argc,argv); const bool th=vmc::thorough();
  boxes<1>(4); boxes<2>(2); boxes<3>(th?2:1); boxes<4>(1); if (th) boxes<5>(1); 
  for (auto u : vector<vector<int>>{{2,0,1,3,1},{0,0,0,0,0},{1,2,1,0,2}}) vmc::scenario(cat("box5/",sh(u)),[&]{box<5>({0,0,0,0,0},u,true); box<5>({-1,0,-2,0,-1},u,false);}); vmc::scenario("box6",[&]{box<6>({0,1,-1,0,2,0},{1,2,0,2,2,1},false);});
  for (auto [lo,up] : vector<std::pair<vector<int>,vector<int>>>{{{0},{1000}},{{-700},{-3}},{{100},{100}},{{2147483000},{2147483200}},{{-2147483640},{-2147483600}}}) vmc::scenario(cat("large box/",sh(lo),"..",sh(up)),[&]{box<1>(lo,up,false);});
  for (auto [lo,up] : vector<std::pair<vector<int>,vector<int>>>{{{0,0},{300,2}},{{0,0},{2,300}},{{-5,100},{20,140}},{{1000,-1000},{1003,-990}},{{17,5},{17,90}}}) vmc::scenario(cat("large box/",sh(lo),"..",sh(up)),[&]{box<2>(lo,up,false); if (!lo[0] && !lo[1]) box<2>(lo,up,true);});
  for (auto [lo,up] : vector<std::pair<vector<int>,vector<int>>>{{{0,0,0},{130,2,1}},{{0,0,0},{2,130,2}},{{0,0,0},{1,2,130}},{{-8,7,12},{5,15,20}},{{0,0,0},{12,10,11}}}) vmc::scenario(cat("large box/",sh(lo),"..",sh(up)),[&]{box<3>(lo,up,false); if (!lo[0] && !lo[1]) box<3>(lo,up,true);});
  vmc::scenario("box7",[&]{box<7>({0,1,-1,0,2,0,5},{1,2,0,2,2,1,7},false); box<7>({0,0,0,0,0,0,0},{1,0,2,1,0,1,3},true);}); vmc::scenario("box9",[&]{box<9>({0,1,-1,0,2,0,5,-3,0},{1,2,0,2,2,1,6,-2,1},false);}); vmc::scenario("box4 larger",[&]{box<4>({0,0,0,0},{4,5,6,7},true); box<4>({-4,3,0,9},{0,6,5,11},false);});
  cwr<1>(th?80:40); cwr<2>(th?60:30); cwr<3>(th?20:12); cwr<4>(th?9:6); cwr<5>(th?7:5); cwr<6>(th?6:4); cwr<8>(th?5:3); cwr<10>(th?4:2);
  tinies<1,1>(); tinies<1,2>(); tinies<2,1>(); tinies<2,2>(); tinies<3,2>(); tinies<2,3>(); tinies<3,3>(); tinies<1,4>(); tinies<4,4>();
  for (unsigned n=0;n<=12;++n) vmc::scenario(cat("counting/",(int)n),[&]{ double f=1; for (unsigned k=2;k<=n;++k) f*=k; vmc::near(cppqedutils::fact(n),f,"factorial",1e-13); vmc::step(); for (unsigned k=0;k<=n;++k) { double b=1; for (unsigned j=0;j<k;++j) b=b*(n-j)/(j+1); vmc::near(cppqedutils::choose(n,k),b,"binomial",1e-12); if (n) {double m=1; for (unsigned j=0;j<k;++j) m=m*(n+k-1-j)/(j+1); vmc::near(double(cppqedutils::multiChoose<long double>(n,k)),m,"multiset number",1e-12);} } });
  return vmc::finish(); }
