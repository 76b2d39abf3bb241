// C28: containers written as text are read back, damaged text is refused; archives of tuples; fuzzy comparison.
#include "vmc.h"
#include "Archive.h"
#include <boost/serialization/vector.hpp>
#include "ContainerIO.h"
#include "FuzzyDouble.h"
#include <array>
#include <list>
#include <deque>
#include <map>
#include <complex>
#include <cmath>
#include <sstream>
using vmc::cat; using std::string; using std::vector;
// the text form, written independently
template<typename T> string text(const T& x) {std::ostringstream o; o.precision(17); o<<x; return o.str();}
static string text(const double& x) {std::ostringstream o; o.precision(17); o<<x; return o.str();}
template<typename S> string seqText(const S& s, const char* b, const char* e) {string r=b; bool first=true; for (const auto& x : s) {if (!first) r+=", "; first=false; r+=text(x);} return r+e;}
template<typename T> string text(const vector<T>& v) {return seqText(v,"[","]");}
template<typename T> string text(const std::list<T>& v) {return seqText(v,"[","]");}
template<typename T, size_t N> string text(const std::array<T,N>& v) {return seqText(v,"[","]");}
template<typename A, typename B> string text(const std::pair<A,B>& p) {return "("+text(p.first)+", "+text(p.second)+")";}
template<typename A, typename B, typename C> string text(const std::tuple<A,B,C>& p) {return "("+text(std::get<0>(p))+", "+text(std::get<1>(p))+", "+text(std::get<2>(p))+")";}
// the reader that the text form calls for: the brackets and commas of the shape, white space allowed around every token, numbers as numbers
struct Rd { const string& s; size_t p=0; bool ok=true; void ws() {while (p<s.size() && std::isspace((unsigned char)s[p])) ++p;} void tok(char c) {ws(); if (ok && p<s.size() && s[p]==c) ++p; else ok=false;} };
template<typename T> struct is_arr : std::false_type {}; template<typename T> struct is_arr<vector<T>> : std::true_type {}; template<typename T, size_t N> struct is_arr<std::array<T,N>> : std::true_type {}; template<typename T> struct is_arr<std::list<T>> : std::true_type {};
template<typename T> struct is_pr : std::false_type {}; template<typename A, typename B> struct is_pr<std::pair<A,B>> : std::true_type {}; template<typename T> struct is_tp : std::false_type {}; template<typename... A> struct is_tp<std::tuple<A...>> : std::true_type {};
template<typename T> void rd(Rd& r, T& x) { if (!r.ok) return;
  if constexpr (is_arr<T>::value) { r.tok('['); bool f=true; for (auto& e : x) {if (!f) r.tok(','); f=false; rd(r,e);} r.tok(']'); }
  else if constexpr (is_pr<T>::value) { r.tok('('); rd(r,x.first); r.tok(','); rd(r,x.second); r.tok(')'); }
  else if constexpr (is_tp<T>::value) { r.tok('('); rd(r,std::get<0>(x)); r.tok(','); rd(r,std::get<1>(x)); r.tok(','); rd(r,std::get<2>(x)); r.tok(')'); }
  else { std::istringstream is(r.s.substr(r.p)); T v; if (is>>v) {x=v; is.clear(); r.p+=size_t(is.tellg());} else r.ok=false; } }
template<typename T> void against(const string& t, T blank, const string& what) { Rd r{t}; T want=blank, got=blank; rd(r,want); std::istringstream is(t); is>>got; vmc::step(); if (!vmc::same(bool(is),r.ok,cat(what,": accepted \"",t,"\""))) return; if (r.ok) {vmc::check(got==want,[&]{return cat(what,": value read from \"",t,"\": got ",text(got),", should be ",text(want));}); is.clear(); vmc::same(size_t(is.tellg()),r.p,what+": where reading stops");} vmc::state(t); }
template<typename T> void roundTrip(const string& nm, const T& x, T blank, bool damage) { vmc::scenario(cat("text/",nm,"/",text(x)),[&]{ std::ostringstream o; o.precision(17); o<<x; vmc::step(); if (!vmc::same(o.str(),text(x),"text")) return; string t=text(x); against(t,blank,"as written"); against(t+" tail",blank,"followed by other text");
  { std::istringstream is(t+t+" "+t); T a=blank, b=blank, c=blank; is>>a>>b>>c; vmc::check(bool(is) && a==x && b==x && c==x,"three in succession"); }
  if (!damage) return; for (size_t i=0;i<=t.size();++i) { against(t.substr(0,i),blank,"truncated"); for (const char* w : {" ","\n","\t "}) against(t.substr(0,i)+w+t.substr(i),blank,"white space inserted"); if (i<t.size()) {against(t.substr(0,i)+t.substr(i+1),blank,"character deleted"); for (char c : string("[](),;.0-x")) {string u=t; u[i]=c; against(u,blank,"character replaced"); against(t.substr(0,i)+c+t.substr(i),blank,"character inserted");}} if (vmc::failed()) return; } }); }
struct Delims {static const container_io::delimiters_values<string> values;}; const container_io::delimiters_values<string> Delims::values={"<","|",">"};
struct WDelims {static const container_io::delimiters_values<std::wstring> values;};
int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough(); const int iv[]={0,7,-12,100000}; const double dv[]={0.,-1.5,1./3,2.5e-300,-1e17};
  for (int n=0;n<=(th?4:3);++n) vmc::sequences(4,n,[&](const vector<int>& s){ vector<int> v; for (int x : s) v.push_back(iv[x]); roundTrip("vector<int>",v,vector<int>(n,-1),n<=2||th); std::list<int> l(v.begin(),v.end()); if (n<3) roundTrip("list<int>",l,std::list<int>(n,-1),n<=2); });
  for (int n=1;n<=3;++n) vmc::sequences(5,n,[&](const vector<int>& s){ vector<double> v; for (int x : s) v.push_back(dv[x]); roundTrip("vector<double>",v,vector<double>(n,-7.),n==1||th); if (n==2) {roundTrip("array<double,2>",std::array<double,2>{v[0],v[1]},std::array<double,2>{9,9},true); roundTrip("pair<double,double>",std::make_pair(v[0],v[1]),std::make_pair(9.,9.),true); roundTrip("pair<int,double>",std::make_pair(iv[s[0]%4],v[1]),std::make_pair(9,9.),true);} if (n==3) {roundTrip("tuple<double,int,double>",std::make_tuple(v[0],iv[s[1]%4],v[2]),std::make_tuple(9.,9,9.),s[0]<2); 
      roundTrip("array of pairs",std::array<std::pair<int,double>,2>{std::make_pair(iv[s[0]%4],v[1]),std::make_pair(iv[s[2]%4],v[0])},std::array<std::pair<int,double>,2>{},s[0]<1); roundTrip("tuple of vectors",std::make_tuple(vector<int>{iv[s[0]%4],3},v[1],std::make_pair(s[2],v[2])),std::make_tuple(vector<int>(2),9.,std::make_pair(9,9.)),s[1]<1);
      { vector<vector<int>> w{{iv[s[0]%4]},{},{iv[s[1]%4],iv[s[2]%4]}}, b{{5},{},{5,5}}; roundTrip("nested vectors",w,b,s[1]<2); } } });
  // what can only be written
  for (int n=0;n<=3;++n) vmc::sequences(4,n,[&](const vector<int>& s){ vmc::scenario(cat("write/",s),[&]{ vector<int> v; for (int x : s) v.push_back(iv[x]); auto str=[](const auto& x){std::ostringstream o; o<<x; return o.str();}; std::set<int> st(v.begin(),v.end()); std::multiset<int> ms(v.begin(),v.end()); vmc::step(4); vmc::same(str(st),seqText(st,"{","}"),"set"); vmc::same(str(ms),seqText(ms,"{","}"),"multiset"); std::valarray<int> va(v.size()); for (size_t i=0;i<v.size();++i) va[i]=v[i]; vmc::same(str(va),seqText(v,"[","]"),"valarray"); std::deque<int> dq(v.begin(),v.end()); vmc::same(str(dq),seqText(v,"[","]"),"deque"); vmc::same(str(write_array(v.data(),v.size())),seqText(v,"[","]"),"array given by pointer and size");
    std::map<int,int> m; for (size_t i=0;i<v.size();++i) m[v[i]]=int(i); vmc::same(str(m),seqText(m,"[","]"),"map"); std::unordered_set<int> us(v.begin(),v.end()); string u=str(us); vmc::check(u.front()=='{' && u.back()=='}',"unordered set"); vmc::same(std::count(u.begin(),u.end(),','),long(us.empty()?0:us.size()-1),"separators"); for (int x : us) vmc::check(u.find(cat(x))!=string::npos,"element of an unordered set");
    std::ostringstream o; container_io::container_io_helper<true,vector<int>,string,Delims> h(v); o<<h; string want="<"; for (size_t i=0;i<v.size();++i) want+=(i?"|":"")+cat(v[i]); vmc::same(o.str(),want+">","custom delimiters"); { vector<int> w(v.size(),-3); std::istringstream is(want+">"); container_io::container_io_helper<false,vector<int>,string,Delims> hr(w); is>>hr; vmc::check(bool(is) && w==v,"read with custom delimiters"); }
    std::wostringstream wo; wo<<v; string narrow; for (wchar_t c : wo.str()) narrow+=char(c); vmc::same(narrow,seqText(v,"[","]"),"wide characters"); vmc::state(cat(s)); }); });
  for (int a : iv) for (double d : dv) vmc::scenario(cat("hana/",a,"/",d),[&]{ auto t=hana::make_tuple(a,d,a+1); std::ostringstream o; o.precision(17); o<<t; vmc::step(); vmc::same(o.str(),"["+text(a)+", "+text(d)+", "+text(a+1)+"]","text"); auto b=hana::make_tuple(0,0.,0); std::istringstream is(o.str()); is>>b; vmc::check(bool(is) && b==t,"read back"); for (size_t i=0;i<o.str().size();++i) {auto c=hana::make_tuple(0,0.,0); std::istringstream ts(o.str().substr(0,i)); ts>>c; vmc::check(!ts,"truncated text accepted"); vmc::step();} vmc::state(o.str()); });
  // archives of tuples
  for (int a : iv) for (double d : dv) for (int n=0;n<3;++n) vmc::scenario(cat("archive/",a,"/",d,"/",n),[&]{ std::tuple<int,double,vector<double>,bool> x{a,d,vector<double>(n,d),n==1}, y; std::ostringstream o; {cppqedutils::oarchive oa(o); oa & x & x;} std::tuple<int,double,vector<double>,bool> z; std::istringstream is(o.str()); cppqedutils::iarchive ia(is); ia & y & z; vmc::step(2); vmc::check(x==y && x==z,"tuple from its archive"); vmc::state(o.str()); });
  // fuzzy comparison: all pairs from values and their neighbours
  { vector<double> base={1.,-1.,3.7,-3.7,1e-300,1e300,-1e-5,.1,1./3,1e10}, all={0.}; const double eps=std::numeric_limits<double>::epsilon(); for (double b : base) for (double k : {0.,1.,3.,4.5,60.,1e3,1e9}) for (int sg : {1,-1}) all.push_back(b*(1+sg*k*eps));
    using F=cppqedutils::FuzzyDouble; for (size_t i=0;i<all.size();++i) vmc::scenario(cat("fuzzy/",i),[&]{ double a=all[i]; for (double b : all) { F fa(a), fb; fb=b; vmc::step(); vmc::same(double(fb),b,"value"); bool eq=fa==fb, lt=fa<fb, gt=fb<fa; vmc::same(int(eq)+int(lt)+int(gt),1,cat("exactly one relation between ",text(a)," and ",text(b))); double rel=std::abs(a-b)/std::max(std::abs(a),std::abs(b)); if (a==b || rel<5*eps) vmc::check(eq,[&]{return cat(text(a)," and ",text(b)," are equal within the fuzziness");}); else if (rel>40*eps) vmc::same(a<b ? lt : gt,true,cat("order of ",text(a)," and ",text(b)));
        vmc::same(fa!=fb,!eq,"!="); vmc::same(fa<=fb,!gt,"<="); vmc::same(fa>=fb,!lt,">="); vmc::same(fa>fb,gt,">"); vmc::same(fa==b,eq,"== with a double"); vmc::same(fa<b,lt,"< with a double"); vmc::same(fa>b,gt,"> with a double"); vmc::same(fa<=b,!gt,"<= with a double"); vmc::same(fa>=b,!lt,">= with a double"); vmc::same(fa!=b,!eq,"!= with a double"); vmc::same(b==fa,eq,"double =="); vmc::same(b<fa,gt,"double <"); vmc::same(b>fa,lt,"double >"); } vmc::state(text(a)); }); }
  return vmc::finish(); }
