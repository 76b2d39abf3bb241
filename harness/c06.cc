// C06: all token sequences up to a bound through the real command-line parser, against a token-level model.
#include "vmc.h"
#include "Pars.h"
#include "Version.h"
#include "FormDouble.h"
#include "ComplexExtensions.h"
#include <sys/wait.h>
#include <optional>
#include <map>
using vmc::cat; using std::string; using std::vector;

struct Vals {double T=1.; int n=3; string s="dflt"; bool b=false, c=true; double T2=2.5; bool b2=true; unsigned u=9; dcomp z{1.,-1.};
  bool operator==(const Vals&) const=default;
  string str() const {return cat("T=",T," n=",n," s=",s," b=",b," c=",c," T2=",T2," b2=",b2," u=",(int)u," z=",z);} };
struct Bundle { parameters::Table t; double& T; int& n; string& s; bool &b, &c; double& T2; bool& b2; unsigned& u; dcomp& z;
  Bundle() : T(t.addTitle("First").add("T","time",1.)), n(t.add("n","number",3)), s(t.add("s","text",string("dflt"))), b(t.add("b","switch",false)), c(t.add("c","",string("switch on"),true)), T2(t.addTitle("First","2").add("T","2","time 2",2.5)), b2(t.add("b","2",string("switch 2"),true)), u(t.add("u","unsigned",9u)), z(t.add("z","complex",dcomp(1.,-1.))) {}
  Vals vals() const {return {T,n,s,b,c,T2,b2,u,z};} };

enum Outcome {OK, ERR, HELP, VERSION};
static bool parseD(const string& w, double& x) {char* e; if (w.empty()||std::isspace((unsigned char)w[0])) return false; for (char ch : w) if (!std::strchr("0123456789+-.eE",ch)) return false; x=std::strtod(w.c_str(),&e); return !*e && e!=w.c_str() && std::isfinite(x);}
static bool parseL(const string& w, long& x) {size_t i=(w[0]=='-'||w[0]=='+')?1:0; if (i>=w.size() || w.size()>i+12) return false; for (size_t k=i;k<w.size();++k) if (!std::isdigit((unsigned char)w[k])) return false; x=std::stol(w); return true;}
// the model: options take exactly one following token (switches none)
static Outcome model(const vector<string>& w, const string& pre, Vals& v) {
  for (size_t i=0;i<w.size();++i) { if (w[i].substr(0,pre.size())!=pre) return ERR; string o=w[i].substr(pre.size());
    if (o=="help") return HELP; if (o=="version") return VERSION;
    if (o=="b") v.b=true; else if (o=="no_b") v.b=false; else if (o=="c") v.c=true; else if (o=="no_c") v.c=false; else if (o=="b2") v.b2=true; else if (o=="no_b2") v.b2=false;
    else if (o=="T"||o=="T2"||o=="n"||o=="s"||o=="u"||o=="z") { if (++i==w.size()) return ERR; const string& x=w[i]; long l;
      if (o=="T") {if (!parseD(x,v.T)) return ERR;} else if (o=="T2") {if (!parseD(x,v.T2)) return ERR;} else if (o=="s") v.s=x;
      else if (o=="n") {if (!parseL(x,l) || l>2147483647l || l<-2147483648l) return ERR; v.n=l;} else if (o=="u") {if (!parseL(x,l) || l<0) return ERR; v.u=l;}
      else { double re,im=0; if (x.size()>2 && x[0]=='(' && x.back()==')' && x.find(',')!=string::npos) {auto k=x.find(','); if (!parseD(x.substr(1,k-1),re) || !parseD(x.substr(k+1,x.size()-k-2),im)) return ERR;} else if (!parseD(x,re)) return ERR; v.z={re,im}; } }
    else return ERR; }
  return OK; }

static void call(Bundle& b, const vector<string>& w, const string& pre) { vector<string> s{"prog"}; for (auto& x : w) s.push_back(x); vector<char*> a; for (auto& x : s) a.push_back(&x[0]); a.push_back(nullptr);
  if (pre=="--") parameters::update(b.t,s.size(),a.data()); else parameters::update(b.t,s.size(),a.data(),pre); }
static string joined(const vector<string>& w) {string r; for (auto& x : w) r+=(r.empty()?"":" ")+x; return r;}
struct Child {int status; string out, err;};
template<typename F> Child inChild(F f) { int po[2], pe[2]; if (pipe(po)||pipe(pe)) throw std::runtime_error("pipe"); pid_t p=fork();
  if (!p) { alarm(20); dup2(po[1],1); dup2(pe[1],2); close(po[0]); close(pe[0]); close(po[1]); close(pe[1]); f(); std::cout.flush(); std::cerr.flush(); _exit(77); }
  close(po[1]); close(pe[1]); Child c; auto rd=[](int fd){string s; char b[4096]; ssize_t n; while ((n=read(fd,b,4096))>0) s.append(b,n); close(fd); return s;}; c.out=rd(po[0]); c.err=rd(pe[0]); waitpid(p,&c.status,0); return c; }

static void one(const vector<string>& w, const string& pre="--") { vmc::step(); Vals v; Outcome o=model(w,pre,v); const string line=joined(w);
  if (o==OK) { Bundle b; call(b,w,pre); vmc::state(v.str()); vmc::check(b.vals()==v,[&]{return cat("\"",line,"\" gives ",b.vals().str(),", should give ",v.str());});
    vmc::same(*b.t.getParsedCommandLine(),w.empty()?string("prog"):"prog "+line,"recorded command line"); 
    vmc::check(bool(static_cast<const parameters::Typed<cppqedutils::BooleanNegatedProxy>&>(b.t["no_b"]).get())==!b.b && bool(static_cast<const parameters::Typed<cppqedutils::BooleanNegatedProxy>&>(b.t["no_c"]).get())==!b.c,"negated switch is not complementary"); }
  else if (o==ERR) { Child c=inChild([&]{Bundle b; call(b,w,pre);}); vmc::state("error");
    bool stopped=!(WIFEXITED(c.status) && (WEXITSTATUS(c.status)==77 || WEXITSTATUS(c.status)==0)); vmc::check(stopped,[&]{return cat("faulty command line \"",line,"\" accepted");});
    vmc::check(!(WIFSIGNALED(c.status) && (WTERMSIG(c.status)==SIGALRM || WTERMSIG(c.status)==SIGSEGV)),[&]{return cat("parser hangs or crashes on \"",line,"\"");}); vmc::check(!c.err.empty(),[&]{return cat("nothing reported for \"",line,"\"");}); }
  else { Child c=inChild([&]{Bundle b; call(b,w,pre);}); vmc::check(WIFEXITED(c.status) && WEXITSTATUS(c.status)==0,[&]{return cat("\"",line,"\" does not end the program successfully");});
    if (o==HELP) { // the list shows every parameter with the value in force
      const Vals& vv=v;
      std::map<string,string> last; std::istringstream is(c.out); string l; while (std::getline(is,l)) {std::istringstream ls(l); string a,x,y; if (ls>>a) {while (ls>>x) y=x; last[a]=y;}}
      auto num=[&](const string& k, double want){ vmc::check(last.count(k) && std::abs(std::strtod(last[k].c_str(),nullptr)-want)<=1e-5*std::abs(want),[&]{return cat("help after \"",line,"\" shows ",k," as ",last[k]);}); };
      num("T",vv.T); num("T2",vv.T2); num("n",vv.n); num("u",vv.u); vmc::same(last["s"],vv.s,"help: s"); auto bs=[](bool b){return string(b?"true":"false");}; auto bol=[&](const string& k,bool want){vmc::check(last[k]==bs(want)||last[k]==(want?"1":"0"),[&]{return cat("help after \"",line,"\" shows ",k," as ",last[k]);});};
      bol("b",vv.b); bol("no_b",!vv.b); bol("c",vv.c); bol("no_c",!vv.c); bol("b2",vv.b2); bol("no_b2",!vv.b2); vmc::check(c.out.find("First")!=string::npos && c.out.find("First2")!=string::npos && c.out.find("unsigned")!=string::npos,"titles and descriptions in help"); }
    else vmc::check(c.err.find(versionHelper())!=string::npos || c.out.find(versionHelper())!=string::npos,"version shown"); } }

int main(int argc, char** argv) {
  vmc::init(argc,argv); const bool th=vmc::thorough();
  // 1. every raw token sequence
  vector<string> tok={"--T","--n","--s","--b","--no_b","--T2","--no_b2","1.5","-7","abc","--x","--help","--no_T"};
  const int K=tok.size();
  for (int len=0;len<=(th?5:4);++len) { int pl=std::min(len,2); vmc::sequences(K,pl,[&](const vector<int>& p){ string n; for (int i : p) n+=" "+tok[i];
    vmc::scenario(cat("tokens/len=",len,"/prefix=",n),[&]{ vmc::sequences(K,len-pl,[&](const vector<int>& r){ if (vmc::failed()) return; vector<string> w; for (int i : p) w.push_back(tok[i]); for (int i : r) w.push_back(tok[i]); one(w); }); }); }); }
  // 2. every sequence of well-formed options (later ones override earlier ones)
  vector<vector<string>> item={{"--T","2e-3"},{"--T","-4"},{"--n","8"},{"--n","-12"},{"--s","x.dat"},{"--s","--T"},{"--b"},{"--no_b"},{"--c"},{"--no_c"},{"--T2","7"},{"--b2"},{"--no_b2"},{"--u","4"},{"--z","(2,-3.5)"},{"--z","5"}};
  for (int len=1;len<=(th?5:4);++len) { int pl=std::min(len,2); vmc::sequences(item.size(),pl,[&](const vector<int>& p){ string n; for (int i : p) n+=" "+joined(item[i]);
    vmc::scenario(cat("options/len=",len,"/prefix=",n),[&]{ vmc::sequences(item.size(),len-pl,[&](const vector<int>& r){ if (vmc::failed()) return; vector<string> w; for (int i : p) w.insert(w.end(),item[i].begin(),item[i].end()); for (int i : r) w.insert(w.end(),item[i].begin(),item[i].end()); one(w); }); }); }); }
  // 3. one fault at every position of every pair of options
  vector<vector<string>> fault={{"--T","abc"},{"--T","1.5x"},{"--n","1.5"},{"--n","99999999999"},{"--T","1e999"},{"--n"},{"--s"},{"stray"},{"-T","1"},{"--First"},{"--First2"},{"--Tx","1"},{"--"},{"--no_T","1"},{"--z","(1,2"},{"--no_no_b"},{"--no_"},{"3"},{"--t","1"},{"--N","1"},{"--B"},{"--NO_b"},{"--No_b"},{"--b","1"},{"--no_b","true"},{"--T=1"},{"---T","1"},{"--T-","1"},{"--u","-1"},{"--2","1"},{"--T","(1)"}};
  for (size_t f=0;f<fault.size();++f) for (size_t i=0;i<item.size();++i) vmc::scenario(cat("fault/",joined(fault[f]),"/with=",joined(item[i])),[&]{ for (size_t j=0;j<item.size();++j) for (int pos=0;pos<3;++pos) { vector<string> w; auto add=[&](const vector<string>& x){w.insert(w.end(),x.begin(),x.end());}; if (pos==0) add(fault[f]); add(item[i]); if (pos==1) add(fault[f]); add(item[j]); if (pos==2) add(fault[f]); Vals v; one(w); if (vmc::failed()) return; } });
  // 4. help and version after any options; other prefixes
  for (size_t i=0;i<item.size();++i) for (size_t j=0;j<item.size();++j) vmc::scenario(cat("help/",joined(item[i])," ",joined(item[j])),[&]{ vector<string> w=item[i]; w.insert(w.end(),item[j].begin(),item[j].end()); auto h=w; h.push_back("--help"); one(h); auto g=w; g.push_back("--version"); one(g);
    for (string pre : {"-","++",""}) { vector<string> x; for (auto t : w) x.push_back(t.substr(0,2)=="--" && t!="--T" ? pre+t.substr(2) : t); if (pre=="" || joined(x).find("--")!=string::npos) continue; one(x,pre); } });
  // 5. registration: every pair of additions, a clash is refused and leaves the first in place
  vector<string> names={"a","b","no_a","no_b","aa","a2"};
  for (auto& n1 : names) for (auto& n2 : names) for (int k1=0;k1<3;++k1) for (int k2=0;k2<3;++k2) vmc::scenario(cat("register/",n1,k1,"/",n2,k2),[&]{ vmc::step(); parameters::Table t; 
    auto add=[&](const string& n, int k){ if (k==0) t.add(n,"d",1.5); else if (k==1) t.add(n,"d",true); else t.addTitle(n); };
    auto nm=[&](const string& n, int k){vector<string> r{n}; if (k==1) r.push_back("no_"+n); return r;};
    add(n1,k1); bool clash=false; for (auto& x : nm(n1,k1)) for (auto& y : nm(n2,k2)) if (x==y) clash=true; bool threw=false; try {add(n2,k2);} catch (const parameters::AttemptedRecreationOfParameterException&) {threw=true;}
    vmc::same(threw,clash,"refusal of a duplicate name"); vmc::check(!vmc::throwsAny([&]{t[n1];}),"first registration lost"); if (!clash) vmc::check(!vmc::throwsAny([&]{t[n2];}),"second registration lost"); vmc::check(vmc::throws<parameters::UnrecognisedParameterException>([&]{t["nonexistent"];}),"unknown name found"); });
  return vmc::finish();
}
