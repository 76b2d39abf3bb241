#include "c14.h"
#include "Composite.tcc"
template<int... I> auto act(const vector<structure::FreePtr>& f, int mask, const Tables& t, double fr) {return Act<I...>(makeIa<sizeof...(I)>(mask,{f[I]...},t,fr));}
template<int... I> struct L {static vector<int> at() {return {I...};} static auto make(const vector<structure::FreePtr>& f, int mask, const Tables& t, double fr) {return act<I...>(f,mask,t,fr);}};
template<int R, typename... A> void one(const std::string& id, const Dims& d, const vector<int>& mask, int fp, int un, int so, bool heavy, int cnt=0) {
  vmc::scenario(id,[&]{ vector<Part> ps; vector<vector<int>> at; for (int i=0;i<R;++i) at.push_back({i}); (at.push_back(A::at()),...); int N=at.size();
    for (int i=0;i<N;++i) ps.push_back(part(i,mask[i],at[i],d,(i+1+cnt)%3+(cnt?0:1),(2*i+cnt)%3+(cnt>1?0:1),!(un>>i&1),!(so>>i&1),(i+fp)%N==0 ? -5. : 1.+((i*3+fp)%N)/double(N)));
    vector<structure::FreePtr> f; for (int i=0;i<R;++i) f.push_back(makeFree(mask[i],d[i],ps[i].t,ps[i].f));
    [&]<size_t... K>(std::index_sequence<K...>) {against<R>(composite::make(A::make(f,mask[R+K],ps[R+K].t,ps[R+K].f)...),ps,d,heavy);}(std::make_index_sequence<sizeof...(A)>{});
    // the same assignments with a replaced partner are refused
    if constexpr (sizeof...(A)>1) if (heavy) for (int r=0;r<R;++r) { int uses=0; for (size_t k=R;k<at.size();++k) for (int x : at[k]) uses+=x==r; if (uses<2) continue;
      auto g=f; g[r]=makeFree(mask[r],d[r],ps[r].t,ps[r].f); int c=0; bool first=true; auto pick=[&](auto a)->const vector<structure::FreePtr>& {auto x=decltype(a)::at(); bool has=std::find(x.begin(),x.end(),r)!=x.end(); if (has && first) {first=false; return g;} return f;};
      vmc::step(); vmc::check(vmc::throws<std::logic_error>([&]{ [&]<size_t... K>(std::index_sequence<K...>) { std::tuple t{A::make(pick(A{}),mask[R+K],ps[R+K].t,ps[R+K].f)...}; std::apply([](const auto&... a){composite::make(a...);},t); }(std::make_index_sequence<sizeof...(A)>{}); }),cat("two different parts at position ",r," are refused")); } }); }
// every subset of the parts carrying a feature, for every feature, with the other features everywhere / nowhere / on the complement; and all pairs of subsets for two features
template<int R, typename... A> void all(const std::string& id, const Dims& d) { const int N=R+sizeof...(A); bool th=vmc::thorough();
  for (int s=0;s<1<<N;++s) { int c=0; for (int f=0;f<4;++f) for (int o=0;o<3;++o) { vector<int> m(N); for (int i=0;i<N;++i) for (int g=0;g<4;++g) {bool in=s>>i&1; if (g!=f) in=o==0 || (o==2 && !in); if (in) m[i]|=1<<g;}
    one<R,A...>(cat(id,"/",s,"/",f,"/",o),d,m,s%N,o?0:s,o==1?s:0,th || (f==0 && o==0)); } }
  for (int s=0;s<1<<N;s+=th||N<5?1:3) for (int s2=0;s2<1<<N;++s2) { vector<int> m(N); for (int i=0;i<N;++i) m[i]=(s>>i&1)*4+(s2>>i&1)*8+1; one<R,A...>(cat(id,"/LA/",s,"/",s2),d,m,0,0,0,false,1+s%2); } }
