// C07: all ordered choices of retained axes, all shapes of a small grid and all memory layouts; each slice element must be the very element of the array.
#include "VectorFromMatrixSliceIterator.h"
#include "vmc.h"
#include "arr.h"
#include <boost/range/algorithm.hpp>
#ifndef PART
#define PART 0
#endif
using vmc::cat; using std::vector; using std::string; using namespace cppqedutils;
template<int R> using Idx=blitz::TinyVector<int,R>;
template<int R> Idx<R> tiny(const vector<int>& v) {Idx<R> r; for (int i=0;i<R;++i) r(i)=v[i]; return r;}
static vector<vector<int>> boxes(const vector<int>& lo, const vector<int>& ext) { vector<vector<int>> r; vector<int> x=lo; if (ext.empty()) return {{}}; for (int e : ext) if (!e) return {}; for (;;) {r.push_back(x); int i=x.size()-1; while (i>=0 && ++x[i]==lo[i]+ext[i]) {x[i]=lo[i]; --i;} if (i<0) break;} return r; }
// layouts of an array of given shape
template<typename T, int R> vector<std::pair<string,std::function<blitz::Array<T,R>(const vector<int>&)>>> layouts() { vector<std::pair<string,std::function<blitz::Array<T,R>(const vector<int>&)>>> l;
  l.push_back({"C",[](const vector<int>& d){return blitz::Array<T,R>(tiny<R>(d));}});
  l.push_back({"Fortran order",[](const vector<int>& d){ blitz::GeneralArrayStorage<R> s; for (int i=0;i<R;++i) s.ordering()(i)=i; return blitz::Array<T,R>(tiny<R>(d),s);}});
  l.push_back({"bases",[](const vector<int>& d){ blitz::Array<T,R> a(tiny<R>(d)); Idx<R> b; for (int i=0;i<R;++i) b(i)=i%2?-i:i+1; a.reindexSelf(b); return a;}});
  l.push_back({"reversed",[](const vector<int>& d){ blitz::Array<T,R> a(tiny<R>(d)); for (int i=0;i<R;i+=2) a.reverseSelf(i); return a;}});
  l.push_back({"strided",[](const vector<int>& d){ Idx<R> e,lo,up,st; for (int i=0;i<R;++i) {e(i)=2*d[i]+1; lo(i)=1; up(i)=2*d[i]-1; st(i)=2;} blitz::Array<T,R> big(e); return blitz::Array<T,R>(big(blitz::StridedDomain<R>(lo,up,st)));}});
  l.push_back({"transposed",[](const vector<int>& d){ Idx<R> e; for (int i=0;i<R;++i) e(i)=d[R-1-i]; blitz::Array<T,R> a(e); [&]<size_t... K>(std::index_sequence<K...>) {if constexpr (R>1) a.transposeSelf(int(R-1-K)...);}(std::make_index_sequence<R>{}); return a;}});
  return l; }
template<typename A> vector<int> los(const A& a) {vector<int> r; for (int i=0;i<a.rank();++i) r.push_back(a.lbound(i)); return r;}
template<typename A> vector<int> exts(const A& a) {vector<int> r; for (int i=0;i<a.rank();++i) r.push_back(a.extent(i)); return r;}


// a: the array; keep: retained axes in order; begin/end/range: the iterators under test
template<int M, typename A, typename IT, typename RG> void checkSlices(A& a, const vector<int>& keep, IT begin, IT end, RG range) {
  constexpr int R=A::rank_; auto lo=los(a), ex=exts(a); vector<int> rest; for (int i=0;i<R;++i) if (std::find(keep.begin(),keep.end(),i)==keep.end()) rest.push_back(i);
  vector<int> klo,kex,rlo,rex; for (int k : keep) {klo.push_back(lo[k]); kex.push_back(ex[k]);} for (int k : rest) {rlo.push_back(lo[k]); rex.push_back(ex[k]);}
  auto dummies=boxes(rlo,rex), inner=boxes(klo,kex); using T=typename A::T_numtype;
  // unique values
  {int c=0; for (auto& x : boxes(lo,ex)) a(tiny<R>(x))=T(++c);}
  auto full=[&](const vector<int>& d, const vector<int>& k){vector<int> x(R); for (size_t i=0;i<rest.size();++i) x[rest[i]]=d[i]; for (size_t i=0;i<keep.size();++i) x[keep[i]]=k[i]; return x;};
  auto verify=[&](auto& slice, const vector<int>& d, const string& how){ vmc::step(); vmc::same(slice.rank(),M,how+": rank of slice"); for (int i=0;i<M;++i) {if (!vmc::same(slice.extent(i),kex[i],how+": extent of slice")) return;}
    for (auto& k : inner) { vector<int> ks(M); for (int i=0;i<M;++i) ks[i]=k[i]-klo[i]+slice.lbound(i); auto x=full(d,k); T* p=&slice(tiny<M>(ks)); T* q=&a(tiny<R>(x)); if (!vmc::check(p==q && *p==*q,[&]{return cat(how,": slice ",vmc::str(vector<long>(d.begin(),d.end())),", element ",vmc::str(vector<long>(k.begin(),k.end()))," is not the array element ",vmc::str(vector<long>(x.begin(),x.end())));})) return; } };
  size_t n=0; vector<vector<int>> seen; { IT i(begin); for (;i!=end;++i) { if (!vmc::check(n<dummies.size(),"too many slices")) return; vmc::check(!(i==end),"== and != contradict"); auto& s=*i; verify(s,dummies[n],"iterator"); vmc::state(cat(n)); ++n; if (vmc::failed()) return; } } vmc::same(n,dummies.size(),"number of slices");
  n=0; for (auto& s : range) {if (n<dummies.size()) verify(s,dummies[n],"range"); ++n; if (vmc::failed()) return;} vmc::same(n,dummies.size(),"number of slices in range");
  // several iterators at work at the same time do not disturb each other, copies are independent
  { IT i(begin), j(begin); size_t k=0; if (dummies.size()>1) { ++j; for (;j!=end;++i,++j,++k) {auto& s1=*i; auto& s2=*j; verify(s1,dummies[k],"interleaved, first"); verify(s2,dummies[k+1],"interleaved, second"); verify(s1,dummies[k],"interleaved, first again"); IT c(j); if (k+2<dummies.size()) {++c; verify(*c,dummies[k+2],"copy"); verify(*j,dummies[k+1],"original after copy advanced");} if (vmc::failed()) return;} } }
  // post-increment
  { IT i(begin); for (size_t k=0;k<dummies.size();++k) {IT o(i++); verify(*o,dummies[k],"post-increment"); if (vmc::failed()) return;} vmc::check(i==end,"end reached by post-increment"); }
  // writing through a slice changes exactly one element
  { size_t k=0; for (IT i(begin);i!=end;++i,++k) { vector<int> ks(M); auto& s=*i; if (inner.empty()) break; auto in=inner[k%inner.size()]; for (int q=0;q<M;++q) ks[q]=in[q]-klo[q]+s.lbound(q); auto x=full(dummies[k],in); T old=a(tiny<R>(x)); T sumB=blitz::sum(a); s(tiny<M>(ks))=old+T(1000); vmc::check(a(tiny<R>(x))==old+T(1000),"write through slice does not reach the array"); vmc::check(std::abs(blitz::sum(a)-sumB-T(1000))<1e-6,"write through slice changes other elements"); a(tiny<R>(x))=old; } }
  // whole-slice assignment visits every element once
  { for (IT i(begin);i!=end;++i) {auto& s=*i; s+=T(1);} int c=0; for (auto& x : boxes(lo,ex)) if (!vmc::check(a(tiny<R>(x))==T(++c+1),"element not visited exactly once")) break; }
}
template<int R, int M, template<int> class ARRAY> void ordered(const string& name, const vector<vector<int>>& shapes) {
  arr::each<R,M>([&]<int... I>(){ using V=tmptools::Vector<I...>; vector<int> keep{I...}; string ks; for (int k : keep) ks+=cat(k);
    vmc::scenario(cat(name,"/rank=",R,"/keep=",ks),[&]{ using A=ARRAY<R>; for (auto& lay : layouts<typename A::T_numtype,R>()) for (auto& sh : shapes) { A a(lay.second(sh)); checkSlices<M>(a,keep,sliceiterator::begin<V,ARRAY>(a),sliceiterator::end<V,ARRAY>(a),sliceiterator::fullRange<V,ARRAY>(a)); if (vmc::failed()) {vmc::fail("layout "+lay.first); return;} } }); }); }
template<int R, typename... Vs> void selected(const string& name, const vector<int>& sh) { (vmc::scenario(cat(name,"/",typeid(Vs).name()),[&]{ vector<int> keep; boost::mpl::for_each<Vs>([&](auto i){keep.push_back(decltype(i)::value);}); for (auto& lay : layouts<dcomp,R>()) { CArray<R> a(lay.second(sh)); constexpr int M=sliceiterator::Size_v<Vs>; checkSlices<M>(a,keep,sliceiterator::begin<Vs,CArray>(a),sliceiterator::end<Vs,CArray>(a),sliceiterator::fullRange<Vs,CArray>(a)); if (vmc::failed()) {vmc::fail("layout "+lay.first); return;} } }),...); }
template<int R, typename S> void matrixRows(const string& name, const vector<int>& half) { vmc::scenario(cat("rows/",name,"/",R,"/",vmc::str(vector<long>(half.begin(),half.end()))),[&]{ vector<int> sh=half; sh.insert(sh.end(),half.begin(),half.end()); vector<int> keep; for (int i=0;i<R;++i) keep.push_back(std::is_same_v<S,blitzplusplus::vfmsi::Right>?R+i:i);
  for (auto& lay : layouts<dcomp,2*R>()) { CArray<2*R> a(lay.second(sh)); using namespace blitzplusplus::vfmsi; checkSlices<R>(a,keep,blitzplusplus::vfmsi::begin<S>(a),blitzplusplus::vfmsi::end<S>(a),blitzplusplus::vfmsi::fullRange<S>(a)); if (vmc::failed()) {vmc::fail("layout "+lay.first); return;} } }); }
int main(int argc, char** argv) { vmc::init(argc,argv); using namespace blitzplusplus::vfmsi; using tmptools::Vector;
#if PART==0
  ordered<1,1,CArray>("complex",{{1},{3},{5}}); ordered<2,1,CArray>("complex",{{1,1},{2,3},{4,1},{1,4},{3,2}}); ordered<2,2,CArray>("complex",{{1,1},{2,3},{4,1}});
  ordered<3,1,CArray>("complex",{{2,3,4},{1,2,3},{3,1,2},{2,2,1},{1,1,1}}); ordered<3,2,CArray>("complex",{{2,3,4},{1,2,3},{3,1,2},{2,2,1}}); ordered<3,3,CArray>("complex",{{2,3,4},{1,2,3}});
  ordered<1,1,CArray>("large",{{300}}); ordered<2,1,CArray>("large",{{3,260},{260,2},{17,33}}); ordered<3,1,CArray>("large",{{2,3,70},{70,2,2},{3,70,2},{5,7,11}}); ordered<3,2,CArray>("large",{{2,3,70},{70,2,2},{3,70,2},{5,7,11}});
  ordered<2,1,DArray>("real",{{2,3}}); ordered<3,2,DArray>("real",{{2,3,4}}); ordered<3,1,DArray>("real",{{2,3,4}});
  for (auto h : vector<vector<int>>{{1},{2},{4}}) {matrixRows<1,Left>("left",h); matrixRows<1,Right>("right",h);} for (auto h : vector<vector<int>>{{1,1},{2,3},{3,2},{1,3}}) {matrixRows<2,Left>("left",h); matrixRows<2,Right>("right",h);} matrixRows<3,Left>("left",{2,3,2}); matrixRows<3,Right>("right",{2,3,2});
#elif PART==1
  ordered<4,1,CArray>("complex",{{2,3,4,2},{3,1,2,2}}); ordered<4,2,CArray>("complex",{{2,3,4,2},{3,1,2,2}});
  selected<5,Vector<4,2,0>,Vector<1,4>,Vector<3,0,4,1>,Vector<2>,Vector<4,3,2,1,0>,Vector<1,2,3,4,0>,Vector<0,3>,Vector<3,1,2>>("rank5",{2,3,2,3,2});
  selected<6,Vector<3,5,1>,Vector<5,0>,Vector<2,4,0,5>,Vector<5,4,3,2,1,0>,Vector<1,0,5,2,3>,Vector<4>>("rank6",{2,1,3,2,2,2});
#else
  ordered<4,3,CArray>("complex",{{2,3,4,2},{3,1,2,2}}); ordered<4,4,CArray>("complex",{{2,3,4,2}});
  selected<7,Vector<3,6,1,0>,Vector<6,2>,Vector<2,4,0,5,6,1,3>>("rank7",{2,1,2,2,2,1,2}); selected<8,Vector<7,3,5>,Vector<0,7,2,6>>("rank8",{2,1,2,1,2,2,1,3}); selected<11,Vector<3,6,1,9,7>>("rank11",{2,1,2,2,1,1,2,2,1,2,1});
#endif
  return vmc::finish(); }
