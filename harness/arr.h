// compile-time enumeration of all ordered subsets of {0..R-1}
#pragma once
#include <array>
#include <utility>
#include <vector>
namespace arr {
constexpr int fact(int n) {return n<2?1:n*fact(n-1);}
constexpr int count(int n, int m) {return fact(n)/fact(n-m);}
template<int M> constexpr std::array<int,M> nth(int n, int k) { std::array<int,M> r{}; bool used[16]={}; int rest=count(n,M);
  for (int i=0;i<M;++i) { rest/=(n-i); int j=k/rest; k%=rest; for (int c=0;c<n;++c) if (!used[c] && j--==0) {r[i]=c; used[c]=true; break;} } return r; }
// f.template operator()<Is...>() for every arrangement of size M out of N; first/last select a range of them
template<int N, int M, int K, typename F, std::size_t... I> void call(F& f, std::index_sequence<I...>) { constexpr auto a=nth<M>(N,K); f.template operator()<a[I]...>(); }
template<int N, int M, typename F> void each(F f) { [&]<std::size_t... K>(std::index_sequence<K...>) {(call<N,M,int(K)>(f,std::make_index_sequence<M>{}),...);}(std::make_index_sequence<count(N,M)>{}); }
}
