// Stand-in for the pcg-cpp submodule (absent offline): a *scripted* engine. Each engine is identified by (seed,stream) and
// has a position; output number `pos` is looked up in a global table if scripted, otherwise a splitmix64 hash.
#pragma once
#include <cstdint>
#include <functional>
#include <istream>
#include <ostream>
namespace vstub {
inline std::function<bool(std::uint64_t seed,std::uint64_t stream,std::uint64_t pos,std::uint64_t& out)>& script() {
  static std::function<bool(std::uint64_t,std::uint64_t,std::uint64_t,std::uint64_t&)> f; return f; }
inline std::uint64_t mix(std::uint64_t z) { z+=0x9e3779b97f4a7c15ull; z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
}
struct pcg64 {
  using result_type=std::uint64_t;
  std::uint64_t seed_=0, stream_=0, pos_=0;
  pcg64() = default;
  explicit pcg64(std::uint64_t s, std::uint64_t st=0) : seed_(s), stream_(st) {}
  static constexpr result_type min() {return 0;}
  static constexpr result_type max() {return ~result_type(0);}
  result_type operator()() {
    std::uint64_t out=0;
    if (auto& f=vstub::script(); f && f(seed_,stream_,pos_,out)) {++pos_; return out;}
    out=vstub::mix(vstub::mix(vstub::mix(seed_)+stream_)+pos_); ++pos_; return out;
  }
  friend bool operator==(const pcg64& a, const pcg64& b) {return a.seed_==b.seed_ && a.stream_==b.stream_ && a.pos_==b.pos_;}
  friend bool operator!=(const pcg64& a, const pcg64& b) {return !(a==b);}
  friend std::ostream& operator<<(std::ostream& os, const pcg64& e) {return os<<e.seed_<<' '<<e.stream_<<' '<<e.pos_;}
  friend std::istream& operator>>(std::istream& is, pcg64& e) {return is>>e.seed_>>e.stream_>>e.pos_;}
};
