// Stand-in for the Xoshiro-cpp submodule (absent offline): the published xoshiro256++ algorithm with splitmix seeding.
#pragma once
#include <array>
#include <cstdint>
namespace XoshiroCpp {
class Xoshiro256PlusPlus {
public:
  using state_type=std::array<std::uint64_t,4>; using result_type=std::uint64_t;
  explicit Xoshiro256PlusPlus(std::uint64_t seed=1234567890ull) {
    for (auto& s : st_) { std::uint64_t z=(seed+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; s=z^(z>>31); } }
  Xoshiro256PlusPlus(std::uint64_t seed, std::uint64_t stream) : Xoshiro256PlusPlus(seed+0x1234567ull*stream) {}
  static constexpr result_type min() {return 0;}
  static constexpr result_type max() {return ~result_type(0);}
  result_type operator()() {
    auto rotl=[](std::uint64_t x, int k) {return (x<<k)|(x>>(64-k));};
    const result_type r=rotl(st_[0]+st_[3],23)+st_[0], t=st_[1]<<17;
    st_[2]^=st_[0]; st_[3]^=st_[1]; st_[1]^=st_[2]; st_[0]^=st_[3]; st_[2]^=t; st_[3]=rotl(st_[3],45); return r; }
  state_type serialize() const {return st_;}
  void deserialize(const state_type& s) {st_=s;}
  friend bool operator==(const Xoshiro256PlusPlus& a, const Xoshiro256PlusPlus& b) {return a.st_==b.st_;}
private:
  state_type st_;
};
}
