// rank five, many channels, larger dimensions (selected feature masks)
#include "c14_c.h"
template<int R, typename... A> void some(const std::string& id, const Dims& d) { const int N=R+sizeof...(A); int c=0;
  for (int f=0;f<16;++f) {one<R,A...>(cat(id,"/all/",f),d,vector<int>(N,f),f%N,f,0,f==15,f%3);}
  for (int i=0;i<N;++i) for (int f=1;f<16;++f) {vector<int> m(N,15), k(N); m[i]=15^f; k[i]=f; one<R,A...>(cat(id,"/without/",i,"/",f),d,m,i,f%2?1<<i:0,0,false,c%3); one<R,A...>(cat(id,"/only/",i,"/",f),d,k,i,0,0,false,c++%3);} }
int main(int argc, char** argv) { vmc::init(argc,argv); some<5,L<4,1>,L<0,3,2>,L<2,4>>("41,032,24",{2,2,1,3,2}); some<3,L<1,2>,L<0,1>>("12,01 large",{4,3,5}); return vmc::finish(); }
