#include "c14.h"
#include "BinarySystem.h"
void binaryOne(const std::string& id, const Dims& d, const int* mask, const int* nJ, const int* nA, int un, int so, int fperm, bool heavy) {
  vmc::scenario(id,[&]{ static const double fs[6][3]={{1,2,3},{1,3,2},{2,1,3},{2,3,1},{3,1,2},{3,2,1}}; vector<Part> ps; vector<vector<int>> at{{0},{1},{0,1}};
    for (int i=0;i<3;++i) ps.push_back(part(i,mask[i],at[i],d,nJ[i],nA[i],!(un>>i&1),!(so>>i&1),fs[fperm][i]));
    auto f0=makeFree(mask[0],d[0],ps[0].t,ps[0].f), f1=makeFree(mask[1],d[1],ps[1].t,ps[1].f); auto ia=makeIa<2>(mask[2],{f0,f1},ps[2].t,ps[2].f);
    against<2>(binary::make(ia),ps,d,heavy); }); }
// the highest frequency of a part is the largest modulus among its real and complex frequencies, each times its multiplier
struct FreqSys : structure::DynamicsBase {FreqSys(const RealFreqs& r, const ComplexFreqs& c) : DynamicsBase(r,c) {}};
void freqs() { const double vals[]={0,.5,-3,2}, mult[]={1,4}; const C cv[]={C(0,0),C(3,4),C(-1,.5)};
  for (int nr=0;nr<=2;++nr) for (int nc=0;nc<=2;++nc) vmc::sequences(8,nr,[&](const vector<int>& r){ vmc::sequences(6,nc,[&](const vector<int>& c){ vmc::scenario(cat("frequencies/",r,c),[&]{ structure::DynamicsBase::RealFreqs rf; structure::DynamicsBase::ComplexFreqs cf; double m=0;
    for (int x : r) {rf.push_back({"r",vals[x/2],mult[x%2]}); m=std::max(m,std::abs(vals[x/2]*mult[x%2]));} for (int x : c) {cf.push_back({"c",cv[x/2],mult[x%2]}); m=std::max(m,std::abs(cv[x/2]*mult[x%2]));}
    FreqSys s(rf,cf); vmc::step(); vmc::near(s.highestFrequency(),m,"highest frequency of a part"); vmc::state(cat(m)); }); }); }); }
int main(int argc, char** argv) { vmc::init(argc,argv); bool th=vmc::thorough();
  // all feature masks of all three parts
  for (int m=0;m<4096;++m) { int mask[]={m&15,m>>4&15,m>>8}; int nJ[]={2,1,3}, nA[]={1,3,2}; binaryOne(cat("masks/",m),{2,3},mask,nJ,nA,(m*7>>2)%8,0,m%6,m%5==0); if (th) {int nJ2[]={1,3,2}, nA2[]={3,2,1}; binaryOne(cat("masks2/",m),{4,2},mask,nJ2,nA2,0,(m>>3)%8,(m>>1)%6,true);} }
  // all channel and column counts
  for (int a=0;a<4;++a) for (int b=0;b<4;++b) for (int c=0;c<4;++c) { int all[]={15,15,15}, nJ[]={a,b,c}; for (int x=0;x<3;++x) {int nA[]={(a+x)%4,(b+2*x)%4,c}; binaryOne(cat("counts/",a,b,c,x),{3,2},all,nJ,nA,0,0,0,x==0); } }
  // all unitarity and superoperator patterns, all orders of frequencies
  for (int m=0;m<8;++m) for (int s=0;s<8;++s) for (int e=0;e<8;++e) {int mask[3]; for (int i=0;i<3;++i) mask[i]=13|(e>>i&1)*2; int nJ[]={1,1,1}, nA[]={1,1,1}; binaryOne(cat("patterns/",m,s,e),{2,2},mask,nJ,nA,m,s,(m+s)%6,false);}
  // all dimensions
  for (int a=1;a<=4;++a) for (int b=1;b<=4;++b) for (int f=0;f<6;++f) {int mask[]={15,15,15}, nJ[]={1,2,1}, nA[]={2,1,1}; binaryOne(cat("dims/",a,b,f),{a,b},mask,nJ,nA,0,0,f,true);}
  // larger dimensions and many channels and columns
  for (Dims d : {Dims{7,5},{1,9},{12,2},{3,16}}) for (int f=0;f<2;++f) {int mask[]={15,15,15}, nJ[]={5,1+11*f,7}, nA[]={9,4,1+12*f}; binaryOne(cat("large/",d,f),d,mask,nJ,nA,0,0,f,true);}
  freqs();
  return vmc::finish(); }
