#include "c14_c.h"
int main(int argc, char** argv) { vmc::init(argc,argv); all<3,L<0,1>,L<1,2>>("01,12",{2,3,2}); all<3,L<2,0>,L<1,0>>("20,10",{3,2,2}); all<2,L<1,0>>("10",{3,2}); return vmc::finish(); }
