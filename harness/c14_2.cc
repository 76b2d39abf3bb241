#include "c14_c.h"
int main(int argc, char** argv) { vmc::init(argc,argv); all<3,L<2,0,1>>("201",{2,3,2}); all<3,L<1,2>,L<0,2,1>>("12,021",{2,2,3}); return vmc::finish(); }
