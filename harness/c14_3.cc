#include "c14_c.h"
int main(int argc, char** argv) { vmc::init(argc,argv); all<4,L<3,1>,L<2,0,3>>("31,203",{2,2,3,2}); return vmc::finish(); }
