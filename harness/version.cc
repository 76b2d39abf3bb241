// Version.cc of the repository cannot be compiled offline (blitz submodule); only its text is needed by headers of output files
#include <string>
std::string versionHelper() {return "verification build\n";}
