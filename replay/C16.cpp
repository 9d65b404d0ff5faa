// Rekey over data files with and without spills, with crashes and I/O errors at its file operations.
#include "scen2.hpp"
int main(int c,char** v){ init(c,v); while(!timeup()){ st::watchdog(); st::rekey_case(); } st::report(); }
