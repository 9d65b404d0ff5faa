// Fetches before, during and after commits, with colliding hashes and I/O errors, against a map.
#include "scen2.hpp"
int main(int c,char** v){ init(c,v); while(!timeup()){ st::watchdog(); st::ops_case(true,true); } st::report(); }
