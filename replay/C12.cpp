// Recovery from logs made by hand and from interrupted commits, interrupted itself by crashes and I/O errors.
#include "scen2.hpp"
int main(int c,char** v){ init(c,v); while(!timeup()){ st::watchdog(); if(chance(3)) st::commit_case(true,false); else st::recover_case(); } st::report(); }
