// Commits that fail at each file operation, what the store reports afterwards, and closing.
#include "scen2.hpp"
int main(int c,char** v){ init(c,v); while(!timeup()){ st::watchdog(); if(chance(6)) st::ops_case(false,false); else st::commit_case(false,true); } st::report(); }
