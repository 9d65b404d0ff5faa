// Readers held up in the middle of reads while commits run; generation lock sequences; reads from inside commits.
#include "scen2.hpp"
int main(int c,char** v){ init(c,v); while(!timeup()){ st::watchdog(); if(chance(3)) st::readers_case(); else if(chance(2)) for(int i=0;i<20;++i) st::gentex_case(); else st::ops_case(true,true); } st::report(); }
