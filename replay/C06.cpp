// Overflowing buckets, and random operations with many splits and spills against a map and an independent parser.
#include "scen2.hpp"
int main(int c,char** v){ init(c,v); while(!timeup()){ st::watchdog(); if(chance(3)){ for(int i=0;i<300;++i) st::spill_case(); } else st::ops_case(false,false); } st::report(); }
