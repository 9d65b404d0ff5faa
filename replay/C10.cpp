// Pending pool, bucket cache and arena against maps.
#include "scen2.hpp"
int main(int c,char** v){ init(c,v); while(!timeup()){ st::watchdog(); switch(rnd(3)){ case 0: st::pool_case(); break; case 1: st::cache_case(); break; default: st::arena_case(); } } st::report(); }
