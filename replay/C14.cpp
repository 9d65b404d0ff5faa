// Opening valid, changed, missing and foreign files; growth of the table after opening.
#include "scen2.hpp"
int main(int c,char** v){ init(c,v); while(!timeup()){ st::watchdog(); if(chance(6)) st::ops_case(false,false); else st::open_case(); } st::report(); }
