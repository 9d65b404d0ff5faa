// Insert, erase and service passes of the context, in one thread and in several.
#include "scen2.hpp"
int main(int c,char** v){ init(c,v); while(!timeup()){ st::watchdog(); if(chance(12)) st::context_case(true); else st::context_case(false); } st::report(); }
