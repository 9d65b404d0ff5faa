// Verifying valid and damaged databases against an independent parser.
#include "scen2.hpp"
int main(int c,char** v){ init(c,v); while(!timeup()){ st::watchdog(); st::verify_case(); } st::report(); }
