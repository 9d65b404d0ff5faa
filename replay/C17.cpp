// Visiting valid, truncated and damaged data files.
#include "scen2.hpp"
int main(int c,char** v){ init(c,v); while(!timeup()){ st::watchdog(); st::visit_case(); } st::report(); }
