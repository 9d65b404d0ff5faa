// Buckets written to and read from files against an independent encoder; cut short, corrupt and failing reads.
#include "scen2.hpp"
int main(int c,char** v){ init(c,v); while(!timeup()){ st::watchdog(); st::bucketio_case(); } st::report(); }
