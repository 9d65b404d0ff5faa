// Commits with the write-ahead rule checked at each file operation, crashes and I/O errors at them.
#include "scen2.hpp"
int main(int c,char** v){ init(c,v); while(!timeup()){ st::watchdog(); st::commit_case(!chance(3),chance(3)); } st::report(); }
