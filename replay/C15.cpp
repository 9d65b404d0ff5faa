// Creation with valid and invalid parameters, existing files and I/O errors.
#include "scen2.hpp"
int main(int c,char** v){ init(c,v); while(!timeup()){ st::watchdog(); st::create_case(); } st::report(); }
