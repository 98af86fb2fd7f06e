// the command-line program with its main renamed, for the session harnesses
#define main tinydip_main
#include "main.cpp"
#undef main
