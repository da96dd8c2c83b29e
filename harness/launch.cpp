// The solver's command-line program, as released (no wait for a debugger).
#ifndef NDEBUG
#define NDEBUG
#endif
#include "launcher/launcher.cpp"
