#include "solver/Solver.h"
#include "driver/driver.h"
int main(){ return 0; }
