#define STEPS 1
#include "steps.hpp"
int main(int a, char** v) { return mc::main(a, v); }
