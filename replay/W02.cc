#include "pool.h"
int main(int c, char** v) { init(c, v); pool_schedules(); return done(); }
