#include "locks.h"
int main(int c, char** v) { init(c, v); lock_sequences(); lock_schedules(1); return done(); }
