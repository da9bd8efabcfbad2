#include "locks.h"
int main(int c, char** v) { init(c, v); lock_sequences(); lock_schedules(3); return done(); }
