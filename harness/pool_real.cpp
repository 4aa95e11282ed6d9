// The thread pool driver on operating-system threads.
#define VT_REAL 1
#include "pool.cpp"
