#ifndef COV_RT_H_
#define COV_RT_H_
#include <stdint.h>
extern uint64_t cov_blocks, cov_bytes, cov_limit;
extern uintptr_t cov_low;
extern bool cov_on;
extern int cov_lib;  // not 0: in a library that is not to be measured; its memory functions are not counted
extern void (*cov_over)();
#endif
