// Every basic block of the instrumented host is a scheduling point of the simulator.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
static void (*point)(void);
__attribute__((constructor)) static void start(void) { point = (void (*)(void))dlsym(RTLD_DEFAULT, "sim_point"); }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; if (point) point(); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
