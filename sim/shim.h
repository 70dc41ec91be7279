// The seam between SMASH and the operating system: file operations, clocks, entropy and the heap.
// Everything is decided by the environment variables read in shim_init(); see DESIGN.md.
#ifndef VERIF_SIM_SHIM_H_
#define VERIF_SIM_SHIM_H_
#include <cstdint>
void shim_init();       // reads SIM_*; nothing is intercepted before
void shim_finish();     // writes the trace
void shim_heap(bool on);   // start/stop counting (and failing) allocations
extern int64_t shim_oom_at;   // the n-th counted allocation from now fails (0: none)
extern int64_t shim_allocs;   // counted allocations so far
extern bool shim_oom_fired;
extern void (*shim_on_output)();   // called once, when the first output file is opened
#endif
