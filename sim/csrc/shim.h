/* Where the C code under test meets the world: memory, process exit, random devices. */
#ifndef SIM_SHIM_H
#define SIM_SHIM_H
#include <setjmp.h>
#include <stddef.h>
#include <stdint.h>
struct sim_guard { sigjmp_buf jb; int on; int code; };
extern __thread struct sim_guard sim_g;
void sim_guard_install(void);
/* 0 returned normally, 1 exit(), 2 memory fault, 3 abort or assertion, 4 does not end */
#define SIM_GUARDED(stmt) ({ int sim_r = sigsetjmp(sim_g.jb, 1); if (sim_r == 0) { sim_g.on = 1; stmt; } sim_g.on = 0; sim_r; })
#endif
