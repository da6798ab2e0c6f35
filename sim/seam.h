/* force-included when the code under test is compiled: routes its own documented
 * "#ifndef cee_segfault" override point to the simulator */
#ifndef SIM_SEAM_H
#define SIM_SEAM_H
extern void sim_code_stop(const char *file, int line) __attribute__((noreturn));
#define cee_segfault() sim_code_stop(__FILE__, __LINE__)
#endif
