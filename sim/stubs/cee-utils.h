/* stands in for the header of the external cee-utils library that sqlite3/cee_dbm.c includes:
 * the one function it uses is answered by the simulator (h_dbm.cpp) */
#ifndef SIM_STUB_CEE_UTILS_H
#define SIM_STUB_CEE_UTILS_H
#include <stddef.h>
extern char *cee_load_whole_file(const char *filename, size_t *len);
#endif
