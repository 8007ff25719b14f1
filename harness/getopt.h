/* src/getopt_long.c includes the system's header of this name; the library's
 * own says the same. */
#ifndef VF_GETOPT_H
#define VF_GETOPT_H 1
#include "getopt_long.h"
extern int optreset;
extern int getopt(int, char * const *, const char *);
#endif
