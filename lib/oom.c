/* vrun with memory requests that can be refused. Linked with --wrap for malloc, calloc, realloc, strdup. */
#define VRUN_OOM
#include "vrun.c"
