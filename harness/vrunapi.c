/* vrun with the procedures of capi.h */
#define VERIF_CAPI 1
#include "vrun.c"
