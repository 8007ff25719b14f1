#include "macros.c"
