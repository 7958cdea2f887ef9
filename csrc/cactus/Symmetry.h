#include "cctk.h"
VF_C int SetCartSymVN(const cGH *g, const int *sym, const char *name);
