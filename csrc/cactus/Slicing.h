#include "cctk.h"
VF_C int Einstein_RegisterSlicing(const char *name);
