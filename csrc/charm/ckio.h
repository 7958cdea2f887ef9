#include "vfcharm.h"
