// Everything AMPE includes from SAMRAI and from the sundials interface.
#ifndef sam_all_h
#define sam_all_h
#include "sam_mesh.h"
#endif
