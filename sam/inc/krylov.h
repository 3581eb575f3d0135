#include "sam_hypre.h"
