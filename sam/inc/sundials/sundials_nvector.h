#include "sam_sundials.h"
