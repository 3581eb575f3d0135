#include "sam_all.h"
