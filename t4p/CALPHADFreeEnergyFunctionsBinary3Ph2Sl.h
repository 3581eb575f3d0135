#include "t4p.h"
