#include "quat-transformation.h"
