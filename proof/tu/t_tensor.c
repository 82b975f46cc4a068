#include "tensor.c"
#include "tensor.h"
