#include "../bt/ops_kernels.h"
