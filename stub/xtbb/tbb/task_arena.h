#include "kvc_tbb.h"
