#include "hnswlib/hnswlib.h"
