#include "rocksdb/vs_rocksdb.h"
