#include "faiss/vs_faiss.h"
