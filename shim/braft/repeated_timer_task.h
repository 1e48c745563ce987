#pragma once
#include "vs/braft.h"
