#pragma once
#include "vs/core.h"
