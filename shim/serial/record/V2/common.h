#pragma once
#include "serial/schema/base_schema.h"

