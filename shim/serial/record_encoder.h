#pragma once
#include "serial/schema/base_schema.h"
namespace dingodb { class RecordEncoder; class RecordDecoder; }
