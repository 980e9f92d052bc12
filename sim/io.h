#pragma once
#include "rt.h"
namespace sim {
extern bool g_io_on, g_io_crashed;
extern uint64_t g_io_calls;
}
