#define KEYS_A
#include "keys.h"
