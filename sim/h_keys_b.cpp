#include "keys.h"
