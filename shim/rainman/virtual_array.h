#include "cache.h"
