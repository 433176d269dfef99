#pragma once
#include "stdint.h"
extern "C" { void *malloc(size_t); void free(void *); void abort(); }
