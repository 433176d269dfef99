#pragma once
#include "stdint.h"
extern "C" { void *memcpy(void *, const void *, size_t); void *memmove(void *, const void *, size_t); void *memset(void *, int, size_t); int memcmp(const void *, const void *, size_t); size_t strlen(const char *); int strcmp(const char *, const char *); }
namespace std { using ::memcpy; using ::memmove; using ::memset; using ::memcmp; using ::strlen; using ::strcmp; }
