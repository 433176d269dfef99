#pragma once
#include "stdint.h"
struct FILE; extern FILE *stderr; extern FILE *stdout;
extern "C" { int fprintf(FILE *, const char *, ...); int printf(const char *, ...); int snprintf(char *, size_t, const char *, ...); int fputs(const char *, FILE *); }
