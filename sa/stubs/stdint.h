#pragma once
typedef unsigned char uint8_t; typedef signed char int8_t;
typedef unsigned short uint16_t; typedef signed short int16_t;
typedef unsigned int uint32_t; typedef signed int int32_t;
typedef unsigned long uint64_t; typedef signed long int64_t;
typedef unsigned long size_t; typedef signed long ssize_t; typedef signed long ptrdiff_t;
typedef unsigned long uintptr_t; typedef signed long intptr_t;
#define UINT8_MAX 255
#define INT8_MAX 127
#define UINT16_MAX 65535
#define INT16_MAX 32767
#define UINT32_MAX 4294967295U
#define INT32_MAX 2147483647
#define INT32_MIN (-2147483647-1)
#define UINT64_MAX 18446744073709551615UL
#define INT64_MAX 9223372036854775807L
#define SIZE_MAX 18446744073709551615UL
#define NULL __null
namespace std { using ::uint8_t; using ::int8_t; using ::uint16_t; using ::int16_t; using ::uint32_t; using ::int32_t;
using ::uint64_t; using ::int64_t; using ::size_t; using ::ptrdiff_t; }
