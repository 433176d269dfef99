#pragma once
#include "stdint.h"
extern "C" { double pow(double, double); double ldexp(double, int); double floor(double); double fabs(double); double sqrt(double); double exp(double); double log10(double); double round(double); }
namespace std { using ::pow; using ::ldexp; using ::floor; using ::fabs; using ::sqrt; using ::round; }
