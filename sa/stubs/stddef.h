#include "stdint.h"
