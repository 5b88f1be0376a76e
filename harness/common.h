#pragma once
#include <cmath>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include "vp.h"
struct Name { char b[48]; Name(const char *f, long a = 0, long c = 0, long d = 0) { snprintf(b, sizeof b, f, a, c, d); } operator const char *() const { return b; } };
