#define CHECK_SO
#include "semilocal.hpp"
