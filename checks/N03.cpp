#include "semilocal.hpp"
