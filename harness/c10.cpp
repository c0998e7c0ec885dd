// C10: compositions.
#define SENS 0
#include "harness/comp.hpp"
