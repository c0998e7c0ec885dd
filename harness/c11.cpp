// C11: sensitivities of compositions.
#define SENS 1
#include "harness/comp.hpp"
