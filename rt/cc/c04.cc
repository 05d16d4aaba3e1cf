#define PART 1
#include "c04t.hpp"
