#define PART 3
#include "c04t.hpp"
