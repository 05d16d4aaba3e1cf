#define PART 2
#include "c04t.hpp"
