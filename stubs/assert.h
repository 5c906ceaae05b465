#include "verif.hpp"
#undef assert
#define assert(x) __verif_assert(static_cast<bool>(x))
