#define E25_FN(x) cur25_##x
#include "epoch25_body.hpp"
