// compiled with -Dpystd2025=pystd2025ref against data/epoch2025
#define E25_FN(x) ref25_##x
#include "epoch25_body.hpp"
