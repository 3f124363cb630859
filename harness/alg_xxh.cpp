#include "alg_impl.hpp"
static Register r1(HashObj<cthash::xxhash32, true>::alg("xxhash32", F_XXH, 16, 32));
static Register r2(HashObj<cthash::xxhash64, true>::alg("xxhash64", F_XXH, 32, 64));
