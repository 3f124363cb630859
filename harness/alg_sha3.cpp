#include "alg_impl.hpp"
#ifdef A_1
static Register r1(HashObj<cthash::sha3_224, false>::alg("sha3_224", F_SHA3, 144, 224));
static Register r2(HashObj<cthash::sha3_256, false>::alg("sha3_256", F_SHA3, 136, 256));
#endif
#ifdef A_2
static Register r3(HashObj<cthash::sha3_384, false>::alg("sha3_384", F_SHA3, 104, 384));
static Register r4(HashObj<cthash::sha3_512, false>::alg("sha3_512", F_SHA3, 72, 512));
#endif
