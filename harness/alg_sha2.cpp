#include "alg_impl.hpp"
#ifdef A_256
static Register r1(HashObj<cthash::sha224, false>::alg("sha224", F_SHA2, 64, 224));
static Register r2(HashObj<cthash::sha256, false>::alg("sha256", F_SHA2, 64, 256));
#endif
#ifdef A_512
static Register r3(HashObj<cthash::sha384, false>::alg("sha384", F_SHA2, 128, 384));
static Register r4(HashObj<cthash::sha512, false>::alg("sha512", F_SHA2, 128, 512));
#endif
