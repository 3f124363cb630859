// one batch of output lengths (in bits) of SHAKE: -DOUTS=8,16,...
#include "alg_impl.hpp"
#ifndef OUTS
#define OUTS 8, 128, 256, 1344, 2048, 4096
#endif
template <> std::vector<std::pair<unsigned, ShakeOuts<cthash::shake128>::fn>> & ShakeOuts<cthash::shake128>::table();
template <> std::vector<std::pair<unsigned, ShakeOuts<cthash::shake256>::fn>> & ShakeOuts<cthash::shake256>::table();
#ifdef A_128
static bool b1 = ShakeOuts<cthash::shake128>::add(std::index_sequence<OUTS>{});
#endif
#ifdef A_256
static bool b2 = ShakeOuts<cthash::shake256>::add(std::index_sequence<OUTS>{});
#endif
