#include "alg_impl.hpp"
#ifdef A_128
template <> std::vector<std::pair<unsigned, ShakeOuts<cthash::shake128>::fn>> & ShakeOuts<cthash::shake128>::table() {
	static std::vector<std::pair<unsigned, fn>> t;
	return t;
}
static Register r1(HashObj<cthash::shake128, false, true>::alg("shake128", F_SHAKE, 168, 0));
#endif
#ifdef A_256
template <> std::vector<std::pair<unsigned, ShakeOuts<cthash::shake256>::fn>> & ShakeOuts<cthash::shake256>::table() {
	static std::vector<std::pair<unsigned, fn>> t;
	return t;
}
static Register r2(HashObj<cthash::shake256, false, true>::alg("shake256", F_SHAKE, 136, 0));
#endif
