// one batch of SHA-512/t: -DTS=8,16,...
#include "alg_impl.hpp"
#ifndef TS
#define TS 224, 256
#endif
template <unsigned... T> static bool add(std::integer_sequence<unsigned, T...>) {
	(algs().push_back(HashObj<cthash::sha512t<T>, false>::alg("sha512t<" + std::to_string(T) + ">", F_SHA512T, 128, T)), ...);
	return true;
}
static bool b = add(std::integer_sequence<unsigned, TS>{});
