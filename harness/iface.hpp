// Type-erased view of the hashers under test (no cthash include here).
#pragma once
#include <cstdint>
#include <cstddef>
#include <memory>
#include <string>
#include <vector>

using Bytes = std::vector<uint8_t>;

// ways to hand bytes to a hasher; all must mean the same bytes
enum Kind : unsigned {
	K_SPAN_BYTE,	   // std::span<const std::byte>
	K_SPAN_UCHAR,
	K_SPAN_CHAR,
	K_SPAN_CHAR8,
	K_SPAN_INT8,
	K_SV,			   // std::string_view
	K_U8SV,
	K_STRING,
	K_U8STRING,
	K_VEC_BYTE,
	K_VEC_UCHAR,
	K_VEC_CHAR,
	K_VEC_INT8,
	K_MUT_SPAN_BYTE,   // spans of non-const bytes
	K_MUT_SPAN_CHAR,
	K_ARRAY_BYTE,	   // std::array / C array / literal of fixed sizes
	K_ARRAY_UCHAR,
	K_CARRAY_BYTE,
	K_CARRAY_UCHAR,
	K_CARRAY_INT8,
	K_LITERAL_CHAR,	   // const char[N + 1] with terminator, which isn't part of the message
	K_LITERAL_CHAR8,
	K_SPAN_FIXED,	   // std::span<const unsigned char, N>
	K_HASH_VALUE,	   // digest values are bytes as well
	K_COUNT
};
extern const char * const kind_names[K_COUNT];

struct Obj {
	virtual ~Obj() = default;
	// false: form isn't available (for this size), nothing was done
	virtual bool update(unsigned kind, const uint8_t * p, size_t n) = 0;
	virtual Bytes final_value(unsigned outbits) = 0;
	virtual bool final_into(uint8_t * out) = 0; // writes exactly digest bytes, false: not available
	virtual std::unique_ptr<Obj> clone() const = 0;
	virtual std::unique_ptr<Obj> move_out() = 0;
	virtual bool copy_assign(const Obj &) = 0; // false: hasher isn't assignable
	virtual uint64_t size() const = 0;
};

enum Family { F_SHA2,
	F_SHA512T,
	F_SHA3,
	F_SHAKE,
	F_XXH };

struct Alg {
	std::string name;
	Family family;
	unsigned block;	  // bytes per block
	unsigned outbits; // digest bits (0: variable)
	std::vector<unsigned> outs; // available output lengths for variable ones
	bool seeded;
	bool has_size;
	bool full_kinds;
	void (*fill_outs)(Alg &);
	std::unique_ptr<Obj> (*make)(uint64_t seed);
	// simple<H>(input) / update_and_final / hasher{}.update().final() in one expression; false: form not available
	bool (*oneshot)(unsigned how, unsigned kind, uint64_t seed, const uint8_t * p, size_t n, Bytes & out);
};

std::vector<Alg> & algs();
struct Register {
	explicit Register(Alg a) { algs().push_back(std::move(a)); }
};

// ---- reference (ref.cpp): OpenSSL for SHA-2/SHA-3/SHAKE, own XXH32/64
struct RefStream {
	struct Impl;
	std::unique_ptr<Impl> i;
	RefStream(const Alg & a, uint64_t seed);
	RefStream(const RefStream &);
	~RefStream();
	void update(const uint8_t * p, size_t n);
	Bytes final(unsigned outbits) const; // doesn't change the state
};
Bytes ref_digest(const Alg & a, uint64_t seed, unsigned outbits, const uint8_t * p, size_t n);
