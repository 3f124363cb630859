#define OPENSSL_SUPPRESS_DEPRECATED
#include "iface.hpp"
#include <openssl/evp.h>
#include <openssl/sha.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>

const char * const kind_names[K_COUNT] = {"span<const byte>", "span<const unsigned char>", "span<const char>", "span<const char8_t>", "span<const int8_t>", "string_view", "u8string_view", "string", "u8string", "vector<byte>", "vector<unsigned char>", "vector<char>", "vector<int8_t>", "span<byte>", "span<char>", "array<byte>", "array<unsigned char>", "byte[]", "unsigned char[]", "int8_t[]", "char literal", "char8_t literal", "span<const unsigned char,N>", "hash_value"};

std::vector<Alg> & algs() {
	static std::vector<Alg> v;
	return v;
}

// own XXH32 / XXH64, written from the specification
struct Xxh {
	unsigned bits{0};
	uint64_t seed{0}, total{0};
	uint64_t v[4]{};
	uint8_t buf[32]{};
	unsigned fill{0};
	static uint32_t rd32(const uint8_t * p) { return uint32_t(p[0]) | uint32_t(p[1]) << 8 | uint32_t(p[2]) << 16 | uint32_t(p[3]) << 24; }
	static uint64_t rd64(const uint8_t * p) { return uint64_t(rd32(p)) | uint64_t(rd32(p + 4)) << 32; }
	static uint32_t r32(uint32_t x, int n) { return x << n | x >> (32 - n); }
	static uint64_t r64(uint64_t x, int n) { return x << n | x >> (64 - n); }
	static constexpr uint32_t A1 = 0x9E3779B1u, A2 = 0x85EBCA77u, A3 = 0xC2B2AE3Du, A4 = 0x27D4EB2Fu, A5 = 0x165667B1u;
	static constexpr uint64_t B1 = 0x9E3779B185EBCA87ull, B2 = 0xC2B2AE3D27D4EB4Full, B3 = 0x165667B19E3779F9ull, B4 = 0x85EBCA77C2B2AE63ull, B5 = 0x27D4EB2F165667C5ull;
	void init(unsigned b, uint64_t s) {
		bits = b;
		seed = b == 32 ? uint32_t(s) : s;
		total = 0;
		fill = 0;
		if (b == 32) {
			v[0] = uint32_t(seed + A1 + A2);
			v[1] = uint32_t(seed + A2);
			v[2] = uint32_t(seed);
			v[3] = uint32_t(seed - A1);
		} else {
			v[0] = seed + B1 + B2;
			v[1] = seed + B2;
			v[2] = seed;
			v[3] = seed - B1;
		}
	}
	static uint64_t round64(uint64_t acc, uint64_t in) { return r64(acc + in * B2, 31) * B1; }
	void stripe(const uint8_t * p) {
		if (bits == 32)
			for (int i = 0; i < 4; ++i) v[i] = uint32_t(r32(uint32_t(v[i]) + rd32(p + 4 * i) * A2, 13) * A1);
		else
			for (int i = 0; i < 4; ++i) v[i] = round64(v[i], rd64(p + 8 * i));
	}
	void update(const uint8_t * p, size_t n) {
		const unsigned bs = bits / 2;
		total += n;
		if (fill) {
			size_t t = std::min<size_t>(n, bs - fill);
			memcpy(buf + fill, p, t);
			fill += unsigned(t);
			p += t;
			n -= t;
			if (fill < bs) return;
			stripe(buf);
			fill = 0;
		}
		for (; n >= bs; n -= bs, p += bs) stripe(p);
		if (n) memcpy(buf, p, n);
		fill = unsigned(n);
	}
	Bytes final() const {
		Bytes o;
		const uint8_t * p = buf;
		unsigned n = fill;
		if (bits == 32) {
			uint32_t h = total >= 16 ? r32(uint32_t(v[0]), 1) + r32(uint32_t(v[1]), 7) + r32(uint32_t(v[2]), 12) + r32(uint32_t(v[3]), 18) : uint32_t(seed) + A5;
			h += uint32_t(total);
			for (; n >= 4; n -= 4, p += 4) h = r32(h + rd32(p) * A3, 17) * A4;
			for (; n; --n, ++p) h = r32(h + *p * A5, 11) * A1;
			h ^= h >> 15;
			h *= A2;
			h ^= h >> 13;
			h *= A3;
			h ^= h >> 16;
			for (int i = 3; i >= 0; --i) o.push_back(uint8_t(h >> (8 * i)));
		} else {
			uint64_t h;
			if (total >= 32) {
				h = r64(v[0], 1) + r64(v[1], 7) + r64(v[2], 12) + r64(v[3], 18);
				for (int i = 0; i < 4; ++i) h = (h ^ round64(0, v[i])) * B1 + B4;
			} else
				h = seed + B5;
			h += total;
			for (; n >= 8; n -= 8, p += 8) h = r64(h ^ round64(0, rd64(p)), 27) * B1 + B4;
			if (n >= 4) {
				h = r64(h ^ (rd32(p) * B1), 23) * B2 + B3;
				n -= 4;
				p += 4;
			}
			for (; n; --n, ++p) h = r64(h ^ (*p * B5), 11) * B1;
			h ^= h >> 33;
			h *= B2;
			h ^= h >> 29;
			h *= B3;
			h ^= h >> 32;
			for (int i = 7; i >= 0; --i) o.push_back(uint8_t(h >> (8 * i)));
		}
		return o;
	}
};

struct RefStream::Impl {
	Family fam{};
	unsigned outbits{0};
	EVP_MD_CTX * ctx{nullptr};
	SHA512_CTX s512{};
	Xxh x;
	~Impl() {
		if (ctx) EVP_MD_CTX_free(ctx);
	}
};

static void must(bool b) {
	if (!b) {
		fprintf(stderr, "reference implementation failed\n");
		_exit(3);
	}
}

static const EVP_MD * md_of(const std::string & n) {
	static std::map<std::string, EVP_MD *> cache;
	auto & m = cache[n];
	if (!m) {
		static const std::map<std::string, const char *> names{{"sha224", "SHA224"}, {"sha256", "SHA256"}, {"sha384", "SHA384"}, {"sha512", "SHA512"}, {"sha3_224", "SHA3-224"}, {"sha3_256", "SHA3-256"}, {"sha3_384", "SHA3-384"}, {"sha3_512", "SHA3-512"}, {"shake128", "SHAKE128"}, {"shake256", "SHAKE256"}};
		auto it = names.find(n);
		must(it != names.end());
		m = EVP_MD_fetch(nullptr, it->second, nullptr);
		must(m != nullptr);
	}
	return m;
}

static SHA512_CTX iv512t(unsigned t) {
	static std::map<unsigned, SHA512_CTX> cache;
	auto it = cache.find(t);
	if (it != cache.end()) return it->second;
	SHA512_CTX c;
	SHA512_Init(&c);
	for (auto & h: c.h) h ^= 0xa5a5a5a5a5a5a5a5ull;
	std::string s = "SHA-512/" + std::to_string(t);
	SHA512_Update(&c, s.data(), s.size());
	uint8_t d[64];
	SHA512_Final(d, &c);
	SHA512_CTX r;
	SHA512_Init(&r);
	for (int i = 0; i < 8; ++i) {
		uint64_t v = 0;
		for (int j = 0; j < 8; ++j) v = v << 8 | d[i * 8 + j];
		r.h[i] = v;
	}
	return cache[t] = r;
}

RefStream::RefStream(const Alg & a, uint64_t seed): i(new Impl) {
	i->fam = a.family;
	i->outbits = a.outbits;
	if (a.family == F_XXH)
		i->x.init(a.outbits, seed);
	else if (a.family == F_SHA512T)
		i->s512 = iv512t(a.outbits);
	else {
		i->ctx = EVP_MD_CTX_new();
		must(i->ctx && EVP_DigestInit_ex(i->ctx, md_of(a.name), nullptr) == 1);
	}
}
RefStream::RefStream(const RefStream & o): i(new Impl) {
	i->fam = o.i->fam;
	i->outbits = o.i->outbits;
	i->s512 = o.i->s512;
	i->x = o.i->x;
	if (o.i->ctx) {
		i->ctx = EVP_MD_CTX_new();
		must(EVP_MD_CTX_copy_ex(i->ctx, o.i->ctx) == 1);
	}
}
RefStream::~RefStream() = default;
void RefStream::update(const uint8_t * p, size_t n) {
	if (i->fam == F_XXH)
		i->x.update(p, n);
	else if (i->fam == F_SHA512T)
		must(SHA512_Update(&i->s512, p, n) == 1);
	else
		must(EVP_DigestUpdate(i->ctx, p, n) == 1);
}
Bytes RefStream::final(unsigned outbits) const {
	if (i->fam == F_XXH) return i->x.final();
	if (i->fam == F_SHA512T) {
		auto c = i->s512;
		Bytes d(64);
		must(SHA512_Final(d.data(), &c) == 1);
		d.resize(i->outbits / 8);
		return d;
	}
	EVP_MD_CTX * c = EVP_MD_CTX_new();
	must(c && EVP_MD_CTX_copy_ex(c, i->ctx) == 1);
	Bytes d((i->outbits ? i->outbits : outbits) / 8);
	if (i->fam == F_SHAKE)
		must(EVP_DigestFinalXOF(c, d.data(), d.size()) == 1);
	else {
		unsigned l = 0;
		must(EVP_DigestFinal_ex(c, d.data(), &l) == 1 && l == d.size());
	}
	EVP_MD_CTX_free(c);
	return d;
}
Bytes ref_digest(const Alg & a, uint64_t seed, unsigned outbits, const uint8_t * p, size_t n) {
	RefStream r(a, seed);
	r.update(p, n);
	return r.final(outbits);
}
