// reference encoders, written from RFC 4648 (base64, base64url, base32, base16), the z-base-32 description,
// and positional notation (most significant bit first) for the rest
#pragma once
#include <cstdint>
#include <optional>
#include <string>
#include <string_view>
#include <numeric>
#include <vector>

struct EncRef {
	const char * type;			// name of the type in cthash::encoding
	std::vector<std::string> names; // names usable at run time
	std::string alphabet;
	unsigned bits;
	bool padded;
};

inline const std::vector<EncRef> & enc_refs() {
	static const std::string AZ = "ABCDEFGHIJKLMNOPQRSTUVWXYZ", az = "abcdefghijklmnopqrstuvwxyz", d = "0123456789";
	static const std::vector<EncRef> v{
		{"base64", {"base64"}, AZ + az + d + "+/", 6, true},
		{"base64_no_padding", {"base64_no_padding"}, AZ + az + d + "+/", 6, false},
		{"base64url", {"base64url", "base64_url"}, AZ + az + d + "-_", 6, false},
		{"base32", {"base32"}, AZ + "234567", 5, true},
		{"base32_no_padding", {"base32_no_padding"}, AZ + "234567", 5, false},
		{"z_base32", {"z_base32", "zbase32"}, "ybndrfg8ejkmcpqxot1uwisza345h769", 5, false},
		{"base16", {"base16", "hexdec"}, d + "abcdef", 4, false},
		{"base16_uppercase", {"BASE16", "HEXDEC"}, d + "ABCDEF", 4, false},
		{"base8", {"base8", "octal"}, "01234567", 3, true},
		{"base4", {"base4"}, "0123", 2, false},
		{"base2", {"base2", "binary"}, "01", 1, false},
	};
	return v;
}

inline std::vector<bool> to_bits(const uint64_t * v, size_t n, unsigned width) {
	std::vector<bool> b;
	b.reserve(n * width);
	for (size_t i = 0; i < n; ++i)
		for (unsigned k = width; k-- > 0;) b.push_back((v[i] >> k) & 1u);
	return b;
}

inline std::string encode_bits(const EncRef & e, const std::vector<bool> & b) {
	std::string o;
	for (size_t i = 0; i < b.size(); i += e.bits) {
		unsigned v = 0;
		for (unsigned k = 0; k < e.bits; ++k) v = v << 1 | (i + k < b.size() && b[i + k] ? 1u : 0u);
		o += e.alphabet[v];
	}
	if (e.padded) {
		const size_t group = std::lcm(e.bits, 8u) / e.bits;
		while (o.size() % group) o += '=';
	}
	return o;
}

inline std::string encode_bytes(const EncRef & e, const uint8_t * p, size_t n) {
	std::vector<uint64_t> v(p, p + n);
	return encode_bits(e, to_bits(v.data(), n, 8));
}

inline const EncRef * find_enc(std::string_view name) {
	for (auto & e: enc_refs())
		for (auto & n: e.names)
			if (n == name) return &e;
	return nullptr;
}
