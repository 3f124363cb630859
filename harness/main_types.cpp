// types of digests: over many widths, from literals, and their conversions
#pragma GCC diagnostic ignored "-Wunused-function"
#include "cth.hpp"
#include "gen.hpp"
#include <array>
#include <string>
#include <type_traits>

using namespace pbt;
using fn = void (*)(Src &);

static void any(Src & s, const std::vector<fn> & f) {
	f[s.below(f.size())](s);
}

// ---- digests of all widths
template <typename V> void check_width(const V & v, size_t bits, const char * name) {
	PBT_CHECK(v.size() * 8 == bits, << name << " of " << bits << " bits gives " << v.size() * 8 << " bits");
	PBT_CHECK(size_t(v.end() - v.begin()) * 8 == bits);
	PBT_CHECK(V::digest_length * 8 == bits, << name << " of " << bits << " bits claims " << V::digest_length * 8 << " bits");
	PBT_CHECK(sizeof(V) * 8 == bits, << name << " of " << bits << " bits needs " << sizeof(V) * 8 << " bits");
	PBT_CHECK(V{}.size() * 8 == bits);
	PBT_CHECK(to_string<cthash::encoding::hexdec>(v).size() * 4 == bits);
	PBT_CHECK(to_fixed_string<cthash::encoding::hexdec>(v).size() * 4 == bits);
	PBT_CHECK(to_string<cthash::encoding::binary>(v).size() == bits);
}
template <typename H> static H hashed(Src & s, bool & some) {
	Bytes m(s.below(300));
	gen_content(s).fill(m.data(), m.size());
	some = !m.empty();
	H h{};
	h.update(std::span<const uint8_t>(m));
	return h;
}
template <typename H, template <size_t> typename V, size_t N> void shake_width(Src & s, const char * name) {
	bool some;
	H h = hashed<H>(s, some);
	s.note(name, " to ", N, " bits");
	s.nontrivial(some);
	auto v = h.template final<N>();
	PBT_CHECK((std::is_same_v<decltype(v), V<N>>), << name << " of " << N << " bits is not of the value type of this width");
	check_width(v, N, name);
}
template <unsigned N> void sha512t_width(Src & s) {
	bool some;
	using H = cthash::sha512t<N>;
	H h = hashed<H>(s, some);
	s.note("sha512t to ", N, " bits");
	s.nontrivial(some);
	auto v = h.final();
	PBT_CHECK((std::is_same_v<decltype(v), cthash::sha512t_value<N>>), << "digest of sha512t<" << N << "> is not of the value type of this width");
	check_width(v, N, "sha512t");
	std::array<std::byte, N / 8> raw{};
	H h2 = hashed<H>(s, some);
	H h3 = h2;
	h2.final(raw);
	PBT_CHECK(std::equal(raw.begin(), raw.end(), h3.final().begin()));
}

// ---- literals
template <size_t N, typename C, unsigned Salt> constexpr auto digits() {
	cthash::fixed_string<C, N> t{nullptr};
	uint64_t x = 88172645463325252ull + N * 7919 + Salt * 104729;
	for (auto & c: t) {
		x ^= x << 13, x ^= x >> 7, x ^= x << 17;
		c = C("0123456789abcdefABCDEF"[(x >> 20) % 22]);
	}
	return t;
}
template <auto Text> static bool is_bytes_of(const uint8_t * p, size_t n) {
	if (Text.size() != n * 2) return false;
	auto val = [](auto c) { return c <= '9' ? c - '0' : c >= 'a' ? c - 'a' + 10 : c - 'A' + 10; };
	for (size_t i = 0; i != n; ++i)
		if (unsigned(val(Text[2 * i]) * 16 + val(Text[2 * i + 1])) != p[i]) return false;
	return true;
}
template <typename V, auto Text> void literal(Src & s, const auto & v, const char * name) {
	s.note("literal of ", Text.size(), " digits for ", name);
	s.nontrivial();
	PBT_CHECK((std::is_same_v<std::remove_cvref_t<decltype(v)>, V>), << "literal of " << Text.size() << " digits for " << name << " has another type");
	PBT_CHECK(is_bytes_of<Text>(reinterpret_cast<const uint8_t *>(v.data()), v.size()), << "literal of " << Text.size() << " digits for " << name << " is " << hex(v.data(), v.size()));
	const V c(Text);
	PBT_CHECK(c == v);
}
template <typename C, unsigned Salt> void add_literals(std::vector<fn> & f) {
#define L(V, SUFFIX, B) \
	f.push_back([](Src & s) { constexpr auto t = digits<B / 4, C, Salt>(); constexpr auto v = cthash::literals::operator""_##SUFFIX<t>(); literal<cthash::V, t>(s, v, #V); });
	L(sha224_value, sha224, 224)
	L(sha256_value, sha256, 256)
	L(sha384_value, sha384, 384)
	L(sha512_value, sha512, 512)
	L(sha512t_value<224>, sha512_224, 224)
	L(sha512t_value<256>, sha512_256, 256)
	L(sha3_224_value, sha3_224, 224)
	L(sha3_256_value, sha3_256, 256)
	L(sha3_384_value, sha3_384, 384)
	L(sha3_512_value, sha3_512, 512)
	L(xxhash32_value, xxh32, 32)
	L(xxhash64_value, xxh64, 64)
#undef L
}
template <typename C, unsigned Salt, size_t... Bytes_> void add_sized_literals(std::vector<fn> & f, std::index_sequence<Bytes_...>) {
	(f.push_back([](Src & s) { constexpr auto t = digits<Bytes_ * 2, C, Salt>(); constexpr auto v = cthash::literals::operator""_shake128<t>(); literal<cthash::shake128_value<Bytes_ * 8>, t>(s, v, "shake128_value"); }), ...);
	(f.push_back([](Src & s) { constexpr auto t = digits<Bytes_ * 2, C, Salt>(); constexpr auto v = cthash::literals::operator""_shake256<t>(); literal<cthash::shake256_value<Bytes_ * 8>, t>(s, v, "shake256_value"); }), ...);
	(f.push_back([](Src & s) { constexpr auto t = digits<Bytes_ * 2, C, Salt>(); constexpr auto v = cthash::literals::operator""_hash<t>(); literal<cthash::hash_value<Bytes_>, t>(s, v, "hash_value"); }), ...);
}

#if PART == 0
// ---- conversions
template <typename... Ts> struct types { };
template <typename T> struct wrap { };
struct Facts {
	bool same, converts, assigns;
};
template <typename From, typename To> constexpr Facts facts() {
	return Facts{std::is_same_v<From, To>, std::is_convertible_v<const From &, To>, std::is_assignable_v<To &, const From &>};
}
using all_types = types<cthash::shake128_value<8>, cthash::shake128_value<224>, cthash::shake128_value<256>, cthash::shake128_value<264>, cthash::shake128_value<512>, cthash::shake128_value<4096>,
	cthash::shake256_value<8>, cthash::shake256_value<224>, cthash::shake256_value<256>, cthash::shake256_value<264>, cthash::shake256_value<512>, cthash::shake256_value<4096>,
	cthash::sha512t_value<8>, cthash::sha512t_value<32>, cthash::sha512t_value<64>, cthash::sha512t_value<128>, cthash::sha512t_value<224>, cthash::sha512t_value<232>, cthash::sha512t_value<256>, cthash::sha512t_value<376>, cthash::sha512t_value<512>,
	cthash::sha224_value, cthash::sha256_value, cthash::sha384_value, cthash::sha512_value, cthash::sha3_224_value, cthash::sha3_256_value, cthash::sha3_384_value, cthash::sha3_512_value, cthash::xxhash32_value, cthash::xxhash64_value>;
static const char * const names[] = {"shake128_value<8>", "shake128_value<224>", "shake128_value<256>", "shake128_value<264>", "shake128_value<512>", "shake128_value<4096>",
	"shake256_value<8>", "shake256_value<224>", "shake256_value<256>", "shake256_value<264>", "shake256_value<512>", "shake256_value<4096>",
	"sha512t_value<8>", "sha512t_value<32>", "sha512t_value<64>", "sha512t_value<128>", "sha512t_value<224>", "sha512t_value<232>", "sha512t_value<256>", "sha512t_value<376>", "sha512t_value<512>",
	"sha224_value", "sha256_value", "sha384_value", "sha512_value", "sha3_224_value", "sha3_256_value", "sha3_384_value", "sha3_512_value", "xxhash32_value", "xxhash64_value"};
template <typename... Ts> static void conversions(Src & s, types<Ts...>) {
	constexpr size_t n = sizeof...(Ts);
	static_assert(n == std::size(names));
	const uint64_t k = s.choice(n * n);
	const size_t i = k / n, j = k % n;
	Facts f{};
	auto row = [&]<typename A>(wrap<A>) {
		static constexpr Facts r[] = {facts<A, Ts>()...};
		f = r[j];
	};
	size_t at = 0;
	((at++ == i ? row(wrap<Ts>{}) : void()), ...);
	s.note(names[i], " to ", names[j]);
	s.nontrivial(i != j);
	PBT_CHECK(f.same == (i == j), << names[i] << " and " << names[j] << " are " << (f.same ? "one type" : "two types"));
	PBT_CHECK(f.converts == (i == j), << names[i] << (f.converts ? " converts to " : " does not convert to ") << names[j]);
	PBT_CHECK(f.assigns == (i == j), << names[i] << (f.assigns ? " can be assigned to " : " can not be assigned to ") << names[j]);
}

#endif

std::vector<fn> fns_sha512t();
std::vector<fn> fns_shake();
std::vector<fn> fns_literals();
#if PART == 1
std::vector<fn> fns_sha512t() {
	std::vector<fn> f;
	[&]<size_t... N>(std::index_sequence<N...>) {
		((N + 1 != 48 ? f.push_back([](Src & s) { sha512t_width<N + 1 == 48 ? 8 : unsigned(N + 1) * 8>(s); }) : void()), ...);
	}(std::make_index_sequence<64>{});
	return f;
}
#elif PART == 2
std::vector<fn> fns_shake() {
	std::vector<fn> f;
	[&]<size_t... N>(std::index_sequence<N...>) {
		(f.push_back([](Src & s) { shake_width<cthash::shake128, cthash::shake128_value, N>(s, "shake128"); }), ...);
		(f.push_back([](Src & s) { shake_width<cthash::shake256, cthash::shake256_value, N>(s, "shake256"); }), ...);
	}(std::index_sequence<8, 16, 24, 32, 56, 64, 72, 128, 136, 224, 248, 256, 264, 384, 504, 512, 520, 1024, 1088, 1096, 1344, 1352, 2048, 2056, 2176, 4096, 8192, 8200, 16384>{});
	return f;
}
#elif PART == 3
std::vector<fn> fns_literals() {
	std::vector<fn> f;
	add_literals<char, 1>(f);
	add_literals<char, 2>(f);
	add_literals<char8_t, 3>(f);
	add_literals<char16_t, 4>(f);
	add_literals<char32_t, 5>(f);
	add_literals<wchar_t, 6>(f);
	using sizes = std::index_sequence<1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 28, 31, 32, 33, 34, 48, 63, 64, 65, 67, 127, 128, 129, 136, 168, 200, 256, 257>;
	add_sized_literals<char, 7>(f, sizes{});
	add_sized_literals<wchar_t, 8>(f, std::index_sequence<1, 8, 17, 34, 67, 130>{});
	add_sized_literals<char8_t, 9>(f, std::index_sequence<3, 16, 33, 65>{});
	add_sized_literals<char16_t, 10>(f, std::index_sequence<5, 32, 36, 66>{});
	return f;
}
#else
static std::vector<fn> fns_widths() {
	auto f = fns_sha512t();
	for (auto x: fns_shake()) f.push_back(x);
	return f;
}
void pbt::late_init() {
	auto rnd = [](const char * n, void (*f)(Src &), uint64_t q, uint64_t t) {
		auto & p = add(n, f);
		p.quick = q;
		p.thorough = t;
	};
	rnd("widths", [](Src & s) { static const auto f = fns_widths(); any(s, f); }, 60000, 2000000);
	auto & l = add("literal_types", [](Src & s) { static const auto f = fns_literals(); f[s.choice(f.size())](s); });
	l.systematic = fns_literals().size();
	auto & c = add("conversions", [](Src & s) { conversions(s, all_types{}); });
	c.systematic = std::size(names) * std::size(names);
}
#endif
