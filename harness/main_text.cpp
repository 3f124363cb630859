// every way to turn a digest into text gives the same text, which is the reference encoding of its bytes
#pragma GCC diagnostic ignored "-Wunused-function"
#include "cth.hpp"
#include "gen.hpp"
#include "ref_enc.hpp"
#include <iomanip>
#include <sstream>
#include <string>

using namespace pbt;

template <typename CharT> std::basic_string<CharT> widen(const std::string & s) {
	return std::basic_string<CharT>(s.begin(), s.end());
}
template <typename S> std::string show(const S & s) {
	std::string o;
	for (auto c: s) o += uint64_t(c) < 0x7f && uint64_t(c) >= 0x20 ? char(c) : '?';
	return o;
}
#define SAME(got, want, how) \
	do { \
		const auto got_v = got; \
		const auto want_v = want; \
		if (!std::equal(got_v.begin(), got_v.end(), want_v.begin(), want_v.end())) fail(std::string(how) + " gives '" + show(got_v) + "' instead of '" + show(want_v) + "'"); \
	} while (0)

template <typename F> std::basic_string<typename F::value_type> view_of(const F & f) {
	return std::basic_string<typename F::value_type>(f.data(), f.size());
}

// user's own tags, with and without default encoding
struct tag_b64 {
	static constexpr size_t digest_length = 10;
	using encoding = cthash::encoding::base64;
};
struct tag_b32 {
	static constexpr size_t digest_length_bit = 136;
	using encoding = cthash::encoding::base32_no_padding;
};
struct tag_upper {
	static constexpr size_t digest_length = 5;
	using encoding = cthash::encoding::base16_uppercase;
};
struct tag_plain {
	static constexpr size_t digest_length = 6;
};
struct tag_zb32: tag_plain {
	using encoding = cthash::encoding::z_base32;
};

template <typename V> V value_of(const uint8_t * p) {
	V v{};
	memcpy(v.data(), p, v.size());
	return v;
}

template <typename Enc, typename CharT, typename V> void by_encoding(Src & s, const V & v, const EncRef & e, const uint8_t * p) {
	const auto text = encode_bytes(e, p, sizeof(V));
	const auto want = widen<CharT>(text);
	SAME((to_string<Enc, CharT>(v)), want, "to_string<encoding>");
	const auto fixed = to_fixed_string<Enc, CharT>(v);
	SAME(view_of(fixed), want, "to_fixed_string<encoding>");
	PBT_CHECK(fixed.size() == want.size());
	if (fixed == std::basic_string_view<CharT>(want)) {
	} else
		fail("fixed string isn't equal to its text");
	if constexpr (requires { fixed == want.c_str(); }) PBT_CHECK((fixed == want.c_str()), << "fixed string isn't equal to its zero-terminated text");
	if constexpr (requires { std::span<const CharT>(fixed); }) {
		const auto sp = std::span<const CharT>(fixed);
		SAME(std::basic_string<CharT>(sp.begin(), sp.end()), want, "span of to_fixed_string");
	}
	if (!want.empty()) {
		// any other text isn't equal
		auto other = want;
		const size_t at = s.below(other.size());
		switch (s.below(4)) {
		case 0: other[at] ^= CharT(1u << s.below(7)); break;
		case 1: other.pop_back(); break;
		case 2: other += other[0]; break;
		default: other.resize(at); break;
		}
		s.note(" other at ", at);
		PBT_CHECK(!(fixed == std::basic_string_view<CharT>(other)), << "a fixed string is equal to another text");
		PBT_CHECK((fixed != std::basic_string_view<CharT>(other)));
		if constexpr (requires { fixed == other.c_str(); })
			if (other.find(CharT(0)) == other.npos) PBT_CHECK(!(fixed == other.c_str()), << "a fixed string is equal to another zero-terminated text");
		auto changed = fixed;
		PBT_CHECK((changed == fixed));
		changed[at] ^= CharT(1);
		PBT_CHECK(!(changed == fixed), << "fixed strings which differ at " << at << " are equal");
	}
	std::basic_string<CharT> it;
	auto view = v | cthash::encode_to<Enc, CharT>;
	for (auto i = view.begin(); !(i == view.end()); ++i) it += *i;
	SAME(it, want, "encode_to view");
	if constexpr (std::is_same_v<CharT, char> || std::is_same_v<CharT, wchar_t>) {
		std::basic_ostringstream<CharT> o;
		auto & r = v.template print_into<Enc>(o);
		PBT_CHECK(&r == &o);
		SAME(o.str(), want, "print_into<encoding>");
		if (s.below(2)) {
			v.template print_into<Enc>(o) << CharT('/');
			SAME(o.str(), (want + want + CharT('/')), "print_into<encoding> twice");
		}
	}
}

template <typename Def, typename CharT, typename V> void by_default(Src & s, const V & v, const EncRef & e, const uint8_t * p) {
	const auto want = widen<CharT>(encode_bytes(e, p, sizeof(V)));
	if constexpr (std::is_same_v<CharT, char>) {
		SAME(to_string(v), want, "to_string");
		SAME(view_of(to_fixed_string(v)), want, "to_fixed_string");
	}
	if constexpr (std::is_same_v<CharT, char> || std::is_same_v<CharT, wchar_t>) {
		{
			std::basic_ostringstream<CharT> o;
			o << v;
			SAME(o.str(), want, "operator<<");
		}
		{
			std::basic_ostringstream<CharT> o;
			if (s.below(2)) o << std::hex << std::uppercase << std::showbase << std::setfill(CharT('*'));
			o << 7 << CharT(' ') << v << CharT('|') << v << CharT(' ') << 8;
			const auto z = o.str();
			const auto from = z.find(CharT(' ')), to = z.rfind(CharT(' '));
			SAME(z.substr(from + 1, to - from - 1), (want + CharT('|') + want), "operator<< in a sequence");
		}
		{
			std::basic_ostringstream<CharT> o;
			v.print_into(o);
			SAME(o.str(), want, "print_into");
		}
	}
}

// std::format and its relatives, for a name of encoding known in compile time
#define LITERAL(c, x) ([] { if constexpr (std::is_same_v<c, char>) return std::string_view(x); else return std::wstring_view(L##x); }())
template <typename CharT, typename V> void by_format(Src & s, const V & v, const EncRef & def, const uint8_t * p) {
#ifdef __cpp_lib_format
	using sv = std::basic_string_view<CharT>;
	const auto plain = widen<CharT>(encode_bytes(def, p, sizeof(V)));
	auto fmt = [&](sv f) {
		if constexpr (std::is_same_v<CharT, char>)
			return std::vformat(f, std::make_format_args(v));
		else
			return std::vformat(f, std::make_wformat_args(v));
	};
	SAME(fmt(LITERAL(CharT, "{}")), plain, "format {}");
	SAME(fmt(LITERAL(CharT, "{:}")), plain, "format {:}");
	const auto & e = s.pick(enc_refs());
	const auto & name = s.pick(e.names);
	s.note(" format ", name);
	const auto text = widen<CharT>(encode_bytes(e, p, sizeof(V)));
	const auto n = widen<CharT>(name);
	SAME(fmt(std::basic_string<CharT>(LITERAL(CharT, "{:")) + n + CharT('}')), text, "format {:" + name + "}");
	std::basic_string<CharT> composite(LITERAL(CharT, "<{0}{{{0:"));
	composite += n;
	composite += LITERAL(CharT, "}}} {0:}>");
	SAME(fmt(composite), (std::basic_string<CharT>(LITERAL(CharT, "<")) + plain + CharT('{') + text + std::basic_string<CharT>(LITERAL(CharT, "} ")) + plain + CharT('>')), "composite format");
	// checked in compile time
	auto fixed = [&](const auto & got, const char * nm, const char * how) { SAME(got, widen<CharT>(encode_bytes(*find_enc(nm), p, sizeof(V))), how); };
	if constexpr (std::is_same_v<CharT, char>) {
		SAME(std::format("{}", v), plain, "std::format {}");
		switch (s.below(6)) {
		case 0: fixed(std::format("{:base64}", v), "base64", "std::format {:base64}"); break;
		case 1: fixed(std::format("{:base64_no_padding}", v), "base64_no_padding", "std::format {:base64_no_padding}"); break;
		case 2: fixed(std::format("{:zbase32}", v), "zbase32", "std::format {:zbase32}"); break;
		case 3: fixed(std::format("{:HEXDEC}", v), "HEXDEC", "std::format {:HEXDEC}"); break;
		case 4: fixed(std::format("{:octal}", v), "octal", "std::format {:octal}"); break;
		default: fixed(std::format("{:binary}", v), "binary", "std::format {:binary}"); break;
		}
		std::string out = "x";
		std::format_to(std::back_inserter(out), "{:base4}", v);
		fixed(out.substr(1), "base4", "format_to");
		PBT_CHECK(std::formatted_size("{:base32}", v) == encode_bytes(*find_enc("base32"), p, sizeof(V)).size());
		char buf[2000];
		const size_t limit = s.below(80);
		memset(buf, '#', sizeof buf);
		const auto res = std::format_to_n(buf, long(limit), "{}", v);
		PBT_CHECK(size_t(res.size) == plain.size());
		const size_t written = std::min(limit, plain.size());
		SAME(std::string(buf, written), plain.substr(0, written), "format_to_n");
		PBT_CHECK(buf[written] == '#', << "format_to_n wrote more than " << limit);
	} else {
		SAME(std::format(L"{}", v), plain, "std::format L{}");
		switch (s.below(3)) {
		case 0: fixed(std::format(L"{:base64url}", v), "base64url", "std::format L{:base64url}"); break;
		case 1: fixed(std::format(L"{:base8}", v), "base8", "std::format L{:base8}"); break;
		default: fixed(std::format(L"{:BASE16}", v), "BASE16", "std::format L{:BASE16}"); break;
		}
	}
#endif
}

template <typename F> void any_encoding(Src & s, F && f) {
	namespace en = cthash::encoding;
	auto one = [&]<typename E>(E, const char * n) {
		for (auto & e: enc_refs())
			if (std::string_view(e.type) == n) {
				s.note(" ", n);
				f(E{}, e);
				return;
			}
		abort();
	};
	switch (s.below(11)) {
	case 0: one(en::base16{}, "base16"); break;
	case 1: one(en::base64{}, "base64"); break;
	case 2: one(en::base64_no_padding{}, "base64_no_padding"); break;
	case 3: one(en::base64url{}, "base64url"); break;
	case 4: one(en::base32{}, "base32"); break;
	case 5: one(en::base32_no_padding{}, "base32_no_padding"); break;
	case 6: one(en::z_base32{}, "z_base32"); break;
	case 7: one(en::base16_uppercase{}, "base16_uppercase"); break;
	case 8: one(en::base8{}, "base8"); break;
	case 9: one(en::base4{}, "base4"); break;
	default: one(en::base2{}, "base2"); break;
	}
}

static const EncRef & ref_named(const char * n) { return *find_enc(n); }

template <typename V> void fill_value(Src & s, const char * name, uint8_t * p) {
	gen_content(s).fill(p, sizeof(V));
	s.note(name, " ", hex(p, sizeof(V), 64));
	s.nontrivial();
	s.label(name);
}

template <typename V, typename... CharTs> void encodings_of(Src & s, const char * name) {
	uint8_t p[sizeof(V)];
	fill_value<V>(s, name, p);
	const V v = value_of<V>(p);
	any_encoding(s, [&]<typename E>(E, const EncRef & e) {
		const auto k = s.below(sizeof...(CharTs));
		size_t i = 0;
		((i++ == k ? by_encoding<E, CharTs>(s, v, e, p) : void()), ...);
	});
}
template <typename V> void defaults_of(Src & s, const char * name, const char * def) {
	uint8_t p[sizeof(V)];
	fill_value<V>(s, name, p);
	const V v = value_of<V>(p);
	const auto & e = ref_named(def);
	if (s.below(2)) {
		by_default<void, char>(s, v, e, p);
		by_format<char>(s, v, e, p);
	} else {
		s.note(" (wide)");
		by_default<void, wchar_t>(s, v, e, p);
		by_format<wchar_t>(s, v, e, p);
	}
}

using fn = void (*)(Src &);
std::vector<fn> text_enc_a();
std::vector<fn> text_enc_b();
std::vector<fn> text_enc_c();
std::vector<fn> text_defaults();
std::vector<fn> text_defaults2();
#define ENC(V, ...) f.push_back([](Src & s) { encodings_of<V, __VA_ARGS__>(s, #V); });
#define DEF(V, E) f.push_back([](Src & s) { defaults_of<V>(s, #V, E); });
using namespace cthash;
#if PART == 0
std::vector<fn> text_enc_a() {
	std::vector<fn> f;
	ENC(hash_value<1>, char)
	ENC(hash_value<5>, char)
	ENC(hash_value<32>, char, wchar_t)
	ENC(sha224_value, char)
	ENC(sha256_value, char)
	ENC(xxhash32_value, char)
	return f;
}
#elif PART == 1
std::vector<fn> text_enc_b() {
	std::vector<fn> f;
	ENC(hash_value<3>, char8_t, char16_t, char32_t)
	ENC(tagged_hash_value<tag_b64>, char, wchar_t)
	ENC(tagged_hash_value<tag_plain>, char)
	return f;
}
#elif PART == 2
std::vector<fn> text_enc_c() {
	std::vector<fn> f;
	ENC(shake128_value<200>, char)
	ENC(sha512t_value<104>, char)
	ENC(sha3_512_value, char)
	ENC(sha384_value, wchar_t)
	ENC(xxhash64_value, char)
	return f;
}
#elif PART == 3
std::vector<fn> text_defaults() {
	std::vector<fn> f;
	DEF(hash_value<1>, "hexdec")
	DEF(hash_value<4>, "hexdec")
	DEF(hash_value<64>, "hexdec")
	DEF(sha224_value, "hexdec")
	DEF(sha256_value, "hexdec")
	DEF(sha384_value, "hexdec")
	DEF(sha512_value, "hexdec")
	DEF(sha512t_value<224>, "hexdec")
	DEF(sha512t_value<256>, "hexdec")
	DEF(sha512t_value<40>, "hexdec")
	DEF(sha3_224_value, "hexdec")
	DEF(sha3_256_value, "hexdec")
	return f;
}
#else
std::vector<fn> text_defaults2() {
	std::vector<fn> f;
	DEF(sha3_384_value, "hexdec")
	DEF(sha3_512_value, "hexdec")
	DEF(xxhash32_value, "hexdec")
	DEF(xxhash64_value, "hexdec")
	DEF(shake128_value<128>, "hexdec")
	DEF(shake256_value<8>, "hexdec")
	DEF(tagged_hash_value<tag_b64>, "base64")
	DEF(tagged_hash_value<tag_b32>, "base32_no_padding")
	DEF(tagged_hash_value<tag_upper>, "HEXDEC")
	DEF(tagged_hash_value<tag_plain>, "hexdec")
	DEF(tagged_hash_value<tag_zb32>, "z_base32")
	return f;
}
static void any(Src & s, const std::vector<fn> & f) {
	f[s.below(f.size())](s);
}
void pbt::late_init() {
	auto rnd = [](const char * n, void (*f)(Src &), uint64_t q, uint64_t t) {
		auto & p = add(n, f);
		p.quick = q;
		p.thorough = t;
	};
	rnd("text_enc_a", [](Src & s) { static const auto f = text_enc_a(); any(s, f); }, 100000, 3000000);
	rnd("text_enc_b", [](Src & s) { static const auto f = text_enc_b(); any(s, f); }, 100000, 3000000);
	rnd("text_enc_c", [](Src & s) { static const auto f = text_enc_c(); any(s, f); }, 100000, 3000000);
	rnd("text_defaults", [](Src & s) { static const auto f = text_defaults(); any(s, f); }, 60000, 2000000);
	rnd("text_defaults2", [](Src & s) { static const auto f = text_defaults2(); any(s, f); }, 60000, 2000000);
}
#endif
