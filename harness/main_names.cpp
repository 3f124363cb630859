// a name selects an encoding if and only if it is one of the documented names
#include "cth.hpp"
#include "gen.hpp"
#include "ref_enc.hpp"
#include <list>
#include <string>

using namespace pbt;

// a text of code points, most of them close to a real name
static std::vector<std::string> all_names(const std::vector<EncRef> & refs) {
	std::vector<std::string> all;
	for (auto & e: refs)
		for (auto & n: e.names) all.push_back(n);
	return all;
}
static std::u32string gen_name(Src & s, const std::vector<std::string> & all = all_names(enc_refs())) {
	const auto & base = s.pick(all);
	std::u32string n(base.begin(), base.end());
	static const char32_t odd[] = {U'0', U'6', U'_', U' ', U'\0', U'-', U'a', U'A', U'z', U'=', U':', 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x162, 0x130, 0x1F600, U'\n', U'#', U'>', U'*'};
	const unsigned edits = unsigned(s.weighted({3, 8, 3, 1}));
	for (unsigned i = 0; i < edits; ++i) {
		const size_t at = n.empty() ? 0 : s.below(n.size() + 1);
		switch (s.below(13)) {
		case 0: // exchange case of one character
			if (at < n.size() && n[at] < 128 && isalpha(int(n[at]))) n[at] ^= 0x20;
			break;
		case 1: // of all of them
			for (auto & c: n)
				if (c < 128 && isalpha(int(c))) c ^= 0x20;
			break;
		case 2: n = n.substr(0, at); break;
		case 3: n = n.substr(std::min(at, n.size())); break;
		case 4: n.insert(n.begin() + long(at), s.pick(odd)); break;
		case 5:
			if (at < n.size()) n.erase(n.begin() + long(at));
			break;
		case 6:
			if (at < n.size()) n[at] = s.pick(odd);
			break;
		case 7: { // other name behind or before
			const auto & o = s.pick(all);
			std::u32string w(o.begin(), o.end());
			n = s.below(2) ? n + w : w + n;
			break;
		}
		case 8: n += std::u32string(s.range(1, 40), s.pick(odd)); break;
		case 9: n += std::u32string(s.range(1, 600), U'x'); break;
		case 10: // same low byte (or low 16 bits)
			if (at < n.size()) n[at] += s.below(2) ? 0x100u * char32_t(s.range(1, 0xf)) : 0x10000u;
			break;
		case 11:
			if (at < n.size() && at + 1 < n.size()) std::swap(n[at], n[at + 1]);
			break;
		default: n = n + n; break;
		}
	}
	return n;
}

static const uint8_t sample[7] = {0x00, 0xff, 0x6b, 0xd3, 0x9a, 0x3e, 0xbf};

template <typename Runtime> static std::string sample_by(const Runtime & e) {
	return e.visit([]<typename E>(E) {
		std::string o;
		auto v = std::span<const uint8_t>(sample) | cthash::encode_to<E, char>;
		for (auto i = v.begin(); !(i == v.end()); ++i) o += *i;
		return o;
	});
}
static std::string show(const std::u32string & n) {
	std::string o;
	for (auto c: n) {
		if (c >= 0x20 && c < 0x7f)
			o += char(c);
		else {
			char b[16];
			snprintf(b, sizeof b, "\\x{%x}", unsigned(c));
			o += b;
		}
		if (o.size() > 200) return o + "...";
	}
	return o;
}

static const EncRef * lookup(const std::u32string & n, const std::vector<EncRef> & refs = enc_refs()) {
	std::string a;
	for (auto c: n) {
		if (c > 0x7f) return nullptr;
		a += char(c);
	}
	for (auto & e: refs)
		for (auto & x: e.names)
			if (x == a) return &e;
	return nullptr;
}

template <typename F> static std::string attempt(F && f) {
	try {
		return f();
	} catch (const std::invalid_argument &) {
		return "(rejected)";
	} catch (const std::runtime_error &) { // format_error
		return "(rejected)";
	}
}

static bool representable(const std::u32string & n, size_t width) {
	for (auto c: n)
		if (width == 1 ? c > 0xff : width == 2 ? c > 0xffff : false) return false;
	return true;
}

static void observe(Src & s, const std::u32string & n, const EncRef * e) {
	s.note("name '", show(n), "'");
	s.nontrivial();
	s.label(e ? "known name" : "unknown name");
	if (!e && n.size() > 17) s.label("longer than any name");
	for (auto c: n)
		if (c > 0x7f) {
			s.label("not ascii");
			break;
		}
}

// select_runtime_encoding and runtime_encoding
template <typename CharT> static void select_name(Src & s, const std::u32string & n) {
	std::u32string full = n;
	const auto cut = full.find(U'}');
	const std::u32string upto = full.substr(0, cut);
	std::basic_string<CharT> t(full.begin(), full.end());
	const EncRef * e = lookup(upto);
	std::string want = e ? encode_bytes(*e, sample, sizeof sample) : "(rejected)";
	std::string want64 = want;
	if (upto.empty()) {
		want = encode_bytes(*find_enc("hexdec"), sample, sizeof sample);
		want64 = encode_bytes(*find_enc("base64"), sample, sizeof sample);
	}
	const std::basic_string_view<CharT> v(t);
	auto got = attempt([&] {
		auto r = cthash::select_runtime_encoding(v);
		if constexpr (requires { r.iterator; })
			if (r.iterator != v.begin() + long(upto.size())) fail("selection stopped at position " + std::to_string(r.iterator - v.begin()) + " instead of " + std::to_string(upto.size()));
		return sample_by(r.encoding);
	});
	PBT_CHECK(got == want, << "select_runtime_encoding of '" << show(n) << "' encodes as " << got << " instead of " << want);
	if (s.below(2)) {
		auto got64 = attempt([&] { return sample_by(cthash::select_runtime_encoding<cthash::encoding::base64>(v).encoding); });
		PBT_CHECK(got64 == want64, << "select_runtime_encoding<base64> of '" << show(n) << "' encodes as " << got64 << " instead of " << want64);
	}
}
static void select_prop(Src & s) {
	auto n = gen_name(s);
	if (s.chance(1, 20)) n.clear();
	if (s.chance(1, 4)) { // something behind the end of a replacement field
		n += U'}';
		const unsigned k = unsigned(s.below(5));
		for (unsigned i = 0; i < k; ++i) n += U"}x:{4"[s.below(5)];
		s.label("with end of field");
	}
	observe(s, n, lookup(n.substr(0, n.find(U'}'))));
	const auto w = s.below(4);
	s.note(w == 0 ? " in char" : w == 1 ? " in wchar_t" : w == 2 ? " in char16_t" : " in char32_t");
	if (w == 0 && representable(n, 1)) select_name<char>(s, n);
	if (w == 1) select_name<wchar_t>(s, n);
	if (w == 2 && representable(n, 2)) select_name<char16_t>(s, n);
	if (w == 3) select_name<char32_t>(s, n);
}
static void construct_prop(Src & s) {
	const auto n = gen_name(s);
	if (!representable(n, 1)) return;
	const auto * e = lookup(n);
	observe(s, n, e);
	const std::string t(n.begin(), n.end());
	const std::string want = e ? encode_bytes(*e, sample, sizeof sample) : "(rejected)";
	const auto got = attempt([&] { return sample_by(cthash::runtime_encoding(std::string_view(t))); });
	PBT_CHECK(got == want, << "runtime_encoding of '" << show(n) << "' encodes as " << got << " instead of " << want);
}
template <typename V> static void vformat_value(Src & s, const std::u32string & n, const EncRef * e, const EncRef & def) {
#ifdef __cpp_lib_format
	V v{};
	uint8_t p[sizeof(V)];
	gen_content(s).fill(p, sizeof p);
	memcpy(v.data(), p, sizeof p);
	if (n.empty()) e = &def;
	const std::string want = e ? "<" + encode_bytes(*e, p, sizeof p) + ">" : "(rejected)";
	if (s.below(2) && representable(n, 1)) {
		std::string f = "<{:";
		f += std::string(n.begin(), n.end());
		f += "}>";
		const auto got = attempt([&] { return std::vformat(f, std::make_format_args(v)); });
		PBT_CHECK(got == want, << "format {:" << show(n) << "} gives " << got << " instead of " << want);
	} else {
		s.note(" (wide)");
		std::wstring f = L"<{:";
		f += std::wstring(n.begin(), n.end());
		f += L"}>";
		const auto got = attempt([&] {
			const auto w = std::vformat(f, std::make_wformat_args(v));
			std::string o;
			for (auto c: w) o += char(c);
			return o;
		});
		PBT_CHECK(got == want, << "format L{:" << show(n) << "} gives " << got << " instead of " << want);
	}
#else
	(void)s, (void)n, (void)e, (void)def;
#endif
}
struct tag_b64 {
	static constexpr size_t digest_length = 4;
	using encoding = cthash::encoding::base64;
};
static void vformat_prop(Src & s) {
	auto n = gen_name(s);
	if (n.find_first_of(U"{}") != n.npos) return;
	if (s.chance(1, 20)) n.clear();
	const auto * e = lookup(n);
	observe(s, n, e);
	const auto & hex = *find_enc("hexdec");
	switch (s.below(4)) {
	case 0: vformat_value<cthash::hash_value<3>>(s, n, e, hex); break;
	case 1: vformat_value<cthash::sha256_value>(s, n, e, hex); break;
	case 2: vformat_value<cthash::shake128_value<64>>(s, n, e, hex); break;
	default: vformat_value<cthash::tagged_hash_value<tag_b64>>(s, n, e, *find_enc("base64")); break;
	}
}
// every name which differs in a character from a real one, is one character longer, or is its part
static void near_names(Src & s) {
	std::vector<std::string> all;
	for (auto & e: enc_refs())
		for (auto & n: e.names) all.push_back(n);
	const uint64_t k = s.choice(all.size() * 20 * 256);
	std::string n = all[k % all.size()];
	const uint64_t at = (k / all.size()) % 20, c = k / all.size() / 20;
	if (at < n.size())
		n[at] = char(c);
	else if (at == 19)
		n = c < n.size() ? n.substr(0, c) : n + std::string(c, n.back());
	else
		n += std::string(at - n.size() + 1, char(c));
	if (n.find('}') != n.npos || n.find('{') != n.npos) return;
	std::u32string u;
	for (unsigned char x: n) u += x;
	observe(s, u, lookup(u));
	if (n.empty()) return;
	select_name<char>(s, u);
	const auto * e = lookup(u);
	const std::string want = e ? encode_bytes(*e, sample, sizeof sample) : "(rejected)";
	const auto got = attempt([&] { return sample_by(cthash::runtime_encoding(std::string_view(n))); });
	PBT_CHECK(got == want, << "runtime_encoding of '" << show(u) << "' encodes as " << got << " instead of " << want);
}
// lists of encodings of a user, with own encodings in them
namespace own {
struct a {
	static constexpr std::string_view name = "a";
	static constexpr std::string_view alt_name = "alpha";
	static constexpr char alphabet[] = "xy";
};
struct ab {
	static constexpr std::string_view name = "ab";
	static constexpr char alphabet[] = "pqrs";
};
struct lengthy {
	static constexpr std::string_view name = "a-name-of-an-encoding-which-is-longer-than-those-in-the-library";
	static constexpr std::string_view alt_name = "base64 ";
	static constexpr char alphabet[] = "qwertyuiopasdfgh";
};
struct brief {
	static constexpr std::string_view name = "abcdefghijklmnop";
	static constexpr std::string_view alt_name = "b";
	static constexpr char alphabet[] = "87654321";
	static constexpr char padding = '~';
};
}
template <typename Runtime, typename Default, typename CharT> static void own_list_name(const std::u32string & n, const std::vector<EncRef> & refs, const EncRef & def) {
	const auto by = [](const EncRef & e) {
		auto o = encode_bytes(e, sample, sizeof sample);
		if (std::string_view(e.type) == "brief")
			for (auto & c: o)
				if (c == '=') c = '~';
		return o;
	};
	const auto upto = n.substr(0, n.find(U'}'));
	const auto * e = upto.empty() ? &def : lookup(upto, refs);
	const std::string want = e ? by(*e) : "(rejected)";
	std::basic_string<CharT> t(n.begin(), n.end());
	const std::basic_string_view<CharT> v(t);
	const auto got = attempt([&] {
		auto r = cthash::select_encoding<Runtime, Default>(v);
		if (r.iterator != v.begin() + long(upto.size())) fail("selection stopped at position " + std::to_string(r.iterator - v.begin()) + " instead of " + std::to_string(upto.size()));
		return sample_by(r.encoding);
	});
	PBT_CHECK(got == want, << "selection of '" << show(n) << "' from an own list encodes as " << got << " instead of " << want);
	if constexpr (std::is_same_v<CharT, char>) {
		const auto * x = lookup(n, refs);
		const auto made = attempt([&] { return sample_by(Runtime(v)); });
		PBT_CHECK(made == (x ? by(*x) : "(rejected)"), << "construction of '" << show(n) << "' from an own list encodes as " << made);
	}
}
static void own_lists(Src & s) {
	using namespace cthash::encoding;
	static const EncRef ra{"a", {"a", "alpha"}, "xy", 1, false}, rab{"ab", {"ab"}, "pqrs", 2, false}, rlong{"lengthy", {"a-name-of-an-encoding-which-is-longer-than-those-in-the-library", "base64 "}, "qwertyuiopasdfgh", 4, false}, rbrief{"brief", {"abcdefghijklmnop", "b"}, "87654321", 3, true};
	static const std::vector<EncRef> some{ra, rab, rlong, rbrief, *find_enc("base64"), *find_enc("hexdec")}, one{*find_enc("base64")}, two{rbrief, ra};
	using some_t = cthash::dynamic_encodings<list<own::a, own::ab, own::lengthy, own::brief, base64, base16>>;
	using one_t = cthash::dynamic_encodings<list<base64>>;
	using two_t = cthash::dynamic_encodings<list<own::brief, own::a>>;
	const auto which = s.below(3);
	const auto & refs = which == 0 ? some : which == 1 ? one : two;
	auto n = s.chance(1, 6) ? gen_name(s) : gen_name(s, all_names(refs));
	if (s.chance(1, 20)) n.clear();
	const auto w = s.below(3);
	if (w == 2 && !representable(n, 1)) return;
	const auto plain = n;
	if (s.chance(1, 4)) n += U"}rest";
	observe(s, n, lookup(plain, refs));
	s.note(", list ", which);
	auto go = [&]<typename R, typename D>(R *, D *, const EncRef & d) {
		if (w == 0) own_list_name<R, D, char32_t>(n, refs, d);
		else if (w == 1) own_list_name<R, D, wchar_t>(n, refs, d);
		else own_list_name<R, D, char>(n, refs, d);
	};
	if (which == 0) s.below(2) ? go((some_t *)nullptr, (own::ab *)nullptr, rab) : go((some_t *)nullptr, (base16 *)nullptr, *find_enc("hexdec"));
	else if (which == 1) go((one_t *)nullptr, (base64 *)nullptr, *find_enc("base64"));
	else go((two_t *)nullptr, (own::a *)nullptr, ra);
}
void pbt::late_init() {
	auto rnd = [](const char * n, void (*f)(Src &), uint64_t q, uint64_t t) {
		auto & p = add(n, f);
		p.quick = q;
		p.thorough = t;
	};
	rnd("own_lists", own_lists, 200000, 5000000);
	size_t names = 0;
	for (auto & e: enc_refs()) names += e.names.size();
	add("near_names", near_names).systematic = names * 20 * 256;
	rnd("select_name", select_prop, 400000, 20000000);
	rnd("construct_name", construct_prop, 300000, 20000000);
	rnd("format_name", vformat_prop, 300000, 10000000);
}
