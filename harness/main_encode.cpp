// every encoding, over every kind of range
#include "cth.hpp"
#include "gen.hpp"
#include "ref_enc.hpp"
#include <array>
#include <bit>
#include <deque>
#include <forward_list>
#include <list>
#include <ranges>
#include <set>
#include <span>
#include <sstream>

using namespace pbt;

template <typename E> constexpr unsigned bits_of = unsigned(std::bit_width(std::size(E::alphabet) - 1u)) - 1u;

template <typename CharT> std::string narrow(const std::basic_string<CharT> & s) {
	std::string o;
	for (auto c: s) {
		if (sizeof(CharT) > 1 && uint64_t(c) > 0x7f) fail("encoded character out of ASCII");
		o += char(c);
	}
	return o;
}

template <typename V> std::string collect(V && v, size_t limit) {
	std::string o;
	auto it = v.begin();
	const auto e = v.end();
	for (; !(it == e); ++it) {
		o += char(*it);
		if (o.size() > limit + 16) fail("encoded text is too long: " + o);
	}
	return o;
}

// one view over a range
template <typename Enc, typename CharT, typename R> void check_view(Src & s, R && range, const std::string & want) {
	auto view = std::forward<R>(range) | cthash::encode_to<Enc, CharT>;
	using view_t = decltype(view);
	// some ranges (filter_view) can't be iterated when they are const
	constexpr bool const_iterable = std::ranges::input_range<const std::remove_reference_t<R> &> || std::is_lvalue_reference_v<R>;
	std::conditional_t<const_iterable, const view_t, view_t> & cview = view;
	const unsigned routes = unsigned(s.below(64));
	auto eq = [&](const std::string & got, const char * how) { PBT_CHECK(got == want, << how << " gives '" << got << "' instead of '" << want << "'"); };
	eq(collect(view, want.size()), "iteration");
	if (routes & 1) eq(collect(cview, want.size()), "iteration of const view");
	if (routes & 2) eq(collect(view, want.size()), "second iteration");
	if constexpr (requires { cview.size(); }) {
		PBT_CHECK(cview.size() == want.size(), << "size() is " << cview.size() << " but text has " << want.size() << " characters");
		PBT_CHECK(std::ranges::size(view) == want.size());
		PBT_CHECK((std::ranges::empty(view)) == want.empty());
		if constexpr (const_iterable)
			if (routes & 4) eq(narrow(cview.to_string()), "to_string()");
	}
	if (routes & 8) {
		// iterators are independent: two of them advanced in lockstep, one of them late
		auto a = cview.begin();
		auto b = a;
		std::string first, second;
		for (; !(a == cview.end()); ++a) {
			first += char(*a);
			if (first.size() > want.size() + 16) break;
			if (first.size() > 3) {
				auto old = b++;
				if (char(*old) != want[second.size()]) fail("post-increment returned a wrong position");
				second += char(*old);
			}
		}
		eq(first, "iteration with a copied iterator");
		for (; !(b == cview.end()); ++b) {
			second += char(*b);
			if (second.size() > want.size() + 16) break;
		}
		eq(second, "the copied iterator");
	}
	if (routes & 16) {
		std::basic_string<CharT> out;
		std::ranges::copy(view, std::back_inserter(out));
		eq(narrow(out), "ranges::copy");
		const auto dist = std::ranges::distance(view.begin(), view.end());
		PBT_CHECK(size_t(dist) == want.size(), << "distance is " << dist);
	}
	if (routes & 32) {
		// an iterator in use takes over the position of another one
		const size_t len = std::min<size_t>(want.size(), 40);
		const size_t from = s.below(3) ? s.below(len + 1) : len == want.size() ? len : 0, to = s.below(3) ? s.below(len + 1) : 0;
		auto at = [&](size_t k) {
			auto it = cview.begin();
			for (; k; --k) ++it;
			return it;
		};
		auto rest = [&](auto it, const char * how) {
			std::string got;
			for (; !(it == cview.end()); ++it) {
				got += char(*it);
				if (got.size() > want.size() + 16) break;
			}
			const auto w = want.substr(to);
			PBT_CHECK(got == w, << "from the position " << to << ", after " << how << " over the position " << from << ", iteration gives '" << got << "' instead of '" << w << "'");
		};
		const auto target = at(to);
		auto a = at(from);
		a = target;
		rest(a, "assignment");
		auto b = at(from);
		b = at(to);
		rest(b, "move assignment");
		auto & same = b;
		b = same;
		rest(b, "self assignment");
		auto c = at(from), d = at(to);
		std::ranges::swap(c, d);
		rest(c, "swap");
		rest(target, "copies of the iterator");
		if constexpr (std::equality_comparable<decltype(target)>) PBT_CHECK((at(from) == target) == (from == to), << "iterators at positions " << from << " and " << to << " compare wrong");
	}
	auto moved = view_t(view);
	eq(collect(moved, want.size()), "iteration of a copied view");
	if constexpr (const_iterable && std::is_copy_assignable_v<view_t>) {
		auto other = view_t(view);
		(void)collect(other, want.size());
		other = view;
		eq(collect(other, want.size()), "iteration of an assigned view");
	}
}

// ranges of bytes
template <bool Second, typename Enc, typename CharT, size_t... Ns> void over_bytes(Src & s, const EncRef & e, std::index_sequence<Ns...>) {
	const unsigned kind = unsigned(s.below(8)) + (Second ? 8u : 0u);
	static const size_t fixed[] = {Ns...};
	size_t n = s.weighted({3, 3, 1}) == 0 ? s.below(13) : s.below(70);
	if (s.chance(1, 50)) n = s.below(3000);
	if (kind == 12 || kind == 13) n = s.pick(fixed);
	const auto c = gen_content(s);
	Bytes m(n);
	c.fill(m.data(), n);
	const auto want = encode_bytes(e, m.data(), n);
	static const char * kinds[] = {"vector<unsigned char>&", "const vector<unsigned char>&", "vector<unsigned char>&&", "span<const byte>", "string_view", "string", "list<unsigned char>", "forward_list<unsigned char>", "deque<byte>", "vector<signed char>", "vector<int8_t>", "transform|iota", "array", "C array", "reverse", "u8string"};
	s.note(e.type, "<", sizeof(CharT), "> of ", kinds[kind], "[", n, "] ", hex(m.data(), n, 24));
	s.nontrivial(n > 0);
	s.label(kinds[kind]);
	s.label((n * 8) % e.bits == 0 ? "whole digits" : "partial last digit");
	if (n && e.padded && want.back() == '=') s.label("padding");
	auto ch = reinterpret_cast<const char *>(m.data());
	if constexpr (!Second) switch (kind) {
	case 0: check_view<Enc, CharT>(s, m, want); break;
	case 1: check_view<Enc, CharT>(s, std::as_const(m), want); break;
	case 2: check_view<Enc, CharT>(s, Bytes(m), want); break;
	case 3: check_view<Enc, CharT>(s, std::as_bytes(std::span(m)), want); break;
	case 4: check_view<Enc, CharT>(s, std::string_view(ch, n), want); break;
	case 5: check_view<Enc, CharT>(s, std::string(ch, n), want); break;
	case 6: {
		std::list<unsigned char> l(m.begin(), m.end());
		check_view<Enc, CharT>(s, l, want);
		break;
	}
	case 7: {
		std::forward_list<unsigned char> l(m.begin(), m.end());
		check_view<Enc, CharT>(s, l, want);
		break;
	}
	}
	else switch (kind) {
	case 8: {
		std::deque<std::byte> l;
		for (auto b: m) l.push_back(std::byte(b));
		check_view<Enc, CharT>(s, l, want);
		break;
	}
	case 9: {
		std::vector<signed char> l(m.begin(), m.end());
		check_view<Enc, CharT>(s, l, want);
		break;
	}
	case 10: {
		const std::vector<int8_t> l(m.begin(), m.end());
		check_view<Enc, CharT>(s, l, want);
		break;
	}
	case 11: {
		auto r = std::views::iota(0, int(n)) | std::views::transform([&m](int i) { return m[size_t(i)]; });
		check_view<Enc, CharT>(s, r, want);
		break;
	}
	case 12: {
		bool done = false;
		auto one = [&]<size_t N>(std::index_sequence<N>) {
			std::array<std::byte, N> a;
			memcpy(a.data(), m.data(), N);
			check_view<Enc, CharT>(s, a, want);
			done = true;
		};
		((n == Ns && !done ? one(std::index_sequence<Ns>{}) : void()), ...);
		break;
	}
	case 13: {
		bool done = false;
		auto one = [&]<size_t N>(std::index_sequence<N>) {
			unsigned char a[N];
			memcpy(a, m.data(), N);
			check_view<Enc, CharT, unsigned char(&)[N]>(s, a, want);
			done = true;
		};
		((n == Ns && !done ? one(std::index_sequence<Ns>{}) : void()), ...);
		break;
	}
	case 14: {
		Bytes b(m.rbegin(), m.rend());
		check_view<Enc, CharT>(s, b | std::views::reverse, want);
		break;
	}
	default: check_view<Enc, CharT>(s, std::u8string(reinterpret_cast<const char8_t *>(ch), n), want);
	}
}

// ranges of wider integers: each contributes its bits, most significant first
template <typename Enc, typename T> void over_wide(Src & s, const EncRef & e) {
	const size_t n = s.below(12);
	std::vector<T> v;
	std::vector<uint64_t> u;
	static const uint64_t special[] = {0, 1, ~0ull, 0x8000800080008000ull, 0x80ull, 0x00ff00ff00ff00ffull};
	for (size_t i = 0; i < n; ++i) {
		const uint64_t x = s.below(3) == 0 ? s.pick(special) : s.u64();
		v.push_back(static_cast<T>(x));
		u.push_back(static_cast<uint64_t>(static_cast<std::make_unsigned_t<T>>(static_cast<T>(x))));
	}
	s.note(e.type, " of ", n, " integers of ", sizeof(T), " bytes:");
	for (auto x: u) s.note(" ", x);
	s.nontrivial(n > 0);
	s.label("wide integers");
	const auto want = encode_bits(e, to_bits(u.data(), n, sizeof(T) * 8));
	check_view<Enc, char>(s, v, want);
}

// prepared objects (base64_encode, ...) are the same encoders
template <typename Action, typename Enc> void named_action(Src & s, const EncRef & e, Action a) {
	Bytes m(s.below(20));
	gen_content(s).fill(m.data(), m.size());
	const auto want = encode_bytes(e, m.data(), m.size());
	s.note(e.type, " by named object of ", hex(m.data(), m.size()));
	s.nontrivial(!m.empty());
	PBT_CHECK(collect(m | a, want.size()) == want);
	PBT_CHECK(collect(a(m), want.size()) == want);
	std::ostringstream o;
	o << (m | a);
	PBT_CHECK(o.str() == want, << "operator<< wrote '" << o.str() << "' instead of '" << want << "'");
#ifdef __cpp_lib_format
	const auto f = std::format("<{}>", m | a);
	PBT_CHECK(f == "<" + want + ">", << "format gives '" << f << "' instead of '<" << want << ">'");
	const auto v = a(m);
	PBT_CHECK(std::format("{}", v) == want);
#endif
}

template <typename Enc> void streams(Src & s, const EncRef & e) {
	Bytes m(s.below(20));
	gen_content(s).fill(m.data(), m.size());
	const auto want = encode_bytes(e, m.data(), m.size());
	s.note(e.type, " into wide stream of ", hex(m.data(), m.size()));
	s.nontrivial(!m.empty());
	std::wostringstream o;
	o << (m | cthash::encode_to<Enc, wchar_t>);
	PBT_CHECK(narrow(o.str()) == want);
#ifdef __cpp_lib_format
	PBT_CHECK(narrow(std::format(L"{}", m | cthash::encode_to<Enc, wchar_t>)) == want);
#endif
}

static const EncRef & ref_of(std::string_view type) {
	for (auto & e: enc_refs())
		if (type == e.type) return e;
	abort();
}

template <typename Enc> struct tag_t {
	using type = Enc;
};

template <typename F> void dispatch(uint64_t i, F && f) {
	namespace en = cthash::encoding;
	switch (i) {
	case 0: f(tag_t<en::base64>{}, ref_of("base64")); break;
	case 1: f(tag_t<en::base64_no_padding>{}, ref_of("base64_no_padding")); break;
	case 2: f(tag_t<en::base64url>{}, ref_of("base64url")); break;
	case 3: f(tag_t<en::base32>{}, ref_of("base32")); break;
	case 4: f(tag_t<en::base32_no_padding>{}, ref_of("base32_no_padding")); break;
	case 5: f(tag_t<en::z_base32>{}, ref_of("z_base32")); break;
	case 6: f(tag_t<en::base16>{}, ref_of("base16")); break;
	case 7: f(tag_t<en::base16_uppercase>{}, ref_of("base16_uppercase")); break;
	case 8: f(tag_t<en::base8>{}, ref_of("base8")); break;
	case 9: f(tag_t<en::base4>{}, ref_of("base4")); break;
	default: f(tag_t<en::base2>{}, ref_of("base2")); break;
	}
}

// PART selects a part of the instantiations, so they can be compiled in parallel
void enc_ranges_a1(Src & s);
void enc_ranges_a2(Src & s);
void enc_ranges_b1(Src & s);
void enc_ranges_b2(Src & s);
void enc_bytes_wide_char(Src & s);
void enc_wide(Src & s);
void enc_named(Src & s);
void enc_own(Src & s);
void enc_views_a(Src & s);
void enc_views_b(Src & s);
void enc_long(Src & s);

#ifndef FIXED
#define FIXED 1, 5, 32
#endif

#if PART == 0
// HALF 0: encodings 0-5, HALF 1: encodings 6-10; KINDS: half of the kinds of ranges
#if HALF == 0 && KINDS == 0
#define NAME enc_ranges_a1
#elif HALF == 0 && KINDS == 1
#define NAME enc_ranges_a2
#elif HALF == 1 && KINDS == 0
#define NAME enc_ranges_b1
#else
#define NAME enc_ranges_b2
#endif
void NAME(Src & s) {
	dispatch(HALF == 0 ? s.range(0, 5) : s.range(6, 10), [&]<typename E>(tag_t<E>, const EncRef & e) {
		constexpr bool first = bits_of<E> >= 5;
		if constexpr (first == (HALF == 0)) over_bytes<KINDS == 1, E, char>(s, e, std::index_sequence<FIXED>{});
	});
}
#elif PART == 1
void enc_bytes_wide_char(Src & s) {
	const auto k = s.below(4);
	dispatch(s.below(11), [&]<typename E>(tag_t<E>, const EncRef & e) {
		Bytes m(s.below(40));
		gen_content(s).fill(m.data(), m.size());
		const auto want = encode_bytes(e, m.data(), m.size());
		s.note(e.type, " in characters of type ", k, " of ", hex(m.data(), m.size()));
		s.nontrivial(!m.empty());
		switch (k) {
		case 0: check_view<E, wchar_t>(s, m, want); break;
		case 1: check_view<E, char8_t>(s, m, want); break;
		case 2: check_view<E, char16_t>(s, m, want); break;
		default: check_view<E, char32_t>(s, m, want); break;
		}
	});
}
#elif PART == 2
void enc_wide(Src & s) {
	dispatch(s.range(1, 10), [&]<typename E>(tag_t<E>, const EncRef & e) {
		constexpr unsigned b = bits_of<E>;
		if constexpr (requires { E::padding; } || b == 5) {
			over_wide<cthash::encoding::base64url, uint16_t>(s, ref_of("base64url"));
		} else if constexpr (b == 6) {
			s.below(2) ? over_wide<E, uint16_t>(s, e) : over_wide<E, int16_t>(s, e);
		} else {
			switch (s.below(6)) {
			case 0: over_wide<E, uint16_t>(s, e); break;
			case 1: over_wide<E, int16_t>(s, e); break;
			case 2: over_wide<E, uint32_t>(s, e); break;
			case 3: over_wide<E, int32_t>(s, e); break;
			case 4: over_wide<E, uint64_t>(s, e); break;
			default: over_wide<E, int64_t>(s, e); break;
			}
		}
	});
}
#elif PART == 4
// user's own encodings: any alphabet of 2, 4, .. 256 characters, with or without padding
namespace own {
struct e64p { static constexpr char alphabet[] = "zyxwvutsrqponmlkjihgfedcbaZYXWVUTSRQPONMLKJIHGFEDCBA9876543210#%"; static constexpr char padding = '.'; };
struct e32 { static constexpr char alphabet[] = "0123456789ABCDEFGHIJKLMNOPQRSTUV"; };
struct e16p { static constexpr char alphabet[] = "qwertyuiopasdfgh"; static constexpr char padding = '='; };
struct e8 { static constexpr char alphabet[] = "hgfedcba"; };
struct e2p { static constexpr char alphabet[] = ".x"; static constexpr char padding = '_'; };
struct e128p { static constexpr char alphabet[] = "\125\124\127\126\121\120\123\122\135\134\137\136\131\130\133\132\105\104\107\106\101\100\103\102\115\114\117\116\111\110\113\112\165\164\167\166\161\160\163\162\175\174\177\176\171\170\173\172\145\144\147\146\141\140\143\142\155\154\157\156\151\150\153\152\025\024\027\026\021\020\023\022\035\034\037\036\031\030\033\032\005\004\007\006\001\000\003\002\015\014\017\016\011\010\013\012\065\064\067\066\061\060\063\062\075\074\077\076\071\070\073\072\045\044\047\046\041\040\043\042\055\054\057\056\051\050\053\052"; static constexpr char padding = '='; };
struct e128 { static constexpr char alphabet[] = "\052\053\050\051\056\057\054\055\042\043\040\041\046\047\044\045\072\073\070\071\076\077\074\075\062\063\060\061\066\067\064\065\012\013\010\011\016\017\014\015\002\003\000\001\006\007\004\005\032\033\030\031\036\037\034\035\022\023\020\021\026\027\024\025\152\153\150\151\156\157\154\155\142\143\140\141\146\147\144\145\172\173\170\171\176\177\174\175\162\163\160\161\166\167\164\165\112\113\110\111\116\117\114\115\102\103\100\101\106\107\104\105\132\133\130\131\136\137\134\135\122\123\120\121\126\127\124\125"; };
struct e256 { static constexpr char alphabet[] = "\003\012\021\030\037\046\055\064\073\102\111\120\127\136\145\154\163\172\201\210\217\226\235\244\253\262\271\300\307\316\325\334\343\352\361\370\377\006\015\024\033\042\051\060\067\076\105\114\123\132\141\150\157\166\175\204\213\222\231\240\247\256\265\274\303\312\321\330\337\346\355\364\373\002\011\020\027\036\045\054\063\072\101\110\117\126\135\144\153\162\171\200\207\216\225\234\243\252\261\270\277\306\315\324\333\342\351\360\367\376\005\014\023\032\041\050\057\066\075\104\113\122\131\140\147\156\165\174\203\212\221\230\237\246\255\264\273\302\311\320\327\336\345\354\363\372\001\010\017\026\035\044\053\062\071\100\107\116\125\134\143\152\161\170\177\206\215\224\233\242\251\260\267\276\305\314\323\332\341\350\357\366\375\004\013\022\031\040\047\056\065\074\103\112\121\130\137\146\155\164\173\202\211\220\227\236\245\254\263\272\301\310\317\326\335\344\353\362\371\000\007\016\025\034\043\052\061\070\077\106\115\124\133\142\151\160\167\176\205\214\223\232\241\250\257\266\275\304\313\322\331\340\347\356\365\374"; };
}
template <typename E, typename CharT = char> static void own_one(Src & s, const char * name) {
	EncRef e{name, {}, std::string(E::alphabet, std::size(E::alphabet) - 1), bits_of<E>, false};
	if constexpr (requires { E::padding; }) e.padded = true;
	Bytes m(s.below(30));
	gen_content(s).fill(m.data(), m.size());
	auto want = encode_bytes(e, m.data(), m.size());
	if constexpr (requires { E::padding; }) {
		// padding is never an input digit's position, so it is all after the last digit
		const size_t digits = (m.size() * 8 + e.bits - 1) / e.bits;
		for (size_t i = digits; i < want.size(); ++i) want[i] = E::padding;
	}
	s.note("own encoding ", name, " of ", hex(m.data(), m.size()));
	s.nontrivial(!m.empty());
	if (s.below(2)) {
		check_view<E, CharT>(s, m, want);
	} else {
		std::list<unsigned char> l(m.begin(), m.end());
		check_view<E, CharT>(s, l, want);
	}
}
void enc_own(Src & s) {
	switch (s.below(9)) {
	case 0: own_one<own::e64p>(s, "own64 padded"); break;
	case 1: own_one<own::e32>(s, "own32"); break;
	case 2: own_one<own::e16p>(s, "own16 with padding character"); break;
	case 3: own_one<own::e8>(s, "own8"); break;
	case 4: own_one<own::e2p>(s, "own2 with padding character"); break;
	case 5: own_one<own::e128p>(s, "own128 padded"); break;
	case 6: own_one<own::e128>(s, "own128"); break;
	case 7: own_one<own::e256>(s, "own256"); break;
	default: own_one<own::e64p, char16_t>(s, "own64 padded, in char16_t"); break;
	}
}
#elif PART == 5
// one iteration only: what is left of an input-only range is nothing
template <typename Enc, typename CharT, typename R> static void check_once(Src & s, R && range, const std::string & want) {
	auto view = std::forward<R>(range) | cthash::encode_to<Enc, CharT>;
	std::string got;
	switch (s.below(4)) {
	case 0: got = collect(view, want.size()); break;
	case 1:
		for (auto c: view) {
			got += char(c);
			if (got.size() > want.size() + 16) break;
		}
		break;
	case 2: std::ranges::for_each(view, [&](CharT c) { got += char(c); }); break;
	default: {
		std::basic_ostringstream<CharT> out;
		out << view;
		got = narrow(out.str());
	}
	}
	PBT_CHECK(got == want, << "iteration gives '" << got << "' instead of '" << want << "'");
}
struct counted {
	// random access of C++20 only: difference_type is wider than any of std::iterator_traits accepts
	static auto of(const Bytes & m) {
		return std::views::iota(uint64_t(0), uint64_t(m.size())) | std::views::transform([&m](uint64_t i) { return m[i]; });
	}
};
template <typename Enc> static void over_views(Src & s, const EncRef & e) {
	const size_t n = s.chance(1, 40) ? s.below(2000) : s.weighted({3, 2}) == 0 ? s.below(13) : s.below(70);
	const auto c = gen_content(s);
	Bytes m(n);
	c.fill(m.data(), n);
	const auto want = encode_bytes(e, m.data(), n);
#if KINDS == 0
	static const char * kinds[] = {"filter", "filter&", "join", "take_while", "drop_while", "transform|iota<uint64_t>"};
#else
	static const char * kinds[] = {"istream<char>", "istream<char>&", "istreambuf", "subrange with sentinel", "counted", "span|drop"};
#endif
	const unsigned kind = unsigned(s.below(6));
	s.note(e.type, " of ", kinds[kind], "[", n, "] ", hex(m.data(), n, 24));
	s.nontrivial(n > 0);
	s.label(kinds[kind]);
#if KINDS == 0
	switch (kind) {
	case 0:
	case 1: {
		// elements which are left out lie among others
		std::vector<std::pair<unsigned char, bool>> l;
		for (auto b: m) {
			for (auto k = s.below(3); k; --k) l.emplace_back(static_cast<unsigned char>(s.below(256)), false);
			l.emplace_back(b, true);
		}
		if (s.below(2)) l.emplace_back(1, false);
		auto v = l | std::views::filter([](const auto & x) { return x.second; }) | std::views::transform([](const auto & x) { return x.first; });
		kind ? check_view<Enc, char>(s, v, want) : check_view<Enc, char>(s, std::move(v), want);
		break;
	}
	case 2: {
		std::vector<std::vector<unsigned char>> l(s.below(2));
		for (size_t i = 0; i < n;) {
			const size_t k = std::min<size_t>(s.below(5), n - i);
			l.emplace_back(m.begin() + std::ptrdiff_t(i), m.begin() + std::ptrdiff_t(i + k));
			i += k;
		}
		check_view<Enc, char>(s, l | std::views::join, want);
		break;
	}
	case 3: {
		std::vector<int> l(m.begin(), m.end());
		l.push_back(-1);
		l.push_back(7);
		check_view<Enc, char>(s, l | std::views::take_while([](int x) { return x >= 0; }) | std::views::transform([](int x) { return static_cast<unsigned char>(x); }), want);
		break;
	}
	case 4: {
		std::vector<int> l(s.below(4), -1);
		l.insert(l.end(), m.begin(), m.end());
		check_view<Enc, char>(s, l | std::views::drop_while([](int x) { return x < 0; }) | std::views::transform([](int x) { return static_cast<unsigned char>(x); }), want);
		break;
	}
	default: check_view<Enc, char>(s, counted::of(m), want);
	}
#else
	const std::string str(reinterpret_cast<const char *>(m.data()), n);
	std::istringstream ss(str);
	ss >> std::noskipws;
	switch (kind) {
	case 0: check_once<Enc, char>(s, std::views::istream<char>(ss), want); break;
	case 1: {
		auto v = std::views::istream<char>(ss);
		check_once<Enc, char>(s, v, want);
		break;
	}
	case 2: check_once<Enc, char>(s, std::ranges::subrange(std::istreambuf_iterator<char>(ss), std::istreambuf_iterator<char>()), want); break;
	case 3: {
		Bytes l = m;
		l.push_back(9);
		const auto * p = l.data();
		check_view<Enc, char>(s, std::views::counted(std::counted_iterator(p, std::ptrdiff_t(n)), std::ptrdiff_t(n)), want);
		check_view<Enc, char>(s, std::ranges::subrange(std::counted_iterator(p, std::ptrdiff_t(n)), std::default_sentinel), want);
		break;
	}
	case 4: {
		std::list<unsigned char> l(m.begin(), m.end());
		l.push_back(9);
		check_view<Enc, char>(s, std::views::counted(l.begin(), std::ptrdiff_t(n)), want);
		break;
	}
	default: {
		Bytes l(3, 0x5a);
		l.insert(l.end(), m.begin(), m.end());
		check_view<Enc, char>(s, std::span(l) | std::views::drop(3), want);
	}
	}
#endif
}
#if KINDS == 0
void enc_views_a(Src & s) {
#else
void enc_views_b(Src & s) {
#endif
	static const unsigned which[] = {0, 1, 3, 5, 6, 8, 9, 10};
	dispatch(s.pick(which), [&]<typename E>(tag_t<E>, const EncRef & e) {
		using namespace cthash::encoding;
		if constexpr (std::same_as<E, base64> || std::same_as<E, base64_no_padding> || std::same_as<E, base32> || std::same_as<E, z_base32> || std::same_as<E, base16> || std::same_as<E, base8> || std::same_as<E, base4> || std::same_as<E, base2>) over_views<E>(s, e);
	});
}
#elif PART == 3
// inputs of tens of thousands of bytes
template <typename Enc> static void long_one(Src & s, const EncRef & e) {
	const size_t n = s.below(3) ? size_t(65536) + s.below(9) - 4 : s.below(140000);
	const auto c = gen_content(s);
	Bytes m(n);
	c.fill(m.data(), n);
	const auto want = encode_bytes(e, m.data(), n);
	s.note(e.type, " of ", n, " bytes ", hex(m.data(), n, 16));
	s.nontrivial(n > 0);
	auto v = m | cthash::encode_to<Enc, char>;
	PBT_CHECK(v.size() == want.size(), << "size() is " << v.size() << " instead of " << want.size());
	auto same = [&](const std::string & got, const char * how) {
		if (got == want) return;
		const auto d = size_t(std::mismatch(got.begin(), got.begin() + std::ptrdiff_t(std::min(got.size(), want.size())), want.begin()).first - got.begin());
		fail(std::string(how) + " differs at character " + std::to_string(d) + ", " + std::to_string(got.size()) + " characters instead of " + std::to_string(want.size()));
	};
	if (s.below(2)) same(collect(v, want.size()), "iteration");
	else same(v.to_string(), "to_string()");
}
void enc_long(Src & s) {
	dispatch(s.below(11), [&]<typename E>(tag_t<E>, const EncRef & e) { long_one<E>(s, e); });
}
void enc_named(Src & s) {
	namespace en = cthash::encoding;
	switch (s.below(14)) {
	case 0: named_action<decltype(cthash::base64_encode), en::base64>(s, ref_of("base64"), cthash::base64_encode); break;
	case 1: named_action<decltype(cthash::base64_no_padding_encode), en::base64_no_padding>(s, ref_of("base64_no_padding"), cthash::base64_no_padding_encode); break;
	case 2: named_action<decltype(cthash::base64url_encode), en::base64url>(s, ref_of("base64url"), cthash::base64url_encode); break;
	case 3: named_action<decltype(cthash::base32_encode), en::base32>(s, ref_of("base32"), cthash::base32_encode); break;
	case 4: named_action<decltype(cthash::base32_no_padding_encode), en::base32_no_padding>(s, ref_of("base32_no_padding"), cthash::base32_no_padding_encode); break;
	case 5: named_action<decltype(cthash::z_base32_encode), en::z_base32>(s, ref_of("z_base32"), cthash::z_base32_encode); break;
	case 6: named_action<decltype(cthash::base16_encode), en::base16>(s, ref_of("base16"), cthash::base16_encode); break;
	case 7: named_action<decltype(cthash::hexdec_encode), en::base16>(s, ref_of("base16"), cthash::hexdec_encode); break;
	case 8: named_action<decltype(cthash::hexdec_uppercase_encode), en::base16_uppercase>(s, ref_of("base16_uppercase"), cthash::hexdec_uppercase_encode); break;
	case 9: named_action<decltype(cthash::octal_encode), en::base8>(s, ref_of("base8"), cthash::octal_encode); break;
	case 10: named_action<decltype(cthash::base8_encode), en::base8>(s, ref_of("base8"), cthash::base8_encode); break;
	case 11: named_action<decltype(cthash::base4_encode), en::base4>(s, ref_of("base4"), cthash::base4_encode); break;
	case 12: named_action<decltype(cthash::base2_encode), en::base2>(s, ref_of("base2"), cthash::base2_encode); break;
	default: named_action<decltype(cthash::binary_encode), en::base2>(s, ref_of("base2"), cthash::binary_encode); break;
	}
}
void enc_streams(Src & s) {
	dispatch(s.below(11), [&]<typename E>(tag_t<E>, const EncRef & e) { streams<E>(s, e); });
}
// exhaustive: every input of up to two bytes, and all inputs of three bytes which differ from a random one in a byte
void enc_small(Src & s) {
	const uint64_t i = s.choice(11 * (1 + 256 + 65536 + 768));
	const uint64_t x = i / 11;
	dispatch(i % 11, [&]<typename E>(tag_t<E>, const EncRef & e) {
		uint8_t m[3]{};
		size_t n = 0;
		if (x == 0)
			n = 0;
		else if (x <= 256)
			n = 1, m[0] = uint8_t(x - 1);
		else if (x <= 256 + 65536)
			n = 2, m[0] = uint8_t((x - 257) >> 8), m[1] = uint8_t(x - 257);
		else {
			n = 3;
			const uint64_t r = s.u64();
			memcpy(m, &r, 3);
			m[(x - 257 - 65536) / 256] = uint8_t((x - 257 - 65536) % 256);
		}
		const auto want = encode_bytes(e, m, n);
		auto v = std::span<const unsigned char>(m, n) | cthash::encode_to<E, char>;
		s.note(e.type, " of ", hex(m, n));
		s.nontrivial(n > 0);
		PBT_CHECK(collect(v, want.size()) == want, << collect(v, want.size()) << " instead of " << want);
		PBT_CHECK(v.size() == want.size());
	});
}
void pbt::late_init() {
	auto rnd = [](const char * n, void (*f)(Src &), uint64_t q, uint64_t t) {
		auto & p = add(n, f);
		p.quick = q;
		p.thorough = t;
	};
	add("enc_small", enc_small).systematic = 11 * (1 + 256 + 65536 + 768);
	rnd("enc_ranges_a1", enc_ranges_a1, 60000, 1500000);
	rnd("enc_ranges_a2", enc_ranges_a2, 60000, 1500000);
	rnd("enc_ranges_b1", enc_ranges_b1, 60000, 1500000);
	rnd("enc_ranges_b2", enc_ranges_b2, 60000, 1500000);
	rnd("enc_bytes_wide_char", enc_bytes_wide_char, 60000, 2000000);
	rnd("enc_wide", enc_wide, 60000, 2000000);
	rnd("enc_named", enc_named, 60000, 2000000);
	rnd("enc_own", enc_own, 60000, 2000000);
	rnd("enc_views_a", enc_views_a, 60000, 1500000);
	rnd("enc_views_b", enc_views_b, 60000, 1500000);
	rnd("enc_long", enc_long, 600, 20000);
	rnd("enc_streams", enc_streams, 30000, 1000000);
}
#endif
