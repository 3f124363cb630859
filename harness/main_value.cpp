// digest values: order, equality, parts, text constructors, and the types of digests
#pragma GCC diagnostic ignored "-Wunused-function"
#include "cth.hpp"
#include "gen.hpp"
#include <algorithm>
#include <array>
#include <map>
#include <set>
#include <string>

using namespace pbt;

static int order(const uint8_t * a, const uint8_t * b, size_t n) {
	const int r = n ? memcmp(a, b, n) : 0;
	return r < 0 ? -1 : r > 0 ? 1 : 0;
}
static int sign(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

// a second sequence of bytes which is close to the first one
static void close_pair(Src & s, uint8_t * a, uint8_t * b, size_t n) {
	gen_content(s).fill(a, n);
	memcpy(b, a, n);
	switch (s.below(5)) {
	case 0: break; // equal
	case 1: { // one bit
		if (!n) break;
		b[s.below(n)] ^= uint8_t(1u << s.below(8));
		break;
	}
	case 2: { // one byte
		if (!n) break;
		b[s.below(n)] = uint8_t(s.below(256));
		break;
	}
	case 3: { // different from some position on
		if (!n) break;
		const size_t at = s.below(n);
		Content{1, s.below(1u << 20)}.fill(b + at, n - at);
		break;
	}
	default: { // two bytes, in opposite directions
		if (n < 2) break;
		const size_t i = s.below(n - 1), j = s.range(i + 1, n - 1);
		if (b[i] < 255) b[i]++;
		if (b[j] > 0) b[j]--;
	}
	}
}

template <typename V> V value_of(const uint8_t * p) {
	V v{};
	if (v.size()) memcpy(v.data(), p, v.size());
	return v;
}

template <typename A, typename B> void check_order(const A & x, const B & y, int want, const char * what) {
	auto bad = [&](const char * op, bool got) { fail(std::string(what) + ": " + hex(x.data(), x.size()) + " " + op + " " + hex(y.data(), y.size()) + " is " + (got ? "true" : "false")); };
	if ((x == y) != (want == 0)) bad("==", x == y);
	if ((y == x) != (want == 0)) bad("== (swapped)", y == x);
	if ((x != y) != (want != 0)) bad("!=", x != y);
	if ((x < y) != (want < 0)) bad("<", x < y);
	if ((x <= y) != (want <= 0)) bad("<=", x <= y);
	if ((x > y) != (want > 0)) bad(">", x > y);
	if ((x >= y) != (want >= 0)) bad(">=", x >= y);
	if ((y < x) != (want > 0)) bad("> (swapped)", y < x);
	if (sign(x <=> y) != want) bad("<=>", false);
	if (sign(y <=> x) != -want) bad("<=> (swapped)", false);
}

template <typename V> void order_of(Src & s, const char * name) {
	constexpr size_t N = sizeof(V);
	uint8_t a[N], b[N];
	close_pair(s, a, b, N);
	const V x = value_of<V>(a), y = value_of<V>(b);
	const int want = order(a, b, N);
	s.note(name, " ", hex(a, N, 64), " vs ", hex(b, N, 64));
	s.label(want == 0 ? "equal" : "different");
	s.nontrivial(want != 0);
	check_order(x, y, want, name);
	PBT_CHECK(x == x && !(x < x) && !(x > x) && x <= x);
	V z = y; // assignment and copies keep the value
	check_order(x, z, want, "copy");
	z = x;
	check_order(z, x, 0, "assigned copy");
	// used as keys
	std::set<V> set{x, y, z};
	PBT_CHECK(set.size() == (want == 0 ? 1u : 2u), << "set has " << set.size() << " values");
	PBT_CHECK(memcmp(set.begin()->data(), want <= 0 ? a : b, N) == 0, << "the first value of a set isn't the smallest one");
}

// sorting is the same as sorting of the bytes
template <typename V> void sorted(Src & s, const char * name) {
	constexpr size_t N = sizeof(V);
	std::vector<V> v;
	std::vector<std::array<uint8_t, N>> w;
	const size_t n = s.below(9);
	for (size_t i = 0; i < n; ++i) {
		std::array<uint8_t, N> a, b;
		if (w.empty() || s.below(2))
			gen_content(s).fill(a.data(), N);
		else {
			close_pair(s, b.data(), a.data(), N);
			a = s.pick(w);
			a[s.below(N)] = uint8_t(s.below(256));
		}
		w.push_back(a);
		v.push_back(value_of<V>(a.data()));
	}
	s.note("sorted ", n, " of ", name);
	s.nontrivial(n > 1);
	std::sort(v.begin(), v.end());
	std::sort(w.begin(), w.end());
	for (size_t i = 0; i < n; ++i) PBT_CHECK(memcmp(v[i].data(), w[i].data(), N) == 0, << name << ": position " << i << " of " << n);
}

template <typename V, size_t... Ks> void parts(Src & s, const char * name, std::index_sequence<Ks...>) {
	constexpr size_t N = sizeof(V);
	uint8_t a[N];
	gen_content(s).fill(a, N);
	const V x = value_of<V>(a);
	s.note("parts of ", name, " ", hex(a, N, 64));
	s.nontrivial();
	auto one = [&]<size_t K>(std::index_sequence<K>) {
		if constexpr (K <= N) {
			const auto p = x.template prefix<K>();
			PBT_CHECK(p.size() == K && memcmp(p.data(), a, K) == 0, << "prefix<" << K << "> is " << hex(p.data(), p.size(), 64));
			const auto q = x.template suffix<K>();
			PBT_CHECK(q.size() == K && memcmp(q.data(), a + N - K, K) == 0, << "suffix<" << K << "> is " << hex(q.data(), q.size(), 64));
			// parts of parts
			if constexpr (K >= 2) {
				const auto r = p.template prefix<K - 1>();
				PBT_CHECK(r == x.template prefix<K - 1>());
				const auto t = q.template suffix<K / 2>();
				PBT_CHECK(t == x.template suffix<K / 2>());
			}
		}
	};
	(one(std::index_sequence<Ks>{}), ...);
	PBT_CHECK(memcmp(x.data(), a, N) == 0);
	const V zero{};
	for (auto b: zero) PBT_CHECK(b == std::byte{0}, << "default value isn't zero");
	PBT_CHECK(x.size() == N && size_t(x.end() - x.begin()) == N);
	size_t i = 0;
	for (auto b: x) PBT_CHECK(b == std::byte(a[i++]));
}

// hexadecimal text -> value, of any case and any character type
template <typename V, typename CharT> void from_text(Src & s, const char * name, const char * chars) {
	constexpr size_t N = sizeof(V);
	uint8_t a[N];
	gen_content(s).fill(a, N);
	CharT t[2 * N + 1];
	std::string shown;
	const auto style = s.below(4);
	for (size_t i = 0; i < 2 * N; ++i) {
		const unsigned d = i % 2 ? a[i / 2] & 15u : a[i / 2] >> 4;
		const bool up = style == 0 ? false : style == 1 ? true : s.below(2) == 1;
		const char c = (up ? "0123456789ABCDEF" : "0123456789abcdef")[d];
		t[i] = CharT(c);
		shown += c;
	}
	t[2 * N] = 0;
	s.note(name, " from ", chars, " text ", shown);
	s.nontrivial();
	s.label(chars);
	const CharT(&in)[2 * N + 1] = t;
	const V v(in);
	PBT_CHECK(memcmp(v.data(), a, N) == 0, << "'" << shown << "' is parsed as " << hex(v.data(), N, 64));
	PBT_CHECK(v.size() == N);
	// and deduced
	const auto w = cthash::hash_value(in);
	static_assert(std::is_same_v<decltype(w), const cthash::hash_value<N>>);
	PBT_CHECK(memcmp(w.data(), a, N) == 0);
	// and by fixed string, there and back
	const auto f = to_fixed_string<cthash::encoding::hexdec, CharT>(v);
	const V u(f);
	PBT_CHECK(u == v, << "value made of its own text is " << hex(u.data(), N, 64));
	const auto g = to_fixed_string<cthash::encoding::hexdec_uppercase, CharT>(v);
	const V u2(g);
	PBT_CHECK(u2 == v, << "value made of its own uppercase text is " << hex(u2.data(), N, 64));
}

// output of different lengths
template <typename A, typename B> void shake_pair(Src & s, const char * name) {
	constexpr size_t N = sizeof(A), M = sizeof(B), K = std::min(N, M);
	uint8_t a[std::max(N, M)], b[std::max(N, M)];
	close_pair(s, a, b, K);
	if (N > K) gen_content(s).fill(a + K, N - K);
	if (M > K) gen_content(s).fill(b + K, M - K);
	const A x = value_of<A>(a);
	const B y = value_of<B>(b);
	s.note(name, "<", N * 8, "> ", hex(a, N, 64), " vs <", M * 8, "> ", hex(b, M, 64));
	const int want = order(a, b, K);
	s.label(want == 0 ? "equal in common part" : "different in common part");
	s.nontrivial(N != M);
	check_order(x, y, want, name);
}

using fn = void (*)(Src &);
#define EXTERN_FNS(n) std::vector<fn> n();
EXTERN_FNS(fns_order)
EXTERN_FNS(fns_parts)
EXTERN_FNS(fns_text)
EXTERN_FNS(fns_text_tagged)
EXTERN_FNS(fns_shake)
EXTERN_FNS(fns_types)

template <size_t N> using hv = cthash::hash_value<N>;
#define ALL_TAGGED(X) X(sha224_value) X(sha256_value) X(sha384_value) X(sha512_value) X(sha512t_value<224>) X(sha512t_value<256>) X(sha512t_value<8>) X(sha512t_value<248>) X(sha3_224_value) X(sha3_256_value) X(sha3_384_value) X(sha3_512_value) X(xxhash32_value) X(xxhash64_value)

#if PART == 0
std::vector<fn> fns_order() {
	std::vector<fn> f;
	auto one = [&]<size_t... Ns>(std::index_sequence<Ns...>) {
		(f.push_back([](Src & s) { order_of<hv<Ns>>(s, "hash_value"); }), ...);
		(f.push_back([](Src & s) { sorted<hv<Ns>>(s, "hash_value"); }), ...);
	};
	one(std::index_sequence<1, 2, 3, 7, 8, 9, 16, 20, 32, 33, 64, 65, 255, 256, 257, 300>{});
#define X(...) \
	f.push_back([](Src & s) { order_of<cthash::__VA_ARGS__>(s, #__VA_ARGS__); }); \
	f.push_back([](Src & s) { sorted<cthash::__VA_ARGS__>(s, #__VA_ARGS__); });
	ALL_TAGGED(X)
#undef X
	return f;
}
std::vector<fn> fns_parts() {
	std::vector<fn> f;
	auto one = [&]<size_t... Ns>(std::index_sequence<Ns...>) {
		(f.push_back([](Src & s) { parts<hv<Ns>>(s, "hash_value", std::index_sequence<0, 1, 2, 3, 4, 7, 8, 15, 16, 20, 31, 32, 63, 64>{}); }), ...);
	};
	one(std::index_sequence<1, 2, 3, 8, 16, 20, 32, 64>{});
	f.push_back([](Src & s) { parts<hv<300>>(s, "hash_value<300>", std::index_sequence<1, 8, 32, 44, 128, 255, 256, 257, 299, 300>{}); });
#define X(...) f.push_back([](Src & s) { parts<cthash::__VA_ARGS__>(s, #__VA_ARGS__, std::index_sequence<1, 4, 8, 28, 32, 64>{}); });
	ALL_TAGGED(X)
#undef X
	f.push_back([](Src & s) { parts<cthash::shake128_value<256>>(s, "shake128_value<256>", std::index_sequence<1, 4, 8, 28, 32, 64>{}); });
	f.push_back([](Src & s) { parts<cthash::shake256_value<512>>(s, "shake256_value<512>", std::index_sequence<1, 4, 8, 28, 32, 64>{}); });
	return f;
}
#elif PART == 1
template <typename C> void add_text(std::vector<fn> & f) {
	auto one = [&]<size_t... Ns>(std::index_sequence<Ns...>) {
		(f.push_back([](Src & s) { from_text<hv<Ns>, C>(s, "hash_value", std::is_same_v<C, char> ? "char" : std::is_same_v<C, wchar_t> ? "wchar_t" : std::is_same_v<C, char8_t> ? "char8_t" : std::is_same_v<C, char16_t> ? "char16_t" : "char32_t"); }), ...);
	};
	one(std::index_sequence<1, 2, 5, 8, 20, 32, 64>{});
	if constexpr (sizeof(C) != 2) one(std::index_sequence<128, 257, 300>{});
}
std::vector<fn> fns_text() {
	std::vector<fn> f;
	add_text<char>(f);
	add_text<wchar_t>(f);
	add_text<char8_t>(f);
	add_text<char16_t>(f);
	add_text<char32_t>(f);
	return f;
}
#elif PART == 2
std::vector<fn> fns_text_tagged() {
	std::vector<fn> f;
#define X(...) \
	f.push_back([](Src & s) { from_text<cthash::__VA_ARGS__, char>(s, #__VA_ARGS__, "char"); }); \
	f.push_back([](Src & s) { from_text<cthash::__VA_ARGS__, wchar_t>(s, #__VA_ARGS__, "wchar_t"); });
	ALL_TAGGED(X)
#undef X
	return f;
}
std::vector<fn> fns_shake() {
	std::vector<fn> f;
	auto all = [&]<size_t N, size_t... Ms>(std::index_sequence<N>, std::index_sequence<Ms...>) {
		(f.push_back([](Src & s) { shake_pair<cthash::shake128_value<N>, cthash::shake128_value<Ms>>(s, "shake128_value"); }), ...);
		(f.push_back([](Src & s) { shake_pair<cthash::shake256_value<N>, cthash::shake256_value<Ms>>(s, "shake256_value"); }), ...);
	};
	using ms = std::index_sequence<8, 16, 64, 128, 256, 264, 512, 2048, 2056, 4096>;
	auto each = [&]<size_t... Ns>(std::index_sequence<Ns...>) { (all(std::index_sequence<Ns>{}, ms{}), ...); };
	each(ms{});
	return f;
}
#elif PART == 3
// real output of SHAKE, cut in two ways, compares as equal; other messages don't
template <typename H> void shake_real(Src & s, const char * name) {
	Bytes m(s.below(400)), w;
	gen_content(s).fill(m.data(), m.size());
	w = m;
	const bool same = s.below(2) == 0;
	if (!same) {
		if (w.empty() || s.below(3) == 0)
			w.push_back(uint8_t(s.below(256)));
		else
			w[s.below(w.size())] ^= uint8_t(1u << s.below(8));
	}
	s.note(name, " of ", m.size(), " and ", w.size(), " bytes, ", same ? "same" : "different");
	s.nontrivial(!m.empty());
	s.label(same ? "same message" : "different messages");
	const auto a = H{}.update(std::span<const uint8_t>(m)).template final<256>();
	const auto b = H{}.update(std::span<const uint8_t>(w)).template final<128>();
	const auto c = H{}.update(std::span<const uint8_t>(w)).template final<2048>();
	PBT_CHECK((a == b) == same);
	PBT_CHECK((b == a) == same);
	PBT_CHECK((a == c) == same);
	PBT_CHECK((c == a) == same);
	PBT_CHECK(b == c);
	PBT_CHECK(((a <=> b) == 0) == same);
	PBT_CHECK((a < c) == (memcmp(a.data(), c.data(), 32) < 0));
	PBT_CHECK((c > a) == (a < c));
}
template <typename... Ts> struct types { };
template <typename T> struct wrap { };
#define X(...) cthash::__VA_ARGS__,
using all_types = types<ALL_TAGGED(X) cthash::shake128_value<256>, cthash::shake256_value<256>, cthash::shake128_value<128>, cthash::shake256_value<512>, cthash::shake128_value<512>, hv<32>, hv<28>, hv<8>, hv<64>>;
#undef X
#define X(...) #__VA_ARGS__,
static const char * const type_names[] = {ALL_TAGGED(X) "shake128_value<256>", "shake256_value<256>", "shake128_value<128>", "shake256_value<512>", "shake128_value<512>", "hash_value<32>", "hash_value<28>", "hash_value<8>", "hash_value<64>"};
#undef X
static const size_t type_bytes[] = {28, 32, 48, 64, 28, 32, 1, 31, 28, 32, 48, 64, 4, 8, 32, 32, 16, 64, 64, 32, 28, 8, 64};
// where the value stored in a variable of type From can get without being asked to
struct Facts {
	bool same, converts, assigns, plain_target;
};
template <typename From, typename To> constexpr Facts facts() {
	return Facts{std::is_same_v<From, To>, std::is_convertible_v<From, To>, std::is_assignable_v<To &, From>, false};
}
template <typename... Ts> static void type_pairs(Src & s, types<Ts...>) {
	constexpr size_t n = sizeof...(Ts);
	const uint64_t k = s.choice(n * n);
	const size_t i = k / n, j = k % n;
	Facts f{};
	auto row = [&]<typename A>(wrap<A>) {
		static constexpr Facts r[] = {facts<A, Ts>()...};
		f = r[j];
	};
	size_t at = 0;
	((at++ == i ? row(wrap<Ts>{}) : void()), ...);
	constexpr size_t sizes[] = {sizeof(Ts)...};
	constexpr size_t counts[] = {Ts{}.size()...};
	s.note(type_names[i], " to ", type_names[j]);
	s.nontrivial(i != j);
	PBT_CHECK(sizes[i] == type_bytes[i] && counts[i] == type_bytes[i], << type_names[i] << " has " << counts[i] << " bytes instead of " << type_bytes[i]);
	PBT_CHECK(f.same == (i == j), << type_names[i] << " and " << type_names[j] << " are " << (f.same ? "one type" : "two types"));
	const std::string to = type_names[j];
	if (to.compare(0, 10, "hash_value") != 0) {
		PBT_CHECK(f.converts == (i == j), << type_names[i] << (f.converts ? " converts to " : " doesn't convert to ") << type_names[j]);
		PBT_CHECK(f.assigns == (i == j), << type_names[i] << (f.assigns ? " can be assigned to " : " can't be assigned to ") << type_names[j]);
	} else if (i != j && type_bytes[i] != type_bytes[j]) {
		PBT_CHECK(!f.converts && !f.assigns, << type_names[i] << " converts to " << type_names[j]);
	}
}
// the digest of every algorithm has the type and width of that algorithm
template <typename V, typename H, typename... A> static void digest_of(Src & s, const char * name, size_t bits, A... a) {
	Bytes m(s.below(300));
	gen_content(s).fill(m.data(), m.size());
	s.note("digest type of ", name);
	s.nontrivial();
	H h{a...};
	h.update(std::span<const uint8_t>(m));
	H h2 = h;
	auto v = h.final();
	static_assert(std::is_same_v<decltype(v), V>, "digest has other type than the value type of its algorithm");
	PBT_CHECK(v.size() * 8 == bits, << name << " gives " << v.size() * 8 << " bits");
	PBT_CHECK(V::digest_length * 8 == bits);
	PBT_CHECK(sizeof(V) * 8 == bits);
	PBT_CHECK(to_string<cthash::encoding::hexdec>(v).size() * 4 == bits);
	V w = h2.final();
	PBT_CHECK(v == w);
	static_assert(std::is_same_v<decltype(cthash::simple<H>(m, a...)), V>);
	PBT_CHECK(cthash::simple<H>(m, a...) == v);
}
std::vector<fn> fns_types() {
	std::vector<fn> f;
#define D(V, H, B) f.push_back([](Src & s) { digest_of<cthash::V, cthash::H>(s, #H, B); });
	D(sha224_value, sha224, 224)
	D(sha256_value, sha256, 256)
	D(sha384_value, sha384, 384)
	D(sha512_value, sha512, 512)
	D(sha512t_value<224>, sha512t<224>, 224)
	D(sha512t_value<256>, sha512t<256>, 256)
	D(sha512t_value<8>, sha512t<8>, 8)
	D(sha512t_value<96>, sha512t<96>, 96)
	D(sha512t_value<504>, sha512t<504>, 504)
	D(sha3_224_value, sha3_224, 224)
	D(sha3_256_value, sha3_256, 256)
	D(sha3_384_value, sha3_384, 384)
	D(sha3_512_value, sha3_512, 512)
	D(xxhash32_value, xxhash32, 32)
	D(xxhash64_value, xxhash64, 64)
#undef D
	f.push_back([](Src & s) { digest_of<cthash::xxhash32_value, cthash::xxhash32>(s, "xxhash32(seed)", 32, uint32_t(17)); });
	f.push_back([](Src & s) { digest_of<cthash::xxhash64_value, cthash::xxhash64>(s, "xxhash64(seed)", 64, uint64_t(17)); });
	return f;
}
static void any(Src & s, const std::vector<fn> & f) {
	f[s.below(f.size())](s);
}
void pbt::late_init() {
	auto rnd = [](const char * n, void (*f)(Src &), uint64_t q, uint64_t t) {
		auto & p = add(n, f);
		p.quick = q;
		p.thorough = t;
	};
	rnd("order", [](Src & s) { static const auto f = fns_order(); any(s, f); }, 400000, 20000000);
	rnd("parts", [](Src & s) { static const auto f = fns_parts(); any(s, f); }, 200000, 5000000);
	rnd("from_text", [](Src & s) { static const auto f = fns_text(); any(s, f); }, 300000, 10000000);
	rnd("from_text_tagged", [](Src & s) { static const auto f = fns_text_tagged(); any(s, f); }, 300000, 10000000);
	rnd("shake_pairs", [](Src & s) { static const auto f = fns_shake(); any(s, f); }, 600000, 20000000);
	rnd("shake_real", [](Src & s) { s.below(2) ? shake_real<cthash::shake128>(s, "shake128") : shake_real<cthash::shake256>(s, "shake256"); }, 30000, 1000000);
	rnd("digest_types", [](Src & s) { static const auto f = fns_types(); any(s, f); }, 60000, 2000000);
	auto & t = add("type_pairs", [](Src & s) { type_pairs(s, all_types{}); });
	t.systematic = std::size(type_names) * std::size(type_names);
}
#endif
