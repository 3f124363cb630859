// implements Obj for a real hasher type; only its public interface is used
#pragma once
#include "cth.hpp"
#include "iface.hpp"
#include "pbt.hpp"
#include <algorithm>
#include <array>
#include <concepts>
#include <cstring>
#include <memory>
#include <span>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

inline const std::byte * as_bytes_ptr(const uint8_t * p) {
	return reinterpret_cast<const std::byte *>(p);
}

// arrays and literals of some fixed sizes
template <size_t N, typename F> bool with_fixed_n(unsigned kind, const uint8_t * p, F && f) {
	switch (kind) {
	case K_ARRAY_BYTE: {
		std::array<std::byte, N> a;
		std::memcpy(a.data(), p, N);
		f(a);
		return true;
	}
	case K_ARRAY_UCHAR: {
		std::array<unsigned char, N> a;
		std::memcpy(a.data(), p, N);
		f(a);
		return true;
	}
	case K_CARRAY_BYTE: {
		std::byte a[N];
		std::memcpy(a, p, N);
		f(a);
		return true;
	}
	case K_CARRAY_UCHAR: {
		unsigned char a[N];
		std::memcpy(a, p, N);
		f(a);
		return true;
	}
	case K_CARRAY_INT8: {
		int8_t a[N];
		std::memcpy(a, p, N);
		f(a);
		return true;
	}
	case K_LITERAL_CHAR: {
		char a[N + 1];
		std::memcpy(a, p, N);
		a[N] = 0;
		const char(&lit)[N + 1] = a;
		f(lit);
		return true;
	}
	case K_LITERAL_CHAR8: {
		char8_t a[N + 1];
		std::memcpy(a, p, N);
		a[N] = 0;
		const char8_t(&lit)[N + 1] = a;
		f(lit);
		return true;
	}
	case K_SPAN_FIXED:
		f(std::span<const unsigned char, N>(p, N));
		return true;
	case K_HASH_VALUE: {
		cthash::hash_value<N> v;
		std::memcpy(v.data(), p, N);
		f(v);
		return true;
	}
	}
	return false;
}

#ifndef FIXED_NS
#define FIXED_NS 1, 65, 137, 300
#endif
#ifndef CTH_KINDS
#define CTH_KINDS 0 // 1: all input forms
#endif
#ifndef CTH_ONESHOT
#define CTH_ONESHOT 0 // 1: simple<H>() and friends
#endif

template <typename F, size_t... Ns> bool with_fixed(std::index_sequence<Ns...>, unsigned kind, const uint8_t * p, size_t n, F && f) {
	bool done = false;
	((n == Ns ? (done = with_fixed_n<Ns>(kind, p, f), 0) : 0), ...);
	return done;
}

// nothing, in forms of a fixed size
template <typename F> bool with_empty(unsigned kind, F && f) {
	switch (kind) {
	case K_ARRAY_BYTE: f(std::array<std::byte, 0>{}); return true;
	case K_ARRAY_UCHAR: f(std::array<unsigned char, 0>{}); return true;
	case K_LITERAL_CHAR: f(""); return true;
	case K_LITERAL_CHAR8: f(u8""); return true;
	case K_SPAN_FIXED: f(std::span<const unsigned char, 0>()); return true;
	}
	return false;
}

// calls f with the bytes in the given form
template <typename F> bool with_kind(unsigned kind, const uint8_t * p, size_t n, F && f) {
	const auto c = reinterpret_cast<const char *>(p);
	const auto c8 = reinterpret_cast<const char8_t *>(p);
	switch (kind) {
	case K_SPAN_BYTE: f(std::span<const std::byte>(as_bytes_ptr(p), n)); return true;
	case K_SPAN_UCHAR: f(std::span<const unsigned char>(p, n)); return true;
	case K_SPAN_CHAR: f(std::span<const char>(c, n)); return true;
	case K_SPAN_CHAR8: f(std::span<const char8_t>(c8, n)); return true;
	case K_SPAN_INT8: f(std::span<const int8_t>(reinterpret_cast<const int8_t *>(p), n)); return true;
	case K_SV: f(std::string_view(c, n)); return true;
	case K_U8SV: f(std::u8string_view(c8, n)); return true;
	case K_STRING: f(std::string(c, n)); return true;
	case K_U8STRING: f(std::u8string(c8, n)); return true;
	case K_VEC_BYTE: f(std::vector<std::byte>(as_bytes_ptr(p), as_bytes_ptr(p) + n)); return true;
	case K_VEC_UCHAR: f(std::vector<unsigned char>(p, p + n)); return true;
	case K_VEC_CHAR: f(std::vector<char>(c, c + n)); return true;
	case K_VEC_INT8: f(std::vector<int8_t>(reinterpret_cast<const int8_t *>(p), reinterpret_cast<const int8_t *>(p) + n)); return true;
	case K_MUT_SPAN_BYTE: {
		std::vector<std::byte> v(as_bytes_ptr(p), as_bytes_ptr(p) + n);
		f(std::span<std::byte>(v));
		return true;
	}
	case K_MUT_SPAN_CHAR: {
		std::vector<char> v(c, c + n);
		f(std::span<char>(v));
		return true;
	}
	default:
		if (n == 0) return with_empty(kind, f);
		return with_fixed(std::index_sequence<FIXED_NS>{}, kind, p, n, f);
	}
}

template <typename V> Bytes to_bytes(const V & v) {
	Bytes o(v.size());
	if (!o.empty()) std::memcpy(o.data(), v.data(), v.size());
	return o;
}

template <typename T> concept sized_hasher = requires(const T & h) { { h.size() } -> std::convertible_to<uint64_t>; };
template <typename T> concept one_step_hasher = requires(T & h, std::span<const std::byte> s) { h.update_and_final(s); };

// SHAKE: output lengths are instantiated in other translation units
template <typename H> struct ShakeOuts {
	using fn = Bytes (*)(H &);
	static std::vector<std::pair<unsigned, fn>> & table();
	template <size_t N> static Bytes fin(H & h) { return to_bytes(h.template final<N>()); }
	template <size_t... Ns> static bool add(std::index_sequence<Ns...>) {
		(table().push_back({Ns, &fin<Ns>}), ...);
		return true;
	}
};

template <typename H, bool Seeded, bool Shake = false> struct HashObj final: Obj {
	H h;

	static H fresh(uint64_t seed) {
		if constexpr (Seeded)
			return H{static_cast<decltype(H::seed)>(seed)};
		else
			return H{};
	}
	explicit HashObj(uint64_t seed): h(fresh(seed)) { }
	explicit HashObj(const H & o): h(o) { }
	explicit HashObj(H && o): h(std::move(o)) { }

	// update() gives the hasher itself, for chaining
	template <typename In> void feed(const In & in) {
		auto && r = h.update(in);
		if constexpr (std::is_same_v<std::remove_cvref_t<decltype(r)>, H>)
			if (static_cast<const void *>(std::addressof(r)) != static_cast<const void *>(std::addressof(h))) pbt::fail("update() does not return the hasher which was updated");
	}
	bool update(unsigned kind, const uint8_t * p, size_t n) override {
		if constexpr (CTH_KINDS) {
			return with_kind(kind, p, n, [&](const auto & in) { feed(in); });
		} else {
			if (kind == K_SPAN_BYTE) feed(std::span<const std::byte>(as_bytes_ptr(p), n));
			else if (kind == K_SV) feed(std::string_view(reinterpret_cast<const char *>(p), n));
			else if (kind == K_SPAN_UCHAR) feed(std::span<const unsigned char>(p, n));
			else return false;
			return true;
		}
	}
	Bytes final_value(unsigned outbits) override {
		if constexpr (!Shake) {
			(void)outbits;
			return to_bytes(h.final());
		} else {
			for (auto & [n, f]: ShakeOuts<H>::table())
				if (n == outbits) return f(h);
			return {};
		}
	}
	bool final_into(uint8_t * out) override {
		if constexpr (!Shake) {
			constexpr size_t n = decltype(h.final())::digest_length;
			h.final(std::span<std::byte, n>(reinterpret_cast<std::byte *>(out), n));
			return true;
		} else {
			(void)out;
			return false;
		}
	}
	std::unique_ptr<Obj> clone() const override { return std::make_unique<HashObj>(h); }
	std::unique_ptr<Obj> move_out() override { return std::make_unique<HashObj>(std::move(h)); }
	bool copy_assign(const Obj & o) override {
		if constexpr (std::is_copy_assignable_v<H>) {
			h = static_cast<const HashObj &>(o).h;
			return true;
		} else {
			(void)o;
			return false;
		}
	}
	uint64_t size() const override {
		if constexpr (sized_hasher<H>)
			return h.size();
		else
			return 0;
	}
	static std::unique_ptr<Obj> make(uint64_t seed) { return std::make_unique<HashObj>(seed); }
	// how: 0 = simple<H>(x), 1 = H{}.update(x).final(), 2 = H{}.update_and_final(x)
	static bool oneshot(unsigned how, unsigned kind, uint64_t seed, const uint8_t * p, size_t n, Bytes & out) {
		if constexpr (!CTH_ONESHOT || Shake) {
			(void)how, (void)kind, (void)seed, (void)p, (void)n, (void)out;
			return false;
		} else {
			bool avail = true;
			const bool done = with_kind(kind, p, n, [&](const auto & in) {
				if (how == 0) {
					if constexpr (Seeded)
						out = to_bytes(cthash::simple<H>(in, static_cast<decltype(H::seed)>(seed)));
					else
						out = to_bytes(cthash::simple<H>(in));
				} else if (how == 1) {
					out = to_bytes(fresh(seed).update(in).final());
				} else if constexpr (one_step_hasher<H>) {
					out = to_bytes(fresh(seed).update_and_final(in));
				} else {
					avail = false;
				}
			});
			return done && avail;
		}
	}
	static void fill_outs(Alg & a) {
		if constexpr (Shake) {
			a.outs.clear();
			for (auto & [n, f]: ShakeOuts<H>::table()) a.outs.push_back(n);
			std::sort(a.outs.begin(), a.outs.end());
		} else
			(void)a;
	}
	static Alg alg(std::string name, Family f, unsigned block, unsigned outbits) {
		return Alg{std::move(name), f, block, outbits, {}, Seeded, sized_hasher<H>, CTH_KINDS != 0, Shake ? fill_outs : nullptr, make, oneshot};
	}
};
