// chunk_of_bits and bit_buffer: no bit is lost, invented or reordered
#include "cth.hpp"
#include "gen.hpp"
#include <deque>
#include <list>
#include <ranges>

using namespace pbt;

template <size_t Out, bool Pad, typename T> void chunks(Src & s) {
	constexpr size_t In = sizeof(T) * 8;
	const size_t n = s.chance(1, 20) ? s.below(s.chance(1, 30) ? 70000 : 300) : s.below(14);
	std::vector<T> v;
	std::vector<bool> bits;
	const auto kind = s.below(3);
	for (size_t i = 0; i < n; ++i) {
		uint64_t x = 0;
		switch (kind) {
		case 0: x = s.u64(); break;
		case 1: x = s.below(2) ? ~0ull : 0; break;
		default: x = uint64_t(1) << s.below(64); break;
		}
		v.push_back(static_cast<T>(x));
		for (size_t k = In; k-- > 0;) bits.push_back((x >> k) & 1u);
	}
	s.note(Pad ? "padded " : "", Out, "-bit chunks of ", n, " elements of ", In, " bits (kind ", kind, ")");
	s.nontrivial(n > 0 && In != Out);
	if (bits.size() % Out) s.label("partial last chunk");
	constexpr size_t group = std::lcm(Out, In) / Out;
	size_t want = (bits.size() + Out - 1) / Out;
	if (Pad) want = (want + group - 1) / group * group;
	auto check = [&](auto & view) {
		size_t i = 0;
		for (auto it = view.begin(); !(it == view.end()); ++it, ++i) {
			PBT_CHECK(i < want, << "more than " << want << " chunks");
			const auto x = *it;
			uint64_t w = 0;
			size_t have = 0;
			for (size_t k = 0; k < Out; ++k) {
				const size_t at = i * Out + k;
				w = w << 1 | (at < bits.size() && bits[at] ? 1u : 0u);
				have += at < bits.size();
			}
			PBT_CHECK(uint64_t(x.value) == w, << "chunk " << i << " of " << want << " is " << uint64_t(x.value) << " instead of " << w);
			PBT_CHECK(size_t(x.missing_bits) == Out - have, << "chunk " << i << " says " << size_t(x.missing_bits) << " bits are missing instead of " << Out - have);
			PBT_CHECK(x.is_padding() == (have == 0), << "chunk " << i << " is_padding() is " << x.is_padding());
		}
		PBT_CHECK(i == want, << i << " chunks instead of " << want);
		PBT_CHECK(view.size() == want, << "size() is " << size_t(view.size()) << " instead of " << want);
	};
	auto view = v | cthash::chunk_of_bits<Out, Pad>;
	check(view);
	check(view); // again
	const auto & c = view;
	check(c);
	auto copy = view;
	check(copy);
	// positions are independent
	if (want > 1) {
		auto a = c.begin();
		const auto first = *a;
		auto b = a++;
		PBT_CHECK((*b).value == first.value);
		if (want > 1) {
			PBT_CHECK(!(a == c.end()));
			const auto second = *a;
			++b;
			PBT_CHECK((*b).value == second.value, << "a copied iterator sees another second chunk");
		}
	}
	// an iterator in use takes over the position of another one
	if (s.below(3) == 0) {
		const size_t len = std::min<size_t>(want, 40);
		const size_t from = s.below(2) ? s.below(len + 1) : len, to = s.below(3) ? s.below(len + 1) : 0;
		auto at = [&](size_t k) {
			auto it = c.begin();
			for (; k; --k) ++it;
			return it;
		};
		auto rest = [&](auto it, const char * how) {
			auto model = at(to);
			size_t left = 0;
			for (; !(model == c.end()) && left < 100; ++model, ++it, ++left) {
				if (it == c.end()) fail(std::string(how) + " over the position " + std::to_string(from) + " loses chunks after " + std::to_string(left) + " from the position " + std::to_string(to));
				const auto x = *it, y = *model;
				PBT_CHECK(x.value == y.value && x.missing_bits == y.missing_bits, << how << " from the position " << to << " over the position " << from << " makes chunk " << to + left << " " << uint64_t(x.value) << " instead of " << uint64_t(y.value));
			}
			if (left < 100) PBT_CHECK(it == c.end(), << how << " from the position " << to << " over the position " << from << " gives more chunks");
		};
		const auto target = at(to);
		auto x = at(from);
		x = target;
		rest(x, "assignment");
		auto y = at(from);
		y = at(to);
		rest(y, "move assignment");
		auto p = at(from), q = at(to);
		std::ranges::swap(p, q);
		rest(p, "swap");
		rest(target, "copying");
		if constexpr (std::equality_comparable<decltype(target)>) PBT_CHECK((at(from) == target) == (from == to), << "iterators at positions " << from << " and " << to << " compare wrong");
		s.label("assigned iterators");
	}
}

// size() of ranges too long to walk through
template <size_t Out, bool Pad, typename T> void huge(Src & s) {
	constexpr size_t In = sizeof(T) * 8;
	// the number of bits fits 64 bits
	const unsigned k = unsigned(s.range(20, 63 - std::countr_zero(In)));
	const uint64_t n = (uint64_t(1) << k) + s.below(uint64_t(1) << s.below(k + 1)) - s.below(3);
	if ((n >> (62 - std::countr_zero(In))) != 0) throw Discard{};
	s.note(Pad ? "padded " : "", Out, "-bit chunks of ", n, " elements of ", In, " bits");
	s.nontrivial();
	s.label(n * In >> 32 ? "more than 2^32 bits" : "less bits");
	constexpr size_t group = std::lcm(Out, In) / Out;
	uint64_t want = n * In / Out + (n * In % Out != 0);
	if (Pad) want = (want + group - 1) / group * group;
	auto view = std::views::iota(uint64_t(0), n) | std::views::transform([](uint64_t x) { return static_cast<T>(x); }) | cthash::chunk_of_bits<Out, Pad>;
	PBT_CHECK(view.size() == want, << "size() of chunks is " << uint64_t(view.size()) << " instead of " << want);
	PBT_CHECK(!(view.begin() == view.end()));
}

// a range of more than 2^32 bits, all of it
template <size_t Out, bool Pad> void long_walk(uint64_t n, Src & s) {
	s.note(Pad ? "padded " : "", Out, "-bit chunks of ", n, " bytes");
	s.nontrivial();
	constexpr size_t group = std::lcm(Out, size_t(8)) / Out;
	uint64_t want = n * 8 / Out + (n * 8 % Out != 0);
	if (Pad) want = (want + group - 1) / group * group;
	auto byte_at = [](uint64_t x) { return static_cast<uint8_t>((x * 0x9E3779B97F4A7C15ull) >> 50); };
	auto view = std::views::iota(uint64_t(0), n) | std::views::transform(byte_at) | cthash::chunk_of_bits<Out, Pad>;
	PBT_CHECK(view.size() == want);
	uint64_t i = 0;
	for (auto it = view.begin(); !(it == view.end()); ++it, ++i) {
		if (i >= want) break;
		const uint64_t bit = i * Out, at = bit / 8, off = bit % 8;
		uint64_t w = 0;
		if (at < n) w = uint64_t(byte_at(at)) << 8;
		if (at + 1 < n) w |= byte_at(at + 1);
		w = (w >> (16 - off - Out)) & ((1u << Out) - 1u);
		if ((*it).value != w) fail("chunk " + std::to_string(i) + " is " + std::to_string(unsigned((*it).value)) + " instead of " + std::to_string(w));
	}
	PBT_CHECK(i == want, << i << " chunks instead of " << want);
}
static void long_walks(Src & s) {
	const uint64_t n = (uint64_t(1) << 29) + 3;
	switch (s.choice(4)) {
	case 0: return long_walk<4, false>(n, s);
	case 1: return long_walk<6, false>(n, s);
	case 2: return long_walk<6, true>(n, s);
	default: return long_walk<5, true>(n, s);
	}
}

template <size_t N> using uint_of = std::conditional_t<N == 8, uint8_t, std::conditional_t<N == 16, uint16_t, std::conditional_t<N == 32, uint32_t, uint64_t>>>;

template <size_t Out, size_t In> void fifo(Src & s) {
	cthash::bit_buffer<Out, In> b;
	std::deque<bool> m;
	constexpr size_t cap = std::lcm(Out, In);
	const unsigned n = unsigned(s.below(60));
	unsigned pops = 0, full = 0;
	s.note("bit_buffer<", Out, ",", In, ">:");
	auto check = [&] {
		PBT_CHECK(b.empty() == m.empty());
		PBT_CHECK(b.full() == (m.size() == cap));
		PBT_CHECK(size_t(b.size()) == m.size() / Out, << "size() is " << size_t(b.size()) << " with " << m.size() << " bits");
		PBT_CHECK(size_t(b.unused_size()) == (cap - m.size()) / In, << "unused_size() is " << size_t(b.unused_size()) << " with " << m.size() << " bits of " << cap);
		if constexpr (requires { b.has_bits_for_pop(); }) PBT_CHECK(b.has_bits_for_pop() == (m.size() >= Out));
		if constexpr (requires { b.has_capacity_for_push(); }) PBT_CHECK(b.has_capacity_for_push() == (m.size() + In <= cap));
		if (m.size() >= Out) {
			uint64_t w = 0;
			for (size_t k = 0; k < Out; ++k) w = w << 1 | (m[k] ? 1u : 0u);
			PBT_CHECK(uint64_t(b.front()) == w, << "front() is " << uint64_t(b.front()) << " instead of " << w);
		}
	};
	check();
	for (unsigned i = 0; i < n; ++i) {
		if (s.below(2) == 0) {
			if (m.size() + In > cap) continue;
			const uint64_t x = s.u64();
			b.push(static_cast<uint_of<In>>(x));
			for (size_t k = In; k-- > 0;) m.push_back((x >> k) & 1u);
			s.note(" push");
		} else {
			if (m.size() < Out) continue;
			b.pop();
			m.erase(m.begin(), m.begin() + long(Out));
			s.note(" pop");
			++pops;
		}
		full += m.size() == cap;
		check();
	}
	s.nontrivial(pops > 1);
	if (full) s.label("buffer was full");
	// finish with padding, like the views do
	if constexpr (requires { b.push_zeros_to_align(); }) {
		if (!m.empty() && m.size() < Out && s.below(2)) {
			size_t missing = Out - m.size();
			PBT_CHECK(size_t(b.push_zeros_to_align()) == missing);
			for (; missing; --missing) m.push_back(false);
			check();
			s.label("aligned with zeros");
		}
	}
}

using fn = void (*)(Src &);

template <size_t Out, typename T> constexpr bool supported() {
	// 64 bits hold at least one group, and a chunk is narrower than the storage (32-bit one as well)
	constexpr size_t cap = std::lcm(Out, sizeof(T) * 8);
	return cap <= 64 && !(Out == 32 && cap == 32) && Out < 64;
}

template <typename T, size_t... Outs> void add_all(std::vector<fn> & c, std::index_sequence<Outs...>) {
	auto one = [&]<size_t Out>(std::index_sequence<Out>) {
		if constexpr (supported<Out, T>()) {
			c.push_back(chunks<Out, false, T>);
			c.push_back(chunks<Out, true, T>);
		}
	};
	(one(std::index_sequence<Outs>{}), ...);
}
template <size_t In, size_t... Outs> void add_fifo(std::vector<fn> & c, std::index_sequence<Outs...>) {
	(c.push_back(fifo<Outs, In>), ...);
}

std::vector<fn> chunk_fns8();
std::vector<fn> huge_fns();
std::vector<fn> chunk_fns16();
std::vector<fn> fifo_fns();
#if PART == 0
std::vector<fn> chunk_fns8() {
	std::vector<fn> c;
	add_all<uint8_t>(c, std::index_sequence<1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 20, 24, 28, 40, 48, 56>{});
	return c;
}
std::vector<fn> huge_fns() {
	std::vector<fn> c;
	auto one = [&]<typename T, size_t... Outs>(T, std::index_sequence<Outs...>) {
		(c.push_back(huge<Outs, false, T>), ...);
		(c.push_back(huge<Outs, true, T>), ...);
	};
	one(uint8_t(), std::index_sequence<1, 2, 3, 4, 5, 6, 7>{});
	one(uint16_t(), std::index_sequence<1, 3, 4, 6>{});
	one(uint32_t(), std::index_sequence<1, 2, 4>{});
	return c;
}
#elif PART == 1
std::vector<fn> chunk_fns16() {
	std::vector<fn> c;
	add_all<uint16_t>(c, std::index_sequence<1, 2, 3, 4, 6, 8, 12, 16, 24, 48>{});
	add_all<int32_t>(c, std::index_sequence<1, 2, 4, 8, 16>{});
	add_all<uint64_t>(c, std::index_sequence<1, 2, 4, 8, 16, 32>{});
	return c;
}
#else
std::vector<fn> fifo_fns() {
	std::vector<fn> c;
	add_fifo<8>(c, std::index_sequence<1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 20, 24, 28, 40, 48, 56>{});
	add_fifo<16>(c, std::index_sequence<1, 2, 3, 4, 6, 8, 12, 16, 24, 48>{});
	add_fifo<32>(c, std::index_sequence<1, 2, 4, 8, 16>{});
	add_fifo<64>(c, std::index_sequence<1, 2, 4, 8, 16, 32>{});
	return c;
}
static void any(Src & s, const std::vector<fn> & f) {
	f[s.below(f.size())](s);
}
void pbt::late_init() {
	auto rnd = [](const char * n, void (*f)(Src &), uint64_t q, uint64_t t) {
		auto & p = add(n, f);
		p.quick = q;
		p.thorough = t;
	};
	rnd("chunks_of_bytes", [](Src & s) { static const auto f = chunk_fns8(); any(s, f); }, 250000, 6000000);
	rnd("chunks_of_wide", [](Src & s) { static const auto f = chunk_fns16(); any(s, f); }, 200000, 5000000);
	rnd("huge_sizes", [](Src & s) { static const auto f = huge_fns(); any(s, f); }, 20000, 500000);
	auto & lw = add("long_walks", long_walks);
	lw.systematic = 4;
	lw.cpu_limit = 400;
	lw.shrink = false;
	lw.on_request = true;
	rnd("fifo", [](Src & s) { static const auto f = fifo_fns(); any(s, f); }, 200000, 5000000);
}
#endif
