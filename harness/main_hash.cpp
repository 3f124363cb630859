// properties of the hashers, over whatever algorithms are linked in
#include "gen.hpp"
#include "iface.hpp"
#include <algorithm>
#include <atomic>
#include <new>
#include <optional>

using namespace pbt;

static const Alg & nth_alg(uint64_t i) { return algs()[i]; }

static unsigned gen_outbits(Src & s, const Alg & a) {
	if (a.outbits) return a.outbits;
	return a.outs[s.below(a.outs.size())];
}

static uint64_t gen_seed(Src & s, const Alg & a) {
	if (!a.seeded) return 0;
	static const uint64_t special[] = {0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x9E3779B1u, 0x61c8864fu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0x9E3779B185EBCA87ull};
	switch (s.below(4)) {
	case 0: return 0;
	case 1: return special[s.below(std::size(special))];
	case 2: return s.below(256);
	default: return s.u64();
	}
}

static Guarded gbuf;

// places the message next to an inaccessible page or at some alignment
static const uint8_t * place(Src & s, const uint8_t * p, size_t n) {
	const uint64_t w = s.below(17); // 0 = touches the upper guard page
	uint8_t * q = gbuf.get(n, w == 0, w == 0 ? 0 : w - 1u);
	if (n) memcpy(q, p, n);
	return q;
}

static void expect_digest(const Alg & a, const Bytes & got, const Bytes & want, const char * what, size_t len) {
	if (got.size() != want.size()) fail(a.name + ": " + what + ": digest of " + std::to_string(got.size()) + " bytes instead of " + std::to_string(want.size()));
	if (got != want) fail(a.name + ": " + what + " of " + std::to_string(len) + " bytes is " + hex(got.data(), got.size(), 80) + " and not " + hex(want.data(), want.size(), 80));
}

// takes the digest, either as a value or written into a caller's buffer
static Bytes take(Src & s, const Alg & a, Obj & o, unsigned outbits) {
	if (a.outbits == 0 || s.below(2) == 0) return o.final_value(outbits);
	constexpr size_t pad = 40;
	const size_t n = a.outbits / 8;
	const size_t al = s.below(9);
	Bytes buf(n + 2 * pad + 16, 0xA7);
	if (!o.final_into(buf.data() + pad + al)) return o.final_value(outbits);
	for (size_t i = 0; i < buf.size(); ++i)
		if ((i < pad + al || i >= pad + al + n) && buf[i] != 0xA7) fail(a.name + ": final(span) wrote outside of the digest, at offset " + std::to_string(long(i) - long(pad + al)) + " of a digest of " + std::to_string(n));
	return Bytes(buf.begin() + long(pad + al), buf.begin() + long(pad + al + n));
}

static void expect_size(const Alg & a, const Obj & o, size_t n) {
	if (a.has_size && o.size() != n) fail(a.name + ": size() is " + std::to_string(o.size()) + " after " + std::to_string(n) + " bytes");
}

static bool upd(Obj & o, unsigned kind, const uint8_t * p, size_t n) {
	if (o.update(kind, p, n)) return true;
	o.update(K_SPAN_BYTE, p, n);
	return false;
}

static size_t gen_chunk(Src & s, const Alg & a, size_t total, size_t limit) {
	const size_t B = a.block;
	size_t n = 0;
	switch (s.weighted({3, 4, 3, 6, 4, 2, 1})) {
	case 0: n = 0; break;
	case 1: n = s.range(1, 17); break;
	case 2: n = s.below(2 * B + 2); break;
	case 3: { // ends the message close to a block boundary (or to the place where padding doesn't fit anymore)
		const size_t k = s.range(1, 4) * B;
		const int d = int(s.below(22)) - 19; // -19 .. +2
		const size_t fillup = (B - total % B) % B;
		n = fillup + k - B;
		n = d < 0 && n < size_t(-d) ? 0 : size_t(long(n) + d);
		break;
	}
	case 4: n = s.range(1, 6) * B; break;
	case 5: n = s.below(3000); break;
	default: n = s.below(70000);
	}
	return std::min(n, limit);
}

static uint64_t for_each_total(const std::function<uint64_t(const Alg &)> & f) {
	uint64_t t = 0;
	for (auto & a: algs()) t += f(a);
	return t;
}
// index -> (algorithm, index within it)
static std::pair<const Alg *, uint64_t> locate(uint64_t i, const std::function<uint64_t(const Alg &)> & f) {
	for (auto & a: algs()) {
		const auto n = f(a);
		if (i < n) return {&a, i};
		i -= n;
	}
	return {&algs().back(), 0};
}

static uint64_t len_count(const Alg & a) {
	return 4u * a.block + 40u;
}
static uint64_t split_count(const Alg & a) {
	return uint64_t(2 * a.block + 2) * (2 * a.block + 2);
}
static uint64_t out_count(const Alg & a) {
	return a.outs.size() * 6u;
}

// every length up to a few blocks, in one update and in many tiny ones
static void len_sweep(Src & s) {
	static const uint64_t total = for_each_total(len_count);
	const auto [a, len] = locate(s.choice(total), len_count);
	const auto c = gen_content(s);
	Bytes m(len);
	c.fill(m.data(), len);
	const auto seed = gen_seed(s, *a);
	const auto out = gen_outbits(s, *a);
	s.note(a->name, " one update of ", len, " bytes of ", c.str(), " seed ", seed, " out ", out);
	const auto want = ref_digest(*a, seed, out, m.data(), len);
	auto o = a->make(seed);
	upd(*o, K_SPAN_BYTE, place(s, m.data(), len), len);
	expect_size(*a, *o, len);
	expect_digest(*a, take(s, *a, *o, out), want, "digest", len);
	s.nontrivial();
	s.label(len == 0 ? "empty" : len < a->block ? "less than a block" : len % a->block == 0 ? "whole blocks" : "several blocks");
	const size_t step = s.range(1, 3);
	auto o2 = a->make(seed);
	for (size_t i = 0; i < len; i += step) {
		o2->update(K_SPAN_BYTE, m.data() + i, std::min(step, len - i));
	}
	expect_size(*a, *o2, len);
	expect_digest(*a, take(s, *a, *o2, out), want, "digest by tiny updates", len);
}

// every pair of first two chunk lengths in 0 .. 2 blocks + 1, and a tail
static void split2(Src & s) {
	static const uint64_t total = for_each_total(split_count);
	const auto [a, i] = locate(s.choice(total), split_count);
	const size_t w = 2 * a->block + 2;
	const size_t x = i / w, y = i % w;
	size_t z = 0;
	switch (s.below(4)) {
	case 0: break;
	case 1: z = 1; break;
	case 2: z = s.below(a->block + 1u); break;
	default: z = s.below(3 * a->block); break;
	}
	const auto c = gen_content(s);
	const auto seed = gen_seed(s, *a);
	const auto out = gen_outbits(s, *a);
	static Bytes m;
	m.resize(x + y + z);
	c.fill(m.data(), m.size());
	s.note(a->name, " updates of ", x, "+", y, "+", z, " bytes of ", c.str(), " seed ", seed, " out ", out);
	s.nontrivial(x + y + z != 0);
	s.label(x % a->block + y >= a->block ? "second chunk completes a block" : "second chunk stays in block");
	auto o = a->make(seed);
	const uint8_t * p = place(s, m.data(), m.size());
	o->update(K_SPAN_BYTE, p, x);
	o->update(K_SPAN_BYTE, p + x, y);
	if (z) o->update(K_SPAN_BYTE, p + x + y, z);
	expect_size(*a, *o, m.size());
	const auto got = take(s, *a, *o, out);
	expect_digest(*a, got, ref_digest(*a, seed, out, m.data(), m.size()), "digest of chunks", m.size());
}

// random histories of updates with digests of copies checked on the way
static void ops(Src & s) {
	const auto & a = nth_alg(s.below(algs().size()));
	const auto seed = gen_seed(s, a);
	const auto c = gen_content(s);
	static Bytes pool;
	const size_t limit = s.chance(1, 40) ? 300000 : 9000;
	pool.resize(limit);
	c.fill(pool.data(), limit);
	auto o = a.make(seed);
	RefStream r(a, seed);
	size_t total = 0;
	unsigned n = unsigned(s.below(14)), nonempty = 0;
	bool mid = false, carried = false;
	s.note(a.name, " seed ", seed, " ", c.str(), ":");
	for (unsigned i = 0; i < n; ++i) {
		const size_t len = gen_chunk(s, a, total, limit - total);
		s.note(" +", len);
		const uint8_t * p = place(s, pool.data() + total, len);
		const unsigned kind = unsigned(s.below(3)) == 0 ? K_SV : K_SPAN_BYTE;
		if (len && total % a.block) carried = true;
		upd(*o, kind, p, len);
		r.update(pool.data() + total, len);
		total += len;
		nonempty += len != 0;
		expect_size(a, *o, total);
		if (s.chance(1, 4)) {
			const auto out = gen_outbits(s, a);
			auto cp = o->clone();
			expect_digest(a, take(s, a, *cp, out), r.final(out), "digest of a copy", total);
			mid = true;
		}
	}
	const auto out = gen_outbits(s, a);
	s.note(" out ", out);
	expect_digest(a, take(s, a, *o, out), r.final(out), "digest after updates", total);
	s.nontrivial(nonempty >= 2 && carried);
	if (mid) s.label("digest of a copy mid-stream");
	if (carried) s.label("chunk met a partial block");
	if (total > 8 * a.block) s.label("more than 8 blocks");
	if (total > 65536) s.label("more than 64 KiB");
	if (total == 0) s.label("empty message");
}

// metamorphic: any two partitions of the same message end in the same digest, without a reference
static void partitions(Src & s) {
	const auto & a = nth_alg(s.below(algs().size()));
	const auto seed = gen_seed(s, a);
	const auto c = gen_content(s);
	const auto out = gen_outbits(s, a);
	const size_t limit = s.chance(1, 30) ? 200000 : 4000;
	Bytes m(limit);
	std::vector<size_t> cuts;
	size_t total = 0;
	const unsigned n = unsigned(s.range(1, 12));
	s.note(a.name, " seed ", seed, " ", c.str(), ": cuts");
	for (unsigned i = 0; i < n; ++i) {
		const size_t len = gen_chunk(s, a, total, limit - total);
		cuts.push_back(len);
		total += len;
		s.note(" ", len);
	}
	c.fill(m.data(), total);
	auto whole = a.make(seed);
	whole->update(K_SPAN_BYTE, m.data(), total);
	auto parts = a.make(seed);
	size_t at = 0;
	for (auto len: cuts) {
		const uint8_t * p = place(s, m.data() + at, len);
		upd(*parts, s.below(2) ? K_SV : K_SPAN_BYTE, p, len);
		at += len;
		expect_size(a, *parts, at);
	}
	const auto w = whole->final_value(out);
	expect_digest(a, take(s, a, *parts, out), w, "chunked digest", total);
	// a second, coarser partition: merge a random run of neighbours
	auto merged = a.make(seed);
	at = 0;
	for (size_t i = 0; i < cuts.size();) {
		size_t k = i, len = 0;
		const size_t run = s.range(1, 4);
		while (k < cuts.size() && k - i < run) len += cuts[k++];
		merged->update(K_SPAN_BYTE, m.data() + at, len);
		at += len;
		i = k;
	}
	expect_size(a, *merged, total);
	expect_digest(a, take(s, a, *merged, out), w, "digest of merged chunks", total);
	// empty updates don't matter wherever they are
	auto padded = a.make(seed);
	padded->update(K_SPAN_BYTE, nullptr, 0);
	const size_t cut = total ? s.below(total + 1) : 0;
	padded->update(K_SPAN_BYTE, m.data(), cut);
	padded->update(K_SV, m.data() + cut, 0);
	padded->update(K_SPAN_BYTE, m.data() + cut, total - cut);
	padded->update(K_SPAN_BYTE, m.data() + total, 0);
	expect_size(a, *padded, total);
	expect_digest(a, take(s, a, *padded, out), w, "digest with empty updates", total);
	s.nontrivial(cuts.size() > 1 && total > 0);
	s.label(total > a.block ? "longer than a block" : "within a block");
}

// every instantiated output length of SHAKE, and prefixes
static void out_lengths(Src & s) {
	static const uint64_t total = for_each_total(out_count);
	const auto [a, i] = locate(s.choice(total), out_count);
	const unsigned out = a->outs[i / 6];
	size_t len = 0;
	switch (i % 6) {
	case 0: len = 0; break;
	case 1: len = s.range(1, a->block - 2); break;
	case 2: len = a->block - 1; break;
	case 3: len = a->block; break;
	case 4: len = s.range(a->block + 1, 3 * a->block); break;
	default: len = s.below(2000);
	}
	const auto c = gen_content(s);
	Bytes m(len);
	c.fill(m.data(), len);
	s.note(a->name, " of ", len, " bytes of ", c.str(), ", ", out, " bits of output");
	auto o = a->make(0);
	const size_t cut = len ? s.below(len + 1) : 0;
	o->update(K_SPAN_BYTE, m.data(), cut);
	o->update(K_SPAN_BYTE, m.data() + cut, len - cut);
	auto o2 = o->clone();
	const auto got = o->final_value(out);
	expect_digest(*a, got, ref_digest(*a, 0, out, m.data(), len), "output", len);
	const unsigned other = a->outs[s.below(a->outs.size())];
	const auto got2 = o2->final_value(other);
	PBT_CHECK(got2.size() == other / 8u);
	PBT_CHECK(std::equal(got.begin(), got.begin() + long(std::min(got.size(), got2.size())), got2.begin()), << a->name << ": outputs of " << out << " and " << other << " bits aren't prefixes of each other");
	s.nontrivial();
	s.label(out / 8u < a->block ? "less than the rate" : (out / 8u) % a->block == 0 ? "multiple of the rate" : "several squeezes");
	if (out % 64u) s.label("not whole words");
}

// so many updates that a counter of them would overflow
static uint64_t many_count(const Alg &) { return 1; }
static void many_updates(Src & s) {
	static const uint64_t total = for_each_total(many_count);
	const auto [a, i] = locate(s.choice(total), many_count);
	const auto seed = gen_seed(s, *a);
	const auto out = gen_outbits(s, *a);
	const auto c = gen_content(s);
	static Bytes m;
	m.resize(66000 * 3);
	c.fill(m.data(), m.size());
	const size_t n = 65500 + s.below(500);
	const unsigned step = unsigned(s.below(4)); // 0: mixed
	s.note(a->name, " ", n, " updates of ", step ? std::to_string(step) : "0 to 3", " bytes, seed ", seed);
	auto o = a->make(seed);
	size_t at = 0;
	uint64_t x = s.u64();
	for (size_t k = 0; k < n; ++k) {
		x = x * 6364136223846793005ull + 1442695040888963407ull;
		const size_t len = step ? step : (x >> 60) & 3u;
		o->update(K_SPAN_BYTE, m.data() + at, len);
		at += len;
	}
	expect_size(*a, *o, at);
	s.nontrivial();
	expect_digest(*a, take(s, *a, *o, out), ref_digest(*a, seed, out, m.data(), at), "digest after many updates", at);
}

// histories over several hashers: copies, moves, assignments, interleaved updates
static void slots(Src & s) {
	struct Slot {
		const Alg * a;
		uint64_t seed;
		std::unique_ptr<Obj> o;
		Bytes msg;
		unsigned forked;
	};
	std::vector<Slot> v;
	const size_t limit = s.chance(1, 10) ? 40 : 5;
	auto take_and_check = [&](Slot & x) {
		const auto out = gen_outbits(s, *x.a);
		expect_size(*x.a, *x.o, x.msg.size());
		expect_digest(*x.a, take(s, *x.a, *x.o, out), ref_digest(*x.a, x.seed, out, x.msg.data(), x.msg.size()), "digest", x.msg.size());
	};
	const unsigned n = unsigned(s.range(3, limit > 5 ? 150 : 30));
	bool diverged = false, repeated = false, moved = false;
	static Bytes chunk;
	for (unsigned i = 0; i < n; ++i) {
		const auto op = v.empty() ? 0 : s.weighted({2, 8, 3, 2, 2, 2, 1});
		switch (op) {
		case 0: {
			if (v.size() >= limit) break;
			const auto & a = nth_alg(s.below(algs().size()));
			const auto seed = gen_seed(s, a);
			s.note(" new ", a.name, "(", seed, ")");
			v.push_back(Slot{&a, seed, a.make(seed), {}, 0});
			break;
		}
		case 1: {
			const size_t k = s.below(v.size());
			auto & x = v[k];
			const size_t len = gen_chunk(s, *x.a, x.msg.size(), 3000);
			const auto c = gen_content(s);
			s.note(" ", k, "+=", len);
			chunk.resize(len);
			c.fill(chunk.data(), len);
			const uint8_t * p = place(s, chunk.data(), len);
			upd(*x.o, s.below(2) ? K_SV : K_SPAN_BYTE, p, len);
			PBT_CHECK(len == 0 || memcmp(p, chunk.data(), len) == 0, << x.a->name << " changed its input");
			x.msg.insert(x.msg.end(), chunk.begin(), chunk.end());
			if (x.forked && len) diverged = true;
			break;
		}
		case 2: {
			if (v.size() >= limit) break;
			const size_t k = s.below(v.size());
			s.note(" ", v.size(), "=copy ", k);
			v[k].forked++;
			v.push_back(Slot{v[k].a, v[k].seed, v[k].o->clone(), v[k].msg, 1});
			break;
		}
		case 3: {
			const size_t k = s.below(v.size());
			s.note(" move ", k);
			v[k].o = v[k].o->move_out();
			moved = true;
			break;
		}
		case 4: { // assignment (of the same type)
			const size_t k = s.below(v.size()), j = s.below(v.size());
			if (v[k].a != v[j].a) break;
			if (v[k].o->copy_assign(*v[j].o)) {
				s.note(" ", k, "=", j);
				v[k].seed = v[j].seed;
				v[k].msg = v[j].msg;
				v[k].forked = v[j].forked = 1;
			}
			break;
		}
		case 5: { // digest, the hasher is gone (xxhash can go on)
			const size_t k = s.below(v.size());
			s.note(" final ", k);
			take_and_check(v[k]);
			if (v[k].a->family == F_XXH && s.below(2)) {
				repeated = true;
				if (s.below(2)) take_and_check(v[k]);
			} else
				v.erase(v.begin() + long(k));
			break;
		}
		default: { // digest of a copy
			const size_t k = s.below(v.size());
			s.note(" peek ", k);
			Slot tmp{v[k].a, v[k].seed, v[k].o->clone(), v[k].msg, 0};
			take_and_check(tmp);
		}
		}
	}
	for (auto & x: v) take_and_check(x);
	s.nontrivial(diverged);
	if (diverged) s.label("diverging copies");
	if (repeated) s.label("xxhash used after its digest was taken");
	if (moved) s.label("moved hasher");
}

// the same bytes in any form, at any alignment
static void forms(Src & s) {
	const auto & a = nth_alg(s.below(algs().size()));
	const auto seed = gen_seed(s, a);
	const auto out = gen_outbits(s, a);
	auto o = a.make(seed);
	auto plain = a.make(seed);
	Bytes msg, chunk;
	const unsigned n = unsigned(s.range(1, 6));
	unsigned distinct = 0, high = 0;
	s.note(a.name, " seed ", seed, ":");
	static const size_t fixed[] = {1, 65, 137, 300, 0};
	for (unsigned i = 0; i < n; ++i) {
		const unsigned kind = unsigned(s.below(K_COUNT));
		size_t len;
		if (kind >= K_ARRAY_BYTE)
			len = s.pick(fixed);
		else
			len = gen_chunk(s, a, msg.size(), 2000);
		Content c = gen_content(s);
		chunk.resize(len);
		c.fill(chunk.data(), len);
		const bool zero_inside = s.chance(1, 4) && len;
		if (zero_inside) chunk[s.below(len)] = 0; // zero bytes don't end anything
		if (zero_inside && s.below(2)) chunk.back() = 0;
		for (auto b: chunk) high += b >= 0x80;
		const uint8_t * p = place(s, chunk.data(), len);
		const bool ok = upd(*o, kind, p, len);
		s.note(" ", ok ? kind_names[kind] : "span<const byte>", "[", len, "]");
		if (ok) s.label(kind_names[kind]);
		distinct += ok && kind != K_SPAN_BYTE;
		plain->update(K_SPAN_BYTE, chunk.data(), len);
		msg.insert(msg.end(), chunk.begin(), chunk.end());
		expect_size(a, *o, msg.size());
	}
	const auto w = ref_digest(a, seed, out, msg.data(), msg.size());
	expect_digest(a, take(s, a, *plain, out), w, "digest of span<const byte>", msg.size());
	expect_digest(a, take(s, a, *o, out), w, "digest of mixed input forms", msg.size());
	s.nontrivial(distinct && high);
	if (high) s.label("bytes above 0x7f");
}

// simple<H>(x), H{}.update(x).final() and update_and_final(x) mean the same as streaming
static void oneshot(Src & s) {
	const auto & a = nth_alg(s.below(algs().size()));
	const auto seed = gen_seed(s, a);
	const unsigned how = unsigned(s.below(3));
	const unsigned kind = unsigned(s.below(K_COUNT));
	static const size_t fixed[] = {1, 65, 137, 300, 0};
	size_t len;
	if (kind >= K_ARRAY_BYTE)
		len = s.pick(fixed);
	else
		len = gen_chunk(s, a, 0, s.chance(1, 20) ? 70000 : 2000);
	const auto c = gen_content(s);
	Bytes m(len);
	c.fill(m.data(), len);
	static const char * hows[] = {"simple", "update.final", "update_and_final"};
	s.note(a.name, " ", hows[how], "(", kind_names[kind], "[", len, "] of ", c.str(), ") seed ", seed);
	const uint8_t * p = place(s, m.data(), len);
	Bytes got;
	if (!a.oneshot(how, kind, seed, p, len, got)) {
		s.label("form not available");
		return;
	}
	expect_digest(a, got, ref_digest(a, seed, a.outbits, m.data(), len), hows[how], len);
	auto o = a.make(seed);
	const size_t cut = len ? s.below(len + 1) : 0;
	o->update(K_SPAN_BYTE, m.data(), cut);
	o->update(K_SPAN_BYTE, m.data() + cut, len - cut);
	expect_digest(a, o->final_value(0), got, "streamed digest, compared with one-shot,", len);
	s.nontrivial(len > 0);
	s.label(hows[how]);
	s.label(kind_names[kind]);
	if (len >= a.block) s.label("at least a block");
	if (seed) s.label("with seed");
}

// hashing doesn't allocate
static std::atomic<uint64_t> allocations{0};
static bool counting = false;
#ifdef COUNT_ALLOCATIONS
// every way to allocate ends in one of these
extern "C" {
void * __libc_malloc(size_t);
void * __libc_calloc(size_t, size_t);
void * __libc_realloc(void *, size_t);
void * __libc_memalign(size_t, size_t);
void * malloc(size_t n) {
	if (counting) ++allocations;
	return __libc_malloc(n);
}
void * calloc(size_t n, size_t m) {
	if (counting) ++allocations;
	return __libc_calloc(n, m);
}
void * realloc(void * p, size_t n) {
	if (counting) ++allocations;
	return __libc_realloc(p, n);
}
void * aligned_alloc(size_t a, size_t n) {
	if (counting) ++allocations;
	return __libc_memalign(a, n);
}
int posix_memalign(void ** p, size_t a, size_t n) {
	if (counting) ++allocations;
	return (*p = __libc_memalign(a, n)) ? 0 : 12;
}
}
#endif
static void no_alloc(Src & s) {
	const auto & a = nth_alg(s.below(algs().size()));
	const auto seed = gen_seed(s, a);
	auto o = a.make(seed);
	const size_t limit = s.chance(1, 6) ? 200000 : 20000;
	static Bytes m;
	m.resize(limit + 16);
	const size_t shift = s.below(16); // forms must not be copied to be aligned
	const auto c = gen_content(s);
	const uint8_t * p = m.data() + shift;
	c.fill(m.data() + shift, limit);
	size_t total = 0;
	const unsigned n = unsigned(s.range(1, 5));
	static const unsigned kinds[] = {K_SPAN_BYTE, K_SV, K_SPAN_UCHAR, K_SPAN_CHAR, K_SPAN_CHAR8, K_SPAN_INT8, K_U8SV};
	s.note(a.name, " at ", shift, ":");
	allocations = 0;
	for (unsigned i = 0; i < n; ++i) {
		const size_t len = s.chance(1, 10) ? s.below(limit - total + 1) : gen_chunk(s, a, total, limit - total);
		const unsigned kind = s.pick(kinds);
		s.note(" ", kind_names[kind], "[", len, "]");
		counting = true;
		const bool ok = o->update(kind, p + total, len);
		if (!ok) o->update(K_SPAN_BYTE, p + total, len);
		counting = false;
		total += len;
		if (len > 16384) s.label("update of more than 16 KiB");
	}
	PBT_CHECK(allocations == 0, << a.name << " allocated memory by update");
	const auto out = gen_outbits(s, a);
	uint8_t buf[64];
	const bool into = a.outbits && s.below(2);
	counting = true;
	const bool done = into && o->final_into(buf);
	counting = false;
	PBT_CHECK(allocations == 0, << a.name << " allocated memory by final");
	Bytes got;
	if (done) {
		got.assign(buf, buf + a.outbits / 8);
	} else {
		counting = true;
		got = o->final_value(out); // the vector returned here is one
		counting = false;
		PBT_CHECK(allocations <= 1, << a.name << " allocated memory by final");
	}
	expect_digest(a, got, ref_digest(a, seed, out, p, total), "digest", total);
	s.nontrivial(total > a.block);
}

static void prepare_algs() {
	for (auto & a: algs())
		if (a.fill_outs) a.fill_outs(a);
	std::sort(algs().begin(), algs().end(), [](auto & x, auto & y) { return x.family != y.family ? x.family < y.family : x.outbits != y.outbits ? x.outbits < y.outbits : x.name < y.name; });
}

#ifdef FUZZER
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
	prepare_algs();
	return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t * data, size_t size) {
	if (!size) return 0;
	Src s;
	s.mode = Src::BYTES;
	s.bytes = data + 1;
	s.bytes_len = size - 1;
	try {
		switch (data[0] % 5) {
		case 0: ops(s); break;
		case 1: slots(s); break;
		case 2: partitions(s); break;
		case 3: forms(s); break;
		default: oneshot(s);
		}
	} catch (const Discard &) {
	} catch (const Failure & f) {
		fprintf(stderr, "FAILED %s\n", f.msg.c_str());
		abort();
	}
	return 0;
}
#else
static bool registered = [] {
	auto & l = add("len_sweep", len_sweep);
	l.systematic = 1; // fixed later, when algorithms are known
	auto & sp = add("split2", split2);
	sp.systematic = 1;
	auto & ol = add("out_lengths", out_lengths);
	ol.systematic = 1;
	auto & mu = add("many_updates", many_updates);
	mu.systematic = 1;
	auto rnd = [](const char * n, void (*f)(Src &), uint64_t q, uint64_t t) {
		auto & p = add(n, f);
		p.quick = q;
		p.thorough = t;
	};
	rnd("ops", ops, 40000, 1500000);
	rnd("partitions", partitions, 40000, 1500000);
	rnd("slots", slots, 30000, 1000000);
	rnd("forms", forms, 60000, 2000000);
	rnd("oneshot", oneshot, 60000, 2000000);
	rnd("no_alloc", no_alloc, 5000, 100000);
	return true;
}();

void pbt::late_init() {
	prepare_algs();
	for (auto & p: registry()) {
		if (p.name == "len_sweep") p.systematic = for_each_total(len_count), p.reps_quick = 3, p.reps_thorough = 40;
		if (p.name == "many_updates") p.systematic = for_each_total(many_count), p.reps_quick = 2, p.reps_thorough = 20;
		if (p.name == "split2") p.systematic = for_each_total(split_count), p.reps_thorough = 4;
		if (p.name == "out_lengths") p.systematic = for_each_total(out_count), p.reps_quick = 3, p.reps_thorough = 30;
	}
	registry().erase(std::remove_if(registry().begin(), registry().end(), [](auto & p) { return (p.name == "out_lengths" && p.systematic == 0); }), registry().end());
}
#endif
