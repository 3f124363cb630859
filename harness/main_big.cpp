// messages around 2^29 (bit length doesn't fit 32 bits), 2^31, 2^32 and more bytes
#include "gen.hpp"
#include "iface.hpp"
#include <algorithm>
#include <functional>
#include <set>
#include <thread>

using namespace pbt;

// a huge read-only range of addresses, backed by one small file mapped again and again
struct Alias {
	static constexpr size_t piece = 32u << 20;
	uint8_t * base{nullptr};
	size_t len{0};
	Alias(size_t n, uint64_t seed) {
		const int fd = memfd_create("cthash-big", 0);
		if (fd < 0 || ftruncate(fd, piece) != 0) throw Discard{};
		auto * w = static_cast<uint8_t *>(mmap(nullptr, piece, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		if (w == MAP_FAILED) throw Discard{};
		Content{1, seed}.fill(w, piece);
		munmap(w, piece);
		len = (n + piece - 1) / piece * piece;
		base = static_cast<uint8_t *>(mmap(nullptr, len + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		if (base == MAP_FAILED) throw Discard{};
		for (size_t o = 0; o < len; o += piece)
			if (mmap(base + o, piece, PROT_READ, MAP_SHARED | MAP_FIXED, fd, long(o)%long(piece)) == MAP_FAILED) throw Discard{};
		close(fd);
	}
	Alias(const Alias &) = delete;
	~Alias() {
		if (base) munmap(base, len + 4096);
	}
};

static void expect(const Alg & a, const Bytes & got, const Bytes & want, uint64_t at) {
	PBT_CHECK(got == want, << a.name << " of " << at << " bytes is " << hex(got.data(), got.size(), 64) << " and not " << hex(want.data(), want.size(), 64));
}

static unsigned outbits(const Alg & a) {
	return a.outbits ? a.outbits : 256;
}

// forms which don't copy
static const unsigned big_kinds[] = {K_SPAN_BYTE, K_SV, K_SPAN_UCHAR, K_SPAN_CHAR, K_SPAN_CHAR8, K_SPAN_INT8, K_U8SV};
static unsigned big_kind(Src & s, const Alg & a) {
	return big_kinds[s.below(a.full_kinds ? std::size(big_kinds) : 3)];
}

// one-shot functions: all lengths end soon behind the power of two
static void oneshot(Src & s, const Alg & a, unsigned log) {
	const uint64_t seed = a.seeded ? s.u64() : 0;
	const size_t base = size_t(1) << log;
	Alias m(base + 5000, s.below(1000));
	s.nontrivial();
	for (unsigned i = 0; i != (a.seeded ? 4u : 1u); ++i) {
		const size_t n = base + (i % 2 == 0 ? s.below(16) : s.below(5000));
		const unsigned kind = big_kind(s, a);
		const Bytes want = ref_digest(a, seed, outbits(a), m.base, n);
		Bytes got[3];
		bool ran[3]{};
		std::vector<std::thread> t;
		for (unsigned how = 0; how != 3; ++how) t.emplace_back([&, how] { ran[how] = a.oneshot(how, kind, seed, m.base, n, got[how]); });
		for (auto & x: t) x.join();
		for (unsigned how = 0; how != 3; ++how) {
			if (!ran[how]) continue;
			s.note(a.name, " one-shot way ", how, " of ", n, " bytes as ", kind_names[kind], " seed ", seed);
			expect(a, got[how], want, n);
		}
		auto o = a.make(seed);
		const size_t cut = s.below(n);
		o->update(K_SPAN_BYTE, m.base, cut);
		o->update(K_SPAN_BYTE, m.base + cut, n - cut);
		expect(a, o->final_value(outbits(a)), want, n);
	}
}

// one update with everything (after a few bytes)
static void span(Src & s, const Alg & a, unsigned log) {
	const uint64_t seed = a.seeded ? s.u64() : 0;
	const size_t before = s.below(a.block * 2), tail = s.below(5000);
	const size_t n = (size_t(1) << log) + tail;
	Alias m(n + before, s.below(1000));
	const unsigned kind = big_kind(s, a);
	s.note(a.name, " updates of ", before, " and of ", n, " bytes as ", kind_names[kind], ", seed ", seed);
	s.nontrivial();
	auto o = a.make(seed);
	RefStream r(a, seed);
	o->update(K_SPAN_BYTE, m.base, before);
	r.update(m.base, before);
	PBT_CHECK(o->update(kind, m.base + before, n), << a.name << " has no update for " << kind_names[kind]);
	r.update(m.base + before, n);
	if (a.has_size) PBT_CHECK(o->size() == n + before, << a.name << " size() is " << o->size() << " after " << n + before);
	expect(a, o->clone()->final_value(outbits(a)), r.final(outbits(a)), n + before);
	// and go on
	const size_t more = s.below(300);
	o->update(K_SPAN_BYTE, m.base, more);
	r.update(m.base, more);
	expect(a, o->final_value(outbits(a)), r.final(outbits(a)), n + before + more);
}

// the same huge message in every form, a hasher each; the reference is computed once
static void forms(Src & s, const Alg & a, unsigned log) {
	const uint64_t seed = a.seeded ? s.u64() : 0;
	const size_t before = s.below(a.block), tail = s.below(5000);
	const size_t n = (size_t(1) << log) + tail;
	Alias m(n + before, s.below(1000));
	s.note(a.name, " updates of ", before, " and of ", n, " bytes in all forms, seed ", seed);
	s.nontrivial();
	const Bytes want = ref_digest(a, seed, outbits(a), m.base, n + before);
	std::vector<std::pair<unsigned, Bytes>> got;
	const std::function<void(size_t)> one = [&](size_t i) {
		auto o = a.make(seed);
		o->update(K_SPAN_BYTE, m.base, before);
		if (!o->update(big_kinds[i], m.base + before, n)) return;
		got[i] = {big_kinds[i], o->final_value(outbits(a))};
	};
	got.resize(std::size(big_kinds));
	std::vector<std::thread> t;
	for (size_t i = 0; i < std::size(big_kinds); ++i) t.emplace_back(one, i);
	for (auto & x: t) x.join();
	for (auto & [kind, d]: got)
		if (!d.empty()) PBT_CHECK(d == want, << a.name << " of " << n + before << " bytes, " << n << " of them as " << kind_names[kind] << ", is " << hex(d.data(), d.size(), 64) << " and not " << hex(want.data(), want.size(), 64));
}

// many updates, digests of copies taken around each power of two
static void chunks(Src & s, const Alg & a, unsigned log) {
	const uint64_t seed = a.seeded ? s.u64() : 0;
	std::set<uint64_t> stops;
	for (unsigned k = 24; k <= log; ++k)
		for (long d: {-65l, -9l, -1l, 0l, 1l, 55l, 64l}) stops.insert((uint64_t(1) << k) + uint64_t(d));
	stops.insert((uint64_t(1) << log) + 200 + s.below(3000));
	Alias m(Alias::piece * 2, s.below(1000));
	const size_t chunk = s.range(300000, 9000000);
	s.note(a.name, " chunks of ", chunk, " bytes up to 2^", log, ", seed ", seed, ", ", stops.size(), " digests on the way");
	s.nontrivial();
	auto o = a.make(seed);
	RefStream r(a, seed);
	uint64_t at = 0;
	for (auto stop: stops) {
		while (at < stop) {
			const size_t n = size_t(std::min<uint64_t>(chunk, stop - at));
			const uint8_t * p = m.base + at % Alias::piece;
			o->update(K_SPAN_BYTE, p, n);
			r.update(p, n);
			at += n;
		}
		if (a.has_size) PBT_CHECK(o->size() == at, << a.name << " size() is " << o->size() << " after " << at);
		expect(a, o->clone()->final_value(outbits(a)), r.final(outbits(a)), at);
	}
}

void pbt::late_init() {
	for (auto & a: algs())
		if (a.fill_outs) a.fill_outs(a);
	std::sort(algs().begin(), algs().end(), [](auto & x, auto & y) { return x.name < y.name; });
	for (auto & a: algs())
		for (unsigned log: {20u, 29u, 31u, 32u, 33u, 35u}) {
			for (int way: {0, 1, 2, 3}) {
				static const char * const names[] = {".span.", ".chunks.", ".oneshot.", ".forms."};
				auto & p = add("big." + a.name + names[way] + std::to_string(log), [&a, log, way](Src & s) { way == 0 ? span(s, a, log) : way == 1 ? chunks(s, a, log) : way == 2 ? oneshot(s, a, log) : forms(s, a, log); });
				p.quick = p.thorough = 1;
				p.cpu_limit = 6000;
				p.shrink = false;
			}
		}
}
