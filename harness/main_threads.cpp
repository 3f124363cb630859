// hashers and values have no hidden shared state: threads with their own objects, or reading common ones, don't
// influence each other (built with a race detector)
#include "cth.hpp"
#include "gen.hpp"
#include "iface.hpp"
#include <algorithm>
#include <atomic>
#include <span>
#include <sstream>
#include <thread>
#include <sys/wait.h>
#include <unistd.h>

using namespace pbt;

static void threads(Src & s) {
	struct Job {
		const Alg * a;
		uint64_t seed;
		std::vector<std::pair<size_t, size_t>> chunks;
		Bytes want, want_shared, got, got_shared, got_common;
		unsigned out;
		size_t extra;
		std::string want_text, got_text;
	};
	Bytes pool(6000);
	gen_content(s).fill(pool.data(), pool.size());
	const auto & shared_alg = algs()[s.below(algs().size())];
	const uint64_t shared_seed = shared_alg.seeded ? s.u64() : 0;
	const size_t shared_len = s.below(500);
	auto shared = shared_alg.make(shared_seed);
	shared->update(K_SPAN_BYTE, pool.data(), shared_len);
	RefStream shared_ref(shared_alg, shared_seed);
	shared_ref.update(pool.data(), shared_len);
	const unsigned shared_out = shared_alg.outbits ? shared_alg.outbits : shared_alg.outs[s.below(shared_alg.outs.size())];
	std::vector<Job> jobs(s.range(2, 4));
	s.note(jobs.size(), " threads, all copy ", shared_alg.name, ":");
	for (auto & j: jobs) {
		j.a = &algs()[s.below(algs().size())];
		j.seed = j.a->seeded ? s.u64() : 0;
		j.out = j.a->outbits ? j.a->outbits : j.a->outs[s.below(j.a->outs.size())];
		RefStream r(*j.a, j.seed);
		const auto n = s.range(1, 5);
		s.note(" ", j.a->name, " x", n);
		for (uint64_t i = 0; i < n; ++i) {
			const size_t at = s.below(3000), len = s.below(j.a->block * 3);
			j.chunks.push_back({at, len});
			r.update(pool.data() + at, len);
		}
		j.want = r.final(j.out);
		j.extra = s.below(300);
		RefStream sr(shared_ref);
		sr.update(pool.data() + j.extra, j.extra);
		j.want_shared = sr.final(shared_out);
	}
	const auto want_common = shared_ref.final(shared_out);
	cthash::hash_value<32> value{};
	memcpy(value.data(), pool.data(), 32);
	std::atomic<unsigned> ready{0};
	std::vector<std::thread> t;
	for (auto & j: jobs)
		t.emplace_back([&] {
			++ready;
			while (ready < jobs.size()) std::this_thread::yield();
			auto o = j.a->make(j.seed);
			auto copy = shared->clone(); // many readers of one hasher
			for (auto [at, len]: j.chunks) o->update(K_SPAN_BYTE, pool.data() + at, len);
			copy->update(K_SPAN_BYTE, pool.data() + j.extra, j.extra);
			// the digest of a common xxhash hasher can be taken by many
			if (shared_alg.family == F_XXH) j.got_common = shared->final_value(shared_out);
			j.got = o->final_value(j.out);
			j.got_shared = copy->final_value(shared_out);
			std::ostringstream str;
			str << value << to_string<cthash::encoding::base64>(value) << (value == value);
#ifdef __cpp_lib_format
			str << std::format("{:base32}", value);
#endif
			j.got_text = str.str();
		});
	for (auto & x: t) x.join();
	s.nontrivial();
	for (auto & j: jobs) {
		PBT_CHECK(j.got == j.want, << j.a->name << " gives " << hex(j.got.data(), j.got.size()) << " in a thread instead of " << hex(j.want.data(), j.want.size()));
		PBT_CHECK(j.got_shared == j.want_shared, << "copy of common " << shared_alg.name << " gives " << hex(j.got_shared.data(), j.got_shared.size()) << " instead of " << hex(j.want_shared.data(), j.want_shared.size()));
		PBT_CHECK(shared_alg.family != F_XXH || j.got_common == want_common, << "common " << shared_alg.name << " gives " << hex(j.got_common.data(), j.got_common.size()) << " instead of " << hex(want_common.data(), want_common.size()));
		PBT_CHECK(j.got_text == jobs[0].got_text);
	}
}

// everything a thread can do with a value, as text
template <typename V> static std::string all_texts(const V & value, const V & other) {
	std::ostringstream str;
	std::wostringstream wide;
	wide << value;
	str << value << value.template prefix<3>() << value.template suffix<5>() << (value == other) << (value < other) << (value >= other);
	auto each = [&]<typename... Es>(cthash::encoding::list<Es...>) {
		((str << to_string<Es>(value) << std::string_view(to_fixed_string<Es>(value)) << (value | cthash::encode_to<Es>)), ...);
		((wide << to_string<Es, wchar_t>(value)), ...);
		for (auto n: {Es::name...}) cthash::runtime_encoding(n).visit([&]<typename E>(E) { str << to_string<E>(value); });
	};
	each(cthash::encoding::known_encodings{});
	try {
		cthash::runtime_encoding("base65");
	} catch (const std::exception & e) {
		str << "rejected";
	}
#ifdef __cpp_lib_format
	str << std::format("{} {:base64} {:BASE16} {:octal} {:zbase32}", value, value, value, value, value);
	try {
		(void)std::vformat("{:base65}", std::make_format_args(value));
	} catch (const std::exception & e) {
		str << "rejected";
	}
#endif
	for (auto c: wide.str()) str << char(c);
	return str.str();
}

// nothing has been used before in the process: whatever is prepared by the first use is used by several threads at once
static void first_use(Src & s) {
	const auto & a = algs()[s.choice(algs().size())];
	const uint64_t seed = a.seeded ? s.u64() : 0;
	const unsigned out = a.outbits ? a.outbits : a.outs[s.below(a.outs.size())];
	Bytes m(s.below(a.block * 3));
	gen_content(s).fill(m.data(), m.size());
	const size_t cut = s.below(m.size() + 1);
	RefStream r(a, seed);
	r.update(m.data(), m.size());
	const Bytes want = r.final(out);
	const unsigned n = unsigned(s.range(2, 4));
	const bool text = s.below(2);
	s.note(n, " threads use ", a.name, text ? " and texts" : "", " for the first time");
	s.nontrivial();
	fflush(nullptr);
	const pid_t pid = fork();
	if (pid < 0) throw Discard{};
	if (pid == 0) {
		std::vector<Bytes> got(n);
		std::vector<std::string> texts(n);
		std::atomic<unsigned> ready{0};
		std::vector<std::thread> t;
		for (unsigned i = 0; i < n; ++i)
			t.emplace_back([&, i] {
				++ready;
				while (ready < n) std::this_thread::yield();
				auto o = a.make(seed);
				o->update(K_SPAN_BYTE, m.data(), cut);
				auto c = o->clone();
				c->update(K_SPAN_BYTE, m.data() + cut, m.size() - cut);
				got[i] = c->final_value(out);
				if (text) {
					// relaxed: nothing orders the threads
					cthash::hash_value<16> v{};
					memcpy(v.data(), want.data(), std::min<size_t>(want.size(), 16));
					texts[i] = all_texts(v, cthash::hash_value<16>("00112233445566778899aAbBcCdDeEfF"));
				}
			});
		for (auto & x: t) x.join();
		int rc = 0;
		for (unsigned i = 0; i < n; ++i)
			if (got[i] != want || texts[i] != texts[0]) rc = 7;
		_exit(rc);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	PBT_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 7), << "threads which use " << a.name << " first give wrong results");
	PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, << "threads which use " << a.name << " first: race or crash (status " << st << ", see above)");
}

void pbt::late_init() {
	// before all others: it needs a process which has used nothing yet
	auto & fu = add("first_use", first_use);
	for (auto & a: algs())
		if (a.fill_outs) a.fill_outs(a);
	std::sort(algs().begin(), algs().end(), [](auto & x, auto & y) { return x.name < y.name; });
	fu.systematic = algs().size();
	fu.reps_quick = 8;
	fu.reps_thorough = 60;
	fu.shrink = false;
	auto & p = add("threads", threads);
	p.quick = 4000;
	p.thorough = 60000;
}
