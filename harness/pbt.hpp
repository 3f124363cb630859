// Choice-sequence ("tape") property-based testing engine.
//
// Every case of a property is a pure function of a tape of choices.  A random case draws the choices from a
// generator seeded with (VERIF_SEED, property name, case number), so the outcome does not depend on the number
// of shards.  A worker process runs the cases; its current tape lives in memory shared with the parent, so any
// death of the worker (assertion, signal, sanitizer, endless loop) is attributed to the case it was running.
// The parent shrinks a failing tape by re-running candidates in forked children, and writes the replay file.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Failure {
	std::string msg;
};
struct Discard { };

[[noreturn]] inline void fail(const std::string & m) {
	throw Failure{m};
}

inline uint64_t mix(uint64_t z) {
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

struct Rng {
	uint64_t s;
	uint64_t next() {
		s += 0x9e3779b97f4a7c15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
};

constexpr size_t TAPE_MAX = 1u << 14;

struct Shared {
	volatile uint64_t prop;
	volatile uint64_t len;
	volatile uint64_t running; // 1 while a case runs
	volatile uint64_t tape[TAPE_MAX];
	char msg[8192];
	char notes[2048];
};

// where the choices of one case come from
struct Src {
	enum Mode { RANDOM, REPLAY, BYTES } mode{RANDOM};
	Rng rng{0};
	const uint64_t * in{nullptr};
	size_t in_len{0};
	const uint8_t * bytes{nullptr};
	size_t bytes_len{0};
	size_t pos{0};
	Shared * sh{nullptr};
	std::vector<uint64_t> rec;
	bool forced{false};
	uint64_t forced_first{0};

	// observations
	bool is_nontrivial{false};
	bool noting{false};
	std::string notes;
	char * live{nullptr};
	std::vector<const char *> labels;

	uint64_t choice(uint64_t n /* 0 means 2^64 */) {
		uint64_t v = 0;
		if (mode == REPLAY) {
			if (pos < in_len) v = in[pos];
			++pos;
			if (n && v >= n) v = n - 1u;
		} else if (mode == BYTES) {
			unsigned take = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
			while (take-- && pos < bytes_len) v = (v << 8) | bytes[pos++];
			if (n) v %= n;
		} else {
			if (forced && rec.empty()) {
				v = forced_first;
			} else {
				v = rng.next();
				if (n) v = static_cast<uint64_t>((static_cast<unsigned __int128>(v) * n) >> 64);
			}
		}
		if (rec.size() >= TAPE_MAX - 1u) throw Discard{};
		if (sh) {
			sh->tape[rec.size()] = v;
			sh->len = rec.size() + 1u;
		}
		rec.push_back(v);
		return v;
	}
	uint64_t below(uint64_t n) { return n <= 1 ? 0 : choice(n); }
	uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1u); }
	uint64_t u64() { return choice(0); }
	// true with probability num/den; shrinks to false
	bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
	// weighted choice: index
	size_t weighted(std::initializer_list<unsigned> w) {
		unsigned total = 0;
		for (auto x: w) total += x;
		uint64_t v = below(total);
		size_t i = 0;
		for (auto x: w) {
			if (v < x) return i;
			v -= x;
			++i;
		}
		return 0;
	}
	template <typename C> const auto & pick(const C & c) { return c[below(std::size(c))]; }

	void nontrivial(bool b = true) { is_nontrivial = is_nontrivial || b; }
	void label(const char * l) { labels.push_back(l); }
	template <typename... Ts> void note(const Ts &... ts) {
		if (noting && notes.size() < 1500) {
			std::ostringstream o;
			((o << ts), ...);
			notes += o.str();
			if (live) {
				size_t n = notes.size() < 2047u ? notes.size() : 2047u;
				memcpy(live, notes.data(), n);
				live[n] = 0;
			}
		}
	}
};

struct Prop {
	std::string name;
	std::function<void(Src &)> fn;
	uint64_t quick{0};	  // cases in quick tier (systematic: ignored)
	uint64_t thorough{0}; // cases in thorough tier
	uint64_t systematic{0}; // !=0: first choice enumerates 0..systematic-1
	unsigned reps_quick{1}, reps_thorough{1}; // repetitions of the enumeration with other random parts
	unsigned cpu_limit{60};				  // seconds of CPU a single case can take before it's a hang
	bool shrink{true};
	bool on_request{false}; // runs only when it's named
};

inline std::vector<Prop> & registry() {
	static std::vector<Prop> r;
	return r;
}
inline Prop & add(std::string name, std::function<void(Src &)> fn) {
	registry().push_back(Prop{std::move(name), std::move(fn)});
	return registry().back();
}

int main(int argc, char ** argv);
void late_init(); // defined by each harness, runs before anything else

inline std::string hex(const void * p, size_t n, size_t max = 48) {
	static const char d[] = "0123456789abcdef";
	std::string o;
	auto b = static_cast<const unsigned char *>(p);
	for (size_t i = 0; i < n && i < max; ++i) {
		o += d[b[i] >> 4];
		o += d[b[i] & 15];
	}
	if (n > max) o += "...";
	return o;
}

} // namespace pbt

#define PBT_CHECK(cond, ...) \
	do { \
		if (!(cond)) { \
			std::ostringstream pbt_o; \
			pbt_o << "" __VA_ARGS__; \
			::pbt::fail(std::string(#cond) + ": " + pbt_o.str()); \
		} \
	} while (0)
