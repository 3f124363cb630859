// generators shared by harnesses: message contents, guarded buffers, chunk lengths
#pragma once
#include "pbt.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <vector>
#include <cstring>
#include <string>

using Bytes = std::vector<uint8_t>;

struct Content {
	unsigned kind;
	uint64_t seed;
	std::string str() const {
		static const char * n[] = {"00..", "random", "ff..", "80..", "counter", "one bit", "ascii", "7f..", "repeated word"};
		return std::string(n[kind]) + "(" + std::to_string(seed) + ")";
	}
	void fill(uint8_t * p, size_t n) const {
		if (!n) return;
		switch (kind) {
		case 0: memset(p, 0, n); break;
		case 2: memset(p, 0xff, n); break;
		case 3: memset(p, 0x80, n); break;
		case 7: memset(p, 0x7f, n); break;
		case 4:
			for (size_t i = 0; i < n; ++i) p[i] = uint8_t(i + seed);
			break;
		case 5:
			memset(p, 0, n);
			if (n) p[(seed >> 3) % n] = uint8_t(1u << (seed & 7u));
			break;
		case 6: {
			pbt::Rng r{seed};
			for (size_t i = 0; i < n; ++i) p[i] = uint8_t(' ' + r.next() % 95u);
			break;
		}
		case 8: {
			uint64_t w = pbt::mix(seed);
			for (size_t i = 0; i < n; ++i) p[i] = uint8_t(w >> (8 * (i & 7)));
			break;
		}
		default: {
			pbt::Rng r{seed};
			size_t i = 0;
			for (; i + 8 <= n; i += 8) {
				uint64_t v = r.next();
				memcpy(p + i, &v, 8);
			}
			uint64_t v = r.next();
			for (; i < n; ++i, v >>= 8) p[i] = uint8_t(v);
		}
		}
	}
};

inline Content gen_content(pbt::Src & s) {
	Content c{};
	switch (s.weighted({1, 12, 1, 1, 1, 1, 2, 1, 1})) {
	case 0: c.kind = 0; break;
	case 1: c.kind = 1; break;
	case 2: c.kind = 2; break;
	case 3: c.kind = 3; break;
	case 4: c.kind = 4; break;
	case 5: c.kind = 5; break;
	case 6: c.kind = 6; break;
	case 7: c.kind = 7; break;
	default: c.kind = 8; break;
	}
	c.seed = s.below(1u << 20);
	return c;
}

// memory with inaccessible pages on both sides: reading past either end kills the case.
// data either ends at the upper guard page, or starts `offset` bytes after the lower one.
class Guarded {
	uint8_t * base{nullptr};
	size_t cap{0};
	size_t page{4096};

public:
	Guarded() = default;
	Guarded(const Guarded &) = delete;
	~Guarded() {
		if (base) munmap(base, cap + 2 * page);
	}
	uint8_t * get(size_t n, bool at_end, size_t offset) {
		const size_t need = ((n + 64 + page - 1) / page) * page;
		if (need > cap) {
			if (base) munmap(base, cap + 2 * page);
			cap = need < (1u << 16) ? (1u << 16) : need;
			base = static_cast<uint8_t *>(mmap(nullptr, cap + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
			if (base == MAP_FAILED) {
				base = nullptr;
				cap = 0;
				throw pbt::Discard{};
			}
			mprotect(base + page, cap, PROT_READ | PROT_WRITE);
		}
		if (at_end) return base + page + cap - n;
		return base + page + (offset & 63u);
	}
};
