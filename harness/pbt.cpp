#include "pbt.hpp"
#include <chrono>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <exception>

namespace pbt {

static uint64_t fnv(const std::string & s) {
	uint64_t h = 0xcbf29ce484222325ull;
	for (unsigned char c: s) h = (h ^ c) * 0x100000001b3ull;
	return h;
}

static void arm(unsigned seconds) {
	// CPU time (not wall clock) of this process; expiry kills it and the parent sees which case was running
	itimerval t{};
	t.it_value.tv_sec = seconds;
	setitimer(ITIMER_PROF, &t, nullptr);
}

static double now() {
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static std::string jstr(const std::string & s) {
	std::string o = "\"";
	for (unsigned char c: s) {
		if (c == '"' || c == '\\') {
			o += '\\';
			o += char(c);
		} else if (c < 0x20 || c >= 0x7f) {
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			o += b;
		} else
			o += char(c);
	}
	return o + "\"";
}

static void set_msg(Shared * sh, const std::string & m) {
	size_t n = std::min(m.size(), sizeof(sh->msg) - 1u);
	memcpy(sh->msg, m.data(), n);
	sh->msg[n] = 0;
}

struct Outcome {
	bool failed{false}, discarded{false};
	std::string msg;
};

static Outcome run_case(const Prop & p, Src & s) {
	Outcome o;
	try {
		p.fn(s);
	} catch (const Failure & f) {
		o.failed = true;
		o.msg = f.msg;
	} catch (const Discard &) {
		o.discarded = true;
	} catch (const std::exception & e) {
		o.failed = true;
		o.msg = std::string("unexpected exception: ") + e.what();
	}
	return o;
}

// runs one tape in a forked child; true = it failed
static bool child_fails(const Prop & p, const std::vector<uint64_t> & tape, Shared * sh, bool noting = false) {
	sh->msg[0] = 0;
	sh->notes[0] = 0;
	fflush(nullptr);
	pid_t pid = fork();
	if (pid < 0) return false;
	if (pid == 0) {
		int dn = open("/dev/null", O_WRONLY);
		if (!noting) {
			dup2(dn, 1);
			dup2(dn, 2);
		}
		arm(p.cpu_limit);
		Src s;
		s.mode = Src::REPLAY;
		s.in = tape.data();
		s.in_len = tape.size();
		s.noting = true;
		s.live = sh->notes;
		auto o = run_case(p, s);
		if (o.failed) set_msg(sh, o.msg);
		_exit(o.failed ? 101 : 0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return false; // ended from outside: no verdict
	if (sh->msg[0] == 0) {
		if (WIFSIGNALED(st)) {
			int sg = WTERMSIG(st);
			set_msg(sh, sg == SIGPROF ? "does not end (CPU time limit of a case)" : std::string("died of signal ") + std::to_string(sg) + " (" + strsignal(sg) + ")");
		} else
			set_msg(sh, "ended with exit code " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report or abort)");
	}
	set_msg(sh, std::string(sh->msg) + "\ncase: " + sh->notes);
	return true;
}

static std::vector<uint64_t> shrink(const Prop & p, std::vector<uint64_t> t, Shared * sh) {
	unsigned budget = 2500;
	const double until = now() + 40;
	auto ok = [&](const std::vector<uint64_t> & c) {
		if (budget == 0 || now() > until) return false;
		--budget;
		return child_fails(p, c, sh);
	};
	while (!t.empty() && t.back() == 0) { // trailing zeros are implied
		auto c = t;
		c.pop_back();
		if (!ok(c)) break;
		t = c;
	}
	bool progress = true;
	while (progress && budget && now() < until) {
		progress = false;
		for (size_t len: {64u, 32u, 16u, 8u, 5u, 4u, 3u, 2u, 1u}) {
			for (size_t i = t.size() >= len ? t.size() - len + 1u : 0u; i-- > 0;) {
				if (t.size() < len) break;
				i = std::min(i, t.size() - len);
				auto c = t;
				c.erase(c.begin() + long(i), c.begin() + long(i + len));
				if (ok(c)) {
					t = c;
					progress = true;
				}
			}
		}
		for (size_t i = 0; i < t.size(); ++i) {
			if (t[i] == 0) continue;
			auto c = t;
			c[i] = 0;
			if (ok(c)) {
				t = c;
				progress = true;
				continue;
			}
			// bisect to the smallest failing value (assuming monotonicity)
			uint64_t lo = 0, hi = t[i];
			while (hi - lo > 1u) {
				c = t;
				c[i] = lo + (hi - lo) / 2u;
				if (ok(c)) {
					hi = c[i];
				} else
					lo = c[i];
				if (!budget) break;
			}
			if (hi != t[i]) {
				t[i] = hi;
				progress = true;
			}
			c = t;
			if (c[i] && (c[i] -= 1, ok(c))) {
				t = c;
				progress = true;
			}
		}
	}
	return t;
}

static std::vector<std::string> split(const std::string & s, char d) {
	std::vector<std::string> r;
	std::istringstream i(s);
	std::string x;
	while (std::getline(i, x, d)) r.push_back(x);
	return r;
}

static bool selected(const std::string & name, const std::vector<std::string> & sel) {
	if (sel.empty()) return true;
	for (auto & s: sel)
		if (name == s || (s.size() && s.back() == '*' && name.compare(0, s.size() - 1, s, 0, s.size() - 1) == 0)) return true;
	return false;
}

int main(int argc, char ** argv) {
	late_init();
	uint64_t seed = 1, shard = 0, shards = 1;
	double cap = 1e9, scale = 1;
	bool thorough = false;
	std::string out, replay, replay_out;
	std::vector<std::string> sel;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--seed")
			seed = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--shard") {
			auto v = split(val(), '/');
			shard = strtoull(v[0].c_str(), nullptr, 10);
			shards = strtoull(v[1].c_str(), nullptr, 10);
		} else if (a == "--cap")
			cap = atof(val().c_str());
		else if (a == "--scale")
			scale = atof(val().c_str());
		else if (a == "--thorough")
			thorough = true;
		else if (a == "--props")
			sel = split(val(), ',');
		else if (a == "--out")
			out = val();
		else if (a == "--replay")
			replay = val();
		else if (a == "--replay-out")
			replay_out = val();
		else if (a == "--list") {
			for (auto & p: registry()) printf("%s\n", p.name.c_str());
			return 0;
		} else {
			fprintf(stderr, "unknown argument %s\n", a.c_str());
			return 2;
		}
	}
	auto * sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	if (sh == MAP_FAILED) return 2;

	if (!replay.empty()) {
		FILE * f = fopen(replay.c_str(), "r");
		if (!f) {
			perror("replay");
			return 2;
		}
		char name[256];
		std::vector<uint64_t> t;
		if (fscanf(f, "prop %255s tape", name) != 1) return 2;
		unsigned long long v;
		while (fscanf(f, "%llu", &v) == 1) t.push_back(v);
		fclose(f);
		for (auto & p: registry())
			if (p.name == name) {
				const bool failed = child_fails(p, t, sh, true);
				printf("%s: %s\n%s\n", name, failed ? "FAILS" : "holds", failed ? sh->msg : "");
				return failed ? 1 : 0;
			}
		fprintf(stderr, "no such property check: %s\n", name);
		return 2;
	}

	fflush(nullptr);
	pid_t pid = fork();
	if (pid < 0) return 2;
	if (pid == 0) {
		const double start = now();
		FILE * f = fopen(out.c_str(), "w");
		FILE * fh = fopen((out + ".hashes").c_str(), "w");
		if (!f || !fh) _exit(3);
		fprintf(f, "{\"props\": [");
		bool first = true;
		for (size_t pi = 0; pi < registry().size(); ++pi) {
			auto & p = registry()[pi];
			if (!selected(p.name, sel) || (p.on_request && sel.empty())) continue;
			uint64_t total = thorough ? p.thorough : p.quick;
			if (p.systematic)
				total = p.systematic * (thorough ? p.reps_thorough : p.reps_quick);
			else if (scale != 1)
				total = std::max<uint64_t>(1, uint64_t(double(total) * scale));
			const uint64_t pseed = mix(seed ^ fnv(p.name));
			uint64_t done = 0, nontriv = 0, discarded = 0, planned = 0;
			std::unordered_set<uint64_t> seen;
			std::map<std::string, uint64_t> labels;
			std::vector<std::string> samples;
			bool stopped = false;
			sh->prop = pi;
			const uint64_t offset = fnv(p.name) % shards;
			// in systematic mode a scale below 1 visits an evenly spread subset
			const uint64_t stride = p.systematic && scale < 1 ? std::max<uint64_t>(1, uint64_t(1.0 / scale)) : 1;
			for (uint64_t k = (shard + offset) % shards; k * stride < total; k += shards) {
				const uint64_t c = stride == 1 ? k : std::min(total - 1, k * stride + mix(pseed ^ k) % stride);
				++planned;
				if (stopped) continue;
				if ((planned & 15u) == 0 && now() - start > cap) {
					stopped = true;
					continue;
				}
				Src s;
				s.mode = Src::RANDOM;
				s.rng.s = mix(pseed + 0x632be59bd9b4e019ull * (c + 1u));
				s.sh = sh;
				if (p.systematic) {
					s.forced = true;
					s.forced_first = c % p.systematic;
				}
				s.noting = samples.size() < 2u;
				sh->len = 0;
				sh->msg[0] = 0;
				sh->running = 1;
				arm(p.cpu_limit);
				auto o = run_case(p, s);
				sh->running = 0;
				if (o.failed) {
					set_msg(sh, o.msg);
					_exit(101);
				}
				++done;
				if (o.discarded) {
					++discarded;
					continue;
				}
				for (auto l: s.labels) ++labels[l];
				if (s.is_nontrivial) {
					uint64_t h = pseed;
					for (auto v: s.rec) h = mix(h ^ v);
					if (seen.insert(h).second) {
						++nontriv;
						fprintf(fh, "%016llx\n", (unsigned long long)h);
					}
					if (s.noting) samples.push_back(s.notes);
				}
			}
			arm(0);
			fprintf(f, "%s\n{\"name\": %s, \"planned\": %llu, \"evaluations\": %llu, \"discarded\": %llu, \"distinct_nontrivial\": %llu, \"labels\": {", first ? "" : ",", jstr(p.name).c_str(), (unsigned long long)planned, (unsigned long long)done, (unsigned long long)discarded, (unsigned long long)nontriv);
			first = false;
			bool fl = true;
			for (auto & [l, n]: labels) {
				fprintf(f, "%s%s: %llu", fl ? "" : ", ", jstr(l).c_str(), (unsigned long long)n);
				fl = false;
			}
			fprintf(f, "}, \"samples\": [");
			for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? ", " : "", jstr(samples[i]).c_str());
			fprintf(f, "]}");
		}
		fprintf(f, "\n], \"wall_s\": %.3f}\n", now() - start);
		fclose(f);
		fclose(fh);
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 2;
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
		fprintf(stderr, "worker was killed from outside\n");
		return 2;
	}
	if (!sh->running && !(WIFEXITED(st) && WEXITSTATUS(st) == 101)) {
		fprintf(stderr, "worker died outside of a case (status %x)\n", st);
		return 2;
	}
	// a case failed or killed the worker
	auto & p = registry()[sh->prop];
	std::vector<uint64_t> tape;
	for (size_t i = 0; i < sh->len; ++i) tape.push_back(uint64_t(sh->tape[i]));
	std::string msg = sh->msg;
	std::string shrunk = "no";
	if (p.shrink) {
		if (child_fails(p, tape, sh)) {
			tape = shrink(p, tape, sh);
			shrunk = "yes";
			if (child_fails(p, tape, sh)) msg = sh->msg;
		} else {
			shrunk = "failure did not repeat in isolation";
		}
	} else if (msg.empty() && WIFSIGNALED(st)) {
		msg = WTERMSIG(st) == SIGPROF ? "does not end (CPU time limit of a case)" : std::string("died of signal ") + strsignal(WTERMSIG(st));
	}
	FILE * f = fopen(replay_out.c_str(), "w");
	if (!f) return 2;
	fprintf(f, "prop %s tape", p.name.c_str());
	for (auto v: tape) fprintf(f, " %llu", (unsigned long long)v);
	fprintf(f, "\n# shrunk: %s\n", shrunk.c_str());
	for (auto & l: split(msg, '\n')) fprintf(f, "# %s\n", l.c_str());
	fclose(f);
	fprintf(stderr, "FAILED %s: %s\n", p.name.c_str(), msg.c_str());
	return 1;
}

} // namespace pbt

int main(int argc, char ** argv) {
	return pbt::main(argc, argv);
}
