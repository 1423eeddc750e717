// Small property-based-testing engine: choice-sequence generators, forked workers,
// shrinking in fresh processes, deterministic seeds, replay files.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <initializer_list>
#include <sstream>
#include <algorithm>

namespace pbt {

inline uint64_t splitmix(uint64_t & x) {
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
inline uint64_t hash_str(const char * s) {
	uint64_t h = 1469598103934665603ull;
	for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
	return h;
}

// Deterministic bulk data generator, seeded from a recorded choice.
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed * 0x2545F4914F6CDD1Dull + 0x1234567) {}
	uint64_t next() { return splitmix(s); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	uint64_t operator()() { return next(); }
	typedef uint64_t result_type;
	static constexpr uint64_t min() { return 0; }
	static constexpr uint64_t max() { return ~0ull; }
};

static const size_t MAX_CHOICES = 1 << 17;

// Source of recorded choices. Choice value 0 is always the simplest alternative.
class Src {
public:
	// n == 0 means the full 64-bit range
	uint64_t raw(uint64_t n) {
		uint64_t v;
		if (m_replay) {
			v = m_pos < m_in->size() ? (*m_in)[m_pos] : 0;
			if (n && v >= n) v %= n;
		} else {
			v = splitmix(m_state);
			if (n) v %= n;
			if (m_pos >= MAX_CHOICES) v = 0;
		}
		if (m_pos < MAX_CHOICES && m_out) { m_out[m_pos] = v; *m_outLen = m_pos + 1; }
		++m_pos;
		return v;
	}
	uint64_t below(uint64_t n) { return n <= 1 ? 0 : raw(n); }
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
	bool chance(unsigned num, unsigned den) { return raw(den) >= den - num; }
	bool flip() { return raw(2) == 1; }
	// index of a weighted alternative; the first is the simplest
	size_t weighted(std::initializer_list<unsigned> w) {
		unsigned t = 0; for (unsigned x : w) t += x;
		uint64_t v = raw(t); size_t i = 0;
		for (unsigned x : w) { if (v < x) return i; v -= x; ++i; }
		return 0;
	}
	template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
	template <typename T> const T & pick(const std::vector<T> & l) { return l[below(l.size())]; }
	// continuation flag of a list with about `avg` elements
	bool more(unsigned avg) { return raw(avg + 1) != 0; }
	// size with mixed distribution: tiny, small, near a multiple of `unit`, or uniform up to max
	uint64_t size(uint64_t max, uint64_t unit = 16) {
		uint64_t r;
		switch (weighted({3, 3, 3, 2, 1})) {
		case 0: r = below(4); break;
		case 1: r = below(unit + 1); break;
		case 2: { uint64_t k = max / (unit ? unit : 1); if (k > 8) k = 8;
			r = (1 + below(k)) * unit; uint64_t d = below(3); if (d == 1 && r) --r; else if (d == 2) ++r; break; }
		case 3: r = below(max / 4 + 1); break;
		default: r = below(max + 1); break;
		}
		return r > max ? max : r;
	}
	uint64_t u64() {
		switch (weighted({3, 2, 2, 2})) {
		case 0: return raw(16);
		case 1: return raw(1000);
		case 2: { uint64_t b = raw(64); uint64_t v = 1ull << b; int64_t d = (int64_t)raw(3) - 1; return v + (uint64_t)d; }
		default: return raw(0);
		}
	}
	Rng bulk() { return Rng(raw(0)); }
	uint64_t position() const { return m_pos; }

	// engine use
	Src(uint64_t seed, uint64_t * out, uint64_t * outLen) : m_replay(false), m_in(0), m_state(seed), m_out(out), m_outLen(outLen) {}
	Src(const std::vector<uint64_t> * in, uint64_t * out, uint64_t * outLen) : m_replay(true), m_in(in), m_state(0), m_out(out), m_outLen(outLen) {}
private:
	bool m_replay;
	const std::vector<uint64_t> * m_in;
	uint64_t m_state;
	uint64_t * m_out;
	uint64_t * m_outLen;
	uint64_t m_pos = 0;
};

struct Fail { std::string msg; };

class Ctx {
public:
	void label(const char * name);            // classify the case
	void labelf(const char * fmt, ...) __attribute__((format(printf, 2, 3)));
	void nontrivial(bool b = true) { if (b) m_nontrivial = true; }
	void trace(const char * fmt, ...) __attribute__((format(printf, 2, 3)));
	[[noreturn]] void fail(const char * fmt, ...) __attribute__((format(printf, 2, 3)));
	void check(bool c, const char * what) { if (!c) fail("%s", what); }
	bool verbose = false;
	bool keep = false;        // keep trace text (replay or sampling)
	bool thorough = false;
	uint64_t index = 0;       // case index inside the scenario
	std::string dir;          // private scratch directory of the worker, exists
	std::string text;
	bool m_nontrivial = false;
};

#define PBT_CHECK(ctx, cond, ...) do { if (!(cond)) { std::string pbt_m_ = ::pbt::strf(__VA_ARGS__); (ctx).fail("%s [%s]", pbt_m_.c_str(), #cond); } } while (0)

std::string strf(const char * fmt, ...) __attribute__((format(printf, 1, 2)));

struct Scenario {
	const char * name;
	void (*fn)(Src &, Ctx &);
	unsigned quick;      // number of cases, quick tier
	unsigned thorough;   // number of cases, thorough tier
	unsigned batch = 24; // cases per worker process
	double hang_s = 60;  // no progress for this long counts as a hang (confirmed by replay)
};

struct Suite {
	const char * property;
	const char * rule;
	std::vector<Scenario> scenarios;
	unsigned leak_every = 23;                          // one in so many cases is repeated to look for leaks (0: none)
	void (*setup)(const std::string & dir) = nullptr;  // in each worker process, once
	void (*before)(Ctx &) = nullptr;                   // before each case
	void (*after)(Ctx &) = nullptr;                    // after each passing case; may fail()
	void (*teardown)() = nullptr;                      // at the end of a worker process
};

int main_loop(int argc, char ** argv, const Suite & suite);

// Runs fn in a forked child; returns wait status.
int run_forked(const std::function<void()> & fn);
void rm_rf(const std::string & path);    // refuses paths outside the scratch root
const std::string & scratch_root();

} // namespace pbt
