// Uncompressed streams far beyond 2^32 bytes, items and blocks: sparse files, against a map of the items written.
#pragma once
#include "common.h"
#include <functional>
#include <map>
#include <sys/resource.h>
namespace tv {
// While this lives, files may be as large as they like: they are sparse.
struct AnySize { rlimit old; AnySize() { getrlimit(RLIMIT_FSIZE, &old); rlimit n = old; n.rlim_cur = n.rlim_max; setrlimit(RLIMIT_FSIZE, &n); } ~AnySize() { setrlimit(RLIMIT_FSIZE, &old); } };
// Can files of this size be made here?
inline bool sparse_ok(const std::string & dir, uint64_t bytes) {
	rlimit l; getrlimit(RLIMIT_FSIZE, &l); if (l.rlim_cur != RLIM_INFINITY && l.rlim_cur < bytes) return false;
	std::string p = dir + "/sparse"; int fd = ::open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0) return false;
	bool ok = ::ftruncate(fd, (off_t)bytes) == 0 && ::pwrite(fd, "x", 1, (off_t)bytes - 1) == 1; struct stat st; ok = ok && ::fstat(fd, &st) == 0 && st.st_blocks < 10000; ::close(fd); ::unlink(p.c_str()); return ok;
}
template <typename T> struct Huge {
	Src & s; Ctx & c; size_t bi;
	std::function<void(int64_t, int)> seek; // 0 beginning, 1 end, 2 current
	std::function<T()> read, back; std::function<void(const T &)> write; std::function<uint64_t()> sizeOf, offset; std::function<bool()> canRead, canBack; std::function<void(uint64_t)> truncate; std::function<void()> reopen, position;
	std::map<uint64_t, T> data; uint64_t size = 0, pos = 0, counter = 0, limit = 0, far = 0;
	Huge(Src & s, Ctx & c, size_t bi) : s(s), c(c), bi(bi) {}
	void observe(const char * op) {
		typedef unsigned long long L;
		PBT_CHECK(c, offset() == pos, "after %s: offset() is %llu, expected %llu", op, (L)offset(), (L)pos);
		PBT_CHECK(c, sizeOf() == size, "after %s: size() is %llu, expected %llu", op, (L)sizeOf(), (L)size);
		PBT_CHECK(c, canRead() == (pos < size), "after %s: can_read() is %d at %llu of %llu", op, canRead(), (L)pos, (L)size);
		PBT_CHECK(c, canBack() == (pos > 0), "after %s: can_read_back() is %d at %llu of %llu", op, canBack(), (L)pos, (L)size);
	}
	void expect(uint64_t at, const T & v, const char * op) { auto i = data.find(at); if (i != data.end()) PBT_CHECK(c, i->second == v, "%s at %llu of %llu gave %s, expected %s", op, (unsigned long long)at, (unsigned long long)size, v.str().c_str(), i->second.str().c_str()); }
	uint64_t somewhere() {
		uint64_t base;
		switch (s.weighted({3, 3, 2, 2, 1})) {
		case 0: base = 1ull << s.range(30, 33); break;                                  // items
		case 1: base = (1ull << s.range(31, 34)) / sizeof(T); break;                    // bytes
		case 2: base = (1ull << s.range(28, 32)) * bi; break;                           // blocks
		case 3: if (data.empty()) { base = 0; break; } { auto i = data.lower_bound(s.below(size + 1)); base = i == data.end() ? size : i->first; } break;
		default: base = s.chance(1, 2) ? 0 : size;
		}
		base %= limit + 1; uint64_t d = s.below(2 * bi + 2); base = s.flip() ? base + d : base - std::min(base, d);
		return std::min(base, limit);
	}
	void go(uint64_t to) { int w = (int)s.below(3); c.trace("seek to %llu, whence %d", (unsigned long long)to, w); seek(w == 0 ? (int64_t)to : w == 1 ? (int64_t)(to - size) : (int64_t)(to - pos), w); pos = to; observe("seek"); }
	void reads(size_t n) { for (size_t i = 0; i < n && pos < size; ++i) { expect(pos, read(), "read"); ++pos; } observe("read"); }
	void backs(size_t n) { for (size_t i = 0; i < n && pos > 0; ++i) { expect(pos - 1, back(), "read_back"); --pos; } observe("read_back"); }
	void run(uint64_t maxBytes) {
		limit = maxBytes / sizeof(T); size_t avg = 25;
		observe("open");
		while (s.more(avg)) switch (s.weighted({3, 4, 4, 3, 3, 1, 1})) {
		case 0: { uint64_t to = somewhere(); c.trace("truncate to %llu", (unsigned long long)to); truncate(to); data.erase(data.lower_bound(std::min(to, size)), data.end()); size = to; pos = std::min(pos, to); if (size > (1ull << 31)) ++far; observe("truncate"); break; }
		case 1: go(std::min(size, somewhere())); break;
		case 2: { size_t n = 1 + s.below(3 * bi); c.trace("write %zu items at %llu", n, (unsigned long long)pos); for (size_t i = 0; i < n; ++i) { T v = T::make(++counter * 0x9E3779B97F4A7C15ull); write(v); data.erase(pos); data.emplace(pos, v); ++pos; size = std::max(size, pos); } observe("write"); break; }
		case 3: { size_t n = 1 + s.below(3 * bi); c.trace("read %zu", n); reads(n); break; }
		case 4: { size_t n = 1 + s.below(3 * bi); c.trace("read back %zu", n); backs(n); break; }
		case 5: c.trace("reopen"); reopen(); pos = 0; observe("reopen"); break;
		default: if (position) { c.trace("position"); position(); observe("position"); }
		}
		c.trace("verify");
		for (int r = 0; r < 2; ++r) { for (auto i = data.begin(); i != data.end();) { uint64_t a = i->first, n = 0; while (i != data.end() && i->first == a + n) { ++i; ++n; } if (r) { seek((int64_t)(a + n), 0); pos = a + n; backs(n); } else { seek((int64_t)a, 0); pos = a; reads(n); } } if (!r) { reopen(); pos = 0; } }
		c.nontrivial(far > 0 && !data.empty() && data.rbegin()->first > (1ull << 30)); if (size > (1ull << 32)) c.label("more than 2^32 items"); if (size * sizeof(T) > (1ull << 32)) c.label("more than 4 GiB");
	}
};
} // namespace tv
