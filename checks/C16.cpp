// C16: the in-memory containers against models.
#include "common.h"
#include <tpie/array.h>
#include <tpie/array_view.h>
#include <tpie/packed_array.h>
#include <tpie/bit_array.h>
#include <tpie/internal_stack.h>
#include <tpie/internal_vector.h>
#include <tpie/internal_queue.h>
#include <tpie/internal_priority_queue.h>
#include <tpie/mergeheap.h>
#include <tpie/pq_merge_heap.h>
#include <tpie/pq_overflow_heap.h>
#include <tpie/disjoint_sets.h>
#include <tpie/tiny.h>
#include <tpie/maybe.h>
#include <deque>
#include <set>
#include <map>
#include <algorithm>
#include <numeric>
using namespace tv;

// ---------------------------------------------------------------- element types
// An element that knows where it lives and how many of its kind are alive, and can refuse to be made.
struct Boom { };
struct Tracked {
	static long live; static long fuse; // fuse: constructions left before one fails, -1 for never
	uint64_t v; const Tracked * self; uint64_t * heap;
	static void burn() { if (fuse == 0) { fuse = -1; throw Boom(); } if (fuse > 0) --fuse; }
	Tracked() : v(0), self(this) { burn(); heap = new uint64_t(0); ++live; }
	Tracked(uint64_t x) : v(x), self(this) { heap = new uint64_t(x); ++live; }
	Tracked(const Tracked & o) : v(o.v), self(this) { burn(); heap = new uint64_t(*o.heap); ++live; }
	Tracked & operator=(const Tracked & o) { v = o.v; *heap = *o.heap; return *this; }
	~Tracked() { if (self != this) abort(); delete heap; self = nullptr; --live; }
	bool ok() const { return self == this && *heap == v; }
	bool operator==(const Tracked & o) const { return v == o.v; }
	bool operator!=(const Tracked & o) const { return v != o.v; }
	bool operator<(const Tracked & o) const { return v < o.v; }
};
long Tracked::live = 0; long Tracked::fuse = -1;

#pragma pack(push, 1)
struct Odd { uint8_t a; uint64_t b; bool operator==(const Odd & o) const { return b == o.b; } bool operator!=(const Odd & o) const { return b != o.b; } bool operator<(const Odd & o) const { return b < o.b; } };
#pragma pack(pop)

template <typename T> T mk(uint64_t x);
template <> uint8_t mk<uint8_t>(uint64_t x) { return (uint8_t)x; }
template <> int mk<int>(uint64_t x) { return (int)x; }
template <> uint64_t mk<uint64_t>(uint64_t x) { return x; }
template <> Odd mk<Odd>(uint64_t x) { Odd o; o.a = (uint8_t)x; o.b = x; return o; }
template <> Tracked mk<Tracked>(uint64_t x) { return Tracked(x); }
template <> std::string mk<std::string>(uint64_t x) { return std::string(x % 40, 'a') + std::to_string(x); }
template <typename T> bool okElem(const T &) { return true; }
template <> bool okElem<Tracked>(const Tracked & t) { return t.ok(); }
template <> bool okElem<Odd>(const Odd & t) { return t.a == (uint8_t)t.b; }
template <typename T> uint64_t id(const T & t) { return (uint64_t)t; }
template <> uint64_t id<Odd>(const Odd & t) { return t.b; }
template <> uint64_t id<Tracked>(const Tracked & t) { return t.v; }
template <> uint64_t id<std::string>(const std::string & t) { return pbt::hash_str(t.c_str()); }
template <typename T> struct tname; // labels
#define TN(T) template <> struct tname<T> { static const char * v() { return #T; } };
TN(uint8_t) TN(int) TN(uint64_t) TN(Odd) TN(Tracked) TN(std::string)
static bool trivial(const char * n) { return strcmp(n, "Tracked") && strcmp(n, "std::string"); }

static size_t memUsed() { return tpie::get_memory_manager().used(); }

// ---------------------------------------------------------------- arrays
template <typename T> struct ArrModel { std::vector<T> m; std::vector<bool> known; int bucket; };

template <typename T> static void arrays(Src & s, Ctx & c) {
	typedef tpie::array<T> A;
	c.labelf("elements:%s", tname<T>::v());
	size_t base = memUsed(); long live0 = Tracked::live; Tracked::fuse = -1;
	tpie::memory_bucket buckets[2];
	bool interesting = false;
	{
		static const size_t N = 4;
		std::vector<std::unique_ptr<A>> a(N); std::vector<ArrModel<T>> m(N);
		uint64_t next = 1;
		auto sz = [&]() -> size_t { return s.size(40); };
		auto makeKnown = [&](size_t k) { m[k].known.assign(m[k].m.size(), true); };
		auto fillAll = [&](size_t k) { // give unknown elements a value
			for (size_t i = 0; i < m[k].m.size(); ++i) if (!m[k].known[i]) { T v = mk<T>(next++); (*a[k])[i] = v; m[k].m[i] = v; m[k].known[i] = true; }
		};
		auto resized = [&](size_t k, size_t n) { m[k].m.assign(n, T()); m[k].known.assign(n, !trivial(tname<T>::v())); };
		auto check = [&](const char * when) {
			size_t total = 0; size_t inBucket[2] = {0, 0};
			for (size_t k = 0; k < N; ++k) {
				if (!a[k]) continue;
				const A & x = *a[k]; const auto & y = m[k];
				PBT_CHECK(c, x.size() == y.m.size(), "%s: array %zu has %zu elements, not %zu", when, k, x.size(), y.m.size());
				PBT_CHECK(c, x.empty() == y.m.empty(), "%s: empty() of array %zu", when, k);
				for (size_t i = 0; i < y.m.size(); ++i) {
					if (!y.known[i]) continue;
					PBT_CHECK(c, okElem(x[i]), "%s: element %zu of array %zu is damaged", when, i, k);
					PBT_CHECK(c, x[i] == y.m[i], "%s: element %zu of array %zu is %llu, not %llu", when, i, k, (unsigned long long)id(x[i]), (unsigned long long)id(y.m[i]));
				}
				total += x.size() * sizeof(T);
				if (y.bucket >= 0) inBucket[y.bucket] += x.size() * sizeof(T);
			}
			PBT_CHECK(c, memUsed() - base == total, "%s: %zu bytes accounted for, the arrays hold %zu", when, memUsed() - base, total);
			for (int b = 0; b < 2; ++b) PBT_CHECK(c, buckets[b].count == inBucket[b], "%s: bucket %d counts %zu bytes, its arrays hold %zu", when, b, (size_t)buckets[b].count, inBucket[b]);
		};
		size_t ops = 0;
		while (s.more(12) && ops < 60) {
			++ops;
			size_t k = s.below(N), j = s.below(N);
			if (!a[k]) { // make one
				switch (s.below(8)) {
				case 0: a[k].reset(new A()); m[k] = {{}, {}, -1}; c.trace("a%zu = array()", k); break;
				case 1: { size_t n = sz(); a[k].reset(new A(n)); resized(k, n); m[k].bucket = -1; c.trace("a%zu = array(%zu)", k, n); break; }
				case 2: { size_t n = sz(); T v = mk<T>(next++); a[k].reset(new A(n, v)); m[k] = {std::vector<T>(n, v), std::vector<bool>(n, true), -1}; c.trace("a%zu = array(%zu, v)", k, n); break; }
				case 3: { int b = (int)s.below(2); a[k].reset(new A(tpie::memory_bucket_ref(&buckets[b]))); m[k] = {{}, {}, b}; c.trace("a%zu = array(bucket %d)", k, b); c.label("bucket"); break; }
				case 4: { int b = (int)s.below(2); size_t n = sz(); a[k].reset(new A(n, tpie::memory_bucket_ref(&buckets[b]))); resized(k, n); m[k].bucket = b; c.trace("a%zu = array(%zu, bucket %d)", k, n, b); c.label("bucket"); break; }
				case 5: if (a[j]) { fillAll(j); a[k].reset(new A(*a[j])); m[k] = m[j]; c.trace("a%zu = copy of a%zu", k, j); interesting = true; } break;
				case 6: if (a[j]) { a[k].reset(new A(std::move(*a[j]))); m[k] = m[j]; m[j].m.clear(); m[j].known.clear(); c.trace("a%zu = moved from a%zu", k, j); interesting = true; } break;
				default: { // from a view
					size_t n = sz(); std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(mk<T>(next++));
					if (n == 0) break;
					size_t lo = s.below(n), hi = lo + s.below(n - lo + 1);
					if (s.flip()) { tpie::array_view<T> w(v.data() + lo, hi - lo); a[k].reset(new A(w)); }
					else { tpie::array_view<const T> w(v.data() + lo, v.data() + hi); a[k].reset(new A(w)); }
					m[k] = {std::vector<T>(v.begin() + lo, v.begin() + hi), std::vector<bool>(hi - lo, true), -1};
					c.trace("a%zu = array(view of %zu)", k, hi - lo); c.label("view");
				} }
				if (a[k]) check("construction");
				continue;
			}
			switch (s.weighted({3, 3, 2, 3, 2, 2, 2, 2, 2, 1, 2, 2})) {
			case 0: { // write
				if (m[k].m.empty()) break;
				size_t i = s.below(m[k].m.size()); T v = mk<T>(next++);
				switch (s.below(4)) { case 0: (*a[k])[i] = v; break; case 1: a[k]->at(i) = v; break; case 2: *a[k]->find(i) = v; break; default: *(a[k]->begin() + i) = v; }
				m[k].m[i] = v; m[k].known[i] = true; c.trace("a%zu[%zu] = v", k, i); break; }
			case 1: { size_t n = sz(); if (s.chance(1, 4)) n = m[k].m.size(); a[k]->resize(n); resized(k, n); c.trace("a%zu.resize(%zu)", k, n); break; }
			case 2: { size_t n = sz(); if (s.chance(1, 4)) n = m[k].m.size(); T v = mk<T>(next++); a[k]->resize(n, v); m[k].m.assign(n, v); makeKnown(k); c.trace("a%zu.resize(%zu, v)", k, n); break; }
			case 3: { // copy-assign, possibly from itself
				if (!a[j]) break;
				fillAll(j); A & src = *a[j]; *a[k] = src; m[k].m = std::vector<T>(m[j].m); makeKnown(k);
				c.trace("a%zu = a%zu", k, j); interesting = true; if (k == j) c.label("self assignment"); break; }
			case 4: { // move-assign
				if (!a[j] || j == k) break;
				*a[k] = std::move(*a[j]); int b = m[k].bucket; m[k] = m[j]; m[j].m.clear(); m[j].known.clear();
				// the allocators are exchanged along with the elements
				m[j].bucket = b; c.trace("a%zu = move(a%zu)", k, j); interesting = true; break; }
			case 5: { if (!a[j]) break; if (s.flip()) a[k]->swap(*a[j]); else std::swap(*a[k], *a[j]); if (k != j) std::swap(m[k], m[j]); c.trace("swap(a%zu, a%zu)", k, j); interesting = true; break; }
			case 6: { // iteration
				fillAll(k); std::vector<T> got; const A & ca = *a[k];
				int how = (int)s.below(6);
				std::vector<T> want = m[k].m;
				if (how == 0) for (auto & v : *a[k]) got.push_back(v);
				else if (how == 1) for (typename A::const_iterator i = ca.begin(); i != ca.end(); ++i) got.push_back(*i);
				else if (how == 2) { for (auto i = a[k]->rbegin(); i != a[k]->rend(); ++i) got.push_back(*i); std::reverse(want.begin(), want.end()); }
				else if (how == 3) { for (auto i = ca.rbegin(); i != ca.rend(); ++i) got.push_back(*i); std::reverse(want.begin(), want.end()); }
				else if (how == 4) { got.resize(want.size()); std::copy(ca.begin(), ca.end(), got.begin()); }
				else if (!want.empty()) { got.resize(want.size()); std::copy(a[k]->rbegin(), a[k]->rend(), got.begin()); std::reverse(want.begin(), want.end()); c.label("copy of a reversed range"); }
				c.trace("iterate a%zu, way %d", k, how);
				PBT_CHECK(c, got == want, "iterating over array %zu gives other elements", k); break; }
			case 7: { // comparison
				if (!a[j]) break;
				fillAll(k); fillAll(j); bool eq = m[k].m == m[j].m;
				PBT_CHECK(c, (*a[k] == *a[j]) == eq && (*a[k] != *a[j]) == !eq, "comparison of arrays %zu and %zu: ==:%d !=:%d, should be %d", k, j, (int)(*a[k] == *a[j]), (int)(*a[k] != *a[j]), (int)eq); break; }
			case 8: { // copying ranges between arrays and to and from other containers
				if (!a[j] || m[j].m.empty() || m[k].m.empty()) break;
				fillAll(j); fillAll(k);
				size_t n = 1 + s.below(std::min(m[j].m.size(), m[k].m.size())), from = s.below(m[j].m.size() - n + 1), to = s.below(m[k].m.size() - n + 1);
				if (j == k && from != to) break;
				std::vector<T> part(m[j].m.begin() + from, m[j].m.begin() + from + n);
				int how = (int)s.below(5);
				if (how == 0) { auto r = std::copy(a[j]->find(from), a[j]->find(from + n), a[k]->find(to)); PBT_CHECK(c, r == a[k]->find(to + n), "std::copy returns a wrong iterator"); }
				else if (how == 1) { auto r = std::copy(part.begin(), part.end(), a[k]->find(to)); PBT_CHECK(c, r == a[k]->find(to + n), "std::copy returns a wrong iterator"); }
				else if (how == 2) { std::copy(a[j]->rbegin() + (m[j].m.size() - from - n), a[j]->rbegin() + (m[j].m.size() - from), a[k]->find(to)); if (j == k) { part.clear(); } else std::reverse(part.begin(), part.end()); }
				else if (how == 3) { std::copy(part.begin(), part.end(), a[k]->rbegin() + (m[k].m.size() - to - n)); std::reverse(part.begin(), part.end()); }
				else { std::copy(part.begin(), part.end(), a[k]->begin() + to); }
				if (part.empty()) { for (size_t i = 0; i < n; ++i) m[k].m[to + i] = (*a[k])[to + i]; }
				else std::copy(part.begin(), part.end(), m[k].m.begin() + to);
				c.trace("copy %zu elements of a%zu from %zu to a%zu at %zu, way %d", n, j, from, k, to, how); interesting = true; break; }
			case 9: a[k].reset(); m[k] = {{}, {}, -1}; c.trace("destroy a%zu", k); break;
			case 10: { // ordered
				fillAll(k); std::sort(a[k]->begin(), a[k]->end()); std::sort(m[k].m.begin(), m[k].m.end()); c.trace("sort a%zu", k);
				T v = m[k].m.empty() ? mk<T>(1) : m[k].m[m[k].m.size() / 2];
				auto i = std::lower_bound(a[k]->begin(), a[k]->end(), v);
				PBT_CHECK(c, (size_t)(i - a[k]->begin()) == (size_t)(std::lower_bound(m[k].m.begin(), m[k].m.end(), v) - m[k].m.begin()), "lower_bound over array %zu", k); break; }
			default: { // a resize that fails: out of memory, or an element that cannot be made
				bool own = strcmp(tname<T>::v(), "Tracked") == 0 && s.flip();
				size_t n = m[k].m.size() + 1 + s.size(30); if (own && s.flip()) n = 1 + s.below(n);
				int how = (int)s.below(3); T v = mk<T>(next++); bool threw = false;
				if (how == 2 && (!a[j] || j == k)) how = 1;
				if (how == 2) { fillAll(j); n = m[j].m.size(); }
				if (how == 1 && n == m[k].m.size()) ++n;
				if (n == 0) break;
				c.trace("a%zu %s %zu elements fails (%s)", k, how == 0 ? "resize to" : how == 1 ? "resize with value to" : "assignment of", n, own ? "constructor" : "memory");
				auto & mm = tpie::get_memory_manager();
				size_t limit = mm.limit();
				if (own) Tracked::fuse = (long)s.below(n);
				else {
					// the old elements are freed before the new ones are made
					size_t after = mm.used() - m[k].m.size() * sizeof(T);
					mm.set_enforcement(tpie::memory_manager::ENFORCE_THROW); mm.set_limit(after + n * sizeof(T) - 1);
				}
				try { if (how == 0) a[k]->resize(n); else if (how == 1) a[k]->resize(n, v); else *a[k] = *a[j]; } catch (const Boom &) { threw = true; } catch (const tpie::out_of_memory_error &) { threw = true; }
				Tracked::fuse = -1;
				mm.set_enforcement(tpie::memory_manager::ENFORCE_IGNORE); mm.set_limit(limit);
				PBT_CHECK(c, threw, "a resize that needs more than the available memory does not throw");
				c.label("failed resize"); interesting = true;
				// the array is usable, and what it holds is accounted for
				PBT_CHECK(c, a[k]->size() == 0, "array %zu claims %zu elements after a failed resize", k, a[k]->size());
				m[k].m.clear(); m[k].known.clear(); break; }
			}
			check("operation");
		}
	}
	PBT_CHECK(c, memUsed() == base, "%zu bytes still accounted for after the arrays are gone", memUsed() - base);
	PBT_CHECK(c, Tracked::live == live0, "%ld elements were never destroyed", Tracked::live - live0);
	PBT_CHECK(c, buckets[0].count == 0 && buckets[1].count == 0, "the buckets still count %zu and %zu bytes", (size_t)buckets[0].count, (size_t)buckets[1].count);
	if (interesting) c.nontrivial();
}

static void s_array(Src & s, Ctx & c) {
	init_tpie(1 << 20);
	switch (s.below(6)) { case 0: arrays<int>(s, c); break; case 1: arrays<Tracked>(s, c); break; case 2: arrays<std::string>(s, c); break; case 3: arrays<Odd>(s, c); break; case 4: arrays<uint8_t>(s, c); break; default: arrays<uint64_t>(s, c); }
}

// ---------------------------------------------------------------- packed arrays
template <typename T, int B> static void packed(Src & s, Ctx & c) {
	typedef tpie::packed_array<T, B> P;
	c.labelf("bits:%d", B);
	const uint64_t mask = B == 64 ? ~0ull : (1ull << (B % 64)) - 1;
	size_t base = memUsed(); bool interesting = false;
	{
		static const size_t N = 3;
		std::vector<P> p(N); std::vector<std::vector<uint64_t>> m(N); // m[i] == values; ~ unknown is not kept: everything is filled
		auto val = [&]() -> uint64_t { switch (s.below(3)) { case 0: return 0; case 1: return mask; default: return s.u64() & mask; } };
		auto sz = [&]() -> size_t { return s.size(300); };
		auto check = [&](const char * when) {
			size_t total = 0;
			for (size_t k = 0; k < N; ++k) {
				const P & x = p[k];
				PBT_CHECK(c, x.size() == m[k].size() && x.empty() == m[k].empty(), "%s: packed array %zu has %zu elements, not %zu", when, k, x.size(), m[k].size());
				for (size_t i = 0; i < m[k].size(); ++i) PBT_CHECK(c, (uint64_t)x[i] == m[k][i], "%s: element %zu of packed array %zu (%zu elements) is %llu, not %llu", when, i, k, m[k].size(), (unsigned long long)x[i], (unsigned long long)m[k][i]);
				total += (m[k].size() * B + 63) / 64 * 8;
			}
			PBT_CHECK(c, memUsed() - base == total, "%s: %zu bytes accounted for, the packed arrays hold %zu", when, memUsed() - base, total);
		};
		size_t ops = 0;
		while (s.more(14) && ops < 60) {
			++ops; size_t k = s.below(N), j = s.below(N);
			switch (s.weighted({3, 4, 2, 2, 2, 2, 3, 3, 2, 1})) {
			case 0: { size_t n = sz(); uint64_t v = val(); if (s.flip()) p[k].resize(n, (T)v); else { p[k].resize(n); p[k].fill((T)v); } m[k].assign(n, v); c.trace("p%zu.resize(%zu, %llu)", k, n, (unsigned long long)v); break; }
			case 1: { if (m[k].empty()) break; size_t i = s.below(m[k].size()); uint64_t v = val();
				if (s.flip()) p[k][i] = (T)v; else *p[k].find(i) = (T)v; m[k][i] = v; c.trace("p%zu[%zu] = %llu", k, i, (unsigned long long)v); interesting = true; break; }
			case 2: { P & src = p[j]; p[k] = src; m[k] = std::vector<uint64_t>(m[j]); c.trace("p%zu = p%zu", k, j); break; }
			case 3: { if (k == j) break; p[k] = std::move(p[j]); m[k] = m[j]; m[j].clear(); c.trace("p%zu = move(p%zu)", k, j); break; }
			case 4: { if (s.flip()) p[k].swap(p[j]); else std::swap(p[k], p[j]); if (k != j) std::swap(m[k], m[j]); c.trace("swap(p%zu, p%zu)", k, j); break; }
			case 5: { if (s.flip()) { P x(p[k]); PBT_CHECK(c, x.size() == m[k].size(), "a copy has another size"); for (size_t i = 0; i < m[k].size(); ++i) PBT_CHECK(c, (uint64_t)x[i] == m[k][i], "element %zu of a copy", i); }
				else { P x(std::move(p[k])); PBT_CHECK(c, p[k].size() == 0, "moved from"); for (size_t i = 0; i < m[k].size(); ++i) PBT_CHECK(c, (uint64_t)x[i] == m[k][i], "element %zu of a moved array", i); p[k] = std::move(x); } break; }
			case 6: { // iteration, in any direction
				std::vector<uint64_t> got, want = m[k]; const P & cp = p[k]; int how = (int)s.below(4);
				if (want.empty()) { PBT_CHECK(c, cp.begin() == cp.end(), "an empty packed array has elements"); break; }
				if (how == 0) for (auto i = p[k].begin(); i != p[k].end(); ++i) got.push_back((uint64_t)(T)*i);
				else if (how == 1) for (auto i = cp.begin(); i != cp.end(); i++) got.push_back((uint64_t)*i);
				else if (how == 2) { for (auto i = p[k].rbegin(); i != p[k].rend(); ++i) got.push_back((uint64_t)(T)*i); std::reverse(want.begin(), want.end()); }
				else { for (auto i = cp.rbegin(); i != cp.rend(); ++i) got.push_back((uint64_t)*i); std::reverse(want.begin(), want.end()); }
				c.trace("iterate p%zu, way %d", k, how);
				PBT_CHECK(c, got == want, "iterating over packed array %zu (way %d) gives other elements", k, how); break; }
			case 7: { // iterator arithmetic
				size_t n = m[k].size(); if (n == 0) break;
				size_t x = s.below(n), y = s.below(n + 1); const P & cp = p[k];
				auto arith = [&](auto b, const char * what) {
					auto i = b + (ptrdiff_t)x, t = b + (ptrdiff_t)y;
					PBT_CHECK(c, t - i == (ptrdiff_t)y - (ptrdiff_t)x, "%s iterators %zu and %zu: difference is %td", what, x, y, (ptrdiff_t)(t - i));
					PBT_CHECK(c, (i < t) == (x < y) && (i > t) == (x > y) && (i <= t) == (x <= y) && (i >= t) == (x >= y) && (i == t) == (x == y) && (i != t) == (x != y), "%s iterators %zu and %zu: comparison", what, x, y);
					auto u = t - ((ptrdiff_t)y - (ptrdiff_t)x);
					PBT_CHECK(c, u == i, "%s iterator %zu - %td is not at %zu but at %td", what, y, (ptrdiff_t)y - (ptrdiff_t)x, x, (ptrdiff_t)(u - b));
					u = t; u -= (ptrdiff_t)y; PBT_CHECK(c, u == b, "%s iterator %zu -= %zu is at %td", what, y, y, (ptrdiff_t)(u - b));
					u += (ptrdiff_t)x; PBT_CHECK(c, u == i, "%s iterator += %zu", what, x);
					--t; ++t; PBT_CHECK(c, t - b == (ptrdiff_t)y, "%s iterator -- and ++", what);
					auto w = t++; PBT_CHECK(c, w - b == (ptrdiff_t)y && t - b == (ptrdiff_t)y + 1, "%s iterator ++ after", what);
					w = t--; PBT_CHECK(c, t - b == (ptrdiff_t)y, "%s iterator -- after", what);
				};
				c.trace("iterator arithmetic on p%zu: %zu, %zu", k, x, y);
				arith(p[k].begin(), "forward"); arith(cp.begin(), "const forward"); arith(p[k].rbegin(), "reverse"); arith(cp.rbegin(), "const reverse");
				PBT_CHECK(c, (uint64_t)(T)p[k].begin()[x] == m[k][x] && (uint64_t)cp.begin()[x] == m[k][x], "iterator subscript %zu", x);
				PBT_CHECK(c, (uint64_t)(T)p[k].rbegin()[x] == m[k][n - 1 - x], "reverse iterator subscript %zu", x);
				c.label("iterator arithmetic"); break; }
			case 8: { // copying ranges
				if (m[j].empty() || m[k].empty() || j == k) break;
				size_t n = 1 + s.below(std::min(m[j].size(), m[k].size())), from = s.below(m[j].size() - n + 1), to = s.below(m[k].size() - n + 1); const P & cj = p[j]; int how = (int)s.below(4);
				c.trace("copy %zu elements of p%zu from %zu to p%zu at %zu, way %d", n, j, from, k, to, how); interesting = true; c.label("copied range");
				if (how == 0) std::copy(cj.find(from), cj.find(from + n), p[k].find(to));
				else if (how == 1) std::copy(p[j].find(from), p[j].find(from + n), p[k].find(to));
				else if (how == 2) for (size_t i = 0; i < n; ++i) p[k][to + i] = p[j][from + i];
				else { auto x = p[j].find(from); auto y = p[k].find(to); for (size_t i = 0; i < n; ++i, ++x, ++y) *y = *x; }
				std::copy(m[j].begin() + from, m[j].begin() + from + n, m[k].begin() + to); break; }
			default: { // out of memory
				size_t n = m[k].size() + 65 + s.size(300); auto & mm = tpie::get_memory_manager(); size_t limit = mm.limit(); bool threw = false;
				c.trace("p%zu.resize(%zu) fails", k, n); c.label("failed resize");
				mm.set_enforcement(tpie::memory_manager::ENFORCE_THROW); mm.set_limit(mm.used() - (m[k].size() * B + 63) / 64 * 8 + (n * B + 63) / 64 * 8 - 1);
				try { p[k].resize(n); } catch (const tpie::out_of_memory_error &) { threw = true; }
				mm.set_enforcement(tpie::memory_manager::ENFORCE_IGNORE); mm.set_limit(limit);
				PBT_CHECK(c, threw, "a resize that needs more than the available memory does not throw");
				m[k].clear(); break; }
			}
			check("operation");
		}
	}
	PBT_CHECK(c, memUsed() == base, "%zu bytes still accounted for", memUsed() - base);
	if (interesting) c.nontrivial();
}
static void s_packed(Src & s, Ctx & c) {
	init_tpie(1 << 20);
	switch (s.below(7)) { case 0: packed<bool, 1>(s, c); break; case 1: packed<uint8_t, 2>(s, c); break; case 2: packed<int, 4>(s, c); break; case 3: packed<uint8_t, 8>(s, c); break; case 4: packed<uint32_t, 16>(s, c); break; case 5: packed<uint32_t, 32>(s, c); break; default: packed<uint64_t, 64>(s, c); }
}

// ---------------------------------------------------------------- stacks, queues, vectors
template <typename T> static void seqs(Src & s, Ctx & c) {
	c.labelf("elements:%s", tname<T>::v());
	size_t base = memUsed(); long live0 = Tracked::live; Tracked::fuse = -1; size_t peak = 0; uint64_t next = 1;
	{
		int kind = (int)s.below(3); size_t cap = s.size(30);
		c.label(kind == 0 ? "stack" : kind == 1 ? "queue" : "vector");
		if (kind == 0) {
			tpie::internal_stack<T> x(cap); std::vector<T> m;
			for (size_t ops = 0; s.more(25) && ops < 120; ++ops) {
				switch (s.weighted({6, 4, 1, 1})) {
				case 0: if (m.size() < cap) { T v = mk<T>(next++); x.push(v); m.push_back(v); c.trace("push"); } break;
				case 1: if (!m.empty()) { PBT_CHECK(c, x.top() == m.back() && okElem(x.top()), "top() is %llu, not %llu", (unsigned long long)id(x.top()), (unsigned long long)id(m.back())); x.pop(); m.pop_back(); c.trace("pop"); } break;
				case 2: x.clear(); m.clear(); c.trace("clear"); break;
				default: cap = s.size(30); x.resize(cap); m.clear(); c.trace("resize(%zu)", cap); }
				PBT_CHECK(c, x.size() == m.size() && x.empty() == m.empty(), "the stack has %zu elements, not %zu", x.size(), m.size());
				if (!m.empty()) PBT_CHECK(c, x.top() == m.back(), "top() is %llu, not %llu", (unsigned long long)id(x.top()), (unsigned long long)id(m.back()));
				PBT_CHECK(c, memUsed() - base == cap * sizeof(T) && cap * sizeof(T) + sizeof(x) <= tpie::internal_stack<T>::memory_usage(cap), "a stack of capacity %zu accounts for %zu bytes", cap, memUsed() - base);
				peak = std::max(peak, m.size());
			}
		} else if (kind == 1) {
			tpie::internal_queue<T> x(cap); std::deque<T> m;
			for (size_t ops = 0; s.more(25) && ops < 120; ++ops) {
				switch (s.weighted({6, 4, 1, 1})) {
				case 0: if (m.size() < cap) { T v = mk<T>(next++); x.push(v); m.push_back(v); c.trace("push"); } break;
				case 1: if (!m.empty()) { x.pop(); m.pop_front(); c.trace("pop"); } break;
				case 2: x.clear(); m.clear(); c.trace("clear"); break;
				default: cap = s.size(30); x.resize(cap); m.clear(); c.trace("resize(%zu)", cap); }
				PBT_CHECK(c, x.size() == m.size() && x.empty() == m.empty(), "the queue has %zu elements, not %zu", x.size(), m.size());
				PBT_CHECK(c, x.full() == (m.size() == cap), "full() is %d with %zu of %zu elements", (int)x.full(), m.size(), cap);
				if (!m.empty()) {
					PBT_CHECK(c, x.front() == m.front() && okElem(x.front()), "front() is %llu, not %llu", (unsigned long long)id(x.front()), (unsigned long long)id(m.front()));
					PBT_CHECK(c, x.back() == m.back() && okElem(x.back()), "back() is %llu, not %llu", (unsigned long long)id(x.back()), (unsigned long long)id(m.back()));
				}
				PBT_CHECK(c, memUsed() - base == cap * sizeof(T) && cap * sizeof(T) + sizeof(x) <= tpie::internal_queue<T>::memory_usage(cap), "a queue of capacity %zu accounts for %zu bytes", cap, memUsed() - base);
				peak = std::max(peak, m.size());
			}
		} else {
			tpie::memory_bucket bucket; bool useBucket = s.flip();
			tpie::internal_vector<T> x(cap, useBucket ? tpie::memory_bucket_ref(&bucket) : tpie::memory_bucket_ref()); std::vector<T> m;
			for (size_t ops = 0; s.more(25) && ops < 120; ++ops) {
				switch (s.weighted({6, 3, 2, 1, 1, 2})) {
				case 0: if (m.size() < cap) { T v = mk<T>(next++); T & r = s.flip() ? x.push_back(v) : (x.push_back() = v); PBT_CHECK(c, &r == &x.back(), "push_back returns another element"); m.push_back(v); c.trace("push_back"); } break;
				case 1: if (!m.empty()) { x.pop_back(); m.pop_back(); c.trace("pop_back"); } break;
				case 2: if (!m.empty()) { size_t i = s.below(m.size()); T v = mk<T>(next++); x[i] = v; m[i] = v; c.trace("[%zu] = v", i); } break;
				case 3: x.clear(); m.clear(); c.trace("clear"); break;
				case 4: cap = s.size(30); x.resize(cap); m.clear(); c.trace("resize(%zu)", cap); break;
				default: { std::sort(x.begin(), x.end()); std::sort(m.begin(), m.end()); c.trace("sort"); } }
				const auto & cx = x;
				PBT_CHECK(c, x.size() == m.size() && x.empty() == m.empty(), "the vector has %zu elements, not %zu", x.size(), m.size());
				if (!m.empty()) PBT_CHECK(c, x.front() == m.front() && cx.back() == m.back(), "front or back of the vector");
				PBT_CHECK(c, std::vector<T>(cx.begin(), cx.end()) == m, "the vector holds other elements");
				for (size_t i = 0; i < m.size(); ++i) PBT_CHECK(c, cx[i] == m[i] && okElem(cx[i]), "element %zu", i);
				PBT_CHECK(c, memUsed() - base == cap * sizeof(T) && cap * sizeof(T) + sizeof(x) <= tpie::internal_vector<T>::memory_usage(cap), "a vector of capacity %zu accounts for %zu bytes", cap, memUsed() - base);
				PBT_CHECK(c, bucket.count == (useBucket ? cap * sizeof(T) : 0), "the bucket of a vector of capacity %zu counts %zu bytes", cap, (size_t)bucket.count);
				peak = std::max(peak, m.size());
			}
		}
	}
	PBT_CHECK(c, memUsed() == base, "%zu bytes still accounted for", memUsed() - base);
	PBT_CHECK(c, Tracked::live == live0, "%ld elements were never destroyed", Tracked::live - live0);
	if (peak >= 3) c.nontrivial();
}
static void s_seqs(Src & s, Ctx & c) {
	init_tpie(1 << 20);
	switch (s.below(4)) { case 0: seqs<int>(s, c); break; case 1: seqs<Tracked>(s, c); break; case 2: seqs<std::string>(s, c); break; default: seqs<Odd>(s, c); }
}

// ---------------------------------------------------------------- heaps
// Elements whose order ignores part of them, so that equal elements can be told apart; the comparator has state.
struct HE { uint32_t key, tag; };
struct HLess { int sign; explicit HLess(int s = 1) : sign(s) {} bool operator()(const HE & a, const HE & b) const { return sign > 0 ? a.key < b.key : b.key < a.key; } };
struct HLess0 { bool operator()(const HE & a, const HE & b) const { return a.key < b.key; } };
struct MSet { // multiset of elements under a comparator
	HLess less; std::vector<HE> e;
	explicit MSet(HLess l) : less(l) {}
	bool isMin(const HE & x) const { bool in = false; for (auto & y : e) { if (less(y, x)) return false; if (y.tag == x.tag && y.key == x.key) in = true; } return in; }
	void drop(const HE & x) { for (size_t i = 0; i < e.size(); ++i) if (e[i].tag == x.tag) { e.erase(e.begin() + i); return; } }
};

static void s_heaps(Src & s, Ctx & c) {
	init_tpie(1 << 20);
	size_t base = memUsed(); size_t peak = 0; uint32_t tag = 0;
	size_t range = s.pick<size_t>({3, 1000, 20}); 
	auto el = [&]() { HE e; e.key = (uint32_t)s.below(range); e.tag = ++tag; return e; };
	int kind = (int)s.below(5);
	HLess cmp(s.flip() ? 1 : -1);
	size_t cap = 1 + s.size(40);
	{
		if (kind == 0) { // internal priority queue
			c.label("internal_priority_queue");
			tpie::memory_bucket bucket; MSet m(cmp); std::unique_ptr<tpie::internal_priority_queue<HE, HLess>> q;
			if (s.flip()) { std::vector<HE> v; for (size_t i = 0, n = s.below(cap + 1); i < n; ++i) v.push_back(el()); q.reset(new tpie::internal_priority_queue<HE, HLess>(cap, v.begin(), v.end(), cmp, tpie::memory_bucket_ref(&bucket))); m.e = v; c.trace("from %zu elements", v.size()); }
			else q.reset(new tpie::internal_priority_queue<HE, HLess>(cap, cmp, tpie::memory_bucket_ref(&bucket)));
			auto & x = *q;
			for (size_t ops = 0; s.more(30) && ops < 150; ++ops) {
				switch (s.weighted({6, 4, 4, 2, 2, 1, 1})) {
				case 0: if (m.e.size() < cap) { HE e = el(); if (s.flip()) x.push(e); else x.push(HE(e)); m.e.push_back(e); c.trace("push %u", e.key); } break;
				case 1: if (!m.e.empty()) { HE t = x.top(); m.drop(t); x.pop(); c.trace("pop"); } break;
				case 2: if (!m.e.empty()) { HE t = x.top(); m.drop(t); HE e = el(); if (s.flip()) x.pop_and_push(e); else x.pop_and_push(HE(e)); m.e.push_back(e); c.trace("pop_and_push %u", e.key); } break;
				case 3: { size_t n = s.below(cap - m.e.size() + 1); for (size_t i = 0; i < n; ++i) { HE e = el(); if (s.flip()) x.unsafe_push(e); else x.unsafe_push(HE(e)); m.e.push_back(e); } x.make_safe(); c.trace("unsafe_push %zu", n); break; }
				case 4: { size_t n = s.below(cap - m.e.size() + 1); std::vector<HE> v; for (size_t i = 0; i < n; ++i) v.push_back(el()); x.insert(v.begin(), v.end()); m.e.insert(m.e.end(), v.begin(), v.end()); c.trace("insert %zu", n); break; }
				case 5: x.clear(); m.e.clear(); c.trace("clear"); break;
				default: cap = 1 + s.size(40); x.resize(cap); m.e.clear(); c.trace("resize(%zu)", cap); }
				PBT_CHECK(c, x.size() == m.e.size() && x.empty() == m.e.empty(), "the queue has %zu elements, not %zu", (size_t)x.size(), m.e.size());
				if (!m.e.empty()) PBT_CHECK(c, m.isMin(x.top()), "top() is %u, not a minimum of what is in the queue", x.top().key);
				PBT_CHECK(c, memUsed() - base == cap * sizeof(HE) && bucket.count == cap * sizeof(HE), "capacity %zu: %zu bytes accounted for, %zu in the bucket", cap, memUsed() - base, (size_t)bucket.count);
				PBT_CHECK(c, cap * sizeof(HE) + sizeof(x) <= (tpie::internal_priority_queue<HE, HLess>::memory_usage(cap)), "memory_usage(%zu) is too small", cap);
				peak = std::max(peak, m.e.size());
			}
			while (!m.e.empty()) { PBT_CHECK(c, m.isMin(x.top()), "top() is %u, not a minimum, while emptying", x.top().key); m.drop(x.top()); x.pop(); }
			PBT_CHECK(c, x.empty(), "elements left over");
		} else if (kind == 1) { // overflow heap
			c.label("pq_overflow_heap");
			tpie::pq_overflow_heap<HE, HLess> x(cap, cmp); MSet m(cmp);
			for (size_t ops = 0; s.more(30) && ops < 150; ++ops) {
				switch (s.weighted({8, 3, 1})) {
				case 0: if (m.e.size() < cap) { HE e = el(); x.push(e); m.e.push_back(e); c.trace("push %u", e.key); } break;
				case 1: if (!m.e.empty()) { m.drop(x.top()); x.pop(); c.trace("pop"); } break;
				default: { // sorted
					HE * a = x.sorted_array(); size_t n = x.sorted_size(); c.trace("sorted");
					PBT_CHECK(c, n == m.e.size(), "the sorted array has %zu elements, not %zu", n, m.e.size());
					std::vector<uint32_t> got, want;
					for (size_t i = 0; i < n; ++i) { if (i) PBT_CHECK(c, !cmp(a[i], a[i - 1]), "the sorted array is not sorted at %zu", i); got.push_back(a[i].tag); }
					for (auto & y : m.e) want.push_back(y.tag);
					std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); PBT_CHECK(c, got == want, "the sorted array holds other elements");
					x.sorted_pop(); m.e.clear(); } }
				PBT_CHECK(c, x.size() == m.e.size() && x.empty() == m.e.empty() && x.full() == (m.e.size() == cap), "the heap has %zu elements, not %zu (capacity %zu)", (size_t)x.size(), m.e.size(), cap);
				if (!m.e.empty()) PBT_CHECK(c, m.isMin(x.top()), "top() is %u, not a minimum", x.top().key);
				peak = std::max(peak, m.e.size());
			}
		} else if (kind == 2) { // merge heap of the priority queue
			c.label("pq_merge_heap");
			tpie::pq_merge_heap<HE, HLess0> x(cap); MSet m{HLess(1)};
			for (size_t ops = 0; s.more(30) && ops < 150; ++ops) {
				switch (s.weighted({6, 3, 3})) {
				case 0: if (m.e.size() < cap) { HE e = el(); x.push(e, e.tag); m.e.push_back(e); c.trace("push %u", e.key); } break;
				case 1: if (!m.e.empty()) { m.drop(x.top()); x.pop(); c.trace("pop"); } break;
				default: if (!m.e.empty()) { m.drop(x.top()); HE e = el(); x.pop_and_push(e, e.tag); m.e.push_back(e); c.trace("pop_and_push %u", e.key); } }
				PBT_CHECK(c, x.size() == m.e.size() && x.empty() == m.e.empty(), "the heap has %zu elements, not %zu", (size_t)x.size(), m.e.size());
				if (!m.e.empty()) PBT_CHECK(c, m.isMin(x.top()) && x.top_run() == x.top().tag, "top() is %u of run %zu: not a minimum, or of another run", x.top().key, (size_t)x.top_run());
				peak = std::max(peak, m.e.size());
			}
		} else { // merge heaps: merge sorted runs
			bool byPtr = kind == 4; c.label(byPtr ? "merge_heap_ptr_op" : "merge_heap_op");
			size_t runs = 1 + s.size(12); std::vector<std::vector<HE>> r(runs); size_t total = 0;
			for (auto & v : r) { size_t n = 1 + s.size(12); for (size_t i = 0; i < n; ++i) v.push_back(el()); std::sort(v.begin(), v.end(), cmp); total += n; }
			std::vector<HE> out;
			auto run = [&](auto & h) {
				h.allocate(runs); std::vector<size_t> pos(runs, 0); MSet m(cmp);
				for (size_t i = 0; i < runs; ++i) { h.insert(&r[i][0], i); m.e.push_back(r[i][0]); }
				h.initialize(); c.trace("merge %zu runs", runs);
				while (!m.e.empty()) {
					PBT_CHECK(c, h.sizeofheap() == m.e.size(), "the heap has %zu elements, not %zu", (size_t)h.sizeofheap(), m.e.size());
					size_t k = h.get_min_run_id(); PBT_CHECK(c, k < runs && pos[k] < r[k].size(), "get_min_run_id() gives %zu", k);
					HE e = r[k][pos[k]]; PBT_CHECK(c, m.isMin(e), "the heap says run %zu is next, at %u; that is not a minimum", k, e.key);
					out.push_back(e); m.drop(e); ++pos[k];
					if (s.chance(1, 4)) { HE got; size_t kk; h.extract_min(got, kk); c.label("extract_min"); PBT_CHECK(c, kk == k && got.tag == e.tag, "extract_min gives %u of run %zu, not %u of %zu", got.key, kk, e.key, k); c.trace("extract_min"); }
					else if (pos[k] < r[k].size()) { h.delete_min_and_insert(&r[k][pos[k]]); m.e.push_back(r[k][pos[k]]); c.trace("next of %zu", k); }
					else { h.delete_min_and_insert(nullptr); c.trace("end of %zu", k); }
				}
				PBT_CHECK(c, h.sizeofheap() == 0, "elements left over");
				h.deallocate();
			};
			if (byPtr) { tpie::ami::merge_heap_ptr_op<HE, HLess> h(cmp); run(h); } else { tpie::ami::merge_heap_op<HE, HLess> h(cmp); run(h); }
			for (size_t i = 1; i < out.size(); ++i) PBT_CHECK(c, !cmp(out[i], out[i - 1]), "the merged sequence is out of order at %zu", i);
			peak = runs;
		}
	}
	PBT_CHECK(c, memUsed() == base, "%zu bytes still accounted for", memUsed() - base);
	if (peak >= 4) c.nontrivial();
}

// ---------------------------------------------------------------- disjoint sets
template <typename V> static void dsets(Src & s, Ctx & c) {
	size_t base = memUsed(); size_t unions = 0;
	{
		size_t n = 1 + s.size(60); tpie::memory_bucket bucket; bool useBucket = s.flip();
		V unused = tpie::default_unused<V>::v(); if (s.chance(1, 3)) { unused = (V)(n + 5); c.label("own unused value"); }
		typedef tpie::disjoint_sets<V> D;
		std::unique_ptr<D> dp(new D(n, unused, useBucket ? tpie::memory_bucket_ref(&bucket) : tpie::memory_bucket_ref()));
		std::vector<int> comp(n, -1); int nextComp = 0; // model: component of each element
		auto rep = [&](size_t i) -> V { return dp->find_set((V)i); };
		for (size_t ops = 0; s.more(40) && ops < 200; ++ops) {
			size_t i = s.below(n), j = s.below(n); D & d = *dp;
			switch (s.weighted({8, 8, 3, 1, 1, 1})) {
			case 0: if (comp[i] < 0) { d.make_set((V)i); comp[i] = nextComp++; c.trace("make_set %zu", i); } break;
			case 1: if (comp[i] >= 0 && comp[j] >= 0) { V r = d.union_set((V)i, (V)j); int x = comp[i], y = comp[j]; for (auto & z : comp) if (z == y) z = x; c.trace("union_set %zu %zu", i, j);
				PBT_CHECK(c, (size_t)r < n && comp[(size_t)r] == x && rep(i) == r && rep(j) == r, "union_set(%zu, %zu) returns %zu, which does not represent the union", i, j, (size_t)r); if (x != y) ++unions; } break;
			case 2: if (comp[i] >= 0 && comp[j] >= 0) { V a = rep(i), b = rep(j); V r = d.link(a, b); int x = comp[i], y = comp[j]; for (auto & z : comp) if (z == y) z = x; c.trace("link the sets of %zu and %zu", i, j);
				PBT_CHECK(c, (r == a || r == b) && rep(i) == r && rep(j) == r, "link returns %zu, which does not represent the union", (size_t)r); if (x != y) ++unions; } break;
			case 3: d.clear(); comp.assign(n, -1); c.trace("clear"); break;
			case 4: n = 1 + s.size(60); if (unused != tpie::default_unused<V>::v() && n > (size_t)unused) n = (size_t)unused; d.resize(n); comp.assign(n, -1); c.trace("resize %zu", n); break;
			default: { // pass it on
				if (s.flip()) { std::unique_ptr<D> e(new D(*dp)); dp = std::move(e); c.trace("copy"); } else { std::unique_ptr<D> e(new D(std::move(*dp))); dp = std::move(e); c.trace("move"); } c.label("copied or moved"); } }
			// representatives are members, equal exactly within a set
			std::map<int, V> reps; std::set<V> seen; size_t k = 0; bool look = s.chance(1, 4);
			for (size_t q = 0; q < n; ++q) {
				PBT_CHECK(c, dp->is_set((V)q) == (comp[q] >= 0), "is_set(%zu) is %d", q, (int)dp->is_set((V)q));
				if (comp[q] < 0) continue;
				if (!look) { if (!reps.count(comp[q])) { reps[comp[q]] = 0; ++k; } continue; }
				V r = rep(q); auto it = reps.find(comp[q]);
				if (it == reps.end()) { PBT_CHECK(c, (size_t)r < n && comp[(size_t)r] == comp[q] && seen.insert(r).second, "find_set(%zu) is %zu, which is not in the set, or stands for another one", q, (size_t)r); reps[comp[q]] = r; ++k; }
				else PBT_CHECK(c, it->second == r, "find_set(%zu) is %zu; another element of the set has %zu", q, (size_t)r, (size_t)it->second);
			}
			PBT_CHECK(c, dp->count_sets() == k, "count_sets() is %zu, not %zu", (size_t)dp->count_sets(), k);
			PBT_CHECK(c, memUsed() - base == n * sizeof(V), "%zu elements: %zu bytes accounted for", n, memUsed() - base);
			PBT_CHECK(c, bucket.count == (useBucket ? n * sizeof(V) : 0), "%zu elements: the bucket counts %zu bytes", n, (size_t)bucket.count);
			PBT_CHECK(c, n * sizeof(V) + sizeof(D) <= D::memory_usage(n), "memory_usage(%zu) is too small", n);
		}
	}
	PBT_CHECK(c, memUsed() == base, "%zu bytes still accounted for", memUsed() - base);
	if (unions >= 3) c.nontrivial();
}
static void s_dsets(Src & s, Ctx & c) { init_tpie(1 << 20); if (s.flip()) dsets<tpie::memory_size_type>(s, c); else dsets<uint32_t>(s, c); }

// ---------------------------------------------------------------- tiny
struct Mod { // groups keys: equivalent keys need not be equal
	bool operator()(int a, int b) const { return a / 4 < b / 4; }
};
template <typename Comp, bool multi> struct TinySet;
template <typename Comp> struct TinySet<Comp, false> { typedef tpie::tiny::set<int, Comp> T; typedef std::set<int, Comp> S; static bool inserted(std::pair<typename T::iterator, bool> r) { return r.second; } static typename T::iterator where(std::pair<typename T::iterator, bool> r) { return r.first; } static bool sins(S & s, int v) { return s.insert(v).second; } };
template <typename Comp> struct TinySet<Comp, true> { typedef tpie::tiny::multiset<int, Comp> T; typedef std::multiset<int, Comp> S; static bool inserted(typename T::iterator) { return true; } static typename T::iterator where(typename T::iterator r) { return r; } static bool sins(S & s, int v) { s.insert(v); return true; } };

template <typename Comp, bool multi> static void tinySet(Src & s, Ctx & c, const char * cn) {
	typedef TinySet<Comp, multi> TS; typedef typename TS::T T; typedef typename TS::S S;
	c.labelf("tiny::%s<%s>", multi ? "multiset" : "set", cn);
	int range = (int)s.pick<size_t>({8, 100, 30}); auto val = [&] { return (int)s.below(range); };
	static const size_t N = 3; std::vector<T> t(N); std::vector<S> m(N); size_t peak = 0;
	auto check = [&](size_t k, const char * when) {
		const T & ct = t[k];
		PBT_CHECK(c, ct.size() == m[k].size() && ct.empty() == m[k].empty(), "%s: size is %zu, not %zu", when, ct.size(), m[k].size());
		PBT_CHECK(c, std::equal(ct.begin(), ct.end(), m[k].begin()), "%s: the elements or their order differ", when);
		peak = std::max(peak, m[k].size());
	};
	for (size_t ops = 0; s.more(25) && ops < 150; ++ops) {
		size_t k = s.below(N), j = s.below(N); T & x = t[k]; const T & cx = x; S & y = m[k];
		switch (s.weighted({10, 3, 3, 3, 6, 2, 2, 2, 2, 1})) {
		case 0: { int v = val(); size_t n0 = y.size(); bool in = TS::sins(y, v); c.trace("insert %d", v);
			typename T::iterator it; bool tin;
			switch (s.below(4)) { case 0: { auto r = x.insert(v); tin = TS::inserted(r); it = TS::where(r); break; } case 1: { auto r = x.insert((const int &)v); tin = TS::inserted(r); it = TS::where(r); break; } case 2: { auto r = x.emplace(v); tin = TS::inserted(r); it = TS::where(r); break; } default: { auto r = x.emplace_hint(x.end(), v); tin = TS::inserted(r); it = TS::where(r); } }
			PBT_CHECK(c, tin == in && (y.size() != n0) == in, "insert(%d) says %d", v, (int)tin);
			PBT_CHECK(c, it != x.end() && !Comp()(*it, v) && !Comp()(v, *it) && (multi ? *it == v : true), "insert(%d) returns an iterator to something else", v); break; }
		case 1: { int v = val(); size_t a = x.erase(v), b = y.erase(v); c.trace("erase %d", v); PBT_CHECK(c, a == b, "erase(%d) removed %zu elements, not %zu", v, a, b); break; }
		case 2: if (!y.empty()) { size_t i = s.below(y.size()); auto r = x.erase(x.begin() + i); y.erase(std::next(y.begin(), i)); c.trace("erase at %zu", i); PBT_CHECK(c, (size_t)(r - x.begin()) == i, "erase(iterator) returns position %zu, not %zu", (size_t)(r - x.begin()), i); } break;
		case 3: { size_t lo = s.below(y.size() + 1), hi = lo + s.below(y.size() - lo + 1); auto r = x.erase(x.begin() + lo, x.begin() + hi); y.erase(std::next(y.begin(), lo), std::next(y.begin(), hi)); c.trace("erase [%zu, %zu)", lo, hi); PBT_CHECK(c, (size_t)(r - x.begin()) == lo, "erase(range) returns position %zu, not %zu", (size_t)(r - x.begin()), lo); break; }
		case 4: { int v = val(); c.trace("look for %d", v);
			PBT_CHECK(c, x.count(v) == y.count(v), "count(%d) is %zu, not %zu", v, x.count(v), (size_t)y.count(v));
			auto pos = [&](typename S::iterator i) { return (size_t)std::distance(y.begin(), i); };
			PBT_CHECK(c, (size_t)(x.lower_bound(v) - x.begin()) == pos(y.lower_bound(v)) && (size_t)(cx.lower_bound(v) - cx.begin()) == pos(y.lower_bound(v)), "lower_bound(%d)", v);
			PBT_CHECK(c, (size_t)(x.upper_bound(v) - x.begin()) == pos(y.upper_bound(v)) && (size_t)(cx.upper_bound(v) - cx.begin()) == pos(y.upper_bound(v)), "upper_bound(%d)", v);
			PBT_CHECK(c, (size_t)(x.equal_range(v).first - x.begin()) == pos(y.equal_range(v).first) && (size_t)(cx.equal_range(v).second - cx.begin()) == pos(y.equal_range(v).second), "equal_range(%d)", v);
			bool in = y.count(v) > 0; auto f = x.find(v); auto cf = cx.find(v);
			PBT_CHECK(c, (f != x.end()) == in && (cf != cx.end()) == in && (!in || (!Comp()(*f, v) && !Comp()(v, *f))), "find(%d)", v); break; }
		case 5: { if (k == j) break; if (s.flip()) { x = t[j]; y = m[j]; c.trace("copy"); } else { x = std::move(t[j]); y = m[j]; t[j].clear(); m[j].clear(); c.trace("move"); } break; }
		case 6: { if (s.flip()) x.swap(t[j]); else swap(x, t[j]); if (k != j) std::swap(m[k], m[j]); c.trace("swap"); break; }
		case 7: { const T & a = t[k], & b = t[j]; const S & p = m[k], & q = m[j];
			bool eq = p == q, lt = std::lexicographical_compare(p.begin(), p.end(), q.begin(), q.end()), gt = std::lexicographical_compare(q.begin(), q.end(), p.begin(), p.end());
			c.trace("compare"); c.label("compared");
			PBT_CHECK(c, (a == b) == eq && (a != b) == !eq, "== or != of two containers");
			PBT_CHECK(c, (a < b) == lt && (a > b) == gt && (a <= b) == !gt && (a >= b) == !lt, "comparison of two containers: < %d, > %d, <= %d, >= %d; they are %s", (int)(a < b), (int)(a > b), (int)(a <= b), (int)(a >= b), lt ? "in order" : gt ? "out of order" : "equivalent"); break; }
		case 8: { std::vector<int> v; for (size_t i = 0, n = s.size(10); i < n; ++i) v.push_back(val()); c.trace("range of %zu", v.size());
			if (s.flip()) { x.insert(v.begin(), v.end()); for (int i : v) TS::sins(y, i); } else { x = T(v.begin(), v.end()); y.clear(); for (int i : v) TS::sins(y, i); } break; }
		default: if (s.flip()) { x.clear(); y.clear(); c.trace("clear"); } else { x = {3, 1, 2, 3}; y.clear(); for (int i : {3, 1, 2, 3}) TS::sins(y, i); c.trace("list"); } }
		check(k, "operation"); check(j, "operation");
		std::vector<int> rev(x.rbegin(), x.rend()), want(y.rbegin(), y.rend()); PBT_CHECK(c, rev == want, "backwards");
	}
	if (peak >= 4) c.nontrivial();
}

template <typename Comp, bool multi> struct TinyMap;
template <typename Comp> struct TinyMap<Comp, false> { typedef tpie::tiny::map<std::string, int, Comp> T; typedef std::map<std::string, int, Comp> S; };
template <typename Comp> struct TinyMap<Comp, true> { typedef tpie::tiny::multimap<std::string, int, Comp> T; typedef std::multimap<std::string, int, Comp> S; };

template <typename S> static bool sameMap(const S & a, const S & b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
template <typename Comp> static void tinyMap(Src & s, Ctx & c, const char * cn) {
	typedef tpie::tiny::map<std::string, int, Comp> T; typedef std::map<std::string, int, Comp> S;
	c.labelf("tiny::map<%s>", cn);
	int range = (int)s.pick<size_t>({8, 100, 30}); auto key = [&] { return std::string("k") + std::to_string(s.below(range)) + (s.flip() ? "" : "-a longer key than fits a string object"); };
	static const size_t N = 2; std::vector<T> t(N); std::vector<S> m(N); size_t peak = 0; int next = 1;
	for (size_t ops = 0; s.more(25) && ops < 150; ++ops) {
		size_t k = s.below(N), j = 1 - k; T & x = t[k]; const T & cx = x; S & y = m[k]; std::string q = key();
		switch (s.weighted({6, 6, 3, 6, 2, 1, 2})) {
		case 0: { int v = next++; c.trace("[%s] = %d", q.c_str(), v); x[q] = v; y[q] = v; break; }
		case 1: { int v = next++; bool in = y.insert(std::make_pair(q, v)).second; c.trace("insert %s", q.c_str()); auto r = s.flip() ? x.insert(std::make_pair(q, v)) : x.emplace(q, v);
			PBT_CHECK(c, r.second == in && r.first->first == q && r.first->second == y[q], "insert(%s) says %d", q.c_str(), (int)r.second); break; }
		case 2: { size_t a = x.erase(q), b = y.erase(q); c.trace("erase %s", q.c_str()); PBT_CHECK(c, a == b, "erase removed %zu, not %zu", a, b); break; }
		case 3: { bool in = y.count(q) > 0; c.trace("look for %s", q.c_str()); PBT_CHECK(c, x.count(q) == y.count(q), "count(%s)", q.c_str());
			auto f = x.find(q); PBT_CHECK(c, (f != x.end()) == in && (!in || f->second == y[q]), "find(%s)", q.c_str());
			int got = -1; bool threw = false; try { got = s.flip() ? x.at(q) : cx.at(q); } catch (const std::out_of_range &) { threw = true; }
			PBT_CHECK(c, threw == !in && (!in || got == y[q]), "at(%s)", q.c_str());
			PBT_CHECK(c, (size_t)(x.lower_bound(q) - x.begin()) == (size_t)std::distance(y.begin(), y.lower_bound(q)) && (size_t)(cx.upper_bound(q) - cx.begin()) == (size_t)std::distance(y.begin(), y.upper_bound(q)), "bounds of %s", q.c_str()); break; }
		case 4: { if (s.flip()) { T z(std::move(t[j])); x = std::move(z); y = m[j]; t[j].clear(); m[j].clear(); } else { x = T(t[j]); y = m[j]; } c.trace("copy or move"); break; }
		case 5: x.clear(); y.clear(); c.trace("clear"); break;
		default: { const T & a = t[k], & b = t[j]; const S & p = m[k], & r = m[j]; bool eq = p == r, lt = p < r, gt = r < p; c.trace("compare"); c.label("compared");
			PBT_CHECK(c, (a == b) == eq && (a != b) == !eq && (a < b) == lt && (a > b) == gt && (a <= b) == !gt && (a >= b) == !lt, "comparison of two maps: == %d, != %d, < %d, > %d, <= %d, >= %d", (int)(a == b), (int)(a != b), (int)(a < b), (int)(a > b), (int)(a <= b), (int)(a >= b)); } }
		PBT_CHECK(c, x.size() == y.size(), "size is %zu, not %zu", x.size(), y.size());
		auto i = cx.begin(); for (auto & e : y) { PBT_CHECK(c, i->first == e.first && i->second == e.second, "the map holds %s:%d where %s:%d belongs", i->first.c_str(), i->second, e.first.c_str(), e.second); ++i; }
		peak = std::max(peak, y.size());
	}
	if (peak >= 4) c.nontrivial();
}
template <typename Comp> static void tinyMultimap(Src & s, Ctx & c, const char * cn) {
	typedef tpie::tiny::multimap<std::string, int, Comp> T; typedef std::multimap<std::string, int, Comp> S;
	c.labelf("tiny::multimap<%s>", cn);
	int range = (int)s.pick<size_t>({8, 3, 30}); auto key = [&] { return std::string("k") + std::to_string(s.below(range)); };
	T x; S y; size_t peak = 0; int next = 1000;
	for (size_t ops = 0; s.more(25) && ops < 150; ++ops) {
		std::string q = key(); const T & cx = x;
		switch (s.weighted({8, 3, 6, 1})) {
		case 0: { int v = s.flip() ? next-- : (int)s.below(5); c.trace("insert %s:%d", q.c_str(), v); y.insert(std::make_pair(q, v)); auto r = s.flip() ? x.insert(std::make_pair(q, v)) : x.emplace(q, v); PBT_CHECK(c, r->first == q && r->second == v, "insert returns an iterator to something else"); break; }
		case 1: { size_t a = x.erase(q), b = y.erase(q); c.trace("erase %s", q.c_str()); PBT_CHECK(c, a == b, "erase removed %zu, not %zu", a, b); break; }
		case 2: { c.trace("look for %s", q.c_str()); PBT_CHECK(c, x.count(q) == y.count(q), "count(%s)", q.c_str()); auto f = x.find(q); PBT_CHECK(c, (f != x.end()) == (y.count(q) > 0) && (f == x.end() || f->first == q), "find(%s)", q.c_str());
			auto r = cx.equal_range(q); std::multiset<int> a, b; for (auto i = r.first; i != r.second; ++i) { PBT_CHECK(c, i->first == q, "equal_range(%s)", q.c_str()); a.insert(i->second); } auto rr = y.equal_range(q); for (auto i = rr.first; i != rr.second; ++i) b.insert(i->second); PBT_CHECK(c, a == b, "equal_range(%s) gives other values", q.c_str()); break; }
		default: x.clear(); y.clear(); c.trace("clear"); }
		PBT_CHECK(c, x.size() == y.size(), "size is %zu, not %zu", x.size(), y.size());
		auto i = cx.begin(); for (auto & e : y) { PBT_CHECK(c, i->first == e.first, "key %s where %s belongs", i->first.c_str(), e.first.c_str()); ++i; }
		peak = std::max(peak, y.size());
	}
	if (peak >= 4) c.nontrivial();
}
static void s_tiny(Src & s, Ctx & c) {
	switch (s.below(10)) {
	case 0: tinySet<std::less<int>, false>(s, c, "less"); break; case 1: tinySet<std::greater<int>, false>(s, c, "greater"); break; case 2: tinySet<Mod, false>(s, c, "groups"); break;
	case 3: tinySet<std::less<int>, true>(s, c, "less"); break; case 4: tinySet<std::greater<int>, true>(s, c, "greater"); break; case 5: tinySet<Mod, true>(s, c, "groups"); break;
	case 6: tinyMap<std::less<std::string>>(s, c, "less"); break; case 7: tinyMap<std::greater<std::string>>(s, c, "greater"); break;
	case 8: tinyMultimap<std::less<std::string>>(s, c, "less"); break; default: tinyMultimap<std::greater<std::string>>(s, c, "greater"); }
}
static void s_tinysort(Src & s, Ctx & c) {
	std::vector<HE> v; size_t n = s.size(60); size_t range = s.pick<size_t>({5, 1000}); for (size_t i = 0; i < n; ++i) { HE e; e.key = (uint32_t)s.below(range); e.tag = (uint32_t)i; v.push_back(e); }
	auto w = v; HLess less(s.flip() ? 1 : -1); tpie::tiny::sort(v.begin(), v.end(), less); std::stable_sort(w.begin(), w.end(), less);
	c.trace("sort %zu", n);
	for (size_t i = 0; i < n; ++i) PBT_CHECK(c, v[i].key == w[i].key, "tiny::sort: element %zu of %zu has key %u, not %u", i, n, v[i].key, w[i].key);
	std::vector<uint32_t> a, b; for (auto & e : v) a.push_back(e.tag); for (auto & e : w) b.push_back(e.tag); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); PBT_CHECK(c, a == b, "tiny::sort loses elements");
	std::vector<uint32_t> u; for (auto & e : w) u.push_back(e.tag * 2654435761u % 100); auto u2 = u; tpie::tiny::sort(u.begin(), u.end()); std::sort(u2.begin(), u2.end()); PBT_CHECK(c, u == u2, "tiny::sort without comparator");
	if (n >= 3) c.nontrivial();
}

// ---------------------------------------------------------------- maybe
static void s_maybe(Src & s, Ctx & c) {
	long live0 = Tracked::live; Tracked::fuse = -1; bool assigned = false;
	{
		typedef tpie::maybe<Tracked> M; std::vector<std::unique_ptr<M>> x(2); std::vector<std::pair<bool, uint64_t>> m(2); uint64_t next = 1;
		for (auto & p : x) p.reset(new M());
		for (size_t ops = 0; s.more(12) && ops < 60; ++ops) {
			size_t k = s.below(2), j = s.below(2); M & a = *x[k]; bool threw = false, should = false;
			switch (s.below(6)) {
			case 0: case 1: should = m[k].first; try { a.construct(next); } catch (const tpie::maybe_exception &) { threw = true; } if (!should) m[k] = {true, next++}; c.trace("a%zu.construct", k); break;
			case 2: a.destruct(); m[k].first = false; c.trace("a%zu.destruct", k); break;
			case 3: should = m[k].first || m[j].first; try { a = *x[j]; } catch (const tpie::maybe_exception &) { threw = true; } c.trace("a%zu = a%zu", k, j); assigned = true; break;
			case 4: should = m[j].first; try { std::unique_ptr<M> n(s.flip() ? new M(*x[j]) : new M(std::move(*x[j]))); x[k] = std::move(n); m[k].first = false; } catch (const tpie::maybe_exception &) { threw = true; } c.trace("a%zu = copy of a%zu", k, j); assigned = true; break;
			default: if (m[k].first) { a->v = next; *a->heap = next; m[k].second = next++; c.trace("change a%zu", k); } else { // a constructor that fails
				Tracked::fuse = 0; bool boom = false; Tracked src(7); try { a.construct((const Tracked &)src); } catch (const Boom &) { boom = true; } Tracked::fuse = -1; PBT_CHECK(c, boom, "the exception of the constructor is lost"); c.trace("constructor of a%zu fails", k); c.label("failed construction"); } }
			PBT_CHECK(c, threw == should, "constructing or copying a maybe %s", threw ? "throws" : "over or from a value does not throw");
			for (size_t i = 0; i < 2; ++i) { const M & z = *x[i]; PBT_CHECK(c, z.is_constructed() == m[i].first, "maybe %zu %s a value", i, z.is_constructed() ? "has" : "has not"); if (m[i].first) PBT_CHECK(c, z->ok() && (*z).v == m[i].second, "maybe %zu holds %llu", i, (unsigned long long)z->v); }
			PBT_CHECK(c, Tracked::live - live0 == (long)m[0].first + (long)m[1].first, "%ld values are alive", Tracked::live - live0);
		}
	}
	PBT_CHECK(c, Tracked::live == live0, "%ld values were never destroyed", Tracked::live - live0);
	if (assigned) c.nontrivial();
}

int main(int argc, char ** argv) {
	pbt::Suite su;
	su.property = "C16";
	su.rule = "containers are copied, moved, swapped or refilled with at least a few elements in them";
	su.scenarios = {
		{"array", s_array, 40000, 1000000, 100, 20},
		{"packed", s_packed, 30000, 800000, 100, 20},
		{"sequences", s_seqs, 25000, 600000, 100, 20},
		{"heaps", s_heaps, 40000, 1000000, 100, 20},
		{"disjoint", s_dsets, 20000, 400000, 100, 20},
		{"tiny", s_tiny, 40000, 1000000, 100, 20},
		{"tinysort", s_tinysort, 6000, 150000, 100, 20},
		{"maybe", s_maybe, 8000, 200000, 100, 20},
	};
	return pbt::main_loop(argc, argv, su);
}
