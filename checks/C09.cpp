// B-trees of every flavour against a sorted sequence, with structural invariants.
#include "common.h"
#include <tpie/btree.h>
#include <map>
using namespace tv;

static const size_t BATCH = 32;
template <size_t PAD> struct rec { int32_t key; uint32_t id; unsigned char pad[PAD]; };
template <> struct rec<0> { int32_t key; uint32_t id; };
template <size_t P> static bool same(const rec<P> & a, const rec<P> & b) { return memcmp(&a, &b, sizeof a) == 0; }
// a value that takes more or less room on disk than in memory
struct var { int32_t key; uint32_t id; std::string s; std::vector<uint16_t> v;
	template <typename D> friend void serialize(D & d, const var & x) { using tpie::serialize; serialize(d, x.key); serialize(d, x.id); serialize(d, x.s); serialize(d, x.v); }
	template <typename S> friend void unserialize(S & d, var & x) { using tpie::unserialize; unserialize(d, x.key); unserialize(d, x.id); unserialize(d, x.s); unserialize(d, x.v); } };
static bool same(const var & a, const var & b) { return a.key == b.key && a.id == b.id && a.s == b.s && a.v == b.v; }
static bool same(const std::string & a, const std::string & b) { return a == b; }
struct get_key { template <typename T> int32_t operator()(const T & r) const noexcept { return r.key; } };
struct get_skey { std::string operator()(const std::string & s) const { return s.substr(0, s.find('#')); } };
struct desc { template <typename A, typename B> bool operator()(const A & a, const B & b) const noexcept { return b < a; } };
struct aug { uint64_t sum; uint32_t cnt, hash; };
static uint32_t ident(const std::string & s) { return (uint32_t)s.size() * 7 + 1; }
static uint32_t ident(const var & r) { return r.id; }
template <size_t P> static uint32_t ident(const rec<P> & r) { return r.id; }
struct augmenter {
	template <typename N> aug operator()(const N & n) {
		aug a; memset(&a, 0, sizeof a);
		for (size_t i = 0; i < n.count(); ++i) {
			if (n.is_leaf()) { a.sum += ident(n.value(i)); a.cnt++; a.hash = a.hash * 31 + ident(n.value(i)); }
			else { const aug & b = n.get_augmentation(i); a.sum += b.sum; a.cnt += b.cnt; a.hash = a.hash * 31 + b.hash; }
		}
		return a;
	}
};
using namespace tpie;
template <typename V_, int flags, int a_, int b_, size_t bs, typename C_, bool wholeKey> struct flavour {
	typedef V_ V; typedef C_ C; static const int O = flags;
	static const bool internal_ = flags & bbits::f_internal, static_ = flags & bbits::f_static, ordered = !(flags & bbits::f_unordered), serialized = flags & bbits::f_serialized;
	static const int a = a_, b = b_;
	typedef typename std::conditional<std::is_same<V, std::string>::value, get_skey, get_key>::type K;
	typedef bbits::Opt<flags, a_, b_, bs, C_, K, augmenter> O_t;
	typedef bbits::tree<V, O_t> tree; typedef bbits::builder<V, O_t> builder;
};
static void make(rec<0> & r, int32_t key, uint32_t id, Rng &) { r.key = key; r.id = id; }
template <size_t P> static void make(rec<P> & r, int32_t key, uint32_t id, Rng &) { memset((void *)&r, 0, sizeof r); r.key = key; r.id = id; memset(r.pad, (int)(id * 37), P); }
static void make(var & r, int32_t key, uint32_t id, Rng & g) { r.key = key; r.id = id; r.s.assign(g.below(8) ? g.below(20) : g.below(3000), (char)('a' + id % 26)); if (g.below(2)) for (char & x : r.s) x = (char)g.next(); r.v.assign(g.below(4) ? 0 : g.below(50), (uint16_t)id); }
static void make(std::string & r, int32_t key, uint32_t id, Rng & g) { char t[40]; snprintf(t, 40, "%08x", (unsigned)key ^ 0x80000000u); r = t; r += "#"; r += std::string(g.below(8) ? g.below(20) : g.below(2000), (char)('a' + id % 26)); }

template <typename F> struct driver {
	typedef typename F::V V; typedef typename F::tree tree; typedef typename tree::iterator it_t; typedef typename F::C C; typedef typename F::K K;
	typedef decltype(K()(std::declval<V>())) key_t;
	Src & s; Ctx & c; Rng g; std::vector<V> m; std::unique_ptr<tree> t; std::string path; memory_bucket bucket; uint32_t ids = 0; int32_t range; std::string meta; bool deep = false; size_t base = 0;
	driver(Src & s, Ctx & c) : s(s), c(c), g(s.bulk()), path(c.dir + "/tmp/tree") { range = s.pick({1000, 3, 30, 2000000000}); }
	C cmp; K key; key_t kmake(int32_t k, std::true_type) { V v; make(v, k, 0, g); return key(v); } key_t kmake(int32_t k) { return kmake(k, std::true_type()); }
	int32_t rk() { return (int32_t)(g.below((uint64_t)range * 2 + 1)) - range; }
	V val(int32_t k) { V v; make(v, k, ids++, g); return v; }
	size_t lower(const key_t & k) { return (size_t)(std::lower_bound(m.begin(), m.end(), k, [&](const V & v, const key_t & x) { return cmp(key(v), x); }) - m.begin()); }
	size_t upper(const key_t & k) { return (size_t)(std::upper_bound(m.begin(), m.end(), k, [&](const key_t & x, const V & v) { return cmp(x, key(v)); }) - m.begin()); }

	// structure
	struct info { aug a; size_t h; };
	template <typename N> info walk(N & n, size_t & pos, bool root) {
		info r; memset(&r.a, 0, sizeof r.a); size_t z = n.count();
		PBT_CHECK(c, z >= 1, "empty node in the tree");
		if (F::b) { size_t mx = F::serialized && !n.is_leaf() ? (size_t)F::a : (size_t)F::b; PBT_CHECK(c, z <= mx, "a node has %zu entries, at most %zu are allowed", z, mx); if (!root && !F::serialized) PBT_CHECK(c, z >= (size_t)F::a, "a node has %zu entries, at least %d are needed", z, F::a); }
		if (root) { PBT_CHECK(c, !n.has_parent(), "the root has a parent"); PBT_CHECK(c, n.is_leaf() || z >= 2 || F::static_, "an inner root with one child"); }
		else PBT_CHECK(c, n.has_parent(), "an inner node without a parent");
		if (n.is_leaf()) {
			for (size_t i = 0; i < z; ++i) {
				PBT_CHECK(c, pos < m.size(), "the leaves have more than %zu values", m.size()); const V & v = n.value(i); PBT_CHECK(c, same(v, m[pos]), "value %zu in the leaves is wrong", pos);
				r.a.sum += ident(v); r.a.cnt++; r.a.hash = r.a.hash * 31 + ident(v);
				if (F::ordered) chk_min(n, i, pos, std::integral_constant<bool, F::ordered>());
				++pos;
			}
			r.h = 1;
		} else {
			for (size_t i = 0; i < z; ++i) {
				size_t p0 = pos; aug ga = n.get_augmentation(i);
				chk_min(n, i, p0, std::integral_constant<bool, F::ordered>());
				n.child(i); PBT_CHECK(c, n.index() == i, "child %zu says it has index %zu", i, n.index());
				info x = walk(n, pos, false); n.parent();
				PBT_CHECK(c, memcmp(&x.a, &ga, sizeof ga) == 0, "the augmentation of child %zu is out of date (%u values summing to %llu, %u summing to %llu below it)", i, ga.cnt, (unsigned long long)ga.sum, x.a.cnt, (unsigned long long)x.a.sum);
				if (i) PBT_CHECK(c, x.h + 1 == r.h, "leaves at different depths"); r.h = x.h + 1;
				r.a.sum += x.a.sum; r.a.cnt += x.a.cnt; r.a.hash = r.a.hash * 31 + x.a.hash;
			}
		}
		return r;
	}
	template <typename N> void chk_min(N & n, size_t i, size_t pos, std::true_type) { PBT_CHECK(c, pos < m.size() && n.min_key(i) == key(m[pos]), "the minimum key of child %zu is wrong", i); }
	template <typename N> void chk_min(N &, size_t, size_t, std::false_type) {}
	void structure() {
		PBT_CHECK(c, t->size() == m.size() && t->empty() == m.empty(), "size() is %llu, empty() %d; expected %zu", (unsigned long long)t->size(), (int)t->empty(), m.size());
		if (m.empty()) return;
		auto r = t->root(); size_t pos = 0; info x = walk(r, pos, true); PBT_CHECK(c, pos == m.size(), "the leaves have %zu values, expected %zu", pos, m.size()); if (x.h >= 3) deep = true;
		if (F::internal_) PBT_CHECK(c, (size_t)bucket.count == get_memory_manager().used() - base, "the bucket says %zu bytes, %zu are accounted for", (size_t)bucket.count, (size_t)get_memory_manager().used() - base);
	}
	it_t at(size_t i) { it_t r; if (s.flip() || m.size() - i < i) { r = t->end(); for (size_t k = m.size(); k > i; --k) --r; } else { r = t->begin(); for (size_t k = 0; k < i; ++k) ++r; } return r; }
	void iterate() {
		it_t i = t->begin(), e = t->end(); size_t k = 0; for (; !(i == e); ++i, ++k) { PBT_CHECK(c, k < m.size(), "iteration does not stop after %zu values", m.size()); PBT_CHECK(c, same(*i, m[k]), "iterating forwards gives a wrong value at %zu", k); }
		PBT_CHECK(c, k == m.size(), "iteration stops after %zu of %zu values", k, m.size());
		i = t->end(); for (k = m.size(); k; --k) { --i; PBT_CHECK(c, same(*i, m[k - 1]), "iterating backwards gives a wrong value at %zu", k - 1); } PBT_CHECK(c, i == t->begin(), "iterating backwards does not end at begin()");
	}
	void expect_at(it_t i, size_t pos, const char * what) {
		if (pos == m.size()) { PBT_CHECK(c, i == t->end(), "%s should be end()", what); return; }
		PBT_CHECK(c, !(i == t->end()), "%s is end(), expected position %zu", what, pos);
		PBT_CHECK(c, same(*i, m[pos]), "%s gives a wrong value (expected position %zu of %zu)", what, pos, m.size());
		auto lf = i.get_leaf(); PBT_CHECK(c, i.index() < lf.count() && same(lf.value(i.index()), m[pos]), "get_leaf() of %s", what);
		if (s.chance(1, 2)) { size_t st = s.below(6); for (size_t k = 0; k < st && pos < m.size(); ++k) { ++i; ++pos; } } else { size_t st = s.below(6); for (size_t k = 0; k < st && pos; ++k) { --i; --pos; } }
		if (pos == m.size()) PBT_CHECK(c, i == t->end(), "stepping from %s should reach end()", what); else PBT_CHECK(c, !(i == t->end()) && same(*i, m[pos]), "stepping from %s to position %zu gives a wrong value", what, pos);
	}
	void lookup(std::true_type) {
		int32_t k0 = rk(); key_t k = !m.empty() && s.flip() ? key(m[g.below(m.size())]) : kmake(k0);
		size_t lo = lower(k), up = upper(k);
		switch (s.below(3)) { case 0: c.trace("find %zu..%zu", lo, up); expect_at(t->find(k), lo == up ? m.size() : lo, "find()"); break; case 1: c.trace("lower_bound"); expect_at(t->lower_bound(k), lo, "lower_bound()"); break; default: c.trace("upper_bound"); expect_at(t->upper_bound(k), up, "upper_bound()"); }
	}
	void lookup(std::false_type) {}
	// changes
	void insert_ord(V v, std::true_type) { m.insert(m.begin() + (long)upper(key(v)), v); t->insert(v); }
	void insert_ord(V v, std::false_type) { size_t i = g.below(3) ? g.below(m.size() + 1) : (g.below(2) ? 0 : m.size()); it_t it = at(i); m.insert(m.begin() + (long)i, v); t->insert_before(v, it); }
	void erase_key(std::true_type) { key_t k = !m.empty() && s.chance(3, 4) ? key(m[g.below(m.size())]) : kmake(rk()); size_t lo = lower(k), up = upper(k); c.trace("erase key: %zu values", up - lo); auto n = t->erase(k); PBT_CHECK(c, n == up - lo, "erase() of a key says %zu, %zu values have it", (size_t)n, up - lo); m.erase(m.begin() + (long)lo, m.begin() + (long)up); }
	void erase_key(std::false_type) {}
	void change(std::true_type) {
		typedef std::integral_constant<bool, F::ordered> ord;
		switch (s.weighted({4, 3, 1, 1})) {
		case 0: { size_t n = 1 + s.size(F::internal_ ? 60 : 40, 8); unsigned mode = (unsigned)s.below(3); c.trace("insert x%zu mode %u", n, mode); int32_t k = rk(); for (size_t i = 0; i < n; ++i) { insert_ord(val(mode == 0 ? rk() : mode == 1 ? k++ : k--), ord()); if (s.position() < 3000 && n < 12) structure(); } break; }
		case 1: { size_t n = 1 + s.size(50, 8); unsigned mode = (unsigned)s.below(3); c.trace("erase x%zu mode %u", n, mode); for (size_t i = 0; i < n && !m.empty(); ++i) { size_t p = mode == 0 ? g.below(m.size()) : mode == 1 ? 0 : m.size() - 1; t->erase(at(p)); m.erase(m.begin() + (long)p); if (n < 12) structure(); } break; }
		case 2: erase_key(ord()); break;
		default: c.trace("erase everything"); if (s.chance(1, 4)) while (!m.empty()) { size_t p = g.below(m.size()); t->erase(at(p)); m.erase(m.begin() + (long)p); } break;
		}
	}
	void change(std::false_type) {}
	void open(std::true_type) { t.reset(new tree(cmp, augmenter(), memory_bucket_ref(&bucket))); }
	void open(std::false_type) { t.reset(new tree(path, cmp, augmenter())); }
	void build(std::true_type) { typename F::builder b(cmp, augmenter(), memory_bucket_ref(&bucket)); fill(b, btree_flags::defaults); }
	void build(std::false_type) {
		btree_flags f = btree_flags::defaults;
		if (F::serialized) { f = s.pick({btree_flags::compress_none, btree_flags::compress_lz4, btree_flags::compress_snappy, btree_flags::compress_zstd}); if (s.chance(1, 3)) f |= (btree_flags)((1 + s.below(19)) << 8); c.trace("compression flags %llx", (unsigned long long)f); if (s.flip()) f |= btree_flags::write; }
		typename F::builder b(path, cmp, augmenter(), f); fill(b, f);
	}
	void fill(typename F::builder & b, btree_flags) {
		size_t n = s.size(c.thorough ? 3000 : F::internal_ ? 600 : 400, 32); std::vector<V> v; for (size_t i = 0; i < n; ++i) v.push_back(val(rk()));
		if (F::ordered) std::stable_sort(v.begin(), v.end(), [&](const V & x, const V & y) { return cmp(key(x), key(y)); });
		c.trace("build from %zu values", n); for (const V & x : v) b.push(x); m = v;
		if ((F::serialized || F::internal_) && s.chance(1, 2)) { Rng h = s.bulk(); meta.assign(1 + h.below(200), 'm'); for (char & x : meta) x = (char)h.next(); c.trace("with %zu bytes of metadata", meta.size()); t.reset(new tree(b.build(meta))); } else t.reset(new tree(b.build()));
	}
	void metadata() { if (!F::serialized && !F::internal_) return; if (F::internal_ && s.chance(1, 3)) { meta = std::string(s.below(20), 'x'); t->set_metadata(meta); } std::string x = t->get_metadata(); PBT_CHECK(c, x == meta, "get_metadata() gives %zu other bytes than the %zu that were set", x.size(), meta.size()); }
	void assign(std::true_type, std::true_type) { tree x(cmp, augmenter(), memory_bucket_ref(&bucket)); x = std::move(*t); t.reset(new tree(std::move(x))); }
	void assign(std::false_type, std::true_type) { std::string p2 = path + "-2"; { typename F::builder b(p2, cmp, augmenter(), btree_flags::defaults); if (g.below(2)) b.push(val(1)); std::unique_ptr<tree> x(new tree(b.build())); *x = std::move(*t); t = std::move(x); } unlink(p2.c_str()); }
	void assign(std::false_type, std::false_type) {} void assign(std::true_type, std::false_type) { assign(std::true_type(), std::true_type()); }
	void run() {
		typedef std::integral_constant<bool, F::internal_> in; typedef std::integral_constant<bool, !F::static_> dyn; typedef std::integral_constant<bool, F::ordered> ord;
		base = get_memory_manager().used(); bool reopened = false; size_t most = 0;
		if (F::static_ || s.chance(1, 3)) build(in()); else { c.trace("new tree"); open(in()); }
		structure();
		while (s.more(14)) {
			switch (s.weighted({5, 3, 1, 1, 1, 1})) {
			case 5: if (s.flip()) { c.trace("move"); t.reset(new tree(std::move(*t))); } else { c.trace("move-assign"); assign(in(), std::integral_constant<bool, F::serialized>()); } structure(); c.label("moved"); break;
			case 0: change(dyn()); structure(); break;
			case 1: lookup(ord()); break;
			case 2: c.trace("iterate"); iterate(); break;
			case 3: c.trace("metadata"); metadata(); break;
			default: if (!F::internal_) { c.trace("close and reopen"); t.reset(); open(in()); reopened = true; structure(); } break;
			}
			most = std::max(most, m.size());
		}
		structure(); iterate(); t.reset();
		PBT_CHECK(c, (size_t)bucket.count == 0, "the bucket of the destroyed tree says %zu bytes", (size_t)bucket.count);
		if (!F::internal_) { unlink(path.c_str()); unlink((path + ".queue").c_str()); }
		if (deep) c.label("three levels or more"); if (reopened) c.label("reopened"); c.nontrivial(deep || most > 40);
	}
};
template <typename F> static void go(Src & s, Ctx & c, const char * nm) { c.trace("%s", nm); Resources res(c.dir); { driver<F> d(s, c); d.run(); } res.expect_same(c, "after the tree is gone"); }
using namespace tpie::bbits;
static void internal_case(Src & s, Ctx & c) {
	switch (s.below(5)) {
	case 0: go<flavour<rec<0>, f_internal, 0, 0, 0, default_comp, false>>(s, c, "internal"); break;
	case 1: go<flavour<rec<0>, f_internal, 2, 4, 0, desc, false>>(s, c, "internal <2,4> descending"); break;
	case 2: go<flavour<rec<8>, f_internal, 3, 7, 0, default_comp, false>>(s, c, "internal <3,7>"); break;
	case 3: go<flavour<rec<0>, f_internal | f_unordered, 2, 4, 0, default_comp, false>>(s, c, "internal unordered <2,4>"); break;
	default: go<flavour<std::string, f_internal, 2, 4, 0, default_comp, false>>(s, c, "internal strings <2,4>");
	}
}
static void external_case(Src & s, Ctx & c) {
	switch (s.below(5)) {
	case 0: go<flavour<rec<0>, 0, 2, 4, 512, default_comp, false>>(s, c, "external <2,4>"); break;
	case 1: go<flavour<rec<24>, 0, 0, 0, 256, default_comp, false>>(s, c, "external in 256-byte blocks"); break;
	case 2: go<flavour<rec<0>, 0, 3, 6, 400, desc, false>>(s, c, "external <3,6> descending"); break;
	case 3: go<flavour<rec<0>, f_unordered, 2, 4, 300, default_comp, false>>(s, c, "external unordered <2,4>"); break;
	default: go<flavour<rec<1000>, 0, 0, 0, 0, default_comp, false>>(s, c, "external in default blocks");
	}
}
static void static_case(Src & s, Ctx & c) {
	switch (s.below(4)) {
	case 0: go<flavour<rec<0>, f_internal | f_static, 2, 4, 0, default_comp, false>>(s, c, "static internal"); break;
	case 1: go<flavour<rec<0>, f_static, 2, 5, 512, default_comp, false>>(s, c, "static external"); break;
	case 2: go<flavour<rec<24>, f_static, 0, 0, 400, desc, false>>(s, c, "static external in 400-byte blocks"); break;
	default: go<flavour<rec<0>, f_internal | f_static | f_unordered, 2, 4, 0, default_comp, false>>(s, c, "static internal unordered"); break;
	}
}
static void serialized_case(Src & s, Ctx & c) {
	switch (s.below(9)) {
	case 0: go<flavour<rec<0>, f_static | f_serialized, 3, 4, 0, default_comp, false>>(s, c, "serialized <3,4>"); break;
	case 1: go<flavour<rec<8>, f_static | f_serialized, 0, 0, 300, default_comp, false>>(s, c, "serialized in 300-byte blocks"); break;
	case 2: go<flavour<rec<0>, f_static | f_serialized | f_unordered, 2, 6, 0, default_comp, false>>(s, c, "serialized unordered"); break;
	case 3: go<flavour<rec<0>, f_static | f_serialized, 0, 0, 256, desc, false>>(s, c, "serialized descending"); break;
	case 4: go<flavour<var, f_static | f_serialized, 3, 4, 0, default_comp, false>>(s, c, "serialized <3,4>, values of varying size"); break;
	case 5: go<flavour<var, f_static | f_serialized, 0, 0, 300, desc, false>>(s, c, "serialized in 300-byte blocks, values of varying size"); break;
	case 6: go<flavour<var, f_static | f_serialized | f_unordered, 0, 0, 0, default_comp, false>>(s, c, "serialized unordered, values of varying size"); break;
	case 7: go<flavour<std::string, f_static | f_serialized | f_unordered, 3, 20, 0, default_comp, false>>(s, c, "serialized unordered strings"); break;
	default: go<flavour<rec<500>, f_static | f_serialized, 0, 0, 0, default_comp, false>>(s, c, "serialized in default blocks");
	}
}
// a serialized tree whose builder was never finished, or whose header was damaged, is refused
static void reject_case(Src & s, Ctx & c) {
	typedef flavour<rec<0>, f_static | f_serialized, 3, 4, 0, default_comp, false> F; std::string path = c.dir + "/tmp/tree"; Rng g = s.bulk(); Resources res(c.dir);
	{
		size_t n = s.size(200, 16); unsigned what = (unsigned)s.below(4); c.trace("%zu values, kind %u", n, what); std::vector<F::V> v(n); for (size_t i = 0; i < n; ++i) { v[i].key = (int)i; v[i].id = 0; }
		{ F::builder b(path, default_comp(), augmenter(), s.pick({compress_none, compress_lz4})); for (auto & x : v) b.push(x); if (what) b.build(); }
		if (what == 1) { int fd = ::open(path.c_str(), O_RDWR); unsigned char x; off_t o = (off_t)g.below(8); if (pread(fd, &x, 1, o) != 1) {} x = (unsigned char)(x ^ (1 << g.below(8))); if (pwrite(fd, &x, 1, o) != 1) {} close(fd); }
		else if (what == 2) { int fd = ::open(path.c_str(), O_RDWR); unsigned char x = (unsigned char)(2 + g.below(200)); if (pwrite(fd, &x, 1, 8 + (off_t)g.below(8)) != 1) {} close(fd); }
		else if (what == 3) { if (truncate(path.c_str(), (off_t)g.below(56)) != 0) {} }
		bool t = false; try { F::tree x(path); } catch (const tpie::exception &) { t = true; }
		PBT_CHECK(c, t, "a file that is not a finished tree (kind %u) was opened", what);
		unlink(path.c_str()); t = false; try { F::tree x(path); } catch (const tpie::exception &) { t = true; } PBT_CHECK(c, t, "a missing file was opened");
		c.nontrivial(n > 3);
	}
	res.expect_same(c, "after refusing the file");
}
static void setup(const std::string &) { init_tpie(4096, 256u << 20, false); }
int main(int argc, char ** argv) {
	pbt::Suite su; su.property = "C09"; su.setup = setup;
	su.rule = "random histories of insertion (random, ascending, descending, many equal keys), erasure by position and by key, lookups, iteration, closing and reopening, and building from sorted input, on 19 flavours of B-tree, each step compared with a sorted vector and the whole node structure walked; non-trivial: the tree had three levels or more than 40 values";
	su.scenarios.push_back({"internal", internal_case, 12000, 120000, BATCH});
	su.scenarios.push_back({"external", external_case, 7000, 60000, BATCH});
	su.scenarios.push_back({"static", static_case, 4000, 40000, BATCH});
	su.scenarios.push_back({"serialized", serialized_case, 6000, 60000, BATCH});
	su.scenarios.push_back({"reject", reject_case, 800, 4000, BATCH});
	return pbt::main_loop(argc, argv, su);
}
