// Block collections, with and without cache, and their free-space lists against a map of blocks.
#include "common.h"
#include "huge.h"
#include <tpie/blocks/block_collection.h>
#include <tpie/blocks/block_collection_cache.h>
#include <map>
#include <set>
using namespace tv;
using namespace tpie::blocks;
static const size_t BATCH = 32;

struct model {
	std::map<uint64_t, std::vector<char>> live; // position -> contents (empty: nothing written yet)
	uint64_t end = 0; size_t bs; size_t peak = 0, reused = 0;
	std::set<uint64_t> freed;
	void alloc(Ctx & c, const block_handle & h) {
		PBT_CHECK(c, h.size == bs, "a new block has %zu bytes, the collection has blocks of %zu", (size_t)h.size, bs);
		auto n = live.lower_bound(h.position);
		PBT_CHECK(c, n == live.end() || n->first >= h.position + bs, "a new block at %llu overlaps the one at %llu", (unsigned long long)h.position, (unsigned long long)n->first);
		if (n != live.begin()) { --n; PBT_CHECK(c, n->first + bs <= h.position, "a new block at %llu overlaps the one at %llu", (unsigned long long)h.position, (unsigned long long)n->first); }
		if (!freed.empty()) { PBT_CHECK(c, freed.count(h.position), "a new block at %llu was made although %zu blocks are free", (unsigned long long)h.position, freed.size()); ++reused; }
		freed.erase(h.position); live[h.position]; end = std::max(end, h.position + bs);
		peak = std::max(peak, live.size());
		PBT_CHECK(c, end <= peak * bs, "%zu blocks were in use at most, but the collection reaches to byte %llu with blocks of %zu bytes", peak, (unsigned long long)end, bs);
	}
	block_handle some(Rng & g) { auto i = live.begin(); std::advance(i, (long)g.below(live.size())); return block_handle(i->first, bs); }
};
static void fill(std::vector<char> & v, Rng & g) { for (char & x : v) x = (char)g.next(); }
static size_t block_bytes(Src & s) { return s.pick({64, 8, 1, 100, 512, 4096}); }

static void plain_case(Src & s, Ctx & c) {
	Resources res(c.dir); std::string path = c.dir + "/tmp/blocks"; Rng g = s.bulk(); model m; m.bs = block_bytes(s); bool writable = true; size_t reopened = 0;
	{
		std::unique_ptr<block_collection> b(new block_collection(path, m.bs, true)); c.trace("blocks of %zu bytes", m.bs);
		while (s.more(30)) switch (s.weighted({5, 5, 4, 3, 1})) {
		case 0: if (writable) { size_t n = 1 + s.below(4); for (size_t i = 0; i < n; ++i) { block_handle h = b->get_free_block(); c.trace("new block at %llu", (unsigned long long)h.position); m.alloc(c, h); } } break;
		case 1: if (writable && !m.live.empty()) { block_handle h = m.some(g); std::vector<char> v(m.bs); fill(v, g); block x(m.bs); std::copy(v.begin(), v.end(), x.begin()); c.trace("write %llu", (unsigned long long)h.position);
			b->write_block(h, x); m.live[h.position] = v; } break;
		case 2: if (!m.live.empty()) { block_handle h = m.some(g); if (m.live[h.position].empty()) break; block x(s.pick({0, 1, 7})); c.trace("read %llu", (unsigned long long)h.position); b->read_block(h, x);
			PBT_CHECK(c, x.size() == m.bs && std::equal(x.begin(), x.end(), m.live[h.position].begin()), "the block at %llu has wrong contents", (unsigned long long)h.position); } break;
		case 3: if (writable && !m.live.empty()) { size_t n = 1 + s.below(4); for (size_t i = 0; i < n && !m.live.empty(); ++i) { block_handle h = m.some(g); c.trace("free %llu", (unsigned long long)h.position); b->free_block(h); m.live.erase(h.position); m.freed.insert(h.position); } } break;
		default: { writable = !s.chance(1, 3); c.trace("reopen %s", writable ? "for writing" : "read-only"); b.reset(); b.reset(new block_collection(path, m.bs, writable)); ++reopened; }
		}
		for (auto & x : m.live) if (!x.second.empty()) { block y; b->read_block(block_handle(x.first, m.bs), y); PBT_CHECK(c, y.size() == m.bs && std::equal(y.begin(), y.end(), x.second.begin()), "at the end the block at %llu has wrong contents", (unsigned long long)x.first); }
	}
	unlink(path.c_str()); unlink((path + ".queue").c_str());
	c.nontrivial(m.reused > 1 && m.peak > 3); if (reopened) c.label("reopened"); if (m.reused) c.label("blocks reused");
	res.expect_same(c, "after closing the collection");
}
static void cache_case(Src & s, Ctx & c) {
	Resources res(c.dir); std::string path = c.dir + "/tmp/blocks"; Rng g = s.bulk(); model m; m.bs = block_bytes(s); size_t cap = s.pick({1, 2, 3, 5, 16}); bool writable = true; size_t reopened = 0, over = 0, held = 0;
	{
		std::unique_ptr<block_collection_cache> b(new block_collection_cache(path, m.bs, cap, true)); c.trace("blocks of %zu bytes, %zu of them cached", m.bs, cap);
		// The blocks used last, the most recent one at the end: the cache keeps them in memory, and no others.
		std::vector<std::pair<uint64_t, tpie::blocks::block *>> recent; size_t base = tpie::get_memory_manager().used();
		auto forget = [&](uint64_t pos) { for (size_t i = 0; i < recent.size(); ++i) if (recent[i].first == pos) { recent.erase(recent.begin() + i); break; } };
		auto touch = [&](uint64_t pos, tpie::blocks::block * x) { for (auto & r : recent) if (r.first == pos && r.second) PBT_CHECK(c, r.second == x, "the block at %llu was used recently, but is at another place in memory now", (unsigned long long)pos); forget(pos); recent.emplace_back(pos, x); if (recent.size() > cap) recent.erase(recent.begin()); };
		auto check = [&](uint64_t pos, tpie::blocks::block * x) { PBT_CHECK(c, x && x->size() == m.bs, "read_block gives a block of %zu bytes", x->size()); auto & v = m.live[pos]; PBT_CHECK(c, v.empty() || std::equal(x->begin(), x->end(), v.begin()), "the block at %llu has wrong contents", (unsigned long long)pos); touch(pos, x); };
		while (s.more(30)) { switch (s.weighted({5, 6, 4, 3, 1, 3})) {
		case 0: if (writable) { size_t n = 1 + s.below(4); for (size_t i = 0; i < n; ++i) { block_handle h = b->get_free_block(); c.trace("new block at %llu", (unsigned long long)h.position); m.alloc(c, h); touch(h.position, nullptr); } } break;
		case 5: if (writable && !recent.empty()) { auto r = recent[s.below(recent.size())]; if (!r.second) break; c.trace("change %llu, which is in the cache", (unsigned long long)r.first); auto & v = m.live[r.first]; if (v.empty()) { v.assign(m.bs, 0); fill(v, g); } else v[g.below(m.bs)] = (char)g.next(); std::copy(v.begin(), v.end(), r.second->begin()); b->write_block(block_handle(r.first, m.bs)); touch(r.first, r.second); ++held; } break;
		case 1: if (writable && !m.live.empty()) { block_handle h = m.some(g); c.trace("change %llu", (unsigned long long)h.position); auto * x = b->read_block(h); check(h.position, x); auto & v = m.live[h.position]; if (v.empty()) { v.assign(m.bs, 0); fill(v, g); } else for (size_t i = 0; i < 1 + m.bs / 16; ++i) v[g.below(m.bs)] = (char)g.next();
			std::copy(v.begin(), v.end(), x->begin()); b->write_block(h); ++over; } break;
		case 2: if (!m.live.empty()) { size_t n = 1 + s.below(6); for (size_t i = 0; i < n; ++i) { block_handle h = m.some(g); c.trace("read %llu", (unsigned long long)h.position); check(h.position, b->read_block(h)); } } break;
		case 3: if (writable && !m.live.empty()) { size_t n = 1 + s.below(4); for (size_t i = 0; i < n && !m.live.empty(); ++i) { block_handle h = m.some(g); c.trace("free %llu", (unsigned long long)h.position); b->free_block(h); m.live.erase(h.position); m.freed.insert(h.position); forget(h.position); } } break;
		default: { writable = !s.chance(1, 3); c.trace("reopen %s", writable ? "for writing" : "read-only"); b.reset(); b.reset(new block_collection_cache(path, m.bs, cap, writable)); ++reopened; recent.clear(); base = tpie::get_memory_manager().used(); }
		}
		size_t used = tpie::get_memory_manager().used(), most = cap * (m.bs + sizeof(tpie::blocks::block)) + 4 * tpie::get_block_size() + 1024; PBT_CHECK(c, used <= base + most, "the cache of %zu blocks uses %zu bytes, more than %zu", cap, used - base, most); }
		for (auto & x : m.live) check(x.first, b->read_block(block_handle(x.first, m.bs)));
	}
	{ block_collection b(path, m.bs, false); for (auto & x : m.live) if (!x.second.empty()) { block y; b.read_block(block_handle(x.first, m.bs), y); PBT_CHECK(c, std::equal(y.begin(), y.end(), x.second.begin()), "after closing, the block at %llu on disk has wrong contents", (unsigned long long)x.first); } }
	unlink(path.c_str()); unlink((path + ".queue").c_str());
	c.nontrivial(m.peak > cap && over > 2); if (reopened) c.label("reopened"); if (m.peak > cap) c.label("cache overflowed"); if (held) c.label("changed through a kept pointer"); if (m.reused) c.label("blocks reused");
	res.expect_same(c, "after closing the collection");
}
static void free_case(Src & s, Ctx & c) {
	Resources res(c.dir); std::string path = c.dir + "/tmp/free"; Rng g = s.bulk(); model m; m.bs = block_bytes(s);
	{
		std::unique_ptr<bits::freespace_collection> f(new bits::freespace_collection(path, m.bs));
		while (s.more(20)) switch (s.weighted({4, 3, 1})) {
		case 0: { size_t n = 1 + s.size(60, 10); c.trace("allocate %zu", n); for (size_t i = 0; i < n; ++i) m.alloc(c, f->alloc()); break; }
		case 1: { size_t n = 1 + s.size(60, 10); c.trace("free %zu", n); for (size_t i = 0; i < n && !m.live.empty(); ++i) { block_handle h = m.some(g); f->free(h); m.live.erase(h.position); m.freed.insert(h.position); } break; }
		default: c.trace("reopen"); f.reset(); f.reset(new bits::freespace_collection(path, m.bs)); PBT_CHECK(c, f->size() == m.end, "after reopening, size() is %llu, expected %llu", (unsigned long long)f->size(), (unsigned long long)m.end);
		}
		PBT_CHECK(c, f->size() == m.end, "size() is %llu, expected %llu", (unsigned long long)f->size(), (unsigned long long)m.end);
	}
	unlink(path.c_str()); c.nontrivial(m.reused > 3); res.expect_same(c, "after closing the free-space list");
}
// Collections of more than 4 GiB in sparse files.
static void huge_case(Src & s, Ctx & c) {
	AnySize any; if (!sparse_ok(c.dir, 64ull << 30)) { c.label("no sparse files here"); return; }
	Resources res(c.dir); std::string path = c.dir + "/tmp/blocks"; Rng g = s.bulk(); model m; m.bs = (size_t)1 << (20 + s.below(4)); std::map<uint64_t, uint64_t> tag; bool cached = s.flip(); uint64_t top = 0;
	{
		std::unique_ptr<block_collection> b; std::unique_ptr<block_collection_cache> k; auto open = [&] { if (cached) k.reset(new block_collection_cache(path, m.bs, 2, true)); else b.reset(new block_collection(path, m.bs, true)); }; open();
		auto put = [&](uint64_t pos) { uint64_t v = tag[pos] = g.next(); block_handle h(pos, m.bs); auto set = [&](block & x) { for (size_t i = 0; i < m.bs; i += m.bs / 4) memcpy(x.get() + i, &v, 8); memcpy(x.get() + m.bs - 8, &v, 8); }; c.trace("write %llu", (unsigned long long)pos); top = std::max(top, pos);
			if (cached) { set(*k->read_block(h)); k->write_block(h); } else { block x(m.bs); std::fill(x.begin(), x.end(), 0); set(x); b->write_block(h, x); } };
		auto get = [&](uint64_t pos) { uint64_t v = tag[pos], w; block_handle h(pos, m.bs); block y; block * x = &y; c.trace("read %llu", (unsigned long long)pos); if (cached) x = k->read_block(h); else b->read_block(h, y); PBT_CHECK(c, x->size() == m.bs, "size of the block read"); memcpy(&w, x->get() + m.bs - 8, 8); PBT_CHECK(c, w == v, "the block at %llu ends with %llx, expected %llx", (unsigned long long)pos, (unsigned long long)w, (unsigned long long)v); memcpy(&w, x->get() + m.bs / 4, 8); PBT_CHECK(c, w == v, "the block at %llu has %llx, expected %llx", (unsigned long long)pos, (unsigned long long)w, (unsigned long long)v); };
		// A cache writes a block that is new when it leaves the cache, so the cached collection is made large without a cache.
		size_t n = (size_t)((1ull << (31 + s.below(4))) / m.bs) + s.below(3); c.trace("%zu blocks of %zu bytes", n, m.bs);
		k.reset(); b.reset();
		{ block_collection r(path, m.bs, true); for (size_t i = 0; i < n; ++i) m.alloc(c, r.get_free_block()); }
		open();
		while (s.more(8)) switch (s.weighted({4, 3, 2, 2, 1})) {
		case 0: if (tag.size() < 8) { uint64_t pos = s.chance(1, 2) ? (n - 1 - s.below(std::min<size_t>(n, 4))) * m.bs : g.below(n) * m.bs; if (m.live.count(pos) && (!cached || tag.count(pos))) put(pos); else if (m.live.count(pos)) { block_handle h(pos, m.bs); if (cached) { k.reset(); { block_collection r(path, m.bs, true); block x(m.bs); std::fill(x.begin(), x.end(), 0); r.write_block(h, x); } open(); } put(pos); } } break;
		case 1: if (!tag.empty()) { auto i = tag.begin(); std::advance(i, (long)g.below(tag.size())); get(i->first); } break;
		case 2: { block_handle h = m.some(g); c.trace("free %llu", (unsigned long long)h.position); if (cached) k->free_block(h); else b->free_block(h); m.live.erase(h.position); m.freed.insert(h.position); tag.erase(h.position); break; }
		case 3: { block_handle h = cached ? k->get_free_block() : b->get_free_block(); c.trace("new block at %llu", (unsigned long long)h.position); m.alloc(c, h); n = std::max<size_t>(n, h.position / m.bs + 1); put(h.position); break; }
		default: c.trace("reopen"); if (cached) k.reset(); else b.reset(); open();
		}
		for (auto & t : tag) get(t.first);
	}
	{ block_collection r(path, m.bs, false); for (auto & t : tag) { block y; uint64_t w; r.read_block(block_handle(t.first, m.bs), y); memcpy(&w, y.get() + m.bs - 8, 8); PBT_CHECK(c, w == t.second, "after closing, the block at %llu on disk has wrong contents", (unsigned long long)t.first); } }
	unlink(path.c_str()); unlink((path + ".queue").c_str()); c.nontrivial(top > (1ull << 32)); if (top > (1ull << 32)) c.label("written beyond 4 GiB"); res.expect_same(c, "after closing the collection");
}
static void setup(const std::string &) { init_tpie(128, 256u << 20, false); }
int main(int argc, char ** argv) {
	pbt::Suite su; su.property = "C10"; su.setup = setup;
	su.rule = "random histories of allocating, writing, reading, freeing and reopening on block collections with and without a cache of 1 to 16 blocks, against a map of live blocks; non-trivial: freed blocks were used again (plain, free list), more blocks than the cache holds were changed (cache), blocks were written beyond 4 GiB (huge: blocks of 1 to 8 MiB, collections of up to 16 GiB in sparse files)";
	su.scenarios.push_back({"plain", plain_case, 6000, 80000, BATCH});
	su.scenarios.push_back({"cache", cache_case, 8000, 100000, BATCH});
	su.scenarios.push_back({"free list", free_case, 4000, 40000, BATCH});
	su.scenarios.push_back({"huge", huge_case, 320, 3000, 4});
	return pbt::main_loop(argc, argv, su);
}
