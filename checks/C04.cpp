// External priority queue against a multiset.
#include "common.h"
#include <tpie/priority_queue.h>
#include <map>
#include <set>
using namespace tv;
static const size_t BATCH = 8;
static size_t block_for(uint64_t index) { static const size_t t[] = {256, 512, 1024, 4096}; return t[(index / BATCH) % 4]; }

template <size_t PAD> struct pq_item { uint64_t key; uint32_t id; unsigned char pad[PAD]; bool operator<(const pq_item & o) const { return key < o.key; } };
struct pq_greater { template <typename T> bool operator()(const T & a, const T & b) const { return b.key < a.key; } };
// orders by a permuted key, so that the order is neither natural nor reversed
struct pq_mod { template <typename T> bool operator()(const T & a, const T & b) const { return (a.key * 0x9E3779B97F4A7C15ull) < (b.key * 0x9E3779B97F4A7C15ull); } };

template <typename T, typename Cmp> static void pq_case(Src & s, Ctx & c, bool external) {
	size_t bs = block_for(c.index);
	init_tpie(bs);
	Resources res(c.dir);
	tpie::get_memory_manager().set_limit(256u << 20);
	struct KeyCmp { bool operator()(uint64_t a, uint64_t b) const { T x, y; x.key = a; y.key = b; return Cmp()(x, y); } };
	std::map<uint64_t, std::set<uint32_t>, KeyCmp> model; size_t n = 0; uint32_t ids = 0;
	std::unique_ptr<tpie::priority_queue<T, Cmp>> pq;
	bool tookExternal = false, deep = false; size_t peak = 0, capacity = ~size_t(0), pops = 0;
	if (external) {
		float bf = s.pick<float>({1.0f, 0.5f, 2.0f, 0.25f});
		// find a small amount of memory the constructor accepts, then add a random extra
		while (bs * bf < sizeof(T)) bf *= 2;
		size_t k = 5 + s.weighted({4, 2, 1, 1});
		size_t mem = 2 * k * (24 * k + tpie::file_stream<T>::memory_usage(bf) + 16 * sizeof(T) + 64) + (20 << 10) + 2 * tpie::file_stream<T>::memory_usage(bf);
		mem += s.weighted({3, 1}) == 0 ? s.below(2000) : s.below(mem);
		for (;; mem += mem / 8) { try { tpie::priority_queue<T, Cmp> probe((tpie::memory_size_type)mem, bf); break; } catch (const std::exception &) {} if (mem > (64u << 20)) c.fail("no amount of memory up to 64 MiB is enough for a priority queue"); }
		bool frac = s.chance(1, 4);
		c.trace("priority queue in %zu bytes of memory, block factor %g%s", mem, bf, frac ? " (fraction)" : "");
		if (frac) { // the fraction is of the available memory in chunks of 5 MiB
			tpie::get_memory_manager().set_limit(tpie::get_memory_manager().used() + (21u << 20));
			try { pq.reset(new tpie::priority_queue<T, Cmp>((double)mem / (20u << 20), bf)); } catch (const std::exception &) { frac = false; }
			tpie::get_memory_manager().set_limit(256u << 20);
		}
		if (!frac) pq.reset(new tpie::priority_queue<T, Cmp>((tpie::memory_size_type)mem, bf));
		tookExternal = true; peak = mem;
	} else {
		capacity = s.size(2000, 64) + 1;
		c.trace("priority queue for at most %zu items", capacity);
		pq.reset(new tpie::priority_queue<T, Cmp>((tpie::memory_size_type)(capacity * sizeof(T) + s.below(1000)), 0.0625f, capacity));
	}
	uint64_t keys = s.pick<uint64_t>({1000000, 3, 50, 1000, 0});
	Rng g = s.bulk();
	uint64_t asc = 0;
	auto mk = [&](unsigned mode) {
		T t; memset((void *)&t, 0, sizeof t);
		switch (mode) { case 0: t.key = keys ? g.below(keys) : g.next(); break; case 1: t.key = asc++; break; case 2: t.key = 1000000000 - asc++; break; default: t.key = model.empty() ? g.below(100) : model.begin()->first + g.below(5); }
		t.id = ids++; for (size_t i = 0; i < sizeof(t.pad); ++i) t.pad[i] = (unsigned char)(t.id * 31 + i);
		return t;
	};
	auto consume = [&](const T & t, const char * how) {
		PBT_CHECK(c, n > 0, "%s gave an item of an empty queue", how);
		auto it = model.begin();
		PBT_CHECK(c, !Cmp()(T(t), [&] { T x; x.key = it->first; return x; }()) && t.key == it->first, "%s gave key %llu, the first is %llu (%zu items)", how, (unsigned long long)t.key, (unsigned long long)it->first, n);
		PBT_CHECK(c, it->second.count(t.id) == 1, "%s gave an item that is not in the queue", how);
		for (size_t i = 0; i < sizeof(t.pad); ++i) PBT_CHECK(c, t.pad[i] == (unsigned char)(t.id * 31 + i), "%s gave a damaged item", how);
	};
	auto drop = [&](const T & t) { auto it = model.begin(); it->second.erase(t.id); if (it->second.empty()) model.erase(it); --n; };
	size_t limit = c.thorough ? 60000 : 12000, total = 0;
	unsigned avg = s.pick({6, 15, 40});
	while (s.more(avg) && total < limit) {
		PBT_CHECK(c, pq->size() == n && pq->empty() == (n == 0), "size() is %llu, empty() %d; expected %zu", (unsigned long long)pq->size(), (int)pq->empty(), n);
		switch (s.weighted({4, 3, 2, 2, 1})) {
		case 0: { // pushes
			size_t k = s.size(external ? 3000 : 300, 100); unsigned mode = (unsigned)s.below(4); if (n > 8000) k = 0; k = std::min(k, capacity - n); c.trace("push x%zu mode %u", k, mode);
			for (size_t i = 0; i < k; ++i) { T t = mk(mode); pq->push(t); model[t.key].insert(t.id); ++n; } total += k; break; }
		case 1: { // pops
			size_t k = s.chance(1, 6) ? n : s.size(n, 64); c.trace("pop x%zu", k); pops += k;
			for (size_t i = 0; i < k && n; ++i) { T t = pq->top(); consume(t, "top()"); pq->pop(); drop(t); } total += k / 2; break; }
		case 2: { // mixed push and pop
			size_t k = s.size(external ? 1500 : 200, 100); unsigned mode = (unsigned)s.below(4); unsigned bias = (unsigned)s.range(1, 3); c.trace("mix x%zu mode %u bias %u", k, mode, bias);
			for (size_t i = 0; i < k; ++i) {
				if (n && g.below(4) >= bias) { T t = pq->top(); consume(t, "top()"); T t2 = pq->top(); PBT_CHECK(c, memcmp(&t, &t2, sizeof t) == 0 || t.key == t2.key, "two calls of top() differ"); if (g.below(2)) { pq->pop(); drop(t2); ++pops; } }
				else if (n < capacity) { T t = mk(mode); pq->push(t); model[t.key].insert(t.id); ++n; }
			} total += k; break; }
		case 3: { // pop_equals
			if (!n) break; c.trace("pop_equals"); ++pops;
			uint64_t k = model.begin()->first; std::set<uint32_t> want = model.begin()->second, got; size_t cnt = 0;
			pq->pop_equals([&](const T & t) { ++cnt; PBT_CHECK(c, t.key == k, "pop_equals() gave key %llu, first is %llu", (unsigned long long)t.key, (unsigned long long)k); got.insert(t.id); });
			PBT_CHECK(c, got == want && cnt == want.size(), "pop_equals() gave %zu items, %zu have the first key", cnt, want.size());
			model.erase(model.begin()); n -= want.size(); break; }
		default: if (n == 0) {
			c.trace("pop and top of the empty queue");
			bool t = false; try { pq->pop(); } catch (const tpie::priority_queue_error &) { t = true; } PBT_CHECK(c, t, "pop() of the empty queue");
			t = false; try { pq->top(); } catch (const tpie::priority_queue_error &) { t = true; } PBT_CHECK(c, t, "top() of the empty queue");
			} break;
		}
		if (external && n * sizeof(T) > peak) deep = true;
	}
	PBT_CHECK(c, pq->size() == n, "size() is %llu; expected %zu", (unsigned long long)pq->size(), n);
	if (s.chance(7, 8)) {
		while (n) { T t = pq->top(); consume(t, "top() while draining"); pq->pop(); drop(t); ++pops; }
		PBT_CHECK(c, pq->empty() && pq->size() == 0, "not empty after popping everything");
	}
	pq.reset();
	res.expect_same(c, "after destroying the queue");
	if (deep) c.label("more data than memory");
	c.nontrivial(external ? deep && pops : total > 10 && pops);
	(void)tookExternal;
}

static void ext(Src & s, Ctx & c) {
	switch (s.weighted({3, 2, 2, 1})) {
	case 0: pq_case<pq_item<116>, std::less<pq_item<116>>>(s, c, true); break;
	case 1: pq_case<pq_item<500>, pq_greater>(s, c, true); break;
	case 2: pq_case<pq_item<4>, std::less<pq_item<4>>>(s, c, true); break;
	default: pq_case<pq_item<244>, pq_mod>(s, c, true); break;
	}
}
static void inmem(Src & s, Ctx & c) {
	switch (s.weighted({2, 1})) { case 0: pq_case<pq_item<4>, std::less<pq_item<4>>>(s, c, false); break; default: pq_case<pq_item<20>, pq_greater>(s, c, false); }
}
int main(int argc, char ** argv) {
	pbt::Suite su; su.property = "C04";
	su.rule = "random interleavings of push, pop, top, pop_equals with random, ascending, descending and near-minimum keys and many duplicates on an external priority queue given the least memory it accepts (plus a random extra), and on one that holds everything in memory, compared with a multiset; non-trivial: more bytes were in the queue than the memory it was given and items were popped (external), or more than ten items went through it (in memory)";
	su.scenarios.push_back({"external", ext, 1700, 20000, BATCH});
	su.scenarios.push_back({"memory", inmem, 3000, 40000, BATCH});
	return pbt::main_loop(argc, argv, su);
}
