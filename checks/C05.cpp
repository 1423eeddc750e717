// External stack and queue against a vector and a deque.
#include "common.h"
#include "huge.h"
#include <tpie/stack.h>
#include <tpie/queue.h>
#include <deque>
using namespace tv;
static const size_t BATCH = 12;
static size_t block_for(uint64_t index) { static const size_t t[] = {48, 64, 96, 120, 256, 1024}; return t[(index / BATCH) % 6]; }

template <size_t N> static void stack_case(Src & s, Ctx & c) {
	typedef item_t<N> T;
	size_t bs = block_for(c.index); init_tpie(bs);
	Resources res(c.dir);
	std::vector<T> m; Rng g = s.bulk(); uint64_t next = 0;
	double bf = s.pick({1.0, 0.5, 2.0}); while (bs * bf < N) bf *= 2;
	size_t bi = (size_t)(bs * bf) / N;
	unsigned kind = (unsigned)s.below(4); // anonymous, path, temp_file, ami
	std::string path = c.dir + "/st"; unlink(path.c_str());
	bool crossed = false, reopened = false; unsigned shrinks = 0;
	{
		tpie::temp_file tf;
		std::unique_ptr<tpie::stack<T>> st; std::unique_ptr<tpie::ami::stack<T>> am; bool del = false;
		auto mk = [&] {
			if (kind == 0) st.reset(new tpie::stack<T>(bf)); else if (kind == 1) st.reset(new tpie::stack<T>(path, bf)); else if (kind == 2) st.reset(new tpie::stack<T>(tf, bf));
			else { am.reset(new tpie::ami::stack<T>(path)); bf = 1.0; bi = bs / N; }
		};
		if (kind == 3 && bs < N) kind = 1;
		c.trace("%s stack, %zu items per block", kind == 0 ? "anonymous" : kind == 1 ? "named" : kind == 2 ? "temporary" : "AMI", bi);
		mk();
		auto push = [&](const T & t) { if (st) st->push(t); else PBT_CHECK(c, am->push(t) == tpie::ami::NO_ERROR, "push"); m.push_back(t); };
		auto top = [&]() { if (st) return T(st->top()); const T * p = nullptr; PBT_CHECK(c, am->peek(&p) == tpie::ami::NO_ERROR, "peek"); return *p; };
		auto pop = [&]() { if (st) return T(st->pop()); const T * p = nullptr; PBT_CHECK(c, am->pop(&p) == tpie::ami::NO_ERROR, "pop"); return *p; };
		auto amount = [&](size_t have) { size_t r; switch (s.weighted({4, 3, 2, 1})) { case 0: r = 1 + s.below(3); break; case 1: r = s.below(bi + 2); break; case 2: r = bi * (1 + s.below(4)) + s.below(3) - 1; break; default: r = have; } return r; };
		unsigned avg = s.pick({8, 25, 60});
		while (s.more(avg)) {
			uint64_t sz = st ? st->size() : (uint64_t)am->size(); bool e = st ? st->empty() : am->is_empty();
			PBT_CHECK(c, sz == m.size() && e == m.empty(), "size() %llu, empty() %d; expected %zu", (unsigned long long)sz, (int)e, m.size());
			if (m.size() > 2 * bi) crossed = true;
			switch (s.weighted({5, 5, 3, 2, 1})) {
			case 0: { size_t n = amount(bi); if (m.size() > 4000) n = 1; c.trace("push x%zu", n); while (n--) push(T::make(s.chance(1, 40) ? g.next() : next++)); break; }
			case 1: { size_t n = std::min(m.size(), amount(m.size())); c.trace("pop x%zu", n); while (n--) { T t = pop(); PBT_CHECK(c, t == m.back(), "pop() gave %s, expected %s, %zu items on the stack", t.str().c_str(), m.back().str().c_str(), m.size()); m.pop_back(); } break; }
			case 2: { if (m.empty()) break; size_t n = 1 + s.below(2); c.trace("top x%zu", n); while (n--) { T t = top(); PBT_CHECK(c, t == m.back(), "top() gave %s, expected %s, %zu items on the stack", t.str().c_str(), m.back().str().c_str(), m.size()); } break; }
			case 3: { // interleave
				size_t n = amount(20); if (n > 200) n = 200; c.trace("push, pop and top x%zu", n);
				while (n--) switch (g.below(5)) { case 0: case 1: push(T::make(next++)); break; case 2: case 3: if (!m.empty()) { T t = pop(); PBT_CHECK(c, t == m.back(), "pop() gave %s, expected %s, %zu items on the stack", t.str().c_str(), m.back().str().c_str(), m.size()); m.pop_back(); } break; default: if (!m.empty()) PBT_CHECK(c, top() == m.back(), "top() of %zu items", m.size()); }
				break; }
			default: // reopen
				if (kind == 0) break;
				if (kind == 3 && m.empty()) { const T * p; PBT_CHECK(c, am->pop(&p) == tpie::ami::END_OF_STREAM && am->peek(&p) == tpie::ami::END_OF_STREAM, "pop or peek of the empty AMI stack succeeded"); }
				c.trace("close and reopen, %zu items", m.size()); ++shrinks; if (m.size() > bi) reopened = true;
				if (kind == 3) { del = s.chance(1, 5); am->persist(del ? tpie::PERSIST_DELETE : tpie::PERSIST_PERSISTENT); PBT_CHECK(c, am->persist() == (del ? tpie::PERSIST_DELETE : tpie::PERSIST_PERSISTENT), "persist()"); }
				st.reset(); am.reset();
				if (kind != 2) PBT_CHECK(c, file_exists(path) == !del, "the file of the closed stack %s", del ? "still exists" : "is gone");
				if (del) m.clear();
				if (kind == 1 && s.flip()) { // the file holds exactly the items from bottom to top
					tpie::file_stream<T> fs(bf); fs.open(path, tpie::open::read_only);
					PBT_CHECK(c, fs.size() == m.size(), "the file of the closed stack holds %llu items, expected %zu", (unsigned long long)fs.size(), m.size());
					for (size_t i = 0; i < m.size(); ++i) PBT_CHECK(c, fs.read() == m[i], "item %zu of %zu in the file of the closed stack", i, m.size());
				}
				del = false; mk(); break;
			}
		}
		uint64_t sz = st ? st->size() : (uint64_t)am->size();
		PBT_CHECK(c, sz == m.size(), "final size() %llu, expected %zu", (unsigned long long)sz, m.size());
		while (!m.empty()) { T t = pop(); PBT_CHECK(c, t == m.back(), "final pop() gave %s, expected %s, %zu items on the stack", t.str().c_str(), m.back().str().c_str(), m.size()); m.pop_back(); }
		st.reset(); am.reset(); unlink(path.c_str());
	}
	res.expect_same(c, "after destroying the stack");
	if (reopened) c.label("reopened with more than one block");
	c.nontrivial(crossed);
}

template <size_t N> static void queue_case(Src & s, Ctx & c) {
	typedef item_t<N> T;
	size_t bs = block_for(c.index); init_tpie(bs); if (bs < N) bs = N;
	Resources res(c.dir);
	size_t bi = bs / N; std::deque<T> m; Rng g = s.bulk(); uint64_t next = 0; unsigned turn = 0; bool drained = false; size_t maxn = 0;
	{
		bool ami = s.chance(1, 5);
		tpie::compression_flags cf = s.pick({tpie::compression_normal, tpie::compression_none, tpie::compression_all});
		std::unique_ptr<tpie::queue<T>> q; std::unique_ptr<tpie::ami::queue<T>> aq;
		if (ami) aq.reset(new tpie::ami::queue<T>()); else q.reset(new tpie::queue<T>(tpie::access_sequential, cf));
		tpie::queue<T> & qq = ami ? *aq : *q;
		c.trace("%squeue, %zu items per block, compression %d", ami ? "AMI " : "", bi, (int)cf);
		auto pop1 = [&] { if (ami) { const T * p = nullptr; PBT_CHECK(c, aq->dequeue(&p) == tpie::ami::NO_ERROR, "dequeue"); return *p; } return T(qq.pop()); };
		auto amount = [&](size_t have) { size_t r; switch (s.weighted({4, 3, 2, 1})) { case 0: r = 1 + s.below(3); break; case 1: r = s.below(bi + 2); break; case 2: r = bi * (1 + s.below(4)) + s.below(3) - 1; break; default: r = have; } return r; };
		unsigned avg = s.pick({8, 25, 60});
		while (s.more(avg)) {
			PBT_CHECK(c, qq.size() == m.size() && qq.empty() == m.empty(), "size() %llu, empty() %d; expected %zu", (unsigned long long)qq.size(), (int)qq.empty(), m.size());
			switch (s.weighted({5, 5, 3, 2, 1})) {
			case 0: { size_t n = amount(bi); if (m.size() > 4000) n = 1; c.trace("push x%zu", n); while (n--) { T t = T::make(s.chance(1, 40) ? g.next() : next++); if (ami) aq->enqueue(t); else qq.push(t); m.push_back(t); } maxn = std::max(maxn, m.size()); break; }
			case 1: { size_t n = std::min(m.size(), amount(m.size())); c.trace("pop x%zu", n); while (n--) { T t = pop1(); PBT_CHECK(c, t == m.front(), "pop() gave %s, expected %s, %zu items queued", t.str().c_str(), m.front().str().c_str(), m.size()); m.pop_front(); } if (m.empty() && maxn > bi) { ++turn; maxn = 0; } break; }
			case 2: { if (m.empty()) break; c.trace("front"); for (int i = 0; i < 2; ++i) { const T & f = qq.front(); PBT_CHECK(c, f == m.front(), "front() gave %s, expected %s, %zu items queued", f.str().c_str(), m.front().str().c_str(), m.size()); } break; }
			case 3: { size_t n = amount(20); if (n > 300) n = 300; unsigned bias = (unsigned)s.range(1, 3); c.trace("push and pop x%zu bias %u", n, bias); while (n--) { if (g.below(4) < bias) { T t = T::make(next++); qq.push(t); m.push_back(t); } else if (!m.empty()) { T t = pop1(); PBT_CHECK(c, t == m.front(), "pop() gave %s, expected %s, %zu items queued", t.str().c_str(), m.front().str().c_str(), m.size()); m.pop_front(); } } maxn = std::max(maxn, m.size()); break; }
			default: if (m.empty() && ami) { c.trace("dequeue from the empty queue"); drained = true; const T * p; PBT_CHECK(c, aq->dequeue(&p) == tpie::ami::END_OF_STREAM, "dequeue of the empty queue succeeded"); } break;
			}
		}
		while (!m.empty()) { T t = pop1(); PBT_CHECK(c, t == m.front(), "final pop() gave %s, expected %s, %zu items queued", t.str().c_str(), m.front().str().c_str(), m.size()); m.pop_front(); if (m.empty() && maxn > bi) ++turn; }
		PBT_CHECK(c, qq.empty() && qq.size() == 0, "not empty after popping everything");
	}
	res.expect_same(c, "after destroying the queue");
	if (turn > 1) c.label("filled and drained more than once");
	(void)drained;
	c.nontrivial(turn >= 1 && next > 2 * bi);
}
// A named stack on top of billions of items that are holes in its file.
template <size_t N> static void huge_case(Src & s, Ctx & c) {
	typedef item_t<N> T; const uint64_t most = 300ull << 30; AnySize any; if (!sparse_ok(c.dir, most)) { c.label("no sparse files here"); return; }
	size_t bs = block_for(c.index); init_tpie(bs); Resources res(c.dir); std::string path = c.dir + "/st"; unlink(path.c_str()); size_t bi = bs / N; bool ami = s.chance(1, 4);
	const uint64_t base = std::min(most / N, (uint64_t)1 << s.range(28, 34)) - s.below(3 * bi); std::map<uint64_t, T> m; uint64_t size = base, next = 0; unsigned reopened = 0;
	{
		{ tpie::file_stream<T> fs; fs.open(path, tpie::open::defaults); fs.truncate(base); }
		std::unique_ptr<tpie::stack<T>> st; std::unique_ptr<tpie::ami::stack<T>> am; auto mk = [&] { st.reset(); am.reset(); if (ami) { am.reset(new tpie::ami::stack<T>(path)); am->persist(tpie::PERSIST_PERSISTENT); } else st.reset(new tpie::stack<T>(path)); }; mk();
		auto is = [&](const T & t, const char * op) { auto i = m.find(size - 1); if (i != m.end()) PBT_CHECK(c, i->second == t, "%s() of %llu items gave %s, expected %s", op, (unsigned long long)size, t.str().c_str(), i->second.str().c_str()); };
		auto pop = [&] { if (st) is(st->pop(), "pop"); else { const T * p = nullptr; PBT_CHECK(c, am->pop(&p) == tpie::ami::NO_ERROR, "pop"); is(*p, "pop"); } --size; m.erase(size); };
		c.trace("%sstack on %llu items, %zu items per block", ami ? "AMI " : "", (unsigned long long)base, bi);
		while (s.more(20)) {
			uint64_t sz = st ? st->size() : (uint64_t)am->size(); PBT_CHECK(c, sz == size && (st ? !st->empty() : !am->is_empty()), "size() is %llu, expected %llu", (unsigned long long)sz, (unsigned long long)size);
			switch (s.weighted({5, 4, 3, 2})) {
			case 0: { size_t n = 1 + s.below(3 * bi); c.trace("push x%zu", n); while (n--) { T t = T::make(++next); if (st) st->push(t); else PBT_CHECK(c, am->push(t) == tpie::ami::NO_ERROR, "push"); m.emplace(size++, t); } break; }
			case 1: { size_t n = 1 + s.below(3 * bi); c.trace("pop x%zu", n); while (n--) pop(); break; }
			case 2: if (st) is(st->top(), "top"); else { const T * p = nullptr; PBT_CHECK(c, am->peek(&p) == tpie::ami::NO_ERROR, "peek"); is(*p, "peek"); } break;
			default: c.trace("reopen"); mk(); ++reopened;
			}
		}
		mk(); while (!m.empty()) pop(); uint64_t sz = st ? st->size() : (uint64_t)am->size(); PBT_CHECK(c, sz == size, "size() is %llu in the end, expected %llu", (unsigned long long)sz, (unsigned long long)size);
	}
	unlink(path.c_str()); res.expect_same(c, "after destroying the stack"); c.nontrivial(next > bi && base * N > (1ull << 32)); if (base > (1ull << 32)) c.label("more than 2^32 items");
}
#define SZ(fn) static void fn##_(Src & s, Ctx & c) { switch (s.weighted({4, 2, 2, 1, 1})) { case 0: fn##_case<4>(s, c); break; case 1: fn##_case<8>(s, c); break; case 2: fn##_case<12>(s, c); break; case 3: fn##_case<1>(s, c); break; default: fn##_case<40>(s, c); } }
SZ(stack) SZ(queue) SZ(huge)
int main(int argc, char ** argv) {
	pbt::Suite su; su.property = "C05";
	su.rule = "random interleavings of push, pop, top/front and reopening on external stacks (anonymous, named, in a temporary file, AMI) and queues with random block, item sizes and compression, compared with a vector and a deque after every step; non-trivial: the stack grew beyond two blocks, or more than two blocks of items went through the queue and it was drained after exceeding a block; huge: a named stack on top of up to 2^34 items that are holes in its file";
	su.scenarios.push_back({"stack", stack_, 20000, 300000, BATCH});
	su.scenarios.push_back({"queue", queue_, 20000, 300000, BATCH});
	su.scenarios.push_back({"huge", huge_, 1200, 12000, BATCH});
	return pbt::main_loop(argc, argv, su);
}
