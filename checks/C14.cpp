// C14: parallel sections of pipelines.
#include "pipes.h"
#include <tpie/pipelining/parallel.h>
#include <thread>
#include <atomic>
#include <map>
using namespace tv;

namespace {
void start(Ctx & c, unsigned batch) { init_tpie(4096, 256u << 20, true); (void)c; (void)batch; }
u64 mix(u64 x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 32); }
void dawdle(unsigned mode, u64 h) {
	switch (mode) {
	case 1: if (h % 7 == 0) std::this_thread::yield(); break;
	case 2: if (h % 61 == 0) usleep(h / 61 % 200); break;
	case 3: for (volatile u64 i = 0; i < h % 3000; ++i) {} break;
	case 4: if (h % 509 == 0) usleep(2000); break;
	}
}

struct Spec {                       // what one inner node does
	u64 salt = 0, mul = 1;          // items per item: h % mul (mul > 1), else 1
	unsigned many = 0; u64 manyEvery = 1; // now and then a burst
	u64 tail = 0;                   // items pushed in end()
	unsigned slow = 0; bool steps = false;
	int failAt = 0;                 // 0 none, 1 push, 2 begin, 3 end, 4 prepare, 5 propagate
	u64 failItem = 0; int failCopy = 0, code = 0;
	std::atomic<int> copies{0}, begins{0}, ends{0}, alive{0}; std::atomic<u64> pushes{0};
	unsigned count(u64 x) const { if (many && mix(x + salt) % manyEvery == 0) return many; return mul > 1 ? (unsigned)(mix(x ^ salt) % mul) : 1; }
	u64 out(u64 x, unsigned i) const { return (mix(x + i * 77 + salt) & 0xffffffffffull); }
};
typedef std::shared_ptr<Spec> SpecP;

// counts the copies of a node, and numbers them
struct Token { SpecP sp; int n; explicit Token(SpecP s) : sp(s), n(-1) { sp->alive++; } Token(const Token & o) : sp(o.sp), n(o.n) { sp->alive++; } Token(Token && o) : sp(o.sp), n(o.n) { sp->alive++; } Token & operator=(const Token &) = delete; ~Token() { sp->alive--; } };

template <typename T> struct conv;
template <> struct conv<u64> { static u64 to(u64 x) { return x; } static u64 from(u64 x) { return x; } };
template <> struct conv<std::string> { static std::string to(u64 x) { return std::to_string(x) + std::string(x % 40, 'x'); } static u64 from(const std::string & s) { return strtoull(s.c_str(), 0, 10); } };
struct fat { u64 v; uint32_t pad[60]; };
template <> struct conv<fat> { static fat to(u64 x) { fat f; f.v = x; for (auto & p : f.pad) p = (uint32_t)mix(x); return f; } static u64 from(const fat & f) { for (auto & p : f.pad) if (p != (uint32_t)mix(f.v)) return ~u64(0); return f.v; } };

template <typename In, typename Out> struct inner_of {
template <typename dest_t> class type : public node {
	dest_t dest; Token t; u64 n = 0;
	void fail(int at) { if (t.sp->failAt == at && t.n == t.sp->failCopy) throw pipe_failure{t.sp->code}; }
public:
	typedef In item_type;
	type(dest_t d, SpecP sp) : dest(std::move(d)), t(sp) { add_push_destination(dest); set_minimum_memory(100); }
	void prepare() override { t.n = t.sp->copies++; fail(4); }
	void propagate() override { if (t.sp->steps) set_steps(fetch<tpie::stream_size_type>("items")); fail(5); }
	void begin() override { t.sp->begins++; fail(2); }
	void push(const In & item) {
		u64 x = conv<In>::from(item); ++n; t.sp->pushes++;
		dawdle(t.sp->slow, mix(x + t.sp->salt * 3));
		if (t.sp->failAt == 1 && x == t.sp->failItem) throw pipe_failure{t.sp->code};
		if (t.sp->steps) step();
		unsigned k = t.sp->count(x);
		for (unsigned i = 0; i < k; ++i) dest.push(conv<Out>::to(t.sp->out(x, i)));
	}
	void end() override {
		fail(3);
		for (u64 i = 0; i < t.sp->tail; ++i) dest.push(conv<Out>::to(7000 + i));
		t.sp->ends++;
	}
};
};
template <typename In, typename Out> using inner = pipe_middle<factory<inner_of<In, Out>::template type, SpecP>>;

// sits outside the parallel section; may be slow or fail
template <typename dest_t> class outer_t : public node {
	dest_t dest; Token t;
	void fail(int at) { if (t.sp->failAt == at) throw pipe_failure{t.sp->code}; }
public:
	typedef u64 item_type;
	outer_t(dest_t d, SpecP sp) : dest(std::move(d)), t(sp) { add_push_destination(dest); }
	void prepare() override { fail(4); }
	void propagate() override { fail(5); }
	void begin() override { t.sp->begins++; fail(2); }
	void push(const u64 & x) { if (t.sp->failAt == 1 && t.sp->pushes == t.sp->failItem) throw pipe_failure{t.sp->code}; t.sp->pushes++; dawdle(t.sp->slow, mix(x)); dest.push(x); }
	void end() override { fail(3); t.sp->ends++; }
};
typedef pipe_middle<factory<outer_t, SpecP>> outer;

struct PWorld : World {
	bool ordered = true; size_t suffix = 0;         // the last `suffix` items come in any order
	std::vector<SpecP> specs; size_t sections = 0, bursts = 0; std::vector<int> codes; bool allowFail; bool steps = false; unsigned maxJobs = 0;
	PWorld(Src & s, Ctx & c, size_t maxN, bool f) : World(s, c, maxN), allowFail(f) {}
	void apply(vec & v, const Spec & sp, size_t jobs, size_t & tails) {
		vec o; for (u64 x : v) { unsigned k = sp.count(x); for (unsigned i = 0; i < k; ++i) o.push_back(sp.out(x, i)); }
		tails = sp.tail * jobs; for (size_t j = 0; j < jobs; ++j) for (u64 i = 0; i < sp.tail; ++i) o.push_back(7000 + i);
		v.swap(o);
	}
	SpecP spec(const vec & v, size_t jobs, bool inSection) {
		auto sp = std::make_shared<Spec>(); sp->salt = s.below(100000); specs.push_back(sp);
		sp->slow = (unsigned)s.weighted({6, 2, 1, 2, 1}); if (v.size() > 3000 && sp->slow == 2) sp->slow = 1;
		if (inSection) {
			sp->mul = s.pick({u64(1), u64(2), u64(3), u64(5)});
			if (s.chance(1, 5)) { sp->many = (unsigned)s.pick({20u, 100u, 600u}); sp->manyEvery = 1 + v.size() / 4; ++bursts; }
			if (s.chance(1, 5)) sp->tail = 1 + s.below(s.flip() ? 3 : 60);
			sp->steps = s.chance(1, 5);
		}
		if (allowFail && s.chance(1, 3)) {
			sp->failAt = (int)s.weighted({0, 6, 2, 3, 1, 1}); sp->code = (int)codes.size() + 1;
			sp->failCopy = (int)s.below(jobs);
			if (inSection) sp->failItem = v.empty() ? 1 : v[s.below(v.size())]; else sp->failItem = s.below(v.size() + 1);
			// will it happen?
			if (sp->failAt == 1 && (inSection ? v.empty() : sp->failItem >= v.size())) sp->failAt = 0; else codes.push_back(sp->code);
			if (sp->failAt) c.trace("   (fails with %d %s)", sp->code, (const char *[]){"", "pushing", "in begin", "in end", "in prepare", "in propagate"}[sp->failAt]);
		}
		return sp;
	}
	virtual_chunk<u64> section(Flow & f, bool last) {
		++stage; ++sections;
		size_t jobs = 1 + s.below(s.flip() ? 4 : 8), buf = s.pick({size_t(2048), size_t(1), size_t(2), size_t(3), size_t(7), size_t(64), size_t(500)}); if (maxJobs < jobs) maxJobs = (unsigned)jobs;
		if (buf == 1 && f.v.size() > 2000) buf = 16;
		bool keep = s.flip(); maintain_order_type mo = keep ? maintain_order : arbitrary_order;
		c.trace("%2d parallel(%s, %zu jobs, buffers of %zu) around:", stage, keep ? "maintain_order" : "arbitrary_order", jobs, buf);
		SpecP a = spec(f.v, jobs, true); if (a->steps && (!f.known || f.v.size() > f.items)) a->steps = false;
		c.trace("   node: count%%%llu, bursts of %u, tail %llu, slow %u%s", (unsigned long long)a->mul, a->many, (unsigned long long)a->tail, a->slow, a->steps ? ", steps" : ""); steps = steps || a->steps;
		size_t n = f.v.size(), tails = 0; int kind = (int)s.below(7); virtual_chunk<u64> r;
		size_t before = f.v.size(); (void)before;
		apply(f.v, *a, jobs, tails);
		switch (kind) {
		default: r = virtual_chunk<u64>(parallel(inner<u64, u64>(a), mo, jobs, buf)); break;
		case 1: { c.trace("   |map|filter|map"); r = virtual_chunk<u64>(parallel(inner<u64, u64>(a) | map([](u64 x) { return x + 1; }) | filter([](const u64 & x) { return x % 5 != 0; }) | map([](u64 x) { return x * 2; }), mo, jobs, buf));
			auto g = [](vec & w) { vec o; for (u64 x : w) if ((x + 1) % 5) o.push_back((x + 1) * 2); w.swap(o); };
			vec t(f.v.end() - tails, f.v.end()); f.v.resize(f.v.size() - tails); g(t); g(f.v); tails = t.size(); f.v.insert(f.v.end(), t.begin(), t.end()); break; }
		case 2: { SpecP b = std::make_shared<Spec>(); *(&b->salt) = s.below(1000); b->mul = s.pick({u64(1), u64(2), u64(3)}); b->slow = (unsigned)s.below(4); specs.push_back(b); c.trace("   |another node of string to u64, count%%%llu", (unsigned long long)b->mul);
			r = virtual_chunk<u64>(parallel(inner<u64, std::string>(a) | inner<std::string, u64>(b), mo, jobs, buf));
			vec t(f.v.end() - tails, f.v.end()); f.v.resize(f.v.size() - tails); size_t z; apply(t, *b, 0, z); apply(f.v, *b, 0, z); tails = t.size(); f.v.insert(f.v.end(), t.begin(), t.end()); break; }
		case 3: c.trace("   items are strings"); r = virtual_chunk<u64>(map([](u64 x) { return conv<std::string>::to(x); }) | parallel(inner<std::string, std::string>(a), mo, jobs, buf) | map([](const std::string & x) { return conv<std::string>::from(x); })); break;
		case 4: c.trace("   items are records of 248 bytes"); r = virtual_chunk<u64>(map([](u64 x) { return conv<fat>::to(x); }) | parallel(inner<fat, fat>(a), mo, jobs, buf) | map([](const fat & x) { return conv<fat>::from(x); })); break;
		case 5: { c.trace("   u64 in, records out"); r = virtual_chunk<u64>(parallel(inner<u64, fat>(a), mo, jobs, buf) | map([](const fat & x) { return conv<fat>::from(x); })); break; }
		case 6: { if (s.flip()) { SpecP o = spec(f.v, 1, false); c.trace("   |slow %u outside", o->slow); r = virtual_chunk<u64>(parallel(inner<u64, u64>(a), mo, jobs, buf) | outer(o)); } else r = virtual_chunk<u64>(parallel(inner<u64, u64>(a), mo, jobs, buf)); break; }
		}
		(void)n; (void)last;
		suffix = 0;
		if (!keep && jobs > 1) ordered = false;
		else if (tails && jobs > 1) { if (last && ordered) suffix = tails; else ordered = false; }
		return r;
	}
	virtual_chunk<u64> plain(Flow & f) {       // a stage that does not care for the order
		if (ordered && s.chance(2, 3)) return op(f, 2);
		++stage;
		switch (s.below(4)) {
		default: { SpecP o = spec(f.v, 1, false); c.trace("%2d slow %u", stage, o->slow); return virtual_chunk<u64>(outer(o)); }
		case 1: c.trace("%2d sort", stage); std::sort(f.v.begin(), f.v.end()); ordered = true; after_phase(f); return virtual_chunk<u64>(sort());
		case 2: c.trace("%2d map", stage); for (u64 & x : f.v) x += 3; return virtual_chunk<u64>(map([](u64 x) { return x + 3; }));
		case 3: c.trace("%2d buffer", stage); after_phase(f); return virtual_chunk<u64>(buffer());
		}
	}
	pipeline run_build(vec *& out, vec & want) {
		Flow f; virtual_chunk_begin<u64> cur = source(f);
		size_t n = 1 + s.below(3);
		for (size_t i = 0; i < n; ++i) {
			while (s.chance(2, 5)) cur = cur | plain(f);
			if (f.v.size() > 4 * maxN + 100) break;
			cur = cur | section(f, i + 1 == n);
			if (i + 1 == n && !suffix) while (s.chance(2, 5)) cur = cur | plain(f);
		}
		out = &mkvec(); want = f.v;
		pipeline p(cur | virtual_chunk_end<u64>(output_vector(*out)));
		pipes.push_back(p);
		return p;
	}
	void check(vec & got, vec want) {
		if (!ordered) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
		else if (suffix) { PBT_CHECK(c, got.size() == want.size(), "%zu items came out, expected %zu", got.size(), want.size()); std::sort(got.end() - suffix, got.end()); std::sort(want.end() - suffix, want.end()); }
		compare(got, want, stage, ordered ? "final output" : "final output, as a sorted multiset");
		for (auto & sp : specs) if (sp->copies) PBT_CHECK(c, sp->begins == sp->ends, "%d copies of a node began, %d ended", (int)sp->begins, (int)sp->ends);
	}
};

void scen(Src & s, Ctx & c, bool fail) {
	start(c, 24);
	Resources res(c.dir);
	std::vector<SpecP> specs;
	{
		PWorld w(s, c, s.pick({size_t(100), size_t(1000), size_t(c.thorough ? 40000 : 8000)}), fail);
		vec * out; vec want; pipeline p = w.run_build(out, want);
		specs = w.specs;
		size_t mem = s.pick({size_t(200u << 20), size_t(20u << 20)});
		bool threw = false; int code = 0;
		tpie::progress_indicator_null pi;
		try { p(w.maxN, pi, mem, TPIE_FSI); }
		catch (const pipe_failure & e) { threw = true; code = e.code; }
		if (w.codes.empty()) { if (threw) c.fail("pipe failure %d was never planned", code); w.check(*out, want); w.verify(); }
		else {
			PBT_CHECK(c, threw, "a node threw, but the pipeline ended normally");
			PBT_CHECK(c, std::find(w.codes.begin(), w.codes.end(), code) != w.codes.end(), "the pipeline threw code %d that no node throws", code);
		}
		c.nontrivial(want.size() > 10 && w.maxJobs > 1 && (!fail || !w.codes.empty()));
		if (w.bursts) c.label("bursts"); c.label(w.ordered ? (w.suffix ? "ordered, then tails" : "ordered") : "unordered");
		if (fail) c.label(threw ? "threw" : "no failure");
	}
	for (auto & sp : specs) PBT_CHECK(c, sp->alive == 0, "%d copies of a node were never destroyed", (int)sp->alive);
	res.expect_same(c, "after the pipeline was destroyed"); expect_no_pipelines(c);
}
void scen_run(Src & s, Ctx & c) { scen(s, c, false); }
void scen_fail(Src & s, Ctx & c) { scen(s, c, true); }
}

int main(int argc, char ** argv) {
	pbt::Suite su;
	su.property = "C14";
	su.rule = "a parallel section with several workers and more than ten items coming out; a failing node in the failure scenario";
	su.scenarios = {
		{"run", scen_run, 4000, 60000, 24, 60},
		{"fail", scen_fail, 2000, 30000, 24, 20},
	};
	return pbt::main_loop(argc, argv, su);
}
