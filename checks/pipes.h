// Random pipelines over uint64_t built from the library's own nodes, next to a vector model of what each
// stage has to emit. Shared by the checks of the serial operators (C13) and of failing runs (C15).
#pragma once
#include "common.h"
#include <tpie/pipelining.h>
#include <tpie/pipelining/virtual.h>
#include <tpie/pipelining/subpipeline.h>
#include <tpie/pipelining/forwarder.h>
#include <tpie/pipelining/helpers.h>
#include <tpie/pipelining/split.h>
#include <tpie/pipelining/join.h>
#include <tpie/pipelining/internal_buffer.h>
#include <tpie/pipelining/uniq.h>
#include <tpie/pipelining/chunker.h>
#include <tpie/pipelining/visit.h>
#include <tpie/pipelining/filter.h>
#include <tpie/pipelining/merge.h>
#include <tpie/pipelining/ordered_merge.h>
#include <tpie/pipelining/node_set.h>
#include <tpie/file_stream.h>
#include <tpie/progress_indicator_null.h>

namespace tv {
using namespace tpie::pipelining;
typedef uint64_t u64;
typedef std::vector<u64> vec;

struct rec24 { u64 key, a; uint32_t b, c; bool operator<(const rec24 & o) const { return key < o.key || (key == o.key && a < o.a); } };

struct pipe_failure { int code; };            // thrown by the failing nodes of C15

// a struct with a destructor count, as an item kept by internal stages only
// model of the items flowing past one point
struct Flow { vec v; bool known; u64 items; };

// ---- custom nodes
template <typename dest_t> class items_check_t : public node {
	dest_t dest; std::shared_ptr<std::vector<std::string>> err; bool known; u64 want; int where;
public:
	typedef u64 item_type;
	items_check_t(dest_t d, std::shared_ptr<std::vector<std::string>> err, bool known, u64 want, int where) : dest(std::move(d)), err(err), known(known), want(want), where(where) { add_push_destination(dest); }
	void propagate() override {
		if (!known) return;
		if (!can_fetch("items")) { err->push_back(pbt::strf("stage %d: \"items\" was not forwarded, %llu items follow", where, (unsigned long long)want)); return; }
		try {
			u64 got = fetch<tpie::stream_size_type>("items");
			if (got != want) err->push_back(pbt::strf("stage %d: \"items\" is %llu, the phase's source holds %llu", where, (unsigned long long)got, (unsigned long long)want));
		} catch (const std::exception & e) { err->push_back(pbt::strf("stage %d: fetching \"items\" threw %s", where, e.what())); }
	}
	void push(const u64 & x) { dest.push(x); }
};
template <typename dest_t> class flatten_t : public node {
	dest_t dest; size_t k; std::shared_ptr<std::vector<size_t>> sizes;
public:
	typedef std::vector<u64> item_type;
	flatten_t(dest_t d, size_t k, std::shared_ptr<std::vector<size_t>> sizes) : dest(std::move(d)), k(k), sizes(sizes) { add_push_destination(dest); }
	void push(const item_type & v) { sizes->push_back(v.size()); for (u64 x : v) dest.push(x); }
};
typedef pipe_middle<factory<flatten_t, size_t, std::shared_ptr<std::vector<size_t>>>> flatten;

// the pipelines that are known as running; call it when all are destroyed
inline void expect_no_pipelines(pbt::Ctx & c) {
	std::lock_guard<std::mutex> l(tpie::pipelining::current_pipelines_mutex); size_t n = tpie::pipelining::current_pipelines.size();
	PBT_CHECK(c, n == 0, "%zu pipelines are still known as running", n);
}

// adds the value forwarded under "sub key" and counts what it was given
template <typename dest_t> class add_forwarded_t : public node {
	dest_t dest; u64 add = 0;
public:
	typedef u64 item_type;
	add_forwarded_t(dest_t d) : dest(std::move(d)) { add_push_destination(dest); }
	void propagate() override { add = fetch<u64>("sub key"); forward("sub sum", add + 1); }
	void push(const u64 & x) { dest.push(x + add); }
};
typedef pipe_middle<factory<add_forwarded_t>> add_forwarded;

// runs a subpipeline over every group of k items and pushes what it collected
template <typename dest_t> class subpipe_t : public node {
	dest_t dest; size_t k, n = 0; u64 groups = 0; int kind; bool open = false; vec got; std::shared_ptr<tpie::progress_indicator_null> pi = std::make_shared<tpie::progress_indicator_null>(); tpie::pipelining::subpipeline<u64> sp;
public:
	typedef u64 item_type;
	subpipe_t(dest_t d, size_t k, int kind) : dest(std::move(d)), k(k), kind(kind) { add_push_destination(dest); set_memory_fraction(2); }
	void start() {
		switch (kind) {
		case 0: sp = sort() | output_vector(got); break;
		case 1: sp = virtual_chunk_end<u64>(reverser() | output_vector(got)); break;
		case 2: sp = map([](u64 x) { return x ^ 0x55; }) | buffer() | output_vector(got); break;
		case 4: case 5: sp = sort() | add_forwarded() | output_vector(got); sp.forward<u64>("sub key", 1000 + groups); break;
		default: sp = sort(std::greater<u64>()) | reverser() | output_vector(got); break;
		}
		if (kind == 5) sp.begin(k, *pi, get_available_memory(), "file", "function"); else sp.begin(get_available_memory());
		open = true;
	}
	void flush() { if (!open) return; sp.end(); open = false; n = 0;
		if (kind >= 4) { if (!sp.can_fetch("sub sum") || sp.can_fetch("other sum") || sp.fetch<u64>("sub sum") != 1001 + groups) got.push_back(~u64(0)); ++groups; }
		 for (u64 x : got) dest.push(x); got.clear(); sp.clear(); }
	void push(const u64 & x) { if (!open) start(); sp.push(x); if (++n == k) flush(); }
	void end() override { flush(); }
};
typedef pipe_middle<factory<subpipe_t, size_t, int>> subpipe;

template <typename dest_t> class emit_more_t : public node {       // 0..2 items per item, extra ones in end()
	dest_t dest; u64 m, tail;
public:
	typedef u64 item_type;
	emit_more_t(dest_t d, u64 m, u64 tail) : dest(std::move(d)), m(m), tail(tail) { add_push_destination(dest); }
	void push(const u64 & x) { for (u64 i = 0; i < x % m; ++i) dest.push(x + i); }
	void end() override { for (u64 i = 0; i < tail; ++i) dest.push(1000 + i); }
};
typedef pipe_middle<factory<emit_more_t, u64, u64>> emit_more;

// fails as told: in a callback, at the n-th item, in a function given to a stage
struct FailSpec { int where = -1; u64 n = 0; int code = 0; u64 seen = 0; bool fired = false, placed = false;
	void hit(int at) { if (at != where) return; if (seen++ != n) return; fired = true; throw pipe_failure{code}; } };
template <typename dest_t> class fail_t : public node {
	dest_t dest; std::shared_ptr<FailSpec> f;
public:
	typedef u64 item_type;
	fail_t(dest_t d, std::shared_ptr<FailSpec> f) : dest(std::move(d)), f(f) { add_push_destination(dest); }
	void prepare() override { f->hit(0); }
	void propagate() override { f->hit(1); }
	void begin() override { f->hit(2); }
	void push(const u64 & x) { f->hit(3); dest.push(x); }
	void end() override { f->hit(4); }
};
typedef pipe_middle<factory<fail_t, std::shared_ptr<FailSpec>>> fail_stage;
struct fail_less { std::shared_ptr<FailSpec> f; bool operator()(const u64 & a, const u64 & b) const { f->hit(5); return a < b; } };

struct plain_mul { typedef u64 argument_type; typedef u64 result_type; u64 k; u64 operator()(u64 x) const { return x * k + 3; } };
struct plain_excl { typedef u64 argument_type; typedef std::pair<u64, bool> result_type; u64 m; result_type operator()(u64 x) const { return {x + 1, x % m != 0}; } };

struct World {
	Src & s; Ctx & c; size_t maxN; int stage = 0; bool serialOnly = true;
	std::shared_ptr<std::vector<std::string>> err = std::make_shared<std::vector<std::string>>();
	std::vector<std::shared_ptr<void>> keep;
	std::vector<std::function<void()>> after;      // verification of side outputs
	std::vector<pipeline> pipes;
	size_t phases = 1, ops = 0, files = 0;
	World(Src & s, Ctx & c, size_t maxN) : s(s), c(c), maxN(maxN) {}

	template <typename T, typename... A> std::shared_ptr<T> hold(A &&... a) { auto p = std::make_shared<T>(std::forward<A>(a)...); keep.push_back(p); return p; }
	vec & mkvec() { return *hold<vec>(); }
	void expect_vec(vec & got, const vec & want, const char * what) {
		int st = stage; vec w = want; vec * g = &got; std::string wh = what;
		after.push_back([this, g, w, st, wh]() { compare(*g, w, st, wh.c_str()); });
	}
	void compare(const vec & g, const vec & w, int st, const char * what) {
		size_t i = 0; while (i < g.size() && i < w.size() && g[i] == w[i]) ++i;
		if (i == g.size() && i == w.size()) return;
		c.fail("%s (stage %d): %zu items, expected %zu; first difference at item %zu: got %s, expected %s", what, st, g.size(), w.size(), i,
			i < g.size() ? std::to_string(g[i]).c_str() : "nothing", i < w.size() ? std::to_string(w[i]).c_str() : "nothing");
	}
	void expect_stream(tpie::file_stream<u64> & f, const vec & want, const char * what) {
		int st = stage; vec w = want; auto * g = &f; std::string wh = what;
		after.push_back([this, g, w, st, wh]() { vec r; g->seek(0); while (g->can_read()) r.push_back(g->read()); compare(r, w, st, wh.c_str()); });
	}
	tpie::file_stream<u64> & mkstream(const vec * content = nullptr) {
		auto p = hold<tpie::file_stream<u64>>();
		p->open(); streams.push_back(p.get());
		if (content) { for (u64 x : *content) p->write(x); p->seek(0); }
		return *p;
	}
	std::string mkname() { std::string p = c.dir + "/named" + std::to_string(files++); ::unlink(p.c_str()); return p; }
	vec data(size_t n) {
		Rng r = s.bulk(); u64 m = s.pick({u64(1) << 40, u64(3), u64(50), u64(100000)}); bool sorted = s.chance(1, 4);
		vec v(n); for (auto & x : v) x = r.below(m);
		if (sorted) std::sort(v.begin(), v.end());
		return v;
	}
	vec other(size_t n) { return data(n); }

	virtual_chunk_begin<u64> source(Flow & f) {
		size_t n = s.size(maxN, 64);
		f.v = data(n); f.known = true; f.items = n; 
		switch (s.below(9)) {
		default: { vec & v = mkvec(); v = f.v; c.trace("input_vector(%zu)", n); return virtual_chunk_begin<u64>(input_vector(v)); }
		case 1: { auto l = hold<std::vector<u64>>(f.v); c.trace("push_input_iterator(%zu)", n); f.known = false; return virtual_chunk_begin<u64>(push_input_iterator(l->begin(), l->end())); }
		case 2: { auto & fs = mkstream(&f.v); size_t off = s.chance(1, 3) ? s.below(n + 1) : 0; fs.seek(off);
			bool reset = s.flip(), close = s.flip(); stream_options o; if (reset) o |= STREAM_RESET; if (close) o |= STREAM_CLOSE;
			c.trace("input(file_stream of %zu at %zu%s%s)", n, off, reset ? ", RESET" : "", close ? ", CLOSE" : "");
			if (!reset) f.v.erase(f.v.begin(), f.v.begin() + off);
			f.items = f.v.size();
			auto * p = &fs; after.push_back([this, p, close]() { PBT_CHECK(c, p->is_open() == !close, "input stream is %s after the run with close=%d", p->is_open() ? "open" : "closed", close); });
			return virtual_chunk_begin<u64>(input(fs, o)); }
		case 3: { auto fs = hold<tpie::file_stream<u64>>(); c.trace("input(closed stream)"); f.v.clear(); f.items = 0; return virtual_chunk_begin<u64>(input(*fs)); }
		case 4: { std::string p = mkname(); { tpie::file_stream<u64> fs; fs.open(p); for (u64 x : f.v) fs.write(x); } c.trace("named_input(%zu)", n); return virtual_chunk_begin<u64>(named_input(p)); }
		case 5: { u64 a = s.below(50), b = s.below(400), inc = 1 + s.below(7); c.trace("range(%llu, %llu, %llu)", (unsigned long long)a, (unsigned long long)b, (unsigned long long)inc);
			f.v.clear(); for (u64 i = a; i < b; i += inc) f.v.push_back(i); f.items = f.v.size(); return virtual_chunk_begin<u64>(range(a, b, inc)); }
		case 6: { vec & v = mkvec(); v = f.v; c.trace("pull_source(pull_input_vector(%zu))", n); return virtual_chunk_begin<u64>(pull_source(pull_input_vector(v))); }
		case 7: { auto & fs = mkstream(&f.v); c.trace("pull_source(pull_reverse_input(%zu))", n); fs.seek(0, tpie::file_stream<u64>::end); std::reverse(f.v.begin(), f.v.end()); return virtual_chunk_begin<u64>(pull_source(pull_reverse_input(fs))); }
		case 8: { std::string p = mkname(); { tpie::file_stream<u64> fs; fs.open(p); for (u64 x : f.v) fs.write(x); } c.trace("pull_source(named_pull_input(%zu))", n); return virtual_chunk_begin<u64>(pull_source(named_pull_input<u64>(p))); }
		}
	}
	virtual_chunk_end<u64> sink(const Flow & f, const char * what) {
		switch (s.below(5)) {
		default: { vec & o = mkvec(); expect_vec(o, f.v, what); c.trace("%s: output_vector", what); return virtual_chunk_end<u64>(output_vector(o)); }
		case 1: { auto & fs = mkstream(); expect_stream(fs, f.v, what); c.trace("%s: output(file_stream)", what); return virtual_chunk_end<u64>(output(fs)); }
		case 2: { std::string p = mkname(); vec w = f.v; int st = stage; std::string wh = what; c.trace("%s: named_output", what);
			after.push_back([this, p, w, st, wh]() { tpie::file_stream<u64> fs; fs.open(p, tpie::access_read); vec r; while (fs.can_read()) r.push_back(fs.read()); compare(r, w, st, wh.c_str()); });
			return virtual_chunk_end<u64>(named_output<u64>(p)); }
		case 3: { vec & o = mkvec(); expect_vec(o, f.v, what); c.trace("%s: map_sink", what); vec * po = &o; return virtual_chunk_end<u64>(map_sink([po](u64 x) { po->push_back(x); })); }
		case 4: { auto o = hold<vec>(f.v.size() + 1, 77); vec w = f.v; w.push_back(77); expect_vec(*o, w, what); c.trace("%s: typed_push_output_iterator", what); return virtual_chunk_end<u64>(typed_push_output_iterator<u64>(o->begin())); }
		}
	}
	virtual_chunk_end<u64> tail(Flow f, int depth, const char * what) {          // chain of a side branch
		virtual_chunk<u64> ch; unsigned n = (unsigned)s.below(3);
		if (failer && !failer->placed && s.chance(1, 2)) ch = ch | fail_here(f);
		for (unsigned i = 0; i < n; ++i) ch = ch | op(f, depth + 1);
		return ch | sink(f, what);
	}
	std::shared_ptr<FailSpec> failer;
	virtual_chunk<u64> fail_here(Flow & f) {
		failer->placed = true; ++stage;
		auto fs = failer;
		if (fs->where == 5) { c.trace("%2d sort with a comparison that fails at call %llu", stage, (unsigned long long)fs->n); std::sort(f.v.begin(), f.v.end()); after_phase(f); return virtual_chunk<u64>(sort(fail_less{fs})); }
		if (fs->where == 6) { c.trace("%2d map that fails at item %llu", stage, (unsigned long long)fs->n); return virtual_chunk<u64>(map([fs](u64 x) { fs->hit(6); return x; })); }
		if (fs->where == 7) { c.trace("%2d filter that fails at item %llu", stage, (unsigned long long)fs->n); return virtual_chunk<u64>(filter([fs](const u64 &) { fs->hit(7); return true; })); }
		c.trace("%2d stage that fails in %s, call %llu", stage, fs->where == 0 ? "prepare" : fs->where == 1 ? "propagate" : fs->where == 2 ? "begin" : fs->where == 3 ? "push" : "end", (unsigned long long)fs->n);
		return virtual_chunk<u64>(fail_stage(fs));
	}
	virtual_chunk<u64> after_phase(Flow & f) { f.known = true; f.items = f.v.size(); ++phases; return virtual_chunk<u64>(); }
	virtual_chunk<u64> check_items(const Flow & f) {
		return virtual_chunk<u64>(pipe_middle<factory<items_check_t, std::shared_ptr<std::vector<std::string>>, bool, u64, int>>(err, f.known, f.items, stage));
	}
	u64 newmod() { return 1 + s.below(9); }

	// ---- pull chains
	virtual_chunk_pull_begin<u64> pull_begin(Flow & f) {
		size_t n = s.size(maxN, 64); f.v = data(n); f.known = true; f.items = n; ++stage;
		switch (s.below(11)) {
		default: { vec & v = mkvec(); v = f.v; c.trace("%2d pull_input_vector(%zu)", stage, n); return virtual_chunk_pull_begin<u64>(pull_input_vector(v)); }
		case 1: { vec & v = mkvec(); v = f.v; f.known = false; c.trace("%2d pull_input_iterator(%zu)", stage, n); return virtual_chunk_pull_begin<u64>(pull_input_iterator(v.begin(), v.end())); }
		case 2: { auto & fs = mkstream(&f.v); size_t off = s.chance(1, 3) ? s.below(n + 1) : 0; fs.seek(off); bool reset = s.flip(), close = s.flip(); stream_options o; if (reset) o |= STREAM_RESET; if (close) o |= STREAM_CLOSE;
			c.trace("%2d pull_input(stream of %zu at %zu, reset=%d close=%d)", stage, n, off, reset, close); if (!reset) f.v.erase(f.v.begin(), f.v.begin() + off); f.items = f.v.size();
			auto * q = &fs; after.push_back([this, q, close]() { PBT_CHECK(c, q->is_open() == !close, "pull_input's stream is %s with close=%d", q->is_open() ? "open" : "closed", close); });
			return virtual_chunk_pull_begin<u64>(pull_input(fs, o)); }
		case 3: { auto & fs = mkstream(&f.v); size_t off = s.chance(1, 3) ? s.below(n + 1) : n; fs.seek(off); bool reset = s.flip(), close = s.flip(); stream_options o; if (reset) o |= STREAM_RESET; if (close) o |= STREAM_CLOSE;
			c.trace("%2d pull_reverse_input(stream of %zu at %zu, reset=%d close=%d)", stage, n, off, reset, close); if (!reset) f.v.resize(off); f.items = f.v.size(); std::reverse(f.v.begin(), f.v.end());
			auto * q = &fs; after.push_back([this, q, close]() { PBT_CHECK(c, q->is_open() == !close, "pull_reverse_input's stream is %s with close=%d", q->is_open() ? "open" : "closed", close); });
			return virtual_chunk_pull_begin<u64>(pull_reverse_input(fs, o)); }
		case 4: { std::string p = mkname(); { tpie::file_stream<u64> fs; fs.open(p); for (u64 x : f.v) fs.write(x); } c.trace("%2d named_pull_input(%zu)", stage, n); return virtual_chunk_pull_begin<u64>(named_pull_input<u64>(p)); }
		case 5: { c.trace("%2d zero_source", stage); f.v.clear(); f.items = 0; return virtual_chunk_pull_begin<u64>(zero_source<u64>()); }
		case 6: { vec & v = mkvec(); v = f.v; auto x = hold<passive_buffer<u64>>(); ++phases; c.trace("%2d passive_buffer fed %zu by its own pipeline", stage, n); pipes.push_back(pipeline(input_vector(v) | x->input())); return virtual_chunk_pull_begin<u64>(x->output()); }
		case 7: { vec & v = mkvec(); v = f.v; auto x = hold<passive_reverser<u64>>(); ++phases; c.trace("%2d passive_reverser fed %zu by its own pipeline", stage, n); pipes.push_back(pipeline(input_vector(v) | x->input())); std::reverse(f.v.begin(), f.v.end()); return virtual_chunk_pull_begin<u64>(x->output()); }
		case 8: { vec & v = mkvec(); v = f.v; auto x = hold<passive_sorter<u64>>(); ++phases; c.trace("%2d passive_sorter fed %zu by its own pipeline", stage, n); pipes.push_back(pipeline(input_vector(v) | x->input())); std::sort(f.v.begin(), f.v.end()); return virtual_chunk_pull_begin<u64>(x->output()); }
		case 10: { vec & v = mkvec(); v = f.v; f.known = false; c.trace("%2d pull_input_iterator|pull_peek|pull_map (static)", stage); for (u64 & x : f.v) x ^= 9; return virtual_chunk_pull_begin<u64>(pull_input_iterator(v.begin(), v.end()) | pull_peek() | pull_map([](u64 x) { return x ^ 9; })); }
		case 9: { vec & v = mkvec(); v = f.v; auto x = hold<internal_passive_reverser<u64>>(); ++phases; c.trace("%2d internal_passive_reverser fed %zu by its own pipeline", stage, n); pipes.push_back(pipeline(input_vector(v) | x->input())); std::reverse(f.v.begin(), f.v.end()); return virtual_chunk_pull_begin<u64>(x->output()); }
		}
	}
	virtual_chunk_pull<u64> pull_op(Flow & f, int depth = 0) {
		++stage; ++ops; vec & v = f.v;
		switch (s.below(6)) {
		default: { u64 a = s.below(100); c.trace("%2d pull_map(x+%llu)", stage, (unsigned long long)a); for (u64 & x : v) x += a; return virtual_chunk_pull<u64>(pull_map([a](u64 x) { return x + a; })); }
		case 1: { u64 m = s.pick({u64(1), u64(2), u64(10)}); c.trace("%2d pull_unique(x/%llu)", stage, (unsigned long long)m); vec o; u64 last = 0; bool any = false; for (u64 x : v) { if (!any || last / m != x / m) o.push_back(x); last = any && last / m == x / m ? last : x; any = true; } v.swap(o);
			return virtual_chunk_pull<u64>(pull_unique([m](const u64 & a, const u64 & b) { return a / m == b / m; })); }
		case 2: { c.trace("%2d pull_peek", stage); return virtual_chunk_pull<u64>(pull_peek()); }
		case 3: { vec & o = mkvec(); expect_vec(o, v, "items of a pull_fork"); c.trace("%2d pull_fork(output_vector)", stage); return virtual_chunk_pull<u64>(pull_fork(output_vector(o).factory)); }
		case 4: { if (depth) return virtual_chunk_pull<u64>(pull_peek()); c.trace("%2d devirtualize(pull chunk) {", stage); auto ch = pull_op(f, depth + 1); c.trace("   }"); return virtual_chunk_pull<u64>(devirtualize(ch)); }
		case 5: { auto & fs = mkstream(); expect_stream(fs, v, "pull_tee'd items"); c.trace("%2d pull_tee", stage); return virtual_chunk_pull<u64>(pull_tee(fs)); }
		}
	}
	virtual_chunk_pull_end<u64> pull_sink(const Flow & f) {
		if (s.flip()) { auto & fs = mkstream(); expect_stream(fs, f.v, "final pull_output"); c.trace("pull_output(file_stream)"); return virtual_chunk_pull_end<u64>(pull_output(fs)); }
		auto o = hold<vec>(f.v.size() + 1, 77); vec w = f.v; w.push_back(77); expect_vec(*o, w, "final pull_output_iterator"); c.trace("pull_output_iterator"); return virtual_chunk_pull_end<u64>(pull_output_iterator(o->begin()));
	}
	pipeline build_pull(unsigned avgOps) {
		Flow f; virtual_chunk_pull_begin<u64> cur = pull_begin(f);
		while (s.more(avgOps)) cur = cur | pull_op(f);
		total = f.v.size();
		if (f.known && s.chance(1, 3)) {         // back to a push pipeline
			c.trace("pull_source of the above"); virtual_chunk_begin<u64> b(pull_source(devirtualize(cur)));
			++stage; b = b | op(f, 1);
			total = f.v.size();
			pipes.push_back(pipeline(b | sink(f, "final output")));
		} else pipes.push_back(pipeline(cur | pull_sink(f)));
		return pipes[s.chance(1, 4) ? s.below(pipes.size()) : pipes.size() - 1];
	}

	// one stage; updates the model
	virtual_chunk<u64> op(Flow & f, int depth = 0) {
		++stage; ++ops; vec & v = f.v;
		size_t kinds = depth < 2 ? 40 : 22;
		size_t k = s.below(kinds);
		switch (k) {
		default: case 0: { u64 a = s.below(100); c.trace("%2d map(x+%llu)", stage, (unsigned long long)a); for (u64 & x : v) x += a; return virtual_chunk<u64>(map([a](u64 x) { return x + a; })); }
		case 1: { u64 m = newmod(); c.trace("%2d filter(x %% %llu)", stage, (unsigned long long)m); vec o; for (u64 x : v) if (x % m) o.push_back(x); v.swap(o); return virtual_chunk<u64>(filter([m](const u64 & x) { return x % m != 0; })); }
		case 2: { c.trace("%2d sort", stage); std::sort(v.begin(), v.end()); after_phase(f); return virtual_chunk<u64>(sort()); }
		case 3: { c.trace("%2d sort(greater)", stage); std::sort(v.begin(), v.end(), std::greater<u64>()); after_phase(f); return virtual_chunk<u64>(sort(std::greater<u64>())); }
		case 4: { c.trace("%2d reverser", stage); std::reverse(v.begin(), v.end()); after_phase(f); return virtual_chunk<u64>(reverser()); }
		case 5: { c.trace("%2d internal_reverser", stage); std::reverse(v.begin(), v.end()); after_phase(f); return virtual_chunk<u64>(internal_reverser()); }
		case 6: { c.trace("%2d buffer", stage); after_phase(f); return virtual_chunk<u64>(buffer()); }
		case 7: { u64 m = 1 + s.below(4), t = s.below(3); c.trace("%2d emit x %% %llu items per item, %llu in end", stage, (unsigned long long)m, (unsigned long long)t); vec o; size_t lim = 4 * maxN + 64;
			size_t tot = 0; for (u64 x : v) tot += x % m; if (tot > lim) { m = 2; c.trace("   (limited to 2)"); }
			for (u64 x : v) for (u64 i = 0; i < x % m; ++i) o.push_back(x + i); for (u64 i = 0; i < t; ++i) o.push_back(1000 + i); v.swap(o); return virtual_chunk<u64>(emit_more(m, t)); }
		case 8: { u64 k = s.below(20), t = s.below(20); c.trace("%2d linear(%llu,%llu)", stage, (unsigned long long)k, (unsigned long long)t); for (u64 & x : v) x = x * k + t; return virtual_chunk<u64>(linear<u64>(k, t)); }
		case 9: { plain_mul p{s.below(10)}; c.trace("%2d lambda", stage); for (u64 & x : v) x = p(x); return virtual_chunk<u64>(lambda(p)); }
		case 10: { plain_excl p{newmod()}; c.trace("%2d exclude_lambda", stage); vec o; for (u64 x : v) if (x % p.m) o.push_back(x + 1); v.swap(o); return virtual_chunk<u64>(exclude_lambda(p)); }
		case 11: { vec & o = mkvec(); c.trace("%2d visit", stage); vec * po = &o; expect_vec(o, v, "items visited"); return virtual_chunk<u64>(visit([po](const u64 & x) { po->push_back(x); })); }
		case 12: { vec & o = mkvec(); c.trace("%2d fork(output_vector)", stage); expect_vec(o, v, "forked items"); return virtual_chunk<u64>(fork(output_vector(o))); }
		case 13: { auto & fs = mkstream(); c.trace("%2d tee", stage); expect_stream(fs, v, "tee'd items"); return virtual_chunk<u64>(tee(fs)); }
		case 14: { u64 m = s.pick({u64(1), u64(2), u64(10)}); c.trace("%2d unique(x/%llu)", stage, (unsigned long long)m); vec o; for (u64 x : v) if (o.empty() || o.back() / m != x / m) o.push_back(x); v.swap(o);
			return virtual_chunk<u64>(unique([m](const u64 & a, const u64 & b) { return a / m == b / m; })); }
		case 15: { c.trace("%2d pipeuniq", stage); vec o; for (u64 x : v) if (o.empty() || o.back() != x) o.push_back(x); v.swap(o); return virtual_chunk<u64>(pipeuniq()); }
		case 16: { size_t k = 1 + s.below(s.flip() ? 4 : 200); c.trace("%2d chunker(%zu)|flatten", stage, k); auto sizes = std::make_shared<std::vector<size_t>>(); size_t n = v.size();
			after.push_back([this, sizes, k, n]() { size_t t = 0; for (size_t i = 0; i < sizes->size(); ++i) { t += (*sizes)[i]; PBT_CHECK(c, (*sizes)[i] == k || (i + 1 == sizes->size() && (*sizes)[i] > 0 && (*sizes)[i] < k), "chunk %zu of %zu has %zu items, chunker(%zu)", i, sizes->size(), (*sizes)[i], k); } PBT_CHECK(c, t == n, "chunks hold %zu items, not %zu", t, n); });
			return virtual_chunk<u64>(chunker(k) | flatten(k, sizes)); }
		case 17: { c.trace("%2d check items%s", stage, f.known ? "" : " (unknown)"); return check_items(f); }
		case 18: { vec & w = mkvec(); w = other(v.size() + s.below(3)); c.trace("%2d merge", stage); vec o; for (size_t i = 0; i < v.size(); ++i) { o.push_back(v[i]); o.push_back(w[i]); } v.swap(o); f.known = false; return virtual_chunk<u64>(merge(pull_input_vector(w))); }
		case 19: { vec & w = mkvec(); w = other(v.size() + s.below(3)); c.trace("%2d zip|map", stage); for (size_t i = 0; i < v.size(); ++i) v[i] = v[i] * 31 + w[i]; f.known = false;
			return virtual_chunk<u64>(zip(pull_input_vector(w)) | map([](const std::pair<u64, u64> & p) { return p.first * 31 + p.second; })); }
		case 20: { vec & o = mkvec(); c.trace("%2d map(pair)|unzip", stage); vec w; for (u64 x : v) w.push_back(x / 3); expect_vec(o, w, "second components"); for (u64 & x : v) x = x % 1001;
			return virtual_chunk<u64>(map([](u64 x) { return std::pair<u64, u64>(x % 1001, x / 3); }) | unzip(output_vector(o))); }
		case 21: { int val = (int)s.below(1000); std::string key = "k" + std::to_string(stage); c.trace("%2d forwarder|preparer|propagater|item_type", stage); auto e = err; int st = stage; auto seen = hold<std::pair<int, int>>(0, 0); auto * sp = seen.get();
			after.push_back([this, sp, st]() { PBT_CHECK(c, sp->first == 1 && sp->second == 1, "stage %d: preparer called %d times, propagater %d times", st, sp->first, sp->second); });
			return virtual_chunk<u64>(forwarder(key, val) | preparer([sp](node &) { ++sp->first; })
				| propagater([e, key, val, st, sp](node & n) { ++sp->second; if (!n.can_fetch(key)) e->push_back(pbt::strf("stage %d: forwarded value not found", st)); else { int g = n.fetch<int>(key); if (g != val) e->push_back(pbt::strf("stage %d: fetched %d, forwarded %d", st, g, val)); } }) | item_type<u64>()); }
		// ---- composite stages
		case 22: { c.trace("%2d vfork {", stage); auto e = tail(f, depth + 1, "virtual fork"); c.trace("   }"); return vfork(e); }
		case 23: { c.trace("%2d fork(devirtualize) {", stage); auto e = tail(f, depth + 1, "fork to a virtual end"); c.trace("   }"); return virtual_chunk<u64>(fork(devirtualize(e))); }
		case 24: { c.trace("%2d devirtualize(chunk) {", stage); auto ch = op(f, depth + 1); c.trace("   }"); return virtual_chunk<u64>(map([](u64 x) { return x; }) | devirtualize(ch)); }
		case 25: { c.trace("%2d passive_buffer around sort", stage); auto x = hold<passive_buffer<u64>>(); vec o = v; std::sort(v.begin(), v.end()); for (size_t i = 0; i < v.size(); ++i) v[i] = v[i] * 7 + o[i]; ++phases; f.known = false;
			return virtual_chunk<u64>(fork(x->input()) | sort() | zip(x->output()) | map([](const std::pair<u64, u64> & p) { return p.first * 7 + p.second; })); }
		case 26: { c.trace("%2d passive_reverser around buffer", stage); auto x = hold<passive_reverser<u64>>(); vec o = v; std::reverse(o.begin(), o.end()); for (size_t i = 0; i < v.size(); ++i) v[i] = v[i] * 7 + o[i]; ++phases; f.known = false;
			return virtual_chunk<u64>(fork(x->input()) | buffer() | zip(x->output()) | map([](const std::pair<u64, u64> & p) { return p.first * 7 + p.second; })); }
		case 27: { c.trace("%2d internal_passive_reverser around buffer", stage); auto x = hold<internal_passive_reverser<u64>>(); vec o = v; std::reverse(o.begin(), o.end()); for (size_t i = 0; i < v.size(); ++i) v[i] = v[i] * 7 + o[i]; ++phases; f.known = false;
			return virtual_chunk<u64>(fork(x->input()) | buffer() | zip(x->output()) | map([](const std::pair<u64, u64> & p) { return p.first * 7 + p.second; })); }
		case 28: { c.trace("%2d passive_sorter around reverser", stage); auto x = hold<passive_sorter<u64>>(); vec o = v; std::sort(o.begin(), o.end()); std::reverse(v.begin(), v.end()); for (size_t i = 0; i < v.size(); ++i) v[i] = v[i] * 7 + o[i]; ++phases; f.known = false;
			return virtual_chunk<u64>(fork(x->input()) | reverser() | zip(x->output()) | map([](const std::pair<u64, u64> & p) { return p.first * 7 + p.second; })); }
		case 29: { size_t cap = 1 + s.below(3); c.trace("%2d unzip(internal_passive_buffer(%zu)) zip", stage, cap); auto x = hold<internal_passive_buffer<u64>>(cap); for (u64 & y : v) y = (y + 5) * 3 + y; f.known = false;
			return virtual_chunk<u64>(map([](u64 y) { return std::pair<u64, u64>(y + 5, y); }) | unzip(x->input()) | map([](u64 y) { return y * 3; }) | zip(x->output()) | map([](const std::pair<u64, u64> & p) { return p.first + p.second; })); }
		case 30: { size_t k = 1 + s.below(v.size() / 4 + 10); if (v.size() / k > 40) k = v.size() / 40 + 1; int kind = (int)s.below(6); c.trace("%2d subpipeline kind %d per %zu items", stage, kind, k);
			for (size_t i = 0; i < v.size(); i += k) { auto a = v.begin() + i, b = v.begin() + std::min(v.size(), i + k); if (kind == 0 || kind == 3) std::sort(a, b); else if (kind >= 4) { std::sort(a, b); for (auto q = a; q != b; ++q) *q += 1000 + i / k; } else if (kind == 1) std::reverse(a, b); else for (auto q = a; q != b; ++q) *q ^= 0x55; }
			return virtual_chunk<u64>(subpipe(k, kind)); }
		case 31: { vec & w = mkvec(); w = other(s.size(maxN / 4 + 4, 16)); std::sort(w.begin(), w.end()); c.trace("%2d sort|ordered_merge(%zu)", stage, w.size()); v.insert(v.end(), w.begin(), w.end()); std::sort(v.begin(), v.end()); ++phases; f.known = false;
			return virtual_chunk<u64>(sort() | ordered_merge(pull_input_vector(w).factory)); }
		case 32: { c.trace("%2d map(rec24)|sort|reverser|buffer|map", stage); std::sort(v.begin(), v.end(), [](u64 a, u64 b) { return a % 17 < b % 17 || (a % 17 == b % 17 && a < b); }); std::reverse(v.begin(), v.end()); after_phase(f); ++phases;
			return virtual_chunk<u64>(map([](u64 x) { return rec24{x % 17, x, (uint32_t)x, (uint32_t)~x}; }) | sort() | reverser() | buffer() | map([](const rec24 & r) { return r.b == (uint32_t)r.a && r.c == (uint32_t)~r.a ? r.a : ~u64(0); })); }
		case 33: { c.trace("%2d passive_buffer as end and begin", stage); auto x = hold<passive_buffer<u64>>(); after_phase(f); return virtual_chunk<u64>(virtual_chunk_end<u64>(x->input()), virtual_chunk_begin<u64>(pull_source(x->output()))); }
		case 34: { c.trace("%2d passive_sorter as end and begin", stage); auto x = hold<passive_sorter<u64, std::greater<u64>>>(); std::sort(v.begin(), v.end(), std::greater<u64>()); after_phase(f); return virtual_chunk<u64>(virtual_chunk_end<u64>(x->input()), virtual_chunk_begin<u64>(pull_source(x->output()))); }
		case 35: { u64 a = s.below(100); c.trace("%2d join of fork and map(x+%llu)", stage, (unsigned long long)a); auto j = hold<join<u64>>(); vec o; for (u64 x : v) { o.push_back(x + a); o.push_back(x); } if (o.size() > 8 * maxN + 64) { c.trace("   (skipped)"); return virtual_chunk<u64>(map([](u64 x) { return x; })); } v.swap(o); f.known = false;
			return virtual_chunk<u64>(virtual_chunk_end<u64>(fork(j->sink()) | map([a](u64 x) { return x + a; }) | j->sink()), virtual_chunk_begin<u64>(j->source())); }
		case 36: { unsigned n = (unsigned)s.below(3); c.trace("%2d split into %u more {", stage, n); auto sp = hold<split<u64>>(); for (unsigned i = 0; i < n; ++i) { auto e = tail(f, depth + 1, "split branch"); pipes.push_back(pipeline(virtual_chunk_begin<u64>(sp->source()) | e)); } c.trace("   }"); f.known = false;
			return virtual_chunk<u64>(virtual_chunk_end<u64>(sp->sink()), virtual_chunk_begin<u64>(sp->source())); }
		// several sorters in the same phases: their phases are no longer consecutive, so they have to evacuate
		case 37: { c.trace("%2d passive_sorter x2 around sort", stage); auto x = hold<passive_sorter<u64>>(); auto y = hold<passive_sorter<u64, std::greater<u64>>>(); vec a = v, b = v; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end(), std::greater<u64>());
			for (size_t i = 0; i < v.size(); ++i) v[i] = (a[i] * 5 + a[i]) * 3 + b[i]; phases += 4; f.known = false;
			return virtual_chunk<u64>(fork(x->input()) | fork(y->input()) | sort() | zip(x->output()) | map([](const std::pair<u64, u64> & p) { return p.first * 5 + p.second; }) | zip(y->output()) | map([](const std::pair<u64, u64> & p) { return p.first * 3 + p.second; })); }
		case 38: { c.trace("%2d passive_sorter around sort|reverser|sort", stage); auto x = hold<passive_sorter<u64>>(); vec a = v; std::sort(a.begin(), a.end());
			for (size_t i = 0; i < v.size(); ++i) v[i] = a[a.size() - 1 - i] * 5 + a[i]; phases += 5; f.known = false;
			return virtual_chunk<u64>(fork(x->input()) | sort() | reverser() | sort(std::greater<u64>()) | zip(x->output()) | map([](const std::pair<u64, u64> & p) { return p.first * 5 + p.second; })); }
		case 39: { unsigned k = 2 + (unsigned)s.below(3); c.trace("%2d ordered_merge of %u passive sorters fed by unzipping", stage, k); // merged back pairwise
			auto x = hold<passive_sorter<u64>>(); auto y = hold<passive_sorter<u64>>(); vec a, b; for (u64 z : v) { a.push_back(z / 2); b.push_back(z * k); } std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
			vec o; for (size_t i = 0; i < v.size(); ++i) { o.push_back(a[i] + 9); o.push_back(b[i]); } v.swap(o); phases += 3; f.known = false;
			pipes.push_back(pipeline(pull_source(x->output()) | map([](u64 z) { return z + 9; }) | sort() | merge(y->output()) | output_vector(mkvec()))); vec & got = *std::static_pointer_cast<vec>(keep.back());
			expect_vec(got, v, "merge of two passive sorters");
			for (size_t i = 0; i < v.size(); i += 2) { v[i / 2] = 0; } v.resize(v.size() / 2); for (size_t i = 0; i < v.size(); ++i) v[i] = 0;
			return virtual_chunk<u64>(map([k](u64 z) { return std::pair<u64, u64>(z / 2, z * k); }) | unzip(y->input()) | fork(x->input()) | map([](u64) { return u64(0); })); }
		}
	}
	// A cut of the main pipeline: the part so far ends in storage, and a new pipeline ordered after it reads that.
	virtual_chunk_begin<u64> cut(virtual_chunk_begin<u64> cur, Flow & f) {
		++stage; ++ops; ++phases; f.known = true; f.items = f.v.size();
		switch (s.below(3)) {
		default: { auto & fs = mkstream(); c.trace("%2d output(fs), then input(fs, RESET)", stage); pipes.push_back(pipeline(cur | virtual_chunk_end<u64>(output(fs)))); pending.push_back(pipes.size() - 1); return virtual_chunk_begin<u64>(input(fs, STREAM_RESET)); }
		case 1: { auto o = hold<vec>(); auto ns = hold<node_set>(make_node_set()); c.trace("%2d output_vector, then input_vector (node_set)", stage); pipes.push_back(pipeline(cur | virtual_chunk_end<u64>(output_vector(*o).add_to_set(*ns)))); return virtual_chunk_begin<u64>(input_vector(*o).add_forwarding_dependencies(*ns)); }
		case 2: { std::string p = mkname(); c.trace("%2d named_output, then named_input", stage); pipes.push_back(pipeline(cur | virtual_chunk_end<u64>(named_output<u64>(p)))); pending.push_back(pipes.size() - 1); return virtual_chunk_begin<u64>(named_input(p)); }
		}
	}
	std::vector<size_t> pending;      // pipelines that the next one has to follow

	// builds the whole thing; the pipeline to run is returned
	pipeline build(unsigned avgOps) {
		Flow f; virtual_chunk_begin<u64> cur = source(f);
		if (s.flip()) { ++stage; cur = cur | check_items(f); }
		while (s.more(avgOps)) {
			if (failer && !failer->placed && s.chance(1, 4)) cur = cur | fail_here(f);
			if (s.chance(1, 12)) { auto nx = cut(cur, f); cur = nx; cuts.push_back(pending.size()); }
			else cur = cur | op(f);
			if (f.v.size() > 4 * maxN) break;
		}
		if (failer && !failer->placed) cur = cur | fail_here(f);
		if (s.flip()) { ++stage; cur = cur | check_items(f); }
		pipeline last(cur | sink(f, "final output"));
		total = f.v.size();
		// order the pipelines that share storage
		for (size_t i = 0; i < pending.size(); ++i) { pipeline & nx = i + 1 < pending.size() ? pipes[pending[i + 1]] : last; pipes[pending[i]].then(nx); }
		pipes.push_back(last);
		return pipes[s.chance(1, 4) ? s.below(pipes.size()) : pipes.size() - 1];
	}
	std::vector<size_t> cuts; size_t total = 0;
	std::vector<tpie::file_stream<u64> *> streams;
	// the destructor of a stream that cannot write its data ends the process, so streams that may have failed are closed first
	void close_streams() { for (auto * f : streams) if (f->is_open()) try { f->close(); } catch (const tpie::exception &) {} }
	void verify() {
		if (!err->empty()) c.fail("%s", (*err)[0].c_str());
		for (auto & a : after) a();
	}
};
} // namespace tv
