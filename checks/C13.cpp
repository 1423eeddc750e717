// C13: what a pipeline computes is the composition of its stages.
#include "pipes.h"
#include <tpie/pipelining/serialization.h>
#include <tpie/pipelining/serialization_sort.h>
#include <tpie/serialization_stream.h>
#include <tpie/stream.h>
#include <tpie/stack.h>
#include <tpie/pipelining/ami_glue.h>
#include <tpie/pipelining/std_glue.h>
#include <list>
#include <unistd.h>
using namespace tv;

namespace {
const size_t BLOCKS[] = {4096, 512, 65536};
void start(Ctx & c, unsigned batch) { init_tpie(BLOCKS[(c.index / batch) % 3], 64u << 20, true); }

void scen_push(Src & s, Ctx & c) {
	start(c, 24);
	Resources res(c.dir);
	{
		size_t maxN = s.pick({size_t(200), size_t(2000), size_t(c.thorough ? 60000 : 15000)});
		World w(s, c, maxN);
		pipeline p = w.build(5);
		size_t mem = s.pick({size_t(40u << 20), size_t(3u << 20), size_t(600000), size_t(100000)});
		tpie::progress_indicator_null pi;
		c.trace("run with %zu bytes of memory\n", mem);
		if (s.chance(1, 6)) { std::ostringstream os; p.plot(os); p.plot_full(os); PBT_CHECK(c, os.str().find("digraph") == 0, "no plot"); }
		p(maxN, pi, mem, TPIE_FSI);
		w.verify();
		c.nontrivial(w.ops >= 2 && w.phases >= 2 && w.total > 0);
		c.labelf("phases %s", w.phases < 2 ? "1" : w.phases < 4 ? "2-3" : "4+");
		if (mem < 1000000) c.label("small memory");
	}
	res.expect_same(c, "after the pipeline was destroyed"); expect_no_pipelines(c);
}
void scen_pull(Src & s, Ctx & c) {
	start(c, 24);
	Resources res(c.dir);
	{
		size_t maxN = s.pick({size_t(50), size_t(2000), size_t(10000)});
		World w(s, c, maxN);
		pipeline p = w.build_pull(3);
		size_t mem = s.pick({size_t(40u << 20), size_t(600000), size_t(100000)});
		tpie::progress_indicator_null pi;
		p(maxN, pi, mem, TPIE_FSI);
		w.verify();
		c.nontrivial(w.ops >= 1 && w.total > 0);
	}
	res.expect_same(c, "after the pipeline was destroyed"); expect_no_pipelines(c);
}

// the same stages without virtual wrappers between them
template <typename B> pipeline static_end(Src & s, World & w, const vec & v, B && b) {
	if (s.flip()) { auto & fs = w.mkstream(); w.expect_stream(fs, v, "pull_output"); w.c.trace("pull_output"); return pipeline(std::move(b) | pull_output(fs)); }
	auto o = w.hold<vec>(v.size() + 1, 77); vec x = v; x.push_back(77); w.expect_vec(*o, x, "pull_output_iterator"); w.c.trace("pull_output_iterator"); return pipeline(std::move(b) | pull_output_iterator(o->begin()));
}
template <typename B> pipeline static_mid(Src & s, World & w, vec & v, B && b) {
	auto eq = [](const u64 & a, const u64 & b) { return a / 4 == b / 4; };
	auto uniq = [&]() { vec o; u64 last = 0; bool any = false; for (u64 x : v) { if (!any || last / 4 != x / 4) o.push_back(x); last = x; any = true; } v.swap(o); };
	switch (s.below(5)) {
	default: return static_end(s, w, v, std::move(b));
	case 1: w.c.trace("pull_peek"); return static_end(s, w, v, std::move(b) | pull_peek());
	case 2: w.c.trace("pull_unique"); uniq(); return static_end(s, w, v, std::move(b) | pull_unique(eq));
	case 3: w.c.trace("pull_map, pull_unique, pull_peek"); for (u64 & x : v) x += 3; uniq(); return static_end(s, w, v, std::move(b) | pull_map([](u64 x) { return x + 3; }) | pull_unique(eq) | pull_peek());
	case 4: { auto & t = w.mkstream(); w.expect_stream(t, v, "pull_tee"); vec & o = w.mkvec(); w.expect_vec(o, v, "pull_fork"); w.c.trace("pull_tee, pull_fork"); return static_end(s, w, v, std::move(b) | pull_tee(t) | pull_fork(output_vector(o).factory)); }
	}
}
void scen_static(Src & s, Ctx & c) {
	start(c, 24);
	Resources res(c.dir);
	{
		World w(s, c, s.pick({size_t(50), size_t(1000), size_t(5000)}));
		size_t n = s.size(w.maxN, 64); vec & in = w.mkvec(); in = w.data(n); vec v = in; pipeline p, feed; bool fed = false;
		c.trace("%zu items", n);
		switch (s.below(8)) {
		default: c.trace("pull_input_vector"); p = static_mid(s, w, v, pull_input_vector(in)); break;
		case 1: { auto & fs = w.mkstream(&v); c.trace("pull_input"); p = static_mid(s, w, v, pull_input(fs, STREAM_RESET | STREAM_CLOSE)); break; }
		case 2: { auto & fs = w.mkstream(&v); c.trace("pull_reverse_input"); std::reverse(v.begin(), v.end()); p = static_mid(s, w, v, pull_reverse_input(fs, STREAM_RESET | STREAM_CLOSE)); break; }
		case 3: { std::string f = w.mkname(); { tpie::file_stream<u64> fs; fs.open(f); for (u64 x : v) fs.write(x); } c.trace("named_pull_input"); p = static_mid(s, w, v, named_pull_input<u64>(f)); break; }
		case 4: { auto x = w.hold<passive_buffer<u64>>(); c.trace("passive_buffer"); feed = input_vector(in) | x->input(); fed = true; p = static_mid(s, w, v, x->output()); break; }
		case 5: { auto x = w.hold<passive_reverser<u64>>(); c.trace("passive_reverser"); std::reverse(v.begin(), v.end()); feed = input_vector(in) | x->input(); fed = true; p = static_mid(s, w, v, x->output()); break; }
		case 6: { auto x = w.hold<passive_sorter<u64>>(); c.trace("passive_sorter"); std::sort(v.begin(), v.end()); feed = input_vector(in) | x->input(); fed = true; p = static_mid(s, w, v, x->output()); break; }
		case 7: { auto x = w.hold<internal_passive_reverser<u64>>(); c.trace("internal_passive_reverser"); std::reverse(v.begin(), v.end()); feed = input_vector(in) | x->input(); fed = true; p = static_mid(s, w, v, x->output()); break; }
		}
		tpie::progress_indicator_null pi;
		if (fed && s.flip()) feed(n, pi, s.pick({size_t(40u << 20), size_t(300000)}), TPIE_FSI); else p(n, pi, s.pick({size_t(40u << 20), size_t(300000)}), TPIE_FSI);
		w.verify();
		c.nontrivial(n > 1);
	}
	res.expect_same(c, "after the pipeline was destroyed"); expect_no_pipelines(c);
}

// chains over strings, with the serialization variants of the stages
typedef std::vector<std::string> svec;
void scen_strings(Src & s, Ctx & c) {
	start(c, 24);
	Resources res(c.dir);
	{
		size_t n = s.size(c.thorough ? 20000 : 3000, 64); Rng r = s.bulk(); size_t ml = s.pick({size_t(8), size_t(1), size_t(60), size_t(3000)}); if (ml == 3000) n = n % 400;
		svec in(n); for (auto & x : in) { size_t l = r.below(ml + 1); x.resize(l); for (auto & ch : x) ch = (char)r.below(ml == 1 ? 3 : 256); }
		svec v = in; bool refused = false;
		std::vector<std::shared_ptr<void>> keep; std::vector<pipeline> pipes; size_t phases = 1, ops = 0;
		std::unique_ptr<tpie::serialization_reader> rd; std::string path = c.dir + "/strings.ser", opath = c.dir + "/out.ser"; ::unlink(path.c_str()); ::unlink(opath.c_str());
		virtual_chunk_begin<std::string> cur;
		if (s.flip()) { c.trace("input_vector(%zu strings of at most %zu bytes)", n, ml); cur = virtual_chunk_begin<std::string>(input_vector(in)); }
		else { c.trace("serialization_input(%zu strings of at most %zu bytes)", n, ml); tpie::serialization_writer w; w.open(path); for (auto & x : in) w.serialize(x); w.close(); rd.reset(new tpie::serialization_reader); rd->open(path); cur = virtual_chunk_begin<std::string>(serialization_input(*rd)); }
		while (s.more(4)) {
			++ops;
			typedef virtual_chunk<std::string> chunk;
			switch (s.below(11)) {
			default: c.trace("map(+\"x\")"); for (auto & x : v) x += "x"; cur = cur | chunk(map([](const std::string & x) { return x + "x"; })); break;
			case 1: c.trace("serialization_sort"); std::sort(v.begin(), v.end()); ++phases; cur = cur | chunk(serialization_sort()); break;
			case 2: c.trace("serialization_sort(greater)"); std::sort(v.begin(), v.end(), std::greater<std::string>()); ++phases; cur = cur | chunk(serialization_sort(std::greater<std::string>())); break;
			case 3: c.trace("serialization_reverser"); std::reverse(v.begin(), v.end()); ++phases; cur = cur | chunk(serialization_reverser()); break;
			case 4: c.trace("serialization_buffer"); ++phases; cur = cur | chunk(serialization_buffer()); break;
			case 5: { c.trace("passive_serialization_buffer"); ++phases; auto x = std::make_shared<passive_serialization_buffer<std::string>>(); keep.push_back(x); cur = cur | chunk(virtual_chunk_end<std::string>(x->input()), virtual_chunk_begin<std::string>(pull_source(x->output()))); break; }
			case 6: { c.trace("passive_serialization_reverser"); ++phases; std::reverse(v.begin(), v.end()); auto x = std::make_shared<passive_serialization_reverser<std::string>>(); keep.push_back(x); cur = cur | chunk(virtual_chunk_end<std::string>(x->input()), virtual_chunk_begin<std::string>(pull_source(x->output()))); break; }
			case 7: { c.trace("serialization_passive_sorter"); ++phases; std::sort(v.begin(), v.end()); auto x = std::make_shared<serialization_passive_sorter<std::string>>(); keep.push_back(x); cur = cur | chunk(virtual_chunk_end<std::string>(x->input()), virtual_chunk_begin<std::string>(pull_source(x->output()))); break; }
			case 8: { c.trace("filter(size %% 3)"); svec o; for (auto & x : v) if (x.size() % 3) o.push_back(x); v.swap(o); cur = cur | chunk(filter([](const std::string & x) { return x.size() % 3 != 0; })); break; }
			case 9: { c.trace("serialization_passive_sorter around serialization_sort"); phases += 3; auto x = std::make_shared<serialization_passive_sorter<std::string, std::greater<std::string>>>(); keep.push_back(x); std::sort(v.begin(), v.end()); svec o = v; for (size_t i = 0; i < v.size(); ++i) v[i] = o[i] + o[o.size() - 1 - i].substr(0, 3);
				cur = cur | chunk(fork(x->input()) | serialization_sort() | zip(x->output()) | map([](const std::pair<std::string, std::string> & p) { return p.first + p.second.substr(0, 3); })); break; }
			case 10: { c.trace("serialization_passive_sorter around serialization_sort|serialization_reverser"); phases += 4; auto x = std::make_shared<serialization_passive_sorter<std::string>>(); keep.push_back(x); std::sort(v.begin(), v.end()); svec o = v; for (size_t i = 0; i < v.size(); ++i) v[i] = o[o.size() - 1 - i] + o[i].substr(0, 3);
				cur = cur | chunk(fork(x->input()) | serialization_sort() | serialization_reverser() | zip(x->output()) | map([](const std::pair<std::string, std::string> & p) { return p.first + p.second.substr(0, 3); })); break; }
			}
		}
		size_t mem = s.pick({size_t(60u << 20), size_t(30u << 20), size_t(12u << 20)});
		svec got; std::unique_ptr<tpie::serialization_writer> wr;
		pipeline p;
		if (s.flip()) { c.trace("output_vector, memory %zu", mem); p = cur | virtual_chunk_end<std::string>(output_vector(got)); }
		else { c.trace("serialization_output, memory %zu", mem); wr.reset(new tpie::serialization_writer); wr->open(opath); p = cur | virtual_chunk_end<std::string>(serialization_output<std::string>(*wr)); }
		tpie::progress_indicator_null pi;
		// The serialization sorter refuses to work when it cannot merge two runs of its largest items.
		try { p(n, pi, mem, TPIE_FSI); } catch (const tpie::exception & e) { if (mem > (20u << 20) || !strstr(e.what(), "Not enough memory")) throw; refused = true; c.label("refused for lack of memory"); }
		if (refused) { if (wr) wr->close(); if (rd) rd->close(); }
		else {
		if (wr) { wr->close(); tpie::serialization_reader r2; r2.open(opath); while (r2.can_read()) { std::string x; r2.unserialize(x); got.push_back(x); } r2.close(); }
		size_t i = 0; while (i < got.size() && i < v.size() && got[i] == v[i]) ++i;
		PBT_CHECK(c, i == got.size() && i == v.size(), "%zu strings came out, expected %zu; first difference at %zu", got.size(), v.size(), i);
		if (rd) rd->close(); }
		c.nontrivial(!refused && ops >= 1 && v.size() > 1);
		c.labelf("phases %s", phases < 2 ? "1" : phases < 4 ? "2-3" : "4+");
	}
	res.expect_same(c, "after the pipeline was destroyed"); expect_no_pipelines(c);
}

// the adapters to and from the world outside: AMI streams and stacks, standard input and output, nothing at all
struct Stdio {                                   // standard input and output of this process, replaced by files
	FILE * in = stdin, * out = stdout;
	Stdio(const char * i, const char * o) { if (i) stdin = fopen(i, "r"); if (o) stdout = fopen(o, "w"); }
	~Stdio() { if (stdin != in) { fclose(stdin); stdin = in; } if (stdout != out) { fclose(stdout); stdout = out; } }
};
void scen_adapters(Src & s, Ctx & c) {
	start(c, 24);
	Resources res(c.dir);
	{
		typedef std::vector<int> ivec;
		size_t n = s.size(s.pick({size_t(20), size_t(2000)}), 64); Rng r = s.bulk(); uint64_t m = s.pick({u64(3), u64(1000), u64(1) << 31}); bool neg = s.flip();
		ivec v(n); for (auto & x : v) { x = (int)r.below(m); if (neg && r.below(2)) x = -x; }
		std::string fi = c.dir + "/stdin", fo = c.dir + "/stdout"; const ivec in = v;
		ivec mem; tpie::ami::stream<int> si, so; std::unique_ptr<tpie::ami::stack<int>> st;
		virtual_chunk_begin<int> b; pipeline p; bool scan = false, null = false; ivec got; size_t phases = 1, ops = 0;
		switch (s.below(6)) {
		default: c.trace("input_vector(%zu)", n); mem = v; b = input_vector(mem); break;
		case 1: { c.trace("ami_input(%zu)", n); for (int x : v) si.write_item(x); if (n) si.seek(s.below(n + 1)); b = ami_input(si); break; }
		case 2: { c.trace("ami_input_stack(%zu)", n); st.reset(new tpie::ami::stack<int>()); for (int x : v) st->push(x); std::reverse(v.begin(), v.end()); b = ami_input_stack(*st); break; }
		case 3: { c.trace("pull_source(ami_pull_input_stack(%zu))", n); st.reset(new tpie::ami::stack<int>()); for (int x : v) st->push(x); std::reverse(v.begin(), v.end()); b = pull_source(ami_pull_input_stack(*st)); break; }
		case 4: { c.trace("scanf_ints(%zu)", n); scan = true; FILE * f = fopen(fi.c_str(), "w"); static const char * const SEP[] = {" ", "\n", "\t", "  \n ", "\r\n"};
			for (int x : v) fprintf(f, "%s%d%s", r.below(4) ? "" : "\n", x, SEP[r.below(5)]); if (s.chance(1, 4)) fprintf(f, "stop 17 18\n"); fclose(f); b = scanf_ints(); break; }
		case 5: { c.trace("pull_source(zero_source)"); v.clear(); b = pull_source(zero_source<int>()); break; }
		}
		bool items = !scan;
		while (s.more(2)) {
			++ops;
			typedef virtual_chunk<int> chunk;
			switch (s.below(4)) {
			default: c.trace("sort"); std::sort(v.begin(), v.end()); b = b | chunk(sort()); ++phases; break;
			case 1: c.trace("reverser"); std::reverse(v.begin(), v.end()); b = b | chunk(reverser()); ++phases; break;
			case 2: c.trace("map"); for (int & x : v) x = x / 3 + 1; b = b | chunk(map([](int x) { return x / 3 + 1; })); break;
			case 3: c.trace("fork(null_sink)"); b = b | chunk(fork(null_sink<int>())); break;
			}
		}
		(void)items; bool prin = false, ami = false; std::string txt; std::ostringstream wantTxt; std::list<int> lst; bool useList = false; int64_t sum = 0; bool useSum = false;
		switch (s.below(6)) {
		default: c.trace("output_vector"); p = b | virtual_chunk_end<int>(output_vector(got)); break;
		case 1: c.trace("ami_output"); ami = true; p = b | virtual_chunk_end<int>(ami_output(so)); break;
		case 2: c.trace("printf_ints"); prin = true; p = b | virtual_chunk_end<int>(printf_ints()); break;
		case 3: c.trace("null_sink"); null = true; p = b | virtual_chunk_end<int>(null_sink<int>()); break;
		case 4: c.trace("typed_push_output_iterator(back_inserter)"); useList = true; p = b | virtual_chunk_end<int>(typed_push_output_iterator<int>(std::back_inserter(lst))); break;
		case 5: c.trace("map_sink"); useSum = true; p = b | virtual_chunk_end<int>(map_sink([&sum](int x) { sum += x; })); break;
		}
		tpie::progress_indicator_null pi;
		{ Stdio io(scan ? fi.c_str() : nullptr, prin ? fo.c_str() : nullptr); p(n, pi, s.pick({size_t(40u << 20), size_t(600000)}), TPIE_FSI); }
		if (ami) { PBT_CHECK(c, (size_t)so.stream_len() == v.size(), "the AMI stream has %lld items, not %zu", (long long)so.stream_len(), v.size()); so.seek(0); int * x; while (so.read_item(&x) == tpie::ami::NO_ERROR) got.push_back(*x); }
		if (prin) { FILE * f = fopen(fo.c_str(), "r"); int ch; while ((ch = fgetc(f)) != EOF) txt.push_back((char)ch); fclose(f); for (int x : v) wantTxt << x << "\n"; PBT_CHECK(c, txt == wantTxt.str(), "printf_ints wrote %zu bytes, expected %zu", txt.size(), wantTxt.str().size()); got = v; }
		if (useList) got.assign(lst.begin(), lst.end());
		if (useSum) { int64_t w = 0; for (int x : v) w += x; PBT_CHECK(c, sum == w, "the items add up to %lld, not %lld", (long long)sum, (long long)w); got = v; }
		if (null) got = v;
		size_t i = 0; while (i < got.size() && i < v.size() && got[i] == v[i]) ++i;
		PBT_CHECK(c, i == got.size() && i == v.size(), "%zu items came out, expected %zu; first difference at %zu", got.size(), v.size(), i);
		if (st) { PBT_CHECK(c, st->is_empty() && st->size() == 0, "the stack still has %lld items", (long long)st->size()); }
		if (si.stream_len()) { si.seek(0); int * x; size_t k = 0; while (si.read_item(&x) == tpie::ami::NO_ERROR) { PBT_CHECK(c, k < in.size() && *x == in[k], "item %zu of the source stream has changed", k); ++k; } PBT_CHECK(c, k == in.size(), "the source stream has %zu items, not %zu", k, in.size()); }
		c.nontrivial(ops >= 1 && n > 1);
		c.labelf("phases %s", phases < 2 ? "1" : "2+");
	}
	res.expect_same(c, "after the pipeline was destroyed"); expect_no_pipelines(c);
}

// virtual chunks: empty ones pass everything on, or are refused; nothing can be connected or assigned twice
void scen_chunks(Src & s, Ctx & c) {
	start(c, 24);
	Resources res(c.dir);
	{
		size_t n = s.size(300, 20); Rng r = s.bulk(); vec in(n); for (auto & x : in) x = r.below(1000); vec v = in, got;
		typedef virtual_chunk<u64> chunk; typedef virtual_chunk_end<u64> chend; typedef virtual_chunk_begin<u64> chbegin;
		typedef virtual_chunk_pull<u64> pchunk; typedef virtual_chunk_pull_end<u64> pend; typedef virtual_chunk_pull_begin<u64> pbegin;
		// refused(what, f): f has to throw a tpie exception (of the kind given)
		auto refused = [&](const char * what, int kind, const std::function<void()> & f) {
			c.trace("  %s", what); int k = 0;
			try { f(); } catch (const virtual_chunk_missing_begin &) { k = 1; } catch (const virtual_chunk_missing_middle &) { k = 2; } catch (const virtual_chunk_missing_end &) { k = 3; } catch (const tpie::exception &) { k = 4; }
			static const char * const K[] = {"accepted", "refused with missing_begin", "refused with missing_middle", "refused with missing_end", "refused"};
			PBT_CHECK(c, k == kind, "%s was %s, should be %s", what, K[k], K[kind]);
		};
		auto mk = [](u64 k) { return chunk(map([k](u64 x) { return x * 3 + k; })); };
		auto mmk = [&](u64 k) { for (u64 & x : v) x = x * 3 + k; };
		auto pmk = [](u64 k) { return pchunk(pull_map([k](u64 x) { return x * 3 + k; })); };
		size_t ops = 0, refusals = 0;
		tpie::progress_indicator_null pi; pipeline p;
		if (s.flip()) {                        // push
			chbegin cur = input_vector(in); std::vector<chunk> used; std::vector<chend> ends; 
			unsigned steps = 1 + (unsigned)s.below(8); std::vector<std::pair<vec *, vec>> sides; std::vector<std::unique_ptr<vec>> store;
			for (unsigned i = 0; i < steps; ++i) {
				++ops; u64 k = s.below(9);
				switch (s.below(16)) {
				default: { c.trace("map %llu", (unsigned long long)k); chunk m = mk(k); mmk(k); chbegin old = cur; cur = cur | m; used.push_back(m);
					if (s.chance(1, 4)) { ++refusals; refused("connecting the output of a chunk again", 4, [&] { old | mk(1); }); }
					if (s.chance(1, 4)) { ++refusals; refused("assigning to a chunk in use", 4, [&] { m = map([](u64 x) { return x; }); }); }
					break; }
				case 1: c.trace("empty chunk"); cur = cur | chunk(); break;
				case 2: { c.trace("chunk_if(%llu)", (unsigned long long)(k & 1)); cur = cur | chunk_if(k & 1, mk(k)); if (k & 1) mmk(k); break; }
				case 3: { c.trace("vfork of an empty end"); cur = cur | vfork(chend()); break; }
				case 4: { c.trace("vfork"); store.emplace_back(new vec); vec * o = store.back().get(); sides.push_back({o, v}); cur = cur | vfork(chend(output_vector(*o))); break; }
				case 5: { c.trace("vfork(chunk_end_if(%llu))", (unsigned long long)(k & 1)); store.emplace_back(new vec); vec * o = store.back().get(); sides.push_back({o, k & 1 ? v : vec()}); cur = cur | vfork(chunk_end_if(k & 1, chend(output_vector(*o)))); break; }
				case 6: { c.trace("empty|map|empty"); cur = cur | (chunk() | mk(k) | chunk()); mmk(k); break; }
				case 7: { c.trace("map|map"); chunk a = mk(k), b = mk(k + 1); cur = cur | (a | b); mmk(k); mmk(k + 1); break; }
				case 8: ++refusals; refused("begin | chunk of another type without pipes", 2, [&] { cur | virtual_chunk<u64, std::string>(); }); break;
				case 9: ++refusals; refused("chunk of another type without pipes | end", 2, [&] { std::vector<std::string> o; virtual_chunk<u64, std::string>() | virtual_chunk_end<std::string>(output_vector(o)); }); break;
				case 10: ++refusals; refused("empty begin | chunk", 1, [&] { chbegin() | mk(k); }); break;
				case 11: ++refusals; refused("empty begin | end", 1, [&] { vec o; chbegin() | chend(output_vector(o)); }); break;
				case 12: ++refusals; refused("begin | empty end", 3, [&] { cur | chend(); }); break;
				case 13: ++refusals; refused("chunk | empty end", 3, [&] { chunk m = mk(k); m | chend(); }); break;
				case 14: ++refusals; switch (s.below(4)) { default: refused("devirtualize(empty begin)", 1, [&] { devirtualize(chbegin()); }); break; case 1: refused("devirtualize(empty chunk)", 2, [&] { devirtualize(chunk()); }); break;
					case 2: refused("chunk(empty end, begin)", 3, [&] { vec o; chunk x(chend(), chbegin(input_vector(o))); }); break; case 3: refused("chunk(end, empty begin)", 1, [&] { vec o; chunk x(chend(output_vector(o)), chbegin()); }); break; } break;
				case 15: { c.trace("devirtualize(begin)|map"); mmk(k); cur = chbegin(devirtualize(cur) | map([k](u64 x) { return x * 3 + k; })); break; }
				}
			}
			chend e; 
			switch (s.below(4)) {
			default: e = output_vector(got); break;
			case 1: c.trace("empty|end"); e = chunk() | chend(output_vector(got)); break;
			case 2: c.trace("map|end"); e = mk(2) | chend(output_vector(got)); mmk(2); break;
			case 3: c.trace("end, devirtualized twice"); e = chend(map([](u64 x) { return x + 1; }) | devirtualize(chend(output_vector(got)))); for (u64 & x : v) ++x; break;
			}
			if (s.chance(1, 4)) { ++refusals; refused("assigning to an end in use", 4, [&] { e = output_vector(got); }); }
			if (s.chance(1, 4)) { ++refusals; c.trace("running a begin without an end"); chbegin x = input_vector(in); chbegin y = x | mk(1); pipeline q{pipeline(y)}; refused("running a chunk without a destination", 4, [&] { q(n, pi, size_t(40u << 20), TPIE_FSI); }); }
			p = cur | e;
			p(n, pi, size_t(40u << 20), TPIE_FSI);
			for (auto & x : sides) PBT_CHECK(c, *x.first == x.second, "a fork received %zu items, expected %zu or others", x.first->size(), x.second.size());
		} else {                               // pull
			pbegin cur = pull_input_vector(in); unsigned steps = 1 + (unsigned)s.below(8);
			for (unsigned i = 0; i < steps; ++i) {
				++ops; u64 k = s.below(9);
				switch (s.below(12)) {
				default: { c.trace("pull_map %llu", (unsigned long long)k); pchunk m = pmk(k); mmk(k); cur = cur | m;
					if (s.chance(1, 4)) { ++refusals; refused("assigning to a pull chunk in use", 4, [&] { m = pull_map([](u64 x) { return x; }); }); }
					if (s.chance(1, 4)) { ++refusals; vec o; pbegin z = pull_input_vector(o); refused("connecting the input of a pull chunk again", 4, [&] { z | m; }); }
					break; }
				case 1: c.trace("empty"); cur = cur | pchunk(); break;
				case 2: c.trace("empty|pull_map|empty"); cur = cur | (pchunk() | pmk(k) | pchunk()); mmk(k); break;
				case 3: { c.trace("pull_map|pull_map"); pchunk a = pmk(k), b = pmk(k + 1); cur = cur | (a | b); mmk(k); mmk(k + 1); break; }
				case 4: ++refusals; refused("pull begin | chunk of another type without pipes", 2, [&] { cur | virtual_chunk_pull<u64, std::string>(); }); break;
				case 5: ++refusals; refused("empty pull begin | chunk", 1, [&] { pbegin() | pmk(k); }); break;
				case 6: ++refusals; refused("pull begin | empty end", 3, [&] { cur | pend(); }); break;
				case 7: ++refusals; refused("pull chunk | empty end", 3, [&] { pchunk m = pmk(k); m | pend(); }); break;
				case 8: ++refusals; refused("empty pull begin | end", 1, [&] { vec o; pbegin() | pend(pull_output_iterator(std::back_inserter(o))); }); break;
				case 9: ++refusals; switch (s.below(5)) { default: refused("devirtualize(empty pull begin)", 1, [&] { devirtualize(pbegin()); }); break; case 1: refused("devirtualize(empty pull chunk)", 2, [&] { devirtualize(pchunk()); }); break; case 2: refused("devirtualize(empty pull end)", 3, [&] { devirtualize(pend()); }); break;
					case 3: refused("pull chunk(empty end, begin)", 3, [&] { vec o; pchunk x(pend(), pbegin(pull_input_vector(o))); }); break; case 4: refused("pull chunk(end, empty begin)", 1, [&] { vec o; pchunk x(pend(pull_output_iterator(std::back_inserter(o))), pbegin()); }); break; } break;
				case 10: { c.trace("devirtualize|pull_map"); mmk(k); cur = pbegin(devirtualize(cur) | pull_map([k](u64 x) { return x * 3 + k; })); break; }
				case 11: { c.trace("devirtualize(chunk)"); mmk(k); cur = pbegin(devirtualize(cur) | devirtualize(pmk(k))); break; }
				}
			}
			pend e; got.resize(n + 1, 77); v.push_back(77);
			switch (s.below(3)) {
			default: e = pull_output_iterator(got.begin()); break;
			case 1: c.trace("empty|end"); e = pchunk() | pend(pull_output_iterator(got.begin())); break;
			case 2: c.trace("pull_map|end"); v.pop_back(); mmk(2); v.push_back(77); e = pmk(2) | pend(pull_output_iterator(got.begin())); break;
			}
			if (s.chance(1, 4)) { ++refusals; refused("assigning to a pull end in use", 4, [&] { e = pull_output_iterator(got.begin()); }); }
			p = cur | e;
			p(n, pi, size_t(40u << 20), TPIE_FSI);
		}
		size_t i = 0; while (i < got.size() && i < v.size() && got[i] == v[i]) ++i;
		PBT_CHECK(c, i == got.size() && i == v.size(), "%zu items came out, expected %zu; first difference at %zu", got.size(), v.size(), i);
		c.nontrivial(n > 1 && refusals >= 1 && ops >= 3);
	}
	res.expect_same(c, "after the pipeline was destroyed"); expect_no_pipelines(c);
}
// Streams of many items with little memory and few files: sorting goes through temporary files and several merge levels.
void scen_big(Src & s, Ctx & c) {
	typedef virtual_chunk<u64> chunk; typedef virtual_chunk_begin<u64> chbegin; typedef virtual_chunk_end<u64> chend;
	init_tpie(4096, 64u << 20, true); Resources res(c.dir); bool multi = false;
	{
		size_t n = 20000 + s.below(c.thorough ? 400000 : 120000); Rng g = s.bulk(); unsigned shape = (unsigned)s.below(4); u64 range = s.pick({~u64(0), u64(1000), u64(1) << 40});
		vec in(n), v, got; for (size_t i = 0; i < n; ++i) in[i] = shape == 0 ? i : shape == 1 ? n - i : shape == 2 ? g.next() % range : (i % 1000) * 1000003 % 4099;
		v = in; size_t mem = s.pick({size_t(300000), size_t(100000), size_t(600000), size_t(1500000), size_t(20u << 20)}), files = s.pick({12, 5, 20, 40, 200});
		c.trace("%zu items, %zu bytes of memory, %zu files", n, mem, files);
		chbegin cur = input_vector(in); std::vector<pipeline> ps; unsigned sorts = 0;
		std::vector<std::shared_ptr<passive_sorter<u64>>> pss;
		for (unsigned k = 1 + (unsigned)s.below(3); k; --k) {
			u64 m = 2 * s.below(1000) + 1; c.trace("map * %llu", (unsigned long long)m); for (u64 & x : v) x *= m; cur = cur | chunk(map([m](u64 x) { return x * m; }));
			switch (s.below(7)) {
			case 0: c.trace("sort"); cur = cur | chunk(sort()); std::sort(v.begin(), v.end()); ++sorts; break;
			case 1: c.trace("sort, greatest first"); cur = cur | chunk(sort(std::greater<u64>())); std::sort(v.begin(), v.end(), std::greater<u64>()); ++sorts; break;
			case 2: { c.trace("passive sorter around sort"); auto p = std::make_shared<passive_sorter<u64>>(); pss.push_back(p); cur = cur | chunk(fork(p->input()) | sort(std::greater<u64>()) | zip(p->output()) | map([](const std::pair<u64, u64> & x) { return x.first * 7 + x.second; })); vec o = v; std::sort(o.begin(), o.end()); v = o; std::reverse(v.begin(), v.end()); for (size_t i = 0; i < v.size(); ++i) v[i] = v[i] * 7 + o[i]; ++sorts; break; }
			case 3: { if (mem < 20000000) continue; c.trace("serialization sort"); cur = cur | chunk(serialization_sort()); std::sort(v.begin(), v.end()); ++sorts; break; }
			case 4: c.trace("reverser"); cur = cur | chunk(reverser()); std::reverse(v.begin(), v.end()); break;
			case 5: c.trace("buffer"); cur = cur | chunk(buffer()); break;
			default: c.trace("sort | reverser | sort"); cur = cur | chunk(sort() | reverser() | sort()); std::sort(v.begin(), v.end()); ++sorts; break;
			}
		}
		ps.push_back(pipeline(cur | chend(output_vector(got))));
		tpie::progress_indicator_null pi; ps.back()(n, pi, files, mem, TPIE_FSI);
		size_t i = 0; while (i < got.size() && i < v.size() && got[i] == v[i]) ++i;
		PBT_CHECK(c, i == got.size() && i == v.size(), "%zu items came out, expected %zu; first difference at %zu", got.size(), v.size(), i);
		multi = sorts > 0 && mem < 1000000 && n > 60000; if (multi) c.label("sorts through many runs");
	}
	res.expect_same(c, "after the pipeline was destroyed"); expect_no_pipelines(c);
	c.nontrivial(multi);
}
}

int main(int argc, char ** argv) {
	pbt::Suite su;
	su.property = "C13";
	su.rule = "at least two stages, two phases and a non-empty result";
	su.scenarios = {
		{"push", scen_push, 9000, 150000, 24, 60},
		{"pull", scen_pull, 4000, 40000, 24, 60},
		{"static", scen_static, 3000, 30000, 24, 60},
		{"adapters", scen_adapters, 1500, 20000, 24, 60},
		{"chunks", scen_chunks, 3000, 40000, 24, 60},
		{"big", scen_big, 150, 5000, 24, 60},
		{"strings", scen_strings, 700, 12000, 24, 60},
	};
	return pbt::main_loop(argc, argv, su);
}
