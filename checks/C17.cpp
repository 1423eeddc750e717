// Pipelines of the library's own stages that fail: a callback, a function given to a stage, a comparison, a system call.
#define TV_DEFINE_WRAPS
#include "faults.h"
#include "pipes.h"
using namespace tv;
namespace {
void start(Ctx & c) { const size_t B[] = {4096, 512, 65536}; init_tpie(B[(c.index / 24) % 3], 64u << 20, true); }
size_t memory(Src & s) { return s.pick({size_t(40u << 20), size_t(3u << 20), size_t(600000), size_t(100000)}); }
// whatever failed before, a pipeline works now
void still_works(Src & s, Ctx & c) {
	vec in(500), out; Rng r = s.bulk(); for (auto & x : in) x = r.next(); vec w = in; std::sort(w.begin(), w.end()); std::reverse(w.begin(), w.end());
	pipeline p = input_vector(in) | sort() | reverser() | output_vector(out); tpie::progress_indicator_null pi;
	p(in.size(), pi, 3000000, TPIE_FSI);
	PBT_CHECK(c, out == w, "a pipeline run after the failure gives %zu items, expected %zu, or other ones", out.size(), w.size());
}
void exceptions(Src & s, Ctx & c) {
	start(c); Resources res(c.dir);
	{
		World w(s, c, s.pick({size_t(40), size_t(500), size_t(5000)})); w.failer = std::make_shared<FailSpec>(); auto f = w.failer;
		f->where = (int)s.weighted({1, 1, 2, 6, 2, 3, 2, 1}); f->code = 1 + (int)s.below(1000); f->n = f->where < 3 || f->where == 4 ? 0 : s.size(w.maxN, 30);
		bool threw = false; int code = 0;
		{
			pipeline p = w.build(4); size_t mem = memory(s); tpie::progress_indicator_null pi; c.trace("run with %zu bytes of memory", mem);
			try { p(w.maxN, pi, mem, TPIE_FSI); } catch (const pipe_failure & e) { threw = true; code = e.code; }
			PBT_CHECK(c, threw == f->fired, "the stage %s, but run() %s", f->fired ? "threw" : "did not throw", threw ? "threw" : "returned");
			PBT_CHECK(c, !threw || code == f->code, "run() threw another exception");
			if (threw && s.flip()) { c.trace("keep the pipeline while others run"); still_works(s, c); }
		}
		if (!threw) w.verify();
		c.labelf("%s in %s", threw ? "failed" : "did not get there", f->where == 0 ? "prepare" : f->where == 1 ? "propagate" : f->where == 2 ? "begin" : f->where == 3 ? "push" : f->where == 4 ? "end" : f->where == 5 ? "comparison" : "function");
		c.nontrivial(threw && w.ops >= 1);
	}
	res.expect_same(c, "after the failed pipeline was destroyed"); expect_no_pipelines(c);
	if (s.flip()) still_works(s, c);
}
void io(Src & s, Ctx & c) {
	start(c); { std::lock_guard<std::recursive_mutex> l(faults().m); faults().dir = c.dir + "/"; }
	Resources res(c.dir); bool threw = false, fired = false, cut = false; size_t calls = 0;
	{
		World w(s, c, s.pick({size_t(200), size_t(2000), size_t(8000)}));
		bool shorten = s.chance(1, 5); int err = shorten ? 0 : s.pick({EIO, ENOSPC}); unsigned kinds = shorten ? F_READ | F_WRITE : err == ENOSPC ? s.pick({(unsigned)F_WRITE, (unsigned)F_WRITE, (unsigned)(F_WRITE | F_OPEN), (unsigned)F_OPEN}) : s.pick({(unsigned)F_WRITE, (unsigned)F_READ, (unsigned)(F_READ | F_WRITE | F_TRUNC | F_OPEN), (unsigned)F_TRUNC, (unsigned)F_OPEN}); // (closing: see C12)
		bool persistent = s.flip(); long after = (long)s.size(150, 12);
		pipeline p = w.build(5); size_t mem = memory(s); tpie::progress_indicator_null pi;
		if (shorten) c.trace("reads and writes are cut short"); else c.trace("call %ld of kinds %u fails with %s%s", after, kinds, err == EIO ? "EIO" : "ENOSPC", persistent ? ", and all following ones" : "");
		c.trace("run with %zu bytes of memory", mem);
		{ auto & f = faults(); std::lock_guard<std::recursive_mutex> l(f.m); f.kinds = kinds; f.countdown = after; f.err = err; f.persistent = persistent; f.shorten = shorten; f.rng = Rng(after + 7); f.fired = 0; f.calls = 0; f.shortened = 0; f.armed = true; }
		try { p(w.maxN, pi, mem, TPIE_FSI); }
		catch (const tpie::exception & e) {
			threw = true; { std::lock_guard<std::recursive_mutex> l(faults().m); faults().armed = false; }
			c.trace("run() throws: %s", e.what());
			PBT_CHECK(c, faults().fired != 0, "run() threw \"%s\" although no system call had failed", e.what());
			if (err == ENOSPC) PBT_CHECK(c, dynamic_cast<const tpie::out_of_space_exception *>(&e), "running out of space was not reported as such (\"%s\")", e.what());
		}
		{ std::lock_guard<std::recursive_mutex> l(faults().m); faults().armed = false; fired = faults().fired; cut = faults().shortened > 2; calls = faults().calls; }
		(void)calls;
		faults().reset();
		// a failing system call may be one whose result nothing depends on; otherwise the outputs are right
		// (a stream left open may report the failure of its last blocks when it is used next)
		bool late = false; if (!threw) try { w.verify(); } catch (const tpie::exception & e) { PBT_CHECK(c, fired, "reading the results threw \"%s\"", e.what()); threw = late = true; c.trace("reading the results throws: %s", e.what()); }
		if (threw && s.flip()) { c.trace("keep the pipeline while others run"); still_works(s, c); }
		w.close_streams();
	}
	c.label(threw ? "failed" : fired ? "failure without consequences" : cut ? "cut short" : "no failure");
	c.nontrivial(threw || cut);
	res.expect_same(c, "after the failed pipeline was destroyed"); expect_no_pipelines(c);
	if (s.flip()) still_works(s, c);
}
}
int main(int argc, char ** argv) {
	pbt::Suite su; su.property = "C17";
	su.rule = "random pipelines of the library's stages with a failure at a random place: a callback or a function throws, or a system call fails with EIO or ENOSPC or transfers fewer bytes; non-trivial: the run failed (with at least one more stage), or several calls were cut short";
	su.scenarios = { {"exceptions", exceptions, 6000, 90000, 24, 60}, {"io", io, 6000, 90000, 24, 60} };
	return pbt::main_loop(argc, argv, su);
}
