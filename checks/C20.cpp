// C20: the job manager, and starting and stopping the library.
#include "common.h"
#include <tpie/job.h>
#include <tpie/file_stream.h>
#include <tpie/serialization_stream.h>
#include <tpie/serialization2.h>
#include <tpie/sort.h>
#include <tpie/progress_indicator_null.h>
#include <tpie/parallel_sort.h>
#include <tpie/priority_queue.h>
#include <tpie/fractional_progress.h>
#include <tpie/pipelining.h>
#include <thread>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <map>
#include <algorithm>

namespace {
using namespace tv;
typedef uint64_t u64;

size_t threads_now() { size_t n = 0; if (DIR * d = opendir("/proc/self/task")) { while (dirent * e = readdir(d)) n += e->d_name[0] != '.'; closedir(d); } return n; }
// threads that have been joined may stay listed for a moment
bool threads_become(size_t want, size_t & got) { for (int i = 0; i < 2000; ++i) { got = threads_now(); if (got == want) return true; usleep(i < 100 ? 50 : 1000); } return false; }

// ---------------------------------------------------------------- jobs
struct Gate { // closed until it is opened
	std::mutex m; std::condition_variable cv; bool open = false; std::atomic<int> waiting{0};
	void wait() { std::unique_lock<std::mutex> l(m); ++waiting; cv.wait(l, [&]() { return open; }); }
	void release() { std::lock_guard<std::mutex> l(m); open = true; cv.notify_all(); }
};
struct Spec { std::vector<size_t> before, after; size_t parent = 0, root = 0; size_t to = 0; bool gate = false, again = false, ask = false; unsigned spin = 0; std::vector<size_t> below; };
struct World;
struct Job : public tpie::job {
	World * w = nullptr; size_t id = 0; std::atomic<int> runs{0}, dones{0};
	void operator()() override;
	void on_done() override;
};
struct World {
	std::vector<Spec> spec; std::vector<std::unique_ptr<Job>> jobs; Gate gate; int round = 0;
	std::mutex em; std::string err; std::atomic<size_t> inflight{0};
	void bad(const char * f, size_t a, size_t b = 0) { std::lock_guard<std::mutex> l(em); if (err.empty()) err = pbt::strf(f, a, b); }
	void put(size_t k) { tpie::job * p = spec[k].to == ~size_t(0) ? nullptr : jobs[spec[k].to].get(); jobs[k]->enqueue(p); }
};
void Job::operator()() {
	Spec & s = w->spec[id];
	int r = ++runs; if (r != w->round) w->bad("job %zu was run %zu times", id, r);
	if (dones != w->round - 1) w->bad("job %zu was done before it was run", id);
	if (s.gate) w->gate.wait();
	if (s.ask && is_done()) w->bad("job %zu claims to be done while it runs", id);
	for (size_t k : s.before) w->put(k);
	if (s.again) { bool threw = false; try { enqueue(); } catch (tpie::exception &) { threw = true; } if (!threw) w->bad("job %zu could be added while it was running", id); }
	for (volatile unsigned i = 0; i < s.spin; i = i + 1) {}
	for (size_t k : s.after) w->put(k);
}
void Job::on_done() {
	int d = ++dones; if (d != w->round) w->bad("job %zu was reported done %zu times", id, d);
	if (runs != w->round) w->bad("job %zu was reported done before it was run", id);
	for (size_t k : w->spec[id].below) if (w->jobs[k]->runs != w->round) w->bad("job %zu was reported done before its subjob %zu was run", id, k);
}

void scen_jobs(Src & s, Ctx & c) {
	init_tpie(4096, 64u << 20, true);
	World w; const size_t none = ~size_t(0);
	size_t workers = s.range(1, 6); const size_t workers0 = workers; tpie::set_worker_count(workers);
	Resources res(c.dir); // the list of workers is accounted memory
	size_t got;
	const bool flood = s.chance(1, 6); const size_t roots = flood ? s.range(100, 300) : s.range(1, 12); const size_t budget = s.size(flood ? 300 : 80, 16); size_t waits = 0;
	auto add = [&](size_t parent, size_t to) {
		Spec x; x.parent = parent; x.to = to; x.root = parent == none ? w.spec.size() : w.spec[parent].root; x.spin = (unsigned)s.pick({0, 0, 100, 10000}); x.again = s.chance(1, 10); x.ask = s.chance(1, 4);
		w.spec.push_back(x); return w.spec.size() - 1;
	};
	for (size_t i = 0; i < roots; ++i) add(none, none);
	for (size_t i = 0; i < budget; ++i) {
		size_t p = s.flip() ? w.spec.size() - 1 : s.below(w.spec.size()); // deep or wide
		size_t to = p; if (s.chance(1, 4)) while (w.spec[to].to != none && s.flip()) to = w.spec[to].to; // counted as a subjob of a job further up
		if (s.chance(1, 15)) to = none; // not a subjob of anything
		size_t k = add(p, to); (s.flip() ? w.spec[p].before : w.spec[p].after).push_back(k);
		if (to == none) w.spec[k].root = k;
	}
	for (size_t k = 0; k < w.spec.size(); ++k) for (size_t a = w.spec[k].to; a != none; a = w.spec[a].to) w.spec[a].below.push_back(k);
	for (size_t k = 0; k < w.spec.size(); ++k) { w.jobs.push_back(std::make_unique<Job>()); w.jobs[k]->w = &w; w.jobs[k]->id = k; }
	if (s.chance(1, 3) || flood) { waits = s.below(std::min(roots, workers) + 1); for (size_t i = 0; i < waits; ++i) w.spec[i].gate = true; }
	const int rounds = (int)s.range(1, 3); const size_t enqueuers = s.range(1, 3), joiners = s.below(3); const u64 seed = s.raw(0); size_t ran = 0;
	c.trace("%zu workers, %zu jobs, %zu of them roots, %zu wait for a signal, %d rounds, %zu threads add jobs, %zu others wait for them", workers, w.spec.size(), roots, waits, rounds, enqueuers, joiners);
	for (w.round = 1; w.round <= rounds; ++w.round) {
		w.gate.open = false; w.gate.waiting = 0;
		for (auto & j : w.jobs) PBT_CHECK(c, j->is_done(), "job %zu is not done before it is added", j->id);
		for (size_t i = 0; i < waits; ++i) w.put(i);
		while (w.gate.waiting < (int)waits) usleep(20); // each holds one worker
		std::vector<std::thread> ts; std::atomic<size_t> next(waits); const bool all = waits == workers; // nobody but the adding threads can run jobs
		auto adder = [&]() { for (size_t k; (k = next++) < roots;) w.put(k); };
		for (size_t t = 1; t < enqueuers; ++t) ts.emplace_back(adder);
		adder(); for (auto & t : ts) t.join(); ts.clear();
		if (all && roots - waits > 128) { size_t n = 0; for (size_t k = waits; k < roots; ++k) n += w.jobs[k]->runs == w.round; PBT_CHECK(c, n > 0, "no job was run by the threads that add jobs to a full queue"); c.label("queue full"); }
		if (waits) PBT_CHECK(c, !w.jobs[0]->is_done(), "a job that is still running is done");
		for (size_t t = 0; t < joiners; ++t) ts.emplace_back([&, t]() { Rng r(seed + t); for (size_t i = 0; i < 5; ++i) { size_t k = r.below(roots); w.jobs[k]->join(); if (w.jobs[k]->runs != w.round || w.jobs[k]->dones != w.round) w.bad("waiting for job %zu returned before it was done (run %zu times)", k, w.jobs[k]->runs); for (size_t b : w.spec[k].below) if (w.jobs[b]->runs != w.round || w.jobs[b]->dones != w.round) w.bad("waiting for job %zu returned before its subjob %zu was done", k, b); } });
		if (waits) w.gate.release();
		for (size_t i = 0; i < roots; ++i) {
			size_t k = (i * 7919 + seed) % roots;
			w.jobs[k]->join();
			PBT_CHECK(c, w.jobs[k]->is_done(), "job %zu is not done after it was waited for", k);
			for (size_t b : w.spec[k].below) PBT_CHECK(c, w.jobs[b]->runs == w.round && w.jobs[b]->dones == w.round && w.jobs[b]->is_done(), "job %zu was waited for but its subjob %zu was run %d and reported done %d times in round %d", k, b, (int)w.jobs[b]->runs, (int)w.jobs[b]->dones, w.round);
		}
		for (size_t k = 0; k < w.spec.size(); ++k) { if (w.spec[k].to == none) w.jobs[k]->join(); }
		for (auto & t : ts) t.join();
		// jobs started by a job that is not a subjob of it are waited for in turn: by now everything has been run
		for (auto & j : w.jobs) PBT_CHECK(c, j->runs == w.round && j->dones == w.round && j->is_done(), "job %zu was run %d times and reported done %d times in round %d", j->id, (int)j->runs, (int)j->dones, w.round);
		{ std::lock_guard<std::mutex> l(w.em); PBT_CHECK(c, w.err.empty(), "%s", w.err.c_str()); }
		ran += w.jobs.size();
		if (w.round < rounds && s.flip()) { workers = s.range(std::max<size_t>(1, waits), 6); tpie::set_worker_count(workers); c.trace("now %zu workers", workers); c.label("workers changed"); }
	}
	static const size_t base = [&]() { usleep(50000); size_t g = threads_now(); return g - workers; }();
	PBT_CHECK(c, threads_become(base + workers, got), "%zu threads besides the %zu workers, %zu before", got - workers, workers, base);
	c.nontrivial(ran >= 4 && w.spec.size() > roots); if (waits) c.label("workers held"); if (rounds > 1) c.label("jobs used again"); if (enqueuers > 1) c.label("added from several threads"); c.labelf("%zu workers", workers);
	tpie::set_worker_count(workers0);
	res.expect_same(c, "afterwards");
}

// ---------------------------------------------------------------- lifecycle
struct Ser { u64 a; std::string b; template <typename D> friend void serialize(D & d, const Ser & x) { using tpie::serialize; serialize(d, x.a); serialize(d, x.b); } template <typename S> friend void unserialize(S & s, Ser & x) { using tpie::unserialize; unserialize(s, x.a); unserialize(s, x.b); } };
struct Mul : public tpie::job { std::vector<u64> * v; size_t a, b; void operator()() override { for (size_t i = a; i < b; ++i) (*v)[i] *= 3; } };

void scen_lifecycle(Src & s, Ctx & c) {
	const size_t fds = open_fds(), tmp = count_files(c.dir + "/tmp"); size_t got; static const size_t thr = []() { std::thread([]() {}).join(); usleep(50000); return threads_now(); }();
	static u64 serial = 0; const std::string root = c.dir + "/l" + std::to_string(serial++); mkdir(root.c_str(), 0700);
	tpie::log_bits::logging_disabled = true;
	struct F { bool ser; size_t bs; bool comp; std::vector<u64> v; }; std::map<std::string, F> files; const size_t lives = s.range(2, 5); size_t works = 0, kept = 0, odd = 0; size_t bs = 4096;
	u64 r0 = tpie::get_bytes_read(), w0 = tpie::get_bytes_written(); (void)r0; (void)w0;
	for (size_t life = 0; life < lives; ++life) {
		using namespace tpie; flags<subsystem> f = MEMORY_MANAGER | FILE_MANAGER;
		const bool streams = !s.chance(1, 6), jobs = s.flip(), progress = s.chance(2, 3), capture = s.chance(1, 6), tempf = true, logs = s.chance(1, 5);
		if (streams) f = f | STREAMS; if (jobs) f = f | JOB_MANAGER; if (progress) f = f | PROGRESS; if (capture) f = f | CAPTURE_FRACTIONS; if (tempf) f = f | TEMPFILE; if (logs) f = f | DEFAULT_LOGGING;
		bs = s.pick({size_t(4096), size_t(8192), size_t(16384)}); set_block_size(bs);
		c.trace("start %zu: block size %zu%s%s%s%s%s", life, bs, streams ? ", streams" : "", jobs ? ", jobs" : "", progress ? ", progress" : "", capture ? ", fractions captured" : "", logs ? ", log" : "");
		tpie_init(f); if (!streams || !jobs) ++odd;
		PBT_CHECK(c, get_block_size() == bs, "block size");
		PBT_CHECK(c, get_memory_manager().limit() == 0, "the memory limit is %zu at the start", get_memory_manager().limit()); get_memory_manager().set_limit(64u << 20); get_memory_manager().set_enforcement(memory_manager::ENFORCE_IGNORE);
		PBT_CHECK(c, get_file_manager().used() == 0, "%zu files in use at the start", get_file_manager().used());
		static std::map<std::pair<int, size_t>, size_t> atStart; const int key = streams + 2 * jobs + 4 * progress + 8 * capture + 16 * logs; auto st = atStart.insert({{key, bs}, get_memory_manager().used()}).first;
		PBT_CHECK(c, st->second == get_memory_manager().used(), "%zu bytes of memory in use after the start, %zu after an earlier start", get_memory_manager().used(), st->second);
		size_t lim = s.flip() ? 32 : 0;
		if (jobs) set_worker_count(s.range(1, 4));
		const size_t mem = get_memory_manager().used();
		if (lim) { get_file_manager().set_limit(lim); get_file_manager().set_enforcement(file_manager::ENFORCE_THROW); }
		while (s.more(4)) {
			Rng r = s.bulk(); size_t n = s.size(6000, 512), k = s.below(9); std::vector<u64> v(n); for (auto & x : v) x = r.below(n + 10); std::vector<u64> sorted = v; std::sort(sorted.begin(), sorted.end()); std::string p = root + "/" + std::string(1, (char)('a' + s.below(4)));
			if (k != 0 && k != 8 && !streams && k != 6) continue; if ((k == 5 || k == 7) && !progress) continue; ++works;
			switch (k) {
			case 0: if (jobs) { c.trace("jobs"); std::vector<Mul> js(5); std::vector<u64> want = v; for (auto & x : want) x *= 3; for (size_t i = 0; i < 5; ++i) { js[i].v = &v; js[i].a = n * i / 5; js[i].b = n * (i + 1) / 5; js[i].enqueue(); } for (auto & j : js) j.join(); PBT_CHECK(c, v == want, "jobs did something else"); } break;
			case 1: { c.trace("stream of %zu", n); file_stream<u64> t; t.open(s.flip() ? open::defaults : open::compression_all); for (u64 x : v) t.write(x); t.seek(0); for (u64 x : v) PBT_CHECK(c, t.read() == x, "stream"); break; }
			case 2: case 3: { // a named stream: written, extended or read again, perhaps in another life
				auto it = files.find(p); if (it == files.end() || it->second.ser) { ::unlink(p.c_str()); F x; x.ser = false; x.bs = bs; x.comp = s.flip(); x.v = v; c.trace("file %s of %zu", p.c_str(), n); file_stream<u64> t; t.open(p, open::write_only | (x.comp ? open::compression_all : open::defaults)); for (u64 y : v) t.write(y); t.close(); files[p] = x; break; }
				F & x = it->second; c.trace("file %s again, block size %zu", p.c_str(), x.bs); file_stream<u64> t; bool bad = false;
				try { t.open(p, s.flip() ? open::read_only : open::defaults); } catch (tpie::exception &) { bad = true; }
				if (x.bs != bs) { PBT_CHECK(c, bad, "a file with blocks of %zu bytes was opened with blocks of %zu bytes", x.bs, bs); c.label("other block size"); break; }
				PBT_CHECK(c, !bad, "%s can not be opened", p.c_str()); PBT_CHECK(c, t.size() == x.v.size(), "%s has %llu items, expected %zu", p.c_str(), (unsigned long long)t.size(), x.v.size());
				for (u64 y : x.v) PBT_CHECK(c, t.read() == y, "%s has changed", p.c_str()); ++kept;
				if (t.is_writable() && s.flip()) { for (u64 y : v) t.write(y); x.v.insert(x.v.end(), v.begin(), v.end()); if (x.v.size() > 20000) { t.truncate(0); x.v.clear(); } c.trace("now %zu", x.v.size()); }
				t.close(); break; }
			case 4: { auto it = files.find(p); // the same with serialized items
				if (it == files.end() || !it->second.ser) { ::unlink(p.c_str()); F x; x.ser = true; x.bs = 0; x.comp = false; x.v = v; c.trace("serialized file %s of %zu", p.c_str(), n); serialization_writer t; t.open(p); for (u64 y : v) { Ser e{y, std::string(y % 30, 'x')}; t.serialize(e); } t.close(); files[p] = x; break; }
				F & x = it->second; c.trace("serialized file %s again", p.c_str()); serialization_reader t; t.open(p); for (u64 y : x.v) { Ser e; t.unserialize(e); PBT_CHECK(c, e.a == y && e.b == std::string(y % 30, 'x'), "%s has changed", p.c_str()); } PBT_CHECK(c, !t.can_read(), "%s is longer", p.c_str()); ++kept; t.close(); break; }
			case 5: { c.trace("sort %zu", n); file_stream<u64> t; t.open(); for (u64 x : v) t.write(x); t.seek(0); { progress_indicator_null np; tpie::sort(t, np); } t.seek(0); for (u64 x : sorted) PBT_CHECK(c, t.read() == x, "sorted stream"); break; }
			case 6: if (jobs) { c.trace("parallel sort of %zu", n); parallel_sort_impl<std::vector<u64>::iterator, std::less<u64>, false, 64> ps(nullptr); ps(v.begin(), v.end()); PBT_CHECK(c, v == sorted, "parallel sort"); } break;
			case 7: if (jobs && progress) { c.trace("pipeline over %zu", n); std::vector<u64> out; { namespace p = pipelining; p::pipeline pl = p::input_vector(v) | p::sort() | p::output_vector(out); pl(); } PBT_CHECK(c, out == sorted, "pipeline"); }
				else if (progress) { c.trace("priority queue of %zu", n); priority_queue<u64> q(memory_size_type(8u << 20)); for (u64 x : v) q.push(x); for (u64 x : sorted) { PBT_CHECK(c, q.top() == x, "priority queue"); q.pop(); } } break;
			default: { c.trace("array of %zu", n); auto * a = tpie_new_array<u64>(n); array<u64> b(n); std::copy(v.begin(), v.end(), b.begin()); PBT_CHECK(c, get_memory_manager().used() == mem + 2 * n * 8, "%zu bytes in use, expected %zu", get_memory_manager().used() - mem, 2 * n * 8); std::copy(b.begin(), b.end(), a); PBT_CHECK(c, std::equal(v.begin(), v.end(), a), "array"); tpie_delete_array(a, n); }
			}
			PBT_CHECK(c, get_memory_manager().used() == mem, "%zu bytes more in use than at the start", get_memory_manager().used() - mem);
			PBT_CHECK(c, get_file_manager().used() == 0, "%zu files in use", get_file_manager().used());
		}
		if (capture) c.label("fractions captured"); if (logs) c.label("default log");
		std::string logPath = logs ? log_name() : ""; if (logs) PBT_CHECK(c, file_exists(logPath), "no log file %s", logPath.c_str());
		c.trace("finish");
		tpie_finish(f);
		PBT_CHECK(c, threads_become(thr, got), "%zu threads after the library was stopped, %zu before it was started", got, thr);
		PBT_CHECK(c, open_fds() == fds, "%zu open files after the library was stopped, %zu before it was started", open_fds(), fds);
		PBT_CHECK(c, count_files(c.dir + "/tmp") == tmp, "%zu temporary files after the library was stopped, %zu before it was started", count_files(c.dir + "/tmp"), tmp);
		for (auto & x : files) PBT_CHECK(c, file_exists(x.first), "%s was removed", x.first.c_str());
	}
	c.nontrivial(works >= 2); if (kept) c.label("file of an earlier run"); if (odd) c.label("some subsystems"); c.labelf("%zu times", lives);
	pbt::rm_rf(root);
}
}

int main(int argc, char ** argv) {
	pbt::Suite su;
	su.property = "C20";
	su.rule = "jobs: four jobs run, one of them added by another job; lifecycle: two pieces of work";
	su.scenarios = {
		{"jobs", scen_jobs, 4000, 80000, 32, 30},
		{"lifecycle", scen_lifecycle, 3000, 50000, 24, 60},
	};
	return pbt::main_loop(argc, argv, su);
}
