// Failing and short system calls under streams: errors are reported, nothing crashes, hangs, leaks or is silently lost.
#define TV_DEFINE_WRAPS
#include "faults.h"
#include <tpie/file_stream.h>
#include <tpie/uncompressed_stream.h>
#include <tpie/file.h>
#include <tpie/serialization_stream.h>
#include <tpie/serialization_sorter.h>
#include <tpie/sort.h>
#include <tpie/priority_queue.h>
#include <tpie/stack.h>
#include <tpie/queue.h>
#include <tpie/btree.h>
using namespace tv;
static const size_t BATCH = 16;

struct fault_plan {
	Src & s; Ctx & c; bool shorten; unsigned kinds; int err; bool persistent; long after;
	fault_plan(Src & s, Ctx & c, bool seeks = true) : s(s), c(c) {
		shorten = s.chance(1, 4); persistent = false; after = 0; err = 0; kinds = 0;
		if (shorten) { kinds = F_READ | F_WRITE; c.trace("reads and writes are cut short"); }
		else {
			err = s.pick({EIO, ENOSPC}); kinds = s.pick({(unsigned)F_WRITE, (unsigned)F_READ, (unsigned)(F_READ | F_WRITE | F_TRUNC | F_OPEN | F_CLOSE), (unsigned)F_TRUNC, (unsigned)F_OPEN, (unsigned)F_CLOSE, (unsigned)F_SEEK});
			if (err == ENOSPC) kinds = s.pick({(unsigned)F_WRITE, (unsigned)F_WRITE, (unsigned)(F_WRITE | F_OPEN | F_TRUNC), (unsigned)F_OPEN}); if (!seeks) kinds &= ~(unsigned)F_SEEK;
			after = (long)(s.flip() ? s.below(6) : s.below(60)); persistent = s.flip();
			c.trace("call %ld of kinds %u fails with %s%s", after, kinds, err == EIO ? "EIO" : "ENOSPC", persistent ? ", and all following ones" : "");
		}
	}
	void arm() { auto & f = faults(); std::lock_guard<std::recursive_mutex> l(f.m); f.kinds = kinds; f.countdown = after; f.err = err; f.persistent = persistent; f.shorten = shorten; f.rng = Rng(after + 7); f.fired = 0; f.calls = 0; f.shortened = 0; f.armed = true; }
	void pause() { std::lock_guard<std::recursive_mutex> l(faults().m); faults().armed = false; }
	bool fired() { return faults().fired != 0; }
	~fault_plan() { faults().reset(); }
};
// Runs one operation. Returns false if it reported an I/O error.
template <typename F> static bool attempt(Ctx & c, fault_plan & p, const char * what, F f) {
	unsigned before = faults().fired;
	try { f(); return true; }
	catch (const pbt::Fail &) { throw; }
	catch (const tpie::end_of_stream_exception &) { c.fail("%s: unexpected end of stream", what); }
	catch (const tpie::exception & e) {
		bool fired = p.fired(); c.trace("%s throws: %s", what, e.what());
		PBT_CHECK(c, fired, "%s threw \"%s\" although no system call had failed", what, e.what());
		if (p.err == ENOSPC && before == 0 && std::string(e.what()).find("not closed properly") == std::string::npos) PBT_CHECK(c, dynamic_cast<const tpie::out_of_space_exception *>(&e), "%s: running out of space was not reported as such (\"%s\")", what, e.what());
		c.label("error reported"); return false;
	}
}

template <typename S> struct opener;
template <typename T> struct opener<tpie::file_stream<T>> {
	static void open(tpie::file_stream<T> & x, const std::string & p, bool ro, unsigned how) { tpie::open::type f = ro ? tpie::open::read_only : tpie::open::defaults; if (how == 1) f = f | tpie::open::compression_normal; if (how == 2) f = f | tpie::open::compression_all; x.open(p, f, 64); }
	static const bool user = true;
};
template <typename T> struct opener<tpie::uncompressed_stream<T>> {
	static void open(tpie::uncompressed_stream<T> & x, const std::string & p, bool ro, unsigned) { x.open(p, ro ? tpie::access_read : tpie::access_read_write, 64); }
	static const bool user = true;
};
template <typename S> static void back(S & x, uint64_t & v, int) { v = x.read_back(); }
typedef tpie::file_stream<uint64_t> FS; typedef tpie::uncompressed_stream<uint64_t> US;
static void truncate_some(Src & s, FS & x, std::vector<uint64_t> & m, bool comp) { size_t to = comp ? 0 : s.below(m.size() + 1); x.truncate(to); m.resize(to); }
static void truncate_some(Src & s, US & x, std::vector<uint64_t> & m, bool) { size_t to = s.below(m.size() + 1); x.truncate(to); m.resize(to); }

template <typename S> static void stream_history(Src & s, Ctx & c, unsigned how) {
	std::string path = c.dir + "/tmp/s"; { std::lock_guard<std::recursive_mutex> l(faults().m); faults().dir = c.dir + "/tmp/"; } Resources res(c.dir); bool nontrivial = false;
	{
		fault_plan p(s, c); std::vector<uint64_t> m, clean; uint64_t pos = 0, n0 = 1; bool isOpen = false, ro = false, lost = false, exists = false; std::string user, cleanUser; bool touched = false, usedAfter = false;
		std::unique_ptr<S> x(new S(s.pick({1.0, 1.0, 2.0}))); size_t keep = s.below(40);
		{ opener<S>::open(*x, path, false, how); exists = true; for (size_t i = 0; i < keep; ++i) { x->write(n0); m.push_back(n0++); } x->close(); clean = m; c.trace("%zu items, then faults", keep); }
		p.arm();
		// `lost`: an error was reported, so the model no longer knows the stream
		while (!lost && s.more(20)) {
			auto step = [&](const char * what, std::function<void()> f) { c.trace("%s", what); if (!attempt(c, p, what, f)) lost = true; };
			if (!isOpen) { ro = s.chance(1, 4); step(ro ? "open read-only" : "open", [&] { opener<S>::open(*x, path, ro, how); }); if (!lost) { isOpen = true; pos = 0; touched = touched || !ro; PBT_CHECK(c, x->size() == m.size(), "size is %llu after reopening, expected %zu", (unsigned long long)x->size(), m.size()); } continue; }
			switch (s.weighted({6, 5, 3, 3, 1, 2, 2})) {
			case 0: if (!ro) { size_t k = 1 + s.size(60, 8); step("append", [&] { if (pos != m.size()) { x->seek(0, S::end); pos = m.size(); } for (size_t i = 0; i < k; ++i) { x->write(n0); m.push_back(n0++); ++pos; } }); } break;
			case 1: { size_t k = 1 + s.size(60, 8); step("read", [&] { for (size_t i = 0; i < k && pos < m.size(); ++i) { uint64_t v = x->read(); PBT_CHECK(c, v == m[pos], "item %llu is %llu, expected %llu", (unsigned long long)pos, (unsigned long long)v, (unsigned long long)m[pos]); ++pos; } }); break; }
			case 2: { size_t k = 1 + s.size(60, 8); step("read_back", [&] { for (size_t i = 0; i < k && pos; ++i) { uint64_t v = x->read_back(); --pos; PBT_CHECK(c, v == m[pos], "item %llu is %llu, expected %llu", (unsigned long long)pos, (unsigned long long)v, (unsigned long long)m[pos]); } }); break; }
			case 3: step("seek", [&] { if (how) { if (s.flip()) { x->seek(0); pos = 0; } else { x->seek(0, S::end); pos = m.size(); } } else { uint64_t to = s.below(m.size() + 1); x->seek((int64_t)to); pos = to; } }); break;
			case 4: if (!ro) step("truncate", [&] { truncate_some(s, *x, m, how != 0); pos = x->offset(); PBT_CHECK(c, pos <= m.size(), "position after truncating"); }); break;
			case 5: if (!ro) { std::string u(s.below(65), (char)('a' + s.below(26))); step("write user data", [&] { user = u; x->write_user_data(u.data(), u.size()); }); } else { step("read user data", [&] { char b[64]; size_t n = x->read_user_data(b, 64); PBT_CHECK(c, std::string(b, n) == user, "the user data is wrong"); }); } break;
			default: step("close", [&] { x->close(); }); if (!lost) { isOpen = false; unsigned f = faults().fired; PBT_CHECK(c, f == 0 || p.kinds == F_SEEK, "a system call failed, but the stream was closed without an error"); clean = m; cleanUser = user; }
			}
		}
		bool silent = p.fired() && !lost;
		if (!lost && isOpen) { c.trace("close"); if (!attempt(c, p, "close", [&] { x->close(); })) lost = true; else { PBT_CHECK(c, !p.fired(), "a system call failed, but the stream was closed without an error"); clean = m; cleanUser = user; isOpen = false; } }
		(void)silent;
		if (lost) {
			c.label("failed"); nontrivial = true;
			size_t more = s.below(4); c.trace("then %zu more, open %d", more, (int)x->is_open()); // using it further may fail, but does no harm
			for (size_t i = 0; i < more; ++i) try { switch (s.below(5)) { case 0: if (x->is_open()) { usedAfter = true; x->write((uint64_t)1); } break; case 1: if (x->is_open() && x->can_read()) x->read(); break; case 2: if (x->is_open()) x->seek(0); break; case 3: if (x->is_open() && x->offset() > 0) x->read_back(); break; default: if (x->is_open()) x->size(); } } catch (const tpie::exception &) {}
			switch (s.below(2)) { case 0: try { x->close(); } catch (const tpie::exception &) {} PBT_CHECK(c, !x->is_open(), "the stream is still open after close()"); p.pause(); if (s.flip()) { std::string p2 = path + "2"; opener<S>::open(*x, p2, false, how); for (int i = 0; i < 40; ++i) x->write((uint64_t)i); x->seek(0); for (int i = 0; i < 40; ++i) PBT_CHECK(c, x->read() == (uint64_t)i, "the stream object cannot be used for another file"); x->close(); unlink(p2.c_str()); } break; default: try { x->close(); } catch (const tpie::exception &) {} x.reset(); } // (the destructor aborts the process when it must drop data)
			p.pause();
		} else if (p.shorten) nontrivial = nontrivial || faults().shortened > 2;
		p.pause(); x.reset();
		// what is on disk now is complete or refused
		if (exists) {
			S y(1.0); S z(2.0); bool ok = false; std::vector<uint64_t> got; std::string u;
			for (S * w : {&y, &z}) try { opener<S>::open(*w, path, true, how); ok = true; for (size_t i = 0, n = w->size(); i < n; ++i) got.push_back(w->read()); char b[64]; u.assign(b, w->read_user_data(b, 64)); w->close(); break; } catch (const tpie::exception &) {}
			if (!lost) PBT_CHECK(c, ok, "the closed file cannot be opened");
			if (ok && !lost) PBT_CHECK(c, got == clean && u == cleanUser, "the closed file has %zu items and %zu bytes of user data, expected %zu and %zu, or other ones", got.size(), u.size(), clean.size(), cleanUser.size());
			if (ok && lost && !usedAfter) { c.label("file accepted after a failure"); PBT_CHECK(c, got == clean || got == m, "after a failure a file with %zu items was accepted as complete, it had %zu when closed and %zu when it failed", got.size(), clean.size(), m.size()); }
		}
		unlink(path.c_str());
	}
	c.nontrivial(nontrivial);
	res.expect_same(c, "after closing the stream");
}
static void plain(Src & s, Ctx & c) { stream_history<FS>(s, c, 0); }
static void compressed(Src & s, Ctx & c) { stream_history<FS>(s, c, 1 + (unsigned)s.below(2)); }
static void legacy(Src & s, Ctx & c) { stream_history<US>(s, c, 0); }
static std::string text(uint64_t i, size_t len) { std::string r(len, (char)('a' + i % 26)); for (size_t j = 0; j < len; j += 1 + j / 8) r[j] = (char)(i >> (j % 5)); return r; }
// serialization streams: values of up to a megabyte in blocks of two
template <typename W, typename R> static void serialization_history(Src & s, Ctx & c, bool reverse) {
	std::string path = c.dir + "/tmp/s"; { std::lock_guard<std::recursive_mutex> l(faults().m); faults().dir = c.dir + "/tmp/"; } Resources res(c.dir); bool nontrivial = false;
	{
		fault_plan p(s, c); p.after %= 12; std::vector<std::string> m; bool lost = false, closed = false; std::unique_ptr<W> w(new W); std::unique_ptr<R> r(new R);
		auto step = [&](const char * what, std::function<void()> f) { if (!lost) { c.trace("%s", what); if (!attempt(c, p, what, f)) lost = true; } };
		bool faultWrite = s.flip(); if (faultWrite) p.arm();
		size_t n = s.below(14), big = s.pick({1u << 20, 3u << 20, 100u});
		bool openedW = false; step("open for writing", [&] { w->open(path); openedW = true; });
		for (size_t i = 0; i < n && !lost; ++i) { std::string t = text(i, s.below(big)); step("write", [&] { w->serialize(t); m.push_back(t); }); }
		if (lost && openedW && s.flip()) { c.trace("write more"); size_t k = s.below(4); for (size_t i = 0; i < k; ++i) try { w->serialize(text(9, s.below(big))); } catch (const tpie::exception &) {} }
		unsigned before = faults().fired;
		if (lost && s.flip()) { c.trace("destroy the writer"); p.pause(); w.reset(); }
		else if (lost) { c.trace("close"); try { w->close(); } catch (const tpie::exception &) {} }
		else { step("close", [&] { w->close(); closed = true; }); if (closed) PBT_CHECK(c, !p.fired() || p.kinds == F_SEEK, "a system call failed, but the stream was closed without an error"); }
		(void)before;
		bool failedWrite = lost; if (lost) { nontrivial = true; c.label("failed writing"); }
		if (w && lost && s.flip()) { p.pause(); std::string p2 = path + "2"; w->open(p2); w->serialize(std::string("x")); w->close(); R q; q.open(p2); std::string x; q.unserialize(x); PBT_CHECK(c, x == "x", "the writer cannot be used for another file"); q.close(); unlink(p2.c_str()); }
		if (!faultWrite) p.arm(); else if (s.flip()) p.pause();
		lost = false; bool opened = false; size_t i = 0;
		if (!failedWrite) {
			step("open for reading", [&] { r->open(path); opened = true; });
			size_t tries = 0;
			auto expect = [&](size_t k) -> const std::string & { return m[reverse ? m.size() - 1 - k : k]; };
			while (opened && i < m.size() && !lost) step("read", [&] { std::string x; r->unserialize(x); PBT_CHECK(c, x == expect(i), "value %zu has %zu bytes, expected %zu, or other ones", i, x.size(), expect(i).size()); ++i; });
			if (!lost && opened) PBT_CHECK(c, !r->can_read(), "values left over");
			if (lost) { nontrivial = true; c.label("failed reading"); }
			// what is read after an error is from the stream: a new reader finds everything
			if (lost && s.flip()) { p.pause(); c.trace("read on after the error"); try { if (opened) while (++tries < 20000) { char x; r->unserialize(x); } } catch (const tpie::exception &) {} } // (it may have stopped inside a value)
			p.pause(); try { r->close(); } catch (const tpie::exception &) {}
			R q; q.open(path); for (i = 0; i < m.size(); ++i) { std::string x; q.unserialize(x); PBT_CHECK(c, x == expect(i), "a second reader reads a wrong value %zu", i); } PBT_CHECK(c, !q.can_read(), "values left over"); q.close();
		} else {
			p.pause(); R q; bool ok = false; try { q.open(path); ok = true; } catch (const tpie::exception &) {}
			if (ok && p.kinds != F_CLOSE && !(p.kinds & F_CLOSE)) c.fail("a stream whose writing failed was opened as a complete one");
			if (ok) { c.label("accepted after a failing close"); std::vector<std::string> got; while (q.can_read()) { std::string x; q.unserialize(x); got.push_back(x); } if (reverse) std::reverse(got.begin(), got.end()); PBT_CHECK(c, got == m, "a stream whose writing failed was opened as a complete one"); q.close(); }
		}
		p.pause(); w.reset(); r.reset(); if (p.shorten) nontrivial = nontrivial || faults().shortened > 2; unlink(path.c_str());
	}
	c.nontrivial(nontrivial);
	res.expect_same(c, "after closing the streams");
}
static void serialization(Src & s, Ctx & c) { if (s.flip()) serialization_history<tpie::serialization_writer, tpie::serialization_reader>(s, c, false); else serialization_history<tpie::serialization_reverse_writer, tpie::serialization_reverse_reader>(s, c, true); }

// external algorithms and containers: the error reaches the caller, or the result is right; nothing is left behind
static void algorithms(Src & s, Ctx & c) {
	{ std::lock_guard<std::recursive_mutex> l(faults().m); faults().dir = c.dir + "/tmp/"; } Resources res(c.dir); bool nontrivial = false;
	{
		fault_plan p(s, c); if (s.flip()) p.after = p.after * 7; unsigned what = (unsigned)s.weighted({4, 3, 2, 2, 2}); Rng g = s.bulk(); bool ok = false;
		static const char * nm[] = {"merge_sorter", "priority_queue", "stack", "queue", "serialization_sorter"}; c.trace("%s", nm[what]); c.label(nm[what]);
		std::vector<uint64_t> in, out; size_t n = s.size(3000, 300); for (size_t i = 0; i < n; ++i) in.push_back(g.next());
		switch (what) {
		case 0: ok = attempt(c, p, "sorting", [&] { tpie::merge_sorter<uint64_t, false> so; so.set_parameters(1 + s.size(60, 8), s.pick({2, 3, 4, 7})); bool ev = s.flip(); p.arm(); tpie::dummy_progress_indicator d; so.begin(); for (auto v : in) so.push(uint64_t(v)); so.end(); if (ev) so.evacuate(); so.calc(d); while (so.can_pull()) out.push_back(so.pull()); }); std::sort(in.begin(), in.end()); break;
		case 1: { size_t mem = 40000; std::unique_ptr<tpie::priority_queue<uint64_t>> pq; for (;; mem += mem / 4) try { pq.reset(new tpie::priority_queue<uint64_t>((tpie::memory_size_type)mem, 1.0f)); break; } catch (const std::exception &) {} p.arm();
			ok = attempt(c, p, "using the priority queue", [&] { for (auto v : in) { pq->push(v); if (v % 5 == 0) { out.push_back(pq->top()); pq->pop(); } } std::vector<uint64_t> rest; while (!pq->empty()) { rest.push_back(pq->top()); pq->pop(); } PBT_CHECK(c, std::is_sorted(rest.begin(), rest.end()), "popped out of order"); out.insert(out.end(), rest.begin(), rest.end()); pq.reset(); });
			p.pause(); pq.reset(); std::sort(in.begin(), in.end()); std::sort(out.begin(), out.end()); break; }
		case 2: { std::unique_ptr<tpie::stack<uint64_t>> st; ok = attempt(c, p, "using the stack", [&] { p.arm(); st.reset(new tpie::stack<uint64_t>(1.0)); for (auto v : in) { st->push(v); if (v % 4 == 0) { PBT_CHECK(c, st->pop() == v, "popped a wrong item"); out.push_back(v); } } std::vector<uint64_t> rest; while (!st->empty()) rest.push_back(st->pop()); out.insert(out.end(), rest.rbegin(), rest.rend()); }); p.pause(); st.reset(); std::sort(in.begin(), in.end()); std::sort(out.begin(), out.end()); break; }
		case 3: { std::unique_ptr<tpie::queue<uint64_t>> q; ok = attempt(c, p, "using the queue", [&] { p.arm(); q.reset(new tpie::queue<uint64_t>()); for (auto v : in) { q->push(v); if (v % 4 == 0) out.push_back(q->pop()); } while (!q->empty()) out.push_back(q->pop()); }); p.pause(); q.reset(); break; }
		default: { std::vector<std::string> a, b; for (auto v : in) a.push_back(text(v, v % 40)); { std::unique_ptr<tpie::serialization_sorter<std::string>> so(new tpie::serialization_sorter<std::string>()); so->set_available_memory(so->minimum_memory_phase_1(), so->minimum_memory_phase_2() + (4u << 20), so->minimum_memory_phase_3() + (4u << 20));
			ok = attempt(c, p, "sorting", [&] { p.arm(); so->begin(); for (auto & v : a) so->push(v); so->end(); tpie::dummy_progress_indicator d; if (s.flip()) so->evacuate(); so->merge_runs(); while (so->can_pull()) b.push_back(so->pull()); }); p.pause(); }
			std::sort(a.begin(), a.end()); if (ok) PBT_CHECK(c, a == b, "sorted %zu strings, got %zu or other ones", a.size(), b.size()); in.clear(); out.clear(); }
		}
		p.pause();
		if (ok) { PBT_CHECK(c, in == out, "%s: no error, but the result is wrong: %zu items, expected %zu, or other ones", nm[what], out.size(), in.size()); if (p.fired()) { nontrivial = true; c.label("failure without consequences"); } else if (p.shorten) nontrivial = faults().shortened > 2; }
		else { nontrivial = true; c.label("failed"); }
	}
	c.nontrivial(nontrivial);
	res.expect_same(c, "after destroying it");
}
// serialized B-trees are written and read through std::fstream
static void btree(Src & s, Ctx & c) {
	typedef tpie::bbits::Opt<tpie::bbits::f_static | tpie::bbits::f_serialized | tpie::bbits::f_unordered, 3, 4, 0, tpie::default_comp, tpie::identity_key, tpie::empty_augmenter> O; typedef tpie::bbits::tree<uint64_t, O> tree; typedef tpie::bbits::builder<uint64_t, O> builder;
	std::string path = c.dir + "/tmp/t"; { std::lock_guard<std::recursive_mutex> l(faults().m); faults().dir = c.dir + "/tmp/"; } Resources res(c.dir); bool nontrivial = false;
	{
		fault_plan p(s, c); if (p.kinds == F_TRUNC || (p.err == ENOSPC && !p.shorten)) p.kinds = F_WRITE; p.after %= 8; Rng g = s.bulk(); std::vector<uint64_t> m(s.size(6000, 500)); for (auto & x : m) x = g.next(); std::string meta(s.below(3000), 'm'); bool built = false, faultWrite = s.flip(); std::unique_ptr<tree> t; bool lost = false;
		tpie::btree_flags fl = s.pick({tpie::compress_none, tpie::compress_lz4, tpie::compress_snappy}); c.trace("%zu items, %zu bytes of metadata", m.size(), meta.size());
		if (faultWrite) p.arm();
		lost = !attempt(c, p, "building", [&] { builder b(path, tpie::default_comp(), tpie::empty_augmenter(), fl); for (auto x : m) b.push(x); t.reset(new tree(b.build(meta))); built = true; });
		if (built && faultWrite) PBT_CHECK(c, !p.fired() || p.kinds == F_SEEK, "a system call failed, but the tree was built without an error");
		p.pause(); bool failed = lost; if (failed) { nontrivial = true; c.label("failed building"); }
		auto all = [&](tree & x) { PBT_CHECK(c, x.size() == m.size(), "the tree has %zu items, expected %zu", (size_t)x.size(), m.size()); PBT_CHECK(c, x.get_metadata() == meta, "the metadata is wrong"); size_t i = 0; auto e = x.end(); for (auto j = x.begin(); j != e; ++j, ++i) PBT_CHECK(c, i < m.size() && *j == m[i], "item %zu is wrong", i); PBT_CHECK(c, i == m.size(), "%zu items found", i); };
		if (!failed) {
			bool again = s.flip(); lost = false;
			if (!faultWrite) p.arm();
			if (again) lost = !attempt(c, p, "opening", [&] { t.reset(); t.reset(new tree(path)); });
			size_t n = s.below(3); for (size_t i = 0; i < n && !lost; ++i) lost = !attempt(c, p, "reading", [&] { all(*t); });
			p.pause(); if (lost) { nontrivial = true; c.label("failed reading"); if (t && s.flip()) { c.trace("read it again"); all(*t); } }
			if (p.shorten && faults().shortened > 2) nontrivial = true;
		}
		t.reset();
		if (!failed) { tree x(path); all(x); }
		else { bool ok = false; try { t.reset(new tree(path)); ok = true; } catch (const tpie::exception &) {} if (ok) { c.label("accepted after a failing build"); PBT_CHECK(c, p.kinds & (F_CLOSE | F_OPEN | F_SEEK), "a tree whose building failed was opened as a complete one"); all(*t); t.reset(); } }
		unlink(path.c_str());
	}
	c.nontrivial(nontrivial);
	res.expect_same(c, "after destroying it");
}
static void setup(const std::string &) { init_tpie(64, 256u << 20, false); }
int main(int argc, char ** argv) {
	pbt::Suite su; su.property = "C12"; su.setup = setup;
	su.rule = "random histories on streams in which one system call (read, write, truncate, open, close, seek), or all from some point on, fails with EIO or ENOSPC, or reads and writes transfer fewer bytes than asked; non-trivial: an error was reported, or several calls were cut short";
	su.scenarios.push_back({"plain", plain, 8000, 100000, BATCH});
	su.scenarios.push_back({"compressed", compressed, 8000, 100000, BATCH});
	su.scenarios.push_back({"legacy", legacy, 6000, 60000, BATCH});
	su.scenarios.push_back({"serialization", serialization, 800, 8000, BATCH});
	su.scenarios.push_back({"algorithms", algorithms, 4000, 40000, BATCH});
	su.scenarios.push_back({"btree", btree, 3000, 30000, BATCH});
	return pbt::main_loop(argc, argv, su);
}
