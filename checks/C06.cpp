// Sorting: merge_sorter, tpie::sort, ami::sort and parallel_sort against std::sort.
#include "common.h"
#include <tpie/sort.h>
#include <tpie/parallel_sort.h>
#include <tpie/internal_sort.h>
#include <tpie/mergeheap.h>
#include <tpie/sort_manager.h>
#include <tpie/job.h>
#include <tpie/stats.h>
#include <map>
using namespace tv;
static const size_t BATCH = 12;
static size_t block_for(uint64_t index) { static const size_t t[] = {64, 128, 512, 1024, 4096, 32768}; return t[(index / BATCH) % 6]; }

template <size_t N> struct rec { // key in the first 4 bytes, identity in the next 4, then filler derived from both
	uint32_t key, id; unsigned char fill[N - 8];
	static rec make(uint32_t k, uint32_t i) { rec r; r.key = k; r.id = i; for (size_t j = 0; j < N - 8; ++j) r.fill[j] = (unsigned char)(k * 31 + i * 7 + j); return r; }
	bool operator<(const rec & o) const { return key < o.key; }
	bool operator==(const rec & o) const { return memcmp(this, &o, sizeof(*this)) == 0; }
};
template <> struct rec<8> {
	uint32_t key, id;
	static rec make(uint32_t k, uint32_t i) { rec r; r.key = k; r.id = i; return r; }
	bool operator<(const rec & o) const { return key < o.key; }
	bool operator==(const rec & o) const { return key == o.key && id == o.id; }
};
template <typename T> struct bykey { // stateful comparator: ascending or descending by masked key
	bool desc; uint32_t mask;
	bool operator()(const T & a, const T & b) const { return desc ? (b.key & mask) < (a.key & mask) : (a.key & mask) < (b.key & mask); }
	int compare(const T & a, const T & b) const { return (*this)(a, b) ? -1 : (*this)(b, a) ? 1 : 0; }
};

template <typename T> static std::vector<T> gen_items(Src & s, Ctx & c, size_t n) {
	std::vector<T> v; v.reserve(n); Rng g = s.bulk(); uint32_t range = s.pick({4u, 1u, 100u, 1000000u, 0u});
	unsigned shape = (unsigned)s.below(6); static const char * nm[] = {"random", "increasing", "decreasing", "organ pipe", "runs", "mostly sorted"};
	for (size_t i = 0; i < n; ++i) {
		uint32_t k;
		switch (shape) {
		case 0: k = range ? (uint32_t)g.below(range) : (uint32_t)g.next(); break;
		case 1: k = (uint32_t)i; break;
		case 2: k = (uint32_t)(n - i); break;
		case 3: k = (uint32_t)(i < n / 2 ? i : n - i); break;
		case 4: k = (uint32_t)(i % 97); break;
		default: k = g.below(20) ? (uint32_t)i : (uint32_t)g.below(n + 1);
		}
		v.push_back(T::make(k, (uint32_t)i));
	}
	c.trace("%zu items, %s, keys below %u", n, nm[shape], range);
	return v;
}
// out is a permutation of in, ordered by pred
template <typename T, typename P> static void check_sorted(Ctx & c, std::vector<T> in, std::vector<T> out, const P & pred, const char * what) {
	PBT_CHECK(c, in.size() == out.size(), "%s: %zu items, expected %zu", what, out.size(), in.size());
	for (size_t i = 1; i < out.size(); ++i) PBT_CHECK(c, !pred(out[i], out[i - 1]), "%s: items %zu and %zu of %zu are out of order (keys %u, %u)", what, i - 1, i, out.size(), out[i - 1].key, out[i].key);
	auto byid = [](const T & a, const T & b) { return a.id < b.id; };
	std::sort(in.begin(), in.end(), byid); std::sort(out.begin(), out.end(), byid);
	for (size_t i = 0; i < in.size(); ++i) PBT_CHECK(c, in[i] == out[i], "%s: the output is not a permutation of the input near id %u (got id %u)", what, in[i].id, out[i].id);
}

struct probe : public tpie::progress_indicator_base { // watches resource use inside calc()
	size_t mem = 0, files = 0; bool isInit = false, isDone = false; tpie::stream_size_type steps = 0;
	void init(tpie::stream_size_type range = 0) override { isInit = true; tpie::progress_indicator_base::init(range); look(); }
	void done() override { isDone = true; look(); }
	void refresh() override { look(); }
	void look() { mem = std::max(mem, (size_t)tpie::get_memory_manager().used()); files = std::max(files, (size_t)tpie::get_file_manager().used()); }
	probe() : tpie::progress_indicator_base(0) {}
};

enum { ST_DEFAULT, ST_UPTR };
template <typename T, typename Store> struct conv { typedef T outer; static T in(const T & t) { return t; } static T out(T t) { return t; } };
template <typename T> struct conv<T, tpie::explicit_tpie_unique_pointer_store> { typedef tpie::unique_ptr<T> outer; static outer in(const T & t) { return outer(tpie::tpie_new<T>(t)); } static T out(outer t) { return *t; } };
template <typename T> struct conv<T, tpie::explicit_tpie_pointer_store> { typedef T * outer; static outer in(const T & t) { return tpie::tpie_new<T>(t); } static T out(outer t) { T r = *t; tpie::tpie_delete(t); return r; } };

template <size_t N, typename Store> static void sorter_case(Src & s, Ctx & c) {
	typedef rec<N> T; typedef conv<T, Store> C; typedef tpie::merge_sorter<typename C::outer, true, bykey<T>, Store> sorter_t;
	size_t bs = block_for(c.index); init_tpie(bs); if (bs < N) { bs = N; }
	if (tpie::get_block_size() < N) { c.trace("item larger than block; skipped"); return; }
	Resources res(c.dir);
	size_t base = tpie::get_memory_manager().used(), fbase = tpie::get_file_manager().used();
	bool external = false, multi = false, special = false;
	{
		bykey<T> pred{s.chance(1, 3), s.pick({~0u, 7u, 0u})};
		sorter_t so(pred);
		size_t run = 0, fan = 0, n; size_t mlim[3] = {0, 0, 0}, flim[3] = {0, 0, 0};
		bool manual = s.weighted({3, 1}) == 0;
		if (manual) {
			run = 1 + s.size(60, 8); fan = s.pick({2, 3, 4, 7}); so.set_parameters(run, fan);
			n = s.size(run * 40, run); if (s.chance(1, 8)) { n = run * fan * fan * s.below(3) + s.below(3); if (n > 3000) n = 3000; }
			c.trace("run length %zu, fanout %zu", run, fan);
		} else {
			size_t mn1 = so.minimum_memory_phase_1(), mn = so.minimum_memory_phase_2();
			auto f = [&] { return s.pick({5, 6, 7, 8, 10, 20, 250, 3000}); };
			if (s.flip()) { flim[0] = flim[1] = flim[2] = (size_t)f(); so.set_available_files(flim[0]); }
			else { flim[0] = (size_t)s.pick({5, 1, 2}); flim[1] = (size_t)f(); flim[2] = (size_t)f(); if (s.flip()) so.set_available_files(flim[0], flim[1], flim[2]); else { so.set_phase_1_files(flim[0]); so.set_phase_2_files(flim[1]); so.set_phase_3_files(flim[2]); } }
			auto m = [&](size_t lo) { size_t r = 0; switch (s.weighted({4, 2, 2, 1})) { case 0: r = lo; break; case 1: r = lo + s.below(lo); break; case 2: r = lo + 200000 + s.below(400000); break; default: r = s.below(lo + 1); } return r; };
			if (s.flip()) { mlim[0] = mlim[1] = mlim[2] = m(std::max(mn1, mn)); so.set_available_memory(mlim[0]); }
			else { mlim[0] = m(mn1); mlim[1] = m(mn); mlim[2] = m(mn); if (s.flip()) so.set_available_memory(mlim[0], mlim[1], mlim[2]); else { so.set_phase_1_memory(mlim[0]); so.set_phase_2_memory(mlim[1]); so.set_phase_3_memory(mlim[2]); } }
			n = s.size(N > 100 ? 3000 : 60000, 20000); if (N > 16 && n > 20000) n = 20000;
			if (s.chance(1, 4)) { // many runs, wide merging, and a narrow last phase
				mlim[0] = mn1; mlim[1] = mn + 400000 + s.below(3000000); mlim[2] = mn + s.pick({0, 3000000}) + s.below(mn); so.set_available_memory(mlim[0], mlim[1], mlim[2]);
				flim[0] = 5; flim[1] = s.pick({20, 9, 60}); flim[2] = s.pick({5, 6, 7, 10, 60}); so.set_available_files(flim[0], flim[1], flim[2]);
				n = 140000 * (4 + s.below(13)) / N; if (n > 60000) n = 60000; c.label("many runs");
			}
			c.trace("memory %zu, %zu, %zu bytes, files %zu, %zu, %zu", mlim[0], mlim[1], mlim[2], flim[0], flim[1], flim[2]);
		}
		auto v = gen_items<T>(s, c, n);
		if (s.chance(1, 3)) { size_t b = n + (s.flip() ? s.below(50) : 0); c.trace("announce at most %zu items", b); so.set_items(b); }
		else if (s.chance(1, 6)) { c.trace("announce too few items"); so.set_items(n / 2); }
		[&] {
		unsigned abandon = s.chance(1, 6) ? 1 + (unsigned)s.below(4) : 0; if (abandon) c.label("abandoned");
		if (!manual && s.chance(1, 6)) { // limits that cannot be kept are refused, and can then be changed
			unsigned ph = 2 + (unsigned)s.below(2); size_t fl = (size_t)s.range(1, 4); c.trace("limit of %zu files in phase %u", fl, ph);
			if (ph == 2) so.set_phase_2_files(fl); else so.set_phase_3_files(fl);
			bool t = false; try { so.begin(); } catch (const tpie::exception &) { t = true; } PBT_CHECK(c, t, "sorting with at most %zu files in phase %u was accepted", fl, ph); c.label("limit refused");
			if (ph == 2) so.set_phase_2_files(flim[1]); else so.set_phase_3_files(flim[2]);
		}
		so.begin();
		size_t peakF = 0, peakM1 = 0;
		for (size_t i = 0; i < n; ++i) {
			if (abandon == 1 && i == n / 2) { c.trace("abandon while forming runs"); return; } typename C::outer o = C::in(v[i]); so.push(std::move(o)); peakM1 = std::max(peakM1, (size_t)tpie::get_memory_manager().used()); peakF = std::max(peakF, (size_t)tpie::get_file_manager().used() - fbase); }
		peakF = std::max(peakF, (size_t)tpie::get_file_manager().used() - fbase);
		so.end();
		PBT_CHECK(c, so.item_count() == n, "item_count() is %llu after pushing %zu items", (unsigned long long)so.item_count(), n);
		try { so.set_available_memory(1000000); c.fail("changing parameters after sorting has started was accepted"); } catch (tpie::exception &) {}
		if (abandon == 2) { c.trace("abandon before merging"); return; }
		size_t evac = s.below(4); bool calcFree = so.is_calc_free();
		if (evac & 1) { c.trace("evacuate before merging"); if (s.flip()) so.evacuate_before_merging(); else so.evacuate(); if (std::is_same<Store, tpie::default_store>::value && N <= 256) { size_t m = tpie::get_memory_manager().used() - base; size_t lim = 65536 + so.evacuated_memory_usage(); PBT_CHECK(c, m <= lim, "%zu bytes in use after evacuating, expected at most %zu", m, lim); } size_t f = tpie::get_file_manager().used() - fbase; PBT_CHECK(c, f == 0, "%zu files open after evacuating", f); }
		probe p;
		so.calc(p);
		PBT_CHECK(c, p.isInit && p.isDone, "merging reported init %d and done %d", (int)p.isInit, (int)p.isDone);
		(void)calcFree;
		if (evac & 2) { c.trace("evacuate before reporting"); so.evacuate_before_reporting(); size_t f = tpie::get_file_manager().used() - fbase; PBT_CHECK(c, f == 0, "%zu files open after evacuating", f); }
		external = tpie::get_temp_file_usage() > res.tmpBytes;
		if (abandon == 3) { c.trace("abandon before reporting"); return; }
		size_t f3 = 0, m3 = 0;
		std::vector<T> out;
		while (so.can_pull()) { if (abandon == 4 && out.size() == n / 2) { c.trace("abandon while reporting"); return; } if (out.size() % 64 == 0) m3 = std::max(m3, (size_t)tpie::get_memory_manager().used()); if (!out.size() || s.position() % 2) f3 = std::max(f3, (size_t)tpie::get_file_manager().used() - fbase); PBT_CHECK(c, out.size() < n, "more than the %zu items pushed can be pulled", n); out.push_back(C::out(so.pull())); }
		PBT_CHECK(c, !so.can_pull(), "can_pull() at the end");
		check_sorted(c, v, out, pred, "merge sorter");
		if (!manual) {
			size_t lim1 = std::max(flim[0], (size_t)3);
			PBT_CHECK(c, peakF <= lim1, "%zu files open during run formation, limit %zu", peakF, flim[0]);
			PBT_CHECK(c, p.files - fbase <= std::max(flim[1], flim[2]), "%zu files open during merging, limits %zu and %zu", p.files - fbase, flim[1], flim[2]);
			PBT_CHECK(c, f3 <= flim[2], "%zu files open during reporting, limit %zu", f3, flim[2]);
			peakM1 -= std::min(peakM1, base); size_t m2 = p.mem - std::min(p.mem, base);
			size_t slack = 4 * (bs + 1000); // buffers of blocks being compressed and written
			size_t list = 2 * flim[1] * sizeof(tpie::temp_file); // the list of run files exists in all phases
			PBT_CHECK(c, m2 <= std::max(mlim[1], so.minimum_memory_phase_2()) + slack, "%zu bytes in use while merging, limit %zu, minimum %zu", m2, mlim[1], (size_t)so.minimum_memory_phase_2());
			PBT_CHECK(c, peakM1 <= std::max(mlim[0], std::max(so.minimum_memory_phase_1(), so.minimum_memory_phase_1() + std::max((size_t)128 * 1024, 16 * N))) + slack + list, "%zu bytes in use while forming runs, limit %zu, minimum %zu", peakM1, mlim[0], (size_t)so.minimum_memory_phase_1());
			m3 -= std::min(m3, base); PBT_CHECK(c, m3 <= std::max(mlim[2], so.minimum_memory_phase_3()) + slack + list, "%zu bytes in use while reporting, limit %zu, minimum %zu", m3, mlim[2], (size_t)so.minimum_memory_phase_3());
			special = flim[2] < flim[1] && external;
		} else {
			multi = n > run * fan;
			PBT_CHECK(c, p.files - fbase <= fan + 3, "%zu files open while merging with fanout %zu", p.files - fbase, fan);
		}
		}();
	}
	res.expect_same(c, "after destroying the sorter");
	if (external) c.label("external"); else c.label("internal"); if (multi) c.label("several merge levels"); if (special) c.label("smaller final fanout");
	c.nontrivial(external);
}
static void sorter_scn(Src & s, Ctx & c) {
	switch (s.below(7)) {
	case 6: sorter_case<1000, tpie::default_store>(s, c); break;
	case 0: sorter_case<8, tpie::default_store>(s, c); break;
	case 1: sorter_case<24, tpie::default_store>(s, c); break;
	case 2: sorter_case<300, tpie::default_store>(s, c); break;
	case 3: sorter_case<16, tpie::explicit_tpie_unique_pointer_store>(s, c); break;
	case 4: sorter_case<16, tpie::explicit_tpie_pointer_store>(s, c); break;
	default: sorter_case<16, tpie::plain_store>(s, c); break;
	}
}

template <typename T> static std::vector<T> contents(tpie::file_stream<T> & f) { std::vector<T> r; f.seek(0); while (f.can_read()) r.push_back(f.read()); return r; }
template <typename T> static std::vector<T> contents(tpie::uncompressed_stream<T> & f) { std::vector<T> r; f.seek(0); while (f.can_read()) r.push_back(f.read()); return r; }

template <typename St, typename T> static void open_st(St & f, const std::string & p) { f.open(p); }
template <typename T, typename St> static void sort_with(Src & s, Ctx & c, size_t n, bool & ext) {
	auto v = gen_items<T>(s, c, n), w = gen_items<T>(s, c, s.size(200, 30));
	std::string p1 = c.dir + "/in", p2 = c.dir + "/out"; unlink(p1.c_str()); unlink(p2.c_str());
	bykey<T> pred{s.chance(1, 2), s.pick({~0u, 7u})}; tpie::progress_indicator_null pi; probe pr;
	// limit the memory so that the sort becomes external
	size_t room = s.pick({100000, 1, 300000, 4000000});
	{
		St in, out; in.open(p1); out.open(p2);
		for (auto & x : v) in.write(x);
		for (auto & x : w) out.write(x);
		if (s.flip()) { in.seek(s.below(n + 1)); } if (s.flip()) out.seek(s.below(w.size() + 1));
		size_t before = tpie::get_memory_manager().limit();
		tpie::get_memory_manager().set_limit(tpie::get_memory_manager().used() + room);
		unsigned how = (unsigned)s.below(6); static const char * nm[] = {"to another stream", "to another stream with comparator", "in place", "in place with comparator", "in place (same stream twice)", "in place (same stream twice) with comparator"};
		c.trace("sort %s, %zu bytes of memory", nm[how], room);
		bool cmp = how & 1, same = how >= 2;
		switch (how) {
		case 0: if (s.flip()) tpie::sort(in, out, &pi); else tpie::sort(in, out); break;
		case 1: tpie::sort(in, out, pred, pi); break;
		case 2: tpie::sort(in, pr); PBT_CHECK(c, pr.isInit && pr.isDone, "progress reported init %d and done %d", (int)pr.isInit, (int)pr.isDone); break;
		case 3: tpie::sort(in, pred, pi); break;
		case 4: tpie::sort(in, in); break;
		case 5: tpie::sort(in, in, pred, pi); break;
		}
		tpie::get_memory_manager().set_limit(before);
		St & o = same ? in : out;
		PBT_CHECK(c, o.offset() == 0, "the sorted stream is at offset %llu, not at its beginning", (unsigned long long)o.offset());
		PBT_CHECK(c, o.size() == n, "the sorted stream has %llu items, expected %zu", (unsigned long long)o.size(), n);
		for (int reopened = 0; reopened < 2; ++reopened) {
			auto r = contents(o);
			if (cmp) check_sorted(c, v, r, pred, "sort"); else check_sorted(c, v, r, std::less<T>(), "sort");
			auto keep = contents(same ? out : in); auto & exp = same ? w : v;
			PBT_CHECK(c, keep.size() == exp.size() && std::equal(keep.begin(), keep.end(), exp.begin()), "the other stream was changed");
			in.close(); out.close(); in.open(p1); out.open(p2);
		}
		ext = n * sizeof(T) > 140000 + room;
	}
	unlink(p1.c_str()); unlink(p2.c_str());
}
template <typename T> static void sort_ami(Src & s, Ctx & c, size_t n, bool & ext) {
	auto v = gen_items<T>(s, c, n), w = gen_items<T>(s, c, s.size(200, 30));
	std::string p1 = c.dir + "/in", p2 = c.dir + "/out"; unlink(p1.c_str()); unlink(p2.c_str());
	bykey<T> pred{s.chance(1, 2), s.pick({~0u, 7u})}; tpie::progress_indicator_null pi;
	size_t room = s.pick({100000, 1, 300000, 4000000});
	{
		tpie::ami::stream<T> in(p1), out(p2);
		for (auto & x : v) in.write_item(x);
		for (auto & x : w) out.write_item(x);
		if (s.flip()) in.seek((tpie::stream_offset_type)s.below(n + 1));
		unsigned how = (unsigned)s.below(s.flip() ? 6 : 12); bool cmp = how >= 10 || (how & 1), same = how == 4 || how == 5 || how == 8 || how == 9 || how == 11; int nokey = 0; tpie::ami::err e = tpie::ami::NO_ERROR;
		size_t before = tpie::get_memory_manager().limit();
		tpie::get_memory_manager().set_limit(tpie::get_memory_manager().used() + room);
		c.trace("AMI sort, way %u", how);
		switch (how) {
		case 0: e = tpie::ami::sort(&in, &out, static_cast<tpie::progress_indicator_base *>(&pi)); break;
		case 1: e = tpie::ami::sort(&in, &out, &pred, &pi); break;
		case 2: e = tpie::ami::sort(&in, &out); break;
		case 3: e = tpie::ami::sort(&in, &out, &pred); break;
		case 4: e = tpie::ami::sort(&in, static_cast<tpie::progress_indicator_base *>(&pi)); break;
		default: e = tpie::ami::sort(&in, &pred, &pi); break;
		case 6: e = tpie::ami::ptr_sort(&in, &out); break;
		case 7: e = tpie::ami::ptr_sort(&in, &out, &pred); break;
		case 8: e = tpie::ami::ptr_sort(&in); break;
		case 9: e = tpie::ami::ptr_sort(&in, &pred); break;
		case 10: e = tpie::ami::key_sort(&in, &out, nokey, &pred); break;
		case 11: e = tpie::ami::key_sort(&in, nokey, &pred); break;
		}
		tpie::get_memory_manager().set_limit(before);
		PBT_CHECK(c, e == tpie::ami::NO_ERROR, "sort returned error %d", (int)e);
		auto all = [&](tpie::ami::stream<T> & st) { std::vector<T> r; st.seek(0); T * p; while (st.read_item(&p) == tpie::ami::NO_ERROR) r.push_back(*p); return r; };
		auto r = all(same ? in : out);
		if (cmp) check_sorted(c, v, r, pred, "AMI sort"); else check_sorted(c, v, r, std::less<T>(), "AMI sort");
		auto keep = all(same ? out : in); auto & exp = same ? w : v;
		PBT_CHECK(c, keep.size() == exp.size() && std::equal(keep.begin(), keep.end(), exp.begin()), "the other stream was changed");
		ext = n * sizeof(T) > 140000 + room;
	}
	unlink(p1.c_str()); unlink(p2.c_str());
}
static void sort_scn(Src & s, Ctx & c) {
	init_tpie(block_for(c.index + 2 * BATCH)); Resources res(c.dir); bool ext = false;
	size_t n = s.weighted({4, 1}) == 0 ? s.size(3000, 100) : s.size(60000, 20000); unsigned k = (unsigned)s.below(6);
	if (tpie::get_block_size() < 300 && k == 5) k = 1;
	switch (k) {
	case 0: c.trace("file_stream"); sort_with<rec<8>, tpie::file_stream<rec<8>>>(s, c, n, ext); break;
	case 1: c.trace("file_stream"); sort_with<rec<24>, tpie::file_stream<rec<24>>>(s, c, n, ext); break;
	case 2: c.trace("uncompressed_stream"); sort_with<rec<8>, tpie::uncompressed_stream<rec<8>>>(s, c, n, ext); break;
	case 3: c.trace("uncompressed_stream"); sort_with<rec<16>, tpie::uncompressed_stream<rec<16>>>(s, c, n, ext); break;
	case 4: c.trace("ami::stream"); sort_ami<rec<8>>(s, c, n, ext); break;
	default: c.trace("large items"); if (n > 3000) n = 3000; sort_with<rec<300>, tpie::file_stream<rec<300>>>(s, c, n, ext); break;
	}
	res.expect_same(c, "after sorting");
	c.nontrivial(n > 100); if (ext) c.label("external");
}

// ---- parallel_sort ---------------------------------------------------
template <typename T, size_t MIN> static void psort(Src & s, Ctx & c, size_t n) {
	auto v = gen_items<T>(s, c, n); auto w = v; bykey<T> pred{s.chance(1, 2), s.pick({~0u, 7u, 0u})}; probe p;
	typedef typename std::vector<T>::iterator It;
	size_t a = s.chance(1, 3) ? s.below(n + 1) : 0; // sort only the suffix
	if (s.flip()) { tpie::parallel_sort_impl<It, bykey<T>, false, MIN> ps(nullptr); ps(w.begin() + (long)a, w.end(), pred); }
	else { tpie::parallel_sort_impl<It, bykey<T>, true, MIN> ps(&p); ps(w.begin() + (long)a, w.end(), pred); PBT_CHECK(c, p.isInit && p.isDone, "progress reported init %d and done %d", (int)p.isInit, (int)p.isDone); }
	for (size_t i = 0; i < a; ++i) PBT_CHECK(c, v[i] == w[i], "an item outside the sorted range changed");
	check_sorted(c, std::vector<T>(v.begin() + (long)a, v.end()), std::vector<T>(w.begin() + (long)a, w.end()), pred, "parallel sort");
	if (n - a >= 2 * MIN) c.label("parallel"); c.nontrivial(n - a >= 2 * MIN);
}
static void psort_scn(Src & s, Ctx & c) {
	init_tpie(4096); size_t n;
	switch (s.below(4)) {
	case 0: n = s.size(3000, 64); psort<rec<8>, 16>(s, c, n); break;
	case 1: n = s.size(3000, 64); psort<rec<24>, 9>(s, c, n); break;
	case 2: n = s.size(20000, 1000); psort<rec<8>, 250>(s, c, n); break;
	default: { n = s.size(3000, 100); auto v = gen_items<rec<16>>(s, c, n); auto w = v; bykey<rec<16>> pred{s.flip(), ~0u};
		if (s.flip()) { tpie::parallel_sort(w.begin(), w.end(), pred); } else { probe p; tpie::parallel_sort<true>(w.begin(), w.end(), p, pred); PBT_CHECK(c, p.isDone, "progress not done"); }
		check_sorted(c, v, w, pred, "parallel sort"); break; }
	}
}

// ---- sort_manager with the merge heaps -------------------------------
template <typename T, typename H> static void manager_with(Src & s, Ctx & c, size_t n, bool & ext) {
	typedef bykey<T> P; typedef tpie::ami::Internal_Sorter_Obj<T, P> I; typedef tpie::file_stream<T> S;
	auto v = gen_items<T>(s, c, n); P pred{s.chance(1, 3), s.pick({~0u, 7u, 0u})}; bool same = s.chance(1, 3), ind = s.flip();
	size_t flim = tpie::get_file_manager().limit(), mlim = tpie::get_memory_manager().limit();
	{
		S in, out; in.open(); out.open();
		for (auto & x : v) in.write(x);
		if (s.flip()) in.seek((tpie::stream_offset_type)s.below(n + 1));
		I is(pred); H mh(pred); tpie::sort_manager<T, I, H> sm(&is, &mh); probe pi;
		const size_t per = S::memory_usage(1); size_t streams = 8 + s.below(s.flip() ? 4 : 30), room = streams * per + s.below(s.flip() ? 1000 : 100000), files = s.chance(1, 3) ? 3 + s.below(8) : 100;
		size_t base = tpie::get_memory_manager().used(), fbase = tpie::get_file_manager().used();
		c.trace("sort manager: %zu bytes of memory, %zu bytes a stream, %zu files, %s", room, per, files, same ? "in place" : "to another stream");
		tpie::get_memory_manager().set_limit(base + room); tpie::get_file_manager().set_limit(fbase + files);
		const uint64_t written = tpie::get_bytes_written();
		if (same && ind) sm.sort(&in, &pi); else if (same) sm.sort(&in); else sm.sort(&in, &out, ind ? &pi : nullptr);
		tpie::get_memory_manager().set_limit(mlim); tpie::get_file_manager().set_limit(flim);
		if (ind) {
			PBT_CHECK(c, pi.isInit && pi.isDone, "progress reported init %d and done %d", (int)pi.isInit, (int)pi.isDone);
			PBT_CHECK(c, pi.mem <= base + room + 4096, "%zu bytes of memory used, %zu available", pi.mem - base, room);
			PBT_CHECK(c, pi.files <= fbase + files, "%zu files open at once, %zu allowed", pi.files - fbase, files);
		}
		const uint64_t passes = n ? (tpie::get_bytes_written() - written + 10 * per) / (n * sizeof(T)) : 0; ext = n * sizeof(T) > 20 * per && passes > 1; if (n * sizeof(T) > 20 * per && passes > 2) c.label("several merge levels");
		auto all = [&](S & st) { PBT_CHECK(c, st.size() <= n, "the stream has %llu items, %zu were sorted", (unsigned long long)st.size(), n); std::vector<T> r; st.seek(0); while (st.can_read()) r.push_back(st.read()); return r; };
		check_sorted(c, v, all(same ? in : out), pred, "sort manager");
		if (!same) { auto w = all(in); PBT_CHECK(c, w.size() == n && std::equal(w.begin(), w.end(), v.begin()), "the input changed"); } else PBT_CHECK(c, out.size() == 0, "the other stream was written to");
	}
}
static void manager_scn(Src & s, Ctx & c) {
	init_tpie(block_for(c.index + 3 * BATCH)); Resources res(c.dir); bool ext = false; size_t n = s.weighted({4, 1}) == 0 ? s.size(3000, 100) : s.size(60000, 20000); typedef rec<8> A; typedef rec<48> B;
	switch (s.below(4)) {
	case 0: manager_with<A, tpie::ami::merge_heap_op<A, bykey<A>>>(s, c, n, ext); break;
	case 1: manager_with<A, tpie::ami::merge_heap_ptr_op<A, bykey<A>>>(s, c, n, ext); break;
	case 2: manager_with<B, tpie::ami::merge_heap_obj<B, bykey<B>>>(s, c, n, ext); break;
	default: manager_with<B, tpie::ami::merge_heap_ptr_op<B, bykey<B>>>(s, c, n, ext);
	}
	res.expect_same(c, "after sorting"); c.nontrivial(n > 100); if (ext) c.label("external");
}

int main(int argc, char ** argv) {
	pbt::Suite su; su.property = "C06";
	su.rule = "sorter: items went through temporary files; sort and manager: more than 100 items; parallel: at least two partitions";
	su.scenarios = {{"sorter", sorter_scn, 8000, 400000, (unsigned)BATCH}, {"sort", sort_scn, 3000, 150000, (unsigned)BATCH}, {"parallel", psort_scn, 2500, 100000, (unsigned)BATCH}, {"manager", manager_scn, 1500, 80000, (unsigned)BATCH}};
	return pbt::main_loop(argc, argv, su);
}
