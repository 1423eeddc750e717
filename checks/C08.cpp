// Sorting of serializable items of varying size: serialization_sorter against std::stable_sort, with resource limits.
#include "common.h"
#include <tpie/serialization_sorter.h>
#include <map>
using namespace tv;

static const size_t BATCH = 10;
static const size_t MiB2 = 2 * 1024 * 1024;
// what is in use while runs are merged is seen from the comparisons
static bool g_sample = false; static size_t g_files, g_mem;
static void sample() { if (!g_sample) return; g_files = std::max(g_files, (size_t)tpie::get_file_manager().used()); g_mem = std::max(g_mem, (size_t)tpie::get_memory_manager().used()); }
struct str_less { bool desc = false; unsigned mod = 0; bool operator()(const std::string & a, const std::string & b) const { sample(); std::string x = mod ? a.substr(0, mod) : a, y = mod ? b.substr(0, mod) : b; return desc ? y < x : x < y; } };
struct num_less { bool desc = false; unsigned mod = 0; bool operator()(uint64_t a, uint64_t b) const { sample(); if (mod) a /= 7, b /= 7; return desc ? b < a : a < b; } };
struct rec { uint32_t key = 0; std::vector<std::string> v; bool operator==(const rec & o) const { return key == o.key && v == o.v; } bool operator<(const rec & o) const { return key != o.key ? key < o.key : v < o.v; } };
template <typename D> void serialize(D & d, const rec & r) { using tpie::serialize; serialize(d, r.key); serialize(d, r.v); }
template <typename S> void unserialize(S & d, rec & r) { using tpie::unserialize; unserialize(d, r.key); unserialize(d, r.v); }
struct rec_less { bool desc = false; unsigned mod = 0; bool operator()(const rec & a, const rec & b) const { sample(); return desc ? b.key < a.key : a.key < b.key; } };

template <typename T> struct mk;
template <> struct mk<std::string> { static std::string make(Rng & g, unsigned mode, size_t big) { size_t n = mode == 0 ? g.below(12) : mode == 1 ? g.below(200) : (g.below(30) ? g.below(20) : g.below(big)); std::string s(n, 0); uint64_t a = 1 + g.below(4); for (char & c : s) c = (char)('a' + g.below(a)); return s; } };
template <> struct mk<uint64_t> { static uint64_t make(Rng & g, unsigned mode, size_t) { return mode == 0 ? g.below(20) : mode == 1 ? g.below(1000) : g.next(); } };
template <> struct mk<rec> { static rec make(Rng & g, unsigned mode, size_t big) { rec r; r.key = (uint32_t)(mode == 0 ? g.below(10) : g.next()); size_t n = g.below(4); for (size_t i = 0; i < n; ++i) r.v.push_back(mk<std::string>::make(g, mode, big)); return r; } };

template <typename T> static T * huge_item(size_t) { return nullptr; }
template <> std::string * huge_item<std::string>(size_t m) { return m > 8 * MiB2 ? nullptr : new std::string(m + 100, 'h'); }
template <typename T, typename P> static void sort_case(Src & s, Ctx & c) {
	Resources res(c.dir); bool external = false; size_t n = 0; unsigned evac = 0, abandon = 0;
	size_t mbase = tpie::get_memory_manager().used(), fbase = tpie::get_file_manager().used();
	{
		P pred; pred.desc = s.flip(); pred.mod = s.chance(1, 3) ? 2 : 0;
		unsigned mode = (unsigned)s.below(3); size_t big = s.pick({100, 3000, 100000});
		tpie::serialization_sorter<T, P> so(sizeof(T), pred);
		// memory: the formation of runs gets little more than its writer, so that runs are short
		size_t m1 = MiB2 + (size_t)s.pick<uint64_t>({2000, 600, 20000, 400000, 2000, 600, 20000, 24u << 20}) + s.below(500) + 3 * (mode == 0 ? 48 : mode == 1 ? 640 : 3 * big + 100) + 3 * sizeof(T);
		size_t fan = 2 + s.below(4);
		// sometimes there would be room for one more run if items were small
		const size_t rd = tpie::serialization_reader::memory_usage(), wr = tpie::serialization_writer::memory_usage(); bool edge = s.flip();
		auto room = [&]() { if (edge && big > 1000) return wr + (fan + 1) * (rd + sizeof(T)) + 5 * big + s.below(big); return MiB2 + fan * (MiB2 + 4 * big + 2000) + s.below(100000); };
		size_t m2 = room(), m3 = s.flip() ? m2 : room();
		size_t f2 = s.flip() ? 0 : 3 + s.below(4), f3 = s.flip() ? f2 : 3 + s.below(4);
		unsigned how = (unsigned)s.below(3);
		if (how == 0) so.set_available_memory(m1, m2, m3); else if (how == 1) { so.set_phase_1_memory(m1); so.set_phase_2_memory(m2); so.set_phase_3_memory(m3); } else { m1 = m2 = m3 = std::max(m1, m2); so.set_available_memory(m1); }
		if (f2 || f3) { if (s.flip()) so.set_available_files(1, f2, f3); else { so.set_phase_1_files(1); so.set_phase_2_files(f2); so.set_phase_3_files(f3); } }
		// number of items: some runs
		n = s.weighted({1, 6, 2}) == 0 ? s.below(3) : s.size(c.thorough ? 4000 : 1500, 100);
		if (how == 2 || m1 > MiB2 + 300000) n *= 3;
		std::vector<T> v; Rng g = s.bulk(); std::multimap<size_t, size_t> dummy;
		size_t volume = 0, largest = sizeof(T);
		for (size_t i = 0; i < n; ++i) { v.push_back(mk<T>::make(g, mode, big)); size_t z = tpie::serialized_size(v.back()); volume += z; largest = std::max(largest, z); }
		c.trace("sort %zu items, %zu bytes, with memory %zu %zu %zu, files %zu %zu", n, volume, m1, m2, m3, f2, f3);
		abandon = s.chance(1, 6) ? 1 + (unsigned)s.below(5) : 0; evac = (unsigned)s.weighted({4, 1, 1, 1});
		if (s.chance(1, 6)) { // limits that cannot be kept are refused, and can then be changed
			unsigned w = (unsigned)s.below(4); size_t z = w < 2 ? (size_t)s.range(1, 2) : s.below(tpie::serialization_writer::memory_usage() + 1); c.trace("limit of %zu %s in phase %u", z, w < 2 ? "files" : "bytes", w < 2 ? w + 2 : w - 1);
			if (w == 0) so.set_phase_2_files(z); else if (w == 1) so.set_phase_3_files(z); else if (w == 2) so.set_phase_1_memory(z); else so.set_phase_2_memory(z);
			bool t = false; try { so.begin(); } catch (const tpie::exception &) { t = true; } PBT_CHECK(c, t, "sorting with only %zu %s was accepted", z, w < 2 ? "files" : "bytes"); c.label("limit refused");
			if (w == 0) so.set_phase_2_files(f2); else if (w == 1) so.set_phase_3_files(f3); else if (w == 2) so.set_phase_1_memory(m1); else so.set_phase_2_memory(m2);
			res.expect_same(c, "after the limit was refused");
		}
		so.begin(); size_t written = tpie::get_bytes_written(), held = 0, inUse = tpie::get_memory_manager().used() - mbase;
		try {
			for (size_t i = 0; i < n; ++i) {
				if (abandon == 1 && i == n / 2) { c.trace("abandon while forming runs"); throw 0; }
				so.push(v[i]);
				// while a run was written, its items, the buffer and a writer were in memory
				if (tpie::get_bytes_written() != written) { PBT_CHECK(c, held + inUse + wr <= m1, "a run of %zu bytes was formed, beside a buffer of %zu and a writer of %zu, with memory %zu", held, inUse, wr, m1); written = tpie::get_bytes_written(); held = 0; }
				{ size_t z = tpie::serialized_size(v[i]); if (z > sizeof(T)) held += z - sizeof(T); }
				size_t f = tpie::get_file_manager().used() - fbase; PBT_CHECK(c, f == 0, "%zu files open between pushes", f);
			}
			if (s.chance(1, 12)) if (T * h = huge_item<T>(m1)) { std::unique_ptr<T> hold(h); c.trace("push an item larger than the memory"); bool t = false; try { so.push(*h); } catch (const tpie::exception &) { t = true; } PBT_CHECK(c, t, "an item larger than the memory of %zu bytes was accepted", m1); c.label("huge item"); throw 0; }
			PBT_CHECK(c, so.item_count() == n, "item_count() is %llu", (unsigned long long)so.item_count());
			so.end();
			if (abandon == 2) { c.trace("abandon before merging"); throw 0; }
			bool t = false; try { so.set_available_memory(m1); } catch (const tpie::exception &) { t = true; } PBT_CHECK(c, t, "changing parameters after sorting has started was accepted");
			if (evac & 1) { c.trace("evacuate before merging"); so.evacuate(); size_t m = tpie::get_memory_manager().used() - mbase; PBT_CHECK(c, m <= so.evacuated_memory_usage() + 65536, "%zu bytes in use after evacuating", m); }
			bool freeMerge = so.is_merge_runs_free(); size_t w0 = tpie::get_bytes_written();
			if (count_files(c.dir + "/tmp") - res.tmp > fan + 1) c.label("many runs");
			g_files = fbase; g_mem = mbase; g_sample = true; so.merge_runs(); g_sample = false; g_files -= fbase; g_mem -= mbase;
			if (g_files) { size_t lim2 = f2 ? f2 : 253; c.label("merged before reporting"); PBT_CHECK(c, g_files <= lim2, "%zu files open while merging, %zu allowed", g_files, lim2);
				PBT_CHECK(c, (g_files - 1) * (rd + largest - sizeof(T)) + wr <= m2, "%zu files with items of up to %zu bytes open while merging, with memory %zu", g_files, largest, m2);
				PBT_CHECK(c, g_mem <= m2 + 65536, "%zu bytes in use while merging, %zu given", g_mem, m2); }
			if (freeMerge) PBT_CHECK(c, tpie::get_bytes_written() == w0, "merging was said to be free but wrote %zu bytes", (size_t)(tpie::get_bytes_written() - w0));
			size_t f = tpie::get_file_manager().used() - fbase; PBT_CHECK(c, f == 0, "%zu files open after merging", f);
			if (abandon == 3) { c.trace("abandon after merging"); throw 0; }
			if (evac & 2) { c.trace("evacuate before reporting"); so.evacuate(); size_t m = tpie::get_memory_manager().used() - mbase; PBT_CHECK(c, m <= so.evacuated_memory_usage() + 65536, "%zu bytes in use after evacuating", m); }
			external = count_files(c.dir + "/tmp") > res.tmp; if (!external && n && m1 > 2 * std::max(m2, m3) + 2 * MiB2) c.label("kept in memory in a smaller buffer");
			size_t expectMem = so.actual_memory_phase_3();
			std::vector<T> out; size_t peakF = 0, peakM = 0;
			while (so.can_pull()) {
				if (abandon == 4 && out.size() == n / 2) { c.trace("abandon while reporting"); throw 0; }
				PBT_CHECK(c, out.size() < n, "more than the %zu items pushed can be pulled", n);
				out.push_back(so.pull());
				peakF = std::max(peakF, (size_t)tpie::get_file_manager().used() - fbase); if (out.size() % 16 == 1) peakM = std::max(peakM, (size_t)tpie::get_memory_manager().used() - mbase);
			}
			PBT_CHECK(c, out.size() == n, "%zu items were pushed, %zu pulled", n, out.size());
			bool threw = false; try { so.pull(); } catch (const tpie::exception &) { threw = true; } PBT_CHECK(c, threw, "pull() after the last item was not refused");
			size_t lim = f3 ? f3 : 253; PBT_CHECK(c, peakF <= lim, "%zu files open while reporting, %zu allowed", peakF, lim);
			PBT_CHECK(c, peakF * (rd + largest - sizeof(T)) <= m3 || peakF == 1, "%zu files with items of up to %zu bytes open while reporting, with memory %zu", peakF, largest, m3);
			(void)expectMem; PBT_CHECK(c, peakM <= m3 + 65536 + 4 * largest, "%zu bytes in use while reporting, %zu given", peakM, m3);
			for (size_t i = 1; i < n; ++i) PBT_CHECK(c, !pred(out[i], out[i - 1]), "item %zu is out of order", i);
			std::sort(out.begin(), out.end()); std::sort(v.begin(), v.end());
			PBT_CHECK(c, out == v, "the items pulled are not the items pushed");
		} catch (int) {}
	}
	res.expect_same(c, "after the sorter is gone");
	PBT_CHECK(c, tpie::get_temp_file_usage() == res.tmpBytes, "%lld bytes of temporary files recorded after the sorter is gone", (long long)(tpie::get_temp_file_usage() - res.tmpBytes));
	if (external) c.label("external"); if (evac) c.label("evacuated"); if (abandon) c.label("abandoned");
	c.nontrivial(external || (abandon && n > 50));
}
static void strings(Src & s, Ctx & c) { sort_case<std::string, str_less>(s, c); }
static void numbers(Src & s, Ctx & c) { sort_case<uint64_t, num_less>(s, c); }
static void records(Src & s, Ctx & c) { sort_case<rec, rec_less>(s, c); }
static void setup(const std::string &) { init_tpie(4096, 1u << 30); }

int main(int argc, char ** argv) {
	pbt::Suite su; su.property = "C08"; su.setup = setup;
	su.rule = "strings, numbers and nested records of strongly varying size, sorted by serialization_sorter with little memory for runs, small fan-outs and file limits, with and without evacuation, and abandoned at any phase; compared as ordered permutation; non-trivial: runs were written to disk, or the sorter was abandoned with more than 50 items";
	su.scenarios.push_back({"strings", strings, 1500, 15000, BATCH});
	su.scenarios.push_back({"numbers", numbers, 1500, 15000, BATCH});
	su.scenarios.push_back({"records", records, 1500, 15000, BATCH});
	return pbt::main_loop(argc, argv, su);
}
