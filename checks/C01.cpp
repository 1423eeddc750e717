#include "file_stream_model.h"
#include "large.h"
#include "huge.h"
using namespace tv;
static const size_t BATCH = 16;
static size_t block_for(uint64_t index) { static const size_t t[] = {48, 64, 96, 100, 256, 1024}; return t[(index / BATCH) % 6]; }
template <size_t N> static void go(Src & s, Ctx & c, bool comp, bool uncomp) {
	size_t b = block_for(c.index);
	init_tpie(b);
	FsModel<item_t<N>> m(s, c, comp, uncomp); m.run(b);
}
static void unc(Src & s, Ctx & c) {
	switch (s.weighted({4, 2, 2, 1, 1})) { case 0: go<4>(s, c, false, true); break; case 1: go<8>(s, c, false, true); break; case 2: go<12>(s, c, false, true); break; case 3: go<1>(s, c, false, true); break; default: go<40>(s, c, false, true); }
}
// Positions, sizes and block numbers that do not fit into 32 bits.
template <size_t N> static void huge_n(Src & s, Ctx & c, size_t b) {
	typedef tpie::file_stream<item_t<N>> S; const uint64_t most = 400ull << 30; AnySize any; if (!sparse_ok(c.dir, most)) { c.label("no sparse files here"); return; }
	Resources res(c.dir); std::string path = c.dir + "/huge.tpie";
	{
		S st; typedef tpie::open o; st.open(path, o::defaults); typedef tpie::file_stream_base B;
		Huge<item_t<N>> h(s, c, b / N);
		h.seek = [&](int64_t o, int w) { st.seek(o, w == 0 ? B::beginning : w == 1 ? B::end : B::current); };
		h.read = [&] { return st.read(); }; h.back = [&] { return st.read_back(); }; h.write = [&](const item_t<N> & v) { st.write(v); };
		h.sizeOf = [&] { return st.size(); }; h.offset = [&] { return st.offset(); }; h.canRead = [&] { return st.can_read(); }; h.canBack = [&] { return st.can_read_back(); };
		h.truncate = [&](uint64_t n) { if (s.chance(1, 3) && n <= h.size) { uint64_t p = h.pos; st.seek((int64_t)n); tpie::stream_position q = st.get_position(); st.seek((int64_t)p); st.truncate(q); } else st.truncate(n); };
		h.reopen = [&] { st.close(); st.open(path, s.flip() ? o::defaults : o::access_random); };
		h.position = [&] { tpie::stream_position p = st.get_position(); PBT_CHECK(c, p.offset() == h.pos, "get_position().offset() is wrong"); st.seek(0); if (h.size) st.read(); st.set_position(p); };
		h.run(most);
	}
	unlink(path.c_str()); res.expect_same(c, "after closing the stream");
}
static void huge(Src & s, Ctx & c) {
	size_t b = block_for(c.index); init_tpie(b);
	switch (s.below(4)) { case 0: huge_n<1>(s, c, b); break; case 1: huge_n<4>(s, c, b); break; case 2: huge_n<12>(s, c, b); break; default: huge_n<40>(s, c, b); }
}
static void large(Src & s, Ctx & c) { large_blocks(s, c, false); }
int main(int argc, char ** argv) {
	pbt::Suite su; su.property = "C01";
	su.rule = "random histories of open/close/reopen, read, write, read_back, peek, skip, seek, get/set_position, truncate and user data on 1-3 uncompressed file_streams with random item and block sizes, compared with a vector-and-cursor model after every step; non-trivial: a stream grew beyond one block and was repositioned, truncated or reopened; huge: streams of up to 400 GiB in sparse files, against a map of the items written; large: blocks of up to 13 MiB";
	su.scenarios.push_back({"uncompressed", unc, 50000, 1000000, BATCH});
	su.scenarios.push_back({"huge", huge, 1200, 20000, BATCH});
	su.scenarios.push_back({"large", large, 300, 6000, 8});
	return pbt::main_loop(argc, argv, su);
}
