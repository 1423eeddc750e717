#include "file_stream_model.h"
#include "large.h"
using namespace tv;
static const size_t BATCH = 16;
static size_t block_for(uint64_t index) { static const size_t t[] = {48, 64, 96, 100, 256, 1024}; return t[(index / BATCH) % 6]; }
template <size_t N> static void go(Src & s, Ctx & c, bool comp, bool uncomp) {
	size_t b = block_for(c.index);
	init_tpie(b);
	FsModel<item_t<N>> m(s, c, comp, uncomp); m.run(b);
}
static void cmp(Src & s, Ctx & c) {
	switch (s.weighted({4, 2, 2, 1, 1})) { case 0: go<4>(s, c, true, false); break; case 1: go<8>(s, c, true, false); break; case 2: go<12>(s, c, true, false); break; case 3: go<1>(s, c, true, false); break; default: go<40>(s, c, true, false); }
}
static void large(Src & s, Ctx & c) { large_blocks(s, c, true); }
int main(int argc, char ** argv) {
	pbt::Suite su; su.property = "C02";
	su.rule = "random histories of open/close/reopen, read, write, read_back, peek, skip, seek, get/set_position, truncate and user data on 1-3 compressed file_streams (adaptive and full compression, snappy and none) with random item and block sizes, compared with a vector-and-cursor model after every step; non-trivial: a stream grew beyond one block and was repositioned, truncated or reopened; large: blocks of up to 13 MiB, compressible or not";
	su.scenarios.push_back({"compressed", cmp, 50000, 1000000, BATCH});
	su.scenarios.push_back({"large", large, 300, 6000, 8});
	return pbt::main_loop(argc, argv, su);
}
