// Streams whose blocks are as large as they may be (up to 13 MiB), with contents that can and cannot be compressed.
#pragma once
#include "common.h"
#include <tpie/file_stream.h>
#include <tpie/compressed/thread.h>
namespace tv {
inline void large_blocks(Src & s, Ctx & c, bool compressed) {
	init_tpie(65536); Resources res(c.dir); typedef tpie::open o; typedef uint64_t T; typedef tpie::file_stream<T> S; typedef tpie::file_stream_base B; std::string path = c.dir + "/large.tpie";
	{
		double factor = s.pick({1.0, 3.7, 16.0, 31.0, 65.0, 127.5, 208.0}); S st(factor); const size_t bi = S(factor).block_items();
		o::type kind = !compressed ? o::defaults : s.chance(1, 3) ? o::compression_normal : o::compression_all; bool temp = s.chance(1, 4);
		bool snappy = s.chance(4, 5); { tpie::compressor_thread_lock l(tpie::the_compressor_thread()); tpie::the_compressor_thread().set_preferred_compression(l, snappy ? tpie::compression_scheme::snappy : tpie::compression_scheme::none); }
		auto open = [&] { if (temp) st.open(kind); else st.open(path, kind); }; open();
		c.trace("block factor %g: blocks of %zu items; %s%s", factor, bi, temp ? "temporary, " : "", !compressed ? "uncompressed" : snappy ? "snappy" : "none");
		const size_t limit = std::min<size_t>(4 * bi + 1000, 3500000); std::vector<T> m, buf; std::vector<std::pair<tpie::stream_position, size_t>> saved; Rng g = s.bulk(); size_t ops = 0;
		auto check_run = [&](size_t at, size_t n) { buf.resize(n); st.read(buf.begin(), buf.end()); for (size_t i = 0; i < n; ++i) if (buf[i] != m[at + i]) c.fail("item %zu of %zu is %llx, expected %llx", at + i, m.size(), (unsigned long long)buf[i], (unsigned long long)m[at + i]); };
		auto forward = [&] { c.trace("read everything"); st.seek(0); check_run(0, m.size()); PBT_CHECK(c, !st.can_read(), "items left over"); };
		auto backward = [&](size_t n) { c.trace("read %zu items backwards", n); st.seek(0, B::end); for (size_t i = m.size(); n-- && i--;) { T x = st.read_back(); if (x != m[i]) c.fail("read_back() of item %zu of %zu gives %llx, expected %llx", i, m.size(), (unsigned long long)x, (unsigned long long)m[i]); } };
		while (s.more(6)) { ++ops; switch (s.weighted({5, 2, 2, 2, 2, temp ? 0u : 1u})) {
		case 0: {
			size_t n = s.chance(1, 2) ? s.below(2 * bi) + 1 : bi - m.size() % bi + s.below(3); if (m.size() + n > limit) n = limit - m.size(); bool same = s.chance(1, 3); size_t old = m.size(); T v = g.next();
			c.trace("append %zu %s items", n, same ? "equal" : "random"); m.resize(old + n); for (size_t i = old; i < m.size(); ++i) m[i] = same ? v : g.next();
			st.seek(0, B::end); st.write(m.begin() + old, m.end()); PBT_CHECK(c, st.size() == m.size() && st.offset() == m.size(), "size() is %llu, offset() %llu, expected %zu", (unsigned long long)st.size(), (unsigned long long)st.offset(), m.size());
			saved.emplace_back(st.get_position(), m.size()); break; }
		case 1: forward(); break;
		case 2: backward(std::min(m.size(), s.below(2 * bi) + 1)); break;
		case 3: if (!saved.empty()) { auto & p = saved[s.below(saved.size())]; size_t n = std::min(m.size() - p.second, s.below(bi) + 1); c.trace("read %zu items from %zu", n, p.second); st.set_position(p.first); check_run(p.second, n); } break;
		case 4: if (!saved.empty()) { size_t k = s.below(saved.size()); auto p = saved[k]; c.trace("truncate to %zu", p.second); st.truncate(p.first); m.resize(p.second); saved.resize(k + 1); PBT_CHECK(c, st.size() == m.size(), "size() after truncate() is %llu, expected %zu", (unsigned long long)st.size(), m.size()); } break;
		default: c.trace("reopen"); st.close(); open(); saved.clear(); PBT_CHECK(c, st.size() == m.size(), "size() after reopening is %llu, expected %zu", (unsigned long long)st.size(), m.size());
		} }
		forward(); backward(std::min<size_t>(m.size(), 2 * bi)); st.close();
		c.nontrivial(m.size() > bi && ops > 1); if (bi * sizeof(T) > (1u << 22) && m.size() > bi) c.label("blocks of more than 4 MiB"); if (m.size() > bi) c.label("several blocks");
	}
	unlink(path.c_str()); res.expect_same(c, "after closing the stream");
}
} // namespace tv
