// Files with several cursors, uncompressed_stream and the AMI stream against a vector model.
#include "common.h"
#include "huge.h"
#include <tpie/file.h>
#include <tpie/uncompressed_stream.h>
#include <tpie/stream.h>
using namespace tv;
static const size_t BATCH = 16;
static size_t block_for(uint64_t index) { static const size_t t[] = {48, 64, 96, 100, 256, 1024}; return t[(index / BATCH) % 6]; }
typedef tpie::file_stream_base FSB;

template <typename T> struct Gen {
	uint64_t counter = 0; unsigned mode = 0;
	T operator()() { switch (mode) { case 0: return T::make(++counter); case 1: return T::make(++counter / 5 * 3); default: return T::make(++counter * 0x9E3779B97F4A7C15ull); } }
};

static size_t amount(Src & s, size_t bi, uint64_t pos) {
	switch (s.weighted({3, 3, 2, 2})) {
	case 0: return 1;
	case 1: return 1 + s.below(bi + 1);
	case 2: return bi - pos % bi;
	default: return 1 + s.below(3 * bi + 2);
	}
}

// Cursor operations shared by uncompressed_stream and file::stream.
template <typename T, typename S> struct Cursor {
	S * st = nullptr; uint64_t pos = 0;
};

template <typename T, typename S, typename W>
struct Ops {
	Src & s; Ctx & c; std::vector<T> & data; size_t bi; Gen<T> & gen; W whence; size_t maxItems; bool multi;
	int moves = 0;
	std::string at(uint64_t pos) { return pbt::strf("position %llu of %zu, %zu items per block", (unsigned long long)pos, data.size(), bi); }
	void observe(S & st, uint64_t pos, const char * op) {
		PBT_CHECK(c, st.offset() == pos, "after %s (%s): offset() is %llu", op, at(pos).c_str(), (unsigned long long)st.offset());
		PBT_CHECK(c, st.size() == data.size(), "after %s (%s): size() is %llu", op, at(pos).c_str(), (unsigned long long)st.size());
		PBT_CHECK(c, st.can_read() == (pos < data.size()), "after %s (%s): can_read() is %d", op, at(pos).c_str(), st.can_read());
		PBT_CHECK(c, st.can_read_back() == (pos > 0), "after %s (%s): can_read_back() is %d", op, at(pos).c_str(), st.can_read_back());
	}
	void read(S & st, uint64_t & pos, const char * nm) {
		if (pos == data.size()) {
			bool t = false; try { st.read(); } catch (tpie::end_of_stream_exception &) { t = true; }
			PBT_CHECK(c, t, "%s: read at the end (%s) did not throw", nm, at(pos).c_str());
			c.label("read at end"); return;
		}
		T v = st.read();
		PBT_CHECK(c, v == data[pos], "%s: read at %s gave %s, expected %s", nm, at(pos).c_str(), v.str().c_str(), data[pos].str().c_str());
		++pos;
	}
	void back(S & st, uint64_t & pos, const char * nm) {
		if (pos == 0) {
			bool t = false; try { st.read_back(); } catch (tpie::stream_exception &) { t = true; }
			PBT_CHECK(c, t, "%s: read_back at the beginning did not throw", nm);
			c.label("read_back at beginning"); return;
		}
		T v = st.read_back();
		PBT_CHECK(c, v == data[pos - 1], "%s: read_back at %s gave %s, expected %s", nm, at(pos).c_str(), v.str().c_str(), data[pos - 1].str().c_str());
		--pos;
	}
	void write(S & st, uint64_t & pos, size_t n, bool array) {
		std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(gen());
		if (pos < data.size()) c.label("overwrite");
		if (array) st.write(v.begin(), v.end()); else for (auto & x : v) st.write(x);
		for (auto & x : v) { if (pos < data.size()) data[pos] = x; else data.push_back(x); ++pos; }
	}
	void step(S & st, uint64_t & pos, const char * nm, bool canWrite) {
		unsigned op = (unsigned)s.weighted({6, 6, 4, 2, 4, 2});
		if (!canWrite && op == 0) op = 1;
		switch (op) {
		case 0: { size_t n = amount(s, bi, pos); if (pos == data.size() && data.size() + n > maxItems) { if (data.size() > 2 * maxItems) return; n = 1; } bool a = s.flip();
			c.trace("%s.write %zu%s", nm, n, a ? " (array)" : ""); write(st, pos, n, a); observe(st, pos, "write"); break; }
		case 1: { size_t n = amount(s, bi, pos); c.trace("%s.read %zu", nm, n); for (size_t i = 0; i < n; ++i) { bool e = pos == data.size(); read(st, pos, nm); if (e) break; } observe(st, pos, "read"); break; }
		case 2: { size_t n = amount(s, bi, pos); c.trace("%s.read_back %zu", nm, n); for (size_t i = 0; i < n; ++i) { bool e = pos == 0; back(st, pos, nm); if (e) break; } observe(st, pos, "read_back"); break; }
		case 3: { size_t n = amount(s, bi, pos); c.trace("%s.read array %zu", nm, n);
			std::vector<T> v(n, T::make(99)); bool t = false;
			try { st.read(v.begin(), v.end()); } catch (tpie::end_of_stream_exception &) { t = true; }
			PBT_CHECK(c, t == (pos + n > data.size()), "%s: array read of %zu at %s: end of stream %s", nm, n, at(pos).c_str(), t ? "thrown" : "not thrown");
			if (!t) { for (size_t i = 0; i < n; ++i) PBT_CHECK(c, v[i] == data[pos + i], "%s: array read element %zu at %s is %s, expected %s", nm, i, at(pos).c_str(), v[i].str().c_str(), data[pos + i].str().c_str()); pos += n; }
			else { c.label("array read past the end"); uint64_t o = st.offset(); PBT_CHECK(c, o >= pos && o <= data.size(), "%s: offset %llu after a failed array read at %s", nm, (unsigned long long)o, at(pos).c_str()); for (size_t i = 0; i < o - pos; ++i) PBT_CHECK(c, v[i] == data[pos + i], "%s: partial array read", nm); pos = o; }
			observe(st, pos, "array read"); break; }
		case 4: { ++moves;
			uint64_t to = s.chance(1, 3) ? std::min<uint64_t>(data.size(), s.below(5) * bi + s.below(3)) : s.below(data.size() + 1);
			unsigned w = (unsigned)s.below(3);
			if (s.chance(1, 10)) {
				int64_t past = 1 + (int64_t)s.below(2 * bi); bool neg = s.flip(), t = false;
				c.trace("%s.seek %s by %lld, whence %u", nm, neg ? "before the beginning" : "past the end", (long long)past, w);
				int64_t tgt = neg ? -past : (int64_t)data.size() + past;
				try { if (w == 0) st.seek(tgt, whence.b); else if (w == 1) st.seek(tgt - (int64_t)data.size(), whence.e); else st.seek(tgt - (int64_t)pos, whence.cur); } catch (tpie::stream_exception &) { t = true; }
				PBT_CHECK(c, t, "%s: seek to %lld of %zu accepted (whence %u)", nm, (long long)tgt, data.size(), w);
				c.label("seek outside rejected");
			} else {
				c.trace("%s.seek %llu, whence %u", nm, (unsigned long long)to, w);
				if (w == 0) st.seek((int64_t)to, whence.b); else if (w == 1) st.seek((int64_t)to - (int64_t)data.size(), whence.e); else st.seek((int64_t)to - (int64_t)pos, whence.cur);
				pos = to;
			}
			observe(st, pos, "seek"); break; }
		case 5: observe(st, pos, "nothing"); break;
		}
	}
	void verify(S & st, uint64_t & pos, const char * nm) {
		st.seek(0, whence.b); pos = 0;
		while (pos < data.size()) read(st, pos, nm);
		observe(st, pos, "reading everything");
		while (pos > 0) back(st, pos, nm);
		observe(st, pos, "reading everything backwards");
	}
};

struct Whence1 { FSB::offset_type b = FSB::beginning, e = FSB::end, cur = FSB::current; };
template <typename T> struct Whence2 { typedef typename tpie::file<T>::stream S; typename S::offset_type b = S::beginning, e = S::end, cur = S::current; };

static std::string fresh_path(Ctx & c) { static int u = 0; return c.dir + pbt::strf("/f%d", u++); }

template <size_t N> static void stream_case(Src & s, Ctx & c) {
	typedef item_t<N> T; typedef tpie::uncompressed_stream<T> S;
	size_t block = block_for(c.index); init_tpie(block);
	Resources res(c.dir); bool crossed = false; int events = 0;
	{
		double factor = s.pick({1.0, 1.0, 0.5, 2.0}); if ((size_t)(block * factor) < N) factor = 1.0;
		size_t bi = (size_t)(block * factor) / N;
		std::vector<T> data; Gen<T> gen; gen.mode = (unsigned)s.below(3);
		std::string path = fresh_path(c); int kind = (int)s.below(3); // path, anonymous, temp file
		std::unique_ptr<tpie::temp_file> tf(kind == 2 ? new tpie::temp_file() : nullptr);
		S a(factor), b(factor); S * st = &a; S * other = &b;
		Ops<T, S, Whence1> ops{s, c, data, bi, gen, Whence1(), s.pick({40u, 200u, 600u}), false};
		uint64_t pos = 0; size_t maxUser = 0; std::vector<unsigned char> user; bool created = false, open = false, canWrite = true;
		auto doOpen = [&]() {
			bool fresh = !created || kind == 1; int acc = fresh ? 0 : (int)s.weighted({4, 3});
			size_t ud = fresh ? s.pick({0, 8, 100, 5000}) : (size_t)s.below(maxUser + 1);
			c.trace("open %s %s, user data %zu", kind == 0 ? "path" : kind == 1 ? "anonymous" : "temp_file", acc ? "ro" : "rw", ud);
			tpie::access_type at = acc ? tpie::access_read : tpie::access_read_write; tpie::cache_hint h = s.pick({tpie::access_sequential, tpie::access_normal, tpie::access_random});
			if (kind == 0) st->open(path, at, ud, h); else if (kind == 1) st->open(ud, h); else st->open(*tf, at, ud, h);
			if (fresh) { data.clear(); maxUser = ud; user.clear(); } else { ++events; c.label("reopen"); }
			created = true; open = true; canWrite = !acc; pos = 0;
			PBT_CHECK(c, st->block_items() == bi, "block_items() %zu", (size_t)st->block_items());
			PBT_CHECK(c, st->is_writable() == canWrite && st->is_readable(), "is_writable/is_readable after open");
			PBT_CHECK(c, st->max_user_data_size() == maxUser, "max_user_data_size() %zu, expected %zu", (size_t)st->max_user_data_size(), maxUser);
			ops.observe(*st, pos, "open");
		};
		doOpen();
		unsigned avg = s.pick({8, 30, 80});
		while (s.more(avg)) {
			unsigned k = (unsigned)s.weighted({36, 3, 3, 3, 3, 3, 3, 1, 2, 1});
			if (data.size() > bi) crossed = true;
			switch (k) {
			case 0: ops.step(*st, pos, "s", canWrite); break;
			case 1: { // peek, skip, skip_back
				unsigned w = (unsigned)s.below(3); c.trace("%s", w == 0 ? "peek" : w == 1 ? "skip" : "skip_back");
				if (w == 0) { if (pos < data.size()) { T v = st->peek(); PBT_CHECK(c, v == data[pos], "peek at %s gave %s, expected %s", ops.at(pos).c_str(), v.str().c_str(), data[pos].str().c_str()); } else { bool t = false; try { st->peek(); } catch (tpie::end_of_stream_exception &) { t = true; } PBT_CHECK(c, t, "peek at the end did not throw"); } }
				else if (w == 1) { bool t = false; try { st->skip(); } catch (tpie::stream_exception &) { t = true; } PBT_CHECK(c, t == (pos == data.size()), "skip at %s %s", ops.at(pos).c_str(), t ? "threw" : "did not throw"); if (!t) ++pos; c.label("skip"); }
				else { bool t = false; try { st->skip_back(); } catch (tpie::stream_exception &) { t = true; } PBT_CHECK(c, t == (pos == 0), "skip_back at %s %s", ops.at(pos).c_str(), t ? "threw" : "did not throw"); if (!t) --pos; }
				ops.observe(*st, pos, "peek/skip"); break; }
			case 2: if (canWrite) { // truncate, possibly extending: contents beyond the old end are unspecified, so write them
				uint64_t to = s.below(data.size() + 1); if (s.chance(1, 3)) to = to / bi * bi;
				c.trace("truncate(%llu)", (unsigned long long)to); st->truncate(to); data.resize(to); if (pos > to) pos = to; ++events; c.label("truncate"); ops.observe(*st, pos, "truncate"); } break;
			case 3: c.trace("close"); st->close(); open = false; PBT_CHECK(c, !st->is_open(), "is_open() after close"); if (kind == 1) created = false; doOpen(); break;
			case 4: if (canWrite) { size_t n = s.below(maxUser + 1); std::vector<unsigned char> u(n); Rng r = s.bulk(); for (auto & x : u) x = (unsigned char)r.next(); c.trace("write_user_data %zu", n); st->write_user_data(u.data(), n); user = u; } break;
			case 5: { std::vector<unsigned char> u(user.size() + 2); size_t n = st->read_user_data(u.data(), u.size()); PBT_CHECK(c, n == user.size() && st->user_data_size() == n, "user data size %zu, expected %zu", n, user.size()); PBT_CHECK(c, std::equal(user.begin(), user.end(), u.begin()), "user data differs"); break; }
			case 7: if (kind != 1) { // written from the start again, by a stream that cannot read
				st->close(); size_t n = s.below(2 * bi + 2), m = s.below(bi + 2); c.trace("reopen write-only, write %zu items and an array of %zu", n, m);
				if (kind == 0) st->open(path, tpie::access_write, maxUser); else st->open(*tf, tpie::access_write, maxUser);
				PBT_CHECK(c, st->is_writable() && !st->is_readable() && st->size() == 0 && st->offset() == 0, "write-only stream: writable %d, readable %d, %llu items", st->is_writable(), st->is_readable(), (unsigned long long)st->size());
				data.clear(); user.clear(); for (size_t i = 0; i < n; ++i) { data.push_back(gen()); st->write(data.back()); }
				std::vector<T> a(m); for (auto & x : a) x = gen(); st->write(a.begin(), a.end()); data.insert(data.end(), a.begin(), a.end());
				PBT_CHECK(c, st->size() == data.size() && st->offset() == data.size(), "write-only stream: size %llu, offset %llu, expected %zu", (unsigned long long)st->size(), (unsigned long long)st->offset(), data.size());
				++events; c.label("write only"); st->close(); doOpen(); } break;
			case 8: { // user data of a type
				struct U12 { uint32_t a[3]; }; struct U8 { uint32_t a[2]; }; U12 u{{(uint32_t)s.below(1000), 2, 3}}; bool t = false;
				if (canWrite) { c.trace("write_user_data<12 bytes>"); try { st->write_user_data(u); } catch (tpie::io_exception &) { t = true; } PBT_CHECK(c, t == (maxUser < 12), "write_user_data of 12 bytes with room for %zu %s", maxUser, t ? "threw" : "did not throw"); if (!t) user.assign((unsigned char *)&u, (unsigned char *)&u + 12); }
				U12 r{{7, 7, 7}}; t = false; try { st->read_user_data(r); } catch (tpie::io_exception &) { t = true; } PBT_CHECK(c, t == (user.size() != 12), "read_user_data of 12 bytes, %zu are there, %s", user.size(), t ? "threw" : "did not throw"); if (!t) PBT_CHECK(c, std::equal(user.begin(), user.end(), (unsigned char *)&r), "user data differs");
				U8 r8; t = false; try { st->read_user_data(r8); } catch (tpie::io_exception &) { t = true; } PBT_CHECK(c, t == (user.size() != 8), "read_user_data of 8 bytes, %zu are there, %s", user.size(), t ? "threw" : "did not throw");
				break; }
			case 9: { // a compressed stream is not for this class
				std::string q = path + ".z"; unlink(q.c_str()); { tpie::file_stream<T> z(factor); z.open(q, tpie::open::compression_all | tpie::open::write_only); T v = gen(); for (size_t i = 0; i < 3; ++i) z.write(v); }
				c.trace("opening a compressed stream"); bool t = false; try { other->open(q, s.flip() ? tpie::access_read : tpie::access_read_write); } catch (tpie::stream_exception &) { t = true; }
				PBT_CHECK(c, t && !other->is_open(), "a compressed stream was opened as an uncompressed one"); { tpie::file_stream<T> z(factor); z.open(q, tpie::open::read_only); PBT_CHECK(c, z.size() == 3, "the refused stream has %llu items, not 3", (unsigned long long)z.size()); } unlink(q.c_str()); c.label("compressed refused"); break; }
			case 6: c.trace("swap"); st->swap(*other); std::swap(st, other); c.label("swap"); ops.observe(*st, pos, "swap"); break;
			}
		}
		if (data.size() > bi) crossed = true;
		ops.verify(*st, pos, "s"); st->close();
		if (kind != 1) { canWrite = false; if (kind == 0) st->open(path, tpie::access_read); else st->open(*tf, tpie::access_read); pos = 0; ops.verify(*st, pos, "reopened"); st->close(); }
		unlink(path.c_str());
		events += ops.moves;
	}
	res.expect_same(c, "after closing the stream");
	c.nontrivial(crossed && events > 0); if (crossed) c.label("more than one block");
}

template <size_t N> static void file_case(Src & s, Ctx & c) {
	typedef item_t<N> T; typedef tpie::file<T> F; typedef typename F::stream S;
	size_t block = block_for(c.index); init_tpie(block);
	Resources res(c.dir); bool crossed = false, shared = false; int events = 0;
	{
		double factor = s.pick({1.0, 1.0, 0.5, 2.0}); if ((size_t)(block * factor) < N) factor = 1.0;
		size_t bi = (size_t)(block * factor) / N;
		std::vector<T> data; Gen<T> gen; gen.mode = (unsigned)s.below(3);
		std::string path = fresh_path(c); int kind = (int)s.below(3); std::unique_ptr<tpie::temp_file> tf(kind == 2 ? new tpie::temp_file() : nullptr);
		F f(factor); bool canWrite = true;
		auto doOpen = [&](bool fresh) {
			int acc = fresh ? 0 : (int)s.weighted({4, 2}); canWrite = !acc; tpie::access_type at = acc ? tpie::access_read : tpie::access_read_write;
			c.trace("file.open(%s)", acc ? "ro" : "rw");
			if (kind == 0) f.open(path, at); else if (kind == 1) { f.open(); data.clear(); } else f.open(*tf, at);
			PBT_CHECK(c, f.size() == data.size(), "file size after open is %llu, expected %zu", (unsigned long long)f.size(), data.size());
		};
		doOpen(true);
		struct Cur { std::unique_ptr<S> s; uint64_t pos; };
		std::vector<Cur> cs; size_t maxc = 1 + s.weighted({2, 4, 2, 1});
		Ops<T, S, Whence2<T>> ops{s, c, data, bi, gen, Whence2<T>(), s.pick({40u, 200u, 600u}), true};
		unsigned avg = s.pick({8, 30, 80});
		while (s.more(avg)) {
			if (data.size() > bi) crossed = true;
			unsigned k = cs.empty() ? 1 : (unsigned)s.weighted({14, 2, 1, 1, 1});
			switch (k) {
			case 0: { size_t i = s.below(cs.size()); std::string nm = pbt::strf("c%zu", i); ops.step(*cs[i].s, cs[i].pos, nm.c_str(), canWrite); if (cs.size() > 1) shared = true; break; }
			case 1: if (cs.size() < maxc) {
				uint64_t o = s.below(data.size() + 1); bool at = s.flip(); c.trace("new cursor c%zu at %llu", cs.size(), at ? 0ull : (unsigned long long)o);
				Cur n; if (at) { n.s.reset(new S()); PBT_CHECK(c, !n.s->attached(), "fresh stream is attached"); n.s->attach(f); n.pos = 0; } else { n.s.reset(new S(f, o)); n.pos = o; }
				PBT_CHECK(c, n.s->attached(), "attached()"); ops.observe(*n.s, n.pos, "attach"); cs.push_back(std::move(n)); } break;
			case 2: { size_t i = s.below(cs.size()); c.trace("detach c%zu", i); if (s.flip()) cs[i].s->detach(); cs.erase(cs.begin() + i); ++events; break; }
			case 3: { c.trace("close everything"); cs.clear(); f.close(); if (kind == 1) data.clear(); doOpen(false); ++events; c.label("reopen"); break; }
			case 4: if (canWrite) { cs.clear(); uint64_t to = s.below(data.size() + 1); if (s.chance(1, 3)) to = to / bi * bi; c.trace("detach all, file.truncate(%llu)", (unsigned long long)to); f.truncate(to); data.resize(to); PBT_CHECK(c, f.size() == to, "size after truncate"); ++events; c.label("truncate"); } break;
			}
			PBT_CHECK(c, f.size() == data.size(), "file.size() is %llu, expected %zu", (unsigned long long)f.size(), data.size());
		}
		if (data.size() > bi) crossed = true;
		for (size_t i = 0; i < cs.size(); ++i) ops.verify(*cs[i].s, cs[i].pos, "cursor");
		cs.clear();
		if (kind != 1) { f.close(); if (kind == 0) f.open(path, tpie::access_read); else f.open(*tf, tpie::access_read); PBT_CHECK(c, f.size() == data.size(), "size after reopening"); }
		{ S v(f); uint64_t p = 0; ops.verify(v, p, "final"); }
		f.close(); unlink(path.c_str());
		events += ops.moves;
	}
	res.expect_same(c, "after closing the file");
	c.nontrivial(crossed && shared); if (crossed) c.label("more than one block"); if (shared) c.label("several cursors");
}

template <size_t N, template <typename> class ST> static void ami_with(Src & s, Ctx & c) {
	typedef item_t<N> T; typedef ST<T> S;
	size_t block = block_for(c.index); init_tpie(block);
	Resources res(c.dir); bool crossed = false; int events = 0;
	{
		size_t bi = block / N; std::vector<T> data; Gen<T> gen; std::string path = fresh_path(c); bool temp = s.chance(1, 3);
		std::unique_ptr<S> st; uint64_t pos = 0; bool ro = false; bool del = temp;
		auto mk = [&](bool first) {
			int t = first ? 0 : (int)s.below(3);
			if (temp) st.reset(new S()); else st.reset(new S(path, t == 0 ? tpie::ami::READ_WRITE_STREAM : t == 1 ? tpie::ami::READ_STREAM : tpie::ami::APPEND_STREAM));
			c.trace("open as %s", temp ? "temporary" : t == 0 ? "READ_WRITE" : t == 1 ? "READ" : "APPEND");
			PBT_CHECK(c, st->is_valid() && st->status() == tpie::ami::STREAM_STATUS_VALID && !!*st, "stream is not valid after opening");
			if (temp) data.clear(); ro = !temp && t == 1; pos = !temp && t == 2 ? data.size() : 0;
			PBT_CHECK(c, (st->persist() == tpie::PERSIST_PERSISTENT) == !temp, "default persistence");
			if (!temp) PBT_CHECK(c, st->name() == path, "name()");
		};
		mk(true);
		unsigned avg = s.pick({8, 30, 60});
		while (s.more(avg)) {
			PBT_CHECK(c, st->tell() == (int64_t)pos && st->stream_len() == (int64_t)data.size(), "tell() %lld, expected %llu; stream_len() %lld, expected %zu", (long long)st->tell(), (unsigned long long)pos, (long long)st->stream_len(), data.size());
			if (data.size() > bi) crossed = true;
			unsigned k = (unsigned)s.weighted({5, 5, 3, 3, 3, 1, 1}); if (ro && (k == 0 || k == 2 || k == 5)) k = 1;
			switch (k) {
			case 0: { size_t n = amount(s, bi, pos); if (data.size() > 500) n = 1; c.trace("write_item x%zu", n); for (size_t i = 0; i < n; ++i) { T v = gen(); PBT_CHECK(c, st->write_item(v) == tpie::ami::NO_ERROR, "write_item"); if (pos < data.size()) data[pos] = v; else data.push_back(v); ++pos; } break; }
			case 1: { size_t n = amount(s, bi, pos); c.trace("read_item x%zu", n); for (size_t i = 0; i < n; ++i) { T * p = nullptr; tpie::ami::err e = st->read_item(&p); if (pos == data.size()) { PBT_CHECK(c, e == tpie::ami::END_OF_STREAM, "read_item at the end returned %d", (int)e); break; } PBT_CHECK(c, e == tpie::ami::NO_ERROR && *p == data[pos], "read_item at %llu of %zu", (unsigned long long)pos, data.size()); ++pos; } break; }
			case 2: { size_t n = s.below(2 * bi + 2); if (data.size() > 500) n = 0; std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(gen()); c.trace("write_array %zu", n); PBT_CHECK(c, st->write_array(v.data(), n) == tpie::ami::NO_ERROR, "write_array"); for (auto & x : v) { if (pos < data.size()) data[pos] = x; else data.push_back(x); ++pos; } break; }
			case 3: { size_t n = s.below(2 * bi + 2); std::vector<T> v(n + 1); tpie::memory_size_type len = n; c.trace("read_array %zu", n); size_t have = std::min<uint64_t>(n, data.size() - pos); tpie::ami::err e = st->read_array(v.data(), len); PBT_CHECK(c, e == (have == n ? tpie::ami::NO_ERROR : tpie::ami::END_OF_STREAM), "read_array of %zu with %zu left returned %d", n, have, (int)e); for (size_t i = 0; i < have; ++i) PBT_CHECK(c, v[i] == data[pos + i], "read_array element %zu", i); pos += have; break; }
			case 4: { ++events; uint64_t to = s.below(data.size() + 1); c.trace("seek %llu", (unsigned long long)to); PBT_CHECK(c, st->seek((int64_t)to) == tpie::ami::NO_ERROR, "seek"); pos = to; if (s.chance(1, 6)) PBT_CHECK(c, st->seek((int64_t)data.size() + 1 + (int64_t)s.below(9)) == tpie::ami::BTE_ERROR, "seek past the end accepted"); break; }
			case 5: { ++events; uint64_t to = s.below(data.size() + 1); c.trace("truncate %llu", (unsigned long long)to); PBT_CHECK(c, st->truncate((int64_t)to) == tpie::ami::NO_ERROR, "truncate"); data.resize(to); if (pos > to) pos = to;
				break; }
			case 6: if (!temp) { c.trace("close"); ++events; if (s.chance(1, 4)) { st->persist(tpie::PERSIST_DELETE); PBT_CHECK(c, st->persist() == tpie::PERSIST_DELETE, "persist()"); del = true; } st.reset(); PBT_CHECK(c, file_exists(path) == !del, "file %s after a stream with persistence %s was destroyed", del ? "still exists" : "is gone", del ? "delete" : "persistent"); if (del) data.clear(); mk(del); del = false; } break;
			}
		}
		PBT_CHECK(c, st->seek(0) == tpie::ami::NO_ERROR, "seek");
		for (size_t i = 0; i < data.size(); ++i) { T * p = nullptr; PBT_CHECK(c, st->read_item(&p) == tpie::ami::NO_ERROR && *p == data[i], "final read of item %zu of %zu", i, data.size()); }
		std::string nm = st->name(); st.reset();
		PBT_CHECK(c, file_exists(nm) == !temp, "file existence after destruction");
		unlink(path.c_str());
	}
	res.expect_same(c, "after destroying the stream");
	c.nontrivial(crossed && events > 0);
}

template <size_t N> static void ami_case(Src & s, Ctx & c) { if (s.weighted({2, 1}) == 0) ami_with<N, tpie::ami::stream>(s, c); else { c.trace("stream_old"); ami_with<N, tpie::ami::stream_old>(s, c); } }

#define SZ(fn) static void fn##_(Src & s, Ctx & c) { switch (s.weighted({4, 2, 2, 1, 1})) { case 0: fn##_case<4>(s, c); break; case 1: fn##_case<8>(s, c); break; case 2: fn##_case<12>(s, c); break; case 3: fn##_case<1>(s, c); break; default: fn##_case<40>(s, c); } }
// Positions, sizes and block numbers that do not fit into 32 bits.
template <size_t N> static void huge_case(Src & s, Ctx & c) {
	typedef item_t<N> T; const uint64_t most = 400ull << 30; AnySize any; if (!sparse_ok(c.dir, most)) { c.label("no sparse files here"); return; }
	size_t b = block_for(c.index); init_tpie(b);
	Resources res(c.dir); std::string path = fresh_path(c); Huge<T> h(s, c, b / N);
	switch (s.below(3)) {
	case 0: { c.trace("uncompressed_stream");
		tpie::uncompressed_stream<T> st; st.open(path);
		h.seek = [&](int64_t o, int w) { st.seek(o, w == 0 ? FSB::beginning : w == 1 ? FSB::end : FSB::current); }; h.read = [&] { return st.read(); }; h.back = [&] { return st.read_back(); }; h.write = [&](const T & v) { st.write(v); };
		h.sizeOf = [&] { return st.size(); }; h.offset = [&] { return st.offset(); }; h.canRead = [&] { return st.can_read(); }; h.canBack = [&] { return st.can_read_back(); }; h.truncate = [&](uint64_t n) { st.truncate(n); };
		h.reopen = [&] { st.close(); st.open(path); }; h.run(most); break; }
	case 1: { c.trace("file::stream");
		typedef typename tpie::file<T>::stream S; tpie::file<T> f; f.open(path); std::unique_ptr<S> st(new S(f)), other(new S(f));
		h.seek = [&](int64_t o, int w) { if (s.flip()) st.swap(other); if (w == 2) { o += (int64_t)h.pos; w = 0; } st->seek(o, w == 0 ? S::beginning : S::end); }; h.read = [&] { return st->read(); }; h.back = [&] { return st->read_back(); }; h.write = [&](const T & v) { st->write(v); };
		h.sizeOf = [&] { return f.size(); }; h.offset = [&] { return st->offset(); }; h.canRead = [&] { return st->can_read(); }; h.canBack = [&] { return st->can_read_back(); };
		h.truncate = [&](uint64_t n) { st.reset(); other.reset(); f.truncate(n); st.reset(new S(f)); other.reset(new S(f)); uint64_t to = std::min(h.pos, n); if (to) st->seek((int64_t)to, S::beginning); };
		h.reopen = [&] { st.reset(); other.reset(); f.close(); f.open(path); st.reset(new S(f)); other.reset(new S(f)); }; h.run(most); break; }
	default: { c.trace("AMI stream");
		typedef tpie::ami::stream<T> S; std::unique_ptr<S> st(new S(path, tpie::ami::READ_WRITE_STREAM)); auto ok = [&](tpie::ami::err e, const char * op) { PBT_CHECK(c, e == tpie::ami::NO_ERROR, "%s gave error %d", op, (int)e); };
		h.seek = [&](int64_t o, int w) { ok(st->seek(w == 0 ? o : w == 1 ? (int64_t)h.size + o : (int64_t)h.pos + o), "seek"); }; h.read = [&] { T * p = nullptr; ok(st->read_item(&p), "read_item"); return *p; };
		h.back = [&] { uint64_t at = h.pos - 1; T * p = nullptr; ok(st->seek((int64_t)at), "seek"); ok(st->read_item(&p), "read_item"); T v = *p; ok(st->seek((int64_t)at), "seek"); return v; }; h.write = [&](const T & v) { ok(st->write_item(v), "write_item"); };
		h.sizeOf = [&] { return (uint64_t)st->stream_len(); }; h.offset = [&] { return (uint64_t)st->tell(); }; h.canRead = [&] { return h.pos < h.size; }; h.canBack = [&] { return h.pos > 0; };
		h.truncate = [&](uint64_t n) { ok(st->truncate((int64_t)n), "truncate"); }; h.reopen = [&] { st.reset(); st.reset(new S(path, tpie::ami::READ_WRITE_STREAM)); }; h.run(most); }
	}
	unlink(path.c_str()); res.expect_same(c, "after closing the stream");
}

SZ(stream) SZ(file) SZ(ami) SZ(huge)

int main(int argc, char ** argv) {
	pbt::Suite su; su.property = "C03";
	su.rule = "random histories on an uncompressed_stream, on 1-4 cursors attached to one tpie::file, and on an AMI stream, compared with one vector and one cursor each after every step; non-trivial: the file grew beyond one block and (stream, ami) was repositioned, truncated or reopened or (file) was used through several cursors at once; huge: up to 400 GiB in sparse files, against a map of the items written";
	su.scenarios.push_back({"stream", stream_, 20000, 300000, BATCH});
	su.scenarios.push_back({"file", file_, 20000, 300000, BATCH});
	su.scenarios.push_back({"ami", ami_, 8000, 120000, BATCH});
	su.scenarios.push_back({"huge", huge_, 1200, 20000, BATCH});
	return pbt::main_loop(argc, argv, su);
}
