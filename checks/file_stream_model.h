// Model-based test of tpie::file_stream (uncompressed and compressed).
#pragma once
#include "common.h"
#include <tpie/file_stream.h>
#include <tpie/compressed/thread.h>
#include <tpie/compressed/scheme.h>

namespace tv {

enum class Kind { closed, path, temp, anon };

template <typename T>
struct FsSlot {
	typedef tpie::file_stream<T> S;
	std::unique_ptr<S> s;
	std::unique_ptr<tpie::temp_file> tf;
	std::string path;
	double factor = 1.0;
	size_t bi = 1;           // block items
	bool compressed = false; // what the file is
	bool open = false, canWrite = true, canRead = true, created = false;
	Kind kind = Kind::closed;
	std::vector<T> data;
	uint64_t pos = 0;
	size_t maxUser = 0; std::vector<unsigned char> user;
	struct P { tpie::stream_position p; uint64_t off; };
	std::vector<P> saved;
};

template <typename T>
struct FsModel {
	Src & s; Ctx & c; bool allowCompressed, allowUncompressed;
	std::vector<FsSlot<T>> slots;
	uint64_t counter = 0;
	bool crossed = false; int events = 0;
	unsigned mode = 0;
	size_t maxItems;

	FsModel(Src & s, Ctx & c, bool comp, bool uncomp) : s(s), c(c), allowCompressed(comp), allowUncompressed(uncomp) {}

	T fresh() {
		uint64_t v;
		switch (mode) { case 0: v = ++counter; break; case 1: v = ++counter / 7 * 2; break; default: v = ++counter * 0x9E3779B97F4A7C15ull; }
		return T::make(v);
	}
	static std::string st(const FsSlot<T> & f) { return pbt::strf("pos %llu of %zu, %zu per block%s", (unsigned long long)f.pos, f.data.size(), f.bi, f.compressed ? ", compressed" : ""); }

	void observe(size_t k, const char * op) {
		FsSlot<T> & f = slots[k];
		PBT_CHECK(c, f.s->is_open() == f.open, "after %s: is_open() is %d, expected %d", op, f.s->is_open(), f.open);
		if (!f.open) return;
		PBT_CHECK(c, f.s->size() == f.data.size(), "after %s (%s): size() is %llu", op, st(f).c_str(), (unsigned long long)f.s->size());
		PBT_CHECK(c, f.s->offset() == f.pos, "after %s (%s): offset() is %llu", op, st(f).c_str(), (unsigned long long)f.s->offset());
		PBT_CHECK(c, f.s->can_read() == (f.pos < f.data.size()), "after %s (%s): can_read() is %d", op, st(f).c_str(), f.s->can_read());
		PBT_CHECK(c, f.s->can_read_back() == (f.pos > 0), "after %s (%s): can_read_back() is %d", op, st(f).c_str(), f.s->can_read_back());
		PBT_CHECK(c, f.s->file_size() == f.data.size(), "after %s: file_size()", op);
		if (f.data.size() > f.bi) crossed = true;
	}

	void openSlot(size_t k) {
		FsSlot<T> & f = slots[k];
		typedef tpie::open o;
		Kind kind;
		switch (s.weighted({4, 2, 2})) { case 0: kind = Kind::path; break; case 1: kind = Kind::anon; break; default: kind = Kind::temp; }
		// a slot keeps its kind once it has a file, so that reopening is common
		if (f.created) kind = f.kind;
		bool fresh = !f.created || kind == Kind::anon;
		int access = fresh ? (kind != Kind::anon && s.chance(1, 8) ? 2 : 0) : (int)s.weighted({5, 3, 1}); // 0 rw, 1 ro, 2 wo
		int comp = 0;
		if (fresh || access == 2) {
			if (allowCompressed && allowUncompressed) comp = (int)s.below(3); else if (allowCompressed) comp = 1 + (int)s.below(2); else comp = 0;
		} else comp = (int)s.below(3); // ignored for an existing file
		size_t ud = fresh || access == 2 ? s.pick({0, 0, 8, 100, 5000}) : (size_t)s.below(f.maxUser + 1);
		bool tooBig = false;
		if (!fresh && access == 0 && s.chance(1, 25)) { ud = f.maxUser + 1 + (size_t)s.below(10); tooBig = true; }
		int hint = (int)s.below(3);
		o::type fl = o::defaults;
		if (access == 1) fl = fl | o::read_only; if (access == 2) fl = fl | o::write_only;
		if (hint == 1) fl = fl | o::access_normal; if (hint == 2) fl = fl | o::access_random;
		if (comp == 1) fl = fl | o::compression_normal; if (comp == 2) fl = fl | o::compression_all;
		c.trace("s%zu.open(%s, access=%s, compression=%d, userdata=%zu)", k, kind == Kind::path ? "path" : kind == Kind::anon ? "anonymous" : "temp_file", access == 0 ? "rw" : access == 1 ? "ro" : "wo", comp, ud);
		bool deprecated = s.chance(1, 4);
		try {
			if (deprecated) {
				tpie::access_type at = access == 1 ? tpie::access_read : access == 2 ? tpie::access_write : tpie::access_read_write;
				tpie::cache_hint ch = hint == 1 ? tpie::access_normal : hint == 2 ? tpie::access_random : tpie::access_sequential;
				tpie::compression_flags cf = comp == 1 ? tpie::compression_normal : comp == 2 ? tpie::compression_all : tpie::compression_none;
				if (access == 0 && ud == 0 && s.flip()) {
					if (kind == Kind::path) f.s->open(f.path, cf);
					else if (kind == Kind::anon) f.s->open(cf);
					else { if (!f.tf) f.tf.reset(new tpie::temp_file()); f.s->open(*f.tf, cf); }
				}
				else if (kind == Kind::path) f.s->open(f.path, at, ud, ch, cf);
				else if (kind == Kind::anon) f.s->open(ud, ch, cf);
				else { if (!f.tf) f.tf.reset(new tpie::temp_file()); f.s->open(*f.tf, at, ud, ch, cf); }
			} else {
				if (kind == Kind::path) f.s->open(f.path, fl, ud);
				else if (kind == Kind::anon) f.s->open(fl, ud);
				else { if (!f.tf) f.tf.reset(new tpie::temp_file()); f.s->open(*f.tf, fl, ud); }
			}
			PBT_CHECK(c, !tooBig, "opening with a larger user data area than the file has did not fail");
		} catch (tpie::invalid_file_exception &) {
			PBT_CHECK(c, tooBig, "open threw invalid_file_exception on a stream that was closed properly");
			c.label("open with too large user data rejected");
			f.open = false;
			return;
		}
		if (kind == Kind::path) PBT_CHECK(c, f.s->path() == f.path, "path() is wrong");
		f.open = true; f.canWrite = access != 1; f.kind = kind;
		f.canRead = access != 2;
		if (fresh || access == 2) {
			f.data.clear(); f.saved.clear(); f.compressed = comp != 0; f.maxUser = ud; f.user.clear(); f.created = true;
		} else { ++events; c.label("reopen"); }
		f.pos = 0;
		PBT_CHECK(c, f.s->block_items() == f.bi, "block_items() is %zu, expected %zu", (size_t)f.s->block_items(), f.bi);
		PBT_CHECK(c, f.s->is_writable() == f.canWrite, "is_writable()");
		PBT_CHECK(c, f.s->is_readable() == (access != 2), "is_readable()");
		PBT_CHECK(c, f.s->max_user_data_size() == f.maxUser, "max_user_data_size() is %zu, expected %zu", (size_t)f.s->max_user_data_size(), f.maxUser);
		PBT_CHECK(c, f.s->user_data_size() == f.user.size(), "user_data_size() is %zu, expected %zu", (size_t)f.s->user_data_size(), f.user.size());
		observe(k, "open");
	}

	void closeSlot(size_t k) {
		FsSlot<T> & f = slots[k];
		c.trace("s%zu.close()", k);
		f.s->close();
		f.open = false;
		if (f.kind == Kind::anon) { f.created = false; f.data.clear(); f.saved.clear(); }
		observe(k, "close");
	}

	void readOne(size_t k, int how) {
		FsSlot<T> & f = slots[k];
		if (f.pos == f.data.size()) {
			try { if (how == 1) f.s->peek(); else if (how == 2) f.s->skip(); else f.s->read(); }
			catch (tpie::end_of_stream_exception &) { c.label("read at end"); return; }
			c.fail("read at the end of the stream did not throw (%s)", st(f).c_str());
		}
		if (how == 2) { f.s->skip(); ++f.pos; return; }
		T v = how == 1 ? f.s->peek() : f.s->read();
		PBT_CHECK(c, v == f.data[f.pos], "%s at %s gave %s, expected %s", how == 1 ? "peek" : "read", st(f).c_str(), v.str().c_str(), f.data[f.pos].str().c_str());
		if (how != 1) ++f.pos;
	}
	void backOne(size_t k, bool skip) {
		FsSlot<T> & f = slots[k];
		if (f.pos == 0) {
			try { if (skip) f.s->skip_back(); else f.s->read_back(); }
			catch (tpie::end_of_stream_exception &) { c.label("read_back at beginning"); return; }
			c.fail("read_back at the beginning did not throw");
		}
		if (skip) { f.s->skip_back(); --f.pos; return; }
		T v = f.s->read_back();
		PBT_CHECK(c, v == f.data[f.pos - 1], "read_back at %s gave %s, expected %s", st(f).c_str(), v.str().c_str(), f.data[f.pos - 1].str().c_str());
		--f.pos;
	}
	void writeN(size_t k, size_t n, bool array) {
		FsSlot<T> & f = slots[k];
		if (n == 0) { std::vector<T> e; f.s->write(e.begin(), e.end()); return; }
		if (f.compressed && f.pos != f.data.size()) {
			T v = fresh();
			try { f.s->write(v); } catch (tpie::stream_exception &) { c.label("non-appending write rejected"); return; }
			c.fail("a write inside a compressed stream was accepted (%s)", st(f).c_str());
		}
		if (!f.compressed && f.pos < f.data.size()) c.label("overwrite");
		std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(fresh());
		if (array) f.s->write(v.begin(), v.end()); else for (auto & x : v) f.s->write(x);
		for (auto & x : v) { if (f.pos < f.data.size()) f.data[f.pos] = x; else f.data.push_back(x); ++f.pos; }
	}
	void truncated(FsSlot<T> & f, uint64_t n) {
		f.data.resize(n);
		if (f.pos > n) f.pos = n;
		std::vector<typename FsSlot<T>::P> keep;
		for (auto & p : f.saved) if (p.off <= n) keep.push_back(p);
		f.saved.swap(keep);
		++events;
	}
	size_t amount(FsSlot<T> & f) {
		switch (s.weighted({3, 3, 2, 2})) {
		case 0: return 1;
		case 1: return 1 + s.below(f.bi + 1);
		case 2: { size_t r = f.bi - f.pos % f.bi; return r; } // to a block boundary
		default: return 1 + s.below(3 * f.bi + 2);
		}
	}

	void step() {
		size_t k = slots.size() > 1 ? s.below(slots.size()) : 0;
		FsSlot<T> & f = slots[k];
		if (!f.open) {
			if (s.chance(1, 12)) {
				T v = fresh();
				bool threw = false;
				try { if (s.flip()) f.s->read(); else f.s->write(v); } catch (tpie::stream_exception &) { threw = true; }
				PBT_CHECK(c, threw, "read or write on a closed stream did not throw");
				c.label("use of closed stream rejected");
				return;
			}
			openSlot(k); return;
		}
		unsigned op = (unsigned)s.weighted({6, 6, 2, 1, 2, 5, 1, 3, 3, 3, 2, 2, 2, 1, 1, 1});
		if (!f.canRead && (op == 1 || op == 2 || op == 3 || op == 4 || op == 5 || op == 6)) op = 0;
		if (!f.canWrite && (op == 0 || op == 10 || op == 12)) op = 1;
		switch (op) {
		case 0: { size_t n = amount(f); if (f.data.size() + n > maxItems && f.pos == f.data.size()) { n = 1; if (f.data.size() > 2 * maxItems) return; } bool arr = s.flip();
			c.trace("s%zu.write %zu items%s", k, n, arr ? " (array)" : ""); writeN(k, n, arr); observe(k, "write"); break; }
		case 1: { size_t n = amount(f); c.trace("s%zu.read %zu items", k, n); for (size_t i = 0; i < n; ++i) { readOne(k, 0); if (f.pos == f.data.size()) { if (i + 1 < n) readOne(k, 0); break; } } observe(k, "read"); break; }
		case 2: c.trace("s%zu.peek", k); readOne(k, 1); observe(k, "peek"); break;
		case 3: c.trace("s%zu.skip", k); readOne(k, 2); observe(k, "skip"); break;
		case 4: { // array read
			size_t n = amount(f); c.trace("s%zu.read array of %zu", k, n); std::vector<T> v(n, T::make(77)); bool eos = false;
			size_t have = std::min<uint64_t>(n, f.data.size() - f.pos);
			try { f.s->read(v.begin(), v.end()); } catch (tpie::end_of_stream_exception &) { eos = true; }
			PBT_CHECK(c, eos == (have < n), "array read of %zu at %s: end-of-stream exception %s", n, st(f).c_str(), eos ? "thrown" : "missing");
			for (size_t i = 0; i < have; ++i) PBT_CHECK(c, v[i] == f.data[f.pos + i], "array read element %zu at %s is %s, expected %s", i, st(f).c_str(), v[i].str().c_str(), f.data[f.pos + i].str().c_str());
			f.pos += have; observe(k, "array read"); break; }
		case 5: { size_t n = amount(f); c.trace("s%zu.read_back %zu items", k, n); c.label("read_back"); for (size_t i = 0; i < n; ++i) { bool end = f.pos == 0; backOne(k, false); if (end) break; } observe(k, "read_back"); break; }
		case 6: c.trace("s%zu.skip_back", k); backOne(k, true); observe(k, "skip_back"); break;
		case 7: { // seek
			++events;
			if (f.compressed) {
				unsigned w = (unsigned)s.weighted({4, 4, 1, 1});
				if (w == 0) { c.trace("s%zu.seek(0)", k); f.s->seek(0); f.pos = 0; }
				else if (w == 1) { c.trace("s%zu.seek(0, end)", k); f.s->seek(0, tpie::compressed_stream_base::end); f.pos = f.data.size(); }
				else if (w == 2) { c.trace("s%zu.seek(0, current)", k); f.s->seek(0, tpie::compressed_stream_base::current); }
				else { c.trace("s%zu.seek(1) on compressed", k); bool t = false; try { f.s->seek(1); } catch (tpie::stream_exception &) { t = true; } PBT_CHECK(c, t, "random seek in a compressed stream was accepted"); }
			} else {
				uint64_t to = s.chance(1, 3) ? std::min<uint64_t>(f.data.size(), s.below(5) * f.bi + s.below(3)) : s.below(f.data.size() + 1);
				unsigned w = (unsigned)s.below(3);
				if (s.chance(1, 20)) {
					bool t = false; int64_t past = 1 + (int64_t)s.below(3 * f.bi);
					c.trace("s%zu.seek outside by %lld, whence %u", k, (long long)past, w);
					try { if (w == 0) f.s->seek((int64_t)f.data.size() + past); else if (w == 1) f.s->seek(past, tpie::compressed_stream_base::end); else f.s->seek(-(int64_t)f.pos - past, tpie::compressed_stream_base::current); }
					catch (tpie::stream_exception &) { t = true; }
					PBT_CHECK(c, t, "seek outside the stream was accepted");
					c.label("seek outside rejected");
				} else {
					c.trace("s%zu.seek to %llu, whence %u", k, (unsigned long long)to, w);
					if (w == 0) f.s->seek((int64_t)to); else if (w == 1) f.s->seek((int64_t)to - (int64_t)f.data.size(), tpie::compressed_stream_base::end); else f.s->seek((int64_t)to - (int64_t)f.pos, tpie::compressed_stream_base::current);
					f.pos = to;
				}
			}
			observe(k, "seek"); break; }
		case 8: { // get_position
			c.trace("s%zu.get_position at %llu", k, (unsigned long long)f.pos);
			tpie::stream_position p = f.s->get_position();
			PBT_CHECK(c, p.offset() == f.pos, "get_position().offset() is %llu at %s", (unsigned long long)p.offset(), st(f).c_str());
			if (f.saved.size() < 24) f.saved.push_back({p, f.pos}); else f.saved[s.below(24)] = {p, f.pos};
			observe(k, "get_position"); break; }
		case 9: { // set_position
			if (f.saved.empty()) { c.trace("s%zu.set_position(end)", k); f.s->set_position(tpie::stream_position::end()); f.pos = f.data.size(); }
			else { size_t i = s.below(f.saved.size()); c.trace("s%zu.set_position(%llu)", k, (unsigned long long)f.saved[i].off); f.s->set_position(f.saved[i].p); f.pos = f.saved[i].off; c.label("set_position"); }
			++events; observe(k, "set_position"); break; }
		case 10: { // truncate
			unsigned w = (unsigned)s.weighted({1, 1, 4, 4});
			if (w == 0) { c.trace("s%zu.truncate(0)", k); f.s->truncate(0); truncated(f, 0); c.label("truncate to 0"); }
			else if (w == 1) { c.trace("s%zu.truncate(size)", k); f.s->truncate(f.data.size()); }
			else if (w == 2 && !f.saved.empty()) {
				auto p = f.saved[s.below(f.saved.size())];
				c.trace("s%zu.truncate(position %llu)", k, (unsigned long long)p.off);
				c.label(p.off % f.bi == 0 ? "truncate to a position on a block boundary" : "truncate to a position");
				f.s->truncate(p.p); truncated(f, p.off);
			} else if (!f.compressed) {
				uint64_t to = s.below(f.data.size() + 1); if (s.chance(1, 3)) to = to / f.bi * f.bi;
				c.trace("s%zu.truncate(%llu)", k, (unsigned long long)to); c.label("truncate to an offset");
				f.s->truncate(to); truncated(f, to);
			} else if (f.data.size() > 1) {
				bool t = false; c.trace("s%zu.truncate(1) on compressed", k);
				try { f.s->truncate(1); } catch (tpie::stream_exception &) { t = true; }
				PBT_CHECK(c, t, "arbitrary truncate of a compressed stream was accepted");
			}
			observe(k, "truncate"); break; }
		case 11: closeSlot(k); if (s.chance(7, 8)) openSlot(k); break;
		case 12: { // write user data
			size_t n = s.below(f.maxUser + 1);
			std::vector<unsigned char> u(n); Rng r = s.bulk(); for (auto & x : u) x = (unsigned char)r.next();
			if (s.chance(1, 10)) {
				std::vector<unsigned char> big(f.maxUser + 1); bool t = false;
				try { f.s->write_user_data(big.data(), big.size()); } catch (tpie::stream_exception &) { t = true; }
				PBT_CHECK(c, t, "user data larger than its area was accepted");
			}
			c.trace("s%zu.write_user_data(%zu bytes)", k, n);
			f.s->write_user_data(u.data(), n); f.user = u; c.label("user data written");
			observe(k, "write_user_data"); break; }
		case 13: readUser(k); observe(k, "read_user_data"); break;
		case 14: { c.trace("s%zu.describe", k); f.s->describe(); observe(k, "describe"); break; }
		case 15: { // preferred compression scheme
			if (!allowCompressed) break;
			bool sn = s.flip(); c.trace("prefer %s", sn ? "snappy" : "none");
			tpie::compressor_thread_lock l(tpie::the_compressor_thread());
			tpie::the_compressor_thread().set_preferred_compression(l, sn ? tpie::compression_scheme::snappy : tpie::compression_scheme::none);
			break; }
		}
	}
	void readUser(size_t k) {
		FsSlot<T> & f = slots[k];
		PBT_CHECK(c, f.s->user_data_size() == f.user.size(), "user_data_size() is %zu, expected %zu", (size_t)f.s->user_data_size(), f.user.size());
		std::vector<unsigned char> u(f.user.size() + 3, 0xEE);
		size_t n = f.s->read_user_data(u.data(), u.size());
		PBT_CHECK(c, n == f.user.size(), "read_user_data returned %zu, expected %zu", n, f.user.size());
		for (size_t i = 0; i < n; ++i) PBT_CHECK(c, u[i] == f.user[i], "user data byte %zu differs", i);
	}
	void verify(size_t k) {
		FsSlot<T> & f = slots[k];
		if (!f.open) { if (!f.created) return; f_ro_open(k); }
		if (!f.canRead) { if (f.kind == Kind::anon) return; closeSlot(k); f_ro_open(k); }
		c.trace("s%zu: verify all", k);
		f.s->seek(0); f.pos = 0;
		while (f.pos < f.data.size()) readOne(k, 0);
		observe(k, "reading everything");
		while (f.pos > 0) backOne(k, false);
		observe(k, "reading everything backwards");
		f.s->seek(0, tpie::compressed_stream_base::end); f.pos = f.data.size();
		while (f.pos > 0) backOne(k, false);
		readUser(k);
	}
	void f_ro_open(size_t k) {
		FsSlot<T> & f = slots[k];
		if (f.kind == Kind::path) f.s->open(f.path, tpie::open::read_only); else f.s->open(*f.tf, tpie::open::read_only);
		f.open = true; f.canRead = true; f.canWrite = false; f.pos = 0;
		observe(k, "read-only open");
	}

	void run(size_t blockBytes) {
		Resources res(c.dir);
		{
			size_t n = 1 + s.weighted({5, 2, 1});
			mode = (unsigned)s.below(3);
			maxItems = s.pick({40, 200, 600});
			slots.resize(n);
			static int uniq = 0;
			for (size_t i = 0; i < n; ++i) {
				FsSlot<T> & f = slots[i];
				f.factor = s.pick({1.0, 1.0, 1.0, 0.5, 2.0, 3.0});
				if ((size_t)(blockBytes * f.factor) < sizeof(T)) f.factor = 1.0;
				f.bi = (size_t)(blockBytes * f.factor) / sizeof(T);
				f.path = c.dir + pbt::strf("/f%d_%zu.tpie", uniq++, i);
				c.trace("stream s%zu: item %zu bytes, block %zu bytes (%zu items)", i, sizeof(T), (size_t)(blockBytes * f.factor), f.bi);
				f.s.reset(new tpie::file_stream<T>(f.factor));
			}
			unsigned avg = s.pick({6, 25, 80});
			while (s.more(avg)) step();
			for (size_t i = 0; i < n; ++i) verify(i);
			for (size_t i = 0; i < n; ++i) {
				FsSlot<T> & f = slots[i];
				if (f.open) closeSlot(i);
				if (f.created) { f_ro_open(i); verify(i); closeSlot(i); }
			}
			for (size_t i = 0; i < n; ++i) { std::string p = slots[i].path; slots[i].s.reset(); slots[i].tf.reset(); unlink(p.c_str()); }
			slots.clear();
		}
		res.expect_same(c, "after closing all streams");
		c.nontrivial(crossed && events > 0);
		if (crossed) c.label("more than one block");
	}
};

} // namespace tv
