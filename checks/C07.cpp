// Serialization: any value written is read back equal, in memory and through forward and reverse serialization streams.
#include "common.h"
#include <tpie/serialization2.h>
#include <tpie/serialization_stream.h>
#include <tpie/array.h>
#include <tpie/tempname.h>
#include <list>
#include <deque>
#include <array>
#include <tuple>
#include <fstream>
#include <sys/wait.h>
using namespace tv;

static const size_t BATCH = 16;
namespace usr { // a user type found by argument-dependent lookup: tag, then a payload of variable size
struct shape { uint8_t kind = 0; std::vector<int32_t> pts; std::string name; bool operator==(const shape & o) const { return kind == o.kind && pts == o.pts && name == o.name; } };
template <typename D> void serialize(D & d, const shape & s) { using tpie::serialize; serialize(d, s.kind); if (s.kind & 1) serialize(d, s.pts); if (s.kind & 2) serialize(d, s.name); }
template <typename S> void unserialize(S & d, shape & s) { using tpie::unserialize; s = shape(); unserialize(d, s.kind); if (s.kind & 1) unserialize(d, s.pts); if (s.kind & 2) unserialize(d, s.name); }
struct pod { int32_t a; char b[5]; double c; bool operator==(const pod & o) const { return a == o.a && memcmp(b, o.b, 5) == 0 && memcmp(&c, &o.c, 8) == 0; } };
}
struct cfg { size_t maxlen; };

// generators
template <typename T> struct gen;
template <> struct gen<uint8_t> { static uint8_t make(Rng & g, size_t) { return (uint8_t)g.next(); } };
template <> struct gen<int32_t> { static int32_t make(Rng & g, size_t) { return g.below(3) ? (int32_t)g.below(100) : (int32_t)g.next(); } };
template <> struct gen<uint64_t> { static uint64_t make(Rng & g, size_t) { return g.below(3) ? g.below(100) : g.next(); } };
template <> struct gen<double> { static double make(Rng & g, size_t) { return (double)g.below(100000) / 7; } };
template <> struct gen<bool> { static bool make(Rng & g, size_t) { return g.below(2); } };
template <> struct gen<usr::pod> { static usr::pod make(Rng & g, size_t) { usr::pod p; memset((void *)&p, 0, sizeof p); p.a = (int)g.next(); for (char & c : p.b) c = (char)g.next(); p.c = (double)g.below(100); return p; } };
static size_t len(Rng & g, size_t m) { switch (g.below(4)) { case 0: return 0; case 1: return g.below(4); case 2: return g.below(m / 4 + 1); default: return g.below(m + 1); } }
template <> struct gen<std::string> { static std::string make(Rng & g, size_t m) { std::string s(len(g, m), 0); for (char & c : s) c = (char)g.next(); return s; } };
template <typename T> struct gen<std::vector<T>> { static std::vector<T> make(Rng & g, size_t m) { std::vector<T> v; size_t n = len(g, m); v.reserve(n); for (size_t i = 0; i < n; ++i) v.push_back(gen<T>::make(g, std::min<size_t>(m / 2, 40))); return v; } };
template <typename T> struct gen<tpie::array<T>> { static tpie::array<T> make(Rng & g, size_t m) { size_t n = len(g, m); tpie::array<T> v(n); for (size_t i = 0; i < n; ++i) v[i] = gen<T>::make(g, std::min<size_t>(m / 2, 40)); return v; } };
template <typename T, size_t N> struct gen<std::array<T, N>> { static std::array<T, N> make(Rng & g, size_t m) { std::array<T, N> v; for (auto & x : v) x = gen<T>::make(g, m / 2); return v; } };
template <typename A, typename B> struct gen<std::pair<A, B>> { static std::pair<A, B> make(Rng & g, size_t m) { A a = gen<A>::make(g, m); return std::pair<A, B>(std::move(a), gen<B>::make(g, m)); } };
template <typename A, typename B, typename C> struct gen<std::tuple<A, B, C>> { static std::tuple<A, B, C> make(Rng & g, size_t m) { A a = gen<A>::make(g, m); B b = gen<B>::make(g, m); return std::tuple<A, B, C>(std::move(a), std::move(b), gen<C>::make(g, m)); } };
template <> struct gen<usr::shape> { static usr::shape make(Rng & g, size_t m) { usr::shape s; s.kind = (uint8_t)g.below(4); if (s.kind & 1) s.pts = gen<std::vector<int32_t>>::make(g, m); if (s.kind & 2) s.name = gen<std::string>::make(g, m); return s; } };
template <typename T> static bool same(const T & a, const T & b) { return a == b; }
template <typename T> static bool same(const tpie::array<T> & a, const tpie::array<T> & b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
template <typename T> static bool same(const std::vector<T> & a, const std::vector<T> & b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }

struct membuf { // writer and reader in memory
	std::string s; size_t pos = 0; bool over = false;
	void write(const void * p, size_t n) { s.append((const char *)p, n); }
	void read(void * p, size_t n) { if (n > s.size() - pos) { over = true; throw std::runtime_error("read past the end"); } memcpy(p, s.data() + pos, n); pos += n; }
};

struct item_base {
	virtual ~item_base() {}
	virtual const char * type() const = 0;
	virtual size_t size() const = 0;
	virtual void put(membuf & m) const = 0;
	virtual void put(tpie::serialization_writer & w) const = 0;
	virtual void put(tpie::serialization_reverse_writer & w) const = 0;
	virtual bool get(membuf & r, Rng & junk) const = 0; // reads into a value that held other data; true if equal
	virtual bool get(tpie::bits::serialization_reader_base & r, Rng & junk) const = 0;
	virtual bool range() const { return false; }
};
template <typename T> struct item : item_base {
	const char * nm; T v; item(const char * nm, T && v) : nm(nm), v(std::move(v)) {}
	const char * type() const override { return nm; }
	size_t size() const override { return tpie::serialized_size(v); }
	void put(membuf & m) const override { using tpie::serialize; serialize(m, v); }
	void put(tpie::serialization_writer & w) const override { w.serialize(v); }
	void put(tpie::serialization_reverse_writer & w) const override { w.serialize(v); }
	bool get(membuf & r, Rng & junk) const override { using tpie::unserialize; T x = gen<T>::make(junk, 5); unserialize(r, x); return same(x, v); }
	bool get(tpie::bits::serialization_reader_base & r, Rng & junk) const override { T x = gen<T>::make(junk, 5); r.unserialize(x); return same(x, v); }
};
template <typename T> struct range_item : item_base { // a range of known length, through different kinds of iterators
	const char * nm; std::vector<T> v; unsigned it; range_item(const char * nm, std::vector<T> && v, unsigned it) : nm(nm), v(std::move(v)), it(it) {}
	const char * type() const override { return nm; }
	bool range() const override { return true; }
	size_t size() const override { size_t n = 0; for (const T & x : v) n += tpie::serialized_size(x); return n; }
	template <typename D, typename F> void with(F f) const { switch (it) { case 0: f(v.begin(), v.end()); break; case 1: { std::list<T> l(v.begin(), v.end()); f(l.begin(), l.end()); break; } case 2: { std::deque<T> l(v.begin(), v.end()); f(l.begin(), l.end()); break; } default: f(v.data(), v.data() + v.size()); } }
	void put(membuf & m) const override { with<membuf>([&](auto a, auto b) { using tpie::serialize; serialize(m, a, b); }); }
	void put(tpie::serialization_writer & w) const override { with<int>([&](auto a, auto b) { w.serialize(a, b); }); }
	void put(tpie::serialization_reverse_writer & w) const override { with<int>([&](auto a, auto b) { w.serialize(a, b); }); }
	template <typename R, typename F> bool getf(R &, F f, Rng & junk) const {
		if (junk.below(3) == 0) { std::list<T> l(v.size()); f(l.begin(), l.end()); return same(std::vector<T>(l.begin(), l.end()), v); }
		if (junk.below(2) == 0) { std::vector<T> l(v.size()); f(l.data(), l.data() + l.size()); return same(l, v); }
		std::vector<T> l(v.size()); f(l.begin(), l.end()); return same(l, v);
	}
	bool get(membuf & r, Rng & junk) const override { return getf(r, [&](auto a, auto b) { using tpie::unserialize; unserialize(r, a, b); }, junk); }
	bool get(tpie::bits::serialization_reader_base & r, Rng & junk) const override { return getf(r, [&](auto a, auto b) { r.unserialize(a, b); }, junk); }
};
template <typename T, size_t N> struct carray { T v[N]; };
struct carray_item : item_base {
	std::string v[3]; int32_t w_[4];
	const char * type() const override { return "C arrays"; }
	size_t size() const override { return tpie::serialized_size(v) + tpie::serialized_size(w_); }
	void put(membuf & m) const override { using tpie::serialize; serialize(m, v); serialize(m, w_); }
	void put(tpie::serialization_writer & w) const override { w.serialize(v); w.serialize(w_); }
	void put(tpie::serialization_reverse_writer & w) const override { w.serialize(w_); w.serialize(v); }
	template <typename R> bool g(R & r) const { std::string x[3]; int32_t y[4]; r(x); r(y); bool ok = true; for (int i = 0; i < 3; ++i) ok = ok && x[i] == v[i]; for (int i = 0; i < 4; ++i) ok = ok && y[i] == w_[i]; return ok; }
	bool get(membuf & r, Rng &) const override { auto f = [&](auto & x) { using tpie::unserialize; unserialize(r, x); }; return g(f); }
	bool get(tpie::bits::serialization_reader_base & r, Rng &) const override { auto f = [&](auto & x) { r.unserialize(x); }; return g(f); }
};

typedef std::unique_ptr<item_base> iptr;
template <typename T> static iptr one(const char * nm, Rng & g, size_t m) { return iptr(new item<T>(nm, gen<T>::make(g, m))); }
static iptr make_item(Src & s, Rng & g, size_t m) {
	switch (s.below(20)) {
	case 0: return one<int32_t>("int32", g, m);
	case 1: return one<uint8_t>("uint8", g, m);
	case 2: return one<uint64_t>("uint64", g, m);
	case 3: return one<std::string>("string", g, m);
	case 4: return one<std::vector<int32_t>>("vector<int32>", g, m);
	case 5: return one<std::vector<std::string>>("vector<string>", g, m);
	case 6: return one<tpie::array<uint64_t>>("array<uint64>", g, m);
	case 7: return one<tpie::array<std::string>>("array<string>", g, m);
	case 8: return one<std::pair<int32_t, std::string>>("pair<int32,string>", g, m);
	case 9: return one<std::tuple<uint8_t, std::string, std::vector<double>>>("tuple", g, m);
	case 10: return one<std::array<std::string, 3>>("std::array<string,3>", g, m);
	case 11: return one<std::array<int32_t, 5>>("std::array<int32,5>", g, m);
	case 12: return one<usr::shape>("user type", g, m);
	case 13: return one<std::vector<usr::shape>>("vector<user type>", g, m);
	case 14: return one<usr::pod>("struct", g, m);
	case 15: return one<std::vector<std::vector<std::pair<std::string, uint8_t>>>>("nested vectors", g, std::min<size_t>(m, 60));
	case 16: return iptr(new range_item<int32_t>("range of int32", gen<std::vector<int32_t>>::make(g, m), (unsigned)s.below(4)));
	case 17: return iptr(new range_item<std::string>("range of string", gen<std::vector<std::string>>::make(g, m), (unsigned)s.below(4)));
	case 18: { auto * p = new carray_item; for (auto & x : p->v) x = gen<std::string>::make(g, m); for (auto & x : p->w_) x = (int)g.next(); return iptr(p); }
	default: return one<std::pair<usr::pod, bool>>("pair<struct,bool>", g, m);
	}
}

static void memory_case(Src & s, Ctx & c) {
	Resources res(c.dir);
	{
		std::vector<iptr> items; Rng g = s.bulk(); membuf m; std::vector<size_t> ends; size_t max = s.pick({4, 40, 400});
		while (s.more(8)) {
			items.push_back(make_item(s, g, max)); iptr & it = items.back(); size_t before = m.s.size(); it->put(m);
			size_t n = m.s.size() - before; c.trace("%s: %zu bytes", it->type(), n); c.label(it->type());
			PBT_CHECK(c, n == it->size(), "serialized_size() of a %s is %zu, %zu bytes were written", it->type(), it->size(), n);
			ends.push_back(m.s.size());
		}
		for (size_t i = 0; i < items.size(); ++i) {
			bool ok = false; try { ok = items[i]->get(m, g); } catch (const std::runtime_error &) {}
			PBT_CHECK(c, !m.over, "reading a %s reads more bytes than were written", items[i]->type());
			PBT_CHECK(c, ok, "a %s came back different", items[i]->type());
			PBT_CHECK(c, m.pos == ends[i], "reading a %s used %zu bytes, writing it gave %zu", items[i]->type(), m.pos - (i ? ends[i - 1] : 0), ends[i] - (i ? ends[i - 1] : 0));
		}
		c.nontrivial(items.size() > 1 && m.s.size() > 20);
	}
	res.expect_same(c, "after the round trip");
}

static const size_t BS = 2 * 1024 * 1024;
// pad so that the next item starts close to the end of a block
static iptr make_big(Src & s, Rng & g, size_t pos, size_t max) {
	switch (s.weighted({5, 2, 2})) {
	case 0: return make_item(s, g, max);
	case 1: { size_t to = BS - pos % BS, d = s.below(40); size_t n = to > d + 8 ? to - d - 8 : to + BS - d - 8; std::string t(n, 'x'); for (size_t i = 0; i < n; i += 1 + g.below(2000)) t[i] = (char)g.next(); return iptr(new item<std::string>("padding", std::move(t))); }
	default: { size_t n = (size_t)s.pick<uint64_t>({100000, BS - 8, BS, 2 * BS - 8, 3 * BS + 5}); std::vector<int32_t> t(n / 4); for (auto & x : t) x = (int)g.next(); return iptr(new item<std::vector<int32_t>>("large vector", std::move(t))); }
	}
}

template <typename Writer, typename Reader, bool rev> static void stream_case(Src & s, Ctx & c) {
	Resources res(c.dir); bool multi = false, many = false;
	{
		Rng g = s.bulk(); Writer w; Reader r; tpie::temp_file tf; std::string path = c.dir + "/tmp/ser.tpie"; bool named = s.flip();
		unsigned rounds = 1 + (unsigned)s.below(2);
		for (unsigned round = 0; round < rounds; ++round) {
			std::vector<iptr> items; std::vector<size_t> sizes; size_t total = 0, max = s.pick({4, 40, 400});
			c.trace("%s writer on a %s file", rev ? "reverse" : "forward", named ? "named" : "temporary");
			if (named) w.open(path); else w.open(tf);
			bool big = s.chance(1, 3);
			while (s.more(8) && total < 5 * BS) {
				items.push_back(big ? make_big(s, g, total, max) : make_item(s, g, max)); sizes.push_back(items.back()->size());
				c.trace("write %s: %zu bytes at %zu", items.back()->type(), sizes.back(), total); items.back()->put(w); total += sizes.back();
				if (total > BS) multi = true;
			}
			if (items.size() > 1) many = true;
			if (s.chance(1, 6)) { // not closed: a reader must not accept the file
				Reader r2; bool t = false; try { r2.open(named ? path : tf.path()); } catch (const tpie::stream_exception &) { t = true; }
				PBT_CHECK(c, t, "a file that is still being written was accepted");
			}
			if (s.chance(1, 5)) { c.trace("open the writer on another file without closing it"); std::string other = c.dir + "/tmp/other.tpie"; w.open(other); w.close(); unlink(other.c_str()); }
			else if (s.chance(1, 5)) { Writer w2; (void)w2; w.close(); w.close(); }
			else w.close();
			struct stat st; stat(named ? path.c_str() : tf.path().c_str(), &st);
			if (!named) PBT_CHECK(c, tpie::get_temp_file_usage() - res.tmpBytes == total, "%llu bytes of temporary files recorded, the stream has %zu", (unsigned long long)(tpie::get_temp_file_usage() - res.tmpBytes), total);
			unsigned passes = 1 + (unsigned)s.below(2);
			for (unsigned pass = 0; pass < passes; ++pass) {
				if (named) r.open(path); else r.open(tf);
				PBT_CHECK(c, r.size() == total && r.file_size() == (tpie::stream_size_type)st.st_size, "size() %llu, file_size() %llu; expected %zu, %lld", (unsigned long long)r.size(), (unsigned long long)r.file_size(), total, (long long)st.st_size);
				size_t off = 0, stop = s.chance(1, 5) ? s.below(items.size() + 1) : items.size();
				for (size_t k = 0; k < stop; ++k) {
					size_t i = rev ? items.size() - 1 - k : k;
					if (sizes[i]) PBT_CHECK(c, r.can_read(), "can_read() is false before item %zu of %zu", k, items.size());
					PBT_CHECK(c, r.offset() == off, "offset() is %llu after reading %zu bytes", (unsigned long long)r.offset(), off);
					bool ok = false; try { ok = items[i]->get(r, g); } catch (const tpie::end_of_stream_exception &) { c.fail("end of stream reported while reading item %zu of %zu", k, items.size()); }
					PBT_CHECK(c, ok, "item %zu (%s, %zu bytes) came back different", i, items[i]->type(), sizes[i]); off += sizes[i];
				}
				if (stop == items.size()) {
					PBT_CHECK(c, !r.can_read(), "can_read() is true after reading everything");
					PBT_CHECK(c, r.offset() == total, "offset() is %llu at the end of %zu bytes", (unsigned long long)r.offset(), total);
					char ch = 0; bool t = false; try { r.read(&ch, 1); } catch (const tpie::end_of_stream_exception &) { t = true; } PBT_CHECK(c, t, "reading past the end was not reported");
					PBT_CHECK(c, !r.can_read(), "can_read() is true after reading past the end");
				}
				if (s.flip()) r.close();
			}
			r.close();
			// the other kind of reader refuses the file
			bool t = false; try { if (rev) { tpie::serialization_reader x; x.open(named ? path : tf.path()); } else { tpie::serialization_reverse_reader x; x.open(named ? path : tf.path()); } } catch (const tpie::stream_exception &) { t = true; }
			PBT_CHECK(c, t, "a stream of the other direction was accepted");
			if (s.chance(1, 3)) { // damage the header, or cut the file
				std::string p = named ? path : tf.path(); int fd = open(p.c_str(), O_RDWR); unsigned what = (unsigned)s.below(5); c.trace("damage %u", what);
				char junk = (char)(2 + g.below(250)); bool reject = true; unsigned char old = 0;
				if (what == 0) { off_t o = (off_t)g.below(8); if (pread(fd, &old, 1, o) != 1) {} junk = (char)(old ^ (1 << g.below(8))); if (pwrite(fd, &junk, 1, o) != 1) {} }
				else if (what == 1) { if (pwrite(fd, &junk, 1, 8 + (off_t)g.below(8)) != 1) {} }
				else if (what == 2) { junk = 0; if (pwrite(fd, &junk, 1, 24) != 1) {} }
				else if (what == 3) { if (pwrite(fd, &junk, 1, 25) != 1) {} }
				else { if (ftruncate(fd, (off_t)g.below(26)) != 0) {} }
				close(fd); bool t2 = false; size_t f0 = open_fds();
				try { r.open(p); } catch (const tpie::stream_exception &) { t2 = true; }
				if (reject) PBT_CHECK(c, t2, "a file with a damaged header (kind %u) was accepted", what);
				PBT_CHECK(c, open_fds() == f0, "a rejected file stays open");
				unlink(p.c_str());
			}
		}
		w.close(); r.close(); if (named) unlink(path.c_str());
	}
	res.expect_same(c, "after the streams are gone");
	PBT_CHECK(c, tpie::get_temp_file_usage() == res.tmpBytes, "%lld bytes of temporary files recorded after they are gone", (long long)(tpie::get_temp_file_usage() - res.tmpBytes));
	if (multi) c.label("several blocks");
	c.nontrivial(many);
}
static void fwd(Src & s, Ctx & c) { stream_case<tpie::serialization_writer, tpie::serialization_reader, false>(s, c); }
static void bwd(Src & s, Ctx & c) { stream_case<tpie::serialization_reverse_writer, tpie::serialization_reverse_reader, true>(s, c); }
static void setup(const std::string &) { init_tpie(4096, 1u << 30, false); }

int main(int argc, char ** argv) {
	pbt::Suite su; su.property = "C07"; su.setup = setup;
	su.rule = "random sequences of values of 20 kinds of types (numbers, structs, strings, vectors, arrays, pairs, tuples, nested containers, a user type, ranges through several kinds of iterators) serialized to memory and to forward and reverse serialization streams, with items that end near, at and across the 2 MiB blocks of the streams; read back completely or in part, several times, with damaged headers; non-trivial: at least two items";
	su.scenarios.push_back({"memory", memory_case, 16000, 300000, BATCH * 8});
	su.scenarios.push_back({"forward", fwd, 1200, 25000, BATCH});
	su.scenarios.push_back({"reverse", bwd, 1200, 25000, BATCH});
	return pbt::main_loop(argc, argv, su);
}
