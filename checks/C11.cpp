// Files after a crash, damaged files and cut-short files.
#define TV_DEFINE_WRAPS
#include "faults.h"
#include <tpie/file_stream.h>
#include <tpie/uncompressed_stream.h>
#include <tpie/file.h>
#include <tpie/serialization_stream.h>
#include <tpie/btree.h>
#include <tpie/stack.h>
#include <snappy.h>
using namespace tv;
static const size_t BATCH = 16;
typedef std::vector<uint64_t> items;
struct Content { items v; std::string user; bool operator==(const Content & o) const { return v == o.v && user == o.user; } };

static std::string slurp(const std::string & p) { std::string r; int fd = __real_open(p.c_str(), O_RDONLY); if (fd < 0) return "missing"; char b[65536]; ssize_t n; while ((n = __real_read(fd, b, sizeof b)) > 0) r.append(b, (size_t)n); __real_close(fd); return r; }
static void spit(const std::string & p, const std::string & d) { int fd = __real_open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t o = 0; while (o < d.size()) { ssize_t n = __real_write(fd, d.data() + o, d.size() - o); if (n <= 0) break; o += (size_t)n; } __real_close(fd); }

// copies of the file, taken after every change
struct Shot { std::string bytes; std::shared_ptr<Content> clean, closing; };
static struct Recorder {
	std::vector<Shot> shots; std::string path; std::shared_ptr<Content> clean, closing; size_t bytes = 0, every = 1, seen = 0; uint64_t last = 0;
	void start(const std::string & p) { shots.clear(); path = p; clean.reset(); closing.reset(); bytes = 0; every = 1; seen = 0; }
	void take() {
		Shot s; s.bytes = slurp(path); s.clean = clean; s.closing = closing;
		if (!shots.empty() && !closing && ++seen % every) { shots.back() = std::move(s); return; }
		bytes += s.bytes.size(); shots.push_back(std::move(s)); if (bytes > (24u << 20)) { every *= 2; bytes /= 2; }
	}
} rec;
static void on_change(const std::string & p) { if (p == rec.path) rec.take(); }

// the formats
enum Mode { RO, RW };
struct Format {
	virtual ~Format() {}
	virtual const char * name() const = 0;
	virtual Content read(const std::string & p, Mode m, Src * order = 0, Content * partial = 0) = 0; // opens and reads everything; throws
	virtual bool rw() const { return true; }
	virtual void write(const std::string & p, const Content & c) = 0; // makes a new, closed file
	virtual bool users() const { return true; }
	size_t header = 4096;
};
// reading with the cursor moved about; partial collects what could be read in order
template <typename S> static void read_items(S & x, Content & r, Src * order, Content * partial) {
	size_t n = (size_t)x.size(); if (n > (1u << 24)) throw std::runtime_error("size");
	char b[64]; r.user.assign(b, x.read_user_data(b, 64)); if (partial) partial->user = r.user;
	unsigned how = order ? (unsigned)order->below(3) : 0;
	if (how == 1) { x.seek(0, S::end); r.v.assign(n, 0); for (size_t i = n; i--;) r.v[i] = x.read_back(); }
	else if (how == 2) { r.v.assign(n, 0); if (n) x.read(r.v.begin(), r.v.end()); }
	else for (size_t i = 0; i < n; ++i) { r.v.push_back(x.read()); if (partial) partial->v.push_back(r.v.back()); }
}
struct FSF : Format {
	int comp; double bf; FSF(int c, double b) : comp(c), bf(b) {}
	const char * name() const { return comp ? "compressed file_stream" : "file_stream"; }
	tpie::open::type fl(tpie::open::type f) const { return comp == 1 ? f | tpie::open::compression_normal : comp == 2 ? f | tpie::open::compression_all : f; }
	Content read(const std::string & p, Mode m, Src * o, Content * pa) { tpie::file_stream<uint64_t> x(bf); x.open(p, fl(m == RO ? tpie::open::read_only : tpie::open::defaults), 64); Content r; read_items(x, r, o, pa); x.close(); return r; }
	void write(const std::string & p, const Content & c) { tpie::file_stream<uint64_t> x(bf); x.open(p, fl(tpie::open::defaults), 64); for (auto v : c.v) x.write(v); x.write_user_data(c.user.data(), c.user.size()); x.close(); }
};
struct USF : Format {
	double bf; USF(double b) : bf(b) {}
	const char * name() const { return "uncompressed_stream"; }
	Content read(const std::string & p, Mode m, Src * o, Content * pa) { tpie::uncompressed_stream<uint64_t> x(bf); x.open(p, m == RO ? tpie::access_read : tpie::access_read_write, 64); Content r; read_items(x, r, o, pa); x.close(); return r; }
	void write(const std::string & p, const Content & c) { tpie::uncompressed_stream<uint64_t> x(bf); x.open(p, tpie::access_write, 64); for (auto v : c.v) x.write(v); x.write_user_data(c.user.data(), c.user.size()); x.close(); }
};
struct FF : Format {
	double bf; FF(double b) : bf(b) {}
	const char * name() const { return "file"; }
	Content read(const std::string & p, Mode m, Src *, Content * pa) {
		tpie::file<uint64_t> f(bf); f.open(p, m == RO ? tpie::access_read : tpie::access_read_write, 64); Content r; char b[64]; r.user.assign(b, f.read_user_data(b, 64)); if (pa) pa->user = r.user;
		{ tpie::file<uint64_t>::stream x(f); size_t n = (size_t)f.size(); if (n > (1u << 24)) throw std::runtime_error("size"); for (size_t i = 0; i < n; ++i) { r.v.push_back(x.read()); if (pa) pa->v.push_back(r.v.back()); } }
		f.close(); return r;
	}
	void write(const std::string & p, const Content & c) { tpie::file<uint64_t> f(bf); f.open(p, tpie::access_read_write, 64); { tpie::file<uint64_t>::stream x(f); for (auto v : c.v) x.write(v); } f.write_user_data(c.user.data(), c.user.size()); f.close(); }
};
static std::string blow(uint64_t v) { return std::string((const char *)&v, 8) + std::string(v % 5 == 0 ? (v >> 8) % (3u << 19) : (v >> 8) % 50, (char)v); }
struct SF : Format {
	bool rev; SF(bool r) : rev(r) {}
	const char * name() const { return rev ? "reverse serialization stream" : "serialization stream"; }
	bool rw() const { return false; } bool users() const { return false; }
	template <typename R> Content get(const std::string & p, Content * pa) {
		R x; x.open(p); Content r; std::string t; while (x.can_read()) { x.unserialize(t); uint64_t v = 0; if (t.size() >= 8) memcpy(&v, t.data(), 8); if (t != blow(v)) v = ~v; r.v.push_back(v); if (pa) pa->v.push_back(v); if (r.v.size() > 100000) break; } x.close(); return r;
	}
	Content read(const std::string & p, Mode, Src *, Content * pa) { if (!rev) return get<tpie::serialization_reader>(p, pa); Content r = get<tpie::serialization_reverse_reader>(p, pa); std::reverse(r.v.begin(), r.v.end()); return r; }
	void write(const std::string & p, const Content & c) { if (rev) put<tpie::serialization_reverse_writer>(p, c); else put<tpie::serialization_writer>(p, c); }
	template <typename W> void put(const std::string & p, const Content & c) { W x; x.open(p); for (auto v : c.v) x.serialize(blow(v)); x.close(); }
};
typedef tpie::bbits::Opt<tpie::bbits::f_static | tpie::bbits::f_serialized | tpie::bbits::f_unordered, 3, 4, 0, tpie::default_comp, tpie::identity_key, tpie::empty_augmenter> BO;
struct BF : Format {
	typedef tpie::bbits::tree<uint64_t, BO> tree; typedef tpie::bbits::builder<uint64_t, BO> builder; int comp; BF(int c) : comp(c) {}
	const char * name() const { return "serialized B-tree"; }
	bool rw() const { return false; }
	Content read(const std::string & p, Mode, Src *, Content * pa) { tree t(p); Content r; r.user = t.get_metadata(); if (pa) pa->user = r.user; size_t n = t.size(); if (n > (1u << 20)) throw std::runtime_error("size"); auto i = t.begin(); for (size_t k = 0; k < n; ++k) { if (k) ++i; r.v.push_back(*i); if (pa) pa->v.push_back(*i); } return r; }
	tpie::btree_flags fl() const { static const tpie::btree_flags f[] = {tpie::compress_none, tpie::compress_lz4, tpie::compress_snappy, tpie::compress_zstd}; return f[comp]; }
	void write(const std::string & p, const Content & c) { builder b(p, tpie::default_comp(), tpie::empty_augmenter(), fl()); for (auto v : c.v) b.push(v); b.build(c.user); }
};

static Content random_content(Src & s, Format & f, size_t mx, size_t unit) { Content r; Rng g = s.bulk(); size_t n = s.size(mx, unit); unsigned kind = (unsigned)s.below(3); for (size_t i = 0; i < n; ++i) r.v.push_back(kind == 0 ? g.next() : kind == 1 ? i + 1 : g.below(3)); if (f.users() && s.flip()) { r.user.resize(1 + s.below(64)); for (char & x : r.user) x = (char)g.next(); } return r; }
static std::unique_ptr<Format> random_format(Src & s, bool big = true) {
	double bf = s.pick({1.0, 2.0});
	switch (s.weighted({3, 4, 3, 2, (unsigned)(big ? 1 : 0), (unsigned)(big ? 1 : 0), 3})) {
	case 0: return std::unique_ptr<Format>(new FSF(0, bf)); case 1: return std::unique_ptr<Format>(new FSF(1 + (int)s.below(2), bf)); case 2: return std::unique_ptr<Format>(new USF(bf)); case 3: return std::unique_ptr<Format>(new FF(bf));
	case 4: return std::unique_ptr<Format>(new SF(false)); case 5: return std::unique_ptr<Format>(new SF(true)); default: return std::unique_ptr<Format>(new BF((int)s.below(4)));
	}
}
// opens the file; true if it was accepted. A refused file stays as it is.
static bool accepted(Ctx & c, Format & f, const std::string & p, Mode m, Content & got) {
	std::string before = slurp(p); size_t fds = open_fds();
	try { got = f.read(p, m); return true; }
	catch (const tpie::exception & e) { }
	catch (const std::exception & e) { c.fail("%s: the file is refused with %s, which is not a TPIE exception", f.name(), e.what()); }
	PBT_CHECK(c, slurp(p) == before, "%s: opening a file for %s that was refused changed it", f.name(), m == RO ? "reading" : "reading and writing");
	PBT_CHECK(c, open_fds() == fds, "%s: refusing the file leaked a descriptor", f.name());
	return false;
}

static void verify_shots(Ctx & c, Format & f, const std::string & path) {
	size_t ok = 0; std::string p2 = path + ".shot"; size_t k = 0;
	for (Shot & sh : rec.shots) {
		++k; if (sh.bytes == "missing") continue;
		for (Mode m : {RO, RW}) {
			if (m == RW && !f.rw()) continue;
			spit(p2, sh.bytes); Content got; if (!accepted(c, f, p2, m, got)) continue;
			++ok; bool good = (sh.clean && got == *sh.clean) || (sh.closing && got == *sh.closing);
			PBT_CHECK(c, good, "%s: had the process died after change %zu of %zu, the file would have been accepted with %zu items and %zu bytes of user data; it was closed with %s items%s", f.name(), k, rec.shots.size(), got.v.size(), got.user.size(), sh.clean ? std::to_string(sh.clean->v.size()).c_str() : "no", sh.closing ? pbt::strf(" and is being closed with %zu", sh.closing->v.size()).c_str() : "");
		}
		unlink(p2.c_str());
	}
	if (ok) c.label("accepted copies"); c.nontrivial(rec.shots.size() > 3);
	if (rec.shots.size() > 20) c.label("more than 20 changes");
}
struct Crash { Crash(const std::string & dir, const std::string & path) { std::lock_guard<std::recursive_mutex> l(faults().m); faults().dir = dir; rec.start(path); faults().after_change = on_change; } ~Crash() { stop(); } void stop() { faults().reset(); } 
	template <typename F> void closing(const Content & now, F f) { { std::lock_guard<std::recursive_mutex> l(faults().m); rec.closing.reset(new Content(now)); } f(); { std::lock_guard<std::recursive_mutex> l(faults().m); rec.clean = rec.closing; rec.closing.reset(); } } };

template <typename S> struct cut { static void to(S & x, Src & s, items & m, bool comp) { size_t t = comp ? 0 : s.below(m.size() + 1); x.truncate(t); m.resize(t); } };
template <typename S, typename OPEN> static void crash_stream(Src & s, Ctx & c, Format & f, double bf, bool comp, OPEN open) {
	std::string path = c.dir + "/tmp/s"; Resources res(c.dir);
	{
		Crash cr(c.dir + "/tmp/", path); Content m; uint64_t n0 = 1; std::unique_ptr<S> x(new S(bf)); bool big = s.flip();
		size_t sessions = 1 + s.below(3);
		for (size_t k = 0; k < sessions; ++k) {
			unsigned how = (unsigned)s.weighted({4, 1, 1}); c.trace("open %s", how == 0 ? "read-write" : how == 1 ? "write-only" : "read-only"); if (k == 0 && how == 2) how = 0;
			if (how == 1) m = Content(); // (starts over)
			open(*x, path, how); uint64_t pos = 0; bool wr = how != 2, rd = how != 1;
			while (s.more(8)) switch (s.weighted({6, 3, 2, 1, 2, 1})) {
			case 0: if (wr) { size_t n = 1 + s.size(big ? 120 : 20, 8); c.trace("append %zu", n); if (pos != m.v.size()) { x->seek(0, S::end); pos = m.v.size(); } for (size_t i = 0; i < n; ++i, ++pos) { x->write(n0); m.v.push_back(n0++); } } break;
			case 1: if (wr && !comp && rd && m.v.size()) { pos = s.below(m.v.size()); size_t n = 1 + s.below(20); c.trace("overwrite %zu at %llu", n, (unsigned long long)pos); x->seek((int64_t)pos); for (size_t i = 0; i < n; ++i, ++pos) { x->write(n0); if (pos < m.v.size()) m.v[pos] = n0++; else m.v.push_back(n0++); } } break;
			case 2: if (rd) { size_t n = 1 + s.below(40); c.trace("read %zu", n); if (s.flip()) { x->seek(0); pos = 0; } for (size_t i = 0; i < n && pos < m.v.size(); ++i, ++pos) PBT_CHECK(c, x->read() == m.v[pos], "wrong item read"); } break;
			case 3: if (wr && rd) { cut<S>::to(*x, s, m.v, comp); pos = x->offset(); c.trace("truncate to %zu", m.v.size()); } break;
			case 4: if (wr) { m.user.assign(s.below(65), (char)('a' + n0 % 26)); c.trace("%zu bytes of user data", m.user.size()); x->write_user_data(m.user.data(), m.user.size()); } break;
			default: if (rd) { c.trace("seek to the end and back"); x->seek(0, S::end); if (m.v.size()) PBT_CHECK(c, x->read_back() == m.v.back(), "wrong last item"); x->seek(0); pos = 0; } break;
			}
			c.trace("close"); cr.closing(m, [&] { if (s.flip()) x->close(); else x.reset(new S(bf)); });
		}
		x.reset(); cr.stop(); verify_shots(c, f, path);
		Content fin; PBT_CHECK(c, accepted(c, f, path, RO, fin) && fin == m, "%s: the file that was closed is refused or has other items", f.name()); unlink(path.c_str());
	}
	res.expect_same(c, "after the history");
}
static void crash_file_stream(Src & s, Ctx & c) {
	FSF f((int)s.below(3), s.pick({1.0, 2.0})); c.trace("compression %d", f.comp); typedef tpie::file_stream<uint64_t> S;
	crash_stream<S>(s, c, f, f.bf, f.comp != 0, [&](S & x, const std::string & p, unsigned how) { x.open(p, f.fl(how == 0 ? tpie::open::defaults : how == 1 ? tpie::open::write_only : tpie::open::read_only), 64); });
}
static void crash_uncompressed(Src & s, Ctx & c) {
	USF f(s.pick({1.0, 2.0})); typedef tpie::uncompressed_stream<uint64_t> S;
	crash_stream<S>(s, c, f, f.bf, false, [&](S & x, const std::string & p, unsigned how) { x.open(p, how == 0 ? tpie::access_read_write : how == 1 ? tpie::access_write : tpie::access_read, 64); });
}
static void crash_others(Src & s, Ctx & c) {
	std::string path = c.dir + "/tmp/s"; Resources res(c.dir); unsigned kind = (unsigned)s.weighted({3, 1, 1, 4, 3});
	{
		Crash cr(c.dir + "/tmp/", path); std::unique_ptr<Format> f; size_t sessions = 1 + s.below(3); Content m;
		switch (kind) { case 0: f.reset(new FF(s.pick({1.0, 2.0}))); break; case 1: f.reset(new SF(false)); break; case 2: f.reset(new SF(true)); break; case 3: f.reset(new BF((int)s.below(4))); break; default: f.reset(new FSF(1, 1.0)); }
		c.trace("%s", kind == 4 ? "stack" : f->name()); c.label(kind == 4 ? "stack" : f->name());
		for (size_t k = 0; k < sessions; ++k) {
			Content n = random_content(s, *f, kind == 1 || kind == 2 ? 12 : 200, 8); bool abandon = s.chance(1, 4); c.trace("%zu items, %zu bytes of user data%s", n.v.size(), n.user.size(), abandon ? ", not finished" : "");
			switch (kind) {
			case 0: { tpie::file<uint64_t> x(static_cast<FF &>(*f).bf); x.open(path, tpie::access_read_write, 64); Content now = m;
				{ tpie::file<uint64_t>::stream a(x), b(x); size_t p = 0; for (auto v : n.v) { auto & t = v % 3 ? a : b; if (v % 7 == 0) t.seek((int64_t)(p = v % (now.v.size() + 1))); else { t.seek((int64_t)now.v.size()); p = now.v.size(); } t.write(v); if (p < now.v.size()) now.v[p] = v; else now.v.push_back(v); } }
				if (!n.user.empty()) { x.write_user_data(n.user.data(), n.user.size()); now.user = n.user; }
				if (s.chance(1, 4)) { size_t t = s.below(now.v.size() + 1); x.truncate(t); now.v.resize(t); } cr.closing(now, [&] { x.close(); }); m = now; break; }
			case 1: { tpie::serialization_writer x; x.open(path); for (auto v : n.v) x.serialize(blow(v)); cr.closing(n, [&] { x.close(); }); m = n; break; }
			case 2: { tpie::serialization_reverse_writer x; x.open(path); for (auto v : n.v) x.serialize(blow(v)); cr.closing(n, [&] { x.close(); }); m = n; break; }
			case 3: { BF & b = static_cast<BF &>(*f); { std::unique_ptr<BF::builder> x(new BF::builder(path, tpie::default_comp(), tpie::empty_augmenter(), b.fl())); for (auto v : n.v) x->push(v); if (abandon) { std::lock_guard<std::recursive_mutex> l(faults().m); rec.clean.reset(); } else { cr.closing(n, [&] { x->build(n.user); }); m = n; } } if (abandon) { Content got; PBT_CHECK(c, !accepted(c, *f, path, RO, got), "a B-tree whose builder was destroyed before it was finished is accepted"); m = Content(); rec.clean.reset(); } break; }
			default: { std::unique_ptr<tpie::stack<uint64_t>> x(new tpie::stack<uint64_t>(path)); for (auto v : n.v) { if (v % 3 == 0 && !m.v.empty()) { PBT_CHECK(c, x->pop() == m.v.back(), "wrong item popped"); m.v.pop_back(); } else { x->push(v); m.v.push_back(v); } } cr.closing(m, [&] { x.reset(); }); }
			}
		}
		cr.stop(); if (kind == 4) { static_cast<FSF &>(*f).bf = 1.0; } verify_shots(c, *f, path);
		if (rec.clean) { Content fin; PBT_CHECK(c, accepted(c, *f, path, RO, fin) && fin == *rec.clean, "%s: the file that was closed is refused or has other items", f->name()); }
		unlink(path.c_str());
	}
	res.expect_same(c, "after the history");
}

// a file whose header is not that of a closed file of this type is refused
static void put64(std::string & d, size_t o, uint64_t v) { memcpy(&d[o], &v, 8); }
static uint64_t get64(const std::string & d, size_t o) { uint64_t v; memcpy(&v, &d[o], 8); return v; }
static void reject(Src & s, Ctx & c) {
	std::string path = c.dir + "/tmp/s"; Resources res(c.dir);
	{
		std::unique_ptr<Format> f = random_format(s), g; Content m = random_content(s, *f, 100, 8); Rng r = s.bulk(); f->write(path, m); Content got; bool must = true;
		c.trace("%s, %zu items", f->name(), m.v.size());
		PBT_CHECK(c, accepted(c, *f, path, RO, got) && got == m, "%s: the intact file is refused or has other contents", f->name());
		std::string d = slurp(path); bool stream = dynamic_cast<FSF *>(f.get()) || dynamic_cast<USF *>(f.get()) || dynamic_cast<FF *>(f.get()), ser = dynamic_cast<SF *>(f.get()) != 0;
		unsigned how = (unsigned)s.below(stream ? 8 : 5); const char * what = "";
		switch (how) {
		case 0: what = "magic"; d[r.below(8)] ^= (char)(1 << r.below(8)); break;
		case 1: what = "version"; { uint64_t v = get64(d, 8), w = v; while (w == v || (!stream && !ser && w == 0)) w = v ^ (1ull << r.below(r.below(2) ? 8 : 64)); put64(d, 8, w); } break;
		case 2: what = "cut within the header"; d.resize(r.below(stream ? 72 : ser ? 26 : 64)); break;
		case 3: what = "another format"; { static const int kinds = 4; (void)kinds; unsigned o = (unsigned)r.below(4); switch (o) { case 0: if (stream) o = 3; g.reset(o == 3 ? (Format *)new SF(false) : (Format *)new FSF(0, 1.0)); break; case 1: if (stream) g.reset(new SF(true)); else if (ser) g.reset(new SF(!static_cast<SF &>(*f).rev)); else g.reset(new FF(1.0)); break; case 2: if (stream || ser) g.reset(new BF(0)); else g.reset(new SF(false)); break; default: { FSF * fs = dynamic_cast<FSF *>(f.get()); if (fs && fs->comp && r.below(3)) { if (r.below(2)) g.reset(new USF(fs->bf)); else g.reset(new FF(fs->bf)); } else if (stream) g.reset(new BF(0)); else g.reset(new USF(1.0)); } } } break;
		case 4: what = "clean flag"; if (stream) put64(d, 56, get64(d, 56) & ~1ull); else if (ser) d[24] = (char)(r.below(2) ? 0 : 2 + r.below(100)); else { put64(d, 0, 0); } break;
		case 5: what = "item size"; { uint64_t v = get64(d, 16), w = v; while (w == v) w = v ^ (1ull << r.below(r.below(2) ? 8 : 64)); put64(d, 16, w); } break;
		case 6: what = "block size"; { uint64_t v = get64(d, 24), w = v; while (w == v) w = v ^ (1ull << r.below(r.below(2) ? 8 : 64)); put64(d, 24, w); } break;
		default: what = "more user data than its maximum"; put64(d, 32, get64(d, 40) + 1 + r.below(1000)); break;
		}
		c.trace("%s%s%s", what, g ? ": " : "", g ? g->name() : ""); c.label(what); if (g) c.labelf("%s as %s", f->name(), g->name());
		spit(path, d); Format & h = g ? *g : *f;
		for (Mode mo : {RO, RW}) if (mo == RO || h.rw()) { bool a = accepted(c, h, path, mo, got); PBT_CHECK(c, !a || !must, "%s: a file with a wrong %s was opened", h.name(), what); }
		c.nontrivial(); unlink(path.c_str());
		if (h.rw() == false || s.flip()) { bool a = true; try { h.read(path, RO); } catch (const tpie::exception &) { a = false; } PBT_CHECK(c, !a, "%s: a missing file was opened for reading", h.name()); PBT_CHECK(c, !file_exists(path), "%s: opening a missing file for reading made one", h.name()); }
	}
	res.expect_same(c, "after refusing the file");
}
// compares what could be read before an exception
static void prefix(Ctx & c, Format & f, const Content & part, const Content & m, bool rev) {
	size_t n = std::min(part.v.size(), m.v.size()); PBT_CHECK(c, part.v.size() <= m.v.size(), "%s: more items read than there are", f.name());
	for (size_t i = 0; i < n; ++i) { uint64_t e = rev ? m.v[m.v.size() - 1 - i] : m.v[i]; PBT_CHECK(c, part.v[i] == e, "%s: item %zu of the cut file is %llu, it was %llu when the file was closed", f.name(), i, (unsigned long long)part.v[i], (unsigned long long)e); }
}
static void cut_short(Src & s, Ctx & c) {
	std::string path = c.dir + "/tmp/s"; Resources res(c.dir);
	{
		std::unique_ptr<Format> f = random_format(s); SF * ser = dynamic_cast<SF *>(f.get()); Content m = random_content(s, *f, ser ? 12 : 200, 8), got, part; Rng r = s.bulk(); f->write(path, m); std::string d = slurp(path);
		size_t len; switch (s.below(3)) { case 0: len = d.size() - 1 - r.below(std::min<size_t>(d.size(), 20)); break; case 1: len = r.below(d.size()); break; default: len = d.size() > f->header ? f->header + r.below(d.size() - f->header) : r.below(d.size()); }
		c.trace("%s, %zu items, %zu of %zu bytes left", f->name(), m.v.size(), len, d.size()); c.label(f->name()); d.resize(len); spit(path, d);
		bool t = false; Mode mo = s.flip() && f->rw() ? RW : RO;
		try { got = f->read(path, mo, &s, &part); } catch (const tpie::exception & e) { t = true; c.trace("%s", e.what()); } catch (const std::exception & e) { c.fail("%s: reading a file that was cut short throws %s, which is not a TPIE exception", f->name(), e.what()); }
		if (!t) PBT_CHECK(c, got == m, "%s: a file that was cut short to %zu bytes was read without an error, and has %zu items (expected %zu) or other ones", f->name(), len, got.v.size(), m.v.size());
		else { c.label("refused or error"); prefix(c, *f, part, m, ser && ser->rev); }
		c.nontrivial(m.v.size() > 4); unlink(path.c_str());
	}
	res.expect_same(c, "after reading the file");
}
// bytes changed in the blocks of a compressed stream
static void damage(Src & s, Ctx & c) {
	std::string path = c.dir + "/tmp/s"; Resources res(c.dir);
	{
		FSF f(1 + (int)s.below(2), s.pick({1.0, 2.0})); Content m = random_content(s, f, 200, 8), got, part; if (m.v.empty()) m.v.push_back(5); Rng r = s.bulk(); f.write(path, m); std::string d = slurp(path);
		struct Block { size_t off, len; unsigned scheme; }; std::vector<Block> bs; size_t o = f.header;
		while (o + 8 <= d.size()) { uint32_t h; memcpy(&h, &d[o], 4); bs.push_back({o, h & 0xffffffu, h >> 24}); o += 8 + bs.back().len; }
		PBT_CHECK(c, o == d.size() && !bs.empty(), "the file does not consist of blocks"); bool must = false; const char * what;
		size_t bi = r.below(bs.size()); Block & b = bs[bi]; Mode mo = s.flip() ? RW : RO;
		switch (s.below(4)) {
		case 0: what = "block header"; d[b.off + r.below(4)] ^= (char)(1 << r.below(8)); must = true; break;
		case 1: what = "block trailer"; d[b.off + 4 + b.len + r.below(4)] ^= (char)(1 << r.below(8)); must = true; break;
		case 2: { what = "both"; unsigned k = 2 + (unsigned)r.below(250); d[b.off + 3] = (char)k; d[b.off + 4 + b.len + 3] = (char)k; must = true; break; }
		default: { what = "compressed data"; size_t n = 1 + r.below(3); for (size_t i = 0; i < n; ++i) d[b.off + 4 + r.below(b.len)] ^= (char)(1 + r.below(255));
			if (b.scheme == 1) { size_t ul = 0; if (!snappy::IsValidCompressedBuffer(&d[b.off + 4], b.len) || !snappy::GetUncompressedLength(&d[b.off + 4], b.len, &ul)) must = true; } }
		}
		c.trace("compression %d, %zu items in %zu blocks, block %zu (%zu bytes, scheme %u): %s", f.comp, m.v.size(), bs.size(), bi, b.len, b.scheme, what); c.label(what); if (must) c.label("detectable");
		spit(path, d); bool t = false;
		try { got = f.read(path, mo, &s, &part); } catch (const tpie::exception & e) { t = true; c.trace("%s", e.what()); } catch (const std::exception & e) { c.fail("reading a damaged block throws %s, which is not a TPIE exception", e.what()); }
		if (must) PBT_CHECK(c, t, "%s damaged in a compressed stream: %zu items were read without an error", what, got.v.size());
		c.nontrivial(m.v.size() > 4); unlink(path.c_str());
	}
	res.expect_same(c, "after reading the file");
}
// bytes changed in the nodes of a B-tree
static void damage_btree(Src & s, Ctx & c) {
	std::string path = c.dir + "/tmp/s"; Resources res(c.dir);
	{
		BF f((int)s.below(4)); Content m = random_content(s, f, 200, 8), got; if (m.v.size() < 2) m.v = {5, 7}; Rng r = s.bulk(); f.write(path, m); std::string d = slurp(path); const size_t hd = 64;
		struct Node { size_t off, len; uint32_t ul; }; std::vector<Node> ns; size_t o = hd, end = d.size() - m.user.size(); bool must = false; const char * what;
		if (f.comp) while (o < end) { uint32_t u, k; memcpy(&u, &d[o], 4); memcpy(&k, &d[o + 4], 4); ns.push_back({o + 8, k, u}); o += 8 + k; } else o = end;
		PBT_CHECK(c, o == end, "the file does not consist of nodes");
		if (!f.comp) { what = "node"; size_t n = 1 + r.below(3); for (size_t i = 0; i < n; ++i) d[hd + r.below(end - hd)] ^= (char)(1 << r.below(8)); }
		else { Node & b = ns[r.below(ns.size())]; switch (s.below(4)) {
			case 0: what = "uncompressed size"; d[b.off - 8 + r.below(4)] ^= (char)(1 << r.below(8)); must = true; break;
			case 1: what = "compressed size"; d[b.off - 4 + r.below(r.below(8) ? 2 : 4)] ^= (char)(1 << r.below(8)); break;
			default: what = "compressed data"; size_t n = 1 + r.below(3); for (size_t i = 0; i < n; ++i) d[b.off + r.below(b.len)] ^= (char)(1 + r.below(255));
				if (f.comp == 2) { size_t ul = 0; if (!snappy::IsValidCompressedBuffer(&d[b.off], b.len) || !snappy::GetUncompressedLength(&d[b.off], b.len, &ul) || ul != b.ul) must = true; } } }
		c.trace("compression %d, %zu items, %zu nodes: %s", f.comp, m.v.size(), ns.size(), what); c.label(what); c.labelf("B-tree, compression %d", f.comp); if (must) c.label("detectable");
		spit(path, d); bool t = false;
		try { BF::tree x(path); auto i = x.begin(), e = x.end(); for (size_t k = 0; i != e && k < 2 * m.v.size(); ++k, ++i) got.v.push_back(*i); }
		catch (const tpie::exception & e) { t = true; c.trace("%s", e.what()); } catch (const std::exception & e) { c.fail("reading a damaged node throws %s, which is not a TPIE exception", e.what()); }
		if (must) PBT_CHECK(c, t, "%s damaged in a B-tree node: %zu items were read without an error", what, got.v.size());
		if (t) c.label("error"); c.nontrivial(m.v.size() > 4); unlink(path.c_str());
	}
	res.expect_same(c, "after reading the tree");
}
static void setup(const std::string &) { init_tpie(64, 256u << 20, false); }
int main(int argc, char ** argv) {
	pbt::Suite su; su.property = "C11"; su.setup = setup;
	su.rule = "copies of the file taken after every system call that changes it, in random histories of opening, writing, truncating and closing, each opened as after a crash; files with a damaged header, of another format, cut short, or with damaged blocks; non-trivial: more than three copies, or more than four items";
	su.scenarios.push_back({"file_stream", crash_file_stream, 1200, 30000, BATCH});
	su.scenarios.push_back({"uncompressed", crash_uncompressed, 800, 20000, BATCH});
	su.scenarios.push_back({"others", crash_others, 800, 16000, BATCH});
	su.scenarios.push_back({"reject", reject, 3000, 40000, BATCH});
	su.scenarios.push_back({"cut_short", cut_short, 4000, 60000, BATCH});
	su.scenarios.push_back({"damage", damage, 4000, 60000, BATCH});
	su.scenarios.push_back({"damage_btree", damage_btree, 4000, 60000, BATCH});
	return pbt::main_loop(argc, argv, su);
}
