// C21: the programs that are built with the library, run as they are on generated input.
#include "common.h"
#include <tpie/btree.h>
#include <tpie/serialization2.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <iomanip>
#include <map>
#include <set>
#include <limits>
#include <cmath>

namespace {
using namespace tv;
typedef uint64_t u64;

void setup(const std::string &) { init_tpie(4096, 256u << 20); }

std::string slurp(const std::string & p) { std::string r; if (FILE * f = fopen(p.c_str(), "rb")) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); } return r; }
void spit(const std::string & p, const std::string & s) { FILE * f = fopen(p.c_str(), "wb"); if (!f) abort(); if (fwrite(s.data(), 1, s.size(), f) != s.size()) abort(); fclose(f); }

struct Ran { int code = -1; std::string out, err; };
// The program from the build of the current tree, in its own directory, with its own directory for temporary files
Ran run(Ctx & c, const char * app, const std::vector<std::string> & args, const std::string & in) {
	char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); if (n <= 0) abort(); self[n] = 0;
	std::string exe(self); exe = exe.substr(0, exe.rfind('/')) + "/app-" + app;
	std::string d = c.dir + "/app"; pbt::rm_rf(d); mkdir(d.c_str(), 0700); mkdir((d + "/tmp").c_str(), 0700); mkdir((d + "/cwd").c_str(), 0700);
	spit(d + "/in", in);
	fflush(nullptr);
	std::string o = d + "/out", e = d + "/err", i = d + "/in", t = "TMPDIR=" + d + "/tmp", w = d + "/cwd";
	pid_t p = fork(); if (p < 0) abort();
	if (!p) {
		int fi = open(i.c_str(), O_RDONLY), fo = open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), fe = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
		if (fi < 0 || fo < 0 || fe < 0) _exit(120);
		dup2(fi, 0); dup2(fo, 1); dup2(fe, 2); for (int k = 3; k < 256; ++k) close(k);
		if (chdir(w.c_str())) _exit(121);
		rlimit cl = {60, 60}; setrlimit(RLIMIT_CPU, &cl); rlimit co = {0, 0}; setrlimit(RLIMIT_CORE, &co); rlimit fs = {256u << 20, 256u << 20}; setrlimit(RLIMIT_FSIZE, &fs);
		std::vector<char *> av; av.push_back((char *)app); for (auto & a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr);
		std::string asan = std::string("ASAN_OPTIONS=") + (getenv("ASAN_OPTIONS") ? getenv("ASAN_OPTIONS") : "");
		char * ev[] = {(char *)t.c_str(), (char *)"PATH=/usr/bin:/bin", (char *)"LC_ALL=C", (char *)asan.c_str(), nullptr};
		execve(exe.c_str(), av.data(), ev); _exit(122);
	}
	int st = 0; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) abort();
	Ran r; r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st); r.out = slurp(o); r.err = slurp(e);
	if (r.code == 122 || r.code == 121 || r.code == 120) { fprintf(stderr, "cannot run %s\n", exe.c_str()); abort(); }
	if (c.keep) { std::string l; for (auto & a : args) l += " " + a; c.trace("%s%s -> %d, %zu bytes of output", app, l.c_str(), r.code, r.out.size()); if (r.code) c.trace("stderr: %.1500s", r.err.c_str()); }
	PBT_CHECK(c, r.code < 2, "%s ended with code %d: %s", app, r.code, r.err.substr(0, 600).c_str());
	PBT_CHECK(c, count_files(d + "/tmp") == 0, "%s left %zu temporary files behind", app, count_files(d + "/tmp"));
	PBT_CHECK(c, count_files(w) == 0, "%s left files in its working directory", app);
	return r;
}
std::string shown(const std::string & s) { return s.size() <= 400 ? s : s.substr(0, 400) + "..."; }
void same(Ctx & c, const char * what, const std::string & got, const std::string & want) {
	if (got == want) return;
	size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k;
	size_t b = k > 40 ? k - 40 : 0;
	c.fail("%s: differs at byte %zu of %zu (expected %zu): got ...%s, expected ...%s", what, k, got.size(), want.size(), got.substr(b, 120).c_str(), want.substr(b, 120).c_str());
}

// numbers as text: any white space between them, signs, leading zeroes, an end that is not a number
std::string text(Src & s, const std::vector<int> & v) {
	std::string r; unsigned style = (unsigned)s.below(4); Rng g = s.bulk();
	for (size_t i = 0; i < v.size(); ++i) {
		const char * ws[] = {"\n", " ", "\t", "\n\n", "  ", " \r\n"};
		if (i || (style == 2 && g.below(2))) r += style ? ws[g.below(6)] : "\n";
		if (style == 3 && v[i] >= 0 && g.below(6) == 0) r += g.below(2) ? "+" : "0";
		r += std::to_string(v[i]);
	}
	switch (s.weighted({4, 2, 1, 1})) {
	case 0: if (!v.empty()) r += "\n"; break;
	case 1: break;
	case 2: r += " end 1 2 3 4\n"; break;
	default: r += "  \n\n"; break;
	}
	return r;
}

// ---------------------------------------------------------------- unique
template <bool large> void scen_unique(Src & s, Ctx & c) {
	size_t n = large ? 33000 + s.below(140000) : s.weighted({6, 1}) ? s.size(s.chance(1, 10) ? 120000 : 5000, 1000) : s.size(60, 8);
	unsigned range = large ? s.pick({1000000u, 100000u, 40000000u, 0u}) : s.pick({3u, 1u, 10u, 100u, 100000u, 0u}); unsigned base = (unsigned)s.below(6); Rng g = s.bulk();
	std::vector<int> v;
	const int far[] = {std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), 0, -1, std::numeric_limits<int>::max() - 1, 1};
	for (size_t i = 0; i < n; ++i) {
		if (base == 1 && g.below(4) == 0) { v.push_back(far[g.below(6)]); continue; }
		int64_t x = range ? (int64_t)g.below(range) : (int64_t)(int)g.next();
		if (range) { if (base == 2) x = -x; else if (base == 3) x = (int64_t)std::numeric_limits<int>::max() - x; else if (base == 4) x = (int64_t)std::numeric_limits<int>::min() + x; else if (base == 5) x = (int64_t)((i * 7919) % range); }
		v.push_back((int)x);
	}
	std::set<int> seen; std::string want; size_t kept = 0;
	for (int x : v) if (seen.insert(x).second) { want += std::to_string(x) + "\n"; ++kept; }
	c.trace("%zu numbers, %zu of them distinct", v.size(), kept);
	c.nontrivial(kept >= 2 && kept < v.size());
	c.label(large ? "unique/more than 32768 numbers" : v.size() == kept ? "unique/no duplicates" : "unique/duplicates");
	Ran r = run(c, "unique", {}, text(s, v));
	PBT_CHECK(c, r.code == 0, "unique ended with code %d: %s", r.code, shown(r.err).c_str());
	same(c, "output of unique", r.out, want);
}

// ---------------------------------------------------------------- convex hull
typedef std::pair<int, int> P;
int64_t turn(P a, P b, P d) { return (int64_t)(b.first - a.first) * (d.second - a.second) - (int64_t)(b.second - a.second) * (d.first - a.first); }
void scen_hull(Src & s, Ctx & c) {
	size_t n = s.size(s.chance(1, 10) ? 20000 : 400, 8); unsigned shape = (unsigned)s.below(6); Rng g = s.bulk();
	std::vector<int> in; const int big = 10000;
	int range = s.pick({3, 2, 6, 30, big});
	for (size_t i = 0; i < n; ++i) {
		int x, y;
		switch (shape) {
		case 1: x = (int)g.below(range) - range / 2; y = 0; break;
		case 2: x = range; y = (int)g.below(range); break;
		case 3: x = (int)g.below(range); y = 2 * x - range; if (range == big) y /= 4; break;
		case 4: { double a = g.below(3600) * 0.1745e-2; x = (int)lround(range * cos(a)); y = (int)lround(range * sin(a)); break; }
		case 5: x = (int)g.below(2) * range; y = (int)g.below(2) * range; break;
		default: x = (int)g.below(2 * range + 1) - range; y = (int)g.below(2 * range + 1) - range; break;
		}
		in.push_back(x); in.push_back(y);
	}
	if (!in.empty() && s.chance(1, 8)) in.pop_back(); // half a point at the end is not a point
	std::set<P> pts; for (size_t i = 0; i + 1 < in.size(); i += 2) pts.insert(P(in[i], in[i + 1]));
	c.trace("%zu coordinates, %zu distinct points, shape %u", in.size(), pts.size(), shape);
	// points in the middle of an edge belong to the polygon as well
	std::vector<P> up, low;
	for (P p : pts) {
		while (up.size() >= 2 && turn(up[up.size() - 2], up.back(), p) > 0) up.pop_back();
		up.push_back(p);
		while (low.size() >= 2 && turn(low[low.size() - 2], low.back(), p) < 0) low.pop_back();
		low.push_back(p);
	}
	std::vector<P> poly = up; for (size_t i = low.size(); i--; ) if (poly.empty() || poly.back() != low[i]) poly.push_back(low[i]);
	std::string want; for (P p : poly) want += std::to_string(p.first) + " " + std::to_string(p.second) + "\n";
	c.nontrivial(pts.size() >= 3 && poly.size() > 3 && up.size() != low.size());
	c.label(pts.size() < 3 ? "convex_hull/less than 3 points" : shape >= 1 && shape <= 3 ? "convex_hull/on a line" : "convex_hull/area");
	Ran r = run(c, "convex_hull", {}, text(s, in));
	PBT_CHECK(c, r.code == 0, "convex_hull ended with code %d: %s", r.code, shown(r.err).c_str());
	same(c, "output of convex_hull", r.out, want);
}

// ---------------------------------------------------------------- merge_fractions
struct Frac { float f; u64 n; };
std::string frac_line(const std::string & k, const Frac & f) { std::ostringstream o; o << "tpie::update_fractions(\"" << k << "\", " << f.f << ", " << f.n << ");\n"; return o.str(); }
void scen_fractions(Src & s, Ctx & c) {
	size_t files = 1 + s.below(5); std::vector<std::string> names; Rng g = s.bulk();
	static const char * keys[] = {"sort.h:sort:Run formation", "a.cpp:f:x", "a.cpp:f:y", "b.cpp:~g:z", "lambda.cpp:operator():crumb, with comma", "x:y:", "q.h:h:\"quoted\"", "long.cpp:function:id"};
	std::map<std::string, std::vector<Frac>> cand; std::vector<std::string> content; std::map<std::string, Frac> first, model; bool ties = false;
	std::string dir = c.dir + "/db"; pbt::rm_rf(dir); mkdir(dir.c_str(), 0700);
	size_t lines = 0, shared = 0; size_t turn = s.below(files); bool down = s.flip(); // the first database need not be the first by name
	for (size_t k = 0; k < files; ++k) {
		std::map<std::string, Frac> db; size_t m = s.below(7);
		for (size_t i = 0; i < m; ++i) { Frac f; f.n = s.u64(); f.f = (float)s.below(1001) / 1000.0f; db[keys[s.below(8)]] = f; }
		std::string t;
		if (s.chance(1, 6)) t += "// a remark\n\n";
		for (auto & e : db) { ++lines; t += frac_line(e.first, e.second); if (s.chance(1, 12)) t += "tpie::update_fractions(\"broken\", x, 12);\ntpie::update_fractions(\"" + e.first + "\", 0.5, 999\n"; }
		if (!t.empty() && s.chance(1, 10)) t.pop_back(); // no end of line at the end
		names.push_back(dir + "/db" + std::to_string(down ? (2 * files - 1 - k - turn) % files : (k + turn) % files)); content.push_back(t); spit(names.back(), t);
		for (auto & e : db) { if (cand.count(e.first)) ++shared; cand[e.first].push_back(e.second); }
	}
	std::vector<std::string> args = names;
	bool again = s.chance(1, 5); if (again) args.push_back(names[s.below(names.size())]);
	int missing = -1; if (s.chance(1, 8)) { missing = (int)s.below(args.size() + 1); args.insert(args.begin() + missing, dir + "/none"); }
	unsigned special = s.chance(1, 25) ? 1 + (unsigned)s.below(2) : 0;
	if (special == 1) args.clear(); else if (special == 2) args.insert(args.begin(), "-h");
	c.trace("%zu databases, %zu lines, missing %d, special %u", files, lines, missing, special);
	c.nontrivial(files >= 2 && shared && missing < 0 && !special);
	Ran r = run(c, "merge_fractions", args, "");
	for (size_t k = 1; k < files; ++k) PBT_CHECK(c, slurp(names[k]) == content[k], "merge_fractions changed %s", names[k].c_str());
	size_t left = list_files(dir).size(); PBT_CHECK(c, left == files, "%zu files where %zu databases were", left, files);
	if (special || missing >= 0) {
		PBT_CHECK(c, r.code == 1, "merge_fractions ended with code %d and not 1", r.code);
		PBT_CHECK(c, slurp(names[0]) == content[0], "a refused command changed the first database");
		PBT_CHECK(c, r.out.find(special ? "Usage: " : "No such file") != std::string::npos, "the message is %s", shown(r.out).c_str());
		c.label("merge_fractions/refused");
		return;
	}
	PBT_CHECK(c, r.code == 0, "merge_fractions ended with code %d: %s", r.code, shown(r.err).c_str());
	std::string got = slurp(names[0]);
	if (files == 1) { c.label("merge_fractions/one database"); PBT_CHECK(c, got == content[0], "a single database was changed"); return; }
	c.label("merge_fractions/merged");
	// for each name one line with the entry of the largest size (several of the same size: any of them)
	std::istringstream is(got); std::string l; std::set<std::string> seen;
	while (std::getline(is, l)) {
		bool ok = false;
		for (auto & e : cand) {
			u64 best = 0; for (auto & f : e.second) best = std::max(best, f.n);
			for (auto & f : e.second) if (f.n == best && frac_line(e.first, f) == l + "\n") { ok = true; PBT_CHECK(c, seen.insert(e.first).second, "two entries for %s", e.first.c_str()); break; }
			if (ok) break;
		}
		PBT_CHECK(c, ok, "the merged database has the line %s", l.c_str());
	}
	PBT_CHECK(c, seen.size() == cand.size(), "the merged database has %zu of %zu entries", seen.size(), cand.size());
	(void)ties;
}

// ---------------------------------------------------------------- siv_dump
// entries of the dumped trees are written here byte by byte
struct Raw { std::string b;
	template <typename D> friend void serialize(D & d, const Raw & r) { d.write(r.b.data(), r.b.size()); }
	template <typename S> friend void unserialize(S &, Raw &) { throw std::runtime_error("not read"); } };
struct Box { double xmin, xmax, ymin, ymax; };
struct Aug { template <typename N> Box operator()(const N &) const { return Box{0, 1, 2, 3}; } };
typedef tpie::bbits::OptComp<tpie::btree_augment<Aug>, tpie::btree_external, tpie::btree_serialized, tpie::btree_static, tpie::btree_unordered, tpie::btree_fanout<256, 256>>::type SO;
typedef tpie::bbits::builder<Raw, SO> Builder;

template <typename T> void put(std::string & b, const T & v) { b.append((const char *)&v, sizeof v); }
void put_s(std::string & b, const std::string & v) { put<u64>(b, v.size()); b += v; }
const char * gnames[] = {"NoGeometryType", "Point", "Polyline", "Polygon", "MultiPolygon", "BezierLine", "MultiLine", "BezierPolygon", "Point3D", "Polyline3D", "Polygon3D", "MultiPolygon3D", "BezierLine3D", "MultiLine3D", "BezierPolygon3D", "MultiPoint3D", "MultiPoint"};
int depth_of(int t) { switch (t) { case 1: case 8: return 0; case 2: case 5: case 9: case 12: case 15: case 16: return 1; case 3: case 6: case 7: case 10: case 13: case 14: return 2; default: return 3; } }
bool is_3d(int t) { return t >= 8 && t <= 15; }
double number(Rng & g) { switch (g.below(6)) { case 0: return 0; case 1: return -(double)g.below(100); case 2: return g.below(1000000000) * 1e-3; case 3: return std::ldexp((double)g.next(), (int)g.below(200) - 100); case 4: return (double)g.below(1000); default: return -1.5e-7 * g.below(50); } }
struct Geo { Rng & g; bool three; std::string raw; std::ostringstream out;
	explicit Geo(Rng & r, bool t) : g(r), three(t) {}
	std::string point() { double x = number(g), y = number(g); put(raw, x); put(raw, y); std::ostringstream o; o << x << ',' << y; if (three) { float z = (float)g.below(100000) / 8; put(raw, z); o << ',' << z; } return o.str(); }
	size_t len() { return g.below(5) == 0 ? g.below(45) : g.below(12); }
	void make(int depth, int indent) {
		std::string in(indent, '\t');
		if (depth == 0) { out << in << point() << '\n'; return; }
		if (depth == 1) {
			size_t n = len(); put<u64>(raw, n); std::vector<std::string> p; for (size_t i = 0; i < n; ++i) p.push_back(point());
			if (n < 10) { out << in << '['; for (size_t i = 0; i < n; ++i) out << (i ? " " : "") << p[i]; out << "]\n"; return; }
			// long lists are wrapped
			out << in << "[\n" << in << '\t';
			for (size_t i = 0; i < n; ++i) { if (i % 11 == 10) out << '\n' << in << '\t'; out << p[i] << ' '; }
			out << '\n' << in << "]\n"; return;
		}
		size_t n = g.below(4); put<u64>(raw, n); out << in << "[\n"; for (size_t i = 0; i < n; ++i) make(depth - 1, indent + 1); out << in << "]\n";
	}
};
void field_value(Rng & g, std::string & raw, std::string & txt) {
	unsigned t = (unsigned)g.below(5); put<uint8_t>(raw, (uint8_t)t); std::ostringstream o;
	switch (t) {
	case 0: { int v = (int)g.next(); put(raw, v); o << "Int    " << v; break; }
	case 1: { float v = (float)number(g); if (!(std::fabs(v) < 1e30)) v = 1; put(raw, v); o << "Float  " << v; break; }
	case 2: { double v = number(g); put(raw, v); o << "Double " << v; break; }
	case 3: { std::string v(g.below(20), (char)('a' + g.below(26))); put_s(raw, v); o << "String " << v; break; }
	default: { long long v = (long long)g.next(); put(raw, v); o << "Long   " << v; break; }
	}
	txt = o.str();
}
void scen_siv(Src & s, Ctx & c) {
	Rng g = s.bulk(); std::string path = c.dir + "/tree"; unlink(path.c_str());
	size_t n = s.weighted({3, 1}) ? s.size(s.chance(1, 4) ? 2500 : 700, 256) : s.below(20); int only = s.chance(1, 3) ? 1 + (int)s.below(16) : 0; bool wide = s.flip();
	bool header = !s.chance(1, 4), items = !s.chance(1, 6), fields = s.flip(), geometry = s.flip(), recursive = s.flip();
	std::ostringstream out; std::vector<u64> counts(17, 0);
	std::vector<std::string> raws; std::ostringstream list;
	std::set<int> types;
	for (size_t i = 0; i < n; ++i) {
		int t = only ? only : 1 + (int)g.below(16); ++counts[t]; types.insert(t);
		std::string r; put<u64>(r, g.next()); put<uint8_t>(r, (uint8_t)t);
		size_t nf = wide ? g.below(6) : g.below(2); put<u64>(r, nf); std::vector<std::string> ft(nf); for (size_t k = 0; k < nf; ++k) field_value(g, r, ft[k]);
		Geo geo(g, is_3d(t)); geo.make(depth_of(t), 1); r += geo.raw;
		raws.push_back(r);
		list << std::setw(5) << i << ' ' << gnames[t] << '\n';
		if (geometry) list << geo.out.str();
		if (fields) { list << "\tFields\n"; for (size_t k = 0; k < nf; ++k) list << '\t' << std::setw(2) << k + 1 << ' ' << ft[k] << '\n'; }
	}
	std::string md; uint32_t version = (uint32_t)s.below(10); put(md, version); std::string sref(s.below(30), (char)('A' + s.below(26))); put_s(md, sref);
	Box b = {number(g), number(g), number(g), number(g)}; put(md, b);
	size_t nt = s.chance(1, 5) ? s.below(20) : 17; counts.resize(nt, s.below(3)); put<u64>(md, nt); for (u64 x : counts) put(md, x);
	size_t nf = s.below(6); put<u64>(md, nf); std::vector<std::string> fn;
	for (size_t k = 0; k < nf; ++k) { std::string txt, name(1 + g.below(9), (char)('p' + g.below(8))); field_value(g, md, txt); put_s(md, name); fn.push_back(txt.substr(0, 7) + name); }
	{
		Builder bl(path, tpie::default_comp(), Aug(), s.pick({tpie::btree_flags::defaults, tpie::btree_flags::compress_lz4, tpie::btree_flags::compress_zstd}));
		for (auto & r : raws) { Raw x; x.b = r; bl.push(x); }
		bl.build(md);
	}
	if (header) {
		out << "======================================> Header <==================================\n" << "Version " << version << "\nsref " << sref << "\nbbox [" << b.xmin << ',' << b.ymin << ',' << b.xmax << ',' << b.ymax << "]\nGeometry counts (" << nt << "):\n";
		for (size_t i = 0; i < nt; ++i) if (counts[i]) { out << '\t'; if (i >= 1 && i < 17) out << gnames[i]; else out << i; out << ' ' << counts[i] << '\n'; }
		out << "Geometry fields:\n"; for (size_t k = 0; k < nf; ++k) out << '\t' << std::setw(2) << k + 1 << ' ' << fn[k] << '\n';
	}
	if (items) out << "======================================> Items <======================================\n" << list.str();
	std::vector<std::string> args;
	if (!header) args.push_back("--no-header"); if (!items) args.push_back("--no-items"); if (fields) args.push_back("--fields"); if (geometry) args.push_back("--geometry"); if (recursive) args.push_back("--recursive");
	for (size_t i = args.size(); i > 1; --i) std::swap(args[i - 1], args[g.below(i)]);
	unsigned special = s.chance(1, 40) ? 1 + (unsigned)s.below(2) : 0;
	std::string before = slurp(path);
	if (special != 1) args.push_back(special == 2 ? "--what" : path);
	c.trace("%zu entries of %zu types, header %d items %d fields %d geometry %d recursive %d", n, types.size(), header, items, fields, geometry, recursive);
	c.nontrivial(n > 1 && items && (fields || geometry) && !special);
	c.label(n > 256 ? "siv_dump/several leaves" : n ? "siv_dump/one leaf" : "siv_dump/empty");
	Ran r = run(c, "siv_dump", args, "");
	PBT_CHECK(c, slurp(path) == before, "siv_dump changed the tree");
	unlink(path.c_str());
	if (special) { PBT_CHECK(c, r.code == 1 && r.out.empty() && r.err.find("Usage") != std::string::npos, "siv_dump without a file ended with code %d: %s", r.code, shown(r.out).c_str()); return; }
	PBT_CHECK(c, r.code == 0, "siv_dump ended with code %d: %s", r.code, shown(r.err).c_str());
	same(c, "output of siv_dump", r.out, out.str());
}

// ---------------------------------------------------------------- the programs without input
void scen_fixed(Src & s, Ctx & c) {
	bool a = s.flip(); std::string in(s.below(100), (char)('0' + s.below(10)));
	if (a) {
		Ran r = run(c, "pipelining_datastructures", {}, in); std::string want;
		for (int i = 1; i <= 100; ++i) { int d = 0; for (int k = 81; k <= 100; ++k) d += k - i; want += std::to_string(d) + "\n"; }
		PBT_CHECK(c, r.code == 0, "pipelining_datastructures ended with code %d: %s", r.code, shown(r.err).c_str());
		same(c, "output of pipelining_datastructures", r.out, want);
	} else {
		Ran r = run(c, "pipelining_passive_sorter", {}, in); std::vector<int> v; std::string want;
		srand(1); for (int i = 0; i < 100; ++i) v.push_back(rand() % 100 + 1);
		std::sort(v.begin(), v.end()); for (int i = 0; i < 100; i += 2) want += std::to_string(v[i] + v[i + 1]) + "\n";
		PBT_CHECK(c, r.code == 0, "pipelining_passive_sorter ended with code %d: %s", r.code, shown(r.err).c_str());
		size_t p = r.out.find("digraph"), q = r.out.rfind("}\n"); // the plot of the pipeline comes before the numbers, or after them
		PBT_CHECK(c, p != std::string::npos && q != std::string::npos && p < q, "pipelining_passive_sorter printed no plot: %s", shown(r.out).c_str());
		same(c, "output of pipelining_passive_sorter", r.out.substr(0, p) + r.out.substr(q + 2), want);
	}
	c.label(a ? "fixed/datastructures" : "fixed/passive_sorter");
}

} // namespace

int main(int argc, char ** argv) {
	pbt::Suite su;
	su.property = "C21";
	su.rule = "unique: at least two different numbers and a duplicate; convex_hull: three points and more, different upper and lower hulls; merge_fractions: two databases and more with a name in common; siv_dump: several entries shown with geometry or fields";
	su.scenarios = {{"unique", scen_unique<false>, 500, 8000, 24, 120}, {"unique_large", scen_unique<true>, 10, 100, 2, 4}, {"hull", scen_hull, 500, 8000, 24, 120}, {"fractions", scen_fractions, 500, 6000, 24, 120}, {"siv", scen_siv, 700, 12000, 24, 120}, {"fixed", scen_fixed, 16, 40, 24, 120}};
	su.leak_every = 0;
	su.setup = setup;
	su.teardown = finish_tpie;
	return pbt::main_loop(argc, argv, su);
}
