// C18: progress reports, displays, the fraction database and the log.
#include "pipes.h"
#include <tpie/progress_indicator_arrow.h>
#include <tpie/progress_indicator_terminal.h>
#include <tpie/progress_indicator_subindicator.h>
#include <tpie/fractional_progress.h>
#include <tpie/sort.h>
#include <tpie/sort_deprecated.h>
#include <tpie/parallel_sort.h>
#include <tpie/logstream.h>
#include <tpie/stream.h>
#include <fstream>
#include <sstream>
#include <map>
#include <limits>
using namespace tv;

namespace {
typedef uint64_t u64;
typedef std::pair<std::string, tpie::description_importance> crumb_t;
std::string show(const std::vector<crumb_t> & v) { std::string r; for (auto & x : v) r += "/" + x.first + "(" + std::to_string((int)x.second) + ")"; return r; }

// Keeps what is displayed, and checks that it only moves forward and stays within the range.
struct Root : public tpie::progress_indicator_base {
	Ctx & c; u64 last = 0, refreshes = 0; int inits = 0, dones = 0; std::vector<crumb_t> crumbs; bool strict; bool bad = false; std::string what;
	Root(Ctx & c, u64 range = 0, bool strict = true) : progress_indicator_base(range), c(c), strict(strict) {}
	void init(tpie::stream_size_type r = 0) override { ++inits; last = 0; progress_indicator_base::init(r); }
	void done() override { ++dones; }
	void refresh() override {
		++refreshes; u64 v = get_current();
		if (bad) return;
		if (v < last) { bad = true; what = "went back from " + std::to_string(last) + " to " + std::to_string(v); }
		if (strict && v > get_range()) { bad = true; what = "shows " + std::to_string(v) + " of " + std::to_string(get_range()); }
		last = v;
	}
	void push_breadcrumb(const char * s, tpie::description_importance i) override { crumbs.push_back(crumb_t(s, i)); }
	void pop_breadcrumb() override { if (crumbs.empty()) { bad = true; what = "pop_breadcrumb without a breadcrumb"; } else crumbs.pop_back(); }
	void ok() { PBT_CHECK(c, !bad, "progress: %s", what.c_str()); }
};
// A log target that records.
struct Rec : public tpie::log_target {
	std::map<int, std::string> text; std::vector<std::string> groups; bool bad = false; size_t begun = 0;
	void log(tpie::log_level l, const char * m, size_t n) override { text[l].append(m, n); }
	void begin_group(const std::string & n) override { ++begun; groups.push_back(n); }
	void end_group() override { if (groups.empty()) bad = true; else groups.pop_back(); }
};

const std::vector<const char *> NAMES = {"", "a", "Sorting", "Merging runs", "Phase > 1", "x y z", "0123456789012345678901234567890123456789012345678901234567890123456789"};
const std::vector<const char *> FUNCS = {"run", "operator()", "operator ()", "ns::cls::go", "go<a, b>", "ns::go<std::vector<int>>", "f"};
std::string plain(std::string f) { // what identifies a function in the database
	if (!f.empty() && f.back() == '>') { int c = 1; size_t i = f.size() - 1; while (c) { --i; if (f[i] == '<') --c; else if (f[i] == '>') ++c; } f = f.substr(0, i); }
	size_t p = f.rfind(':'); if (p != std::string::npos) f = f.substr(p + 1);
	std::string r; for (char ch : f) if (ch != ' ') r += ch; return r;
}

struct Tree {
	Src & s; Ctx & c; Root & root; Rec & rec; std::vector<crumb_t> model; std::vector<std::string> groups; std::map<std::string, float> & db;
	std::string fn; size_t leaves = 0, subs = 0, moves = 0, fracs = 0, depth = 0; u64 maxRange;
	void look() {
		root.ok();
		PBT_CHECK(c, root.crumbs == model, "breadcrumbs are %s, expected %s", show(root.crumbs).c_str(), show(model).c_str());
		PBT_CHECK(c, !rec.bad && rec.groups == groups, "%zu log groups open, expected %zu%s", rec.groups.size(), groups.size(), rec.bad ? " (one was closed twice)" : "");
	}
	u64 range(u64 max) { switch (s.below(4)) { case 0: return 1; case 1: return s.range(1, 10); case 2: return std::max<u64>(1, s.size(max, 16)); default: return s.range(1, max); } }
	void steps(tpie::progress_indicator_base & pi, u64 budget, tpie::progress_indicator_base * parent, u64 start, u64 outer, u64 r) {
		u64 val = 0;
		while (budget && s.more(6)) {
			u64 st = s.pick({u64(1), u64(0), std::min<u64>(budget, s.range(1, 100)), std::min<u64>(budget, s.range(1, budget))});
			u64 reps = st <= 1 ? std::min<u64>(budget, s.pick({1, 2, 50, 1000})) : 1;
			for (u64 i = 0; i < reps; ++i) { pi.step(st); }
			budget -= std::min(budget, st * reps); val += st * reps; root.ok();
			if (parent) {
				u64 d = parent->get_current() - start; u64 v = std::min(val, r);
				PBT_CHECK(c, d <= v * outer / r, "after %llu of %llu steps, a part worth %llu reported %llu", (unsigned long long)val, (unsigned long long)r, (unsigned long long)outer, (unsigned long long)d);
				PBT_CHECK(c, d >= (v / 3) * outer / r, "after %llu of %llu steps, a part worth %llu reported only %llu", (unsigned long long)val, (unsigned long long)r, (unsigned long long)outer, (unsigned long long)d);
			}
		}
	}
	// uses pi, which is not yet initialised, and finishes it
	void use(tpie::progress_indicator_base & pi, tpie::progress_indicator_base * parent, u64 start, u64 outer, std::vector<tpie::description_importance> limits, const std::string & crumb, bool group) {
		auto begin = [&]() { if (!crumb.empty()) { auto i = tpie::IMPORTANCE_MAJOR; for (size_t k = 0; k + 1 < limits.size(); ++k) i = std::min(i, limits[k]); model.push_back(crumb_t(crumb, i)); } if (group) groups.push_back(crumb); };
		auto end = [&]() { if (!crumb.empty()) model.pop_back(); if (group) groups.pop_back(); };
		++depth;
		unsigned kind = depth > 4 ? 0 : s.weighted({3, 3, 2}); u64 r = 0;
		if (kind == 0) {
			r = range(maxRange); ++leaves; bool over = s.chance(1, 8) && parent;
			c.trace("%*sleaf: %llu steps", (int)depth, "", (unsigned long long)r);
			if (s.flip()) pi.init(r); else { pi.set_range(r); pi.init(0); }
			begin(); look();
			auto sub = parent ? dynamic_cast<tpie::progress_indicator_subindicator *>(&pi) : nullptr;
			if (sub && r >= 2 && s.chance(1, 3)) { // moved while it is in use, and perhaps back again
				u64 a = s.range(1, r - 1), b = s.below(r - a + 1); ++moves; c.trace("%*smoved after %llu steps, back after %llu more", (int)depth, "", (unsigned long long)a, (unsigned long long)b);
				auto at = [&](u64 v) { u64 d = parent->get_current() - start; PBT_CHECK(c, d <= v * outer / r, "after %llu of %llu steps and a move, a part worth %llu reported %llu", (unsigned long long)v, (unsigned long long)r, (unsigned long long)outer, (unsigned long long)d); root.ok(); };
				for (u64 i = 0; i < std::min<u64>(a, 20); ++i) pi.step(i ? 1 : a - std::min<u64>(a, 20) + 1);
				at(a);
				std::unique_ptr<tpie::progress_indicator_subindicator> t; if (s.flip()) t.reset(new tpie::progress_indicator_subindicator(std::move(*sub))); else { t.reset(new tpie::progress_indicator_subindicator()); *t = std::move(*sub); }
				PBT_CHECK(c, t->get_current() == a && t->get_range() == r, "a moved indicator shows %llu of %llu, expected %llu of %llu", (unsigned long long)t->get_current(), (unsigned long long)t->get_range(), (unsigned long long)a, (unsigned long long)r);
				if (b) t->step(b); at(a + b);
				if (s.flip()) { *sub = std::move(*t); t.reset(); if (a + b < r) { pi.step(r - a - b); at(r); } pi.done(); }
				else { t->done(); *sub = std::move(*t); }
			} else {
				steps(pi, over ? r + 1 + r / 2 : r, parent, start, outer, r);
				pi.done();
			}
			end(); look();
		} else if (kind == 1) {
			r = 23000; ++fracs; size_t k = s.range(1, 6);
			c.trace("%*sfractional progress with %zu parts", (int)depth, "", k);
			tpie::fractional_progress fp(&pi);
			struct Part { std::unique_ptr<tpie::fractional_subindicator> p; std::string crumb; tpie::description_importance imp; bool enabled; double f; };
			std::vector<Part> ps; double sum = 0;
			for (size_t i = 0; i < k; ++i) {
				Part p; p.crumb = s.pick(NAMES); p.imp = (tpie::description_importance)s.below(4); p.enabled = !s.chance(1, 6); std::string id(1, (char)('a' + s.below(4)));
				std::string f = s.chance(1, 12) ? std::string(s.range(200, 400), 'q') : std::string(s.pick(FUNCS)); std::string file = s.pick({"x.cpp", "dir/x.cpp", "/a/b/y.h", "c:\\x\\z.cpp"}); size_t sl = file.find_last_of("/\\"); std::string base = sl == std::string::npos ? file : file.substr(sl + 1);
				std::string name = base + ":" + plain(f) + ":" + id; p.f = !p.enabled ? 0 : db.count(name) ? db[name] : 1.0;
				const char * cr = p.crumb.empty() && s.flip() ? nullptr : p.crumb.c_str();
				if (s.flip()) p.p.reset(new tpie::fractional_subindicator(fp, id.c_str(), file.c_str(), f.c_str(), s.below(1000), cr, p.imp, p.enabled));
				else { p.p.reset(new tpie::fractional_subindicator(fp)); p.p->setup(id.c_str(), file.c_str(), f.c_str(), s.below(1000), cr, p.imp, p.enabled); }
				sum += p.f; ps.push_back(std::move(p));
			}
			fp.init(); begin(); look();
			PBT_CHECK(c, pi.get_range() == 23000 || !parent, "the range of fractional progress is %llu", (unsigned long long)pi.get_range());
			for (auto & p : ps) {
				if (!p.enabled && s.flip()) continue;
				u64 before = pi.get_current(); double share = sum > 0.00001 ? 23000.0 * p.f / sum : 0; auto l = limits; l.push_back(p.imp);
				u64 want = (u64)share;
				if (s.chance(1, 8)) { p.p->set_crumb("changed"); p.crumb = "changed"; }
				useSub(*p.p, &pi, before, want, l, p.crumb, true);
				u64 d = pi.get_current() - before;
				PBT_CHECK(c, d + 1 >= want && d <= want + 1, "a part worth %.3f of 23000 advanced the progress by %llu", share, (unsigned long long)d);
				look();
			}
			fp.done(); end(); look();
		} else {
			r = std::max<u64>(range(maxRange), 2); u64 left = r; size_t k = s.range(1, 4);
			c.trace("%*s%zu parts of %llu", (int)depth, "", k, (unsigned long long)r);
			pi.init(r); begin(); look();
			for (size_t i = 0; i < k && left; ++i) {
				u64 out = s.chance(1, 3) ? left : s.range(0, left); left -= out; ++subs;
				std::string cr = s.pick(NAMES); auto imp = (tpie::description_importance)s.below(4); bool grp = s.flip(); const char * cp = cr.empty() && s.flip() ? nullptr : cr.c_str();
				auto mode = grp ? tpie::log_group_mode::enabled : tpie::log_group_mode::disabled;
				std::unique_ptr<tpie::progress_indicator_subindicator> q;
				switch (s.below(4)) {
				default: q.reset(new tpie::progress_indicator_subindicator(&pi, out, cp, imp, mode)); break;
				case 1: q.reset(new tpie::progress_indicator_subindicator()); q->setup(&pi, out, cp, imp, mode); break;
				case 2: { ++moves; tpie::progress_indicator_subindicator t(&pi, out, cp, imp, mode); q.reset(new tpie::progress_indicator_subindicator(std::move(t))); break; }
				case 3: { ++moves; tpie::progress_indicator_subindicator t(&pi, out, cp, imp, mode); q.reset(new tpie::progress_indicator_subindicator()); *q = std::move(t); break; }
				}
				u64 before = pi.get_current(); auto l = limits; l.push_back(imp);
				use(*q, &pi, before, out, l, cr, grp);
				u64 d = pi.get_current() - before;
				PBT_CHECK(c, d == out, "a finished part worth %llu advanced the progress by %llu", (unsigned long long)out, (unsigned long long)d);
				look();
				if (left && s.chance(1, 3)) { u64 st = s.range(1, left); pi.step(st); left -= st; root.ok(); }
			}
			pi.done(); end(); look();
		}
		if (parent) {
			PBT_CHECK(c, pi.get_current() == pi.get_range() && pi.get_range() == r, "a finished part shows %llu of %llu, range set to %llu", (unsigned long long)pi.get_current(), (unsigned long long)pi.get_range(), (unsigned long long)r);
		}
		--depth;
	}
	void useSub(tpie::progress_indicator_base & pi, tpie::progress_indicator_base * parent, u64 start, u64 outer, std::vector<tpie::description_importance> limits, const std::string & crumb, bool group) {
		(void)outer; (void)start; (void)parent; // the share is known to within one unit only
		// look at intermediate values against the share rounded up
		use2(pi, limits, crumb, group);
	}
	void use2(tpie::progress_indicator_base & pi, std::vector<tpie::description_importance> limits, const std::string & crumb, bool group) {
		if (depth <= 3 && s.chance(1, 2)) { struct NoParent { } x; (void)x; use(pi, nullptr, 0, 0, limits, crumb, group); return; }
		auto i = tpie::IMPORTANCE_MAJOR; for (size_t k = 0; k + 1 < limits.size(); ++k) i = std::min(i, limits[k]);
		u64 r = range(maxRange); ++leaves; ++depth; c.trace("%*sleaf: %llu steps", (int)depth, "", (unsigned long long)r);
		pi.init(r); if (!crumb.empty()) model.push_back(crumb_t(crumb, i)); if (group) groups.push_back(crumb); look();
		if (s.chance(1, 4)) { pi.push_breadcrumb("user", tpie::IMPORTANCE_MINOR); auto j = tpie::IMPORTANCE_MINOR; for (auto l : limits) j = std::min(j, l); model.push_back(crumb_t("user", j)); look(); steps(pi, r, nullptr, 0, 0, r); pi.pop_breadcrumb(); model.pop_back(); look(); }
		else steps(pi, r, nullptr, 0, 0, r);
		pi.done(); if (!crumb.empty()) model.pop_back(); if (group) groups.pop_back(); look(); --depth;
	}
};
void fresh_db(bool capture) { tpie::finish_fraction_db(); tpie::init_fraction_db(capture); }

void scen_tree(Src & s, Ctx & c) {
	init_tpie(4096, 64u << 20, false); fresh_db(false);
	Resources res(c.dir);
	{
		Rec rec; tpie::add_log_target(&rec);
		struct Rm { Rec & r; ~Rm() { tpie::remove_log_target(&r); } } rm{rec};
		std::map<std::string, float> db; std::map<std::string, u64> dbn;
		if (s.flip()) {
			size_t k = s.range(1, 12);
			for (size_t i = 0; i < k; ++i) {
				std::string name = std::string(s.pick({"x.cpp", "y.h", "z.cpp"})) + ":" + plain(s.pick(FUNCS)) + ":" + std::string(1, (char)('a' + s.below(4)));
				float f = s.pick({0.5f, 0.001f, 1.0f, 0.25f, 0.0f, 0.333f}); u64 n = s.below(5);
				tpie::update_fractions(name.c_str(), f, n); if (!db.count(name) || dbn[name] <= n) { db[name] = f; dbn[name] = n; }
				c.trace("update_fractions(%s, %g, %llu)", name.c_str(), (double)f, (unsigned long long)n);
			}
		}
		Root root(c); Tree t{s, c, root, rec, {}, {}, db, "", 0, 0, 0, 0, 0, s.pick({u64(100), u64(10), u64(100000), u64(1) << 31})};
		t.use(root, nullptr, 0, 0, {}, "", false);
		t.look();
		PBT_CHECK(c, root.inits == 1 && root.dones == 1, "init called %d times, done %d times", root.inits, root.dones);
		c.nontrivial(t.leaves >= 2 && root.refreshes > 3);
		if (t.moves) c.label("moved indicators"); if (t.fracs > 1) c.label("nested fractional progress"); if (t.subs) c.label("explicit parts");
	}
	res.expect_same(c, "after all indicators were destroyed");
}

// the two indicators that draw on a stream
void scen_display(Src & s, Ctx & c) {
	init_tpie(4096, 64u << 20, false);
	std::ostringstream os; size_t tl = s.pick({size_t(5), size_t(0), size_t(s.below(60)), size_t(s.range(90, 130)), size_t(s.below(1000))}); std::string title(tl, 't');
	u64 range = s.pick({u64(100), u64(0), u64(1), u64(s.range(1, 1000)), u64(s.range(1, u64(1) << 40))});
	bool arrow = s.weighted({1, 3}); size_t len = 110; std::unique_ptr<tpie::progress_indicator_base> pi; tpie::progress_indicator_arrow * ar = nullptr; std::vector<std::string> crumbs;
	c.trace("%s, title of %zu characters, range %llu", arrow ? "arrow" : "terminal", tl, (unsigned long long)range);
	if (arrow) pi.reset(ar = new tpie::progress_indicator_arrow(title.c_str(), range, os)); else pi.reset(new tpie::progress_indicator_terminal(title.c_str(), range, os));
	tpie::execution_time_predictor pred("tv"); bool predicted = s.chance(1, 5); if (predicted) { pred.start_execution(10); pi->set_time_predictor(&pred); PBT_CHECK(c, pi->get_time_predictor() == &pred, "wrong predictor"); }
	u64 cur = 0; bool inited = false; size_t n = 0, lastEq = 0; u64 done = 0;
	auto verify = [&](const char * when) {
		std::string o = os.str(), want; u64 pc = range ? cur * 100 / range : 0; ++n;
		if (arrow) {
			size_t l = len > 12 + tl ? len - 12 - tl : 1; size_t p = range ? (size_t)(l * (double)cur / (double)range) : 0; (void)p;
			size_t at = o.rfind("\r\x1B[K"); PBT_CHECK(c, at != std::string::npos, "%s: nothing was drawn", when); o = o.substr(at + 4); while (!o.empty() && o.back() == '\n') o.pop_back();
			PBT_CHECK(c, o.compare(0, tl, title) == 0 && o.compare(tl, 2, " [") == 0, "%s: drawn as '%s', the title should come first", when, o.c_str());
			size_t i = tl + 2, e = 0, b = 0; while (i < o.size() && o[i] == '=') ++i, ++e; PBT_CHECK(c, i < o.size() && o[i] == '>', "%s: no arrow in '%s'", when, o.c_str()); ++i; while (i < o.size() && o[i] == ' ') ++i, ++b;
			PBT_CHECK(c, e + 1 + b == l, "%s: the arrow has room for %zu characters, expected %zu: '%s'", when, e + 1 + b, l, o.c_str());
			u64 we = range ? std::min<u64>(l - 1, l * cur / range) : 0;
			PBT_CHECK(c, e == we, "%s: the arrow is %zu long, expected %llu: '%s'", when, e, (unsigned long long)we, o.c_str());
			PBT_CHECK(c, e >= lastEq, "%s: the arrow became shorter", when); lastEq = e;
			want = "] " + std::to_string(pc) + "%"; for (size_t k = 0; k < crumbs.size(); ++k) want += (k ? " > " : " ") + crumbs[k]; want += " ";
			std::string rest = o.substr(i); PBT_CHECK(c, rest.compare(0, want.size(), want) == 0, "%s: drawn as '%s', expected '%s' after the arrow", when, rest.c_str(), want.c_str());
			if (!predicted || !range) PBT_CHECK(c, rest == want, "%s: '%s' after the arrow, expected '%s'", when, rest.c_str(), want.c_str());
		} else {
			size_t at = o.rfind('\r'); PBT_CHECK(c, at != std::string::npos, "%s: nothing was drawn", when); o = o.substr(at + 1); while (!o.empty() && o.back() == '\n') o.pop_back();
			want = title + " " + std::to_string(pc) + "%"; PBT_CHECK(c, o == want, "%s: drawn as '%s', expected '%s'", when, o.c_str(), want.c_str());
		}
	};
	while (s.more(12)) {
		switch (s.below(7)) {
		case 0: if (ar) { int v = s.pick({20, 1, 60, 100, -5, 40, 2, 13, 14}); ar->set_indicator_length(v); len = (size_t)std::max(2, std::min(60, v)); lastEq = 0; c.trace("set_indicator_length(%d)", v); } break;
		case 1: { u64 r = s.pick({u64(0), u64(s.range(1, 1000)), u64(s.range(1, u64(1) << 40))}); c.trace("init(%llu)", (unsigned long long)r); lastEq = 0; if (r) range = r; cur = 0; pi->init(r); inited = true; verify("after init"); break; }
		case 2: case 3: if (inited) { u64 st = s.range(0, range > cur ? range - cur : 0); if (s.flip()) st = std::min<u64>(st, 10); cur += st; pi->step(st); c.trace("step(%llu)", (unsigned long long)st); pi->refresh(); verify("after a step"); } break;
		case 4: if (inited) { u64 st = s.range(0, range > cur ? range - cur : 0); cur += st; pi->raw_step(st); verify("after raw_step"); } break;
		case 5: if (ar && s.flip()) { std::string x = s.pick(NAMES); crumbs.push_back(x); pi->push_breadcrumb(x.c_str(), tpie::IMPORTANCE_MAJOR); } else if (ar && !crumbs.empty()) { crumbs.pop_back(); pi->pop_breadcrumb(); } break;
		case 6: if (inited) { ++done; cur = range; c.trace("done()"); pi->done(); verify("after done"); PBT_CHECK(c, os.str().back() == '\n', "done() does not end the line"); inited = false; } break;
		}
	}
	PBT_CHECK(c, !inited || (pi->get_current() == cur && pi->get_range() == range), "get_current() is %llu of %llu, expected %llu of %llu", (unsigned long long)pi->get_current(), (unsigned long long)pi->get_range(), (unsigned long long)cur, (unsigned long long)range);
	c.nontrivial(n >= 3); c.labelf("%s", arrow ? "arrow" : "terminal"); if (tl > 90) c.label("title as long as the indicator"); if (!range) c.label("empty range");
}

// the fraction database
typedef std::map<std::string, std::pair<float, u64>> fdb_t;
bool parse(const std::string & path, fdb_t & out) {
	std::ifstream f(path.c_str(), std::ios::binary); if (!f) return false; std::string l; const std::string head = "tpie::update_fractions(\"";
	while (std::getline(f, l)) {
		if (l.compare(0, head.size(), head) != 0) return false; size_t q = l.rfind("\", "); if (q == std::string::npos) return false;
		std::string name = l.substr(head.size(), q - head.size()); float fr; unsigned long long n; int used = 0;
		if (sscanf(l.c_str() + q + 3, "%f, %llu);%n", &fr, &n, &used) != 2 || !used) return false; out[name] = std::make_pair(fr, (u64)n);
	}
	return true;
}
void scen_db(Src & s, Ctx & c) {
	init_tpie(4096, 64u << 20, false); bool capture = s.chance(1, 25); fresh_db(capture);
	Resources res(c.dir); fdb_t m; std::string path[2] = {c.dir + "/fractions.inl", c.dir + "/other.inl"}; fdb_t disk[2]; bool have[2] = {false, false}, clean[2] = {true, true}; size_t loads = 0, upd = 0; bool dirty = false;
	for (auto & p : path) { ::unlink(p.c_str()); ::unlink((p + "~").c_str()); }
	auto close = [](float a, float b) { return a == b || std::fabs(a - b) <= 2e-5f * std::max(std::fabs(a), std::fabs(b)); };
	auto same = [&](const fdb_t & a, const fdb_t & b, const char * when) {
		PBT_CHECK(c, a.size() == b.size(), "%s: %zu entries, expected %zu", when, a.size(), b.size());
		for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) PBT_CHECK(c, i->first == j->first && close(i->second.first, j->second.first) && i->second.second == j->second.second, "%s: entry (%s, %g, %llu), expected (%s, %g, %llu)", when, i->first.c_str(), (double)i->second.first, (unsigned long long)i->second.second, j->first.c_str(), (double)j->second.first, (unsigned long long)j->second.second);
	};
	auto merge = [&](fdb_t & to, const std::string & n, float f, u64 k) { auto i = to.find(n); if (i != to.end() && i->second.second > k) return false; to[n] = std::make_pair(f, k); return true; };
	while (s.more(12)) {
		size_t w = s.below(2); unsigned long long k = 0;
		switch (s.below(8)) {
		case 0: case 1: case 2: {
			std::string n = s.pick({"a.cpp:f:x", "b.h:operator():sort", "b.h:g:id with spaces", "weird\", name:1", "c", "", "a.cpp:f:y", "quote\"quote", "par(en);)"}); if (s.chance(1, 6)) n += std::string(s.below(3000), 'n');
			float f = s.pick({0.5f, 0.123456789f, 1e-7f, 0.0f, 1.0f, 3.3e-12f, 12345.678f}); k = s.pick({0ull, 1ull, 10ull, 10ull, 1ull << 40, ~0ull});
			tpie::update_fractions(n.c_str(), f, k); dirty |= merge(m, n, f, k); ++upd; c.trace("update_fractions(%.30s, %g, %llu)", n.c_str(), (double)f, k); break; }
		case 3: { bool force = s.flip(); c.trace("save_fractions(%zu, %d)", w, force); tpie::save_fractions(path[w], force);
			if (force || dirty) { have[w] = true; clean[w] = true; disk[w] = m; }
			if (have[w] && clean[w]) { fdb_t got; PBT_CHECK(c, parse(path[w], got), "the saved file cannot be read"); same(got, disk[w], "saved file"); }
			PBT_CHECK(c, have[w] == file_exists(path[w]), "a file exists: %d, expected %d", (int)file_exists(path[w]), (int)have[w]); PBT_CHECK(c, !file_exists(path[w] + "~"), "the temporary file was left behind"); break; }
		case 4: { c.trace("load_fractions(%zu)", w); tpie::load_fractions(path[w]); ++loads; if (have[w]) for (auto & e : disk[w]) merge(m, e.first, e.second.first, e.second.second); dirty = false; break; }
		case 5: fresh_db(capture); m.clear(); dirty = false; c.trace("new database"); break;
		case 6: if (have[w]) { clean[w] = false; std::ofstream f(path[w].c_str(), std::ios::binary | std::ios::app); size_t lines = s.range(1, 4);
			for (size_t i = 0; i < lines; ++i) { std::string l = s.pick({"garbage", "tpie::update_fractions(\"", "tpie::update_fractions(\"x\", 1, 2", "tpie::update_fractions(\"x\", one, 2);", "tpie::update_fractions(\"x\", 1, -2x);", "", "tpie::update_fractions();", "tpie::update_fractions(\"x\"); ", "// tpie::update_fractions(\"x\", 1, 2);"}); if (s.chance(1, 4)) { Rng r = s.bulk(); l.assign(r.below(300), 0); for (auto & ch : l) ch = (char)r.below(256); for (auto & ch : l) if (ch == '\n' || ch == 't') ch = 'x'; } f << l << "\n"; } c.trace("%zu lines of garbage appended to file %zu", lines, w); c.label("damaged file"); } break;
		case 7: if (have[w] && m.size() && s.chance(1, 2)) { // a file system without room
			c.trace("save_fractions(%zu) with a full disk", w); std::string before; { std::ifstream f(path[w].c_str(), std::ios::binary); std::stringstream b; b << f.rdbuf(); before = b.str(); }
			PBT_CHECK(c, symlink("/dev/full", (path[w] + "~").c_str()) == 0, "symlink"); tpie::save_fractions(path[w], true); ::unlink((path[w] + "~").c_str());
			struct stat st; PBT_CHECK(c, lstat(path[w].c_str(), &st) == 0 && S_ISREG(st.st_mode), "saving to a full disk replaced the database");
			std::string after; { std::ifstream f(path[w].c_str(), std::ios::binary); std::stringstream b; b << f.rdbuf(); after = b.str(); }
			PBT_CHECK(c, before == after, "saving to a full disk damaged the database"); c.label("full disk"); } break;
		}
	}
	if (capture) { // measured fractions
		fdb_t got; size_t k = s.range(1, 4); u64 n[4]; Root root(c); bool useful[4];
		{ tpie::fractional_progress fp(&root); std::vector<std::unique_ptr<tpie::fractional_subindicator>> v; for (size_t i = 0; i < k; ++i) { n[i] = s.below(3) ? s.range(1, 1000) : 0; std::string id(1, (char)('p' + i)); v.emplace_back(new tpie::fractional_subindicator(fp, id.c_str(), "dir/m.cpp", "measured", n[i], "")); }
			fp.init(); for (size_t i = 0; i < k; ++i) { v[i]->init(10); useful[i] = n[i] > 0 && s.flip(); if (useful[i]) usleep(2500); v[i]->done(); } fp.done(); root.ok(); }
		tpie::save_fractions(path[0], true); have[0] = true; PBT_CHECK(c, parse(path[0], got), "the saved file cannot be read"); float sum = 0; bool any = false;
		for (size_t i = 0; i < k; ++i) { std::string nm = std::string("m.cpp:measured:") + (char)('p' + i); any |= useful[i]; if (got.count(nm)) { sum += got[nm].first; PBT_CHECK(c, got[nm].second == n[i] && n[i], "measured with size %llu, recorded %llu", (unsigned long long)n[i], (unsigned long long)got[nm].second); if (useful[i]) PBT_CHECK(c, got[nm].first > 0, "a part that took 2 ms was recorded with fraction 0"); } else PBT_CHECK(c, !useful[i], "a measured part was not recorded"); }
		PBT_CHECK(c, !any || std::fabs(sum - 1) < 1e-3f, "the recorded fractions add up to %g", (double)sum); c.label("measured fractions");
	}
	fresh_db(false); for (auto & p : path) ::unlink(p.c_str());
	c.nontrivial(upd >= 2 && (loads || have[0] || have[1]));
	res.expect_same(c, "after the database was destroyed");
}

// the log
void scen_log(Src & s, Ctx & c) {
	init_tpie(4096, 64u << 20, false);
	using namespace tpie;
	const std::vector<log_level> LV = {LOG_FATAL, LOG_ERROR, LOG_WARNING, LOG_INFORMATIONAL, LOG_APP_DEBUG, LOG_DEBUG, LOG_MEM_DEBUG, LOG_PIPE_DEBUG};
	struct Target { std::unique_ptr<log_target> t; Rec * rec; log_level threshold; std::map<int, std::string> want; std::string text; std::vector<std::string> groups; bool on; int kind; std::string path; };
	std::vector<std::unique_ptr<Target>> ts; bool enabled = false; size_t delivered = 0, msgs = 0; std::vector<std::string> errors;
	std::vector<std::string> notes; auto note = [&](const char * f, auto... a) { char t[300]; snprintf(t, sizeof t, f, a...); notes.push_back(t); };
	auto err = [&](const char * f, size_t a, size_t b) { char t[300]; snprintf(t, sizeof t, f, a, b); errors.push_back(t); };
	std::string errPath = c.dir + "/stderr.txt"; int saved = -1; bool hasErr = false;
	struct Back { int & fd; ~Back() { if (fd >= 0) { fflush(stderr); dup2(fd, 2); ::close(fd); fd = -1; } log_bits::logging_disabled = true; } } back{saved};
	{ fflush(stderr); saved = dup(2); int f = ::open(errPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600); dup2(f, 2); ::close(f); }
	log_bits::logging_disabled = false; enabled = true;
	auto add = [&]() {
		auto t = std::make_unique<Target>(); t->kind = (int)s.below(3); t->threshold = s.pick(LV); t->on = true; t->rec = nullptr; if (t->kind == 2 && hasErr) t->kind = 0;
		if (t->kind == 0) { t->rec = new Rec; t->t.reset(t->rec); t->threshold = LOG_USER3; }
		else if (t->kind == 1) { auto f = new file_log_target(t->threshold); t->path = f->m_path; t->t.reset(f); }
		else { hasErr = true; t->t.reset(new stderr_log_target(t->threshold)); }
		add_log_target(t->t.get()); note("target %zu of kind %d, threshold %d", ts.size(), t->kind, (int)t->threshold); ts.push_back(std::move(t));
	};
	add();
	auto live = [&]() { size_t n = 0; for (auto & t : ts) n += t->on; return n; };
	std::vector<std::string> open; // groups
	std::string pend; int pendL = -1; // written but not flushed, at one level
	auto emit = [&](log_level l, const std::string & m, bool ad) {
		if (enabled) for (auto & t : ts) if (t->on && l <= t->threshold && m.size()) {
			++delivered; if (t->rec) { t->want[l] += m; continue; }
			// a debugging message comes in pieces of at most the buffer size, each with its prefix
			if (l < LOG_DEBUG) t->text += m; else { size_t B = 2046; for (size_t a = 0; a < m.size(); a += ad ? m.size() : B) t->text += std::string(t->groups.size(), '|') + " " + m.substr(a, ad ? m.size() : B); }
		} };
	auto settle = [&]() { if (pendL >= 0) emit((log_level)pendL, pend, false); pend.clear(); pendL = -1; };
	while (s.more(16)) {
		switch (s.below(10)) {
		case 9: { log_level l = pendL >= 0 ? (log_level)pendL : s.pick(LV); size_t n = s.below(300); if (pend.size() + n > 2000) break; std::string m(n, 'x'); Rng r = s.bulk(); for (auto & ch : m) ch = (char)('a' + r.below(26)); get_log_by_level(l) << m; pend += m; pendL = (int)l; note("%zu bytes at level %d, not flushed", n, (int)l); ++msgs; break; }
		case 0: if (open.empty() && ts.size() < 5) add(); break;
		case 1: if (open.empty() && live() > 1) { size_t i = s.below(ts.size()); if (ts[i]->on) { settle(); remove_log_target(ts[i]->t.get()); ts[i]->on = false; note("remove target %zu", i); } } break;
		case 2: { std::string n = s.pick(NAMES); note("begin group '%s'", n.c_str()); begin_log_group(n); open.push_back(n); for (auto & t : ts) if (t->on) { if (t->rec) t->groups.push_back(n); else if (t->threshold >= LOG_DEBUG) { t->text += std::string(t->groups.size(), '|') + "> Entering " + n + "\n"; t->groups.push_back(n); } } break; }
		case 3: if (!open.empty()) { note("%s", "end group"); end_log_group(); for (auto & t : ts) if (t->on) { if (t->rec) t->groups.pop_back(); else if (t->threshold >= LOG_DEBUG) { t->text += std::string(t->groups.size() - 1, '|') + "x Leaving " + t->groups.back() + "\n"; t->groups.pop_back(); } } open.pop_back(); } break;
		case 4: enabled = !enabled; log_bits::logging_disabled = !enabled; note("logging %s", enabled ? "enabled" : "disabled"); break;
		default: {
			log_level l = s.pick(LV); size_t n = s.pick({size_t(s.below(40)), size_t(s.range(2040, 2050)), size_t(s.below(300)), size_t(s.below(9000)), size_t(s.range(4085, 4100))}); size_t pieces = s.range(1, 4); std::string m(n, 'x'); Rng r = s.bulk(); for (auto & ch : m) ch = (char)(r.below(16) ? 'a' + r.below(26) : 1 + r.below(9)); if (n && s.chance(1, 12)) m[n / 2] = 0;
			bool endl = s.flip(); bool ad = n && s.chance(1, 6);
			note("%zu bytes at level %d", n, (int)l); ++msgs;
			if (ad) { log_to_targets(l, m.data(), m.size()); }
			else {
				logstream & o = get_log_by_level(l); size_t at = 0;
				for (size_t i = 0; i < pieces; ++i) { size_t k = i + 1 == pieces ? n - at : s.below(n - at + 1); if (s.chance(1, 4)) for (size_t j = 0; j < k; ++j) o.put(m[at + j]); else o.write(m.data() + at, (std::streamsize)k); at += k; }
				if (endl) { m += '\n'; o << std::endl; } else o << std::flush;
				if (!o.good()) err("a log stream went bad", 0, 0);
			}
			if (ad) emit(l, m, true); else { if (pendL == (int)l) { m = pend + m; pend.clear(); pendL = -1; } emit(l, m, false); }
		} }
	}
	while (!open.empty()) { end_log_group(); for (auto & t : ts) if (t->on) { if (t->rec) t->groups.pop_back(); else if (t->threshold >= LOG_DEBUG) { t->text += std::string(t->groups.size() - 1, '|') + "x Leaving " + t->groups.back() + "\n"; t->groups.pop_back(); } } open.pop_back(); }
	settle(); for (auto & t : ts) if (t->on) remove_log_target(t->t.get());
	fflush(stderr); dup2(saved, 2); ::close(saved); saved = -1; log_bits::logging_disabled = true; for (auto & x : notes) c.trace("%s", x.c_str());
	auto slurp = [](const std::string & p) { std::ifstream f(p.c_str(), std::ios::binary); std::stringstream b; b << f.rdbuf(); return b.str(); };
	for (auto & e : errors) PBT_CHECK(c, false, "%s", e.c_str());
	for (size_t i = 0; i < ts.size(); ++i) {
		Target & t = *ts[i];
		if (t.rec) { PBT_CHECK(c, !t.rec->bad && t.rec->groups == t.groups, "target %zu: %zu groups open", i, t.rec->groups.size()); for (auto l : LV) PBT_CHECK(c, t.rec->text[l] == t.want[l], "target %zu received %zu bytes at level %d, expected %zu", i, t.rec->text[l].size(), (int)l, t.want[l].size()); }
		else { std::string got; if (t.kind == 1) { t.t.reset(); got = slurp(t.path); ::unlink(t.path.c_str()); } else got = slurp(errPath); size_t k = 0; while (k < got.size() && k < t.text.size() && got[k] == t.text[k]) ++k; PBT_CHECK(c, got == t.text, "%s target %zu holds %zu bytes, expected %zu; first difference at %zu", t.kind == 1 ? "file" : "stderr", i, got.size(), t.text.size(), k); }
	}
	::unlink(errPath.c_str());
	c.nontrivial(msgs >= 2 && delivered >= 1);
}

// what the library's own algorithms report
void scen_algorithms(Src & s, Ctx & c) {
	init_tpie(s.pick({4096, 512}), 64u << 20, true); fresh_db(false);
	Resources res(c.dir); Rec rec; tpie::add_log_target(&rec);
	struct Rm { Rec & r; ~Rm() { tpie::remove_log_target(&r); } } rm{rec};
	size_t n = s.size(c.thorough ? 200000 : 20000, 64); Rng r = s.bulk(); Root root(c); std::vector<u64> v(n); for (auto & x : v) x = r.below(1 + n / 2); bool exact = true;
	unsigned k = (unsigned)s.below(5); size_t lim = tpie::get_memory_manager().limit();
	auto fill = [&](tpie::file_stream<u64> & f) { f.open(); for (u64 x : v) f.write(x); f.seek(0); };
	auto small = [&](size_t m) { tpie::get_memory_manager().set_limit(tpie::get_memory_manager().used() + m); };
	if (k == 0) { c.trace("sort(stream of %zu)", n); tpie::file_stream<u64> f; fill(f); small(s.pick({size_t(8u << 20), size_t(400000)})); tpie::sort(f, root); }
	else if (k == 1) { c.trace("sort(stream of %zu, stream)", n); tpie::file_stream<u64> f, g; fill(f); g.open(); small(s.pick({size_t(8u << 20), size_t(400000)})); tpie::sort(f, g, std::less<u64>(), root); }
	else if (k == 2) { c.trace("parallel_sort of %zu items", n); exact = false; tpie::parallel_sort_impl<std::vector<u64>::iterator, std::less<u64>, true, 64> ps(&root); ps(v.begin(), v.end()); }
	else if (k == 3) { c.trace("ami::sort(stream of %zu)", n); exact = false; tpie::ami::stream<u64> f, g; for (u64 x : v) f.write_item(x); f.seek(0); small(s.pick({size_t(8u << 20), size_t(1000000)})); tpie::ami::sort(&f, &g, static_cast<tpie::progress_indicator_base *>(&root)); }
	else { World w(s, c, s.pick({size_t(200), size_t(2000)})); pipeline p = w.build(5); size_t mem = s.pick({size_t(40u << 20), size_t(600000)}); p(n, root, mem, TPIE_FSI); w.verify(); n = w.total; }
	tpie::get_memory_manager().set_limit(lim);
	root.ok();
	PBT_CHECK(c, root.inits == 1 && root.dones == 1, "progress: %d calls of init, %d of done", root.inits, root.dones);
	PBT_CHECK(c, root.crumbs.empty(), "breadcrumbs left: %s", show(root.crumbs).c_str());
	PBT_CHECK(c, !rec.bad && rec.groups.empty(), "%zu log groups left open", rec.groups.size());
	PBT_CHECK(c, root.get_current() <= root.get_range(), "shows %llu of %llu", (unsigned long long)root.get_current(), (unsigned long long)root.get_range());
	if (k < 2 && n) PBT_CHECK(c, root.get_current() + 4 >= root.get_range(), "ended at %llu of %llu", (unsigned long long)root.get_current(), (unsigned long long)root.get_range());
	(void)exact; c.nontrivial(n > 1); c.labelf("%s", k == 0 ? "sort" : k == 1 ? "sort to another stream" : k == 2 ? "parallel sort" : k == 3 ? "ami sort" : "pipeline");
	res.expect_same(c, "afterwards");
}
}

int main(int argc, char ** argv) {
	pbt::Suite su;
	su.property = "C18";
	su.rule = "tree: at least two leaves and four refreshes; display: at least three drawings; db: two updates and a save or load; log: two messages, one delivered; algorithms: two items";
	su.scenarios = {
		{"tree", scen_tree, 20000, 400000, 64, 30},
		{"display", scen_display, 20000, 300000, 64, 30},
		{"db", scen_db, 8000, 100000, 64, 30},
		{"log", scen_log, 8000, 100000, 32, 30},
		{"algorithms", scen_algorithms, 2500, 40000, 16, 60},
	};
	return pbt::main_loop(argc, argv, su);
}
