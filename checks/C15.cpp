// C15: the pipelining runtime runs the phases and nodes of any graph in the order their relations
// demand, shares memory and files among them, carries forwarded data, and lets exceptions out.
#include "common.h"
#include <tpie/pipelining.h>
#include <tpie/pipelining/runtime.h>
#include <map>
#include <set>
#include <functional>
#include <cmath>

using namespace tv;
using namespace tpie::pipelining;
typedef uint64_t u64;

namespace {
int g_alive = 0; // forwarded values and nodes alive
struct Val { // move-only forwarded value
	u64 v; bool own;
	explicit Val(u64 v) : v(v), own(true) { ++g_alive; }
	Val(Val && o) : v(o.v), own(o.own) { o.own = false; }
	Val & operator=(Val && o) { if (own) --g_alive; v = o.v; own = o.own; o.own = false; return *this; }
	Val(const Val &) = delete; Val & operator=(const Val &) = delete;
	~Val() { if (own) --g_alive; }
};
struct Shared { u64 v; Shared(u64 v) : v(v) { ++g_alive; } Shared(const Shared & o) : v(o.v) { ++g_alive; } ~Shared() { --g_alive; } };
struct node_failure { int code; };

enum Ev { PREPARE, PROPAGATE, BEGIN, GO, END, EVAC, KINDS };
const char * evname[] = {"prepare", "propagate", "begin", "go", "end", "evacuate"};
struct Event { Ev e; int n; };

struct Lim { size_t mn = 0, mx = ~size_t(0); double fr = 0; };
struct Fwd { int when; int key; size_t k; }; // when: PREPARE, PROPAGATE, END; KINDS: before the run
struct Ds { int id; double prio; size_t mn, mx; bool ctor; };
struct Dep { int on; bool share; };
struct NS {
	int phase = 0, pipe = 0;
	std::vector<int> push, pull; std::vector<Dep> deps;
	bool evac = true, token = false, late = false; // late: limits change in propagate
	Lim lim[2], lim2[2], cur[2]; int limWhen = 0; // 0 constructor, 1 prepare
	bool fileToMem = false; size_t fmUnit = 0;
	size_t got[2] = {0, 0}, changed[2] = {0, 0}, legacy = 0; int notified[2] = {0, 0};
	u64 steps = 0; int stepsWhen = 0;
	bool noForward = false; std::vector<Fwd> fwds; std::vector<Ds> ds;
	int throwAt = -1, throwCode = 0; int misuse = 0;
	bool begun = false, ended = false; int items = 0; bool beginTraffic = false, endTraffic = false;
	u64 stepped = 0;
	std::map<int, int> toHere; std::map<int, u64> fromHere; // model of the forwarded data
};
struct G;
struct N : public node {
	G & g; int id;
	N(G & g, int id) : g(g), id(id) { ++g_alive; }
	N(G & g, int id, const node_token & t) : node(t), g(g), id(id) { ++g_alive; }
	N(N && o) : node(std::move(o)), g(o.g), id(o.id) { ++g_alive; }
	N & operator=(N && o) { node::operator=(std::move(o)); id = o.id; return *this; }
	~N() override { --g_alive; }
	void init();
	void prepare() override; void propagate() override; void begin() override; void go() override; void end() override;
	bool can_evacuate() override; void evacuate() override;
	void resource_available_changed(tpie::resource_type t, tpie::memory_size_type a) override;
	void set_available_memory(tpie::memory_size_type a) override;
	void limits(const Lim * l);
	void traffic();
	void take();
	void forwards(int when);
	void fetches();
	void misuse(int where);
};
struct Pi : public tpie::progress_indicator_base {
	Ctx & c; int inits = 0, dones = 0, depth = 0; u64 last = 0; bool over = false;
	Pi(Ctx & c) : progress_indicator_base(0), c(c) {}
	void init(tpie::stream_size_type r) override { ++inits; last = 0; progress_indicator_base::init(r); }
	void done() override { ++dones; }
	void refresh() override { u64 v = get_current(); if (v < last || v > get_range()) over = true; last = v; }
	void push_breadcrumb(const char *, tpie::description_importance) override { ++depth; }
	void pop_breadcrumb() override { --depth; }
};
struct P : public bits::pipeline_base {
	P(std::vector<std::unique_ptr<N>> & ns) {
		m_memory = 1;
		m_nodeMap = ns[0]->get_node_map()->find_authority();
		m_nodeMap->increment_pipeline_ref();
		for (auto & n : ns) m_nodeMap->add_owned_node(std::move(n));
	}
	~P() override { m_nodeMap->find_authority()->decrement_pipeline_ref(); }
};

struct G {
	Src & s; Ctx & c;
	std::vector<NS> ns; std::vector<N *> at; int phases = 0, pipes = 1;
	std::vector<Event> log; std::vector<std::vector<int>> pos; // pos[ev][node]
	size_t files, memory;
	std::vector<int> exec; // phases in the order they started
	std::map<int, u64> pipeFwd;
	int curPhase = -1; u64 taken = 0; int thrown = 0;
	struct DsState { std::weak_ptr<Shared> w; bool set = false; size_t amount = 0; bool known = false; u64 v = 0; std::vector<bool> alive; };
	std::map<int, DsState> dss; int nds = 0;
	std::vector<std::pair<size_t, size_t>> memSums; // per executed phase: node minima and assigned
	bool anyLate = false; u64 nextVal = 1;

	G(Src & s, Ctx & c) : s(s), c(c) {}
	bool actor_root(int i) const { for (auto & n : ns) { for (int t : n.push) if (t == i) return false; for (int t : n.pull) if (t == i) return false; } return true; }
	void on(Ev e, N & n) {
		PBT_CHECK(c, at[n.id] == &n, "%s of node %d called on an object that was moved away from", evname[e], n.id);
		PBT_CHECK(c, !thrown, "%s of node %d called after a node threw", evname[e], n.id);
		PBT_CHECK(c, pos[e][n.id] < 0, "%s of node %d called twice", evname[e], n.id);
		pos[e][n.id] = (int)log.size(); log.push_back({e, n.id});
		c.trace("  %s %d", evname[e], n.id);
	}
	void maybe_throw(Ev e, N & n) { if (ns[n.id].throwAt == e) { thrown = 1; throw node_failure{ns[n.id].throwCode}; } }
	// item flow and dependencies
	std::vector<std::vector<int>> succ() const {
		std::vector<std::vector<int>> r(ns.size());
		for (size_t i = 0; i < ns.size(); ++i) {
			for (int t : ns[i].push) r[i].push_back(t);
			for (int t : ns[i].pull) r[t].push_back((int)i);
			for (auto & d : ns[i].deps) r[d.on].push_back((int)i);
		}
		return r;
	}
	void model_forward(int from, int key, u64 v, size_t k) {
		ns[from].fromHere[key] = v;
		auto sc = succ(); std::vector<size_t> dist(ns.size(), ~size_t(0)); std::vector<int> q{from}; dist[from] = 0;
		for (size_t h = 0; h < q.size(); ++h) {
			int u = q[h]; ns[u].toHere[key] = from;
			if (u != from && ns[u].noForward) continue;
			if (dist[u] >= k) continue;
			for (int t : sc[u]) if (dist[t] == ~size_t(0)) { dist[t] = dist[u] + 1; q.push_back(t); }
		}
	}
	// 0: nothing to fetch, else the value
	u64 model_fetch(int n, int key) {
		auto it = ns[n].toHere.find(key);
		if (it != ns[n].toHere.end()) return ns[it->second].fromHere[key];
		auto p = pipeFwd.find(key); return p == pipeFwd.end() ? 0 : p->second;
	}
	void phase_start(int ph);
	void phase_begin(int ph);
	void check_shares(int ph, int type);
};
std::string keyname(int k) { return std::string("key") + char('a' + k); }
std::string dsname(int k) { return "structure" + std::to_string(k); }

void N::limits(const Lim * l) {
	NS & m = g.ns[id];
	for (int t = 0; t < 2; ++t) {
		tpie::resource_type r = t ? tpie::MEMORY : tpie::FILES;
		set_minimum_resource_usage(r, l[t].mn); set_maximum_resource_usage(r, l[t].mx); set_resource_fraction(r, l[t].fr);
		m.cur[t] = l[t];
	}
}
void N::init() {
	NS & m = g.ns[id];
	if (m.limWhen == 0) limits(m.lim);
	if (m.stepsWhen == 0) set_steps(m.steps);
	for (auto & d : m.ds) if (d.ctor) { register_datastructure_usage(dsname(d.id), d.prio); set_datastructure_memory_limits(dsname(d.id), d.mn, d.mx); }
	set_name("node" + std::to_string(id));
}
void N::forwards(int when) {
	NS & m = g.ns[id];
	for (auto & f : m.fwds) if (f.when == when) {
		u64 v = g.nextVal++;
		g.c.trace("  node %d forwards %s = %llu within %zu", id, keyname(f.key).c_str(), (unsigned long long)v, f.k);
		if (f.k == ~size_t(0) && v % 2) forward(keyname(f.key), Val(v)); else forward(keyname(f.key), Val(v), f.k);
		g.model_forward(id, f.key, v, f.k);
	}
}
void N::fetches() {
	Ctx & c = g.c;
	for (int k = 0; k < 3; ++k) {
		u64 want = g.model_fetch(id, k);
		bool can = can_fetch(keyname(k));
		PBT_CHECK(c, can == (want != 0), "node %d: can_fetch(%s) is %d, expected value %llu", id, keyname(k).c_str(), can, (unsigned long long)want);
		if (want) {
			Val & v = fetch<Val>(keyname(k));
			PBT_CHECK(c, v.v == want, "node %d fetched %s = %llu, expected %llu", id, keyname(k).c_str(), (unsigned long long)v.v, (unsigned long long)want);
			bool ok = false; try { fetch<u64>(keyname(k)); } catch (const tpie::invalid_argument_exception &) { ok = true; }
			PBT_CHECK(c, ok, "node %d fetched %s as another type", id, keyname(k).c_str());
		} else {
			bool ok = false; try { fetch_any(keyname(k)); } catch (const tpie::invalid_argument_exception &) { ok = true; }
			PBT_CHECK(c, ok, "node %d: fetching the absent %s did not throw", id, keyname(k).c_str());
		}
	}
}
void N::misuse(int where) { // calls that are refused in this state
	NS & m = g.ns[id]; if (!m.misuse) return;
	bool ok = false; const char * what = "";
	try {
		switch (m.misuse % 5) {
		case 0: what = "set_steps"; if (where == BEGIN || where == END) set_steps(5); else ok = true; break;
		case 1: what = "set_minimum_memory"; if (where == BEGIN || where == END || where == GO) set_minimum_memory(5); else ok = true; break;
		case 2: what = "set_maximum_resource_usage"; if (where == BEGIN || where == END || where == GO) set_maximum_resource_usage(tpie::FILES, 5); else ok = true; break;
		case 3: what = "set_memory_fraction"; if (where == BEGIN || where == END || where == GO) set_memory_fraction(5); else ok = true; break;
		case 4: what = "forward"; if (where == BEGIN) forward("keyz", 1); else ok = true; break;
		}
	} catch (const tpie::pipelining::call_order_exception &) { ok = true; }
	PBT_CHECK(g.c, ok, "%s in %s was not refused", what, evname[where]);
	ok = false;
	try { add_push_destination(*this); } catch (const tpie::pipelining::call_order_exception &) { ok = true; }
	PBT_CHECK(g.c, ok, "add_push_destination in %s was not refused", evname[where]);
	ok = false;
	try { add_pull_source(*this); } catch (const tpie::pipelining::call_order_exception &) { ok = true; }
	PBT_CHECK(g.c, ok, "add_pull_source in %s was not refused", evname[where]);
}
void N::prepare() {
	NS & m = g.ns[id]; g.on(PREPARE, *this);
	if (m.limWhen == 1) limits(m.lim);
	if (m.stepsWhen == 1) set_steps(m.steps);
	for (auto & d : m.ds) if (!d.ctor) { register_datastructure_usage(dsname(d.id), d.prio); set_datastructure_memory_limits(dsname(d.id), d.mn, d.mx); }
	if (!m.ds.empty()) {
		bool ok = false; try { register_datastructure_usage(dsname(m.ds[0].id), 1); } catch (const tpie::exception &) { ok = true; }
		PBT_CHECK(g.c, ok, "node %d registered a structure twice", id);
		ok = false; try { set_datastructure_memory_limits("nosuch", 1, 2); } catch (const tpie::exception &) { ok = true; }
		PBT_CHECK(g.c, ok, "limits of an unregistered structure were accepted");
	}
	fetches(); forwards(PREPARE); fetches();
	misuse(PREPARE);
	g.maybe_throw(PREPARE, *this);
}
void N::propagate() {
	NS & m = g.ns[id]; g.phase_start(m.phase); g.on(PROPAGATE, *this);
	fetches(); forwards(PROPAGATE); fetches();
	if (m.late) limits(m.lim2);
	if (m.stepsWhen == 2) set_steps(m.steps);
	for (auto & d : m.ds) {
		auto & st = g.dss[d.id]; size_t a = get_datastructure_memory(dsname(d.id));
		if (st.known) PBT_CHECK(g.c, st.amount == a, "structure %d was given %zu bytes, another node was told %zu", d.id, a, st.amount);
		st.known = true; st.amount = a;
		if (!st.set) { auto p = std::make_shared<Shared>(g.nextVal++); st.v = p->v; st.w = p; st.set = true; set_datastructure(dsname(d.id), p); }
		PBT_CHECK(g.c, get_datastructure<std::shared_ptr<Shared>>(dsname(d.id))->v == st.v, "structure %d is not the one that was set", d.id);
	}
	misuse(PROPAGATE);
	g.maybe_throw(PROPAGATE, *this);
}
void N::begin() {
	NS & m = g.ns[id]; g.phase_begin(m.phase); g.on(BEGIN, *this); 
	fetches();
	for (auto & d : m.ds) PBT_CHECK(g.c, get_datastructure<std::shared_ptr<Shared>>(dsname(d.id))->v == g.dss[d.id].v, "structure %d is not the one that was set", d.id);
	misuse(BEGIN);
	g.maybe_throw(BEGIN, *this);
	m.begun = true;
	if (m.beginTraffic) traffic();
}
void N::go() {
	NS & m = g.ns[id]; g.on(GO, *this);
	PBT_CHECK(g.c, g.actor_root(id), "go called on node %d, which is not an initiator", id);
	PBT_CHECK(g.c, m.begun && !m.ended, "go of node %d outside its begin and end", id);
	misuse(GO);
	for (int i = 0; i < m.items; ++i) {
		if (m.throwAt == GO && i == m.items / 2) g.maybe_throw(GO, *this);
		traffic();
	}
	g.maybe_throw(GO, *this);
}
void N::traffic() {
	if (++g.taken > 4000) return;
	for (int t : g.ns[id].push) g.at[t]->take();
	for (int t : g.ns[id].pull) g.at[t]->take();
}
void N::take() {
	NS & m = g.ns[id];
	PBT_CHECK(g.c, m.begun, "node %d got an item before its begin", id);
	PBT_CHECK(g.c, !m.ended, "node %d got an item after its end", id);
	if (m.stepped < m.steps) { step(); ++m.stepped; }
	traffic();
}
void N::end() {
	NS & m = g.ns[id]; g.on(END, *this);
	fetches();
	if (m.endTraffic) traffic();
	forwards(END); fetches();
	misuse(END);
	for (auto & d : m.ds) PBT_CHECK(g.c, get_datastructure<std::shared_ptr<Shared>>(dsname(d.id))->v == g.dss[d.id].v, "structure %d is not the one that was set", d.id);
	m.ended = true;
	g.maybe_throw(END, *this);
}
bool N::can_evacuate() { return g.ns[id].evac; }
void N::evacuate() {
	g.on(EVAC, *this);
	g.maybe_throw(EVAC, *this);
}
void N::resource_available_changed(tpie::resource_type t, tpie::memory_size_type a) {
	NS & m = g.ns[id]; int k = t == tpie::MEMORY ? 1 : 0;
	PBT_CHECK(g.c, t == tpie::MEMORY || t == tpie::FILES, "told about resource %d", (int)t);
	PBT_CHECK(g.c, get_available_of_resource(t) == a, "told of %zu of a resource, get_available_of_resource says %zu", a, get_available_of_resource(t));
	m.changed[k] = a; ++m.notified[k];
	if (k == 0 && m.fileToMem) {
		size_t mn = a * m.fmUnit; if (mn > m.cur[1].mx) mn = m.cur[1].mx;
		set_minimum_resource_usage(tpie::MEMORY, mn); m.cur[1].mn = mn;
	}
	if (k == 1) {
		bool ok = false; try { set_minimum_resource_usage(tpie::FILES, 3); } catch (const tpie::pipelining::call_order_exception &) { ok = true; }
		if (get_state() == STATE_AFTER_PROPAGATE) ok = true;
		else PBT_CHECK(g.c, ok, "the minimum number of files was changed while memory is assigned");
		if (get_state() == STATE_AFTER_PROPAGATE) set_minimum_resource_usage(tpie::FILES, m.cur[0].mn);
	}
}
void N::set_available_memory(tpie::memory_size_type a) { g.ns[id].legacy = a; }

void G::phase_start(int ph) {
	if (ph == curPhase) return;
	// everything of the earlier phase is over
	for (size_t i = 0; i < ns.size(); ++i) if (ns[i].phase == curPhase) PBT_CHECK(c, pos[END][i] >= 0, "phase of node %zu was left before its end", i);
	PBT_CHECK(c, std::find(exec.begin(), exec.end(), ph) == exec.end(), "a phase was entered twice");
	for (auto & d : dss) d.second.alive.push_back(!d.second.w.expired());
	curPhase = ph; exec.push_back(ph);
}
void G::phase_begin(int ph) {
	PBT_CHECK(c, ph == curPhase, "begin of a node of another phase");
	for (auto & e : log) if (e.e == BEGIN && ns[e.n].phase == ph) return;
	for (size_t i = 0; i < ns.size(); ++i) if (ns[i].phase == ph) PBT_CHECK(c, pos[PROPAGATE][i] >= 0, "begin before propagate of node %zu", i);
	check_shares(ph, 0); check_shares(ph, 1);
}
size_t clampv(const Lim & l, double v) { if (v < (double)l.mn) return l.mn; if (v > (double)l.mx) return l.mx; return (size_t)v; }
void G::check_shares(int ph, int type) {
	const char * nm = type ? "memory" : "files"; size_t total = type ? memory : files;
	tpie::resource_type rt = type ? tpie::MEMORY : tpie::FILES;
	size_t mins = 0, sum = 0; double lo = 0, hi = INFINITY; bool open = true; double fr = 0;
	for (size_t i = 0; i < ns.size(); ++i) if (ns[i].phase == ph) {
		const Lim & l = ns[i].cur[type];
		size_t a = at[i]->get_available_of_resource(rt);
		PBT_CHECK(c, at[i]->get_minimum_resource_usage(rt) == l.mn && at[i]->get_maximum_resource_usage(rt) == l.mx && at[i]->get_resource_fraction(rt) == l.fr, "node %zu does not have the %s limits it declared", i, nm);
		PBT_CHECK(c, ns[i].notified[type] > 0 && ns[i].changed[type] == a, "node %zu was told of %zu %s, but has %zu", i, ns[i].changed[type], nm, a);
		if (type) PBT_CHECK(c, ns[i].legacy == a && at[i]->get_available_memory() == a, "set_available_memory of node %zu was given %zu, it has %zu", i, ns[i].legacy, a);
		PBT_CHECK(c, a >= l.mn && a <= l.mx, "node %zu was assigned %zu %s, its limits are %zu to %zu", i, a, nm, l.mn, l.mx);
		mins += l.mn; sum += a; fr += l.fr;
		if (l.mx != ~size_t(0)) open = false;
		if (a > l.mn) lo = std::max(lo, (double)a / l.fr);
		if (a < l.mx) hi = std::min(hi, ((double)a + 1) / l.fr);
		ns[i].got[type] = a;
	}
	size_t dmin = 0, damt = 0; bool any = false;
	if (type) {
		// structures whose range of phases includes this one; the range is not known before the run ends, so use
		// those registered here or before, by a node of a phase that is still to run
		for (auto & d : dss) {
			bool before = false, after = false; size_t mn = 0; double pr = INFINITY;
			for (size_t i = 0; i < ns.size(); ++i) for (auto & r : ns[i].ds) if (r.id == d.first) {
				bool done = std::find(exec.begin(), exec.end(), ns[i].phase) != exec.end(), here = ns[i].phase == ph;
				if (done) before = true;
				if (!done || here) after = true;
				mn = std::max(mn, r.mn); pr = std::min(pr, r.prio);
			}
			if (before && after) { any = true; dmin += mn; damt += d.second.amount; PBT_CHECK(c, d.second.known, "harness: structure %d", d.first); }
		}
	}
	if (mins + damt <= total) PBT_CHECK(c, sum + damt <= total, "%zu %s assigned in a phase (%zu of them to structures), only %zu available", sum + damt, nm, damt, total);
	else {
		for (size_t i = 0; i < ns.size(); ++i) if (ns[i].phase == ph)
			PBT_CHECK(c, at[i]->get_available_of_resource(rt) == ns[i].cur[type].mn, "the minima do not fit, but node %zu was assigned %zu %s, its minimum is %zu", i, at[i]->get_available_of_resource(rt), nm, ns[i].cur[type].mn);
		c.label("minima do not fit");
	}
	// proportional to the fractions: one factor explains all amounts
	PBT_CHECK(c, lo <= hi * (1 + 1e-9), "the %s of a phase are not shared in proportion to the fractions: factor at least %g and at most %g", nm, lo, hi);
	if (open && !any && fr > 0.01 && mins <= total) {
		size_t cnt = 0; for (auto & n : ns) if (n.phase == ph) ++cnt;
		PBT_CHECK(c, sum + cnt + 1 + (size_t)((double)total * 4e-6) >= total, "only %zu of %zu %s assigned, though no node has a maximum", sum, total, nm);
	}
	c.trace("  phase %d: %zu of %zu %s assigned", ph, sum + damt, total, nm);
}

Lim gen_lim(Src & s, size_t total, int n) {
	Lim l; size_t share = total / n + 1;
	switch (s.weighted({3, 3, 2, 1})) {
	case 0: break;
	case 1: l.mn = s.below(share); break;
	case 2: l.mn = s.below(share); l.mx = l.mn + s.below(share * 2); break;
	default: l.mx = s.below(total); break;
	}
	switch (s.weighted({3, 3, 1})) { case 0: l.fr = 1; break; case 1: l.fr = (double)s.below(1000) / 100; break; default: l.fr = 0; }
	return l;
}

// can the phases be ordered so that all forced pairs are neighbours? best: most of the wanted pairs that can be
struct Orders { bool possible; int best; };
Orders orders(int n, const std::set<std::pair<int, int>> & before, const std::set<std::pair<int, int>> & forced, const std::set<std::pair<int, int>> & wanted) {
	Orders r{false, 0}; std::vector<int> o; std::vector<bool> used(n, false);
	std::function<void(int)> rec = [&](int sat) {
		if ((int)o.size() == n) { r.possible = true; r.best = std::max(r.best, sat); return; }
		for (int i = 0; i < n; ++i) if (!used[i]) {
			bool ok = true;
			for (auto & p : before) if (p.second == i && !used[p.first]) ok = false;
			if (ok) for (auto & p : forced) { if (p.second == i && (o.empty() || o.back() != p.first)) ok = false; if (!o.empty() && p.first == o.back() && p.second != i) ok = false; }
			if (!ok) continue;
			int add = !o.empty() && wanted.count({o.back(), i});
			used[i] = true; o.push_back(i); rec(sat + add); o.pop_back(); used[i] = false;
		}
	};
	rec(0); return r;
}

enum Mode { RUN, FAILING, MALFORMED };
void scen(Src & s, Ctx & c, Mode mode) {
	init_tpie(4096, 256u << 20, false);
	int alive0 = g_alive; size_t mem0 = tpie::get_memory_manager().used();
	{
	G g(s, c);
	g.pipes = 1 + (int)s.weighted({5, 2, 1});
	std::vector<int> phasePipe;
	for (int p = 0; p < g.pipes; ++p) { int k = 1 + (int)s.weighted({3, 3, 2, 2, 1}); if (g.pipes > 1 && k > 3) k = 3; for (int i = 0; i < k; ++i) phasePipe.push_back(p); }
	g.phases = (int)phasePipe.size(); if (g.phases > 7) g.phases = 7, phasePipe.resize(7);
	g.pipes = phasePipe.back() + 1;
	g.memory = s.pick({size_t(10000), size_t(100), size_t(50000000), size_t(0), size_t(7)});
	g.files = s.pick({size_t(100), size_t(10), size_t(1000), size_t(1), size_t(0)});
	// nodes
	std::vector<std::vector<int>> members(g.phases);
	for (int p = 0; p < g.phases; ++p) {
		int k = 1 + (int)s.weighted({3, 3, 3, 2, 1, 1});
		for (int i = 0; i < k; ++i) { NS n; n.phase = p; n.pipe = phasePipe[p]; members[p].push_back((int)g.ns.size()); g.ns.push_back(n); }
		auto & m = members[p];
		for (int i = 1; i < k; ++i) { int j = (int)s.below(i); if (s.flip()) g.ns[m[i]].pull.push_back(m[j]); else g.ns[m[j]].push.push_back(m[i]); }
		if (k > 2 && s.chance(1, 4)) { // a further edge that agrees with the actor order and the item flow
			int i = 1 + (int)s.below(k - 1), j = (int)s.below(i);
			// reachable from m[i] by actor edges?
			std::set<int> seen{m[i]}; std::vector<int> q{m[i]};
			while (!q.empty()) { int u = q.back(); q.pop_back(); auto go = [&](int t) { if (seen.insert(t).second) q.push_back(t); }; for (int t : g.ns[u].push) go(t); for (int t : g.ns[u].pull) go(t); }
			if (!seen.count(m[j]) && std::find(g.ns[m[j]].push.begin(), g.ns[m[j]].push.end(), m[i]) == g.ns[m[j]].push.end()) g.ns[m[j]].push.push_back(m[i]);
		}
	}
	int n = (int)g.ns.size();
	// dependencies inside a pipe, making it connected
	bool shares = s.chance(1, 2), noEvac = shares && s.chance(1, 3);
	for (int p = 0; p < g.phases; ++p) {
		int first = p; while (first > 0 && phasePipe[first - 1] == phasePipe[p]) --first;
		if (p == first) continue;
		auto dep = [&](int q) { Dep d; d.on = s.pick(members[q]); d.share = shares && s.flip(); g.ns[s.pick(members[p])].deps.push_back(d); };
		dep(first + (int)s.below(p - first));
		while (s.chance(1, 3)) dep(first + (int)s.below(p - first));
	}
	for (auto & m : g.ns) { std::vector<Dep> d; for (auto & x : m.deps) { bool dup = false; for (auto & y : d) if (x.on == y.on && x.share == y.share) dup = true; if (!dup) d.push_back(x); } m.deps = d; }
	int malformed = 0;
	if (mode == MALFORMED) {
		malformed = 1 + (int)s.below(3);
		if (malformed == 1 && g.phases > 1 && phasePipe[1] == phasePipe[0]) { // phases that wait for each other
			int p = 1 + (int)s.below(g.phases - 1), first = p; while (first > 0 && phasePipe[first - 1] == phasePipe[p]) --first;
			// find a path back from p: add a dependency of an ancestor of p on p
			std::set<int> anc; std::vector<int> q{p};
			while (!q.empty()) { int u = q.back(); q.pop_back(); for (int i : members[u]) for (auto & d : g.ns[i].deps) { int v = g.ns[d.on].phase; if (anc.insert(v).second) q.push_back(v); } }
			if (anc.empty()) malformed = 0; else { int a = *std::next(anc.begin(), s.below(anc.size())); Dep d; d.on = s.pick(members[p]); d.share = false; g.ns[s.pick(members[a])].deps.push_back(d); c.label("cycle of phases"); }
		} else if (malformed == 2) { // items that go around in a circle
			int p = (int)s.below(g.phases); if (members[p].size() < 2) malformed = 0; else {
				// reverse an edge in addition to itself
				std::vector<std::pair<int, int>> es; for (int i : members[p]) for (int t : g.ns[i].push) es.push_back({i, t});
				if (es.empty()) malformed = 0; else { auto e = s.pick(es); g.ns[e.second].push.push_back(e.first); c.label("cycle of nodes"); }
			}
		} else malformed = 0;
	}
	// attributes
	bool dsUsed = s.chance(1, 3); if (dsUsed) g.nds = 1 + (int)s.below(3);
	for (int i = 0; i < n; ++i) {
		NS & m = g.ns[i];
		m.evac = !(noEvac && s.chance(1, 2));
		m.token = s.chance(1, 4);
		m.limWhen = (int)s.below(2); m.late = s.chance(1, 6); g.anyLate |= m.late;
		for (int t = 0; t < 2; ++t) { size_t tot = t ? g.memory : g.files; m.lim[t] = gen_lim(s, tot, n); if (m.late) m.lim2[t] = gen_lim(s, tot, n); }
		if (s.chance(1, 10)) { m.fileToMem = true; m.fmUnit = 1 + s.below(20); }
		m.stepsWhen = (int)s.below(3); m.steps = s.chance(1, 2) ? s.below(50) : 0;
		m.noForward = s.chance(1, 6);
		m.items = (int)s.below(6); m.beginTraffic = s.chance(1, 6); m.endTraffic = s.chance(1, 6);
		while (s.chance(1, 4)) { Fwd f; f.when = s.pick({(int)PREPARE, (int)PROPAGATE, (int)END, (int)KINDS}); f.key = (int)s.below(3); f.k = s.flip() ? ~size_t(0) : s.below(5); m.fwds.push_back(f); }
		for (int d = 0; d < g.nds; ++d) if (s.chance(1, 3)) { Ds x; x.id = d; x.prio = (double)s.below(500) / 100; x.mn = s.below(g.memory / (n * 3 + 1) + 1); x.mx = s.flip() ? ~size_t(0) : x.mn + s.below(g.memory / 3 + 1); x.ctor = s.flip(); m.ds.push_back(x); }
		if (s.chance(1, 6)) m.misuse = 1 + (int)s.below(10);
		// limits of a structure agree between nodes: keep the range of each non-empty
	}
	for (int d = 0; d < g.nds; ++d) { size_t mn = 0; for (auto & m : g.ns) for (auto & x : m.ds) if (x.id == d) mn = std::max(mn, x.mn); for (auto & m : g.ns) for (auto & x : m.ds) if (x.id == d) { if (x.mx < mn) x.mx = mn; g.dss[d]; } }
	std::vector<int> throwers;
	if (mode == FAILING) { int k = 1 + (int)s.below(2); for (int i = 0; i < k; ++i) { int x = (int)s.below(n); g.ns[x].throwAt = (int)s.below(KINDS); g.ns[x].throwCode = 100 + i; throwers.push_back(x); } }
	// what each pipe has, for the trace
	for (int i = 0; i < n; ++i) {
		NS & m = g.ns[i]; std::string e;
		for (int t : m.push) e += " push->" + std::to_string(t);
		for (int t : m.pull) e += " pull<-" + std::to_string(t);
		for (auto & d : m.deps) e += std::string(d.share ? " shares-memory-after " : " after ") + std::to_string(d.on);
		c.trace("node %d: pipe %d phase %d%s%s%s mem %zu..%zu x%g files %zu..%zu x%g", i, m.pipe, m.phase, e.c_str(), m.evac ? "" : " (no evacuation)", m.noForward ? " (no forward through)" : "", m.lim[1].mn, m.lim[1].mx, m.lim[1].fr, m.lim[0].mn, m.lim[0].mx, m.lim[0].fr);
	}
	g.pos.assign(KINDS, std::vector<int>(n, -1)); g.at.assign(n, nullptr);
	// construct nodes and relations in some order
	std::vector<std::unique_ptr<N>> own(n); std::vector<std::unique_ptr<node_token>> tok(n);
	for (int i = 0; i < n; ++i) if (g.ns[i].token) tok[i].reset(new node_token);
	auto make = [&](int i) { if (own[i]) return; if (tok[i]) own[i].reset(new N(g, i, *tok[i])); else own[i].reset(new N(g, i)); own[i]->init(); };
	// a node that moves: into a new node, or assigned to one
	auto move = [&](int x) { if (!own[x]) return; std::unique_ptr<N> q; if (s.flip()) q.reset(new N(std::move(*own[x]))); else { q.reset(new N(g, -1)); *q = std::move(*own[x]); } own[x] = std::move(q); };
	// a token belongs to one node
	auto taken = [&](const node_token & t, int i) { try { N x(g, i, t); } catch (const tpie::exception &) { return; } c.fail("a second node could take the token of node %d", i); };
	struct Rel { int a, b, kind; }; std::vector<Rel> rels;
	for (int i = 0; i < n; ++i) { for (int t : g.ns[i].push) rels.push_back({i, t, 0}); for (int t : g.ns[i].pull) rels.push_back({i, t, 1}); for (auto & d : g.ns[i].deps) rels.push_back({i, d.on, d.share ? 3 : 2}); }
	for (size_t i = rels.size(); i > 1; --i) std::swap(rels[i - 1], rels[s.below(i)]);
	for (auto & r : rels) {
		make(r.a);
		bool viaTok = tok[r.b] && (!own[r.b] ? true : s.flip());
		if (viaTok) {
			const node_token & t = *tok[r.b];
			switch (r.kind) { case 0: own[r.a]->add_push_destination(t); break; case 1: own[r.a]->add_pull_source(t); break; case 2: own[r.a]->add_dependency(t); break; default: own[r.a]->add_memory_share_dependency(t); }
		} else {
			make(r.b); const N & t = *own[r.b];
			switch (r.kind) { case 0: own[r.a]->add_push_destination(t); break; case 1: own[r.a]->add_pull_source(t); break; case 2: own[r.a]->add_dependency(t); break; default: own[r.a]->add_memory_share_dependency(t); }
		}
		if (s.chance(1, 5)) move(s.flip() ? r.a : r.b);
		if (s.chance(1, 8)) { int x = s.flip() ? r.a : r.b; if (own[x]) taken(tok[x] && s.flip() ? *tok[x] : own[x]->get_token(), x); }
	}
	for (int i = 0; i < n; ++i) make(i);
	for (int i = 0; i < n; ++i) if (g.ns[i].noForward) own[i]->no_forward_through();
	for (int i = 0; i < n; ++i) {
		own[i]->forwards(KINDS);
		if (s.chance(1, 8)) move(i);
	}
	for (int i = 0; i < n; ++i) { g.at[i] = own[i].get(); }
	std::vector<pipeline> pipes;
	for (int p = 0; p < g.pipes; ++p) {
		std::vector<std::unique_ptr<N>> mine; for (int i = 0; i < n; ++i) if (g.ns[i].pipe == p) mine.push_back(std::move(own[i]));
		pipes.push_back(pipeline(std::shared_ptr<bits::pipeline_base>(new P(mine))));
	}
	tok.clear();
	// order the pipelines
	std::vector<int> comp(g.pipes); for (int p = 0; p < g.pipes; ++p) comp[p] = p;
	std::vector<std::pair<int, int>> pipeOrder;
	auto order = [&](int a, int b) {
		bool ignored = comp[a] == comp[b];
		std::vector<int> sinks, sources; auto sc = g.succ(); std::vector<int> indeg(n, 0);
		for (auto & v : sc) for (int t : v) ++indeg[t];
		for (int i = 0; i < n; ++i) { if (comp[g.ns[i].pipe] == comp[a] && sc[i].empty()) sinks.push_back(i); if (comp[g.ns[i].pipe] == comp[b] && !indeg[i]) sources.push_back(i); }
		pipeline & r = pipes[a].then(pipes[b]);
		PBT_CHECK(c, &r == &pipes[b], "then() returned another pipeline");
		if (ignored) return;
		for (int y : sources) for (int x : sinks) g.ns[y].deps.push_back({x, false});
		pipeOrder.push_back({a, b}); int cb = comp[b]; for (auto & x : comp) if (x == cb) x = comp[a];
	};
	bool sourceless = malformed == 1 || malformed == 2;
	if (sourceless && g.pipes > 1) { // a pipeline without sources cannot be ordered; run the broken one alone
		malformed = 3;
	} else for (int p = 1; p < g.pipes; ++p) { int q = (int)s.below(p); if (s.flip()) order(q, p); else order(p, q); if (s.chance(1, 4)) order(p, q); }
	if (malformed == 3) { c.label("several pipelines, malformed"); return; }
	int runPipe = (int)s.below(g.pipes);
	if (s.chance(1, 2)) for (int k = 0; k < 3; ++k) if (s.flip()) { u64 v = g.nextVal++; pipes[runPipe].forward(keyname(k), Val(v)); g.pipeFwd[k] = v; }
	// which order can there be?
	std::set<std::pair<int, int>> before, forced, wanted; bool samePairTwice = false;
	for (int i = 0; i < n; ++i) for (auto & d : g.ns[i].deps) {
		std::pair<int, int> e(g.ns[d.on].phase, g.ns[i].phase); before.insert(e);
		if (d.share) { if (!g.ns[d.on].evac) { if (!forced.insert(e).second) samePairTwice = true; } else wanted.insert(e); }
	}
	Orders ord = orders(g.phases, before, forced, wanted);
	bool refuse = !ord.possible || malformed == 2; (void)samePairTwice;
	Pi pi(c); bool threw = false, other = false; int code = 0; std::string what;
	bool fsi = s.flip();
	try { if (fsi) pipes[runPipe](s.below(1000), pi, g.files, g.memory, "file", "function"); else pipes[runPipe](1, pi, g.files, g.memory, nullptr, nullptr); }
	catch (const node_failure & e) { threw = true; code = e.code; }
	catch (const tpie::exception & e) { other = true; what = e.what(); }
	if (refuse) {
		PBT_CHECK(c, other, "a graph that cannot be run in any order was run");
		if (!ord.possible) PBT_CHECK(c, g.log.empty(), "nodes were called although the graph has no valid order");
		for (auto & e : g.log) PBT_CHECK(c, e.e != GO || malformed == 2, "go called");
		c.label(malformed ? "malformed, refused" : "no valid order, refused"); c.nontrivial(); return;
	}
	PBT_CHECK(c, !other, "the pipeline threw: %s", what.c_str());
	if (threw) { PBT_CHECK(c, g.thrown && g.ns[g.log.back().n].throwCode == code, "an exception came out that is not the one thrown"); c.label("threw"); c.labelf("threw in %s", evname[g.log.back().e]); }
	else PBT_CHECK(c, !g.thrown, "a node threw, but the pipeline ended normally");
	// order of the calls: what is required before what
	auto need = [&](Ev ea, int a, Ev eb, int b, const char * why) {
		if (g.pos[eb][b] < 0) return;
		PBT_CHECK(c, g.pos[ea][a] >= 0 && g.pos[ea][a] < g.pos[eb][b], "%s of node %d is not before %s of node %d: %s", evname[ea], a, evname[eb], b, why);
	};
	for (int i = 0; i < n; ++i) {
		bool root = g.actor_root(i);
		if (!threw) for (int e = 0; e < EVAC; ++e) PBT_CHECK(c, (g.pos[e][i] >= 0) == (e != GO || root), "%s of node %d was %s", evname[e], i, g.pos[e][i] >= 0 ? "called" : "never called");
		need(PREPARE, i, PROPAGATE, i, "own order"); need(PROPAGATE, i, BEGIN, i, "own order"); need(BEGIN, i, END, i, "own order"); need(BEGIN, i, GO, i, "own order"); if (root) need(GO, i, END, i, "own order of an initiator");
		if (!root) PBT_CHECK(c, g.pos[GO][i] < 0, "go of node %d, which is no initiator", i);
		auto flow = [&](int a, int b) { need(PREPARE, a, PREPARE, b, "item flow"); need(PROPAGATE, a, PROPAGATE, b, "item flow"); };
		auto actor = [&](int a, int b) { need(BEGIN, b, BEGIN, a, "destinations begin first"); need(END, a, END, b, "sources end first"); };
		for (int t : g.ns[i].push) { flow(i, t); actor(i, t); }
		for (int t : g.ns[i].pull) { flow(t, i); actor(i, t); }
	}
	// inside a phase: all propagates, all begins, all gos, all ends
	for (auto & m : members) for (int a : m) for (int b : m) { need(PROPAGATE, a, BEGIN, b, "phase order"); need(BEGIN, a, GO, b, "phase order"); need(BEGIN, a, END, b, "phase order"); if (g.actor_root(a)) need(GO, a, END, b, "phase order"); }
	for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) need(PREPARE, a, PROPAGATE, b, "all nodes are prepared first");
	for (auto & p : before) for (int a : members[p.first]) for (int b : members[p.second]) { need(END, a, PROPAGATE, b, "dependency between phases"); need(PREPARE, a, PREPARE, b, "dependency between phases"); }
	for (auto & p : pipeOrder) for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (g.ns[a].pipe == p.first && g.ns[b].pipe == p.second) need(END, a, PROPAGATE, b, "order of pipelines");
	// memory sharing and evacuation
	std::vector<int> at(g.phases, -1); for (size_t i = 0; i < g.exec.size(); ++i) at[g.exec[i]] = (int)i;
	int sat = 0; for (auto & w : wanted) if (at[w.first] >= 0 && at[w.second] == at[w.first] + 1) ++sat;
	if (!threw && forced.empty()) PBT_CHECK(c, sat == ord.best, "%d pairs of phases that share memory run one after the other, %d could", sat, ord.best);
	for (auto & f : forced) if (at[f.second] >= 0) PBT_CHECK(c, at[f.second] == at[f.first] + 1, "memory that cannot be evacuated is shared between phases that do not follow each other");
	std::vector<bool> mustEvac(n, false), checkEvac(n, true);
	for (int i = 0; i < n; ++i) for (auto & d : g.ns[i].deps) if (d.share) { int f = at[g.ns[d.on].phase], t = at[g.ns[i].phase]; if (t < 0) { if (f + 1 >= (int)g.exec.size()) checkEvac[d.on] = false; else if (f >= 0 && t != f + 1) mustEvac[d.on] = true; } else if (t != f + 1) mustEvac[d.on] = true; }
	int evacs = 0;
	for (int i = 0; i < n; ++i) {
		bool did = g.pos[EVAC][i] >= 0; evacs += did;
		if (did) {
			PBT_CHECK(c, g.ns[i].evac, "evacuate of a node that cannot");
			for (int a : members[g.ns[i].phase]) need(END, a, EVAC, i, "evacuation after the phase");
			for (auto & e : g.log) if (e.e == PROPAGATE && at[g.ns[e.n].phase] == at[g.ns[i].phase] + 1) need(EVAC, i, PROPAGATE, e.n, "evacuation before the next phase");
		}
		if (checkEvac[i] && !(threw && did)) PBT_CHECK(c, did == mustEvac[i] || (threw && !did), "node %d was %sevacuated; its phase runs as number %d", i, did ? "" : "not ", at[g.ns[i].phase]);
	}
	if (evacs) c.label("evacuated");
	// structures
	if (!threw) {
		for (auto & d : g.dss) {
			int left = 1 << 30, right = -1; size_t mn = 0, mx = ~size_t(0);
			for (auto & m : g.ns) for (auto & x : m.ds) if (x.id == d.first) { left = std::min(left, at[m.phase]); right = std::max(right, at[m.phase]); mn = std::max(mn, x.mn); mx = std::min(mx, x.mx); }
			PBT_CHECK(c, d.second.known && d.second.amount >= mn && d.second.amount <= mx, "structure %d was given %zu bytes, limits %zu to %zu", d.first, d.second.amount, mn, mx);
			d.second.alive.push_back(!d.second.w.expired());
			for (int p = left + 1; p < (int)d.second.alive.size(); ++p) PBT_CHECK(c, d.second.alive[p] == (p <= right), "structure %d, used until phase %d, is %s when phase %d starts", d.first, right, d.second.alive[p] ? "still there" : "gone", p);
			if (right > left) c.label("structure used in several phases");
		}
		// data that comes out of the pipeline
		auto sc = g.succ();
		for (int k = 0; k < 3; ++k) {
			std::set<u64> can; for (int i = 0; i < n; ++i) if (sc[i].empty()) { u64 v = g.model_fetch(i, k); if (v) can.insert(v); }
			bool got = pipes[runPipe].can_fetch(keyname(k));
			PBT_CHECK(c, got == !can.empty(), "the pipeline's can_fetch(%s) is %d", keyname(k).c_str(), got);
			if (got) PBT_CHECK(c, can.count(pipes[runPipe].fetch<Val>(keyname(k)).v), "the pipeline's fetch(%s) is not what a last node can fetch", keyname(k).c_str());
			else { bool ok = false; try { pipes[runPipe].fetch_any(keyname(k)); } catch (const tpie::invalid_argument_exception &) { ok = true; } PBT_CHECK(c, ok, "fetching an absent key from the pipeline did not throw"); }
		}
	}
	// progress
	PBT_CHECK(c, !pi.over, "the progress indicator went back or beyond its range");
	if (fsi) {
		if (!threw) PBT_CHECK(c, pi.inits == 1 && pi.dones == 1, "progress: %d calls of init, %d of done", pi.inits, pi.dones);
		if (!threw) PBT_CHECK(c, pi.depth == 0, "progress: %d breadcrumbs left", pi.depth);
		PBT_CHECK(c, pi.dones <= 1 && pi.inits <= 1, "progress: %d calls of init, %d of done", pi.inits, pi.dones);
	}
	c.nontrivial((g.phases > 1 && n > 3) || (n > 2 && mode != RUN));
	if (g.pipes > 1) c.label("several pipelines"); if (!forced.empty()) c.label("forced neighbours"); if (!wanted.empty()) c.label("shared memory"); c.labelf("%d phases", g.phases);
	for (auto & m : g.ns) if (!m.ds.empty()) { c.label("structures"); break; }
	}
	PBT_CHECK(c, g_alive == alive0, "%d nodes or forwarded values were never destroyed", g_alive - alive0);
	size_t mem1 = tpie::get_memory_manager().used();
	PBT_CHECK(c, mem1 == mem0, "%zu bytes of accounted memory in use, %zu before", mem1, mem0);
}
void scen_run(Src & s, Ctx & c) { scen(s, c, RUN); }
void scen_fail(Src & s, Ctx & c) { scen(s, c, FAILING); }
void scen_bad(Src & s, Ctx & c) { scen(s, c, MALFORMED); }
// Graphs of many small phases with many wishes to share memory: every order has to respect all the relations, and as
// many wishes as possible have to come true where the runtime can afford to look for the best order.
static std::vector<int> * o_order;
struct ONode : public node { int id; ONode(int i) : id(i) { set_name("phase"); } ONode(ONode &&) = default; void go() override { o_order->push_back(id); } bool can_evacuate() override { return true; } void evacuate() override {} };
struct OP : public bits::pipeline_base {
	OP(std::vector<std::unique_ptr<ONode>> & v) { m_memory = 1; m_nodeMap = v[0]->get_node_map()->find_authority(); m_nodeMap->increment_pipeline_ref(); for (auto & n : v) m_nodeMap->add_owned_node(std::move(n)); }
	~OP() override { m_nodeMap->find_authority()->decrement_pipeline_ref(); }
};
void scen_orders(Src & s, Ctx & c) {
	init_tpie(4096, 256u << 20, false);
	int n = 4 + (int)s.weighted({2, 2, 2, 2, 2, 3, 3, 2, 2}); // 4 to 12 phases
	bool two = s.chance(1, 3); unsigned den = 1 + (unsigned)s.below(4); bool plain = s.flip();
	std::vector<int> layer(n); for (int i = 0; i < n; ++i) layer[i] = two ? (i >= n / 2) : i;
	std::vector<std::pair<int, int>> share, dep;
	for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (layer[i] != layer[j] && s.below(4) < den) { if (plain && s.chance(1, 4)) dep.push_back({i, j}); else share.push_back({i, j}); }
	// The exhaustive search takes 2^k steps for k wishes; leave out those that would take long.
	if (share.size() > 12 && share.size() <= 18) { if (s.flip() && share.size() < 16) share.resize(12); else while (share.size() > 12) { dep.push_back(share.back()); share.pop_back(); } }
	std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i; for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[s.below(i + 1)]);
	std::vector<int> order; o_order = &order;
	{
		std::vector<std::unique_ptr<ONode>> v(n); for (int i : perm) v[i].reset(new ONode(i));
		std::string t; for (auto & e : share) { v[e.second]->add_memory_share_dependency(*v[e.first]); t += " " + std::to_string(e.first) + "=>" + std::to_string(e.second); } for (auto & e : dep) { v[e.second]->add_dependency(*v[e.first]); t += " " + std::to_string(e.first) + "->" + std::to_string(e.second); }
		// what is not connected to the first phase is not part of the pipeline: connect it
		std::vector<int> uf(n); for (int i = 0; i < n; ++i) uf[i] = i; auto find = [&](int x) { while (uf[x] != x) x = uf[x]; return x; };
		for (auto & e : share) uf[find(e.first)] = find(e.second); for (auto & e : dep) uf[find(e.first)] = find(e.second);
		for (int i = 1; i < n; ++i) if (find(i) != find(0)) { dep.push_back({0, i}); v[i]->add_dependency(*v[0]); uf[find(i)] = find(0); t += " 0->" + std::to_string(i); }
		c.trace("%d phases, => sharing memory:%s", n, t.c_str());
		pipeline p{std::shared_ptr<bits::pipeline_base>(new OP(v))}; p();
	}
	PBT_CHECK(c, (int)order.size() == n, "%zu of %d phases were run", order.size(), n);
	std::vector<int> at(n, -1); std::string os; for (int i = 0; i < n; ++i) { PBT_CHECK(c, at[order[i]] < 0, "phase %d was run twice", order[i]); at[order[i]] = i; os += " " + std::to_string(order[i]); }
	c.trace("order%s", os.c_str());
	std::vector<unsigned> pre(n); std::set<std::pair<int, int>> wish(share.begin(), share.end());
	for (auto * l : {&share, &dep}) for (auto & e : *l) { pre[e.second] |= 1u << e.first; PBT_CHECK(c, at[e.first] < at[e.second], "phase %d was run before %d, which it depends on", e.second, e.first); }
	int sat = 0; for (auto & e : wish) sat += at[e.second] == at[e.first] + 1;
	if (share.size() <= 18 || n <= 10) {
		// best[set][last]
		std::vector<std::vector<int>> best(1u << n, std::vector<int>(n, -1)); int most = 0;
		for (int i = 0; i < n; ++i) if (!pre[i]) best[1u << i][i] = 0;
		for (unsigned m = 1; m < 1u << n; ++m) for (int l = 0; l < n; ++l) if (best[m][l] >= 0) for (int i = 0; i < n; ++i) if (!(m >> i & 1) && (pre[i] & ~m) == 0) { int & b = best[m | 1u << i][i]; b = std::max(b, best[m][l] + (int)wish.count({l, i})); }
		for (int x : best[(1u << n) - 1]) most = std::max(most, x);
		PBT_CHECK(c, sat == most, "%d pairs of phases that share memory run one after the other, %d could", sat, most);
	} else c.label("too many for the best order");
	if (share.size() > 18 && n <= 10) c.label("all orders tried");
	c.nontrivial(share.size() > 2 && sat > 0 && sat < (int)share.size());
}
// what is said of a pipe before it is built: names, priorities, memory, forwarded values
struct TagProbe { std::string name, phase; double fraction = -1; bool ran = false, begun = false; std::map<std::string, u64> seen; const std::vector<std::string> * keys = nullptr; u64 items = 0; int * clock = nullptr, beganAt = -1, endedAt = -1; };
template <typename dest_t> struct describedNode_t : public node {
	typedef u64 item_type; dest_t dest; TagProbe * p;
	describedNode_t(dest_t d, TagProbe * p) : dest(std::move(d)), p(p) { this->add_push_destination(this->dest); }
	void prepare() override { p->name = get_name(); p->phase = get_phase_name(); p->fraction = get_memory_fraction(); }
	void begin() override { p->begun = true; if (p->clock) p->beganAt = (*p->clock)++; for (auto & k : *p->keys) if (can_fetch(k)) p->seen[k] = fetch<u64>(k); }
	void push(const u64 & x) { ++p->items; dest.push(x); }
	void end() override { if (p->clock) p->endedAt = (*p->clock)++; }
};
typedef pipe_middle<factory<describedNode_t, TagProbe *>> described;
struct Crumbs : public tpie::progress_indicator_base {
	std::vector<std::string> all; int depth = 0; Crumbs() : progress_indicator_base(0) {}
	void refresh() override {} void push_breadcrumb(const char * s, tpie::description_importance) override { ++depth; all.push_back(s); } void pop_breadcrumb() override { --depth; }
};
void scen_described(Src & s, Ctx & c) {
	init_tpie(4096, 256u << 20, false); Resources res(c.dir); bool extra = false;
	{
		struct Want { std::string name, phase, bread, expect; int namePrio = 0, phasePrio = 0; double fraction = -1; std::vector<std::pair<std::string, u64>> fwd; };
		Want w[5]; TagProbe pr[5]; std::vector<std::string> keys; std::vector<int> prios; for (int i = 0; i < 10; ++i) prios.push_back(21 + i);
		for (int i = 9; i > 0; --i) std::swap(prios[i], prios[s.below(i + 1)]);
		auto mk = [&](int i) {
			auto d = std::make_unique<described>(&pr[i]); auto set = [&](described && z) { d = std::make_unique<described>(std::move(z)); }; Want & x = w[i]; pr[i].keys = &keys; std::string n = std::to_string(i);
			if (s.flip()) { x.name = "node " + n; x.namePrio = prios[i]; if (s.chance(1, 4)) { x.namePrio = PRIORITY_USER; { set(std::move(*d).name(x.name)); } } else { set(std::move(*d).name(x.name, x.namePrio)); } }
			if (s.chance(1, 3)) { x.phase = "phase " + n; x.phasePrio = prios[5 + i]; { set(std::move(*d).phase_name(x.phase, x.phasePrio)); } }
			for (unsigned k = s.below(3); k; --k) { std::string b = "part " + std::to_string(s.below(9)); x.bread = x.bread.empty() ? b : b + " | " + x.bread; { set(std::move(*d).breadcrumb(b)); } }
			if (s.chance(1, 3)) { x.fraction = (double)s.pick({0.0, 0.5, 1.0, 3.0}); { set(std::move(*d).memory(x.fraction)); } PBT_CHECK(c, d->memory() == x.fraction, "memory() of a pipe is %g, set to %g", d->memory(), x.fraction); }
			for (unsigned k = s.below(3); k; --k) { std::string key = "key " + std::to_string(keys.size()); keys.push_back(key); u64 v = s.below(1000); x.fwd.push_back({key, v}); { set(std::move(*d).forward(key, v)); } }
			return std::move(*d);
		};
		std::string group; u64 items = s.pick({u64(100), u64(0), u64(3000)}); auto first = mk(0), second = mk(1), third = mk(2), fourth = mk(3), fifth = mk(4);
		std::vector<u64> in(items), out; Rng g = s.bulk(); for (auto & x : in) x = g.below(1000);
		unsigned shape = (unsigned)s.below(4); pipeline p; int phaseOf[5] = {0, 0, 0, 0, 0}, phases = 1;
		bool grouped = s.flip();
		if (grouped) group = "group";
		auto pairUp = [&](auto && a, auto && b) { auto x = std::move(a) | std::move(b); if (grouped) return std::move(x).name(group); return x; };
		auto in01 = pairUp(std::move(first), std::move(second));
		switch (shape) {
		default: p = input_vector(in) | std::move(in01) | std::move(third) | std::move(fourth) | std::move(fifth) | output_vector(out); break;
		case 1: p = input_vector(in) | std::move(in01) | buffer() | std::move(third) | std::move(fourth) | std::move(fifth) | output_vector(out); phases = 2; phaseOf[2] = phaseOf[3] = phaseOf[4] = 1; break;
		case 2: p = input_vector(in) | std::move(in01) | sort() | std::move(third) | buffer() | std::move(fourth) | std::move(fifth) | output_vector(out); phases = 4; phaseOf[2] = 2; phaseOf[3] = phaseOf[4] = 3; break;
		case 3: p = input_vector(in) | std::move(in01) | std::move(third) | reverser() | std::move(fourth) | std::move(fifth) | output_vector(out); phases = 2; phaseOf[3] = phaseOf[4] = 1; break;
		}
		int atPrio[4] = {-1, -1, -1, -1}, phPrio[4] = {-1, -1, -1, -1}; std::string atName[4], phName[4];
		for (int i = 0; i < 5; ++i) {
			std::string b = w[i].bread; if (grouped && i < 2) b = b.empty() ? group : group + " | " + b;
			std::string own = w[i].name.empty() ? b.empty() ? "Described node" : "" : w[i].name; w[i].expect = b.empty() ? own : own.empty() ? b : b + " | " + own; c.trace("pipe %d is called '%s'", i, w[i].expect.c_str());
			int ph = phaseOf[i]; if (w[i].namePrio > atPrio[ph]) { atPrio[ph] = w[i].namePrio; atName[ph] = w[i].expect; } if (!w[i].phase.empty() && w[i].phasePrio > phPrio[ph]) { phPrio[ph] = w[i].phasePrio; phName[ph] = w[i].phase; }
			if (w[i].name.size() || w[i].bread.size()) extra = true;
		}
		auto plots = [&](const char * when) {
			for (int full = 0; full < 2; ++full) {
				std::ostringstream os; if (full) p.plot_full(os); else p.plot(os); std::istringstream is(os.str()); std::string l; std::set<std::string> nodes; size_t edges = 0, pushes = 0; std::vector<std::pair<std::string, std::string>> es;
				std::getline(is, l); PBT_CHECK(c, l == "digraph {", "the plot starts with '%s'", l.c_str()); bool end = false;
				while (std::getline(is, l)) { if (l == "}") { end = true; break; } size_t ar = l.find("\" -> \""), q = l.find('"', 1); PBT_CHECK(c, l[0] == '"' && q != std::string::npos, "line '%s' in the plot", l.c_str()); if (ar == std::string::npos) { PBT_CHECK(c, nodes.insert(l.substr(1, q - 1)).second || !full, "%s is plotted twice", l.c_str()); } else { ++edges; size_t q2 = l.find('"', ar + 6); es.push_back({l.substr(1, ar - 1), l.substr(ar + 6, q2 - ar - 6)}); if (l.find('[') == std::string::npos) ++pushes; } }
				PBT_CHECK(c, end, "the plot does not end"); (void)pushes;
				for (auto & e : es) { PBT_CHECK(c, nodes.count(e.first) && nodes.count(e.second), "the plot has an edge between '%s' and '%s', which are not both nodes", e.first.c_str(), e.second.c_str()); PBT_CHECK(c, e.first != e.second || !full, "the plot has an edge from '%s' to itself", e.first.c_str()); }
				size_t lib = shape == 0 ? 2 : shape == 1 ? 4 : shape == 2 ? 7 : 4; (void)edges;
				if (full) { PBT_CHECK(c, nodes.size() == 5 + lib, "the plot has %zu nodes, expected %zu", nodes.size(), 5 + lib); PBT_CHECK(c, edges >= nodes.size() - 1, "the plot has %zu edges for %zu nodes", edges, nodes.size()); }
				else PBT_CHECK(c, nodes.size() <= 5 + lib && nodes.size() >= 7, "the simple plot has %zu nodes", nodes.size());
				for (int i = 0; i < 5; ++i) { bool f = false; for (auto & n : nodes) if (n.compare(0, w[i].expect.size() + 2, w[i].expect + " (") == 0) f = true; PBT_CHECK(c, f, "%s, '%s' is not in the plot", when, w[i].expect.c_str()); }
				if (full) { std::ostringstream om; p.output_memory(om); std::istringstream im(om.str()); size_t lines = 0; while (std::getline(im, l)) ++lines; PBT_CHECK(c, lines == nodes.size(), "the memory of %zu nodes was output, there are %zu", lines, nodes.size()); }
			}
		};
		if (s.flip()) plots("before the run");
		Crumbs pi; if (s.chance(4, 5)) { p(items, pi, 64u << 20, TPIE_FSI); PBT_CHECK(c, pi.depth == 0, "%d breadcrumbs left", pi.depth); 
			std::vector<std::string> got = pi.all; // of each phase
			size_t at = 0; for (int ph = 0; ph < phases; ++ph) { std::string want = phName[ph].size() ? phName[ph] : atPrio[ph] > PRIORITY_SIGNIFICANT ? atName[ph] : ""; if (want.empty()) continue; while (at < got.size() && got[at] != want) ++at; std::string all; for (auto & x : got) all += " '" + x + "'"; PBT_CHECK(c, at < got.size(), "phase %d should be announced as '%s', the phases announced:%s", ph, want.c_str(), all.c_str()); ++at; }
		} else p();
		if (shape == 2) std::sort(in.begin(), in.end()); if (shape == 3) std::reverse(in.begin(), in.end());
		PBT_CHECK(c, out == in, "wrong output");
		for (int i = 0; i < 5; ++i) {
			PBT_CHECK(c, pr[i].begun && pr[i].items == items, "pipe %d was pushed %llu items of %llu", i, (unsigned long long)pr[i].items, (unsigned long long)items);
			PBT_CHECK(c, pr[i].name == w[i].expect, "pipe %d is called '%s', expected '%s'", i, pr[i].name.c_str(), w[i].expect.c_str());
			PBT_CHECK(c, pr[i].phase == w[i].phase, "the phase name given by pipe %d is '%s', expected '%s'", i, pr[i].phase.c_str(), w[i].phase.c_str());
			if (w[i].fraction >= 0) PBT_CHECK(c, pr[i].fraction == w[i].fraction, "pipe %d has memory fraction %g, given %g", i, pr[i].fraction, w[i].fraction);
			for (int j = 0; j < 5; ++j) for (auto & f : w[j].fwd) { auto it = pr[i].seen.find(f.first); if (j < i) { PBT_CHECK(c, it != pr[i].seen.end(), "'%s' forwarded by pipe %d did not reach pipe %d", f.first.c_str(), j, i); PBT_CHECK(c, it->second == f.second, "'%s' is %llu, forwarded %llu", f.first.c_str(), (unsigned long long)it->second, (unsigned long long)f.second); } else if (j > i) PBT_CHECK(c, it == pr[i].seen.end(), "'%s' forwarded by pipe %d reached pipe %d", f.first.c_str(), j, i); }
		}
		if (s.flip()) plots("after the run");
		if (!keys.empty()) c.label("forwarded by a pipe"); if (grouped) c.label("named group");
	}
	res.expect_same(c, "after the pipeline is gone");
	c.nontrivial(extra);
}
// Pipelines whose nodes are put into sets, and whose nodes depend on all that is in a set, with forwarding or without,
// in whatever order the two are said.
void scen_sets(Src & s, Ctx & c) {
	init_tpie(4096, 256u << 20, false); Resources res(c.dir); bool plainDep = false; size_t deps = 0, groups = 0;
	{
		const int n = 2 + (int)s.below(5), ns = 1 + (int)s.below(4);
		std::vector<int> rank(n), bound(ns); for (int i = 0; i < n; ++i) rank[i] = i; for (int i = n - 1; i > 0; --i) std::swap(rank[i], rank[s.below(i + 1)]);
		for (auto & b : bound) b = 1 + (int)s.below(n - 1);
		std::vector<node_set> sets; for (int k = 0; k < ns; ++k) sets.push_back(make_node_set());
		struct Mem { int node, set; bool fwd; }; std::vector<Mem> in, on; std::vector<TagProbe> pr(2 * n); std::vector<std::string> keys; std::vector<std::pair<int, u64>> from;
		for (int i = 0; i < 2 * n; ++i) { std::string key = "key " + std::to_string(i); keys.push_back(key); }
		std::vector<std::vector<u64>> data(n), out(n); std::vector<pipeline> pipes; int clock = 0;
		for (int i = 0; i < n; ++i) {
			auto mk = [&](int id) {
				pr[id].keys = &keys; pr[id].clock = &clock; auto d = std::make_unique<described>(&pr[id]); auto set = [&](described && z) { d = std::make_unique<described>(std::move(z)); };
				if (s.flip()) { u64 v = s.below(1000); from.push_back({id, v}); set(std::move(*d).forward(keys[id], v)); }
				for (int k = 0; k < ns; ++k) {
					if (rank[i] < bound[k] ? !s.chance(1, 2) : !s.chance(1, 2)) continue;
					if (rank[i] < bound[k]) { in.push_back({id, k, false}); set(std::move(*d).add_to_set(sets[k])); c.trace("node %d is in set %d", id, k); }
					else { bool f = s.flip(); on.push_back({id, k, f}); if (f) set(std::move(*d).add_forwarding_dependencies(sets[k])); else set(std::move(*d).add_dependencies(sets[k])); c.trace("node %d depends on set %d%s", id, k, f ? " with forwarding" : ""); }
				}
				if (s.chance(1, 8)) { set(std::move(*d).add_to_set(node_set())); set(std::move(*d).add_dependencies(node_set())); }
				return std::move(*d);
			};
			data[i].resize(s.below(20)); for (size_t j = 0; j < data[i].size(); ++j) data[i][j] = j * 7 + i;
			auto a = mk(2 * i), b = mk(2 * i + 1);
			pipes.push_back(pipeline(input_vector(data[i]) | std::move(a) | std::move(b) | output_vector(out[i])));
		}
		sets.clear();
		std::vector<std::vector<int>> next(2 * n); std::vector<std::pair<int, int>> before; std::vector<int> uf(n); for (int i = 0; i < n; ++i) { uf[i] = i; next[2 * i].push_back(2 * i + 1); }
		auto find = [&](int x) { while (uf[x] != x) x = uf[x]; return x; };
		for (auto & d : on) for (auto & m : in) if (m.set == d.set) { ++deps; before.push_back({m.node, d.node}); if (d.fwd) next[m.node].push_back(d.node); else plainDep = true; }
		// a set connects its nodes also when the other side of it is empty
		std::vector<int> of(ns, -1); for (auto * l : {&in, &on}) for (auto & m : *l) { if (of[m.set] < 0) of[m.set] = m.node / 2; else uf[find(of[m.set])] = find(m.node / 2); }
		// the order of phases is the same for each pipeline of a connected group; run one of each
		std::vector<bool> done(n); for (int t = 0; t < n; ++t) { int i = (int)s.below(n); if (!done[find(i)]) { done[find(i)] = true; ++groups; pipes[i](); } }
		for (int i = 0; i < n; ++i) if (!done[find(i)]) { done[find(i)] = true; ++groups; pipes[i](); }
		for (int i = 0; i < n; ++i) PBT_CHECK(c, out[i] == data[i], "pipeline %d put out %zu items of %zu", i, out[i].size(), data[i].size());
		for (int i = 0; i < 2 * n; ++i) PBT_CHECK(c, pr[i].beganAt >= 0 && pr[i].endedAt > pr[i].beganAt && pr[i].items == data[i / 2].size(), "node %d was not run from begin to end", i);
		for (auto & b : before) PBT_CHECK(c, pr[b.first].endedAt < pr[b.second].beganAt, "node %d began before node %d, which is in a set it depends on, had ended", b.second, b.first);
		for (auto & f : from) {
			std::vector<bool> seen(2 * n); std::vector<int> q{f.first}; seen[f.first] = true; while (!q.empty()) { int x = q.back(); q.pop_back(); for (int y : next[x]) if (!seen[y]) { seen[y] = true; q.push_back(y); } }
			for (int i = 0; i < 2 * n; ++i) if (i != f.first) { auto it = pr[i].seen.find(keys[f.first]); PBT_CHECK(c, (it != pr[i].seen.end()) == seen[i], "'%s' of node %d %s node %d", keys[f.first].c_str(), f.first, seen[i] ? "did not reach" : "reached", i); if (seen[i]) PBT_CHECK(c, it->second == f.second, "node %d fetched %llu, forwarded %llu", i, (unsigned long long)it->second, (unsigned long long)f.second); }
		}
		if (plainDep) c.label("without forwarding"); if (groups > 1) c.label("not connected");
	}
	res.expect_same(c, "after the pipelines are gone");
	c.nontrivial(deps > 1);
}
}

int main(int argc, char ** argv) {
	pbt::Suite su;
	su.property = "C15";
	su.rule = "a graph with more than one phase and more than three nodes; three nodes when one fails; a graph that was refused; some but not all wishes to share memory come true";
	su.scenarios = {
		{"run", scen_run, 30000, 600000, 200, 60},
		{"fail", scen_fail, 15000, 300000, 200, 60},
		{"malformed", scen_bad, 6000, 100000, 200, 60},
		{"described", scen_described, 2000, 60000, 200, 60},
		{"sets", scen_sets, 3000, 60000, 200, 60},
		{"orders", scen_orders, 3000, 50000, 100, 60},
	};
	return pbt::main_loop(argc, argv, su);
}
