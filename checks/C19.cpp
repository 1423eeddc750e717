// C19: resource managers, accounted allocation, temporary names and files, file accessors, counters.
#include "common.h"
#include <tpie/resource_manager.h>
#include <tpie/array.h>
#include <tpie/file_stream.h>
#include <tpie/file_accessor/file_accessor.h>
#include <tpie/spin_lock.h>
#include <thread>
#include <atomic>
#include <map>
#include <set>
#include <regex>
#include <sys/resource.h>

namespace {
using namespace tv;
typedef uint64_t u64; typedef unsigned __int128 u128;
using tpie::resource_manager;

struct Rec : public tpie::log_target {
	std::map<int, std::string> text;
	void log(tpie::log_level l, const char * m, size_t n) override { text[l].append(m, n); }
};
struct LogOn {
	Rec rec;
	LogOn() { tpie::add_log_target(&rec); tpie::log_bits::logging_disabled = false; }
	~LogOn() { tpie::log_bits::logging_disabled = true; tpie::remove_log_target(&rec); }
};
struct Names { // restores the settings of temporary names
	~Names() { unsetenv(AMI_SINGLE_DEVICE_ENV); tpie::tempname::set_default_base_name("TPIE"); tpie::tempname::set_default_extension(""); tpie::tempname::set_default_path(""); tpie::finish_tempfile(); }
};

// ---------------------------------------------------------------- limits
void scen_limits(Src & s, Ctx & c) {
	init_tpie(4096, 64u << 20, false);
	LogOn log;
	std::unique_ptr<resource_manager> own; resource_manager * m; bool files = s.flip(); const bool global = s.chance(1, 4);
	resource_manager & g = files ? static_cast<resource_manager &>(tpie::get_file_manager()) : tpie::get_memory_manager();
	const size_t gUsed = g.used(), gLimit = g.limit(); const auto gEnf = g.enforcement();
	if (global) m = &g;
	else { if (files) own.reset(new tpie::file_manager); else own.reset(new tpie::memory_manager); m = own.get(); }
	struct Back { resource_manager & g; size_t l; resource_manager::enforce_t e; ~Back() { g.set_limit(l); g.set_enforcement(e); } } back{g, gLimit, gEnf};
	u64 base = m->used(), used = base, limit = m->limit(), most = 0; auto enf = m->enforcement(); bool excess = false; std::vector<u64> held; size_t refused = 0, granted = 0, complaints = 0; (void)gUsed;
	auto look = [&]() {
		PBT_CHECK(c, m->used() == used, "used %llu, expected %llu", (unsigned long long)m->used(), (unsigned long long)used);
		PBT_CHECK(c, m->limit() == limit, "limit %llu, expected %llu", (unsigned long long)m->limit(), (unsigned long long)limit);
		u64 a = limit > used ? limit - used : 0;
		PBT_CHECK(c, m->available() == a, "available %llu, expected %llu (used %llu, limit %llu)", (unsigned long long)m->available(), (unsigned long long)a, (unsigned long long)used, (unsigned long long)limit);
		PBT_CHECK(c, m->enforcement() == enf, "enforcement %d, expected %d", (int)m->enforcement(), (int)enf);
	};
	look();
	static const std::vector<resource_manager::enforce_t> E = {resource_manager::ENFORCE_THROW, resource_manager::ENFORCE_IGNORE, resource_manager::ENFORCE_WARN, resource_manager::ENFORCE_DEBUG};
	while (s.more(20)) {
		log.rec.text.clear();
		switch (s.weighted({6, 4, 2, 2})) {
		case 0: {
			u64 room = limit > used ? limit - used : 0, a;
			switch (s.below(6)) {
			case 0: a = s.below(10); break;
			case 1: a = room; break;
			case 2: a = room + s.range(1, 3); break;
			case 3: a = s.below(room + 1) & 0xffffffffffull; break;
			case 4: a = s.below(u64(1) << s.range(1, 40)); break;
			default: a = ~u64(0) - s.below(s.flip() ? 20 : u64(1) << 63); break;
			}
			const bool strict = enf == resource_manager::ENFORCE_THROW && limit > 0;
			if (!strict) a &= (u64(1) << 50) - 1; // the sum of what is really held stays far from the top
			if (strict && !a && used > limit) a = 1; // asking for nothing: either answer will do
			const bool fits = (u128)used + a <= limit; int got = 0;
			c.trace("increase by %llu (used %llu, limit %llu, enforcement %d)", (unsigned long long)a, (unsigned long long)used, (unsigned long long)limit, (int)enf);
			try { m->register_increased_usage(a); }
			catch (tpie::out_of_files_error &) { got = 1; } catch (tpie::out_of_memory_error &) { got = 2; } catch (tpie::out_of_resource_error &) { got = 3; }
			if (strict && !fits) { PBT_CHECK(c, got == (files ? 1 : 2), "%llu more granted or the wrong exception (%d) with %llu of %llu in use", (unsigned long long)a, got, (unsigned long long)used, (unsigned long long)limit); ++refused; }
			else { PBT_CHECK(c, got == 0, "%llu more refused (%d) with %llu of %llu in use", (unsigned long long)a, got, (unsigned long long)used, (unsigned long long)limit); used += a; if (a) held.push_back(a); ++granted; }
			tpie::log_warning().flush(); tpie::log_debug().flush();
			size_t w = log.rec.text[tpie::LOG_WARNING].size(), d = log.rec.text[tpie::LOG_DEBUG].size();
			if (enf == resource_manager::ENFORCE_IGNORE || strict || limit == 0 || fits) PBT_CHECK(c, !w && !d, "complaint without reason");
			else {
				const bool warn = enf == resource_manager::ENFORCE_WARN;
				PBT_CHECK(c, warn ? !d : !w, "complaint in the wrong log");
				if (!excess && !global) PBT_CHECK(c, warn ? w : d, "no complaint when the limit was first exceeded");
				if (u64 x = used - limit; (u128)x > 2 * (u128)most && !global) PBT_CHECK(c, warn ? w : d, "no complaint at an excess of %llu, the highest before was %llu", (unsigned long long)x, (unsigned long long)most);
				excess = true; most = std::max(most, used - limit); complaints += w || d;
			}
			break; }
		case 1: {
			if (held.empty()) break;
			size_t i = s.below(held.size()); u64 a = held[i];
			if (a > 1 && s.flip()) a = 1 + s.below(a);
			c.trace("decrease by %llu", (unsigned long long)a);
			m->register_decreased_usage(a); used -= a; held[i] -= a; if (!held[i]) held.erase(held.begin() + i);
			break; }
		case 2: {
			switch (s.below(5)) { case 0: limit = s.below(100); break; case 1: limit = 0; break; case 2: limit = used; break; case 3: limit = used / 2; break; default: limit = s.u64(); }
			c.trace("set limit %llu", (unsigned long long)limit);
			m->set_limit(limit); break; }
		default: enf = s.pick(E); c.trace("set enforcement %d", (int)enf); m->set_enforcement(enf);
		}
		look();
	}
	for (u64 a : held) { m->register_decreased_usage(a); used -= a; }
	PBT_CHECK(c, used == base && m->used() == base, "used %llu in the end", (unsigned long long)m->used());
	c.nontrivial(granted >= 3); if (refused) c.label("refused"); if (complaints) c.label("complained"); c.labelf("%s%s", files ? "files" : "memory", global ? ", global" : "");
}

// ---------------------------------------------------------------- memory
int g_live = 0; int g_boom = -1;
struct Boom {};
struct Base { u64 x; Base() { if (g_boom == 0) { g_boom = -1; throw Boom(); } if (g_boom > 0) --g_boom; ++g_live; } virtual ~Base() { --g_live; } };
struct Derived : Base { char more[100]; Derived() { ++g_live; } ~Derived() { --g_live; } };
struct Other { virtual ~Other() {} int y; };
struct Multi : Other, Base { char m[30]; };
struct Plain { char b[24]; Plain() { if (g_boom == 0) { g_boom = -1; throw Boom(); } if (g_boom > 0) --g_boom; ++g_live; } ~Plain() { --g_live; } };

void scen_memory(Src & s, Ctx & c) {
	init_tpie(4096, 64u << 20, false);
	auto & mm = tpie::get_memory_manager(); const size_t used0 = mm.used(), lim0 = mm.limit(); const auto enf0 = mm.enforcement();
	struct Back { size_t l; resource_manager::enforce_t e; ~Back() { auto & mm = tpie::get_memory_manager(); mm.set_limit(l); mm.set_enforcement(e); } } back{lim0, enf0};
	g_live = 0; g_boom = -1;
	tpie::memory_bucket bucket; size_t inBucket = 0, used = used0, limit = 0; bool strict = false;
	struct H { std::function<void()> free; size_t bytes, bucketBytes; int live; };
	std::vector<H> hs; int live = 0; size_t failed = 0, thrown = 0, made = 0, wild = 0;
	auto look = [&](const char * w) {
		PBT_CHECK(c, mm.used() == used, "%s: %zu bytes accounted, expected %zu", w, mm.used() - used0, used - used0);
		PBT_CHECK(c, bucket.count == inBucket, "%s: %zu bytes in the bucket, expected %zu", w, (size_t)bucket.count, inBucket);
		PBT_CHECK(c, g_live == live, "%s: %d objects alive, expected %d", w, g_live, live);
	};
	while (s.more(16)) {
		switch (s.weighted({6, 4, 2})) {
		case 0: {
			size_t kind = s.below(11), n = 0, bytes = 0, bb = 0; int nl = 0; std::function<void()> fr; bool boom = false; const char * what = ""; bool absurd = false;
			size_t count = s.size(300, 16);
			if (s.chance(1, 12)) { absurd = true; count = s.pick({~size_t(0) / 8, ~size_t(0) / 16 + 1, ~size_t(0) / 8 + 2, ~size_t(0), (size_t(1) << 61), (size_t(1) << 61) + 1, size_t(1) << 60}) - s.below(3); if (count < (size_t(1) << 60)) count = size_t(1) << 60; }
			if (absurd) kind = s.pick({size_t(7), size_t(9)});
			if (!absurd && s.chance(1, 5)) { boom = true; g_boom = (int)s.below(kind == 4 || kind == 5 || kind == 10 ? count + 2 : 2); }
			auto go = [&](std::function<void()> f) {
				int r = 0; const int armed = g_boom;
				try { f(); } catch (Boom &) { r = 1; } catch (tpie::out_of_memory_error &) { r = 2; } catch (std::bad_alloc &) { r = 3; }
				const bool fired = boom && armed >= 0 && g_boom == -1; g_boom = -1;
				c.trace("%s of %zu (%zu bytes): %s", what, n, bytes, r == 0 ? "done" : r == 1 ? "constructor threw" : r == 2 ? "refused" : "bad_alloc");
				if (absurd) { PBT_CHECK(c, r == 2 || r == 3, "%s of %zu items succeeded", what, n); ++wild; }
				else if (strict && limit && !bytes && used > limit && r == 2) ++failed; // nothing asked for: either answer will do
				else if (strict && limit && bytes && (u128)used + bytes > limit) { PBT_CHECK(c, r == 2, "%s of %zu bytes was not refused with %zu of %zu in use", what, bytes, used, limit); ++failed; }
				else if (r == 1) { PBT_CHECK(c, fired, "unexpected"); ++thrown; }
				else PBT_CHECK(c, r == 0, "%s of %zu bytes failed (%d) with %zu of %zu in use", what, bytes, r, used, limit);
				if (r == 0) { used += bytes; inBucket += bb; live += nl; hs.push_back({fr, bytes, bb, nl}); ++made; }
				look(what);
			};
			switch (kind) {
			case 0: { what = "tpie_new<u64>"; n = 1; bytes = 8; go([&]() { u64 * q = tpie::tpie_new<u64>(5); fr = [q]() { tpie::tpie_delete(q); }; }); break; }
			case 1: { what = "tpie_new<Plain>"; n = 1; bytes = sizeof(Plain); nl = 1; go([&]() { auto q = tpie::tpie_new<Plain>(); fr = [q]() { tpie::tpie_delete(q); }; }); break; }
			case 2: { what = "tpie_new<Derived>, deleted as Base"; n = 1; bytes = sizeof(Derived); nl = 2; go([&]() { Base * q = tpie::tpie_new<Derived>(); fr = [q]() { tpie::tpie_delete(q); }; }); break; }
			case 3: { what = "make_unique<Multi>, deleted as Base"; n = 1; bytes = sizeof(Multi); nl = 1; go([&]() { auto q = tpie::make_unique<Multi>(); Base * b = q.release(); auto w = std::make_shared<tpie::unique_ptr<Base>>(b); fr = [w]() { w->reset(); }; }); break; }
			case 4: { what = "tpie_new_array<Plain>"; n = count; bytes = n * sizeof(Plain); nl = (int)n; go([&]() { auto q = tpie::tpie_new_array<Plain>(n); size_t k = n; fr = [q, k]() { tpie::tpie_delete_array(q, k); }; }); break; }
			case 5: { what = "array<Plain>"; n = count; bytes = n * sizeof(Plain); nl = (int)n; go([&]() { auto a = std::make_shared<tpie::array<Plain>>(n); fr = [a]() mutable { a.reset(); }; }); break; }
			case 6: { what = "tpie_new<Derived>"; n = 1; bytes = sizeof(Derived); nl = 2; go([&]() { Derived * q = tpie::tpie_new<Derived>(); fr = [q]() { tpie::tpie_delete(q); }; }); break; }
			case 7: { what = "allocator<u64>"; n = count; bytes = n * 8; bb = bytes; tpie::allocator<u64> a{tpie::memory_bucket_ref(&bucket)}; go([&]() { auto q = a.allocate(n); size_t k = n; fr = [a, q, k]() mutable { a.deallocate(q, k); }; }); break; }
			case 8: { what = "vector<u64, allocator>"; n = count; bytes = n * 8; bb = bytes; auto v = std::make_shared<std::vector<u64, tpie::allocator<u64>>>(tpie::allocator<u64>(tpie::memory_bucket_ref(&bucket)));
				go([&]() { try { v->reserve(n); } catch (std::length_error &) { throw std::bad_alloc(); } fr = [v]() mutable { v->clear(); v->shrink_to_fit(); v.reset(); }; }); break; }
			case 9: { what = "array<u64>"; n = count; bytes = n * 8; bb = bytes; auto a = std::make_shared<tpie::array<u64>>(tpie::memory_bucket_ref(&bucket)); go([&]() { try { a->resize(n); } catch (...) { PBT_CHECK(c, a->size() == 0, "array that could not be allocated has %zu items", a->size()); throw; } fr = [a]() mutable { a->resize(0); a.reset(); }; }); break; }
			default: { what = "tpie_new_array<u64>"; n = count; bytes = n * 8; go([&]() { auto q = tpie::tpie_new_array<u64>(n); size_t k = n; fr = [q, k]() { tpie::tpie_delete_array(q, k); }; }); break; }
			}
			break; }
		case 1: if (!hs.empty()) { size_t i = s.below(hs.size()); H h = hs[i]; hs.erase(hs.begin() + i); c.trace("free %zu bytes", h.bytes); h.free(); h.free = nullptr; used -= h.bytes; inBucket -= h.bucketBytes; live -= h.live; look("freed"); } break;
		default:
			strict = s.flip(); limit = s.pick({used + s.below(100), used + s.below(10000), size_t(0), used / 2, size_t(1) << 40}); c.trace("limit %zu%s", limit, strict ? ", enforced" : "");
			mm.set_limit(limit); mm.set_enforcement(strict ? resource_manager::ENFORCE_THROW : resource_manager::ENFORCE_IGNORE);
		}
	}
	while (!hs.empty()) { H h = hs.back(); hs.pop_back(); h.free(); h.free = nullptr; used -= h.bytes; inBucket -= h.bucketBytes; live -= h.live; look("freed"); }
	PBT_CHECK(c, used == used0, "model");
	c.nontrivial(made >= 3); if (failed) c.label("refused"); if (thrown) c.label("constructor threw"); if (wild) c.label("absurd size");
}

// what is known about the types of allocations
template <int I> struct tag {};
const std::type_info & type_of(size_t i) {
	static const std::type_info * t[] = {&typeid(tag<0>), &typeid(tag<1>), &typeid(tag<2>), &typeid(tag<3>), &typeid(tag<4>), &typeid(tag<5>), &typeid(tag<6>), &typeid(tag<7>), &typeid(tag<8>), &typeid(tag<9>), &typeid(tag<10>), &typeid(tag<11>)};
	return *t[i];
}

// ---------------------------------------------------------------- threads
void scen_threads(Src & s, Ctx & c) {
	init_tpie(4096, 64u << 20, false);
	const size_t T = s.range(2, 6), mode = s.below(5);
	std::atomic<bool> go(false); std::vector<std::string> errs(T); std::vector<std::thread> ts;
	auto start = [&](std::function<void(size_t)> f) { for (size_t t = 0; t < T; ++t) ts.emplace_back([&, t, f]() { while (!go.load()) {} f(t); }); go = true; for (auto & t : ts) t.join(); for (auto & e : errs) PBT_CHECK(c, e.empty(), "%s", e.c_str()); };
	const u64 seed = s.raw(0); const size_t ops = s.range(10, 400);
	if (mode == 0) { // whatever is granted fits, whatever fits is granted
		std::unique_ptr<resource_manager> m; if (s.flip()) m.reset(new tpie::memory_manager); else m.reset(new tpie::file_manager);
		const u64 limit = s.pick({u64(10), u64(100), u64(1) << 40}); m->set_limit(limit); m->set_enforcement(resource_manager::ENFORCE_THROW);
		std::atomic<u64> held(0); const size_t hogs = s.below(T); // these ask for more than can ever be granted; the others together never exceed the limit
		const u64 share = hogs ? limit / T : 0; std::atomic<u64> granted(0), refused(0);
		c.trace("%zu threads, %zu of them asking for too much, limit %llu", T, hogs, (unsigned long long)limit);
		start([&](size_t t) {
			Rng r(seed + t); std::vector<u64> mine; u64 sum = 0; char b[200];
			for (size_t i = 0; i < ops && errs[t].empty(); ++i) {
				if (t < hogs) {
					u64 a = r.below(3) ? limit + 1 + r.below(limit) : ~u64(0) - r.below(5); bool ok = true;
					try { m->register_increased_usage(a); } catch (tpie::out_of_resource_error &) { ok = false; }
					if (ok) { snprintf(b, 200, "%llu granted with limit %llu", (unsigned long long)a, (unsigned long long)limit); errs[t] = b; }
					++refused;
				} else if (mine.empty() || r.below(3)) {
					u64 a = share ? (share > sum ? 1 + r.below(share - sum) : 0) : 1 + r.below(limit); bool ok = true; if (!a) { continue; }
					try { m->register_increased_usage(a); } catch (tpie::out_of_resource_error &) { ok = false; }
					if (ok) { u64 h = held.fetch_add(a) + a; mine.push_back(a); sum += a; ++granted; if (h > limit) { snprintf(b, 200, "%llu granted in total, limit %llu", (unsigned long long)h, (unsigned long long)limit); errs[t] = b; } }
					else { ++refused; if (share) { snprintf(b, 200, "%llu refused although all that fits can not exceed %llu of %llu", (unsigned long long)a, (unsigned long long)(share * (T - hogs)), (unsigned long long)limit); errs[t] = b; } }
				} else { u64 a = mine.back(); mine.pop_back(); sum -= a; held -= a; m->register_decreased_usage(a); }
				u64 u = m->used(); if (u > limit) { snprintf(b, 200, "%llu in use with limit %llu", (unsigned long long)u, (unsigned long long)limit); errs[t] = b; }
			}
			for (u64 a : mine) { held -= a; m->register_decreased_usage(a); }
		});
		PBT_CHECK(c, m->used() == 0, "%llu in use after everything was given back", (unsigned long long)m->used());
		if (refused) c.label("refused"); if (hogs) c.label("impossible requests"); c.nontrivial(granted > 5);
	} else if (mode == 1) { // allocations by type
		tpie::memory_manager m; const size_t K = s.range(1, 12); std::vector<std::vector<std::pair<u64, u64>>> sum(T, std::vector<std::pair<u64, u64>>(K));
		c.trace("%zu threads, %zu types", T, K);
		start([&](size_t t) {
			Rng r(seed + t); std::vector<std::pair<size_t, u64>> mine;
			for (size_t i = 0; i < ops; ++i) {
				if (mine.empty() || r.below(3)) { size_t k = r.below(K); u64 b = 600000 + r.below(100000); m.register_typed_allocation(b, type_of(k)); mine.push_back({k, b}); sum[t][k].first++; sum[t][k].second += b; }
				else { size_t j = r.below(mine.size()); auto p = mine[j]; mine.erase(mine.begin() + j); m.register_typed_deallocation(p.second, type_of(p.first)); sum[t][p.first].first--; sum[t][p.first].second -= p.second; }
				if (r.below(20) == 0) m.memory_digest();
			}
		});
		auto d = m.memory_digest(); size_t n = 0;
		for (size_t k = 0; k < K; ++k) {
			u64 cnt = 0, by = 0; for (size_t t = 0; t < T; ++t) { cnt += sum[t][k].first; by += sum[t][k].second; }
			auto it = d.find(std::type_index(type_of(k)));
			if (by >= 1024 * 512) { ++n; PBT_CHECK(c, it != d.end(), "type %zu is missing from the digest", k); PBT_CHECK(c, it->second.count == cnt && it->second.bytes == by, "type %zu: %zu allocations of %zu bytes, expected %llu of %llu", k, it->second.count, it->second.bytes, (unsigned long long)cnt, (unsigned long long)by); }
			else PBT_CHECK(c, it == d.end(), "type %zu is in the digest", k);
		}
		PBT_CHECK(c, d.size() == n, "%zu types in the digest, expected %zu", d.size(), n);
		c.label("types"); c.nontrivial(n > 0);
	} else if (mode == 2) { // counters
		u64 r0 = tpie::get_bytes_read(), w0 = tpie::get_bytes_written(), t0 = tpie::get_temp_file_usage(), us[20]; for (size_t i = 0; i < 20; ++i) us[i] = tpie::get_user(i);
		c.trace("%zu threads, %zu operations each", T, ops); const u64 big = u64(1) << 30; tpie::increment_temp_file_usage(big);
		std::vector<std::array<u64, 23>> sum(T);
		start([&](size_t t) { Rng r(seed + t); auto & x = sum[t]; x.fill(0); for (size_t i = 0; i < ops; ++i) { u64 d = r.below(1000); size_t k = r.below(23); if (k == 20) tpie::increment_bytes_read(d); else if (k == 21) tpie::increment_bytes_written(d); else if (k == 22) { int64_t e = (int64_t)d - 500; tpie::increment_temp_file_usage(e); d = (u64)e; } else tpie::increment_user(k, d); x[k] += d; } });
		u64 want[23]; for (size_t k = 0; k < 23; ++k) { want[k] = 0; for (auto & x : sum) want[k] += x[k]; }
		tpie::increment_temp_file_usage(-(int64_t)big);
		PBT_CHECK(c, tpie::get_bytes_read() - r0 == want[20] && tpie::get_bytes_written() - w0 == want[21], "bytes read or written are wrong");
		PBT_CHECK(c, (int64_t)want[22] < 0 || tpie::get_temp_file_usage() - t0 == want[22], "temporary file usage is %llu, expected %llu", (unsigned long long)(tpie::get_temp_file_usage() - t0), (unsigned long long)want[22]);
		tpie::increment_temp_file_usage((int64_t)t0 - (int64_t)tpie::get_temp_file_usage());
		for (size_t k = 0; k < 20; ++k) PBT_CHECK(c, tpie::get_user(k) - us[k] == want[k], "user counter %zu is %llu, expected %llu", k, (unsigned long long)(tpie::get_user(k) - us[k]), (unsigned long long)want[k]);
		c.label("counters"); c.nontrivial(ops > 20);
	} else if (mode == 3) { // readers and writers
		std::atomic_size_t lock(0); u64 a = 0, b = 0; u64 writes[8] = {};
		c.trace("%zu threads under a spin lock", T);
		start([&](size_t t) { Rng r(seed + t); for (size_t i = 0; i < ops; ++i) {
			if (r.below(3) == 0) { tpie::unique_spin_lock l(lock); ++a; ++b; ++writes[t]; }
			else { tpie::shared_spin_lock l(lock); if (a != b) errs[t] = "a reader saw half an update"; if (r.below(4) == 0) { l.release(); l.acquire(); if (a != b) errs[t] = "a reader saw half an update"; } }
		} });
		u64 w = 0; for (u64 x : writes) w += x;
		PBT_CHECK(c, a == w && b == w && lock == 0, "%llu updates, expected %llu, lock %zu", (unsigned long long)a, (unsigned long long)w, (size_t)lock);
		c.label("spin lock"); c.nontrivial(w > 3);
	} else { // temporary streams of different threads
		Names back;
		Resources res(c.dir);
		if (s.flip()) tpie::tempname::set_default_path(""); // the directory for them has to be made first
		const size_t n = s.size(3000, 512); const bool namesOnly = s.flip(); std::vector<std::vector<std::string>> names(T);
		c.trace("%zu threads, %s", T, namesOnly ? "names" : "streams");
		start([&](size_t t) {
			Rng r(seed + t);
			try {
				for (size_t i = 0; i < (namesOnly ? 5u : 2u); ++i) {
					if (namesOnly) names[t].push_back(tpie::tempname::tpie_name());
					else {
						tpie::file_stream<u64> f; f.open(r.below(2) ? tpie::open::defaults : tpie::open::compression_all);
						for (size_t j = 0; j < n; ++j) f.write(j * 7 + t);
						f.seek(0); for (size_t j = 0; j < n; ++j) if (u64 x = f.read(); x != j * 7 + t) { errs[t] = "a stream has wrong contents"; break; }
						if (f.can_read()) errs[t] = "a stream is too long";
					}
				}
			} catch (std::exception & e) { errs[t] = std::string("exception: ") + e.what(); }
		});
		std::set<std::string> all; for (auto & v : names) for (auto & x : v) { PBT_CHECK(c, all.insert(x).second, "the name %s was given twice", x.c_str()); PBT_CHECK(c, !file_exists(x) && file_exists(x.substr(0, x.rfind('/'))), "%s can not be used", x.c_str()); }
		res.expect_same(c, "afterwards");
		c.labelf("%s", namesOnly ? "names" : "streams"); c.nontrivial(true);
	}
	c.labelf("%zu threads", T);
}

// ---------------------------------------------------------------- names
std::string parent(const std::string & p) { return p.substr(0, p.rfind('/')); }
std::string leaf(const std::string & p) { return p.substr(p.rfind('/') + 1); }

void scen_names(Src & s, Ctx & c) {
	init_tpie(4096, 64u << 20, false);
	Names back; typedef tpie::tempname tn;
	static u64 serial = 0; std::string root = c.dir + "/n" + std::to_string(serial++); mkdir(root.c_str(), 0700);
	std::vector<std::string> dirs; for (int i = 0; i < 3; ++i) { dirs.push_back(root + "/d" + std::to_string(i)); mkdir(dirs.back().c_str(), 0700); }
	std::string base = "TPIE", ext, path, env; tn::set_default_base_name(base); tn::set_default_extension(""); tn::set_default_path(""); unsetenv(AMI_SINGLE_DEVICE_ENV);
	const std::string tmpdir = getenv(TMPDIR_ENV); std::set<std::string> given, subs; size_t names = 0, config = 0;
	static const std::vector<std::string> BASE = {"TPIE", "x", "a_b", "", "with space", "v1.2"}, POST = {"", "runs", "a_b", "x.y"}, EXT = {"", "tpie", "dat", "a.b"};
	auto actual = [&]() { return !path.empty() ? path : !env.empty() ? env : tmpdir; };
	auto check_name = [&](const std::string & n, const std::string & b, const std::string & post, const std::string & e) { // base_[post_][..._]xxxx-xxxx-xxxx-xxxx[.ext]
		std::string pre = b + "_" + (post.empty() ? "" : post + "_"), suf = e.empty() ? "" : "." + e;
		bool ok = n.size() >= pre.size() + 19 + suf.size() && n.compare(0, pre.size(), pre) == 0 && n.compare(n.size() - suf.size(), suf.size(), suf) == 0;
		if (ok) { std::string r = n.substr(n.size() - suf.size() - 19, 19); for (size_t i = 0; i < 19 && ok; ++i) ok = i % 5 == 4 ? r[i] == '-' : (isdigit(r[i]) || (r[i] >= 'a' && r[i] <= 'f'));
			if (ok && n.size() > pre.size() + 19 + suf.size()) ok = n[n.size() - suf.size() - 20] == '_'; }
		PBT_CHECK(c, ok, "name '%s' does not consist of base '%s', post base '%s', random part and extension '%s'", n.c_str(), b.c_str(), post.c_str(), e.c_str());
	};
	while (s.more(16)) {
		switch (s.weighted({6, 2, 2, 2, 4, 2, 2, 1})) {
		case 0: {
			std::string post = s.pick(POST), dir = s.chance(1, 3) ? s.pick(dirs) : "", e = s.pick(EXT); bool d = s.chance(1, 3);
			std::string n = d ? tn::tpie_dir_name(post, dir) : tn::tpie_name(post, dir, e); ++names;
			c.trace("%s('%s', '%s', '%s') = %s", d ? "tpie_dir_name" : "tpie_name", post.c_str(), dir.c_str(), e.c_str(), n.c_str());
			PBT_CHECK(c, given.insert(n).second, "the same name twice: %s", n.c_str());
			PBT_CHECK(c, !file_exists(n), "%s exists", n.c_str());
			check_name(leaf(n), base, post, d ? "" : !e.empty() ? e : !ext.empty() ? ext : "tpie");
			std::string p = parent(n); struct stat st;
			PBT_CHECK(c, stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode), "the directory of %s does not exist", n.c_str());
			if (!dir.empty()) PBT_CHECK(c, p == dir, "%s is not in %s", n.c_str(), dir.c_str());
			else { PBT_CHECK(c, parent(p) == actual() || p == actual(), "%s is not below %s", n.c_str(), actual().c_str()); if (p != actual()) subs.insert(p); }
			if (s.flip()) { int f = ::open(n.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0600); PBT_CHECK(c, f >= 0, "can not create %s: %s", n.c_str(), strerror(errno)); ::close(f); }
			break; }
		case 1: base = s.pick(BASE); c.trace("base name '%s'", base.c_str()); tn::set_default_base_name(base); ++config; break;
		case 2: ext = s.pick(EXT); c.trace("extension '%s'", ext.c_str()); tn::set_default_extension(ext); ++config; break;
		case 3: { // environment; the directory is chosen anew when the default path is set
			env = s.flip() ? c.dir + s.pick({"/e0", "/e1"}) : ""; if (!env.empty()) mkdir(env.c_str(), 0700); /* few different values: setenv keeps them all */ if (env.empty()) unsetenv(AMI_SINGLE_DEVICE_ENV); else setenv(AMI_SINGLE_DEVICE_ENV, env.c_str(), 1);
			path = ""; tn::set_default_path(""); c.trace("environment '%s'", env.c_str()); ++config; break; }
		case 4: {
			std::string p = s.chance(1, 4) ? "" : s.pick(dirs), sub; if (!p.empty() && s.flip()) sub = s.pick({std::string("s"), std::string("t"), std::string("nodir/x"), std::string("file")}); ++config;
			if (sub == "file") { int f = ::open((p + "/file").c_str(), O_CREAT | O_WRONLY, 0600); ::close(f); }
			c.trace("set_default_path('%s', '%s')", p.c_str(), sub.c_str());
			tn::set_default_path(p, sub);
			if (sub.empty() || sub == "nodir/x" || sub == "file") path = p; // a subdirectory that can not be used is left out
			else { path = p + "/" + sub; struct stat st; PBT_CHECK(c, stat(path.c_str(), &st) == 0 && S_ISDIR(st.st_mode), "%s was not created", path.c_str()); }
			if (sub == "file" || sub == "nodir/x") c.label("unusable subdirectory");
			break; }
		case 5: {
			std::string p; bool want; size_t k = s.below(5);
			if (k == 0) { p = s.pick(dirs); want = true; } else if (k == 1) { p = root + "/none"; want = false; } else if (k == 2) { p = root + "/plainfile"; int f = ::open(p.c_str(), O_CREAT | O_WRONLY, 0600); ::close(f); want = false; }
			else if (k == 3) { p = root + "/ro"; mkdir(p.c_str(), 0500); want = geteuid() == 0; } else { p = s.pick(dirs) + "/"; want = true; }
			size_t before = count_files(root); bool got = tn::try_directory(p);
			c.trace("try_directory(%s) = %d", p.c_str(), got);
			PBT_CHECK(c, got == want, "try_directory(%s) is %d", p.c_str(), got); PBT_CHECK(c, count_files(root) == before, "try_directory left a file behind"); break; }
		case 6: PBT_CHECK(c, tn::get_default_path() == path && tn::get_default_base_name() == base && tn::get_default_extension() == ext, "default path '%s' (expected '%s'), base name '%s' (expected '%s'), extension '%s' (expected '%s')", tn::get_default_path().c_str(), path.c_str(), tn::get_default_base_name().c_str(), base.c_str(), tn::get_default_extension().c_str(), ext.c_str()); break;
		default: {
			c.trace("finish_tempfile"); size_t before = 0; for (auto & d : dirs) before += count_files(d); (void)before;
			tpie::finish_tempfile(); c.label("finished");
			for (auto & d : subs) PBT_CHECK(c, !file_exists(d), "the directory %s was not removed", d.c_str());
			subs.clear();
			for (auto & d : dirs) PBT_CHECK(c, file_exists(d), "the directory %s was removed", d.c_str());
			}
		}
		PBT_CHECK(c, tn::get_actual_path() == actual(), "temporary files go to %s, expected %s", tn::get_actual_path().c_str(), actual().c_str());
	}
	tpie::finish_tempfile();
	for (auto & d : subs) PBT_CHECK(c, !file_exists(d), "the directory %s was not removed in the end", d.c_str());
	for (auto & n : given) if (parent(n).compare(0, root.size(), root) != 0) PBT_CHECK(c, !file_exists(n), "%s was left behind", n.c_str());
	c.nontrivial(names >= 3); if (config) c.label("configured");
	{ std::string r = root + "/ro"; chmod(r.c_str(), 0700); } pbt::rm_rf(root);
}

// ---------------------------------------------------------------- temporary files
void scen_tempfiles(Src & s, Ctx & c) {
	init_tpie(4096, 64u << 20, false);
	Resources res(c.dir); static u64 serial = 0; std::string root = c.dir + "/f" + std::to_string(serial++); mkdir(root.c_str(), 0700);
	const u64 usage0 = tpie::get_temp_file_usage();
	struct Inner { std::string path; bool persist = false; u64 size = 0; bool dir = false; bool weird = false; };
	std::vector<std::shared_ptr<Inner>> models(s.range(1, 5)); std::vector<std::unique_ptr<tpie::temp_file>> hs; for (auto & m : models) { m = std::make_shared<Inner>(); hs.push_back(std::make_unique<tpie::temp_file>()); }
	std::vector<std::weak_ptr<Inner>> all; for (auto & m : models) all.push_back(m);
	std::map<std::string, bool> disk; size_t made = 0, copies = 0, odd = 0, gone = 0; u64 lost = 0;
	// what the model says about a file when its last handle goes away
	auto release = [&](std::shared_ptr<Inner> & m, std::shared_ptr<Inner> n) {
		if (m.use_count() == 1) {
			if (!m->path.empty() && !m->persist) { if (!m->dir) disk[m->path] = false; ++gone; }
			else lost += m->size; // still counted: the file is kept
		}
		m = n;
	};
	auto look = [&]() {
		for (auto & d : disk) PBT_CHECK(c, file_exists(d.first) == d.second, "%s %s", d.first.c_str(), d.second ? "is missing" : "was not removed");
		u64 want = usage0 + lost; std::set<Inner *> seen; for (auto & m : models) if (seen.insert(m.get()).second) want += m->size;
		PBT_CHECK(c, tpie::get_temp_file_usage() == want, "temporary file usage is %llu, expected %llu", (unsigned long long)(tpie::get_temp_file_usage() - usage0), (unsigned long long)(want - usage0));
		for (size_t i = 0; i < hs.size(); ++i) PBT_CHECK(c, hs[i]->is_persistent() == models[i]->persist, "handle %zu: persistent is %d", i, hs[i]->is_persistent());
	};
	static u64 fileno = 0;
	while (s.more(16)) {
		size_t i = s.below(hs.size());
		switch (s.weighted({5, 3, 2, 2, 2, 2, 2, 1})) {
		case 0: { // use it
			auto & m = *models[i]; std::string p = hs[i]->path(); if (m.path.empty()) { m.path = p; m.weird = false; } PBT_CHECK(c, p == m.path, "path of handle %zu is %s, expected %s", i, p.c_str(), m.path.c_str());
			if (!m.weird && !m.dir) { int f = ::open(p.c_str(), O_CREAT | O_WRONLY, 0600); PBT_CHECK(c, f >= 0, "can not create %s: %s", p.c_str(), strerror(errno)); ::close(f); disk[p] = true; ++made; }
			c.trace("create %s (handle %zu)", p.c_str(), i); break; }
		case 1: { size_t j = s.below(hs.size()); c.trace("handle %zu = handle %zu", i, j); *hs[i] = *hs[j]; auto n = models[j]; if (i != j) { if (models[i] != n) release(models[i], n); } ++copies; break; }
		case 2: c.trace("free handle %zu", i); hs[i]->free(); release(models[i], std::make_shared<Inner>()); break;
		case 3: { auto n = std::make_shared<Inner>(); n->persist = s.flip(); std::string nm = root + "/f" + std::to_string(fileno++);
			switch (s.weighted({6, 1, 1, 1})) {
			case 1: n->dir = true; mkdir(nm.c_str(), 0700); { int f = ::open((nm + "/inside").c_str(), O_CREAT | O_WRONLY, 0600); ::close(f); } disk[nm] = true; ++odd; break; // not a file: it can not be removed
			case 2: nm = root + "/" + std::string(300, 'z'); n->weird = true; ++odd; break; // no such file is possible
			case 3: { std::string t = root + "/plain"; int f = ::open(t.c_str(), O_CREAT | O_WRONLY, 0600); ::close(f); nm = t + "/x"; n->weird = true; ++odd; break; }
			default: break; }
			n->path = nm; c.trace("handle %zu: path %s%s", i, nm.c_str(), n->persist ? ", persistent" : "");
			if (s.flip()) hs[i]->set_path(nm, n->persist); else *hs[i] = tpie::temp_file(nm, n->persist);
			release(models[i], n); break; }
		case 4: { bool p = s.flip(); c.trace("handle %zu: persistent %d", i, p); hs[i]->set_persistent(p); models[i]->persist = p; break; }
		case 5: if (!models[i]->path.empty()) { u64 z = s.size(100000, 4096); c.trace("handle %zu: size %llu", i, (unsigned long long)z); hs[i]->update_recorded_size(z); models[i]->size = z; } break;
		case 6: { size_t j = s.below(hs.size()); if (models[i]->path.empty() || models[i]->weird || models[i]->dir) break; // a stream that uses the file
			c.trace("stream on handle %zu", i); auto old = models[j]; (void)old;
			{ ::unlink(hs[i]->path().c_str()); tpie::file_stream<u64> f; f.open(*hs[i]); for (u64 k = 0; k < 10; ++k) f.write(k); PBT_CHECK(c, f.size() >= 10, "size"); f.close(); }
			disk[models[i]->path] = true; { struct stat st; stat(models[i]->path.c_str(), &st); } models[i]->size = tpie::get_temp_file_usage() - (usage0 + lost); { std::set<Inner *> seen; seen.insert(models[i].get()); for (auto & m : models) if (seen.insert(m.get()).second) models[i]->size -= m->size; }
			break; }
		default: { c.trace("a copy of handle %zu comes and goes", i); tpie::temp_file t(*hs[i]); tpie::temp_file u; u = t; PBT_CHECK(c, u.is_persistent() == models[i]->persist, "copy"); ++copies; }
		}
		look();
	}
	while (!hs.empty()) { c.trace("drop handle %zu", hs.size() - 1); hs.pop_back(); release(models.back(), nullptr); models.pop_back(); look(); }
	tpie::increment_temp_file_usage(-(int64_t)lost);
	PBT_CHECK(c, tpie::get_temp_file_usage() == usage0, "usage in the end");
	for (auto & d : disk) if (d.second) ::unlink(d.first.c_str()); // the persistent ones
	c.nontrivial(made >= 1 && gone >= 1); if (copies) c.label("shared handles"); if (odd) c.label("can not be removed"); if (lost) c.label("persistent with a recorded size");
	res.expect_same(c, "afterwards"); pbt::rm_rf(root);
}

// ---------------------------------------------------------------- accessor
void scen_accessor(Src & s, Ctx & c) {
	init_tpie(4096, 64u << 20, false);
	Resources res(c.dir); typedef tpie::file_accessor::raw_file_accessor acc_t;
	static u64 serial = 0; std::string root = c.dir + "/a" + std::to_string(serial++); mkdir(root.c_str(), 0700);
	auto & fm = tpie::get_file_manager(); const size_t files0 = fm.used(), lim0 = fm.limit(); const auto enf0 = fm.enforcement();
	struct Back { size_t l; resource_manager::enforce_t e; ~Back() { tpie::get_file_manager().set_limit(l); tpie::get_file_manager().set_enforcement(e); } } back{lim0, enf0};
	std::vector<std::string> paths = {root + "/a", root + "/b", root + "/none/c", root}; std::map<std::string, std::string> disk; // contents
	struct A { std::unique_ptr<acc_t> a; bool open = false, rw = false; std::string path; u64 pos = 0; };
	std::vector<A> as(s.range(1, 3)); for (auto & a : as) a.a.reset(new acc_t);
	size_t open = 0, room = 1000, ios = 0, refused = 0, failed = 0; Rng data = s.bulk(); u64 rd = tpie::get_bytes_read(), wr = tpie::get_bytes_written();
	while (s.more(24)) {
		A & a = as[s.below(as.size())]; acc_t & x = *a.a;
		if (!a.open) {
			if (s.chance(1, 10)) { room = s.below(3); fm.set_limit(files0 + room ? files0 + room : 1); if (files0 + room == 0) room = 1; fm.set_enforcement(resource_manager::ENFORCE_THROW); c.trace("at most %zu files", room); }
			std::string p = paths[s.weighted({6, 4, 1, 1})]; size_t k = s.below(4); bool there = disk.count(p); int e = 0; bool ret = true;
			x.set_cache_hint(s.pick({tpie::access_normal, tpie::access_sequential, tpie::access_random}));
			try { switch (k) { case 0: x.open_rw_new(p); break; case 1: x.open_ro(p); break; case 2: ret = x.try_open_rw(p); break; default: x.open_wo(p); } }
			catch (tpie::out_of_files_error &) { e = 2; } catch (tpie::io_exception &) { e = 1; }
			const char * names[] = {"open_rw_new", "open_ro", "try_open_rw", "open_wo"};
			c.trace("%s(%s): %s", names[k], p.c_str(), e == 2 ? "too many files" : e ? "error" : ret ? "open" : "not there");
			bool isdir = p == root, nodir = p == paths[2]; int want; // 0 open, 1 error, 2 refused, 3 false
			if (open >= room) want = 2; else if (isdir) want = k == 1 ? 0 : 1; else if (nodir) want = k == 2 ? 3 : 1; else if (!there) want = k == 1 ? 1 : k == 2 ? 3 : 0; else want = 0;
			int got = e ? e : ret ? 0 : 3; PBT_CHECK(c, got == want, "%s(%s): outcome %d, expected %d (0 open, 1 error, 2 too many files, 3 false)", names[k], p.c_str(), got, want);
			PBT_CHECK(c, x.is_open() == (want == 0), "is_open is %d", x.is_open());
			if (want == 0 && isdir) { x.close_i(); }
			else if (want == 0) { a.open = true; a.rw = k != 1; a.path = p; a.pos = 0; ++open; if (!there || k == 3) disk[p] = ""; } else if (want == 2) ++refused; else ++failed;
		} else {
			std::string & f = disk[a.path];
			switch (s.weighted({5, 5, 3, 2, 2, 2})) {
			case 0: { size_t n = s.size(9000, 512); std::string b(n, 0); for (auto & ch : b) ch = (char)data.next(); bool ok = true; c.trace("write %zu at %llu", n, (unsigned long long)a.pos);
				try { x.write_i(b.data(), n); } catch (tpie::io_exception &) { ok = false; }
				PBT_CHECK(c, ok == a.rw, "write %s", ok ? "to a file that is open for reading succeeded" : "failed");
				if (ok) { if (n) { if (f.size() < a.pos + n) f.resize(a.pos + n, 0); f.replace(a.pos, n, b); a.pos += n; wr += n; ++ios; } } break; }
			case 1: { size_t n = s.chance(3, 4) && f.size() > a.pos ? s.below(f.size() - a.pos + 1) : s.size(9000, 512); std::string b(n + 1, 'q'); bool ok = true; c.trace("read %zu at %llu of %zu", n, (unsigned long long)a.pos, f.size());
				try { x.read_i(&b[0], n); } catch (tpie::io_exception &) { ok = false; }
				size_t can = f.size() > a.pos ? std::min<size_t>(n, f.size() - a.pos) : 0; PBT_CHECK(c, ok == (can == n), "read %s", ok ? "past the end succeeded" : "failed");
				PBT_CHECK(c, memcmp(b.data(), f.data() + std::min<size_t>(a.pos, f.size()), can) == 0 && b[n] == 'q', "read wrong bytes"); a.pos += can; rd += can; ++ios; break; }
			case 2: a.pos = s.flip() ? s.below(f.size() + 1) : s.size(20000, 4096); c.trace("seek %llu", (unsigned long long)a.pos); x.seek_i(a.pos); break;
			case 3: { PBT_CHECK(c, x.file_size_i() == f.size(), "size %llu, expected %zu", (unsigned long long)x.file_size_i(), f.size()); break; }
			case 4: { u64 n = s.flip() ? s.below(f.size() + 1) : s.size(20000, 4096); bool ok = true; c.trace("truncate to %llu", (unsigned long long)n); try { x.truncate_i(n); } catch (tpie::io_exception &) { ok = false; } PBT_CHECK(c, ok == a.rw, "truncate %s", ok ? "succeeded" : "failed"); if (ok) f.resize(n, 0); break; }
			default: c.trace("close"); if (s.flip()) x.close_i(); else { a.a.reset(); a.a.reset(new acc_t); } a.open = false; --open; PBT_CHECK(c, !a.a->is_open(), "still open"); if (s.flip()) a.a->close_i();
			}
		}
		PBT_CHECK(c, fm.used() == files0 + open, "%zu files counted as open, expected %zu", fm.used() - files0, open);
		PBT_CHECK(c, tpie::get_bytes_read() == rd && tpie::get_bytes_written() == wr, "%llu bytes read and %llu written, expected %llu and %llu", (unsigned long long)tpie::get_bytes_read(), (unsigned long long)tpie::get_bytes_written(), (unsigned long long)rd, (unsigned long long)wr);
	}
	as.clear();
	for (auto & d : disk) { std::string got; if (FILE * f = fopen(d.first.c_str(), "rb")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) got.append(b, n); fclose(f); } PBT_CHECK(c, got == d.second, "%s has %zu bytes, expected %zu, or other contents", d.first.c_str(), got.size(), d.second.size()); }
	for (size_t i = 0; i < 30; ++i) { size_t k = i < 20 ? i : s.pick({size_t(20), size_t(21), size_t(40), size_t(100), size_t(159), size_t(160), size_t(161), ~size_t(0), size_t(1) << 32, size_t(19)}); u64 u = tpie::get_user(k); tpie::increment_user(k, 3); PBT_CHECK(c, tpie::get_user(k) == (k < 20 ? u + 3 : 0), "user counter %zu is %llu", k, (unsigned long long)tpie::get_user(k)); }
	c.nontrivial(ios >= 3); if (refused) c.label("too many files"); if (failed) c.label("can not be opened");
	res.expect_same(c, "afterwards"); pbt::rm_rf(root);
}
}

int main(int argc, char ** argv) {
	pbt::Suite su;
	su.property = "C19";
	su.rule = "limits: three requests granted; memory: three allocations; threads: several grants or operations; names: three names; tempfiles: a file created and a file released; accessor: three transfers";
	su.scenarios = {
		{"limits", scen_limits, 15000, 300000, 64, 30},
		{"memory", scen_memory, 15000, 300000, 64, 30},
		{"threads", scen_threads, 3000, 60000, 32, 60},
		{"names", scen_names, 6000, 100000, 32, 30},
		{"tempfiles", scen_tempfiles, 6000, 100000, 32, 30},
		{"accessor", scen_accessor, 6000, 100000, 32, 30},
	};
	return pbt::main_loop(argc, argv, su);
}
