#include "pbt.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
#include <map>
#include <set>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>

extern "C" void __gcov_dump(void) __attribute__((weak)); // only in coverage builds (tools/cov.py)

namespace pbt {

static std::string vstrf(const char * fmt, va_list ap) {
	va_list ap2; va_copy(ap2, ap);
	int n = vsnprintf(nullptr, 0, fmt, ap2); va_end(ap2);
	std::string s(n > 0 ? n : 0, '\0');
	if (n > 0) vsnprintf(&s[0], n + 1, fmt, ap);
	return s;
}
std::string strf(const char * fmt, ...) {
	va_list ap; va_start(ap, fmt); std::string s = vstrf(fmt, ap); va_end(ap); return s;
}

static const int MAX_LABELS = 256;
static const int MSG = 1 << 14;
struct Label { char name[96]; uint64_t count; uint64_t last; };
struct Slot {
	volatile uint64_t beat;
	volatile uint64_t cur;      // global case index being run
	volatile uint64_t failed;
	uint64_t len;
	uint64_t choices[MAX_CHOICES];
	char msg[MSG];
	int nlabels;
	Label labels[MAX_LABELS];
};
static const int SAMPLES = 2, SAMPLE_LEN = 2500, MAX_SCEN = 64;
struct Shared {
	volatile int sampleCount[MAX_SCEN];
	char samples[MAX_SCEN][SAMPLES][SAMPLE_LEN];
	uint64_t nHashes;
	uint64_t hashes[1]; // 0 not run, 1 run and trivial, otherwise hash of the choices
};
static Shared * g_shared;
static Slot * g_slots;
static int g_workers = 8;
static std::string g_scratch;
static Slot * g_slot; // in worker
static const Suite * g_suite;
static uint64_t g_seed = 1;
static bool g_thorough = false;
static bool g_verbose = false;
static bool g_leakCheck = false; // repeat the replayed case and watch the size of the heap
static std::string g_scenarioPrefix;

const std::string & scratch_root() { return g_scratch; }

void rm_rf(const std::string & path) {
	if (g_scratch.size() < 6 || path.compare(0, g_scratch.size(), g_scratch) != 0) return;
	if (path.find("..") != std::string::npos) return;
	struct stat st;
	if (lstat(path.c_str(), &st) != 0) return;
	if (S_ISDIR(st.st_mode)) {
		if (DIR * d = opendir(path.c_str())) {
			while (dirent * e = readdir(d)) {
				if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
				rm_rf(path + "/" + e->d_name);
			}
			closedir(d);
		}
		rmdir(path.c_str());
	} else unlink(path.c_str());
}

void Ctx::label(const char * name) {
	if (!g_slot) return;
	std::string n = g_scenarioPrefix + name;
	if (n.size() >= sizeof(Label::name)) n.resize(sizeof(Label::name) - 1);
	for (int i = 0; i < g_slot->nlabels; ++i) {
		Label & l = g_slot->labels[i];
		if (n == l.name) { if (l.last != g_slot->cur + 1) { l.last = g_slot->cur + 1; l.count++; } return; }
	}
	if (g_slot->nlabels == MAX_LABELS) return;
	Label & l = g_slot->labels[g_slot->nlabels++];
	strcpy(l.name, n.c_str()); l.count = 1; l.last = g_slot->cur + 1;
}
void Ctx::labelf(const char * fmt, ...) {
	va_list ap; va_start(ap, fmt); std::string s = vstrf(fmt, ap); va_end(ap); label(s.c_str());
}
void Ctx::trace(const char * fmt, ...) {
	if (!verbose && !keep) return;
	va_list ap; va_start(ap, fmt); std::string s = vstrf(fmt, ap); va_end(ap);
	if (verbose) { fprintf(stderr, "  %s\n", s.c_str()); fflush(stderr); }
	if (keep && text.size() < (size_t)SAMPLE_LEN) { text += s; text += "; "; }
}
void Ctx::fail(const char * fmt, ...) {
	va_list ap; va_start(ap, fmt); std::string s = vstrf(fmt, ap); va_end(ap);
	// Ends the process at once: unwinding would run destructors of the code
	// under test in a state that may make them abort and hide the message.
	if (g_slot) {
		strncpy(g_slot->msg, s.c_str(), MSG - 1); g_slot->msg[MSG - 1] = 0;
		g_slot->failed = 1;
		if (g_verbose) { fprintf(stderr, "  FAILED: %s\n", g_slot->msg); fflush(stderr); }
		_exit(77);
	}
	throw Fail{s};
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static uint64_t splitmix_of(uint64_t x) { return splitmix(x); }

struct CaseId { int scen; uint64_t idx; };

static uint64_t case_seed(const CaseId & c) {
	uint64_t x = g_seed * 0x9E3779B97F4A7C15ull ^ hash_str(g_suite->scenarios[c.scen].name);
	splitmix(x); x ^= c.idx * 0xD1B54A32D192ED03ull; splitmix(x);
	uint64_t r = splitmix(x); return r;
}

static void record_failure(Slot * slot, const std::string & msg) {
	strncpy(slot->msg, msg.c_str(), MSG - 1); slot->msg[MSG - 1] = 0;
	slot->failed = 1;
	if (g_verbose) { fprintf(stderr, "  FAILED: %s\n", slot->msg); fflush(stderr); }
	_exit(77);
}

// Runs a case that has passed again and again: the heap must not grow with every execution.
static const char * LEAK = "the heap grows with every execution of this case";
static void check_leak(const Scenario & sc, const CaseId & c, Slot * slot, const std::string & dir) {
	if (!__sanitizer_get_current_allocated_bytes) return;
	std::vector<uint64_t> ch(slot->choices, slot->choices + std::min<uint64_t>(slot->len, MAX_CHOICES));
	size_t prev = 0; long inc[8]; int n = 0; bool grows = true;
	for (int k = 0; k < 7; ++k) {
		{
			Ctx ctx; ctx.thorough = g_thorough; ctx.index = c.idx; ctx.dir = dir;
			Src src(&ch, slot->choices, &slot->len);
			try {
				if (g_suite->before) g_suite->before(ctx);
				sc.fn(src, ctx);
				if (g_suite->after) g_suite->after(ctx);
			} catch (Fail & f) { record_failure(slot, f.msg + " (when the case is repeated)"); }
			catch (std::exception & e) { record_failure(slot, std::string("unexpected exception when the case is repeated: ") + e.what()); }
		}
		slot->beat++;
		size_t now = __sanitizer_get_current_allocated_bytes();
		if (k >= 2) { inc[n++] = (long)now - (long)prev; if ((long)now - (long)prev < 16) { grows = false; break; } }
		prev = now;
	}
	if (grows) record_failure(slot, strf("%s, by %ld, %ld, %ld, %ld and %ld bytes", LEAK, inc[0], inc[1], inc[2], inc[3], inc[4]));
}

// Runs one case in this process. Returns normally on pass; records a failure and _exits otherwise.
static void run_one(const CaseId & c, const std::vector<uint64_t> * replay, Slot * slot, const std::string & dir, uint64_t gidx) {
	const Scenario & sc = g_suite->scenarios[c.scen];
	slot->cur = gidx; slot->len = 0; slot->beat++;
	g_slot = slot;
	g_scenarioPrefix = g_suite->scenarios.size() > 1 ? std::string(sc.name) + "/" : std::string();
	Ctx ctx; ctx.verbose = g_verbose; ctx.thorough = g_thorough; ctx.index = c.idx; ctx.dir = dir;
	ctx.keep = !replay && g_shared->sampleCount[c.scen] < SAMPLES && c.idx < 200;
	std::string msg; bool bad = false;
	try {
		Src src = replay ? Src(replay, slot->choices, &slot->len) : Src(case_seed(c), slot->choices, &slot->len);
		if (g_suite->before) g_suite->before(ctx);
		sc.fn(src, ctx);
		if (g_suite->after) g_suite->after(ctx);
	} catch (Fail & f) { bad = true; msg = f.msg; }
	catch (std::exception & e) { bad = true; msg = std::string("unexpected exception: ") + e.what(); }
	catch (...) { bad = true; msg = "unexpected exception of unknown type"; }
	if (bad) record_failure(slot, msg);
	if (replay ? g_leakCheck : (g_suite->leak_every && splitmix_of(gidx) % g_suite->leak_every == 0)) {
		bool v = g_verbose; g_verbose = false; check_leak(sc, c, slot, dir); g_verbose = v;
	}
	if (!replay) {
		uint64_t h = 1;
		if (ctx.m_nontrivial) {
			h = 1469598103934665603ull ^ (uint64_t)c.scen;
			for (uint64_t i = 0; i < slot->len; ++i) h = (h ^ slot->choices[i]) * 1099511628211ull + (h >> 47);
			if (h < 2) h = 2;
		}
		if (gidx < g_shared->nHashes) g_shared->hashes[gidx] = h;
		if (ctx.m_nontrivial && ctx.keep) {
			int k = __sync_fetch_and_add(&g_shared->sampleCount[c.scen], 1);
			if (k < SAMPLES) {
				std::string t = std::string(sc.name) + " #" + std::to_string(c.idx) + ": " + (ctx.text.empty() ? "(no trace)" : ctx.text);
				strncpy(g_shared->samples[c.scen][k], t.c_str(), SAMPLE_LEN - 1);
			}
		}
	}
	slot->beat++;
}

static int g_dirCounter = 0;
static std::string fresh_dir() {
	std::string d = g_scratch + "/w" + std::to_string(getpid()) + "_" + std::to_string(g_dirCounter++);
	mkdir(d.c_str(), 0755);
	return d;
}

// forks a worker running the given cases; returns pid
static pid_t start_worker(const std::vector<CaseId> & cases, const std::vector<uint64_t> & gidx,
                          const std::vector<uint64_t> * replay, Slot * slot, const std::string & dir, const char * errfile) {
	fflush(stdout); fflush(stderr);
	slot->failed = 0; slot->msg[0] = 0; slot->len = 0;
	slot->beat++;
	pid_t p = fork();
	if (p < 0) return p;
	if (p) { setpgid(p, p); return p; }
	setpgid(0, 0);
	int fd = open(errfile ? errfile : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd >= 0) { dup2(fd, 2); if (!g_verbose) dup2(fd, 1); close(fd); }
	std::string tmp = dir + "/tmp"; mkdir(tmp.c_str(), 0755);
	setenv("TMPDIR", tmp.c_str(), 1);
	unsetenv("AMI_SINGLE_DEVICE"); unsetenv("TMP"); unsetenv("TEMP"); unsetenv("TEMPDIR");
	if (chdir(dir.c_str()) != 0) _exit(3);
	if (g_suite->setup) g_suite->setup(dir);
	for (size_t i = 0; i < cases.size(); ++i) run_one(cases[i], replay, slot, dir, gidx[i]);
	if (g_suite->teardown) g_suite->teardown();
	if (__gcov_dump) __gcov_dump();
	_exit(0);
}

enum Outcome { PASS, FAILED, CRASH, HANG, INFRA };

static std::string read_file(const std::string & p, size_t max) {
	std::string s; FILE * f = fopen(p.c_str(), "rb"); if (!f) return s;
	char buf[4096]; size_t n; while (s.size() < max && (n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
	fclose(f); return s;
}

static std::string describe_status(int st) {
	if (WIFSIGNALED(st)) return strf("process killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
	if (WIFEXITED(st)) return WEXITSTATUS(st) == 99 ? std::string("sanitizer error (process exit 99)") : strf("process exited with status %d", WEXITSTATUS(st));
	return "unknown status";
}

static std::string first_sanitizer_line(const std::string & err) {
	size_t p = err.find("ERROR: AddressSanitizer");
	if (p == std::string::npos) p = err.find("WARNING: ThreadSanitizer");
	if (p == std::string::npos) p = err.find("runtime error:");
	if (p == std::string::npos) p = err.find("terminate called");
	if (p == std::string::npos) return "";
	size_t e = err.find('\n', p);
	return err.substr(p, std::min<size_t>(e == std::string::npos ? 300 : e - p, 300));
}

static uint64_t cpu_ticks(pid_t p) {
	std::string s = read_file("/proc/" + std::to_string(p) + "/stat", 4096);
	size_t r = s.rfind(')'); if (r == std::string::npos) return 0;
	std::istringstream is(s.substr(r + 2)); std::string t; uint64_t u = 0, k = 0;
	for (int i = 3; i <= 15 && (is >> t); ++i) { if (i == 14) u = strtoull(t.c_str(), 0, 10); if (i == 15) k = strtoull(t.c_str(), 0, 10); }
	return u + k;
}

static void nap(double s) { timespec t; t.tv_sec = (time_t)s; t.tv_nsec = (long)((s - (time_t)s) * 1e9); nanosleep(&t, nullptr); }

static Outcome wait_one(pid_t p, Slot * slot, double hang_s, int & status) {
	double last = now(); uint64_t beat = slot->beat, len = slot->len;
	double dt = 0.0005;
	for (;;) {
		pid_t r = waitpid(p, &status, WNOHANG);
		if (r == p) break;
		if (r < 0) return INFRA;
		nap(dt); if (dt < 0.02) dt *= 1.3;
		if (slot->beat != beat || slot->len != len) { beat = slot->beat; len = slot->len; last = now(); }
		if (now() - last > hang_s) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &status, 0); return HANG; }
	}
	kill(-p, SIGKILL);
	if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return PASS;
	if (slot->failed) return FAILED;
	if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) return INFRA; // ended from outside (memory guard)
	return CRASH;
}

static Slot * g_shrinkSlot;

static Outcome replay_once(int scen, uint64_t idx, const std::vector<uint64_t> & choices, std::string & msg, std::string * errOut = nullptr, bool verbose = false, double hang = 0) {
	std::string dir = fresh_dir();
	std::string err = g_scratch + "/replay.err";
	g_verbose = verbose;
	std::vector<CaseId> cs(1, CaseId{scen, idx}); std::vector<uint64_t> gi(1, ~0ull);
	pid_t p = start_worker(cs, gi, &choices, g_shrinkSlot, dir, err.c_str());
	g_verbose = false;
	int st = 0; Outcome o = p < 0 ? INFRA : wait_one(p, g_shrinkSlot, hang > 0 ? hang : g_suite->scenarios[scen].hang_s, st);
	rm_rf(dir);
	std::string e = (o == CRASH || errOut) ? read_file(err, 1 << 20) : "";
	if (o == FAILED) msg = g_shrinkSlot->msg;
	else if (o == CRASH) { msg = describe_status(st); std::string l = first_sanitizer_line(e); if (!l.empty()) msg += ": " + l; }
	else if (o == HANG) msg = "hang: no progress";
	else msg.clear();
	if (errOut) *errOut = e;
	unlink(err.c_str());
	return o;
}

static std::vector<uint64_t> shrink(int scen, uint64_t idx, std::vector<uint64_t> best, double budget, int repeats = 1) {
	double end = now() + budget; int tries = 0; const int maxTries = 3000;
	std::string msg;
	auto attempt = [&](const std::vector<uint64_t> & c) -> bool {
		if (now() > end || tries >= maxTries) return false;
		++tries;
		Outcome o = PASS;
		for (int k = 0; k < repeats && o == PASS; ++k) o = replay_once(scen, idx, c, msg, nullptr, false, 10);
		if (o == FAILED || o == CRASH) {
			std::vector<uint64_t> used(g_shrinkSlot->choices, g_shrinkSlot->choices + std::min<uint64_t>(g_shrinkSlot->len, MAX_CHOICES));
			// keep the choices as really used (trimmed), if not larger
			best = used.size() <= c.size() ? used : c;
			return true;
		}
		return false;
	};
	bool progress = true;
	while (progress && now() < end && tries < maxTries) {
		progress = false;
		for (size_t sz = std::max<size_t>(1, best.size() / 2); sz >= 1; sz /= 2) {
			for (size_t i = best.size(); i > 0 && now() < end && tries < maxTries;) {
				size_t a = i > sz ? i - sz : 0;
				std::vector<uint64_t> c = best;
				if (a >= c.size()) { i = c.size(); if (!i) break; a = i > sz ? i - sz : 0; }
				c.erase(c.begin() + a, c.begin() + std::min(c.size(), a + sz));
				if (c.size() < best.size() && attempt(c)) { progress = true; i = std::min(a + 0, best.size()); }
				else i = a;
			}
			if (sz == 1) break;
		}
		for (size_t i = 0; i < best.size() && now() < end && tries < maxTries; ++i) {
			if (best[i] == 0) continue;
			std::vector<uint64_t> c = best; c[i] = 0;
			if (attempt(c)) { progress = true; continue; }
			uint64_t lo = 0, hi = i < best.size() ? best[i] : 0; // lo passes, hi fails
			int steps = 0;
			while (i < best.size() && hi - lo > 1 && steps++ < 20 && now() < end) {
				uint64_t mid = lo + (hi - lo) / 2; c = best; c[i] = mid;
				if (attempt(c)) { progress = true; if (i >= best.size()) break; hi = best[i]; } else lo = mid;
			}
		}
	}
	return best;
}

static std::string json_escape(const std::string & s) {
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r;
}

int run_forked(const std::function<void()> & fn) {
	pid_t p = fork();
	if (p < 0) return -1;
	if (!p) { fn(); if (__gcov_dump) __gcov_dump(); _exit(0); }
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	return st;
}

int main_loop(int argc, char ** argv, const Suite & suite) {
	g_suite = &suite;
	std::string out, replayFile, replayOut; double maxTime = 300; double scale = 1; std::string only; long onlyIdx = -1;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i]; auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--seed") g_seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--tier") g_thorough = val() == "thorough";
		else if (a == "--scratch") g_scratch = val();
		else if (a == "--out") out = val();
		else if (a == "--replay") replayFile = val();
		else if (a == "--replay-out") replayOut = val();
		else if (a == "--time") maxTime = atof(val().c_str());
		else if (a == "--scale") scale = atof(val().c_str());
		else if (a == "--workers") g_workers = atoi(val().c_str());
		else if (a == "--only") only = val();
		else if (a == "--index") onlyIdx = atol(val().c_str());
	}
	if (g_scratch.empty() || g_scratch[0] != '/') { fprintf(stderr, "--scratch needed\n"); return 2; }
	const auto & scs = suite.scenarios;
	if (scs.size() > (size_t)MAX_SCEN) return 2;

	// interleave the scenarios evenly
	std::vector<CaseId> cases;
	{
		std::vector<std::pair<double, CaseId>> v;
		for (size_t s = 0; s < scs.size(); ++s) {
			if (!only.empty() && only != scs[s].name) continue;
			uint64_t n = (uint64_t)((g_thorough ? scs[s].thorough : scs[s].quick) * scale + 0.5);
			unsigned b = std::max(1u, scs[s].batch);
			for (uint64_t k = 0; k < n; ++k) {
				if (onlyIdx >= 0 && (long)k != onlyIdx) continue;
				uint64_t batch = k / b;
				v.push_back(std::make_pair(((double)batch + 0.5) * b / n + s * 1e-9, CaseId{(int)s, k}));
			}
		}
		std::stable_sort(v.begin(), v.end(), [](const std::pair<double, CaseId> & a, const std::pair<double, CaseId> & b) { return a.first < b.first; });
		for (auto & x : v) cases.push_back(x.second);
	}
	size_t shsz = sizeof(Shared) + sizeof(uint64_t) * (cases.size() + 1);
	g_shared = (Shared *)mmap(0, shsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	g_slots = (Slot *)mmap(0, sizeof(Slot) * (g_workers + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (g_shared == MAP_FAILED || g_slots == MAP_FAILED) return 2;
	g_shared->nHashes = cases.size();
	g_shrinkSlot = &g_slots[g_workers];

	if (!replayFile.empty()) {
		std::string t = read_file(replayFile, 1 << 24); std::istringstream is(t); std::string line; std::string scen; std::vector<uint64_t> ch; uint64_t idx = 0;
		while (std::getline(is, line)) {
			if (line.compare(0, 10, "scenario: ") == 0) scen = line.substr(10);
			else if (line.compare(0, 7, "index: ") == 0) idx = strtoull(line.c_str() + 7, 0, 10);
			else if (line.compare(0, 6, "tier: ") == 0) g_thorough = line.substr(6) == "thorough";
			else if (line.compare(0, 9, "choices: ") == 0) { std::istringstream cs(line.substr(9)); uint64_t x; while (cs >> x) ch.push_back(x); }
			else if (line.compare(0, 9, "failure: ") == 0) g_leakCheck = line.find("when the case is repeated") != std::string::npos || line.find(LEAK) != std::string::npos;
			else if (line == "--- trace") break;
		}
		for (size_t s = 0; s < scs.size(); ++s) if (scen == scs[s].name) {
			std::string msg, err; Outcome o = replay_once((int)s, idx, ch, msg, &err, true);
			fprintf(stdout, "%s\noutcome: %s %s\n", err.c_str(), o == PASS ? "pass" : o == FAILED ? "fail" : o == CRASH ? "crash" : o == HANG ? "hang" : "infrastructure", msg.c_str());
			return o == PASS ? 0 : 1;
		}
		fprintf(stderr, "scenario not found\n"); return 2;
	}

	double t0 = now(); size_t next = 0; bool truncated = false; uint64_t infra = 0;
	struct W { pid_t pid = 0; std::string dir; std::vector<CaseId> cs; std::vector<uint64_t> gi; double last; uint64_t beat, len; uint64_t cpu; double cpuSince; unsigned polls; int retries = 0; };
	std::vector<W> ws(g_workers);
	struct Found { CaseId c; uint64_t g; Outcome o; std::string msg; std::vector<uint64_t> choices; bool idle; std::vector<CaseId> hist; };
	std::vector<Found> found;
	int hangsSeen = 0;
	auto launch = [&](int i) -> bool {
		W & w = ws[i];
		if (w.cs.empty()) {
			if (next >= cases.size() || !found.empty()) return false;
			if (now() - t0 > maxTime) { truncated = true; return false; }
			unsigned b = std::max(1u, scs[cases[next].scen].batch);
			int sc = cases[next].scen;
			while (next < cases.size() && w.cs.size() < b && cases[next].scen == sc) { w.cs.push_back(cases[next]); w.gi.push_back(next); ++next; }
		}
		w.dir = fresh_dir();
		std::string err = g_scratch + "/err" + std::to_string(i);
		w.pid = start_worker(w.cs, w.gi, nullptr, &g_slots[i], w.dir, err.c_str());
		if (w.pid < 0) { w.pid = 0; fprintf(stderr, "fork failed\n"); return false; }
		w.last = now(); w.beat = g_slots[i].beat; w.len = 0; w.cpu = 0; w.cpuSince = now(); w.polls = 0;
		return true;
	};
	int active = 0;
	for (int i = 0; i < g_workers; ++i) if (launch(i)) ++active;
	while (active) {
		bool any = false;
		for (int i = 0; i < g_workers; ++i) {
			W & w = ws[i]; if (!w.pid) continue;
			Slot & sl = g_slots[i]; int st = 0;
			pid_t r = waitpid(w.pid, &st, WNOHANG);
			Outcome o = PASS; bool done = false; bool idle = false;
			if (r == w.pid) {
				done = true;
				if (WIFEXITED(st) && WEXITSTATUS(st) == 0) o = PASS;
				else if (sl.failed) o = FAILED;
				else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) o = INFRA;
				else o = CRASH;
			} else {
				double t = now();
				if (sl.beat != w.beat || sl.len != w.len) { w.beat = sl.beat; w.len = sl.len; w.last = t; w.cpuSince = t; w.cpu = cpu_ticks(w.pid); w.polls = 0; }
				else {
					++w.polls;
					if (t - w.last > 5) { uint64_t c = cpu_ticks(w.pid); if (c != w.cpu) { w.cpu = c; w.cpuSince = t; } }
					double lim = scs[w.cs[0].scen].hang_s;
					if (t - w.last > lim && w.polls > 200) {
						idle = t - w.cpuSince > lim * 0.8;
						kill(-w.pid, SIGKILL); kill(w.pid, SIGKILL); waitpid(w.pid, &st, 0); done = true; o = HANG;
					}
				}
			}
			if (!done) continue;
			any = true;
			kill(-w.pid, SIGKILL);
			rm_rf(w.dir); w.pid = 0; --active;
			if (o == INFRA) {
				++infra;
				if (w.retries++ < 2) { if (launch(i)) ++active; continue; }
				found.push_back(Found{w.cs[0], w.gi[0], INFRA, "worker killed repeatedly from outside", {}, false, {}});
			} else if (o != PASS) {
				uint64_t g = sl.cur; CaseId c = w.cs[0]; std::vector<CaseId> hist;
				for (size_t k = 0; k < w.gi.size(); ++k) { hist.push_back(w.cs[k]); if (w.gi[k] == g) { c = w.cs[k]; break; } }
				std::string msg = o == FAILED ? std::string(sl.msg) : o == HANG ? std::string("hang: no progress") : describe_status(st);
				if (o == CRASH) { std::string l = first_sanitizer_line(read_file(g_scratch + "/err" + std::to_string(i), 1 << 20)); if (!l.empty()) msg += ": " + l; }
				found.push_back(Found{c, g, o, msg, std::vector<uint64_t>(sl.choices, sl.choices + std::min<uint64_t>(sl.len, MAX_CHOICES)), idle, hist});
				if (o == HANG) ++hangsSeen;
			}
			w.cs.clear(); w.gi.clear(); w.retries = 0;
			if (launch(i)) ++active;
		}
		if (!any) nap(0.002);
		if (!found.empty()) {
			// a failure: let the others finish their current batch only if it ends soon; otherwise stop them
			double e = now() + 5;
			for (int i = 0; i < g_workers; ++i) if (ws[i].pid) {
				int st; while (waitpid(ws[i].pid, &st, WNOHANG) == 0 && now() < e) nap(0.005);
				kill(-ws[i].pid, SIGKILL); kill(ws[i].pid, SIGKILL); waitpid(ws[i].pid, &st, 0);
				rm_rf(ws[i].dir); ws[i].pid = 0; --active;
			}
			break;
		}
	}
	double searchTime = now() - t0;

	int rc = 0; std::string verdictMsg, replayPath;
	for (auto & f : found) {
		if (f.o == INFRA) { rc = 2; verdictMsg = f.msg; continue; }
		// confirm
		g_leakCheck = f.msg.find(LEAK) != std::string::npos || f.msg.find("when the case is repeated") != std::string::npos;
		std::string msg, m; int fails = 0, n = 3; Outcome last = f.o;
		if (f.o == HANG) n = 2;
		for (int k = 0; k < n; ++k) { Outcome o = replay_once(f.c.scen, f.c.idx, f.choices, m); if (o != PASS && o != INFRA) { ++fails; msg = m; last = o; } }
		std::vector<uint64_t> best = f.choices; std::string how;
		if (fails == n && last != HANG) {
			best = shrink(f.c.scen, f.c.idx, f.choices, g_thorough ? 90 : 45);
			how = "reproduced deterministically and shrunk";
			int again = 0; for (int k = 0; k < 3; ++k) { Outcome o = replay_once(f.c.scen, f.c.idx, best, m); if (o != PASS && o != INFRA) { ++again; msg = m; } }
			if (again < 3) { best = f.choices; how = strf("shrunk form failed %d of 3 replays; the unshrunk case is recorded", again); }
		} else if (f.o == HANG || last == HANG) {
			if (fails == 0 && !f.idle) { fprintf(stderr, "note: a slow case was not confirmed as a hang; ignored\n"); verdictMsg = "unconfirmed hang"; continue; }
			how = strf("hang; %d of %d replays confirm%s", fails, n, f.idle ? "; the process was idle (deadlock)" : "");
			if (fails == 0) msg = f.msg;
		} else {
			// schedule dependent or dependent on earlier cases of the same process
			int more = 20, f2 = 0; double end = now() + 60;
			for (int k = 0; k < more && now() < end; ++k) { Outcome o = replay_once(f.c.scen, f.c.idx, f.choices, m); if (o != PASS && o != INFRA) { ++f2; msg = m; } }
			if (msg.empty()) msg = f.msg;
			if (fails + f2 >= 5) best = shrink(f.c.scen, f.c.idx, f.choices, g_thorough ? 120 : 60, 6);
			how = strf("schedule- or history-dependent: %d of %d single replays fail; found while running cases", fails + f2, n + more);
			for (auto & h : f.hist) how += strf(" %llu", (unsigned long long)h.idx);
		}
		std::string trace; replay_once(f.c.scen, f.c.idx, best, m, &trace, true);
		if (msg.empty()) msg = f.msg;
		if (!replayOut.empty()) {
			FILE * fp = fopen(replayOut.c_str(), "w");
			if (fp) {
				fprintf(fp, "property: %s\nscenario: %s\ntier: %s\nseed: %llu\nindex: %llu\nfailure: %s\nfirst seen as: %s\nhow: %s\nchoices:", suite.property, scs[f.c.scen].name, g_thorough ? "thorough" : "quick", (unsigned long long)g_seed, (unsigned long long)f.c.idx, msg.c_str(), f.msg.c_str(), how.c_str());
				for (uint64_t x : best) fprintf(fp, " %llu", (unsigned long long)x);
				fprintf(fp, "\n--- trace\n%s\n", trace.substr(0, 60000).c_str());
				fclose(fp);
			}
		}
		rc = 1; verdictMsg = std::string(scs[f.c.scen].name) + ": " + msg;
		break;
	}

	uint64_t evals = 0; std::set<uint64_t> distinct; uint64_t nontriv = 0;
	std::vector<uint64_t> per(scs.size()), perNt(scs.size());
	for (size_t i = 0; i < cases.size(); ++i) { uint64_t h = g_shared->hashes[i]; if (h) { ++evals; per[cases[i].scen]++; } if (h > 1) { ++nontriv; perNt[cases[i].scen]++; distinct.insert(h); } }
	evals += found.size();
	std::map<std::string, uint64_t> labels;
	for (int i = 0; i < g_workers; ++i) for (int k = 0; k < g_slots[i].nlabels; ++k) labels[g_slots[i].labels[k].name] += g_slots[i].labels[k].count;
	if (rc == 0 && !verdictMsg.empty() && evals < cases.size() / 2) rc = 2;
	if (rc == 0 && truncated && evals < cases.size() / 4) { rc = 2; verdictMsg = "time cap reached before a quarter of the planned cases ran"; }
	std::string j = "{\n";
	j += strf("\"rc\": %d, \"message\": \"%s\",\n\"planned\": %zu, \"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %zu, \"truncated\": %s, \"infra_retries\": %llu, \"search_s\": %.2f,\n",
		rc, json_escape(verdictMsg).c_str(), cases.size(), (unsigned long long)evals, (unsigned long long)nontriv, distinct.size(), truncated ? "true" : "false", (unsigned long long)infra, searchTime);
	j += "\"rule\": \"" + json_escape(suite.rule) + "\",\n\"scenarios\": {";
	for (size_t s = 0; s < scs.size(); ++s) j += strf("%s\"%s\": {\"cases\": %llu, \"nontrivial\": %llu}", s ? ", " : "", scs[s].name, (unsigned long long)per[s], (unsigned long long)perNt[s]);
	j += "},\n\"labels\": {";
	bool first = true; for (auto & l : labels) { j += strf("%s\"%s\": %llu", first ? "" : ", ", json_escape(l.first).c_str(), (unsigned long long)l.second); first = false; }
	j += "},\n\"samples\": ["; first = true;
	for (size_t s = 0; s < scs.size(); ++s) for (int k = 0; k < SAMPLES; ++k) if (g_shared->samples[s][k][0]) { j += std::string(first ? "" : ", ") + "\"" + json_escape(g_shared->samples[s][k]) + "\""; first = false; }
	j += "]\n}\n";
	if (!out.empty()) { FILE * f = fopen(out.c_str(), "w"); if (f) { fputs(j.c_str(), f); fclose(f); } } else fputs(j.c_str(), stdout);
	if (rc == 1) fprintf(stdout, "failure: %s\n", verdictMsg.c_str());
	return rc;
}

} // namespace pbt
