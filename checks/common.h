// Shared glue between the engine and TPIE.
#pragma once
#include "pbt.h"
#include <tpie/tpie.h>
#include <tpie/tpie_log.h>
#include <tpie/memory.h>
#include <tpie/file_manager.h>
#include <tpie/stats.h>
#include <tpie/tempname.h>
#include <tpie/exception.h>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
#include <fcntl.h>
#include <string>
#include <vector>
#include <memory>

namespace tv {
using pbt::Src; using pbt::Ctx; using pbt::Rng;

// number of regular files below a directory
inline size_t count_files(const std::string & d) {
	size_t n = 0;
	if (DIR * dir = opendir(d.c_str())) {
		while (dirent * e = readdir(dir)) {
			std::string nm = e->d_name; if (nm == "." || nm == "..") continue;
			std::string p = d + "/" + nm; struct stat st;
			if (lstat(p.c_str(), &st) != 0) continue;
			if (S_ISDIR(st.st_mode)) n += count_files(p); else ++n;
		}
		closedir(dir);
	}
	return n;
}
inline std::vector<std::string> list_files(const std::string & d) {
	std::vector<std::string> r;
	if (DIR * dir = opendir(d.c_str())) {
		while (dirent * e = readdir(dir)) {
			std::string nm = e->d_name; if (nm == "." || nm == "..") continue;
			std::string p = d + "/" + nm; struct stat st;
			if (lstat(p.c_str(), &st) != 0) continue;
			if (S_ISDIR(st.st_mode)) { auto s = list_files(p); r.insert(r.end(), s.begin(), s.end()); } else r.push_back(p);
		}
		closedir(dir);
	}
	return r;
}
inline size_t open_fds() {
	size_t n = 0;
	if (DIR * dir = opendir("/proc/self/fd")) { while (readdir(dir)) ++n; closedir(dir); }
	return n;
}

// Baselines of the resource counters, compared after a case.
struct Resources {
	size_t mem, files, fds, tmp; tpie::stream_size_type tmpBytes;
	std::string dir;
	explicit Resources(const std::string & d) : dir(d + "/tmp") {
		mem = tpie::get_memory_manager().used(); files = tpie::get_file_manager().used();
		tmpBytes = tpie::get_temp_file_usage(); fds = open_fds(); tmp = count_files(dir);
	}
	void expect_same(Ctx & c, const char * when) {
		size_t m = tpie::get_memory_manager().used();
		PBT_CHECK(c, m == mem, "%s: %zu bytes of accounted memory in use, %zu before", when, m, mem);
		size_t f = tpie::get_file_manager().used();
		PBT_CHECK(c, f == files, "%s: %zu files counted as open, %zu before", when, f, files);
		size_t d = open_fds();
		PBT_CHECK(c, d == fds, "%s: %zu open file descriptors, %zu before", when, d, fds);
		size_t t = count_files(dir);
		PBT_CHECK(c, t == tmp, "%s: %zu temporary files on disk, %zu before", when, t, tmp);
	}
};

// Initialises TPIE once in this process (which runs one case, or a batch with the same block size).
inline void init_tpie(size_t blockSize, size_t memory = 256u << 20, bool jobs = true) {
	static bool done = false;
	if (done) return;
	done = true; tpie::log_bits::logging_disabled = true;
	tpie::set_block_size(blockSize);
	using namespace tpie;
	tpie::flags<tpie::subsystem> f = tpie::FILE_MANAGER | tpie::MEMORY_MANAGER | tpie::STREAMS | tpie::TEMPFILE;
	f = f | tpie::PROGRESS;
	if (jobs) f = f | tpie::JOB_MANAGER;
	tpie::tpie_init(f);
	tpie::get_memory_manager().set_limit(memory);
	tpie::get_memory_manager().set_enforcement(tpie::memory_manager::ENFORCE_IGNORE);
}
inline void finish_tpie() {
	tpie::flags<tpie::subsystem> f = tpie::FILE_MANAGER | tpie::MEMORY_MANAGER | tpie::STREAMS | tpie::TEMPFILE;
	tpie::tpie_finish(f | tpie::PROGRESS | tpie::JOB_MANAGER);
}

// plain-data items of several sizes; value v with tag, comparable
template <size_t N> struct item_t {
	unsigned char b[N];
	static item_t make(uint64_t v) {
		item_t r; uint64_t x = v * 0x9E3779B97F4A7C15ull + 1; unsigned char last = 0;
		for (size_t i = 0; i < N; ++i) { if (i < 8) r.b[i] = (unsigned char)(v >> (8 * i)); else { if (i % 8 == 0) x = x * 6364136223846793005ull + 1442695040888963407ull; last = (v & 1) ? (unsigned char)(x >> (8 * (i % 8))) : (unsigned char)v; r.b[i] = last; } }
		return r;
	}
	bool operator==(const item_t & o) const { return memcmp(b, o.b, N) == 0; }
	bool operator!=(const item_t & o) const { return !(*this == o); }
	bool operator<(const item_t & o) const { return memcmp(b, o.b, N) < 0; }
	std::string str() const { char t[64]; uint64_t v = 0; memcpy(&v, b, N < 8 ? N : 8); snprintf(t, 64, "%llu", (unsigned long long)v); return t; }
};

inline bool file_exists(const std::string & p) { struct stat st; return lstat(p.c_str(), &st) == 0; }

} // namespace tv
