// Shared by the workloads.
#pragma once
#include "rt.h"
#include <basiclog.h>
#include <basicsys.h>
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <string.h>
#include <stdlib.h>
using namespace basiclog;
using namespace basicsys;

// Starts simulated application threads and waits for them.
struct Threads {
	std::vector<std::function<void()>*> fns; std::vector<int> ids;
	static void entry(void* p) { (*(std::function<void()>*)p)(); }
	void start(std::function<void()> f) { fns.push_back(new std::function<void()>(f)); ids.push_back(sim::spawn(entry, fns.back())); }
	void join() { for (size_t i = 0; i < ids.size(); ++i) sim::join(ids[i]); ids.clear(); }
};

inline sim::u64 hash_bytes(const void* p, size_t n, sim::u64 h = 1469598103934665603ull) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull; return h; }
inline sim::u64 hash_str(const std::string& s, sim::u64 h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }

// A logger that keeps what it is given (in harness memory).
struct CaptureLogger : public basiclog::log_logger {
	std::vector<std::string> out; std::vector<int> by; bool yields; bool keep;
	CaptureLogger(bool keep_ = true) : yields(true), keep(keep_) {}
protected:
	virtual void print(const std::string& log_info) {
		if (yields) sim::yield_point();
		sim::Quiet q;
		if (keep) { out.push_back(std::string(log_info.data(), log_info.size())); by.push_back(sim::self()); }
	}
};

inline std::string quote(const std::string& s, size_t max = 120) {
	std::string o = "\""; for (size_t i = 0; i < s.size() && i < max; ++i) { unsigned char c = s[i]; if (c < 32 || c > 126 || c == '"') { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; }
	if (s.size() > max) o += "..."; return o + "\"";
}
