// Executable oracle support: deterministic generation, failure reporting, crash and hang attribution.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <unordered_set>
#include <set>
#include <map>
#include <functional>
#include <memory>
#include <optional>
#include <algorithm>
#include <chrono>
#include <stdexcept>
#include <limits>
#include <cmath>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
namespace O {
inline uint64_t seedState = 1;
inline uint64_t rnd() { // splitmix64
	uint64_t z = (seedState += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}
inline uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
inline bool chance(int percent) { return below(100) < (uint64_t)percent; }
inline std::chrono::steady_clock::time_point deadline;
inline double budget = 10;
inline bool thorough = false;
inline uint64_t evaluations = 0, failures = 0, samplesPrinted = 0;
inline std::unordered_set<uint64_t> seen;
inline std::map<std::string, int> perKey;
inline char* currentBuf = nullptr;
inline std::string esc(std::string_view s, size_t limit = 400) {
	std::string r; char b[8];
	for (size_t i = 0; i < s.size() && i < limit; i++) { unsigned char c = s[i];
		if (c == '\\') r += "\\\\"; else if (c >= 0x20 && c < 0x7f) r += c; else { snprintf(b, 8, "\\x%02x", c); r += b; } }
	if (s.size() > limit) r += "...(" + std::to_string(s.size()) + " bytes)";
	return r;
}
inline uint64_t hash(std::string_view s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
// announce the case about to run: key (no spaces) and its input
inline void current(const char* key, std::string_view input) {
	evaluations++;
	seen.insert(hash(input) ^ hash(key));
	if (currentBuf) { int n = snprintf(currentBuf, 64, "%s ", key); std::string e = esc(input, 3000); size_t k = std::min<size_t>(e.size(), 3900 - n); memcpy(currentBuf + n, e.data(), k); currentBuf[n + k] = 0; }
	if (samplesPrinted < 6 && (evaluations & (evaluations - 1)) == 0 && evaluations > 2) { samplesPrinted++; printf("SAMPLE %s %s\n", key, esc(input, 200).c_str()); }
	alarm(thorough ? 60 : 20);
}
inline void fail(const std::string& key, const std::string& what) {
	failures++;
	if (perKey[key]++ < 3) { std::string w = what; for (auto& c : w) if (c == '\n') c = ' '; printf("FAIL %s | %s [case: %s]\n", key.c_str(), w.substr(0, 1500).c_str(), currentBuf ? std::string(currentBuf).substr(0, 1500).c_str() : ""); fflush(stdout); }
}
inline bool check(bool c, const std::string& key, const std::function<std::string()>& what) { if (!c) fail(key, what()); return c; }
#define CHECK(c, key, what) do { if (!(c)) O::fail(key, what); } while (0)
inline bool more() { return std::chrono::steady_clock::now() < deadline && failures < 200; }
// run a phase for a share of the remaining time
inline double share(double part) { return budget * part; }
template <typename F> void phase(double part, F f) {
	auto until = std::chrono::steady_clock::now() + std::chrono::microseconds((long)(budget * part * 1e6));
	while (std::chrono::steady_clock::now() < until && failures < 200) f();
}
// bytes in a heap block of exactly their size, so that any access outside is detected
struct Exact {
	char* p; size_t n;
	Exact(std::string_view s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); if (!n) { free(p); p = (char*)malloc(0); } }
	Exact(const Exact&) = delete;
	~Exact() { free(p); }
	std::string_view view() const { return {p, n}; }
};
inline std::string bytes(size_t maxLen, std::string_view alphabet = "") {
	std::string r; size_t n = below(4) ? below(std::min<size_t>(maxLen, 8) + 1) : below(maxLen + 1);
	for (size_t i = 0; i < n; i++) r += alphabet.empty() ? (char)rnd() : alphabet[below(alphabet.size())];
	return r;
}
// mutate a valid input
inline std::string mutate(std::string s) {
	int k = 1 + below(3);
	while (k--) switch (below(6)) {
		case 0: if (!s.empty()) s.erase(below(s.size()), 1 + below(3)); break;
		case 1: s.insert(below(s.size() + 1), 1, (char)rnd()); break;
		case 2: if (!s.empty()) s[below(s.size())] = (char)rnd(); break;
		case 3: if (!s.empty()) s.resize(below(s.size() + 1)); break;
		case 4: if (!s.empty()) { size_t a = below(s.size()), l = 1 + below(8); s.insert(below(s.size() + 1), s.substr(a, l)); } break;
		case 5: if (!s.empty()) { static const char* bits = "\"\\{}[],:0-9.eE+ \r\n\t/%&=?u"; s[below(s.size())] = bits[below(strlen(bits))]; } break;
	}
	return s;
}
inline void onAlarm(int) { const char m[] = "HANG\n"; (void)!write(2, m, sizeof m - 1); abort(); }
int run();
}
#ifndef NO_ORACLE_MAIN
int main(int argc, char** argv) {
	O::seedState = argc > 1 ? strtoull(argv[1], 0, 10) * 7919 + 1 : 1;
	O::thorough = argc > 2 && std::string(argv[2]) == "thorough";
	O::budget = argc > 3 ? atof(argv[3]) : 10;
	O::deadline = std::chrono::steady_clock::now() + std::chrono::microseconds((long)(O::budget * 1.5e6));
	signal(SIGALRM, O::onAlarm); signal(SIGPIPE, SIG_IGN);
	if (const char* f = getenv("NATIVE_CURRENT")) { int fd = open(f, O_RDWR | O_CREAT, 0600); if (fd >= 0 && ftruncate(fd, 4096) == 0) { void* m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m != MAP_FAILED) O::currentBuf = (char*)m; } }
	try { O::run(); } catch (std::exception& e) { O::fail("escaped", std::string("exception escaped: ") + e.what()); }
	printf("STATS evaluations=%llu distinct=%llu failures=%llu\n", (unsigned long long)O::evaluations, (unsigned long long)O::seen.size(), (unsigned long long)O::failures);
	fflush(stdout);
	_exit(0);
}
#endif
