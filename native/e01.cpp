#include "oracle.hpp"
#include <charconv>
#include "bomba_core.hpp"
#include "bomba_json.hpp"
using namespace Bomba;
static std::string piece() { int k = O::below(10); return k < 5 ? O::bytes(20) : k < 8 ? O::bytes(1 + O::below(3) * 700) : k == 8 ? std::string(1 + O::below(5000), char(O::rnd())) : std::string(1, char(O::rnd())); }
template <typename B> void add(B& b, const std::string& p) { // any way of appending
	O::Exact e(p);
	switch (O::below(p.size() == 1 ? 5 : 3)) {
		case 0: b += e.view(); break;
		case 1: b += std::span<const char>(e.p, e.n); break;
		case 2: if (p.find('\0') == std::string::npos) { b += p.c_str(); break; } b += e.view(); break;
		default: b += p[0];
	}
}
template <int N> std::string script(std::vector<std::string>& ps) { std::string all; int n = O::below(8); for (int i = 0; i < n; i++) { auto p = O::chance(30) ? std::string(std::min<size_t>(3000, size_t(N) - (N > 1 ? O::below(2) : 0)), char('a' + i)) : O::chance(20) ? std::string(size_t(N - int(all.size() % N)), char('A' + i)) : piece(); ps.push_back(p); all += p; } return all; }
template <int N> void expanding() {
	ExpandingBuffer<N> b; int rounds = 1 + O::below(3);
	for (int r = 0; r < rounds; r++) {
		std::vector<std::string> ps; std::string all = script<N>(ps), sofar; O::current("expanding", std::to_string(N) + ":" + all);
		for (auto& p : ps) { add(b, p); sofar += p; if (O::chance(40)) { std::string_view v = b; CHECK(v == sofar && b.size() == (int)sofar.size(), "expanding", "contents are lost after " + std::to_string(sofar.size()) + " bytes, size " + std::to_string(b.size())); } }
		std::string_view v = b; std::span<char> s = b;
		CHECK(v == all, "expanding", "contents differ, " + std::to_string(v.size()) + " bytes instead of " + std::to_string(all.size())); CHECK(std::string_view(s.data(), s.size()) == all, "expanding", "the span differs from what was written"); CHECK(b.size() == (int)all.size(), "size", "size " + std::to_string(b.size()) + " instead of " + std::to_string(all.size()));
		b.clear(); std::string_view e = b; CHECK(e.empty() && b.size() == 0, "clear", "not empty after clear");
	}
}
template <int N> void fixed() {
	NonExpandingBuffer<N> b; int rounds = 1 + O::below(3);
	for (int r = 0; r < rounds; r++) {
		std::vector<std::string> ps; std::string all = script<N>(ps); O::current("fixed", std::to_string(N) + ":" + all);
		for (auto& p : ps) add(b, p);
		std::string want = all.substr(0, N); std::string_view v = b; std::span<char> s = b;
		CHECK(v == want, "fixed", "holds " + std::to_string(v.size()) + " bytes that differ from the first " + std::to_string(want.size())); CHECK(s.data() == v.data() && s.size() == v.size(), "fixed", "views differ"); CHECK(b.size() == (int)want.size(), "size", "size " + std::to_string(b.size()) + " instead of " + std::to_string(want.size()));
		b.clear(); std::string_view e = b; CHECK(e.empty() && b.size() == 0, "clear", "not empty after clear");
	}
}
template <int N> struct Collect : StreamingBuffer<N> { std::string& got; int flushes = 0; Collect(std::string& g) : got(g) {} void flush() override { got.append(this->_basic.data(), this->size() - this->_sizeAtLastFlush); this->_sizeAtLastFlush = this->size(); flushes++; } };
template <int N> void streaming() {
	std::vector<std::string> ps; std::string all = script<N>(ps), got; O::current("streaming", std::to_string(N) + ":" + all);
	auto write = [&] (std::span<const char> s) { CHECK(s.size() > 0 && s.size() <= N, "streaming", "chunk of " + std::to_string(s.size()) + " bytes"); got.append(s.data(), s.size()); };
	{ NonOwningStreamingBuffer<N> b(write); int sofar = 0;
		for (auto& p : ps) { add(b, p); sofar += p.size(); CHECK(b.size() == sofar, "size", "size " + std::to_string(b.size()) + " instead of " + std::to_string(sofar)); CHECK(sofar - (int)got.size() <= N, "streaming", "more is kept back than fits"); CHECK(all.compare(0, got.size(), got) == 0, "streaming", "what was passed on differs"); if (O::chance(20)) { } } }
	CHECK(got == all, "streaming", "passed on " + std::to_string(got.size()) + " bytes instead of " + std::to_string(all.size()));
	std::string got2; { Collect<N> c(got2); for (auto& p : ps) add(c, p); CHECK(c.size() == (int)all.size(), "size", "stream size"); c.flush(); CHECK(got2 == all, "streaming", "derived buffer differs"); }
}
static void through() { // formats write into any of them alike
	std::string a; BasicJson<std::string>::Output o(a); ExpandingBuffer<16> b; BasicJson<std::string, ExpandingBuffer<16>>::Output p(b); std::string got; auto F = SerialisationFlags::NONE; auto write = [&] (std::span<const char> s) { got.append(s.data(), s.size()); };
	O::current("format", "");
	{ NonOwningStreamingBuffer<7> c(write); BasicJson<std::string, GeneralisedBuffer>::Output q(c); uint64_t seed = O::rnd();
	auto go = [&] (IStructuredOutput& x) { uint64_t keep = O::seedState; O::seedState = seed; int n = O::below(6); x.startWritingArray(F, n); for (int i = 0; i < n; i++) { x.introduceArrayElement(F, i); if (O::chance(50)) x.writeInt(F, O::rnd()); else x.writeString(F, O::bytes(30)); } x.endWritingArray(F); O::seedState = keep; };
	go(o); go(p); go(q); }
	std::string_view v = b; CHECK(v == a, "format", "expanding buffer differs from a string"); CHECK(got == a, "format", "stream differs from a string");
}
int O::run() { O::phase(0.95, [] { expanding<1>(); expanding<3>(); expanding<8>(); expanding<1024>(); fixed<1>(); fixed<8>(); fixed<1024>(); fixed<5>(); streaming<1>(); streaming<4>(); streaming<1024>(); through(); }); return 0; }
