// TCP receive buffer: arbitrary deliveries into the offered space, arbitrary consumption by the session; the session must always see exactly the received bytes it has not consumed
#include "oracle.hpp"
#include "bomba_core.hpp"
#include "bomba_tcp_server.hpp"
using namespace Bomba;
struct Stream : ITcpServerSession {
	std::string received; size_t consumed = 0; int mode = 0, parsed = 0, fed = 0; size_t want = 0; bool disconnected = false, pending = false; std::string trace;
	std::pair<ServerReaction, int> feedToResponder(std::span<char> data) override {
		fed++; CHECK(!pending, "notified", "a parsed message was not announced" + trace); std::string_view expect = std::string_view(received).substr(consumed); CHECK(data.size() == expect.size(), "contents", std::to_string(data.size()) + " bytes shown instead of " + std::to_string(expect.size()) + trace); if (data.size() == expect.size()) CHECK(!memcmp(data.data(), expect.data(), expect.size()), "contents", "other bytes shown" + trace);
		CHECK(!expect.empty(), "empty", "called without anything to read" + trace); CHECK(!disconnected, "disconnected", "called after asking to disconnect" + trace); if (expect.empty() || data.size() != expect.size()) throw 1;
		for (char& c : data) c ^= 0; // may be written
		if (O::chance(1) && O::chance(20)) { disconnected = true; trace += " disconnect"; return {ServerReaction::DISCONNECT, 0}; }
		if (expect.size() < want) { trace += " wait" + std::to_string(want); return {O::chance(95) ? ServerReaction::READ_ON : ServerReaction::WRONG_REPLY, O::chance(50) ? 0 : (int)O::below(5)}; }
		size_t n = std::max<size_t>(want, 1); consumed += n; pending = true; trace += " take" + std::to_string(n); next(); return {ServerReaction::OK, (int)n}; }
	void next() { static const int sizes[] = {1, 2, 100, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3071, 3072, 3073, 4096, 5120, 6143, 6144, 6145, 9216, 20000}; switch (mode) { case 0: want = 1 + O::below(300); break; case 1: want = sizes[O::below(20)]; break; case 2: want = O::chance(80) ? 1 + O::below(2000) : 1 + O::below(12000); break; default: want = O::chance(50) ? 1 + O::below(50) : sizes[O::below(20)] + O::below(3) - 1; if (!want) want = 1; } }
	void notifyMessageWasParsed() override { CHECK(pending, "notified", "announced although nothing was parsed" + trace); pending = false; } };
static void one() {
	Stream s; s.mode = O::below(4); s.next(); auto b = std::make_unique<TcpServerBuffer>(); int rounds = 3 + O::below(60), fill = O::below(4);
	for (int i = 0; i < rounds; i++) { auto sp = b->space(); CHECK(sp.size() > 0, "space", "no space offered" + s.trace); if (sp.empty()) return;
		size_t n = fill == 0 ? sp.size() : fill == 1 ? 1 + O::below(sp.size()) : fill == 2 ? std::min<size_t>(sp.size(), 1 + O::below(200)) : O::chance(70) ? sp.size() : 1 + O::below(sp.size());
		if (O::chance(30) && s.want > s.received.size() - s.consumed) n = std::min(n, s.want - (s.received.size() - s.consumed) + (O::chance(50) ? 0 : O::below(3)));
		for (size_t k = 0; k < n; k++) { char c = (char)O::rnd(); sp[k] = c; s.received += c; } for (size_t k = n; k < sp.size() && k < n + 3; k++) sp[k] = (char)O::rnd();
		s.trace += " +" + std::to_string(n); if (s.trace.size() > 3000) s.trace.erase(0, 1500); int fed = s.fed; O::current("stream", s.trace);
		if (O::chance(1) && O::chance(10)) { CHECK(!b->receive(s, {}, 0), "end", "goes on after the end of the stream"); CHECK(s.fed == fed, "end", "read after the end of the stream"); return; }
		if (O::chance(1) && O::chance(10)) { CHECK(!b->receive(s, std::make_error_code(std::errc::io_error), n), "end", "goes on after an error"); return; }
		bool go = false; try { go = b->receive(s, {}, n); } catch (int) { return; } CHECK(!s.pending, "notified", "the last message was not announced"); CHECK(s.fed > fed, "fed", "received bytes were not shown" + s.trace); CHECK(go == !s.disconnected, "goon", (go ? "goes on" : "ends") + s.trace); CHECK(s.disconnected || s.consumed == s.received.size() || s.received.size() - s.consumed < s.want, "fed", "a complete message was left unread" + s.trace); if (!go) return; }
}
int O::run() { O::phase(1, one); return 0; }
