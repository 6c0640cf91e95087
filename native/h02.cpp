#include "hcommon.hpp"
static void feed(const std::string& s, const char* key, int rounds = 1) {
	H::Responder re; re.decide = [] (const H::Seen&) { return H::action(); }; HttpServer<> server(re, re); auto ses = server.getSession(); std::string rest = s; O::current(key, s);
	for (int i = 0; i < rounds; i++) {
		O::Exact e(rest); size_t before = re.seen.size(); std::string out; int calls = 0; bool inside = true, blank = true;
		auto decide = re.decide; 
		try { auto [reaction, consumed] = ses.respond(std::span<char>(e.p, e.n), [&] (std::span<const char> o) { out.append(o.data(), o.size()); });
			CHECK(reaction == ServerReaction::OK || reaction == ServerReaction::READ_ON || reaction == ServerReaction::DISCONNECT, "reaction", "reaction " + std::to_string((int)reaction));
			CHECK(re.seen.size() <= before + 1, "twice", "one call answered several requests");
			if (reaction == ServerReaction::OK) { CHECK(consumed > 0 && consumed <= (int64_t)e.n, "consumed", "consumed " + std::to_string(consumed) + " of " + std::to_string(e.n)); CHECK(!out.empty(), "answer", "nothing was answered"); }
			if (reaction == ServerReaction::READ_ON) CHECK(out.empty() && re.seen.size() == before, "early", "answered and asked for more");
			if (re.seen.size() > before) { auto& g = re.seen.back(); CHECK(g.pathAt >= e.p && g.pathAt + g.path.size() <= e.p + e.n, "path", "path outside the input");
				CHECK(reaction != ServerReaction::READ_ON, "early", "answered and asked for more");
				if (g.bodyAt) { CHECK(g.bodyAt >= e.p + 4 && g.bodyAt + g.body.size() <= e.p + e.n, "body", "body outside the input"); CHECK(g.bodyAt[-1] == '\n' && g.bodyAt[-2] == '\r', "blank", "no blank line before the body"); } 
				CHECK(std::string_view(e.p, e.n).find("\r\n") != std::string_view::npos, "blank", "answered without a complete line"); }
			if (reaction == ServerReaction::DISCONNECT) break;
			if (reaction == ServerReaction::OK) rest = std::string(e.view().substr(consumed)); else rest = std::string(e.view()) + O::bytes(20, "\r\n: abc0"); 
		} catch (std::exception& x) { O::fail("exception", std::string("exception escaped: ") + x.what()); return; }
	}
}
// a request that is broken in one known way is not answered as if it were right
static void broken() {
	H::Request r = H::request(false); std::string line = r.method + " " + r.path + " HTTP/1.1\r\n"; auto answer = [] (const std::string& s, bool may501, const char* key) {
		H::Responder re; HttpServer<> server(re, re); auto ses = server.getSession(); O::Exact e(s); std::string out; O::current(key, s);
		auto [reaction, n] = ses.respond(std::span<char>(e.p, e.n), [&] (std::span<const char> o) { out.append(o.data(), o.size()); });
		CHECK(re.seen.empty(), key, "the responder was called"); if (!may501) CHECK(reaction == ServerReaction::DISCONNECT && out.empty(), key, "reaction " + std::to_string((int)reaction) + ", answer " + O::esc(out, 40)); else CHECK(out.substr(0, 13) == "HTTP/1.1 501 ", key, "answer " + O::esc(out, 40)); };
	std::string v = std::vector<std::string>{"-1", "-5", "-2147483648", "99999999999", "2147483647", "2000000000", "1073741824", "abc", "", "--3", "4294967297"}[O::below(11)], body = O::bytes(20);
	answer(line + H::anyCase("Content-Length") + ": " + v + "\r\n\r\n" + body, false, "length");
	answer(line + "Host: a\r\n" + "Content-Length: " + v + "\r\nAccept: b\r\n\r\n" + body, false, "length");
	answer("POST /p HTTP/1.1\r\n" + std::string(O::chance(50) ? "Host: x\r\n" : "") + "\r\n" + body, false, "nolength");
	answer(r.method + " " + r.path + " HTTP/1.1\r" + std::string(1, "xX: "[O::below(4)]) + "Host: x\r\n\r\n" + body, false, "lineend");
	answer(line + "Host: x\r\n\r" + std::string(1, "xX: "[O::below(4)]) + body, false, "lineend");
	answer(line + "no colon" + (O::chance(50) ? "" : " here") + "\r\n\r\n" + body, false, "nocolon");
	answer(std::vector<std::string>{"", "GET", "GET /", "GET ", " ", "POST", "x", "HTTP/1.1", "GET /HTTP/1.1", "  "}[O::below(10)] + "\r\nHost: x\r\n\r\n", true, "firstline");
	answer("GET " + r.path + " " + std::vector<std::string>{"", "HTTP/2", "HTTP/1.", "HTTP/1.1 ", "http/1.1", " HTTP/1.1"}[O::below(6)] + "\r\nHost: x\r\n\r\n", true, "protocol");
}
int O::run() {
	for (const char* s : {"\r", "\n", "\r\n", "\r\n\r\n", "\r\n\r", " \r\n\r\n", "GET", "GET\r\n\r\n", "GET \r\n\r\n", "GET /\r\n\r\n", "GET  \r\n\r\n", "POST / HTTP/1.1\r\nContent-Length:\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: \r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 5\r\n\r\nabcd", "GET / HTTP/1.1\r\nX", "GET / HTTP/1.1\r\nX:", "GET / HTTP/1.1\r\nX:y", "GET / HTTP/1.1\r\nX:y\r", "GET / HTTP/1.1\r\nX:y\r\n", "GET / HTTP/1.1\r\nX:y\r\n\r", "GET / HTTP/1.1\r\n:\r\n\r\n", "GET / HTTP/1.1\r\n \r\n\r\n"}) for (int i = 0; i < 5; i++) feed(s, "fixed", 3);
	O::phase(0.2, [] { for (int i = 0; i < 20; i++) feed(O::bytes(60, "\r\n: GETPOST/HTTP1.Content-Length0123\t"), "alphabet", 3); });
	O::phase(0.1, [] { for (int i = 0; i < 20; i++) feed(O::bytes(60), "random", 2); });
	O::phase(0.4, [] { for (int i = 0; i < 20; i++) { auto s = O::mutate(H::request().text); if (O::chance(30)) s.resize(O::below(s.size() + 1)); feed(s, "mutated", 4); } });
	O::phase(0.25, [] { for (int i = 0; i < 5; i++) broken(); });
	return 0;
}
