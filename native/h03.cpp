#include "hcommon.hpp"
// every complete request has exactly one response, well formed, with the length of its body
template <typename Buffer> static void respond() {
	H::Responder re; H::Action a = H::action(); re.decide = [&] (const H::Seen&) { return a; }; HttpServer<Buffer> server(re, re); auto ses = server.getSession();
	int rounds = 1 + O::below(4);
	for (int i = 0; i < rounds; i++) {
		a = H::action(); H::Request r = H::request(); std::string out; int kind = a.kind;
		O::current("response", std::to_string(a.kind) + " " + a.type + " " + std::to_string(a.body.size()) + " " + r.text); O::Exact e(r.text);
		try { auto [reaction, n] = ses.respond(std::span<char>(e.p, e.n), [&] (std::span<const char> o) { out.append(o.data(), o.size()); });
			CHECK(reaction == (r.close ? ServerReaction::DISCONNECT : ServerReaction::OK), "reaction", "reaction " + std::to_string((int)reaction));
		} catch (std::exception& x) { O::fail("exception", std::string("exception escaped: ") + x.what()); return; }
		std::string_view s = out; std::string why; auto got = H::readOne(s, why);
		if (!got) { O::fail("wellformed", why + " in " + O::esc(out, 300)); return; }
		CHECK(s.empty(), "one", std::to_string(s.size()) + " bytes behind the response: " + O::esc(s, 100));
		int want = !r.supported() ? 501 : kind <= 1 ? 200 : kind == 2 ? 204 : kind == 3 ? (r.method == "GET" ? 404 : 400) : 500;
		CHECK(got->code == want, "code", "code " + std::to_string(got->code) + " instead of " + std::to_string(want));
		if (want == 200) { CHECK(got->body == a.body, "body", "body of " + std::to_string(got->body.size()) + " bytes differs from the " + std::to_string(a.body.size()) + " written"); CHECK(got->headers["content-type"] == a.type, "type", "type " + got->headers["content-type"]); }
		if (r.close) return;
	}
}
// sizes that are announced only: the header is right for any size
struct Announce : IHttpGetResponder { int64_t n; bool get(std::string_view, IWriteStarter& w) override { w.writeKnownSize("a/b", n, [] (GeneralisedBuffer&) {}); return true; } };
static void announced() {
	Announce r; r.n = O::chance(50) ? (int64_t)(O::rnd() >> (1 + O::below(63))) : std::vector<int64_t>{0, 9, 10, 99, 100, 2147483647, 2147483648ll, 4294967295ll, 4294967296ll, 9999999999ll, 10000000000ll, INT64_MAX}[O::below(12)];
	HttpServer<> server(r); auto ses = server.getSession(); std::string q = "GET / HTTP/1.1\r\n\r\n", out; O::Exact e(q); O::current("announced", std::to_string(r.n));
	ses.respond(std::span<char>(e.p, e.n), [&] (std::span<const char> o) { out.append(o.data(), o.size()); });
	std::string want = std::to_string(r.n); auto p = out.find("Content-Length:"); if (p == out.npos) { O::fail("announced", "no length"); return; } std::string v = out.substr(p + 15, out.find("\r\n", p) - p - 15); while (!v.empty() && v[0] == ' ') v.erase(0, 1); while (!v.empty() && v.back() == ' ') v.pop_back();
	CHECK(v == want, "announced", "announced " + v + " instead of " + want); CHECK(out.size() >= 4 && out.substr(out.size() - 4) == "\r\n\r\n", "announced", "header does not end"); }
// an exception after a part was sent: no second response in the middle of the first one
struct Partly : IHttpGetResponder { std::string body; size_t after; bool get(std::string_view, IWriteStarter& w) override { w.writeKnownSize("a/b", body.size(), [&] (GeneralisedBuffer& b) { b += std::string_view(body).substr(0, after); throw std::runtime_error("x"); }); return true; } };
static void partly() {
	Partly r; r.body = std::string(1 + O::below(3000), 'z'); r.after = O::below(r.body.size()); HttpServer<> server(r); auto ses = server.getSession(); std::string q = "GET / HTTP/1.1\r\n\r\n", out; O::Exact e(q); O::current("partly", std::to_string(r.body.size()) + "/" + std::to_string(r.after));
	auto [reaction, n] = ses.respond(std::span<char>(e.p, e.n), [&] (std::span<const char> o) { out.append(o.data(), o.size()); });
	if (out.find("200 OK") != out.npos) { CHECK(reaction == ServerReaction::DISCONNECT, "partly", "connection goes on after an incomplete response"); CHECK(out.find("HTTP/1.1", 8) == out.npos, "partly", "a second response follows: " + O::esc(out, 300)); }
}
static void simple() { SimpleGetResponder r; std::string body = O::bytes(3000); r.resource = body; std::string type = O::chance(50) ? "text/html" : "image/png"; r.resourceType = type; HttpServer<> server(r); auto ses = server.getSession(); std::string q = "GET /x HTTP/1.1\r\n\r\n", out; O::Exact e(q); O::current("simple", body);
	ses.respond(std::span<char>(e.p, e.n), [&] (std::span<const char> o) { out.append(o.data(), o.size()); }); std::string_view s = out; std::string why; auto got = H::readOne(s, why); if (!got) { O::fail("simple", why); return; } CHECK(s.empty() && got->code == 200 && got->body == body && got->headers["content-type"] == type, "simple", "a simple resource differs"); }
static void large() { for (size_t n : {999999u, 1000000u, 9999999u, 10000000u, 99999999u, 100000000u}) { // lengths of more digits
	SimpleGetResponder r; std::string body(n, 'l'); r.resource = body; r.resourceType = "a/b"; struct Unknown : IHttpGetResponder { std::string_view b; bool get(std::string_view, IWriteStarter& w) override { w.writeUnknownSize("a/b", [&] (GeneralisedBuffer& o) { o += b; }); return true; } } u; u.b = body;
	for (IHttpGetResponder* g : {(IHttpGetResponder*)&r, (IHttpGetResponder*)&u}) { HttpServer<> server(*g); auto ses = server.getSession(); std::string q = "GET /x HTTP/1.1\r\n\r\n", out; out.reserve(n + 1000); O::Exact e(q); O::current("large", std::to_string(n));
	ses.respond(std::span<char>(e.p, e.n), [&] (std::span<const char> o) { out.append(o.data(), o.size()); }); std::string_view s = out; std::string why; auto got = H::readOne(s, why); if (!got) { O::fail("large", std::to_string(n) + " bytes: " + why); return; } CHECK(s.empty() && got->code == 200 && got->body == body && got->headers["content-type"] == "a/b", "large", "a large resource differs"); } } }
int O::run() { large();  O::phase(0.95, [] { respond<ExpandingBuffer<1024>>(); respond<ExpandingBuffer<1>>(); respond<ExpandingBuffer<64>>(); announced(); partly(); simple(); }); return 0; }
