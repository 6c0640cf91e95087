#include "hcommon.hpp"
struct Over {};
struct Net : ITcpClient { // as the interface describes it: hands over what has arrived, keeps identified messages
	std::string written, stream; size_t arrived = 0; int mode = 0; std::map<uint32_t, std::string> kept; int calls = 0;
	void writeRequest(std::span<char> w) override { written.append(w.data(), w.size()); }
	void getResponse(RequestToken token, Callback<std::tuple<ServerReaction, RequestToken, int64_t>(std::span<char>, bool)> reader) override {
		auto f = kept.find(token.id); if (f != kept.end()) { O::Exact e(f->second); auto [r, t, n] = reader(std::span<char>(e.p, e.n), true); CHECK(r != ServerReaction::READ_ON && r != ServerReaction::WRONG_REPLY, "kept", "reaction " + std::to_string((int)r) + " to a complete kept response"); kept.erase(f); return; }
		while (true) {
			if (++calls > 100000) throw Over();
			if (arrived == 0 || mode == 0) { if (stream.empty()) throw Over(); arrived = std::min(stream.size(), arrived + (mode == 2 ? stream.size() : 1 + O::below(O::chance(50) ? 3 : 60))); }
			O::Exact e(std::string_view(stream).substr(0, arrived)); auto [r, t, n] = reader(std::span<char>(e.p, e.n), false);
			if (r == ServerReaction::OK || r == ServerReaction::WRONG_REPLY) { CHECK(n >= 0 && n <= (int64_t)arrived, "consumed", "took " + std::to_string(n) + " of " + std::to_string(arrived)); if (n < 0 || n > (int64_t)arrived) throw Over(); }
			if (r == ServerReaction::WRONG_REPLY) { CHECK(!kept.count(t.id), "token", "two responses for a token"); kept[t.id] = stream.substr(0, n); stream.erase(0, n); arrived -= n; continue; }
			if (r == ServerReaction::OK) { stream.erase(0, n); arrived -= n; return; }
			if (r == ServerReaction::DISCONNECT) return;
			if (arrived >= stream.size()) throw Over(); arrived = std::min(stream.size(), arrived + 1 + O::below(60)); if (mode == 1) return; // waits for more on the next call
		}
	}
};
struct Reply { int code; std::string body, text; };
static Reply reply() { Reply r; static const int codes[] = {200, 204, 404, 500, 301, 299, 199, 300, 201, 400, 100}; r.code = codes[O::chance(50) ? 0 : O::below(11)]; bool length = r.code != 204 && O::chance(90); if (length) r.body = H::bodyText();
	std::vector<std::string> lines; if (length) lines.push_back(H::anyCase("Content-Length") + ":" + H::space() + std::to_string(r.body.size()) + (O::chance(30) ? "   " : "")); for (int n = O::below(4); n > 0; n--) lines.push_back(H::anyCase(H::word(12) + "x") + ":" + H::space() + H::headerValue()); for (int i = (int)lines.size() - 1; i > 0; i--) std::swap(lines[i], lines[O::below(i + 1)]);
	r.text = "HTTP/1.1 " + std::to_string(r.code) + (O::chance(90) ? " " + H::word(8) + (O::chance(30) ? " found" : "") : "") + "\r\n"; for (auto& l : lines) r.text += l + "\r\n"; r.text += "\r\n" + r.body; return r; }
// strict reader of one request
static bool readRequest(std::string_view& s, std::string& method, std::string& path, std::map<std::string, std::string>& h, std::string& body, std::string& why) {
	auto e = s.find("\r\n"); if (e == s.npos) { why = "no line"; return false; } std::string l(s.substr(0, e)); s.remove_prefix(e + 2); auto a = l.find(' '), b = l.find(' ', a + 1); if (a == l.npos || b == l.npos || l.substr(b) != " HTTP/1.1") { why = "first line " + l; return false; } method = l.substr(0, a); path = l.substr(a + 1, b - a - 1); h.clear();
	while (true) { e = s.find("\r\n"); if (e == s.npos) { why = "no blank line"; return false; } l = s.substr(0, e); s.remove_prefix(e + 2); if (l.empty()) break; auto c = l.find(": "); if (c == l.npos) { why = "header " + l; return false; } std::string n = l.substr(0, c), v = l.substr(c + 2); for (auto& x : n) x = tolower(x); while (!v.empty() && v.back() == ' ') v.pop_back(); if (h.count(n)) { why = "two " + n; return false; } h[n] = v; }
	size_t n = 0; if (h.count("content-length")) { auto& v = h["content-length"]; if (v.empty() || v.find_first_not_of("0123456789") != v.npos) { why = "length " + v; return false; } n = std::stoul(v); } if (n > s.size()) { why = "length " + std::to_string(n) + " of " + std::to_string(s.size()); return false; } body = s.substr(0, n); s.remove_prefix(n); return true; }
template <typename Buffer> static void exchange() {
	Net net; net.mode = O::below(3); std::string host = H::word(12); HttpClient<std::string, Buffer> client(net, host); int n = 1 + O::below(5); std::vector<Reply> rs; std::vector<RequestToken> ts; std::vector<std::string> bodies, types, methods, paths; O::current("exchange", std::to_string(n) + " " + std::to_string(net.mode));
	for (int i = 0; i < n; i++) {
		if (O::chance(60)) { H::Action a = H::action(); RequestToken inner{}; auto t = client.post(a.type, [&] (Buffer& b, RequestToken k) { inner = k; H::fill(b, a); }); CHECK(t == inner, "token", "token differs"); ts.push_back(t); bodies.push_back(a.body); types.push_back(a.type); methods.push_back("POST"); paths.push_back("/"); }
		else { std::string p = H::pathText(); ts.push_back(client.get(p)); bodies.push_back(""); types.push_back(""); methods.push_back("GET"); paths.push_back(p); }
		for (int j = 0; j < i; j++) CHECK(ts[i] != ts[j], "token", "two requests with the same token");
	}
	std::string_view w = net.written; for (int i = 0; i < n; i++) { std::string m, p, b, why; std::map<std::string, std::string> h; if (!readRequest(w, m, p, h, b, why)) { O::fail("request", why + " in " + O::esc(net.written, 300)); return; } CHECK(m == methods[i] && p == paths[i] && b == bodies[i] && h["host"] == host && (m == "GET" || h["content-type"] == types[i]), "request", "request differs: " + m + " " + p + " " + O::esc(b, 50)); } CHECK(w.empty(), "request", "bytes behind the request");
	for (int i = 0; i < n; i++) { rs.push_back(reply()); net.stream += rs.back().text; }
	std::vector<int> order(n); for (int i = 0; i < n; i++) order[i] = i; if (O::chance(60)) for (int i = n - 1; i > 0; i--) std::swap(order[i], order[O::below(i + 1)]);
	O::current("exchange", std::to_string(order[0]) + ":" + net.stream);
	for (int i : order) { int calls = 0; try { client.getResponse(ts[i], [&] (std::span<char> b, bool ok) { calls++; CHECK(std::string_view(b.data(), b.size()) == rs[i].body, "body", "body '" + O::esc(std::string_view(b.data(), b.size()), 60) + "' instead of '" + O::esc(rs[i].body, 60) + "'"); CHECK(ok == (rs[i].code >= 200 && rs[i].code < 300), "success", "code " + std::to_string(rs[i].code)); return true; }); } catch (Over&) { O::fail("lost", "the response to request " + std::to_string(i) + " was not found"); return; } CHECK(calls == 1, "once", "reader called " + std::to_string(calls) + " times"); if (O::failures) return; }
	CHECK(net.stream.empty(), "all", "bytes left over");
}
static void arbitrary() { // never outside of what arrived
	Net net; net.mode = O::below(3); HttpClient<> client(net, "h"); std::string s; for (int n = 1 + O::below(3); n > 0; n--) s += O::chance(30) ? O::bytes(60, "\r\n: HTTP/1.0234Content-Length") : O::mutate(reply().text); net.stream = s; O::current("arbitrary", s); auto a = client.get("/"), b = client.get("/");
	for (auto t : {b, a}) try { client.getResponse(t, [&] (std::span<char> m, bool) { std::string c(m.data(), m.size()); return true; }); } catch (Over&) {} catch (std::exception& x) { O::fail("exception", x.what()); }
}
int O::run() { O::phase(0.95, [] { exchange<ExpandingBuffer<>>(); exchange<ExpandingBuffer<1>>(); arbitrary(); arbitrary(); }); return 0; }
