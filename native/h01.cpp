#include "hcommon.hpp"
// any sequence of requests, delivered in any pieces as TcpServerBuffer does it: all that was not consumed yet, from its beginning
template <typename Server> static void stream() {
	std::vector<H::Request> rs; std::string all; int n = 1 + O::below(5);
	for (int i = 0; i < n; i++) { rs.push_back(H::request()); all += rs.back().text; if (rs.back().close) break; }
	O::current("stream", all);
	H::Responder re; Server server(re, re); auto s = server.getSession(); std::string out; std::vector<int> ends; { int e = 0; for (auto& r : rs) ends.push_back(e += r.text.size()); }
	size_t start = 0, have = 0, done = 0; int how = O::below(5); bool over = false;
	while (!over && have < all.size()) {
		size_t step = how == 0 ? all.size() : how == 1 ? 1 : how == 2 ? 1 + O::below(20) : how == 3 ? 1 + O::below(2048) : O::chance(50) ? 1 : 1 + O::below(100); have = std::min(all.size(), have + step);
		while (!over && start < have) {
			O::Exact e(std::string_view(all).substr(start, have - start)); size_t before = re.seen.size(), outBefore = out.size(); // a copy of the stream: the server may change it
			auto [reaction, consumed] = s.respond(std::span<char>(e.p, e.n), [&] (std::span<const char> o) { out.append(o.data(), o.size()); });
			if (have >= (size_t)ends[done]) { const H::Request& r = rs[done];
				CHECK(reaction == (r.close ? ServerReaction::DISCONNECT : ServerReaction::OK), "reaction", "reaction " + std::to_string((int)reaction) + " to a complete request " + O::esc(r.text, 300));
				CHECK(consumed == (int64_t)r.text.size(), "consumed", "took " + std::to_string(consumed) + " bytes instead of " + std::to_string(r.text.size()));
				if (r.supported()) {
					if (re.seen.size() != before + 1) { O::fail("dispatch", "the responder was called " + std::to_string(re.seen.size() - before) + " times"); return; }
					auto& g = re.seen.back(); CHECK(g.method == r.method, "method", "method " + g.method); CHECK(g.path == r.path, "path", "path " + O::esc(g.path) + " instead of " + O::esc(r.path));
					if (r.method == "POST") { CHECK(g.body == r.body, "body", "body of " + std::to_string(g.body.size()) + " bytes differs"); CHECK(g.type == r.type, "type", "content type '" + O::esc(g.type) + "' instead of '" + O::esc(r.type) + "'"); }
				} else { CHECK(re.seen.size() == before, "unsupported", "the responder was called for " + r.method + " " + r.version); CHECK(out.substr(outBefore, 13) == "HTTP/1.1 501 ", "unsupported", "answer " + O::esc(out.substr(outBefore, 60))); }
				if (O::failures) return;
				start = ends[done]; done++; if (r.close) over = true;
			} else {
				if (reaction != ServerReaction::READ_ON) { O::fail("incomplete", "reaction " + std::to_string((int)reaction) + " to " + std::to_string(e.n) + " of " + std::to_string(rs[done].text.size()) + " bytes"); return; }
				CHECK(re.seen.size() == before && out.size() == outBefore, "incomplete", "an incomplete request was answered"); break;
			}
		}
	}
	CHECK(done == rs.size(), "all", "only " + std::to_string(done) + " of " + std::to_string(rs.size()) + " requests were answered");
}
int O::run() { O::phase(0.95, [] { stream<HttpServer<>>(); stream<HttpServer<ExpandingBuffer<1>>>(); }); return 0; }
