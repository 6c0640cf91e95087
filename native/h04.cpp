#include "hcommon.hpp"
// what a session makes of a request does not depend on the requests before it: compared with a new session
static void history() {
	auto act = [] (const H::Seen& s) { uint64_t keep = O::seedState; O::seedState = O::hash(s.path + s.type + s.body); H::Action a = H::action(); O::seedState = keep; return a; };
	H::Responder re; re.decide = act; HttpServer<> server(re, re); auto old = server.getSession(); int n = 2 + O::below(5); std::string before;
	for (int i = 0; i < n; i++) {
		H::Request r = H::request(); if (r.close && i < n - 1) continue;
		O::current("history", before + " then " + r.text);
		auto feed = [&] (auto& ses, std::string& out) { // in parts, to leave traces of each
			std::vector<std::pair<ServerReaction, int64_t>> got; size_t have = 0; 
			while (have < r.text.size()) { have = O::chance(50) ? r.text.size() : std::min<size_t>(r.text.size(), have + 1 + O::below(60)); O::Exact e(std::string_view(r.text).substr(0, have)); auto x = ses.respond(std::span<char>(e.p, e.n), [&] (std::span<const char> o) { out.append(o.data(), o.size()); }); if (have == r.text.size() || x.first != ServerReaction::READ_ON) { got.push_back(x); if (x.first != ServerReaction::READ_ON) break; } }
			return got; };
		std::string out1, out2; size_t a = re.seen.size(); auto g1 = feed(old, out1); size_t b = re.seen.size(); auto fresh = server.getSession(); auto g2 = feed(fresh, out2); size_t c = re.seen.size();
		CHECK(g1 == g2, "reaction", "reaction " + std::to_string((int)g1[0].first) + "/" + std::to_string(g1[0].second) + " instead of " + std::to_string((int)g2[0].first) + "/" + std::to_string(g2[0].second));
		CHECK(out1 == out2, "response", "response " + O::esc(out1, 200) + " instead of " + O::esc(out2, 200)); CHECK(b - a == c - b, "calls", "calls of the responder differ");
		if (b - a == 1 && c - b == 1) CHECK(H::show(re.seen[a]) == H::show(re.seen[b]) && re.seen[a].type == re.seen[b].type && re.seen[a].body == re.seen[b].body, "request", "the responder got " + H::show(re.seen[a]) + " instead of " + H::show(re.seen[b]));
		if (O::failures) return; before += r.text + " | ";
	}
}
// sessions of one server do not influence each other
static void sessions() {
	H::Responder re; re.decide = [] (const H::Seen& s) { H::Action a; a.kind = 0; a.type = "t/t"; a.body = H::show(s); return a; }; HttpServer<> server(re, re); auto a = server.getSession(), b = server.getSession(); H::Request r[2] = {H::request(), H::request()}; std::string out[2]; size_t have[2] = {0, 0}; ServerReaction last[2] = {ServerReaction::READ_ON, ServerReaction::READ_ON}; O::current("sessions", r[0].text + " and " + r[1].text);
	while (have[0] < r[0].text.size() || have[1] < r[1].text.size()) { int w = O::below(2); if (have[w] >= r[w].text.size()) continue; have[w] = std::min<size_t>(r[w].text.size(), have[w] + 1 + O::below(40)); O::Exact e(std::string_view(r[w].text).substr(0, have[w])); size_t calls = re.seen.size(); auto x = (w ? b : a).respond(std::span<char>(e.p, e.n), [&] (std::span<const char> o) { out[w].append(o.data(), o.size()); }); last[w] = x.first;
		if (have[w] == r[w].text.size()) { if (r[w].supported()) CHECK(re.seen.size() == calls + 1 && re.seen.back().path == r[w].path && re.seen.back().body == (r[w].method == "POST" ? r[w].body : ""), "sessions", "request differs"); } }
	for (int w : {0, 1}) { CHECK(last[w] == (r[w].close ? ServerReaction::DISCONNECT : ServerReaction::OK), "sessions", "reaction"); std::string_view s = out[w]; std::string why; auto got = H::readOne(s, why); CHECK(got && s.empty(), "sessions", "response " + why); }
}
int O::run() { O::phase(0.95, [] { history(); sessions(); }); return 0; }
