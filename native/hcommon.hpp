// HTTP: structured requests, a strict response reader and scripted responders; nothing of the implementation is used to judge it
#pragma once
#include "oracle.hpp"
#include "bomba_core.hpp"
#include "bomba_http.hpp"
using namespace Bomba;
namespace H {
inline std::string word(int n, std::string_view alphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_") { std::string s; n = 1 + O::below(n); while (n--) s += alphabet[O::below(alphabet.size())]; return s; }
inline std::string anyCase(std::string s) { int how = O::below(4); if (how == 0) return s; for (auto& c : s) if (how == 1 || (how == 3 && O::chance(50))) c = toupper(c); else if (how == 2) c = tolower(c); return s; }
inline std::string space() { static const char* s[] = {" ", "", "  ", "\t", " \t "}; return s[O::chance(70) ? 0 : O::below(5)]; }
struct Request {
	std::string method, path, version = "HTTP/1.1", type, body; bool hasType = false, hasLength = false, close = false; std::string text;
	bool supported() const { return (method == "GET" || method == "POST") && (version == "HTTP/1.1" || version == "HTTP/1.0"); }
};
inline std::string pathText() { std::string p = "/"; int n = O::below(4) ? O::below(12) : O::below(200); while (n--) p += "abcXYZ019/.-_~%?&=+:;,@"[O::below(23)]; return p; }
inline std::string headerValue() { std::string v; int n = O::below(5) ? O::below(20) : O::below(300); for (int i = 0; i < n; i++) v += i == 0 || i == n - 1 ? "abcXYZ019/(\"*="[O::below(14)] : "abcXYZ019/.-_~%?&=+:;,@ \t\"()"[O::below(29)]; return v; }
inline std::string bodyText() { switch (O::below(6)) { case 0: return ""; case 1: return O::bytes(3000); case 2: return "\r\n"; case 3: return "GET /inner HTTP/1.1\r\n\r\n"; case 4: return "\r\n\r\nPOST / HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc"; default: return O::bytes(40); } }
inline Request request(bool unusual = true) {
	Request r; int k = O::below(100);
	r.method = k < 45 ? "GET" : k < 90 || !unusual ? "POST" : O::chance(50) ? std::vector<std::string>{"PUT", "DELETE", "get", "HEAD", "OPTIONS", "GETX", "POSTS", "G"}[O::below(8)] : H::word(6);
	r.path = pathText(); if (unusual && O::chance(10)) r.version = std::vector<std::string>{"HTTP/1.0", "HTTP/1.0", "HTTP/2.0", "HTTP/1.12", "http/1.1", "HTTP/1."}[O::below(6)];
	if (r.method == "POST" || O::chance(12)) { r.hasLength = true; r.body = bodyText(); }
	std::vector<std::string> lines;
	if (r.hasLength) lines.push_back(anyCase("Content-Length") + ":" + space() + (O::chance(10) ? "00" : "") + std::to_string(r.body.size()));
	if (O::chance(60)) { r.hasType = true; r.type = O::chance(70) ? std::vector<std::string>{"application/json", "text/plain; charset=utf-8", "application/x-www-form-urlencoded", "multipart/form-data; boundary=\"a:b\""}[O::below(4)] : headerValue(); if (r.type.empty()) r.type = "a/b"; lines.push_back(anyCase("Content-Type") + ":" + space() + r.type); }
	if (O::chance(unusual ? 8 : 0)) { r.close = true; lines.push_back(anyCase("Connection") + ":" + space() + "close"); } else if (O::chance(10)) lines.push_back(anyCase("Connection") + ":" + space() + (O::chance(50) ? "keep-alive" : "closed"));
	for (int n = O::below(4); n > 0; n--) { static const char* near[] = {"Content-Lengt", "Content-Length2", "X-Content-Length", "Content-Types", "X-Content-Type", "Host", "Accept", "Cookie", "Connections", "C"}; std::string name = O::chance(50) ? near[O::below(10)] : word(20), low = name; for (auto& c : low) c = tolower(c); if (low == "content-length" || low == "content-type" || low == "connection") name += "x"; lines.push_back(anyCase(name) + ":" + space() + (O::chance(15) ? std::to_string(O::below(100)) : headerValue())); }
	for (int i = (int)lines.size() - 1; i > 0; i--) std::swap(lines[i], lines[O::below(i + 1)]);
	r.text = r.method + " " + r.path + " " + r.version + "\r\n"; for (auto& l : lines) r.text += l + "\r\n"; r.text += "\r\n" + r.body; return r;
}
struct Response { int code = 0; std::map<std::string, std::string> headers; std::string body; };
// strict reader of exactly one response in front of the text; empty result if it is not one
inline std::optional<Response> readOne(std::string_view& s, std::string& why) {
	Response r; auto line = [&] () -> std::optional<std::string> { auto e = s.find("\r\n"); if (e == s.npos) { why = "no CRLF"; return {}; } std::string l(s.substr(0, e)); s.remove_prefix(e + 2); if (l.find('\n') != l.npos || l.find('\r') != l.npos) { why = "stray CR or LF"; return {}; } return l; };
	auto first = line(); if (!first) return {};
	if (first->size() < 13 || first->substr(0, 9) != "HTTP/1.1 " || !isdigit((*first)[9]) || !isdigit((*first)[10]) || !isdigit((*first)[11]) || (*first)[12] != ' ') { why = "status line " + *first; return {}; }
	r.code = atoi(first->c_str() + 9);
	while (true) { auto l = line(); if (!l) return {}; if (l->empty()) break; auto c = l->find(':'); if (c == l->npos || c == 0) { why = "header " + *l; return {}; } std::string n = l->substr(0, c), v = l->substr(c + 1); for (auto& x : n) { if (!isalnum((unsigned char)x) && x != '-') { why = "header name " + *l; return {}; } x = tolower(x); } while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v.erase(0, 1); while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.pop_back(); if (r.headers.count(n)) { why = "two " + n; return {}; } r.headers[n] = v; }
	if (r.code == 204) { if (r.headers.count("content-length")) { why = "204 with a length"; return {}; } return r; }
	auto l = r.headers.find("content-length"); if (l == r.headers.end()) { why = "no Content-Length"; return {}; }
	if (l->second.empty() || l->second.size() > 18 || l->second.find_first_not_of("0123456789") != l->second.npos) { why = "Content-Length '" + l->second + "'"; return {}; }
	size_t n = strtoull(l->second.c_str(), 0, 10); if (n > s.size()) { why = "Content-Length " + l->second + " but only " + std::to_string(s.size()) + " bytes follow"; return {}; }
	r.body = std::string(s.substr(0, n)); s.remove_prefix(n); return r;
}
// what a responder does with a request
struct Action { int kind = 0; std::string type, body; std::vector<size_t> cuts; bool partly = false; }; // 0 unknown size, 1 known size, 2 no output, 3 refusal, 4 exception before any output, 5 exception while writing an unknown size
inline void fill(GeneralisedBuffer& b, const Action& a) { size_t at = 0; for (size_t c : a.cuts) { size_t n = std::min(c, a.body.size() - at); if (n == 1) b += a.body[at]; else b += std::string_view(a.body).substr(at, n); at += n; } if (at < a.body.size()) b += std::string_view(a.body).substr(at); }
inline Action action() { Action a; int k = O::below(100); a.kind = k < 35 ? 0 : k < 65 ? 1 : k < 75 ? 2 : k < 85 ? 3 : k < 95 ? 4 : 5; static const char* types[] = {"text/html", "application/json", "a/b", "text/plain; charset=utf-8", "application/x-www-form-urlencoded"}; a.type = types[O::below(5)];
	switch (O::below(7)) { case 0: break; case 1: a.body = O::bytes(9); break; case 2: a.body = std::string(O::below(2000), 'x'); break; case 3: a.body = O::bytes(2500); break; case 4: a.body = "\r\n\r\n"; break; case 5: a.body = std::string(std::vector<int>{9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 100000}[O::below(10)], 'y'); break; default: a.body = O::bytes(100); }
	for (int n = O::below(5); n > 0; n--) a.cuts.push_back(O::chance(40) ? 1 : O::below(1100)); return a; }
struct Seen { std::string method, path, type, body; const char* bodyAt = nullptr; const char* pathAt = nullptr; };
struct Responder : IHttpGetResponder, IHttpPostResponder {
	std::vector<Seen> seen; std::function<Action(const Seen&)> decide = [] (const Seen&) { Action a; a.kind = 2; return a; };
	bool act(IWriteStarter& w) { Action a = decide(seen.back());
		switch (a.kind) {
			case 0: w.writeUnknownSize(a.type, [&] (GeneralisedBuffer& b) { fill(b, a); }); return true;
			case 1: w.writeKnownSize(a.type, a.body.size(), [&] (GeneralisedBuffer& b) { fill(b, a); }); return true;
			case 2: return true; case 3: return false; case 4: throw std::runtime_error("responder"); case 5: w.writeUnknownSize(a.type, [&] (GeneralisedBuffer& b) { fill(b, a); throw std::runtime_error("writer"); }); return true; }
		return true; }
	bool get(std::string_view p, IWriteStarter& w) override { seen.push_back({"GET", std::string(p), "", "", nullptr, p.data()}); return act(w); }
	bool post(std::string_view p, std::string_view t, std::span<char> b, IWriteStarter& w) override { seen.push_back({"POST", std::string(p), std::string(t), std::string(b.data(), b.size()), b.data(), p.data()}); return act(w); }
};
inline std::string show(const Seen& s) { return s.method + " " + s.path + " [" + s.type + "] " + O::esc(s.body, 60); }
}
