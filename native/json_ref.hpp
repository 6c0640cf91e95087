// Independent reference JSON (RFC 8259): values, parser, generator.
#pragma once
#include "oracle.hpp"
namespace Ref {
struct Value;
using P = std::shared_ptr<Value>;
struct Value {
	enum Kind { NUL, BOOL, INT, FLOAT, STRING, ARRAY, OBJECT } kind = NUL;
	bool b = false; int64_t i = 0; double d = 0; std::string s; std::vector<P> a; std::vector<std::pair<std::string, P>> o;
};
inline P mk(Value::Kind k) { auto p = std::make_shared<Value>(); p->kind = k; return p; }
inline bool same(const Value& x, const Value& y) {
	if (x.kind != y.kind) return false;
	switch (x.kind) {
		case Value::NUL: return true; case Value::BOOL: return x.b == y.b; case Value::INT: return x.i == y.i;
		case Value::FLOAT: return x.d == y.d || (std::isnan(x.d) && std::isnan(y.d)); case Value::STRING: return x.s == y.s;
		case Value::ARRAY: if (x.a.size() != y.a.size()) return false; for (size_t i = 0; i < x.a.size(); i++) if (!same(*x.a[i], *y.a[i])) return false; return true;
		case Value::OBJECT: if (x.o.size() != y.o.size()) return false; for (size_t i = 0; i < x.o.size(); i++) if (x.o[i].first != y.o[i].first || !same(*x.o[i].second, *y.o[i].second)) return false; return true;
	}
	return false;
}
inline std::string utf8(uint32_t c) {
	std::string r;
	if (c < 0x80) r += char(c); else if (c < 0x800) { r += char(0xc0 | c >> 6); r += char(0x80 | (c & 63)); }
	else if (c < 0x10000) { r += char(0xe0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
	else { r += char(0xf0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
	return r;
}
struct Parser { // strict; throws on anything RFC 8259 does not allow (bytes >= 0x80 pass through)
	std::string_view t; size_t p = 0;
	[[noreturn]] void bad(const char* w) { throw std::runtime_error(std::string(w) + " at " + std::to_string(p)); }
	void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) p++; }
	char peek() { return p < t.size() ? t[p] : '\0'; }
	uint32_t hex4() { uint32_t v = 0; for (int i = 0; i < 4; i++) { char c = peek(); v <<= 4; if (c >= '0' && c <= '9') v |= c - '0'; else if (c >= 'a' && c <= 'f') v |= c - 'a' + 10; else if (c >= 'A' && c <= 'F') v |= c - 'A' + 10; else bad("hex"); p++; } return v; }
	std::string str() {
		if (peek() != '"') bad("quote"); p++; std::string r;
		while (true) {
			if (p >= t.size()) bad("unterminated"); unsigned char c = t[p++];
			if (c == '"') return r; if (c < 0x20) bad("control");
			if (c != '\\') { r += c; continue; }
			if (p >= t.size()) bad("escape"); c = t[p++];
			switch (c) { case '"': case '\\': case '/': r += c; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
				case 'u': { uint32_t u = hex4(); if (u >= 0xd800 && u < 0xdc00) { if (peek() != '\\') bad("surrogate"); p++; if (peek() != 'u') bad("surrogate"); p++; uint32_t l = hex4(); if (l < 0xdc00 || l >= 0xe000) bad("surrogate"); u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00); } else if (u >= 0xdc00 && u < 0xe000) bad("surrogate"); r += utf8(u); break; }
				default: bad("escape"); }
		}
	}
	P value(int depth = 0) {
		ws(); char c = peek();
		if (c == '"') { auto v = mk(Value::STRING); v->s = str(); return v; }
		if (c == '[') { auto v = mk(Value::ARRAY); p++; ws(); if (peek() == ']') { p++; return v; } while (true) { v->a.push_back(value(depth + 1)); ws(); if (peek() == ',') { p++; continue; } if (peek() == ']') { p++; return v; } bad("array"); } }
		if (c == '{') { auto v = mk(Value::OBJECT); p++; ws(); if (peek() == '}') { p++; return v; } while (true) { ws(); auto k = str(); ws(); if (peek() != ':') bad("colon"); p++; v->o.emplace_back(k, value(depth + 1)); ws(); if (peek() == ',') { p++; continue; } if (peek() == '}') { p++; return v; } bad("object"); } }
		for (auto [w, k, b] : {std::tuple{"true", Value::BOOL, true}, {"false", Value::BOOL, false}, {"null", Value::NUL, false}}) if (t.substr(p, strlen(w)) == w) { p += strlen(w); auto v = mk(k); v->b = b; return v; }
		size_t s = p; bool fl = false;
		if (peek() == '-') p++;
		if (peek() == '0') p++; else if (peek() >= '1' && peek() <= '9') while (peek() >= '0' && peek() <= '9') p++; else bad("value");
		if (peek() == '.') { fl = true; p++; if (!(peek() >= '0' && peek() <= '9')) bad("fraction"); while (peek() >= '0' && peek() <= '9') p++; }
		if (peek() == 'e' || peek() == 'E') { fl = true; p++; if (peek() == '+' || peek() == '-') p++; if (!(peek() >= '0' && peek() <= '9')) bad("exponent"); while (peek() >= '0' && peek() <= '9') p++; }
		std::string n(t.substr(s, p - s)); auto v = mk(fl ? Value::FLOAT : Value::INT);
		if (fl) v->d = strtod(n.c_str(), 0); else { errno = 0; v->i = strtoll(n.c_str(), 0, 10); if (errno) { v->kind = Value::FLOAT; v->d = strtod(n.c_str(), 0); } }
		return v;
	}
};
inline P parse(std::string_view t, size_t* end = nullptr) { Parser q{t}; auto v = q.value(); if (end) *end = q.p; else { q.ws(); if (q.p != t.size()) q.bad("trailing"); } return v; }
inline std::string wsp() { std::string r; if (O::chance(30)) for (int k = O::below(3); k >= 0; k--) r += " \t\n\r"[O::below(4)]; return r; }
// a literal denoting s, choosing among the escapes at random
inline std::string literal(const std::string& s, bool fancy = true) {
	std::string r = "\""; char b[16];
	for (size_t i = 0; i < s.size();) {
		unsigned char c = s[i];
		uint32_t cp = c; int n = 1;
		if (c >= 0xf0 && i + 3 < s.size()) { cp = (c & 7) << 18 | (s[i+1] & 63) << 12 | (s[i+2] & 63) << 6 | (s[i+3] & 63); n = 4; }
		else if (c >= 0xe0 && c < 0xf0 && i + 2 < s.size()) { cp = (c & 15) << 12 | (s[i+1] & 63) << 6 | (s[i+2] & 63); n = 3; }
		else if (c >= 0xc0 && c < 0xe0 && i + 1 < s.size()) { cp = (c & 31) << 6 | (s[i+1] & 63); n = 2; }
		else if (c >= 0x80) n = 0;
		bool valid = n > 0; if (valid && n > 1 && utf8(cp) != s.substr(i, n)) valid = false; if (valid && ((cp >= 0xd800 && cp < 0xe000) || cp > 0x10ffff)) valid = false;
		bool must = c < 0x20 || c == '"' || c == '\\';
		if (must || (fancy && valid && O::chance(25))) {
			const char* sh = nullptr; switch (c) { case '"': sh = "\\\""; break; case '\\': sh = "\\\\"; break; case '/': sh = "\\/"; break; case '\b': sh = "\\b"; break; case '\f': sh = "\\f"; break; case '\n': sh = "\\n"; break; case '\r': sh = "\\r"; break; case '\t': sh = "\\t"; break; }
			if (sh && n == 1 && O::chance(60)) r += sh;
			else { auto u = [&] (uint32_t x) { snprintf(b, 16, O::chance(50) ? "\\u%04x" : "\\u%04X", x); r += b; }; if (cp >= 0x10000) { u(0xd800 + ((cp - 0x10000) >> 10)); u(0xdc00 + ((cp - 0x10000) & 0x3ff)); } else u(cp); }
			i += n;
		} else { int k = valid ? n : 1; r += s.substr(i, k); i += k; }
	}
	return r + "\"";
}
inline std::string text(size_t maxLen = 24) { // strings that matter
	std::string r; int n = O::below(4) ? O::below(6) : O::below(maxLen);
	for (int i = 0; i < n; i++) switch (O::below(8)) {
		case 0: r += (char)O::below(0x20); break; case 1: r += "\"\\/\b\f\n\r\t{}[],:"[O::below(15)]; break; case 2: r += utf8(0x80 + O::below(0x780)); break; case 3: { uint32_t c = 0x800 + O::below(0xf800); if (c >= 0xd800 && c < 0xe000) c = 0xfffd; r += utf8(c); break; } case 4: r += utf8(0x10000 + O::below(0x100000)); break; case 5: if (O::chance(20)) r += (char)(0x80 + O::below(0x80)); else r += 'x'; break; default: r += (char)(0x20 + O::below(0x5f)); }
	return r;
}
inline std::string print(const Value& v) { // standard-conforming text with random white space and escapes
	std::string r; char b[64];
	switch (v.kind) {
		case Value::NUL: return "null"; case Value::BOOL: return v.b ? "true" : "false"; case Value::INT: return std::to_string(v.i);
		case Value::FLOAT: { snprintf(b, 64, "%.17g", v.d); std::string n = b; if (n.find_first_of(".e") == n.npos) n += ".0"; return n; }
		case Value::STRING: return literal(v.s);
		case Value::ARRAY: { r = "[" + wsp(); bool f = true; for (auto& e : v.a) { if (!f) r += wsp() + "," + wsp(); f = false; r += print(*e); } return r + wsp() + "]"; }
		case Value::OBJECT: { r = "{" + wsp(); bool f = true; for (auto& [k, e] : v.o) { if (!f) r += wsp() + "," + wsp(); f = false; r += literal(k) + wsp() + ":" + wsp() + print(*e); } return r + wsp() + "}"; }
	}
	return r;
}
inline int64_t integer() { switch (O::below(6)) { case 0: return (int64_t)O::rnd(); case 1: return O::chance(50) ? std::numeric_limits<int64_t>::max() : std::numeric_limits<int64_t>::min(); case 2: return -(int64_t)O::below(1000); case 3: return (int64_t)(int32_t)O::rnd(); default: return O::below(100); } }
inline double real() { switch (O::below(6)) { case 0: { double d; uint64_t u = O::rnd(); memcpy(&d, &u, 8); return std::isfinite(d) ? d : 0.5; } case 1: return (double)(int64_t)O::below(2000) - 1000 + 0.5; case 2: return -(double)O::below(1000) / 8 - 0.125; case 3: return ldexp((double)(int64_t)O::rnd(), (int)O::below(200) - 100); case 4: return (O::chance(50) ? 1 : -1) * 5e-324; default: return O::below(10000) / 1000.0; } }
inline P gen(int depth = 3) {
	int k = O::below(depth > 0 ? 8 : 5); auto v = mk(Value::NUL);
	switch (k) { case 0: break; case 1: v->kind = Value::BOOL; v->b = O::chance(50); break; case 2: v->kind = Value::INT; v->i = integer(); break; case 3: v->kind = Value::FLOAT; v->d = real(); break; case 4: v->kind = Value::STRING; v->s = text(); break;
		case 5: case 6: v->kind = Value::ARRAY; for (int n = O::below(5); n > 0; n--) v->a.push_back(gen(depth - 1)); break;
		case 7: v->kind = Value::OBJECT; for (int n = O::below(5); n > 0; n--) { std::string key = O::chance(80) ? std::string(1 + O::below(4), (char)('a' + O::below(26))) : text(6); v->o.emplace_back(key, gen(depth - 1)); } break; }
	return v;
}
}
