// HTML form messages: independent percent/charref codec; objects written and read back; browser-like encodings; arbitrary bytes
#include "oracle.hpp"
#include "bomba_core.hpp"
#include "bomba_http.hpp"
using namespace Bomba;
using Form = HtmlMessageEncoding<std::string, std::string>;
constexpr auto NONE = SerialisationFlags::NONE;
static std::string utf8(unsigned c) { std::string s; if (c < 0x80) s += c; else if (c < 0x800) { s += 0xc0 | (c >> 6); s += 0x80 | (c & 63); } else if (c < 0x10000) { s += 0xe0 | (c >> 12); s += 0x80 | ((c >> 6) & 63); s += 0x80 | (c & 63); } else { s += 0xf0 | (c >> 18); s += 0x80 | ((c >> 12) & 63); s += 0x80 | ((c >> 6) & 63); s += 0x80 | (c & 63); } return s; }
static unsigned codePoint() { switch (O::below(8)) { case 0: return 0x20 + O::below(0x5f); case 1: return O::below(0x80); case 2: return 0x80 + O::below(0x80); case 3: return 0x100 + O::below(0x700); case 4: { unsigned c; do c = 0x800 + O::below(0xf800); while (c >= 0xd800 && c < 0xe000); return c; } case 5: return 0x10000 + O::below(0x100000); case 6: { static unsigned e[] = {0, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000, 999, 1000, 9999, 99999, 100000, 999999, 1000000}; return e[O::below(19)]; } default: return "&=+%;#? /.-_0123abcABC&&##"[O::below(26)]; } }
// a literal "&#digit" in a text is not distinguishable from a character reference in this format: left out
static std::vector<unsigned> points(int max) { std::vector<unsigned> p; int n = O::below(max + 1); for (int i = 0; i < n; i++) { p.push_back(codePoint()); int k = p.size(); if (k >= 3 && p[k - 3] == '&' && p[k - 2] == '#' && p[k - 1] >= '0' && p[k - 1] <= '9') p.back() = 'x'; } return p; }
static std::string text(const std::vector<unsigned>& p) { std::string s; for (auto c : p) s += utf8(c); return s; }
static std::string hex(unsigned c) { static const char* l = "0123456789abcdef", *u = "0123456789ABCDEF"; const char* d = O::chance(50) ? l : u; return std::string("%") + d[c >> 4] + d[c & 15]; }
static std::string encode(const std::vector<unsigned>& p) { // as a browser sends it on a page in Latin-1, with any choice of what is escaped
	std::string s; for (auto c : p) { if (c > 0xff) { s += hex('&') + hex('#') + (O::chance(10) ? "0" : "") + std::to_string(c) + hex(';'); } else if (c == ' ') s += O::chance(70) ? "+" : "%20"; else if (isalnum(c) && c < 128) s += O::chance(90) ? std::string(1, c) : hex(c); else if (c < 128 && c > 32 && !strchr("&=+%", c) && O::chance(60)) s += char(c); else s += hex(c); } return s; }
static std::string name() { std::string n; for (int k = 1 + O::below(10); k > 0; k--) n += O::chance(85) ? "abcxyzABC_019"[O::below(13)] : " &=+%.-"[O::below(7)]; return n; }
struct Member { std::string name; int kind; int64_t i; double d; std::string s; };
static Member member() { Member m; m.name = name(); m.kind = O::below(4); m.i = O::chance(50) ? (int64_t)O::rnd() : O::chance(20) ? (O::chance(50) ? INT64_MIN : INT64_MAX) : (int64_t)O::below(200) - 100; 
	do { uint64_t b = O::rnd(); memcpy(&m.d, &b, 8); if (O::chance(40)) m.d = (double)(int64_t)O::below(1000) / 4; if (O::chance(20)) m.d = 1e20 * O::below(100); } while (!(m.d - m.d == 0)); m.s = text(points(O::chance(50) ? 6 : 30)); return m; }
static void roundTrip() {
	std::vector<Member> ms; for (int n = O::below(6); n > 0; n--) ms.push_back(member()); std::string out = O::chance(50) ? "" : "before"; size_t b = out.size(); Form::Output o(out); o.startWritingObject(NONE, ms.size());
	for (size_t i = 0; i < ms.size(); i++) { std::string padded = ms[i].name + "garbage"; o.introduceObjectMember(NONE, std::string_view(padded).substr(0, ms[i].name.size()), i); if (ms[i].kind == 0) o.writeInt(NONE, ms[i].i); else if (ms[i].kind == 1) o.writeFloat(NONE, ms[i].d); else if (ms[i].kind == 2) { O::Exact e(ms[i].s); o.writeString(NONE, std::string_view(e.p, e.n)); } else o.writeBool(NONE, true); } o.endWritingObject(NONE);
	std::string doc = out.substr(b); O::current("roundtrip", doc); for (unsigned char c : doc) if (c <= 32 || c > 126) { O::fail("roundtrip", "unescaped byte in " + O::esc(doc)); return; }
	O::Exact e(doc); Form::Input in(std::string_view(e.p, e.n)); size_t k = 0;
	try { in.readObject(NONE, [&] (std::optional<std::string_view> n, int index) { if (k >= ms.size()) { O::fail("roundtrip", "too many members in " + O::esc(doc)); throw 1; } auto& m = ms[k]; CHECK(n && *n == m.name && index == (int)k, "roundtrip", "member '" + O::esc(std::string(n.value_or("none"))) + "' instead of '" + O::esc(m.name) + "' in " + O::esc(doc)); k++;
		int skip = O::below(6); if (skip == 0) { in.skipObjectElement(NONE); return true; } auto at = in.storePosition(NONE); auto t = in.identifyType(NONE); CHECK(t == (m.kind == 0 ? IStructuredInput::TYPE_INTEGER : m.kind == 1 ? t : t) , "type", "integer identified as " + std::to_string(t)); if (m.kind == 1) CHECK(t == IStructuredInput::TYPE_FLOAT || t == IStructuredInput::TYPE_INTEGER, "type", "number identified as " + std::to_string(t)); if (skip == 1) { in.skipObjectElement(NONE); in.restorePosition(NONE, at); }
		if (m.kind == 0) { auto v = in.readInt(NONE); CHECK(v == m.i, "roundtrip", std::to_string(m.i) + " read as " + std::to_string(v)); } else if (m.kind == 1) { auto v = in.readFloat(NONE); CHECK(v == m.d, "roundtrip", std::to_string(m.d) + " read as " + std::to_string(v)); } else if (m.kind == 2) { std::string v(in.readString(NONE)); CHECK(v == m.s, "roundtrip", "'" + O::esc(m.s) + "' read as '" + O::esc(v) + "' from " + O::esc(doc)); } else CHECK(in.readBool(NONE), "roundtrip", "true read as false"); return true; }); } catch (int) { return; } catch (std::exception& x) { O::fail("roundtrip", std::string(x.what()) + " on " + O::esc(doc)); return; }
	CHECK(k == ms.size(), "roundtrip", std::to_string(k) + " members of " + std::to_string(ms.size()) + " in " + O::esc(doc));
}
static void browser() { // values as browsers send them
	int n = 1 + O::below(5); std::vector<std::string> names, values; std::string doc; for (int i = 0; i < n; i++) { auto a = points(5), v = points(O::chance(30) ? 0 : 12); if (a.empty()) a.push_back('n'); names.push_back(text(a)); values.push_back(text(v)); if (i) doc += '&'; doc += encode(a) + "=" + encode(v); }
	O::current("browser", doc); O::Exact e(doc); Form::Input in(std::string_view(e.p, e.n)); int k = 0; bool all = O::chance(60);
	try { in.readObject(NONE, [&] (std::optional<std::string_view> m, int) { if (k >= n) { O::fail("browser", "too many members in " + O::esc(doc)); throw 1; } CHECK(m && *m == names[k], "browser", "name '" + O::esc(std::string(m.value_or("none"))) + "' instead of '" + O::esc(names[k]) + "' in " + O::esc(doc)); if (all || O::chance(50)) { std::string v(in.readString(NONE)); CHECK(v == values[k], "browser", "'" + O::esc(v) + "' instead of '" + O::esc(values[k]) + "' in " + O::esc(doc)); } else in.skipObjectElement(NONE); k++; return true; }); } catch (int) { return; } catch (std::exception& x) { O::fail("browser", x.what()); return; }
	CHECK(k == n, "browser", "members lost in " + O::esc(doc)); }
static void types() { static const char* t[] = {"1", "-1", "0.5", "-0.25", "1e5", "1e-5", "2.5E7", "abc", "1a", "", "12345678901234567890", "a1", "-", ".", "e5", "1e", "1.2.3", "--1", "1-", "0x12", "1 2", "true", "1e5e5"}; static const int w[] = {1, 1, 2, 2, 2, 2, 2, 3, 3, 3, 1, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3};
	int i = O::below(23); std::string before; for (int n = O::below(3); n > 0; n--) before += name().substr(0, 1) + "x=" + "v" + std::to_string(O::below(1000)) + "&"; std::string enc; for (char c : std::string(t[i])) enc += c == ' ' ? "+" : std::string(1, c); std::string doc = before + "n=" + enc + (O::chance(50) ? "&m=7" : ""); O::current("types", doc); O::Exact e(doc); Form::Input in(std::string_view(e.p, e.n)); in.restorePosition(NONE, {(int)before.size() + 2}); auto r = in.identifyType(NONE); int want = w[i]; int got = r == IStructuredInput::TYPE_INTEGER ? 1 : r == IStructuredInput::TYPE_FLOAT ? 2 : r == IStructuredInput::TYPE_STRING ? 3 : 0; CHECK(got == want, "types", "'" + doc + "': type " + std::to_string(got) + " instead of " + std::to_string(want)); CHECK(in.storePosition(NONE).loc == (int)before.size() + 2, "types", "identifying moves"); }
static void arbitrary() { std::string doc = O::chance(50) ? O::bytes(40, "%%%&&&===+0123456789abcdefABCDEF#;23626-") : O::mutate(encode(points(8)) + "=" + encode(points(8))); O::current("arbitrary", doc); O::Exact e(doc);
	{ std::string o; demangleHttpResponse(std::string_view(e.p, e.n), o); CHECK(o.size() <= 6 * doc.size(), "arbitrary", "too long"); } { std::string o; demangleUtf8Url(std::string_view(e.p, e.n), o); } { std::string o; mangleHttpResponse(std::string_view(e.p, e.n), o); }
	Form::Input in(std::string_view(e.p, e.n)); int seen = 0; try { in.readObject(NONE, [&] (std::optional<std::string_view>, int) { if (++seen > 1000) throw 1; switch (O::below(6)) { case 0: in.readInt(NONE); break; case 1: in.readFloat(NONE); break; case 2: in.readString(NONE); break; case 3: in.readBool(NONE); break; case 4: in.skipObjectElement(NONE); break; case 5: in.identifyType(NONE); in.skipObjectElement(NONE); break; } return true; }); } catch (int) { O::fail("arbitrary", "does not end"); } catch (ParseError&) {} catch (std::exception& x) { O::fail("arbitrary", std::string("throws ") + x.what()); } }
static void url() { std::string want, enc; for (int n = O::below(12); n > 0; n--) { std::string c = utf8(codePoint()); want += c; for (unsigned char x : c) enc += x == ' ' && O::chance(60) ? "+" : x < 128 && x > 32 && !strchr("%+", x) && O::chance(60) ? std::string(1, x) : hex(x); } O::current("url", enc); O::Exact e(enc); std::string o; demangleUtf8Url(std::string_view(e.p, e.n), o); CHECK(o == want, "url", "'" + O::esc(o) + "' instead of '" + O::esc(want) + "'"); }
int O::run() { O::phase(0.95, [] { roundTrip(); browser(); types(); arbitrary(); url(); }); return 0; }
