#include "bomba_core.hpp"
#include "bomba_json.hpp"
#include "json_ref.hpp"
using J = Bomba::BasicJson<std::string>;
constexpr auto NONE = Bomba::SerialisationFlags::NONE;
static void writeCase(const std::string& s, const std::string& before) {
	O::current("write", s);
	std::string out = before; O::Exact e(s);
	try {
		J::Output o(out); o.writeString(NONE, e.view());
		if (out.substr(0, before.size()) != before) { O::fail("write", "earlier output changed"); return; }
		size_t end = 0; auto v = Ref::parse(std::string_view(out).substr(before.size()), &end);
		if (v->kind != Ref::Value::STRING || v->s != s || end + before.size() != out.size()) O::fail("write", "literal " + O::esc(out) + " does not denote the text");
		O::Exact l(std::string_view(out).substr(before.size())); J::Input in(l.view());
		if (std::string(in.readString(NONE)) != s) O::fail("roundtrip", "own literal is read back differently: " + O::esc(out));
	} catch (std::exception& ex) { O::fail("write", std::string("exception ") + ex.what() + " for output " + O::esc(out)); }
}
static void readCase(const std::string& lit, const std::string& tail, const std::string& expect) {
	O::current("read", lit + tail); O::Exact e(lit + tail);
	try {
		J::Input in(e.view());
		if (in.identifyType(NONE) != Bomba::IStructuredInput::TYPE_STRING) O::fail("read", "not identified as a string");
		std::string got(in.readString(NONE));
		if (got != expect) O::fail("read", "read as " + O::esc(got) + " instead of " + O::esc(expect));
		size_t skip = lit.find('"');
		if (in.storePosition(NONE).loc != (int)lit.size()) O::fail("read", "stopped at " + std::to_string(in.storePosition(NONE).loc) + " instead of " + std::to_string(lit.size()));
	} catch (std::exception& ex) { O::fail("read", std::string("exception ") + ex.what()); }
}
static void sequence() { // one reader, several strings
	std::string doc; std::vector<std::string> t; std::vector<size_t> ends; int n = O::below(5);
	for (int i = 0; i < n; i++) { t.push_back(O::chance(30) ? "" : Ref::text(12)); doc += Ref::wsp() + Ref::literal(t.back()); ends.push_back(doc.size()); doc += ","; }
	O::current("sequence", doc); O::Exact e(doc); J::Input in(e.view());
	try { for (int i = 0; i < n; i++) { std::string got(in.readString(NONE)); if (got != t[i] || in.storePosition(NONE).loc != (int)ends[i]) O::fail("sequence", "string " + std::to_string(i) + " is read as " + O::esc(got)); } } catch (std::exception& ex) { O::fail("sequence", std::string("exception ") + ex.what()); }
}
int O::run() {
	for (int a = 0; a < 256; a++) { writeCase(std::string(1, (char)a), ""); for (int b = 0; b < 256; b++) writeCase(std::string{(char)a, (char)b}, "x"); }
	for (uint32_t c = 0; c < 0x10000; c++) { if (c >= 0xd800 && c < 0xe000) continue; if (!O::thorough && c >= 0x1000 && c % 7) continue; char b[32]; snprintf(b, 32, "\"\\u%04x\"", c); readCase(b, ",", Ref::utf8(c)); }
	for (const char* p : {"\"\\b\\f\\n\\r\\t\\/\\\\\\\"\""}) readCase(p, "", "\b\f\n\r\t/\\\"");
	O::phase(0.45, [] { for (int i = 0; i < 50; i++) writeCase(O::chance(50) ? Ref::text(40) : O::bytes(64), O::bytes(4)); });
	O::phase(0.45, [] { for (int i = 0; i < 50; i++) { auto s = Ref::text(40); readCase(Ref::wsp() + Ref::literal(s), O::bytes(3), s); } });
	O::phase(0.1, [] { for (int i = 0; i < 50; i++) sequence(); });
	return 0;
}
