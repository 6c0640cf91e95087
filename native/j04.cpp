#include "jcommon.hpp"
static void tryAll(const std::string& s) { // every operation at every position of interest: returns or throws the parser's errors
	O::Exact e(s);
	static const char* names[] = {"identifyType", "readInt", "readFloat", "readString", "readBool", "readNull", "startReadingArray", "nextArrayElement", "endReadingArray", "readObject", "skip", "readOptional", "tree"};
	for (int op = 0; op < 13; op++) {
		int p = op == 12 ? 0 : (int)O::below(s.size() + 1);
		O::current(names[op], std::to_string(p) + ":" + s); J::Input in(e.view()); in.restorePosition(NONE, {p});
		try {
			switch (op) {
				case 0: in.identifyType(NONE); break; case 1: in.readInt(NONE); break; case 2: in.readFloat(NONE); break; case 3: in.readString(NONE); break; case 4: in.readBool(NONE); break; case 5: in.readNull(NONE); break;
				case 6: in.startReadingArray(NONE); break; case 7: in.nextArrayElement(NONE); break; case 8: in.endReadingArray(NONE); break;
				case 9: in.readObject(NONE, [&] (std::optional<std::string_view>, int) { if (O::chance(30)) readTree(in); else in.skipObjectElement(NONE); return O::chance(90); }); break;
				case 10: in.skipObjectElement(NONE); break; case 11: in.readOptional(NONE, [&] { readTree(in); }); break; case 12: readTree(in); break;
			}
		} catch (Bomba::ParseError&) {} catch (Bomba::RemoteError&) {} catch (std::runtime_error& x) { if (op != 12 && op != 9 && op != 11) O::fail(names[op], std::string("other exception ") + x.what()); }
		catch (std::exception& x) { O::fail(names[op], std::string("other exception ") + x.what()); }
		CHECK(pos(in) >= 0 && pos(in) <= (int)s.size(), names[op], "position " + std::to_string(pos(in)) + " outside the input");
	}
}
// a document cut anywhere is never taken for complete
static void cut() {
	auto v = Ref::mk(O::chance(50) ? Ref::Value::ARRAY : Ref::Value::OBJECT); for (int n = O::below(4); n >= 0; n--) { if (v->kind == Ref::Value::ARRAY) v->a.push_back(Ref::gen(2)); else v->o.emplace_back(Ref::text(4), Ref::gen(2)); }
	std::string s = Ref::print(*v); size_t k = O::below(s.size()); s.resize(k); O::current("cut", s); O::Exact e(s);
	try { J::Input in(e.view()); readTree(in); O::fail("cut", "a document cut after " + std::to_string(k) + " bytes is read without an error"); } catch (std::runtime_error&) {}
	catch (std::exception& x) { O::fail("cut", std::string("other exception ") + x.what()); }
}
int O::run() {
	for (int a = 0; a < 256; a++) tryAll(std::string(1, (char)a));
	for (const char* s : {"", "\"", "\"\\", "\"\\u", "\"\\u12", "\"\\ud800", "\"\\ud800\\", "\"\\ud800\\u", "{", "[", "{\"", "{\"a", "{\"a\"", "{\"a\":", "[1", "[1,", "-", "1e", "1e+", "tru", "nul", "   ", ",,,:::", "}", "]", "{]", "[}", "\"a\\"}) for (int i = 0; i < 5; i++) tryAll(s);
	O::phase(0.35, [] { std::string alpha = "\"\\{}[],:0123456789.eE+-truefalsn u\t\n/bd"; for (int i = 0; i < 20; i++) tryAll(O::bytes(40, alpha)); });
	O::phase(0.2, [] { for (int i = 0; i < 20; i++) tryAll(O::bytes(60)); });
	O::phase(0.25, [] { for (int i = 0; i < 20; i++) tryAll(O::mutate(Ref::print(*Ref::gen(3)))); });
	O::phase(0.15, [] { for (int i = 0; i < 20; i++) cut(); });
	return 0;
}
