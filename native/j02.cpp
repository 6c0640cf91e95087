#include "jcommon.hpp"
static std::string tail() { static const char* t[] = {"", ",", " ", "\n", "]", "}", ",1", " ,\"a\"", "\t}", "]]", ", 0.5", "\n\t]", "}e", "]-"}; return t[O::below(14)]; }
static void readInt(const std::string& lit, int64_t v, const std::string& lead, const std::string& t) {
	O::current("int", lead + lit + t); O::Exact e(lead + lit + t); J::Input in(e.view());
	try {
		auto ty = in.identifyType(NONE); CHECK(ty == IStructuredInput::TYPE_INTEGER, "int", "identified as type " + std::to_string(ty));
		int64_t got = in.readInt(NONE); CHECK(got == v, "int", "read as " + std::to_string(got)); CHECK(pos(in) == (int)(lead + lit).size(), "int", "stopped at " + std::to_string(pos(in)));
		J::Input f(e.view()); double d = f.readFloat(NONE); CHECK(d == (double)v, "int", "read as the double " + num(d)); CHECK(pos(f) == (int)(lead + lit).size(), "int", "as double stopped at " + std::to_string(pos(f)));
	} catch (std::exception& x) { O::fail("int", std::string("exception ") + x.what()); }
}
static void readReal(const std::string& lit, double v, const std::string& lead, const std::string& t) {
	O::current("float", lead + lit + t); O::Exact e(lead + lit + t); J::Input in(e.view());
	bool mark = lit.find_first_of(".eE") != lit.npos;
	try {
		auto ty = in.identifyType(NONE); CHECK(ty == (mark ? IStructuredInput::TYPE_FLOAT : IStructuredInput::TYPE_INTEGER), "float", "identified as type " + std::to_string(ty));
		double got = in.readFloat(NONE); CHECK(sameBits(got, v), "float", "read as " + num(got) + " instead of " + num(v)); CHECK(pos(in) == (int)(lead + lit).size(), "float", "stopped at " + std::to_string(pos(in)));
		if (fabs(v) < 1e15) { J::Input i(e.view()); i.readInt(NONE); CHECK(pos(i) == (int)(lead + lit).size(), "float", "read as an integer, stopped at " + std::to_string(pos(i))); }
	} catch (std::exception& x) { O::fail("float", std::string("exception ") + x.what()); }
}
static void writeInt(int64_t v) {
	O::current("writeInt", std::to_string(v)); std::string out = O::chance(20) ? "[" : ""; size_t n = out.size(); J::Output o(out); o.writeInt(NONE, v);
	CHECK(out.substr(n) == std::to_string(v), "writeInt", "written as " + out); readInt(out.substr(n), v, Ref::wsp(), tail());
}
static void writeReal(double v) {
	O::current("writeFloat", num(v)); std::string out; J::Output o(out); o.writeFloat(NONE, v);
	try { size_t end; auto p = Ref::parse(out, &end); double d = p->kind == Ref::Value::INT ? (double)p->i : p->d; if (end != out.size() || (p->kind != Ref::Value::INT && p->kind != Ref::Value::FLOAT) || d != v) O::fail("writeFloat", "written as " + out + ", that denotes " + num(d)); }
	catch (std::exception& x) { char* e; double d = strtod(out.c_str(), &e); if (*e || d != v || out.find_first_not_of("-0123456789") != out.npos) O::fail("writeFloat", "written as " + out + ": " + x.what()); }
	readReal(out, v, Ref::wsp(), tail());
}
static void word(const std::string& w, IStructuredInput::MemberType ty, bool b) {
	std::string lead = Ref::wsp(), t = tail(); O::current("word", lead + w + t); O::Exact e(lead + w + t); J::Input in(e.view());
	try {
		auto got = in.identifyType(NONE); CHECK(got == ty, "word", "identified as " + std::to_string(got));
		if (ty == IStructuredInput::TYPE_NULL) in.readNull(NONE); else CHECK(in.readBool(NONE) == b, "word", "read as the other value");
		CHECK(pos(in) == (int)(lead + w).size(), "word", "stopped at " + std::to_string(pos(in)));
		std::string out; J::Output o(out); if (ty == IStructuredInput::TYPE_NULL) o.writeNull(NONE); else o.writeBool(NONE, b); CHECK(out == w, "word", "written as " + out);
		J::Input c(e.view()); bool called = false; bool present = c.readOptional(NONE, [&] { called = true; });
		CHECK(present == called && present == (ty != IStructuredInput::TYPE_NULL), "word", "readOptional"); if (!present) CHECK(pos(c) == (int)(lead + w).size(), "word", "optional null not consumed");
		std::string so; J::Output oo(so); oo.writeOptional(NONE, ty != IStructuredInput::TYPE_NULL, [&] { oo.writeBool(NONE, b); }); CHECK(so == w, "word", "optional written as " + so);
	} catch (std::exception& x) { O::fail("word", std::string("exception ") + x.what()); }
}
// whatever is not a literal must be reported
static void wrong() {
	static const char* w[] = {"tru", "trux", "True", "fals", "falze", "nul", "nulk", "nUll", "-", "abc", "\"x\"", "", "[", "99999999999999999999", "-9223372036854775809"};
	std::string s = w[O::below(15)]; O::current("wrong", s); O::Exact e(s); bool thrown = false;
	for (int k = 0; k < 3; k++) { J::Input in(e.view()); thrown = false; try { if (k == 0) in.readBool(NONE); else if (k == 1) in.readNull(NONE); else in.readInt(NONE); } catch (std::runtime_error&) { thrown = true; } CHECK(thrown, "wrong", k == 0 ? "accepted as a boolean" : k == 1 ? "accepted as null" : "accepted as an integer"); }
}
int O::run() {
	for (int sh = 0; sh < 64; sh++) for (int d = -2; d <= 2; d++) { writeInt((int64_t)((1ull << sh) + d)); writeInt((int64_t)(0 - (1ull << sh) + d)); }
	int64_t p = 1; for (int k = 0; k < 19; k++, p *= k < 19 ? 10 : 1) for (int d = -1; d <= 1; d++) { writeInt(p + d); writeInt(-p + d); }
	writeInt(INT64_MAX); writeInt(INT64_MIN);
	for (int i = -2000; i < 2000; i++) { writeInt(i); writeReal(i / 8.0); writeReal(i / 100.0); }
	for (double d : {0.0, -0.0, 5e-324, -5e-324, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, -2.2250738585072014e-308, 1e22, 1e21, 1e300, -1e-300, 123456789012345680.0, -1.2345678901234567e-308, 0.1, 1e5, 1e16, 9007199254740993.0}) writeReal(d);
	O::phase(0.25, [] { for (int i = 0; i < 100; i++) writeInt(Ref::integer()); });
	O::phase(0.3, [] { for (int i = 0; i < 100; i++) writeReal(Ref::real()); });
	O::phase(0.2, [] { for (int i = 0; i < 100; i++) { double v = Ref::real(); char b[64]; static const char* f[] = {"%.17g", "%.16e", "%.3e", "%.2E", "%.1f", "%.20g", "%.0e"}; int k = O::below(7); if (k == 4) v = fmod(v, 1e9); snprintf(b, 64, f[k], v); std::string s = b; if (O::chance(20)) { auto e = s.find("e+"); if (e != s.npos) s.erase(e + 1, 1); } if (std::isinf(strtod(s.c_str(), 0))) continue; if (strtod(s.c_str(), 0) == 0 && v != 0) continue; readReal(s, strtod(s.c_str(), 0), Ref::wsp(), tail()); } });
	O::phase(0.1, [] { for (int i = 0; i < 50; i++) { word("true", IStructuredInput::TYPE_BOOLEAN, true); word("false", IStructuredInput::TYPE_BOOLEAN, false); word("null", IStructuredInput::TYPE_NULL, false); } });
	O::phase(0.05, [] { for (int i = 0; i < 50; i++) wrong(); });
	return 0;
}
