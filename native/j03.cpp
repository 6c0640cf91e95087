#include "jcommon.hpp"
static void tree() {
	auto v = Ref::gen(4); std::string before = O::chance(20) ? O::bytes(4) : ""; std::string ref = Ref::print(*v); O::current("tree", ref);
	std::string out = before; J::Output o(out);
	try {
		writeTree(o, *v);
		if (out.substr(0, before.size()) != before) { O::fail("tree", "earlier output changed"); return; }
		out.erase(0, before.size());
		Ref::P got; try { got = Ref::parse(out); } catch (std::exception& x) { O::fail("write", std::string("output is not JSON: ") + x.what() + " in " + O::esc(out)); return; }
		CHECK(alike(*v, *got), "write", "output denotes something else: " + O::esc(out));
		for (auto* text : {&out, &ref}) {
			O::Exact e(*text + (O::chance(30) ? " " : O::chance(30) ? "]" : "")); J::Input in(e.view()); auto back = readTree(in);
			CHECK(alike(*v, *back), text == &out ? "roundtrip" : "read", "read back as " + Ref::print(*back) + " from " + O::esc(*text));
			CHECK(pos(in) == (int)text->size(), text == &out ? "roundtrip" : "read", "stopped at " + std::to_string(pos(in)) + " of " + std::to_string(text->size()) + " in " + O::esc(*text));
		}
	} catch (std::exception& x) { O::fail("tree", std::string("exception ") + x.what() + " for " + O::esc(out)); }
}
static void fillers() { // the convenience classes
	O::current("fillers", std::to_string(O::seedState)); auto s = O::seedState; std::string out; J::Output o(out); std::string want; int n = O::below(5), m = O::below(4); std::string t = Ref::text(10); int64_t i = Ref::integer(); double d = Ref::real(); bool b = O::chance(50);
	auto ex = Ref::mk(Ref::Value::OBJECT);
	auto val = [] (Ref::Value::Kind k) { return Ref::mk(k); };
	{
		auto f = o.writeObject(O::chance(50) ? -1 : 5 + n);
		auto a = val(Ref::Value::ARRAY);
		{ auto w = f.writeArray("list", O::chance(50) ? -1 : m * 3); if (m == 0) {} for (int k = 0; k < m; k++) { w.writeInt(i); w.writeString(t); auto o2 = w.writeObject(O::chance(50) ? -1 : 1); o2.writeFloat("d", d); auto x = val(Ref::Value::INT); x->i = i; a->a.push_back(x); x = val(Ref::Value::STRING); x->s = t; a->a.push_back(x); x = val(Ref::Value::OBJECT); auto y = val(Ref::Value::FLOAT); y->d = d; x->o.emplace_back("d", y); a->a.push_back(x); } }
		ex->o.emplace_back("list", a);
		f.writeNull("null"); ex->o.emplace_back("null", val(Ref::Value::NUL));
		f.writeBool(t, b); auto y = val(Ref::Value::BOOL); y->b = b; ex->o.emplace_back(t, y);
		f.writeInt("i", i); y = val(Ref::Value::INT); y->i = i; ex->o.emplace_back("i", y);
		for (int k = 0; k < n; k++) { f.writeString("s", t); y = val(Ref::Value::STRING); y->s = t; ex->o.emplace_back("s", y); }
		{ auto sub = f.writeObject("sub", O::chance(50) ? -1 : 2); sub.writeBool("b", !b); auto in = sub.writeArray("e", 1); auto deep = in.writeArray(O::chance(50) ? 1 : -1); deep.writeNull(); }
		auto so = val(Ref::Value::OBJECT); y = val(Ref::Value::BOOL); y->b = !b; so->o.emplace_back("b", y); auto e1 = val(Ref::Value::ARRAY), e2 = val(Ref::Value::ARRAY); e2->a.push_back(val(Ref::Value::NUL)); e1->a.push_back(e2); so->o.emplace_back("e", e1); ex->o.emplace_back("sub", so);
	}
	try { auto got = Ref::parse(out); CHECK(alike(*ex, *got), "fillers", "output denotes something else: " + O::esc(out)); } catch (std::exception& x) { O::fail("fillers", std::string("output is not JSON: ") + x.what() + " in " + O::esc(out)); }
}
static void stop() { // a member callback may stop early: the reader ends up at the member that follows, nothing is called again
	auto v = Ref::mk(Ref::Value::OBJECT); int n = 1 + O::below(5), at = O::below(n); for (int i = 0; i < n; i++) { v->o.emplace_back(std::string(1, 'a' + i), Ref::gen(2)); }
	std::string s = Ref::print(*v); O::current("stop", s); O::Exact e(s); J::Input in(e.view()); int calls = 0;
	try { in.readObject(NONE, [&] (std::optional<std::string_view> name, int index) { CHECK(name && *name == v->o[calls].first && index == calls, "stop", "wrong member"); calls++; readTree(in); return index < at; }); CHECK(calls == at + 1, "stop", "callback ran " + std::to_string(calls) + " times"); } catch (std::exception& x) { O::fail("stop", std::string("exception ") + x.what()); }
}
int O::run() {
	O::phase(0.7, [] { for (int i = 0; i < 20; i++) tree(); });
	O::phase(0.15, [] { for (int i = 0; i < 20; i++) fillers(); });
	O::phase(0.1, [] { for (int i = 0; i < 20; i++) stop(); });
	return 0;
}
