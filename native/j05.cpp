#include "jcommon.hpp"
static void skipCase() { // a value with something behind it, inside an array or object or alone
	auto v = Ref::gen(4); std::string s = Ref::print(*v); static const char* sep[] = {",", " ,", "]", "}", "", " ", "\n]", "\t}", ",\n\t", " , "}; std::string t = sep[O::below(10)]; std::string lead = Ref::wsp(); std::string all = lead + s + t;
	auto next = Ref::gen(1); bool more = t.find(',') != t.npos; if (more) all += Ref::print(*next) + (O::chance(50) ? "]" : "}");
	O::current("skip", all); O::Exact e(all); J::Input in(e.view());
	try {
		in.skipObjectElement(NONE); size_t lo = (lead + s).size();
		CHECK(pos(in) == (int)lo, "skip", "stopped at " + std::to_string(pos(in)) + " instead of " + std::to_string(lo));
		if (more) { auto got = readTree(in); CHECK(alike(*next, *got), "skip", "the value behind is read as " + Ref::print(*got)); }
	} catch (std::exception& x) { O::fail("skip", std::string("exception ") + x.what()); }
}
static void member() { // skipping some members does not disturb the others
	auto v = Ref::mk(Ref::Value::OBJECT); int n = 1 + O::below(6); for (int i = 0; i < n; i++) v->o.emplace_back(std::string(1, 'a' + i) + Ref::text(3), Ref::gen(3));
	std::string s = Ref::print(*v); O::current("member", s); O::Exact e(s + " x"); J::Input in(e.view()); int i = 0; uint64_t mask = O::rnd();
	try {
		in.readObject(NONE, [&] (std::optional<std::string_view> name, int index) {
			if (i >= n) { O::fail("member", "too many members"); return false; }
			CHECK(name && *name == v->o[i].first && index == i, "member", "member " + std::to_string(i) + " is announced as " + (name ? std::string(*name) : "nothing"));
			auto at = in.storePosition(NONE);
			if (mask >> i & 1) in.skipObjectElement(NONE); else { auto got = readTree(in); CHECK(alike(*v->o[i].second, *got), "member", "member read as " + Ref::print(*got)); }
			if (mask >> (i + 8) & 1) { // go back and read again, as a method called before its name is known
				auto after = in.storePosition(NONE); in.restorePosition(NONE, at); auto got = readTree(in); CHECK(alike(*v->o[i].second, *got), "seek", "after going back, read as " + Ref::print(*got)); in.restorePosition(NONE, after);
			}
			i++; return true; });
		CHECK(i == n, "member", "only " + std::to_string(i) + " members"); CHECK(pos(in) == (int)s.size(), "member", "stopped at " + std::to_string(pos(in)));
	} catch (std::exception& x) { O::fail("member", std::string("exception ") + x.what()); }
}
int O::run() {
	O::phase(0.5, [] { for (int i = 0; i < 20; i++) skipCase(); });
	O::phase(0.45, [] { for (int i = 0; i < 20; i++) member(); });
	return 0;
}
