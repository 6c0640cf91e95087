#include "bcommon.hpp"
using namespace R;
// reads along the shape of v from arbitrary bytes: anything but ParseError (or the nesting limit) is wrong, as is leaving the input
template <typename In> void follow(const Value& v, In& in, std::string_view all, int& budget) {
	F f = F(v.flag); auto inside = [&] (std::string_view t) { CHECK(t.empty() || (t.data() >= all.data() && t.data() + t.size() <= all.data() + all.size()), "inside", "a text of " + std::to_string(t.size()) + " bytes from outside the input"); uint8_t sum = 0; for (char c : t) sum += c; volatile uint8_t keep = sum; (void)keep; };
	if (--budget < 0) return;
	switch (v.kind) {
		case INT: in.readInt(f); break; case REAL: in.readFloat(f); break; case BOOL: in.readBool(f); break; case NUL: in.readNull(f); break; case STR: inside(in.readString(f)); break;
		case ARR: { in.startReadingArray(f); size_t n = 0; do { follow(*v.kids[n++ % v.kids.size()].second, in, all, budget); } while (budget > 0 && in.nextArrayElement(f)); in.endReadingArray(f); break; }
		case OBJ: { if (v.kids.empty()) { in.readObject(f, [&] (std::optional<std::string_view> name, int) { if (name) inside(*name); return --budget > 0; }); break; } size_t n = 0; in.readObject(f, [&] (std::optional<std::string_view> name, int) { if (name) inside(*name); follow(*v.kids[n++ % v.kids.size()].second, in, all, budget); return budget > 0; }); break; }
		case LAYOUT: { size_t n = 0; in.readObject(F(1), [&] (std::optional<std::string_view>, int) { if (n >= v.kids.size()) return false; follow(*v.kids[n++].second, in, all, budget); return true; }); break; }
		case OPT: in.readOptional(f, [&] { if (!v.kids.empty()) follow(*v.kids[0].second, in, all, budget); }); break;
	}
	CHECK(in.position() >= 0 && in.position() <= (int)all.size(), "inside", "position " + std::to_string(in.position()) + " of " + std::to_string(all.size()));
}
template <typename S> void one() {
	using B = Bomba::BinaryFormat<std::string, S>; auto v = gen(3); if (!fits(*v, sizeof(S))) return; std::string enc; encode(*v, enc, sizeof(S));
	auto attempt = [&] (std::string s, bool cut) { O::current(cut ? "cut" : "arbitrary", s); O::Exact e(s); typename B::Input in(e.view()); int budget = 500; bool reported = false;
		try { follow(*v, in, e.view(), budget); } catch (Bomba::ParseError&) { reported = true; } catch (std::logic_error& x) { if (cut) O::fail("cut", x.what()); } catch (std::exception& x) { O::fail("error", std::string("wrong exception: ") + x.what()); }
		if (cut) CHECK(reported, "cut", "input cut from " + std::to_string(enc.size()) + " to " + std::to_string(s.size()) + " bytes is not reported"); };
	for (int i = 0; i < 6 && !enc.empty(); i++) attempt(enc.substr(0, O::below(enc.size())), true);
	for (int i = 0; i < 6; i++) attempt(O::mutate(enc), false);
	attempt(O::bytes(60), false); std::string ff(O::below(30), '\xff'); attempt(ff, false);
}
static void deep() { // more levels than the format has
	using B = Bomba::BinaryFormat<>; std::string s; for (int i = 0; i < 6; i++) s += std::string("\2\0", 2); O::current("deep", s); O::Exact e(s); B::Input in(e.view()); int n = 0; bool refused = false; try { for (; n < 6; n++) in.startReadingArray(F::NONE); } catch (std::logic_error&) { refused = true; } CHECK(refused && n == 3, "deep", "nesting of " + std::to_string(n) + " levels accepted");
}
int O::run() { deep(); O::phase(0.95, [] { for (int i = 0; i < 20; i++) { one<uint16_t>(); one<uint8_t>(); one<int32_t>(); one<int64_t>(); } }); return 0; }
