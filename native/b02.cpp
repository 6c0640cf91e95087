#include "bcommon.hpp"
using namespace R;
template <typename S> void tree() {
	using B = Bomba::BinaryFormat<std::string, S>; auto v = gen(4); if (!fits(*v, sizeof(S))) return;
	std::string want; encode(*v, want, sizeof(S)); O::current("layout", want); std::string got; typename B::Output out(got);
	try { write(*v, out); CHECK(got == want, "layout", "written as " + O::esc(got)); } catch (std::exception& x) { O::fail("layout", x.what()); }
	std::string tail = O::bytes(4); O::Exact e(want + tail); typename B::Input in(e.view()); int elsewhere = O::below(3);
	try { auto at = in.storePosition(F::NONE); read(*v, in, "value"); CHECK(in.position() == (int)want.size(), "value", "position " + std::to_string(in.position()) + " instead of " + std::to_string(want.size())); if (elsewhere) { in.restorePosition(F::NONE, at); read(*v, in, "again"); } } catch (std::exception& x) { O::fail("value", x.what()); }
}
static void fillers() { // the convenience classes
	std::string got, want; using B = Bomba::BinaryFormat<>; B::Output out(got); int n = O::below(5); std::vector<std::string> t; std::vector<int> nums; for (int i = 0; i < n; i++) { t.push_back(O::bytes(9)); nums.push_back((int)O::rnd()); }
	le(want, n, 2); for (int i = 0; i < n; i++) { if (i & 1) le(want, nums[i], 4); else { le(want, t[i].size(), 2); want += t[i]; } }
	le(want, n, 2); for (int i = 0; i < n; i++) { le(want, t[i].size(), 2); want += t[i]; if (i % 3 == 2) want += char(nums[i] & 1); else if (i & 1) le(want, nums[i], 4); else { le(want, 2, 2); le(want, i, 4); le(want, nums[i], 4); } }
	O::current("filler", want);
	try { { auto a = out.writeArray(n); for (int i = 0; i < n; i++) if (i & 1) a.writeInt(nums[i]); else a.writeString(t[i]); }
		{ auto o = out.writeObject(n); for (int i = 0; i < n; i++) if (i % 3 == 2) o.writeBool(t[i], nums[i] & 1); else if (i & 1) o.writeInt(t[i], nums[i]); else { auto a = o.writeArray(t[i], 2); a.writeInt(i); a.writeInt(nums[i]); } }
		CHECK(got == want, "filler", "written as " + O::esc(got)); } catch (std::exception& x) { O::fail("filler", x.what()); }
}
int O::run() { O::phase(0.95, [] { for (int i = 0; i < 20; i++) { tree<uint16_t>(); tree<uint8_t>(); tree<uint32_t>(); tree<int64_t>(); } fillers(); }); return 0; }
