#include "bcommon.hpp"
using namespace R; using B = Bomba::BinaryFormat<>;
static void halves() {
	for (int h = 0; h < 65536; h++) { double v = unhalf(h); if (std::isnan(v)) continue; std::string bytes; le(bytes, h, 2); O::current("half", bytes); B::Input in(bytes); double r = in.readFloat(F::FLOAT_16); CHECK(same(r, v), "half", "bits " + std::to_string(h) + " read as " + std::to_string(r) + " instead of " + std::to_string(v));
		std::string o; B::Output out(o); out.writeFloat(F::FLOAT_16, v); CHECK(o == bytes, "half", "value " + std::to_string(v) + " written as " + O::esc(o)); }
}
static void sequence() { // many numbers behind each other
	std::vector<std::unique_ptr<Value>> vs; std::string want, got; B::Output out(got); int n = 1 + O::below(12);
	while ((int)vs.size() < n) { auto v = gen(0); if (v->kind > REAL) continue; if (v->kind == INT && O::chance(20)) v->i = (int64_t)O::rnd(); encode(*v, want, 2); vs.push_back(std::move(v)); }
	O::current("layout", want); for (auto& v : vs) write(*v, out); CHECK(got == want, "layout", "written as " + O::esc(got) + " instead of " + O::esc(want));
	O::Exact e(want); B::Input in(e.view());
	try { for (auto& v : vs) { if (v->kind == INT) v->i = clip(v->i, v->flag); read(*v, in, "number"); } CHECK(in.position() == (int)want.size(), "number", "position " + std::to_string(in.position())); } catch (std::exception& x) { O::fail("number", x.what()); }
}
int O::run() { halves(); O::phase(0.9, [] { for (int i = 0; i < 50; i++) sequence(); }); return 0; }
