// Callable paths: random trees; constructed paths against an independent join, found again; arbitrary paths against an independent walk
#include "oracle.hpp"
#include "bomba_core.hpp"
using namespace Bomba;
struct Node : IRemoteCallable { std::string label; std::vector<std::unique_ptr<Node>> kids; Node* up = nullptr; mutable std::vector<std::string> asked;
	Node* add(std::string name) { kids.push_back(std::make_unique<Node>()); Node* k = kids.back().get(); k->label = name; k->up = this; setSelfAsParent(k); return k; }
	const IRemoteCallable* getChild(std::string_view name) const override { O::Exact e(name); asked.push_back(std::string(e.p, e.n)); for (auto& k : kids) if (k->label == name) return k.get(); return nullptr; }
	const IRemoteCallable* getChild(int i) const override { return i >= 0 && i < std::ssize(kids) ? kids[i].get() : nullptr; }
	std::pair<std::string_view, int> childName(const IRemoteCallable* c) const override { for (size_t i = 0; i < kids.size(); i++) if (kids[i].get() == c) return {kids[i]->label, (int)i}; return {"", NO_SUCH_STRUCTURE}; } };
static std::string name() { switch (O::below(5)) { case 0: return std::string(1, "abc"[O::below(3)]); case 1: return O::bytes(40, "abcdefgh_-019"); case 2: return O::bytes(4, "ab"); default: return O::bytes(8, "abcdeXY09_ \x7f\xc3\xa9"); } }
template <StringLiteral Sep> static void trees() {
	std::string sep(Sep.c_str()); Node root; std::vector<Node*> all = {&root}; int n = 1 + O::below(12), deep = O::below(3);
	for (int i = 0; i < n; i++) { Node* p = deep == 0 ? all.back() : all[O::below(all.size())]; std::string l = name(); bool bad = l.empty(); for (auto& k : p->kids) bad |= k->label == l; if (!bad) all.push_back(p->add(l)); }
	using Path = PathWithSeparator<Sep, std::string>;
	for (Node* x : all) {
		std::string want; for (Node* y = x; y->up; y = y->up) want = y == x ? y->label : y->label + sep + want;
		O::current("construct", want); std::string got = Path::constructPath(x); CHECK(got == want, "construct", "'" + O::esc(got) + "' instead of '" + O::esc(want) + "'");
		O::Exact e(got); const IRemoteCallable* f = Path::findCallable(std::string_view(e.p, e.n), &root); CHECK(f == x, "inverse", "'" + O::esc(got) + "' is found as " + (f ? "another one" : "nothing") + " with separator " + sep);
	}
	for (int k = 0; k < 4; k++) { // any path
		std::string p; if (O::chance(60)) { Node* x = all[O::below(all.size())]; for (Node* y = x; y->up; y = y->up) p = y == x ? y->label : y->label + sep + p; }
		switch (O::below(7)) { case 0: p += sep; break; case 1: p = sep + p; break; case 2: p = O::mutate(p); break; case 3: p += sep + name(); break; case 4: p += sep.substr(0, O::below(sep.size() + 1)); break; case 5: { auto at = p.find(sep); if (at != p.npos) p.insert(at, sep); break; } default: { p.clear(); for (int j = O::below(5); j > 0; j--) p += O::chance(40) ? sep : name(); } }
		O::current("find", p); std::vector<std::string> comps; size_t at = 0; while (at < p.size()) { auto e = p.find(sep, at); if (e == p.npos) { comps.push_back(p.substr(at)); break; } comps.push_back(p.substr(at, e - at)); at = e + sep.size(); }
		const Node* want = &root; for (auto& c : comps) { const Node* next = nullptr; for (auto& x : want->kids) if (x->label == c) { next = x.get(); break; } want = next; if (!want) break; }
		O::Exact e(p); const IRemoteCallable* f = Path::findCallable(std::string_view(e.p, e.n), &root); CHECK(f == want, "find", "'" + O::esc(p) + "' finds " + (f ? "'" + static_cast<const Node*>(f)->label + "'" : "nothing") + " instead of " + (want ? "'" + want->label + "'" : "nothing") + " with separator " + sep);
	}
}
int O::run() { O::phase(1, [] { switch (O::below(5)) { case 0: trees<".">(); break; case 1: trees<"/">(); break; case 2: trees<"::">(); break; case 3: trees<"->">(); break; default: trees<"::->">(); } }); return 0; }
