// independent model of the binary format
#pragma once
#include "oracle.hpp"
#include "bomba_binary_protocol.hpp"
namespace R {
using F = Bomba::SerialisationFlags::Flags;
enum Kind { INT, REAL, BOOL, NUL, STR, ARR, OBJ, LAYOUT, OPT };
struct Num { int flag, size; bool sign; };
static const Num ints[] = {{0, 4, true}, {0x100, 1, true}, {0x110, 1, false}, {0x120, 2, true}, {0x130, 2, false}, {0x140, 4, true}, {0x150, 4, false}, {0x160, 8, true}, {0x170, 8, false}};
inline Num num(int flag) { for (auto& n : ints) if (n.flag == flag) return n; return {flag, flag == 0x180 ? 2 : flag == 0x190 ? 4 : 8, true}; }
struct Value { Kind kind; int flag = 0; int64_t i = 0; double d = 0; bool b = false; std::string s; std::vector<std::pair<std::string, std::unique_ptr<Value>>> kids; };
inline void le(std::string& out, uint64_t v, int n) { for (int k = 0; k < n; k++) out += char(v >> (8 * k)); }
// half precision by arithmetic, not by bits
inline uint16_t half(double v) { if (std::isnan(v)) return 0x7e00; uint16_t s = std::signbit(v) ? 0x8000 : 0; v = std::fabs(v); if (v >= 65536) return s | 0x7c00; if (v == 0) return s; int e; std::frexp(v, &e); e -= 1; if (e < -14) return s | uint16_t(std::floor(std::ldexp(v, 24))); return s | ((e + 15) << 10) | uint16_t(std::floor(std::ldexp(v, 10 - e)) - 1024); }
inline double unhalf(uint16_t h) { int e = h >> 10 & 31, m = h & 1023; double v = e == 31 ? (m ? NAN : INFINITY) : e ? std::ldexp(1024 + m, e - 25) : std::ldexp(m, -24); return h & 0x8000 ? -v : v; }
inline void size(std::string& out, uint64_t n, int flag, int width) { le(out, n, flag ? num(flag).size : width); }
inline bool sizeFits(uint64_t n, int flag, int width) { int w = flag ? num(flag).size : width; bool sg = flag && num(flag).sign; return w >= 8 || n < (1ull << (8 * w - sg)); }
inline void encode(const Value& v, std::string& out, int width) {
	switch (v.kind) {
		case INT: le(out, v.i, num(v.flag).size); break;
		case REAL: if (v.flag == 0x180) le(out, half(float(v.d)), 2); else if (v.flag == 0x190) { float f = v.d; uint32_t b; memcpy(&b, &f, 4); le(out, b, 4); } else { uint64_t b; memcpy(&b, &v.d, 8); le(out, b, 8); } break;
		case BOOL: out += char(v.b); break;
		case NUL: break;
		case STR: size(out, v.s.size(), v.flag, width); out += v.s; break;
		case ARR: size(out, v.kids.size(), v.flag, width); for (auto& k : v.kids) encode(*k.second, out, width); break;
		case OBJ: size(out, v.kids.size(), v.flag, width); for (auto& k : v.kids) { size(out, k.first.size(), v.flag, width); out += k.first; encode(*k.second, out, width); } break;
		case LAYOUT: for (auto& k : v.kids) encode(*k.second, out, width); break;
		case OPT: out += char(!v.kids.empty()); for (auto& k : v.kids) encode(*k.second, out, width); break;
	}
}
inline int64_t clip(int64_t v, int flag) { Num n = num(flag); if (n.size == 8) return v; uint64_t u = uint64_t(v) << (64 - 8 * n.size); return n.sign ? int64_t(u) >> (64 - 8 * n.size) : int64_t(u >> (64 - 8 * n.size)); }
inline std::unique_ptr<Value> gen(int depth, int arrays = 3) {
	auto v = std::make_unique<Value>(); int k = O::below(depth > 0 ? 9 : 5); if (k == ARR && !arrays) k = INT; v->kind = Kind(k); static const int64_t edge[] = {0, 1, -1, 127, -128, 255, 32767, -32768, 65535, INT32_MAX, INT32_MIN, UINT32_MAX, INT64_MAX, INT64_MIN};
	static const int sizeFlags[] = {0, 0, 0, 0x110, 0x130, 0x140, 0x150, 0x160, 0x170, 0x120, 0x100};
	switch (k) {
		case INT: v->flag = ints[O::below(9)].flag; v->i = clip(O::chance(40) ? edge[O::below(14)] : (int64_t)O::rnd() >> O::below(60), v->flag); break;
		case REAL: v->flag = 0x180 + 16 * O::below(3); if (v->flag == 0x180) v->d = unhalf(O::below(0x7c00) | (O::chance(50) << 15)); else if (v->flag == 0x190) { uint32_t b = O::rnd(); float f; memcpy(&f, &b, 4); v->d = std::isnan(f) ? 1.5 : f; } else { uint64_t b = O::rnd(); memcpy(&v->d, &b, 8); if (std::isnan(v->d)) v->d = -0.0; } break;
		case BOOL: v->b = O::chance(50); v->flag = O::chance(40) ? ints[O::below(9)].flag : 0; break;
		case STR: v->flag = sizeFlags[O::below(11)]; v->s = O::bytes(v->flag == 0x100 ? 127 : 255); if (!O::below(30)) { v->s.resize(256 + O::below(2000), 'x'); if (v->flag == 0x100 || v->flag == 0x110) v->flag = 0; } break;
		case ARR: v->flag = sizeFlags[O::below(11)]; for (int n = 1 + O::below(5); n--;) v->kids.emplace_back("", gen(depth - 1, arrays - 1)); break;
		case OBJ: v->flag = sizeFlags[O::below(11)]; for (int n = O::below(5); n--;) v->kids.emplace_back(O::bytes(12), gen(depth - 1, arrays)); break;
		case LAYOUT: for (int n = O::below(5); n--;) v->kids.emplace_back(O::bytes(5), gen(depth - 1, arrays)); break;
		case OPT: v->flag = O::chance(50) ? ints[O::below(9)].flag : 0; if (O::chance(60)) v->kids.emplace_back("", gen(depth - 1, arrays)); break;
	}
	return v;
}
inline bool fits(const Value& v, int width) {
	if (v.kind == STR) return sizeFits(v.s.size(), v.flag, width); if (v.kind == ARR || v.kind == OBJ) if (!sizeFits(v.kids.size(), v.flag, width)) return false;
	for (auto& k : v.kids) { if (v.kind == OBJ && !sizeFits(k.first.size(), v.flag, width)) return false; if (!fits(*k.second, width)) return false; } return true;
}
inline void write(const Value& v, Bomba::IStructuredOutput& out) {
	F f = F(v.flag);
	switch (v.kind) {
		case INT: out.writeInt(f, v.i); break;
		case REAL: out.writeFloat(f, v.d); break;
		case BOOL: out.writeBool(f, v.b); break;
		case NUL: out.writeNull(f); break;
		case STR: out.writeString(f, v.s); break;
		case ARR: { int n = 0; out.startWritingArray(f, v.kids.size()); for (auto& k : v.kids) { out.introduceArrayElement(f, n++); write(*k.second, out); } out.endWritingArray(f); break; }
		case LAYOUT: f = F(1); [[fallthrough]];
		case OBJ: { int n = 0; out.startWritingObject(f, v.kids.size()); for (auto& k : v.kids) { out.introduceObjectMember(f, k.first, n++); write(*k.second, out); } out.endWritingObject(f); break; }
		case OPT: out.writeOptional(f, !v.kids.empty(), [&] { write(*v.kids[0].second, out); }); break;
	}
}
inline bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
// reads what v describes and compares; reports differences under key
inline void read(const Value& v, Bomba::IStructuredInput& in, const char* key) {
	F f = F(v.flag); auto show = [] (int64_t a) { return std::to_string(a); };
	switch (v.kind) {
		case INT: { auto r = in.readInt(f); CHECK(r == v.i, key, "integer " + show(v.i) + " of type " + show(v.flag) + " read as " + show(r)); break; }
		case REAL: { auto r = in.readFloat(f); CHECK(same(r, v.d), key, "float " + std::to_string(v.d) + " of type " + show(v.flag) + " read as " + std::to_string(r)); break; }
		case BOOL: { auto r = in.readBool(f); CHECK(r == v.b, key, "boolean"); break; }
		case NUL: in.readNull(f); break;
		case STR: { auto r = in.readString(f); CHECK(r == v.s, key, "text " + O::esc(v.s) + " read as " + O::esc(r)); break; }
		case ARR: { in.startReadingArray(f); size_t n = 0; do { if (n < v.kids.size()) read(*v.kids[n].second, in, key); n++; } while (n < 100 && in.nextArrayElement(f)); CHECK(n == v.kids.size(), key, show(v.kids.size()) + " elements read as " + show(n)); in.endReadingArray(f); break; }
		case OBJ: { int n = 0; in.readObject(f, [&] (std::optional<std::string_view> name, int index) { if (n >= (int)v.kids.size()) { O::fail(key, "too many members"); return false; } CHECK(name && *name == v.kids[n].first && index == n, key, "member " + show(n) + " announced as " + (name ? O::esc(*name) : "nothing") + " " + show(index)); read(*v.kids[n].second, in, key); n++; return true; }); CHECK(n == (int)v.kids.size(), key, "members missing"); break; }
		case LAYOUT: { int n = 0; in.readObject(F(1), [&] (std::optional<std::string_view> name, int index) { CHECK(!name && index == n, key, "member of known layout"); if (n >= (int)v.kids.size()) return false; read(*v.kids[n].second, in, key); n++; return true; }); break; }
		case OPT: { bool called = false; bool r = in.readOptional(f, [&] { called = true; if (!v.kids.empty()) read(*v.kids[0].second, in, key); }); CHECK(r == !v.kids.empty() && called == r, key, "optional"); break; }
	}
}
}
