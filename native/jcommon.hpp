// Shared by the JSON drivers
#pragma once
#include "bomba_core.hpp"
#include "bomba_json.hpp"
#include "json_ref.hpp"
using J = Bomba::BasicJson<std::string>;
constexpr auto NONE = Bomba::SerialisationFlags::NONE;
using Bomba::IStructuredInput; using Bomba::IStructuredOutput;
inline std::string num(double d) { char b[64]; snprintf(b, 64, "%.17g", d); return b; }
inline bool sameBits(double a, double b) { return memcmp(&a, &b, 8) == 0; }
inline int pos(J::Input& in) { return in.storePosition(NONE).loc; }
// writes a tree through the structured output interface, with known or unknown sizes
template <typename Out> void writeTree(Out& o, const Ref::Value& v, bool optional = true, Bomba::SerialisationFlags::Flags F = NONE) {
	using K = Ref::Value;
	if (optional && O::chance(10)) { bool present = v.kind != K::NUL; o.writeOptional(F, present, [&] { writeTree(o, v, false, F); }); return; }
	switch (v.kind) {
		case K::NUL: o.writeNull(F); break; case K::BOOL: o.writeBool(F, v.b); break; case K::INT: o.writeInt(F, v.i); break; case K::FLOAT: o.writeFloat(F, v.d); break; case K::STRING: o.writeString(F, v.s); break;
		case K::ARRAY: { o.startWritingArray(F, O::chance(50) ? (int)v.a.size() : (v.a.empty() ? 0 : IStructuredOutput::UNKNOWN_SIZE)); int i = 0; for (auto& e : v.a) { o.introduceArrayElement(F, i++); writeTree(o, *e, optional, F); } o.endWritingArray(F); break; }
		case K::OBJECT: { o.startWritingObject(F, O::chance(50) ? (int)v.o.size() : (v.o.empty() ? 0 : IStructuredOutput::UNKNOWN_SIZE)); int i = 0; for (auto& [k, e] : v.o) { o.introduceObjectMember(F, k, i++); writeTree(o, *e, optional, F); } o.endWritingObject(F); break; }
	}
}
// reads any value through the structured input interface
template <typename In> Ref::P readTree(In& in, int depth = 0) {
	using K = Ref::Value;
	if (depth > 200) throw std::runtime_error("too deep");
	switch (in.identifyType(NONE)) {
		case IStructuredInput::TYPE_INTEGER: { auto v = Ref::mk(K::INT); auto at = in.storePosition(NONE); try { v->i = in.readInt(NONE); } catch (Bomba::RemoteError&) { in.restorePosition(NONE, at); in.good = true; v->kind = K::FLOAT; v->d = in.readFloat(NONE); } return v; }
		case IStructuredInput::TYPE_FLOAT: { auto v = Ref::mk(K::FLOAT); v->d = in.readFloat(NONE); return v; }
		case IStructuredInput::TYPE_STRING: { auto v = Ref::mk(K::STRING); v->s = in.readString(NONE); return v; }
		case IStructuredInput::TYPE_BOOLEAN: { auto v = Ref::mk(K::BOOL); v->b = in.readBool(NONE); return v; }
		case IStructuredInput::TYPE_NULL: { in.readNull(NONE); return Ref::mk(K::NUL); }
		case IStructuredInput::TYPE_ARRAY: { auto v = Ref::mk(K::ARRAY); in.startReadingArray(NONE); while (in.nextArrayElement(NONE)) v->a.push_back(readTree(in, depth + 1)); in.endReadingArray(NONE); return v; }
		case IStructuredInput::TYPE_OBJECT: { auto v = Ref::mk(K::OBJECT); in.readObject(NONE, [&] (std::optional<std::string_view> name, int index) { if (!name) throw std::runtime_error("no name"); if (index != (int)v->o.size()) O::fail("index", "member index " + std::to_string(index)); std::string n(*name); auto e = readTree(in, depth + 1); v->o.emplace_back(n, e); return true; }); return v; }
		default: throw std::runtime_error("invalid type");
	}
}
// doubles printed without fraction or exponent are integers for a JSON reader
inline bool alike(const Ref::Value& x, const Ref::Value& y) {
	using K = Ref::Value;
	if (x.kind == K::FLOAT && y.kind == K::INT) return x.d == (double)y.i;
	if (x.kind != y.kind) return false;
	if (x.kind == K::FLOAT) return x.d == y.d;
	if (x.kind == K::ARRAY) { if (x.a.size() != y.a.size()) return false; for (size_t i = 0; i < x.a.size(); i++) if (!alike(*x.a[i], *y.a[i])) return false; return true; }
	if (x.kind == K::OBJECT) { if (x.o.size() != y.o.size()) return false; for (size_t i = 0; i < x.o.size(); i++) if (x.o[i].first != y.o[i].first || !alike(*x.o[i].second, *y.o[i].second)) return false; return true; }
	return Ref::same(x, y);
}
