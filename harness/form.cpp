#include "ghost.hpp"
#include "bomba_core.hpp"
#include "bomba_http.hpp"
using namespace Bomba;
using F = HtmlMessageEncoding<GStr, GStr>;
constexpr auto NONE = SerialisationFlags::NONE;
extern "C" {
void h_mangle(GStr& out, const char* text, size_t size) { mangleHttpResponse(std::string_view(text, size), out); }
void h_demangle(GStr& out, const char* text, size_t size) { demangleHttpResponse(std::string_view(text, size), out); }
#define IN F::Input input(std::string_view(text, size)); input.restorePosition(NONE, { position })
#define END *end = input.storePosition(NONE).loc
int h_identify(const char* text, size_t size, int position, int* end) { IN; int r = input.identifyType(NONE); END; return r; }
int64_t h_readInt(const char* text, size_t size, int position, int* end) { IN; auto r = input.readInt(NONE); END; return r; }
double h_readFloat(const char* text, size_t size, int position, int* end) { IN; auto r = input.readFloat(NONE); END; return r; }
bool h_readBool(const char* text, size_t size, int position, int* end) { IN; auto r = input.readBool(NONE); END; return r; }
void h_skip(const char* text, size_t size, int position, int* end) { IN; input.skipObjectElement(NONE); END; }
void h_readString(const char* text, size_t size, int position, int* end) { IN; input.readString(NONE); END; }
bool v_member(F::Input* input, const char* name, size_t size, int index, int* position);
void h_readObject(const char* text, size_t size, int position, int* end) { IN; input.readObject(NONE, [&] (std::optional<std::string_view> name, int index) -> bool { v_assert(bool(name), "a member has a name"); int p = input._position; bool r = v_member(&input, name->data(), name->size(), index, &p); input._position = p; return r; }); END; }
void h_writeInt(GStr& out, int64_t value) { F::Output o(out); o.writeInt(NONE, value); }
void h_writeFloat(GStr& out, double value) { F::Output o(out); o.writeFloat(NONE, value); }
void h_writeString(GStr& out, const char* text, size_t size) { F::Output o(out); o.writeString(NONE, std::string_view(text, size)); }
void h_writeBool(GStr& out, bool value) { F::Output o(out); o.writeBool(NONE, value); }
void h_member(GStr& out, int before, const char* name, size_t size, int* after) { F::Output o(out); o._objectIndex = before; o.introduceObjectMember(NONE, std::string_view(name, size), before); *after = o._objectIndex; }
}
