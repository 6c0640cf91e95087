#include "ghost.hpp"
#include "bomba_json.hpp"
using J = Bomba::BasicJson<GStr, GStr>;
constexpr auto NONE = Bomba::SerialisationFlags::NONE;
using Bomba::IStructuredInput; using Bomba::IStructuredOutput;
#define IN J::Input input(std::string_view(json, size)); input.restorePosition(NONE, { position })
#define END *end = input.storePosition(NONE).loc
extern "C" {
// writing
void h_writeInt(GStr& out, int64_t value) { J::Output output(out); output.writeInt(NONE, value); }
void h_writeFloat(GStr& out, double value) { J::Output output(out); output.writeFloat(NONE, value); }
void h_writeBool(GStr& out, bool value) { J::Output output(out); output.writeBool(NONE, value); }
void h_writeNull(GStr& out) { J::Output output(out); output.writeNull(NONE); }
void h_writeOptional(GStr& out, bool present, bool value) { J::Output output(out); output.writeOptional(NONE, present, [&] { output.writeBool(NONE, value); }); }
// reading
int h_identify(const char* json, size_t size, int position, int* end) { IN; int r = input.identifyType(NONE); END; return r; }
int64_t h_readInt(const char* json, size_t size, int position, int* end) { IN; auto r = input.readInt(NONE); END; return r; }
double h_readFloat(const char* json, size_t size, int position, int* end) { IN; auto r = input.readFloat(NONE); END; return r; }
bool h_readBool(const char* json, size_t size, int position, int* end) { IN; auto r = input.readBool(NONE); END; return r; }
void h_readNull(const char* json, size_t size, int position, int* end) { IN; input.readNull(NONE); END; }
void h_startArray(const char* json, size_t size, int position, int* end) { IN; input.startReadingArray(NONE); END; }
bool h_nextElement(const char* json, size_t size, int position, int* end) { IN; auto r = input.nextArrayElement(NONE); END; return r; }
void h_endArray(const char* json, size_t size, int position, int* end) { IN; input.endReadingArray(NONE); END; }
void h_skip(const char* json, size_t size, int position, int* end) { IN; input.skipObjectElement(NONE); END; }
bool h_readOptional(const char* json, size_t size, int position, int* end, bool* value) { IN; bool r = input.readOptional(NONE, [&] { *value = input.readBool(NONE); }); END; return r; }
void h_readString(const char* json, size_t size, int position, int* end) { IN; input.readString(NONE); END; }
bool v_member(IStructuredInput* input, const char* name, size_t size, int index);
void h_readObject(const char* json, size_t size, int position, int* end) { IN; IStructuredInput* i = &input; input.readObject(NONE, [&] (std::optional<std::string_view> name, int index) -> bool { v_assert(bool(name), "a JSON member has a name"); return v_member(i, name->data(), name->size(), index); }); END; }
int h_seek(const char* json, size_t size, int position, int elsewhere) { IN; auto at = input.storePosition(NONE); input.restorePosition(NONE, { elsewhere }); int other = input.storePosition(NONE).loc; v_assert(other == elsewhere, "restorePosition moves to the given position"); input.restorePosition(NONE, at); return input.storePosition(NONE).loc; }
// structure
#define OUT J::Output output(out); output._depth = depth; output._skipNewline = skip
#define STATE *newDepth = output._depth; *newSkip = output._skipNewline
void h_startArray_(GStr& out, int depth, bool skip, int* newDepth, bool* newSkip, int declared) { OUT; output.startWritingArray(NONE, declared); STATE; }
void h_startObject_(GStr& out, int depth, bool skip, int* newDepth, bool* newSkip, int declared) { OUT; output.startWritingObject(NONE, declared); STATE; }
void h_element_(GStr& out, int depth, bool skip, int* newDepth, bool* newSkip, int index) { OUT; output.introduceArrayElement(NONE, index); STATE; }
void h_endArray_(GStr& out, int depth, bool skip, int* newDepth, bool* newSkip) { OUT; output.endWritingArray(NONE); STATE; }
void h_endObject_(GStr& out, int depth, bool skip, int* newDepth, bool* newSkip) { OUT; output.endWritingObject(NONE); STATE; }
void h_member_(GStr& out, int depth, bool skip, int* newDepth, bool* newSkip, int index, const char* name, size_t size) { OUT; output.introduceObjectMember(NONE, std::string_view(name, size), index); STATE; }
}
