#include "ghost.hpp"
#include "bomba_binary_protocol.hpp"
using Bomba::IStructuredInput; using Bomba::IStructuredOutput;
using Flags = Bomba::SerialisationFlags::Flags;
template <typename S> using Bin = Bomba::BinaryFormat<GStr, S>;
using B = Bin<uint16_t>;
#define IN(F) F::Input input(std::string_view(data, size)); input.restorePosition(Flags(flags), { position })
#define END *end = input.storePosition(Flags(flags)).loc
extern "C" {
bool v_more(); // the user may stop reading an array anywhere
int v_moved(int position); // the user's code between two calls: leaves any position
bool v_onMember(bool named, const char* name, size_t size, int index, int position, bool* stopped);
void h_writeInt(GStr& out, int flags, int64_t value) { B::Output output(out); output.writeInt(Flags(flags), value); }
void h_writeFloat(GStr& out, int flags, double value) { B::Output output(out); output.writeFloat(Flags(flags), value); }
void h_writeBool(GStr& out, int flags, bool value) { B::Output output(out); output.writeBool(Flags(flags), value); }
void h_writeNull(GStr& out, int flags) { B::Output output(out); output.writeNull(Flags(flags)); }
void h_writeOptional(GStr& out, int flags, bool present, int64_t value) { B::Output output(out); output.writeOptional(Flags(flags), present, [&] { output.writeInt(Flags(flags), value); }); }
int64_t h_readInt(const char* data, size_t size, int position, int* end, int flags) { IN(B); auto r = input.readInt(Flags(flags)); END; return r; }
double h_readFloat(const char* data, size_t size, int position, int* end, int flags) { IN(B); auto r = input.readFloat(Flags(flags)); END; return r; }
bool h_readBool(const char* data, size_t size, int position, int* end, int flags) { IN(B); auto r = input.readBool(Flags(flags)); END; return r; }
void h_readNull(const char* data, size_t size, int position, int* end, int flags) { IN(B); input.readNull(Flags(flags)); END; }
bool h_readOptional(const char* data, size_t size, int position, int* end, int flags, int64_t* value) { IN(B); bool r = input.readOptional(Flags(flags), [&] { *value = input.readInt(Flags(flags)); }); END; return r; }
uint16_t h_toHalf(float value) { Bomba::Float16Placeholder half{}; half = value; return half.data; }
float h_fromHalf(uint16_t data) { Bomba::Float16Placeholder half{}; half.data = data; return half; }
#define SIZED(N, T) \
int h_readInner##N(const char* data, size_t size, int position, int* end, int flags, int inner, int outermost, bool third) { IN(Bin<T>); \
	if (third) { input.restorePosition(Flags(flags), { outermost }); input.startReadingArray(Flags(flags)); input.restorePosition(Flags(flags), { position }); } \
	input.startReadingArray(Flags(flags)); END; input.restorePosition(Flags(flags), { inner }); input.startReadingArray(Flags(flags)); \
	while (v_more() && input.nextArrayElement(Flags(flags))) ; \
	input.endReadingArray(Flags(flags)); int announced = 1; \
	while (input.nextArrayElement(Flags(flags))) announced++; input.endReadingArray(Flags(flags)); return announced; } \
void h_writeString##N(GStr& out, int flags, const char* text, size_t length) { Bin<T>::Output output(out); output.writeString(Flags(flags), std::string_view(text, length)); } \
void h_writeArray##N(GStr& out, int flags, int count) { Bin<T>::Output output(out); output.startWritingArray(Flags(flags), count); output.introduceArrayElement(Flags(flags), 0); output.introduceArrayElement(Flags(flags), 1); output.endWritingArray(Flags(flags)); } \
void h_writeObject##N(GStr& out, int flags, int count) { Bin<T>::Output output(out); output.startWritingObject(Flags(flags), count); output.endWritingObject(Flags(flags)); } \
void h_writeMember##N(GStr& out, int flags, const char* text, size_t length, int index) { Bin<T>::Output output(out); output.introduceObjectMember(Flags(flags), std::string_view(text, length), index); } \
const char* h_readString##N(const char* data, size_t size, int position, int* end, int flags, size_t* length) { IN(Bin<T>); auto r = input.readString(Flags(flags)); END; *length = r.size(); return r.data(); } \
int h_readArray##N(const char* data, size_t size, int position, int* end, int flags) { IN(Bin<T>); input.startReadingArray(Flags(flags)); int announced = 1; END; \
	while (input.nextArrayElement(Flags(flags))) announced++; input.endReadingArray(Flags(flags)); \
	v_assert(input.storePosition(Flags(flags)).loc == *end, "going through the elements and ending the array consumes nothing"); return announced; } \
void h_readObject##N(const char* data, size_t size, int position, int* end, int flags) { IN(Bin<T>); bool stopped = false; \
	input.readObject(Flags(flags), [&] (std::optional<std::string_view> name, int index) -> bool { \
		int at = input.storePosition(Flags(flags)).loc; \
		bool go = v_onMember(bool(name), name ? name->data() : nullptr, name ? name->size() : 0, index, at, &stopped); \
		input.restorePosition(Flags(flags), { v_moved(at) }); return go; }); END; }
SIZED(8, uint8_t)
SIZED(16, uint16_t)
SIZED(32, uint32_t)
SIZED(64, int64_t)
}
extern "C" {
#define NESTED(N, T) int h_nested##N(const char* data, size_t size, int position, int* end, int flags, int depth) { IN(Bin<T>); int opened = 0; \
	for (int i = 0; i < depth; i++) { input.startReadingArray(Flags(flags)); opened++; *end = input.storePosition(Flags(flags)).loc; input.nextArrayElement(Flags(flags)); } \
	for (int i = 0; i < depth; i++) { input.endReadingArray(Flags(flags)); if (i + 1 < depth) input.nextArrayElement(Flags(flags)); } \
	return opened; }
NESTED(8, uint8_t)
NESTED(16, uint16_t)
NESTED(32, uint32_t)
NESTED(64, int64_t)
NESTED(s, int32_t)
int h_identify(const char* data, size_t size, int position, int* end, int flags) { IN(B); int r = input.identifyType(Flags(flags)); END; return r; }
}
