#include "ghost.hpp"
#include "bomba_json.hpp"
using J = Bomba::BasicJson<GStr, GStr>;
constexpr auto NONE = Bomba::SerialisationFlags::NONE;
extern "C" void h_write(GStr& out, const char* text, size_t size) {
	J::Output output(out);
	output.writeString(NONE, std::string_view(text, size));
}
extern "C" void h_read(const char* json, size_t size, int position, int* end, GStr** buffer) {
	J::Input input(std::string_view(json, size));
	input.restorePosition(NONE, { position });
	std::string_view result = input.readString(NONE);
	*end = input.storePosition(NONE).loc;
}
