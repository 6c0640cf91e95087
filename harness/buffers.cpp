#include "ghost.hpp"
#include <charconv>
#include "bomba_core.hpp"
using namespace Bomba;
extern "C" {
int v_full(const char* memory, size_t capacity); // what becomes of a full buffer: refused (-1) or the place from which the next one is filled
void v_written(const char* data, size_t size);
}
struct AnyBuffer : GeneralisedBuffer { // any buffer at all: what happens to a full one is unknown
	char* memory; size_t capacity;
	AnyBuffer(char* memory, size_t capacity, size_t start) : GeneralisedBuffer(std::span<char>(memory + start, capacity - start)), memory(memory), capacity(capacity) {}
	bool bufferFull() override {
		int start = v_full(memory, capacity);
		if (start < 0) return false;
		moveBuffer({memory + start, capacity - start});
		return true;
	}
	size_t left() const { return remainingSpace(); }
};
struct Writer { void operator() (std::span<const char> written) const { v_written(written.data(), written.size()); } };
extern "C" {
void h_appendText(char* memory, size_t capacity, size_t start, const char* text, size_t length, size_t* left, int* size) { AnyBuffer b(memory, capacity, start); b += std::string_view(text, length); *left = b.left(); *size = b.size(); }
void h_appendSpan(char* memory, size_t capacity, size_t start, const char* text, size_t length, size_t* left, int* size) { AnyBuffer b(memory, capacity, start); b += std::span<const char>(text, length); *left = b.left(); *size = b.size(); }
void h_appendChar(char* memory, size_t capacity, size_t start, const char* text, size_t length, size_t* left, int* size) { AnyBuffer b(memory, capacity, start); b += *text; *left = b.left(); *size = b.size(); }
#define SIZED(N) \
void h_keep##N(const char* text, size_t length, char extra, size_t* all, char* out, size_t index) { \
	NonExpandingBuffer<N> b; b += std::string_view(text, length); int s = b.size(); v_assert(s == int(std::min<size_t>(length, N)), "the size counts what was kept"); \
	b += extra; std::string_view view = b; v_assert(int(view.size()) == b.size(), "the size is that of the contents"); \
	std::span<char> span = b; v_assert(span.data() == view.data() && span.size() == view.size(), "both views agree"); *all = view.size(); if (index < view.size()) *out = view[index]; \
	b.clear(); std::string_view cleared = b; v_assert(b.size() == 0 && cleared.empty(), "nothing is left after clearing"); b += extra; std::string_view again = b; v_assert(b.size() == 1 && again.size() == 1 && again[0] == extra, "a cleared buffer is used from its beginning"); } \
void h_stream##N(const char* text, size_t length) { Writer writer; { NonOwningStreamingBuffer<N> b(writer); b._buffer = std::span<char>(b._basic.data() + length, N - length); memcpy(b._basic.data(), text, length); b._size = b._sizeAtLastFlush + length; } } \
void h_streamFull##N(const char* text, int before) { Writer writer; { NonOwningStreamingBuffer<N> b(writer); b._sizeAtLastFlush = before; b._size = before + N; memcpy(b._basic.data(), text, N); b._buffer = std::span<char>(b._basic.data() + N, b._basic.data() + N); \
	bool r = b.bufferFull(); v_assert(r, "a stream never refuses"); v_assert(b._buffer.data() == b._basic.data() && b._buffer.size() == N, "a flushed buffer is used from its beginning"); v_assert(b.size() == before + N, "the size counts everything"); } } \
void h_growFirst##N(const char* text, size_t index, char* out) { ExpandingBuffer<N> b; memcpy(b._basic.data(), text, N); b._size = N; b._buffer = std::span<char>(b._basic.data() + N, size_t(0)); \
	bool r = b.bufferFull(); v_assert(r, "an expanding buffer never refuses"); v_assert(b._buffer.size() > 0, "there is room again"); std::string_view view = b; std::span<char> span = b; \
	v_assert(view.size() == N && span.size() == N && span.data() == view.data(), "the length is kept"); v_assert(b._buffer.data() == view.data() + N, "the next byte follows the others"); *out = view[index]; } \
void h_growMore##N(const char* text, size_t length, size_t index, char* out) { ExpandingBuffer<N> b; b._extended = std::string_view(text, length); b._size = length; b._buffer = std::span<char>(b._extended.data() + length, size_t(0)); \
	bool r = b.bufferFull(); v_assert(r, "an expanding buffer never refuses"); v_assert(b._buffer.size() > 0, "there is room again"); std::string_view view = b; std::span<char> span = b; \
	v_assert(view.size() == length && span.size() == length && span.data() == view.data(), "the length is kept"); v_assert(b._buffer.data() == view.data() + length, "the next byte follows the others"); *out = view[index]; } \
void h_empty##N(char c) { ExpandingBuffer<N> b; std::string_view none = b; v_assert(none.empty() && b.size() == 0, "a new buffer is empty"); b += c; std::string_view one = b; v_assert(one.size() == 1 && one[0] == c && b.size() == 1, "one character"); b.clear(); std::string_view cleared = b; v_assert(cleared.empty() && b.size() == 0, "nothing is left after clearing"); b += c; std::string_view again = b; v_assert(again.size() == 1 && again[0] == c && b.size() == 1, "a cleared buffer is used from its beginning"); }
SIZED(1)
SIZED(8)
SIZED(1024)
}
