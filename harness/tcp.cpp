#include "ghost.hpp"
#include "bomba_core.hpp"
#include "bomba_tcp_server.hpp"
using namespace Bomba;
extern "C" int v_feed(const char* data, size_t size, int* parsed);
extern "C" void v_parsed();
struct Stream : ITcpServerSession {
	std::pair<ServerReaction, int> feedToResponder(std::span<char> data) override { int parsed = 0; int reaction = v_feed(data.data(), data.size(), &parsed); return {ServerReaction(reaction), parsed}; }
	void notifyMessageWasParsed() override { v_parsed(); }
};
extern "C" {
void h_new(TcpServerBuffer* buffer) { new (buffer) TcpServerBuffer; }
int h_size() { return sizeof(TcpServerBuffer); }
void h_state(TcpServerBuffer* buffer, const char* contents, int start, int end, int space, char* large, size_t largeSize) { // any state between deliveries
	__builtin_memcpy(buffer->_responseArray.data(), contents, buffer->_responseArray.size()); buffer->_keptStart = start; buffer->_keptEnd = end;
	buffer->_longLeftovers._M_impl._M_start = large; buffer->_longLeftovers._M_impl._M_finish = buffer->_longLeftovers._M_impl._M_end_of_storage = large + largeSize;
	buffer->_responseBuffer = std::span<char>((large ? large : buffer->_responseArray.data()) + end, space);
}
char* h_array(TcpServerBuffer* buffer) { return buffer->_responseArray.data(); }
bool h_receive(TcpServerBuffer* buffer, int length) { Stream session; return buffer->receive(session, std::error_code(), length); }
bool h_failed(TcpServerBuffer* buffer, int length, int code) { Stream session; return buffer->receive(session, std::error_code(code, std::system_category()), length); }
char* h_space(TcpServerBuffer* buffer, size_t* size, int* start, int* end, char** large, size_t* largeSize, char** array) { auto space = buffer->space(); *size = space.size(); *start = buffer->_keptStart; *end = buffer->_keptEnd; *large = buffer->_longLeftovers.empty() ? nullptr : buffer->_longLeftovers.data(); *largeSize = buffer->_longLeftovers.size(); *array = buffer->_responseArray.data(); return space.data(); }
}
