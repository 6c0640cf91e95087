#include "ghost.hpp"
#include "bomba_core.hpp"
#include "bomba_http.hpp"
using namespace Bomba;
extern "C" {
bool v_firstLine(const char* data, size_t size);
void v_header(const char* name, size_t nameSize, const char* value, size_t valueSize, int start, int size);
}
struct AnyState : Detail::HttpParseState { // the first line and the headers go to code under contract
	bool firstLineReader(std::string_view line) override { return v_firstLine(line.data(), line.size()); }
	void headerReader(std::string_view name, std::string_view value, std::pair<int, int> at) override { v_header(name.data(), name.size(), value.data(), value.size(), at.first, at.second); }
};
extern "C" {
int h_parse(char* data, size_t n, int64_t* position, int* bodyAt, int* bodySize) {
	AnyState s; auto [reaction, at] = s.parse(std::span<char>(data, n)); *position = at; *bodyAt = s.parsePosition; *bodySize = s.bodySize; return int(reaction);
}
}
extern "C" {
bool v_get(const char* path, size_t pathSize);
bool v_post(const char* path, size_t pathSize, const char* type, size_t typeSize, const char* body, size_t bodySize);
void v_out(const char* data, size_t size);
}
struct AnyResponder : IHttpGetResponder, IHttpPostResponder { // writes no response of its own
	bool get(std::string_view path, IWriteStarter&) override { return v_get(path.data(), path.size()); }
	bool post(std::string_view path, std::string_view type, std::span<char> body, IWriteStarter&) override { return v_post(path.data(), path.size(), type.data(), type.size(), body.data(), body.size()); }
};
struct Out { void operator() (std::span<const char> o) const { v_out(o.data(), o.size()); } };
extern "C" {
int h_respond(char* data, size_t n, int64_t* consumed) {
	AnyResponder r; HttpServer<> server(r, r); auto session = server.getSession(); Out out;
	auto [reaction, at] = session.respond(std::span<char>(data, n), out); *consumed = at; return int(reaction);
}
}
extern "C" {
void v_start(const void* session, const void* fresh, size_t size, size_t parserSize);
bool v_step(int reaction, int64_t consumed, const void* session, const void* fresh, size_t size); // whether to go on
int h_step(char* data, size_t n1, size_t n2) { // a request that arrives in two pieces, on a session in any state an answered request leaves behind
	AnyResponder r; HttpServer<> server(r, r); auto session = server.getSession(); auto fresh = server.getSession(); Out out;
	v_start(&session, &fresh, sizeof(session), sizeof(Detail::HttpParseState));
	auto [reaction, at] = session.respond(std::span<char>(data, n1), out); 
	if (!v_step(int(reaction), at, &session, &fresh, sizeof(session))) return 0;
	auto [reaction2, at2] = session.respond(std::span<char>(data, n2), out);
	v_step(int(reaction2), at2, &session, &fresh, sizeof(session));
	return 0;
}
int h_probe(char* data, size_t n) { AnyResponder r; HttpServer<> server(r, r); auto session = server.getSession(); auto fresh = server.getSession(); Out out;
	session.respond(std::span<char>(data, n), out); v_start(&session, &fresh, sizeof(session), sizeof(Detail::HttpParseState)); return 0; }
// the contract of HttpParseState::parse as code, put in its place where callers are verified: calls the readers as proved for parse itself
size_t v_lineEnd(size_t n); // n if there is none
bool v_nextHeader(size_t* name, size_t* nameSize, size_t* value, size_t* valueSize);
int v_outcome(size_t n, int64_t* at, int* bodySize); // ServerReaction
int64_t v_anyPosition(Detail::HttpParseState* state);
}
std::pair<ServerReaction, int64_t> parseContract(Detail::HttpParseState* state, std::span<char> input) {
	v_assert(state->parsePosition == 0 && state->bodySize == -1, "a header is read with a fresh state");
	size_t end = v_lineEnd(input.size());
	if (end == input.size()) return {ServerReaction::READ_ON, v_anyPosition(state)};
	if (!state->firstLineReader(std::string_view(input.data(), end))) { v_anyPosition(state); return {ServerReaction::DISCONNECT, 0}; }
	size_t name, nameSize, value, valueSize;
	while (v_nextHeader(&name, &nameSize, &value, &valueSize)) state->headerReader(std::string_view(input.data() + name, nameSize), std::string_view(input.data() + value, valueSize), std::pair<int, int>(value, valueSize));
	int64_t at; int bodySize; auto reaction = ServerReaction(v_outcome(input.size(), &at, &bodySize));
	if (reaction == ServerReaction::OK) { state->parsePosition = at; state->bodySize = bodySize; return {reaction, at}; }
	return {reaction, v_anyPosition(state)};
}
// an expanding buffer under its contract (E01): whatever is appended goes behind what is there
struct TextBuffer : GeneralisedBuffer { TextBuffer(); ~TextBuffer(); bool bufferFull() override { return true; } operator std::string_view() const; operator std::span<char>(); };
struct Framed : IHttpGetResponder { std::string_view type, first, second; int64_t size; bool known;
	bool get(std::string_view, IWriteStarter& w) override { auto fill = [&] (GeneralisedBuffer& b) { b += first; b += second; }; if (known) w.writeKnownSize(type, size, fill); else w.writeUnknownSize(type, fill); return true; } };
extern "C" int h_frame(const char* type, size_t typeSize, const char* first, size_t firstSize, const char* second, size_t secondSize, bool known) {
	Framed r; r.type = {type, typeSize}; r.first = {first, firstSize}; r.second = {second, secondSize}; r.size = firstSize + secondSize; r.known = known;
	HttpServer<TextBuffer> server(r); auto session = server.getSession(); Out out; char request[] = "GET / HTTP/1.1\r\n\r\n";
	auto [reaction, at] = session.respond(std::span<char>(request, sizeof(request) - 1), out); return int(reaction);
}
extern "C" {
bool v_deliver(int turn, char** data, size_t* n, bool* identified); // what the connection has for the client, if anything
void v_taken(int turn, int reaction, unsigned token, int64_t at);
bool v_message(char* data, size_t n, bool success);
void v_request(const char* data, size_t n);
}
struct AnyConnection : ITcpClient {
	void writeRequest(std::span<char> w) override { v_request(w.data(), w.size()); }
	void getResponse(RequestToken, Callback<std::tuple<ServerReaction, RequestToken, int64_t>(std::span<char>, bool)> reader) override {
		char* data; size_t n; bool identified;
		if (!v_deliver(0, &data, &n, &identified)) return;
		auto [r, t, at] = reader(std::span<char>(data, n), identified); v_taken(0, int(r), t.id, at);
		if (!v_deliver(1, &data, &n, &identified)) return;
		auto [r2, t2, at2] = reader(std::span<char>(data, n), identified); v_taken(1, int(r2), t2.id, at2);
	}
};
extern "C" void h_receive(unsigned wanted, unsigned read) {
	AnyConnection c; HttpClient<std::string, ExpandingBuffer<8>> client(c, "host"); client._lastTokenRead.id = read;
	client.getResponse(RequestToken{wanted}, [] (std::span<char> message, bool success) { return v_message(message.data(), message.size(), success); });
}
extern "C" unsigned h_post(const char* host, size_t hostSize, const char* type, size_t typeSize, const char* first, size_t firstSize, const char* second, size_t secondSize, unsigned* inner) {
	AnyConnection c; HttpClient<std::string, TextBuffer> client(c, std::string_view(host, hostSize));
	auto t = client.post(std::string_view(type, typeSize), [&] (TextBuffer& b, RequestToken t) { *inner = t.id; b += std::string_view(first, firstSize); b += std::string_view(second, secondSize); }); return t.id;
}
extern "C" unsigned h_get(const char* host, size_t hostSize, const char* path, size_t pathSize) { AnyConnection c; HttpClient<std::string, TextBuffer> client(c, std::string_view(host, hostSize)); return client.get(std::string_view(path, pathSize)).id; }
extern "C" void* h_keep() { return (void*) &parseContract; }
