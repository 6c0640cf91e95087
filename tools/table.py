prop('J01', 'JSON strings are written and read without loss',
 'For every byte string, JSON output writes exactly one string literal of RFC 8259 that denotes it. For every valid literal, including all escapes and surrogate pairs, JSON input returns the text it denotes and stops right behind its closing quote.',
 [IN], 'every byte string of any length below 2^31-64; every valid literal at any position of any document',
 'tests use a handful of ASCII strings; control characters, escapes, lengths and positions form an unbounded set', ['bomba_json.hpp'],
 [('Output::writeString', 'bomba_json.hpp'), ('Input::readString', 'bomba_json.hpp')],
 note='Proved for all texts and all documents under assumed contracts for std::string-like result buffers (ghost append-only string); loop invariants DEC(position, produced)=DEC(start).')
prop('J02', 'JSON numbers, booleans and nulls survive writing and reading',
 'Every 64-bit integer, finite double, boolean, null and optional written by JSON output reads back as the same value. Reading a number, a word or the type of a value stops right behind it, whatever follows, and the identified type (integer, float, string, boolean, null, array, object) follows from the text alone: a number is a float exactly if it has a fraction or an exponent.',
 [IN], 'all int64 and double values; every document, every position',
 'tests use a few small numbers surrounded by the same characters', ['bomba_json.hpp'],
 [('Output::writeInt/writeFloat/writeBool/writeNull/writeOptional', 'bomba_json.hpp'), ('Input::readInt/readFloat/readBool/readNull/readOptional/identifyType', 'bomba_json.hpp')],
 note='std::to_chars and std::from_chars are assumed to be inverse (their contracts are stated in engine/jsonspec.py); everything around them is proved for all values and documents.')
prop('J03', 'JSON structure calls produce and consume exactly one valid document',
 'A well-nested sequence of array and object calls on JSON output produces exactly one valid JSON document with those elements and members in that order; reading a valid document with the corresponding calls visits exactly these elements and members, in order, and every member under its own name.',
 [IN, HI], 'all nesting depths, numbers of elements, member names and interleavings of nested calls; every document and position when reading',
 'tests use two or three shapes; nesting and order are unbounded', ['bomba_json.hpp'],
 [('Output::startWritingArray/introduceArrayElement/endWritingArray and object counterparts', 'bomba_json.hpp'), ('Input::startReadingArray/nextArrayElement/endReadingArray/readObject', 'bomba_json.hpp')],
 note='Each call is proved to append or consume exactly its piece of the grammar and to keep the state invariant; the composition over a whole document is the induction over these contracts.')
prop('J04', 'JSON reading never leaves its input and reports what it cannot read',
 'For arbitrary input bytes and position, every JSON reading function stays within the input, terminates, and either returns or throws the parse error of the library. A document cut off inside a value is reported by a parse error, not read as a different value or with bytes from behind its end.',
 [IN], 'every byte sequence of length below 2^31-64 and every position',
 'memory safety on arbitrary bytes cannot be sampled', ['bomba_json.hpp'],
 [('BasicJson::Input', 'bomba_json.hpp')],
 note='Every load is an obligation inside the given bytes, every loop has a proved invariant.')
prop('J05', 'Skipping a JSON value moves right behind it, whatever it contains',
 'Skipping an object member or array element leaves the reader right behind that value, whatever brackets, quotes and escapes its strings contain and whatever follows it, so the members behind it read as if nothing had been skipped. A stored position can be restored to read the same again.',
 [IN], 'every document, position and nesting depth', 'tests skip two simple values', ['bomba_json.hpp'],
 [('Input::skipObjectElement/storePosition/restorePosition', 'bomba_json.hpp')],
 note='Proved against a recursive definition of where a value ends, for all nesting depths.')
prop('B01', 'Binary numbers have the declared layout and survive writing and reading',
 'In the binary format every integer and floating point type is written as exactly its declared number of bytes with the fixed layout (little endian two\'s complement; IEEE 754 single, double and half precision), and reading those bytes back gives the value that was written: exactly for values that fit the type, and, for 16-bit floats, to the next half precision value towards zero (infinity from 65536 on), keeping infinities, NaN and the sign.',
 [IN], 'all 64-bit integers, all doubles and all 65536 half precision values', 'tests use a few values of each type', ['bomba_binary_protocol.hpp'],
 [('BinaryFormat::Output::writeInt/writeFloat', 'bomba_binary_protocol.hpp'), ('BinaryFormat::Input::readInt/readFloat', 'bomba_binary_protocol.hpp')],
 note='Floating point is interpreted bit-precisely (SMT FloatingPoint).')
prop('B02', 'Binary strings, booleans, optionals, arrays and objects are symmetric',
 'What the binary output writes for a string, a boolean, a null or present optional, an array or an object is read back by the corresponding calls of the binary input as the same content, consuming exactly the bytes written, so that whatever follows is read from where it starts. Strings and arrays carry their size in front; booleans and presence marks take one byte, independently of a declared numeric type.',
 [IN, HI], 'all texts, sizes, element numbers and surrounding bytes', 'tests use a handful of shapes', ['bomba_binary_protocol.hpp'],
 [('BinaryFormat::Output', 'bomba_binary_protocol.hpp'), ('BinaryFormat::Input', 'bomba_binary_protocol.hpp')],
 note='Each call is proved to write or consume exactly its bytes; the array reading protocol (the first element is implicit, nextArrayElement announces each further one) is the one the repository\'s tests use.')
prop('B03', 'Binary reading never leaves its input and reports what it cannot read',
 'For arbitrary bytes the functions that read the binary format never read outside the input; input that ends inside a value, sizes that exceed what is left, negative sizes and nesting deeper than supported are reported by the parse error, and nothing behind the end of the input or invented is returned as a value.',
 [IN], 'every byte sequence, every position and every declared size', 'memory safety on arbitrary bytes cannot be sampled', ['bomba_binary_protocol.hpp'],
 [('BinaryFormat::Input', 'bomba_binary_protocol.hpp')],
 note='Every load is an obligation inside the given bytes.')
prop('E01', 'Output buffers keep every byte in order and report their size',
 'Whatever sequence of characters and texts is appended, in whatever pieces: an expanding buffer holds exactly all of them in order, a streaming buffer passes on exactly all of them in order, each byte once and the rest at the latest on destruction, and a fixed buffer holds the first ones that fit and drops the others without writing outside its memory. The size is the number of bytes taken; clearing leaves an empty buffer that can be used again.',
 [IN, HI], 'all contents, lengths, splits into pieces and fill levels', 'tests append short texts that rarely end at the border of a buffer', ['bomba_core.hpp'],
 [('GeneralisedBuffer', 'bomba_core.hpp'), ('ExpandingBuffer, StreamingBuffer, NonOwningStreamingBuffer, NonExpandingBuffer', 'bomba_core.hpp')],
 note='Appending is proved once for every reaction to a full buffer (bufferFull under contract); each buffer class is proved against that contract for static sizes 1, 8 and 1024.')
prop('H01', 'HTTP request headers are understood and requests dispatched exactly once',
 'For any bytes that arrive, in one piece or several, the HTTP server recognises exactly the complete requests: first line, header lines (names in any case, values without the blanks in front of them), blank line, and as many body bytes as Content-Length says. Each complete GET or POST request reaches its responder exactly once, with the path of its first line, its own content type and exactly its body, and exactly the bytes of the request are consumed, so that the next one starts right behind it.',
 [IN, HI], 'all bytes, header lines, body lengths, places where the input is split, and earlier requests on the connection', 'tests send a handful of requests, each in one piece', ['bomba_http.hpp'],
 [('Detail::HttpParseState::parse', 'bomba_http.hpp'), ('HttpServer::Session::respond', 'bomba_http.hpp')],
 note='parse is verified against its contract for all bytes; a session step is verified against that contract (executable contract harness/http.cpp parseContract) from any state an answered request leaves behind. std::from_chars is assumed to read inside its range.')
prop('H02', 'HTTP processing never leaves its input, whatever bytes arrive',
 'For arbitrary bytes, complete or not, the HTTP server neither reads nor writes outside of them, terminates, lets no exception of a responder out, hands over only pieces that lie inside the input, reports to have consumed no more than there was, and answers nothing while it waits for more. Negative or excessive lengths close the connection.',
 [IN], 'every byte sequence of length below 2^30', 'memory safety on arbitrary bytes cannot be sampled', ['bomba_http.hpp'],
 [('Detail::HttpParseState::parse', 'bomba_http.hpp'), ('HttpServer::Session::respond', 'bomba_http.hpp')],
 note='The whole session step is verified with parse inlined, for every input.')
prop('H03', 'Every processed HTTP request gets exactly one well-formed response',
 'For every complete request the HTTP server sends exactly one response, and nothing else: a well-formed one whose status says what became of the request (200 or 204 done, 404 not found, 400 bad request, 500 after an exception, 501 unknown method), whose Content-Length is the number of body bytes that follow, and whose content type and body are the ones the responder gave, whether or not the size was known beforehand.',
 [IN, HI], 'all requests, reactions of responders, sizes and contents of responses, and earlier requests', 'tests compare a few complete responses', ['bomba_http.hpp'],
 [('HttpServer::Session::respond', 'bomba_http.hpp'), ('HttpServer::ParseState::WriteStarter', 'bomba_http.hpp')],
 note='Buffers are used under their contracts (E01), parse under its own (H01). Well-formedness of the constant responses is decided by an independent recogniser.')
prop('H04', 'Earlier requests on an HTTP connection do not influence later ones',
 'How the HTTP server treats a request depends on this request only: after any sequence of earlier requests, answered with success or failure, arriving in any pieces, it is answered as it would be on a new connection, and no content type, length, path, method or wish to close the connection of an earlier request is applied to it.',
 [HI], 'all histories of requests and deliveries', 'tests send two requests on one connection at most', ['bomba_http.hpp'],
 [('HttpServer::Session', 'bomba_http.hpp'), ('Detail::HttpParseState', 'bomba_http.hpp')],
 note='Induction over the history: the parts of a session an answered request changes are arbitrary at the start of a step, and every step is proved to end in such a state.')
prop('H05', 'The HTTP client sends well-formed requests and matches complete responses',
 'The HTTP client writes each request once, complete and well-formed, with its host, path or content type, and the exact length of the body. It hands a response to the reader only when it is complete and the one waited for: responses belong to requests in the order of sending, whatever pieces they arrive in; the body is exactly what the response\'s length says; success is reported exactly for status 200 to 299.',
 [IN, HI], 'all responses, splits into deliveries, request tokens, hosts, paths and bodies', 'tests receive one or two responses in one piece', ['bomba_http.hpp'],
 [('HttpClient::getResponse/parseResponse', 'bomba_http.hpp'), ('HttpClient::post/get', 'bomba_http.hpp')],
 note='Any two deliveries (kept or new; the same response with more, or another one); parse and the buffers under their contracts.')
prop('F01', 'HTML form messages are encoded and decoded without loss',
 'For every object of integers, floats, texts and true booleans, form output writes one message of printable ASCII characters that form input reads back member by member, in order, with the same names and values: every UTF-8 text is encoded so that it decodes to itself (except texts that contain a literal character reference &#...). Messages percent-encoded in other ways (either case of digits, + or %20, references of characters) read as what they denote. On arbitrary bytes, reading stays inside the message and terminates.',
 [IN], 'every text, name, number and sequence of members; every choice of escapes; arbitrary bytes', 'tests decode two messages', ['bomba_http.hpp'],
 [('mangleHttpResponse', 'bomba_http.hpp'), ('demangleHttpResponse', 'bomba_http.hpp'), ('HtmlMessageEncoding', 'bomba_http.hpp')],
 note='Encoding and decoding of texts are proved for all texts and all byte sequences; the order and values of the members of an object are bounded (native oracle). std::from_chars/to_chars under assumed contracts.')
prop('R06', 'Paths of remote callables lead back to the callables they were made for',
 'For any tree of callables whose names are not empty and do not contain the separator, the path constructed for a callable is the names from below the root down to it, in order, with separators between, and finding that path from the root gives this callable. Finding any path follows exactly its names between separators one by one (one separator at the end is ignored) and gives null if there is none for a name; it never reads outside of the path.',
 [IN, CO], 'all trees, names, depths, separators and path texts', 'tests use one object with few members', ['bomba_core.hpp'],
 [('PathWithSeparator::findCallable', 'bomba_core.hpp'), ('PathWithSeparator::constructPath/prependPath', 'bomba_core.hpp')],
 note='findCallable is proved for all paths and trees with separators of one and two characters; constructPath and prependPath for any chain of parents by induction. That the two are inverse follows from these contracts for separator-free names and is additionally sampled.')
prop('T02', 'The TCP receive buffer shows a session every byte once, in order',
 'However the bytes of a TCP connection are split into deliveries, and however the session behaves (consumes one or more messages, waits for more, asks to disconnect), the receive buffer shows the session exactly the received bytes it has not consumed yet, in order, none lost, repeated or altered, also when a message is larger than the buffer; every consumed message is announced once; the space offered for the next delivery never overlaps kept bytes, is inside the buffer and never empty. A connection continues exactly until an error, the end of the stream or a demand to disconnect.',
 [IN, HI], 'all contents, deliveries, message sizes and reactions, and every state an earlier delivery leaves', 'tests exchange short messages over a local connection', ['bomba_tcp_server.hpp'],
 [('TcpServerBuffer::receive', 'bomba_tcp_server.hpp'), ('TcpServerBuffer::readBuffer', 'bomba_tcp_server.hpp')],
 note='Induction over deliveries: one delivery from any state a delivery may leave (its invariant), in both modes (fixed array, vector), with a loop invariant over the messages consumed. std::vector<char> under assumed contracts; sockets are not covered.')
