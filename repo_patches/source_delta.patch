From 66c5c58151d6798dd32d7fc326652c0bb7925996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 01/30] fix: JSON type identification of negative non-integer
 numbers

---
 bomba_json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 8761feb..19a376c 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -79,7 +79,7 @@ struct BasicJson {
 			if (nextChar == '"')
 				return TYPE_STRING;
 			if (nextChar == '-' || (nextChar >= '0' && nextChar <= '9')) {
-				for (int i = _position; _contents.begin() + i < _contents.end(); i++) {
+				for (int i = _position + 1; _contents.begin() + i < _contents.end(); i++) {
 					if (_contents[i] == '.' || _contents[i] == 'e' || _contents[i] == 'E')
 						return TYPE_FLOAT;
 					if (_contents[i] < '0' || _contents[i] > '9')
-- 
2.43.0


From b79c67e906993648e805ef81bc22cec64d0f785d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 02/30] fix: JSON integers at the end of input or with a
 positive exponent

---
 bomba_json.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 19a376c..833eb52 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -107,10 +107,10 @@ struct BasicJson {
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected JSON integer");
 			// Deal with floats sent instead of integers
-			char next = peekChar();
-			while ((next >= '0' && next <= '9') || next == '.' || next == 'e' || next == 'E' || next == '-') {
+			char next = peekChar<false>();
+			while ((next >= '0' && next <= '9') || next == '.' || next == 'e' || next == 'E' || next == '-' || next == '+') {
 				_position++;
-				next = peekChar();
+				next = peekChar<false>();
 			}
 			return result;
 		}
-- 
2.43.0


From 398ce0ad079e20d6fc3e3f097ab111089f9279c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 03/30] fix: JSON numbers of 20 or more characters were not
 terminated

---
 bomba_json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 833eb52..35b79e6 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -265,7 +265,7 @@ struct BasicJson {
 		
 		template <typename Num>
 		void writeValue(Num value) {
-			constexpr int SIZE = 20;
+			constexpr int SIZE = 32; // 24 for the longest double, a sign and 19 digits for integers, and a null
 			std::array<char, SIZE> bytes = {};
 			std::to_chars(bytes.data(), bytes.data() + SIZE, value);
 			_contents += &bytes[0];
-- 
2.43.0


From cede2e804ef44cf9e267dc16a8d0145be140df5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 04/30] fix: JSON strings with control characters and with
 escape sequences

---
 bomba_json.hpp | 62 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 61 insertions(+), 1 deletion(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 35b79e6..eaaa2d9 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -66,6 +66,48 @@ struct BasicJson {
 			}
 		}
 		
+		unsigned int readFourHexDigits() {
+			unsigned int result = 0;
+			for (int i = 0; i < 4; i++) {
+				char digit = getChar();
+				result <<= 4;
+				if (digit >= '0' && digit <= '9')
+					result |= digit - '0';
+				else if (digit >= 'a' && digit <= 'f')
+					result |= digit - 'a' + 10;
+				else if (digit >= 'A' && digit <= 'F')
+					result |= digit - 'A' + 10;
+				else
+					fail("Invalid unicode escape in JSON string");
+			}
+			return result;
+		}
+
+		void readUnicodeEscape() {
+			unsigned int code = readFourHexDigits();
+			if (code >= 0xd800 && code < 0xdc00) { // Encoded as a surrogate pair
+				if (getChar() != '\\' || getChar() != 'u')
+					fail("Invalid unicode escape in JSON string");
+				code = 0x10000 + ((code - 0xd800) << 10) + ((readFourHexDigits() - 0xdc00) & 0x3ff);
+			}
+			if (code < 0x80) {
+				_resultBuffer += char(code);
+				return;
+			}
+			if (code < 0x800) {
+				_resultBuffer += char(0xc0 | (code >> 6));
+			} else {
+				if (code < 0x10000) {
+					_resultBuffer += char(0xe0 | (code >> 12));
+				} else {
+					_resultBuffer += char(0xf0 | (code >> 18));
+					_resultBuffer += char(0x80 | ((code >> 12) & 0x3f));
+				}
+				_resultBuffer += char(0x80 | ((code >> 6) & 0x3f));
+			}
+			_resultBuffer += char(0x80 | (code & 0x3f));
+		}
+
 	public:
 		Input(std::string_view contents) : _contents(contents) {}
 		
@@ -142,6 +184,18 @@ struct BasicJson {
 						_resultBuffer += '"';
 					else if (readingChar == 'n')
 						_resultBuffer += '\n';
+					else if (readingChar == '/')
+						_resultBuffer += '/';
+					else if (readingChar == 't')
+						_resultBuffer += '\t';
+					else if (readingChar == 'r')
+						_resultBuffer += '\r';
+					else if (readingChar == 'b')
+						_resultBuffer += '\b';
+					else if (readingChar == 'f')
+						_resultBuffer += '\f';
+					else if (readingChar == 'u')
+						readUnicodeEscape();
 				} else _resultBuffer += readingChar;
 				readingChar = getChar();
 			}
@@ -292,8 +346,14 @@ struct BasicJson {
 		void writeString(Flags flags, std::string_view value) final override {
 			_contents += '"';
 			for (const char it : value) {
-				if (it == '\\' || it == '\n' || it == '"') [[unlikely]]
+				if (it == '\\' || it == '"') [[unlikely]]
 					_contents += '\\';
+				else if (it >= 0 && it < ' ') [[unlikely]] {
+					_contents += "\\u00";
+					_contents += it < 0x10 ? '0' : '1';
+					_contents += "0123456789abcdef"[it & 0xf];
+					continue;
+				}
 				_contents += it;
 			}
 			_contents += '"';
-- 
2.43.0


From 9b5391c01d2378d803565661cca4c71e19f3981a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 05/30] fix: skipping of JSON values followed by a bracket and
 of strings with escapes

---
 bomba_json.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index eaaa2d9..6c80db8 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -276,6 +276,8 @@ struct BasicJson {
 					depth++;
 					getChar();
 				} else if (readingChar == '}' || readingChar == ']') {
+					if (depth == 0)
+						break; // This ends the enclosing object or array
 					depth--;
 					getChar();
 					if (depth <= 0)
@@ -287,7 +289,11 @@ struct BasicJson {
 					getChar();
 					do {
 						readingChar = getChar();
-					} while (readingChar != '"' && _contents[_position - 1] != '\\');
+						if (readingChar == '\\')
+							getChar(); // Escaped, it can't be the end even if it's a quote
+					} while (readingChar != '"');
+					if (depth == 0)
+						break;
 				} else { // Numbers, bool, null...
 					getChar();
 				}
-- 
2.43.0


From 8550cca5377b2770fbdd87595666365b967d5e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:10 +0000
Subject: [PATCH 06/30] fix: reading a JSON number at the end of the input
 formed a reference past its end

---
 bomba_json.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 6c80db8..5143621 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -144,8 +144,8 @@ struct BasicJson {
 		int64_t readInt(Flags flags) final override {
 			eatWhitespace();
 			int64_t result = 0;
-			std::from_chars_result got = std::from_chars(&_contents[_position], &*_contents.end(), result);
-			_position += got.ptr - &_contents[_position];
+			std::from_chars_result got = std::from_chars(_contents.data() + _position, _contents.data() + _contents.size(), result);
+			_position = got.ptr - _contents.data();
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected JSON integer");
 			// Deal with floats sent instead of integers
@@ -159,8 +159,8 @@ struct BasicJson {
 		double readFloat(Flags flags) final override {
 			eatWhitespace();
 			double result = 0;
-			std::from_chars_result got = std::from_chars(&_contents[_position], &*_contents.end(), result);
-			_position += got.ptr - &_contents[_position];
+			std::from_chars_result got = std::from_chars(_contents.data() + _position, _contents.data() + _contents.size(), result);
+			_position = got.ptr - _contents.data();
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected JSON double");
 			return result;
-- 
2.43.0


From 993c06e166e233d10f6b6dfc03dd72a34ae7693a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 07/30] fix: conversion of 16-bit floats to and from other
 floats

---
 bomba_core.hpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index dd55d41..b414ffb 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -93,12 +93,30 @@ auto makeRaiiContainer(Resource&& resource, Destruction&& destruction) {
 struct Float16Placeholder {
 	uint16_t data;
 	Float16Placeholder& operator=(float value) {
-		uint32_t asInt = reinterpret_cast<uint32_t&>(value);
-		data = ((asInt >> 16) & 0x8000) | ((((asInt & 0x7f800000) - 0x38000000) >> 13 ) & 0x7c00) | ((asInt >> 13) & 0x03ff);
+		uint32_t asInt;
+		memcpy(&asInt, &value, sizeof(asInt));
+		uint32_t sign = (asInt >> 16) & 0x8000;
+		uint32_t fraction = asInt & 0x007fffff;
+		int exponent = int((asInt >> 23) & 0xff) - 127 + 15;
+		if (exponent >= 0x1f) // Infinity, too large or not a number
+			data = sign | 0x7c00 | ((exponent == 0xff - 127 + 15 && fraction) ? 0x0200 : 0);
+		else if (exponent > 0)
+			data = sign | (exponent << 10) | (fraction >> 13);
+		else // Subnormal or zero
+			data = sign | (exponent > -11 ? (fraction | 0x00800000) >> (14 - exponent) : 0);
 		return *this;
 	}
 	operator float() const {
-		return ((data & 0x8000) << 16) | (((data & 0x7c00) + 0x1C000) << 13) | ((data & 0x03ff) << 13);
+		uint32_t exponent = (data & 0x7c00) >> 10;
+		uint32_t fraction = data & 0x03ff;
+		if (exponent == 0) { // Subnormal or zero
+			float value = fraction / float(1 << 24);
+			return (data & 0x8000) ? -value : value;
+		}
+		uint32_t asInt = (uint32_t(data & 0x8000) << 16) | ((exponent == 0x1f ? 0xff : exponent + 127 - 15) << 23) | (fraction << 13);
+		float value;
+		memcpy(&value, &asInt, sizeof(value));
+		return value;
 	}
 };
 
-- 
2.43.0


From 6a91b38d217e5329bd3fce53ac09d07cffcd3ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 08/30] fix: binary sizes with a declared numeric type were
 written and read twice

---
 bomba_binary_protocol.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index b970424..2af3e6f 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -83,7 +83,7 @@ struct BinaryFormat {
 		}
 		int64_t readSize(Flags flags) {
 			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
-				readInt(flags);
+				return readInt(flags);
 			return readInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())));
 		}
 	public:
@@ -184,7 +184,7 @@ struct BinaryFormat {
 		
 		void writeSize(SerialisationFlags::Flags flags, int64_t size) {
 			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
-				writeInt(flags, size);
+				return writeInt(flags, size);
 			return writeInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())), size);
 		}
 	public:
-- 
2.43.0


From bea84c4c192ec195c88f2c07bd335ded1b1539ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 09/30] fix: binary booleans and optionals with a declared
 numeric type were not written as one byte

---
 bomba_binary_protocol.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 2af3e6f..c4e6b2c 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -200,8 +200,8 @@ struct BinaryFormat {
 			writeSize(flags, value.size());
 			_contents += value;
 		}
-		void writeBool(Flags flags, bool value) final override {
-			NumWriter::template writeNumber<int8_t>(value, SerialisationFlags::Flags(flags | SerialisationFlags::INT_8), _contents);
+		void writeBool(Flags, bool value) final override {
+			NumWriter::template writeNumber<int8_t>(value, SerialisationFlags::INT_8, _contents);
 		}
 		void writeNull(Flags) final override {
 		}
-- 
2.43.0


From f3561a50c9cbe7518a1c26a7710d526291cc0eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 10/30] fix: binary strings with a negative length were read

---
 bomba_binary_protocol.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index c4e6b2c..cfcaf82 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -106,7 +106,7 @@ struct BinaryFormat {
 		}
 		std::string_view readString(Flags flags) final override {
 			auto length = readSize(flags);
-			if (_position + length > _contents.size()) [[unlikely]] {
+			if (length < 0 || uint64_t(length) > _contents.size() - _position) [[unlikely]] {
 				parseError("Incomplete request");
 				good = false;
 				return "";
-- 
2.43.0


From 3b6d4b80b431c47df5f78f3c6f3aced006b219d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:35 +0000
Subject: [PATCH 11/30] fix: signed overflow on reading a binary array of a
 large negative size

---
 bomba_binary_protocol.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index cfcaf82..46c7f6b 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -136,7 +136,8 @@ struct BinaryFormat {
 			_sizes[_depth] = readSize(flags);
 		}
 		bool nextArrayElement(Flags) final override {
-			_sizes[_depth]--;
+			if (_sizes[_depth] > 0)
+				_sizes[_depth]--;
 			return (_sizes[_depth] > 0);
 		}
 		void endReadingArray(Flags) final override {
-- 
2.43.0


From 142e48619d2e1b6f03487a487ea8271da2df06bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 12/30] fix: adding a character to a full buffer wrote past its
 end

---
 bomba_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index b414ffb..6ccd3fc 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -439,6 +439,8 @@ public:
 	GeneralisedBuffer(const BufferType& buffer) : _buffer(buffer) {}
 
 	GeneralisedBuffer& operator+=(char added) {
+		if (_buffer.empty()) [[unlikely]]
+			return *this;
 		*_buffer.begin() = added;
 		_buffer = BufferType(_buffer.begin() + 1, _buffer.end());
 		_size++;
-- 
2.43.0


From 95c9580d4fd11711ef305fbad5fafcb82d2ff659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 13/30] fix: the size of a buffer was not reset by clearing it

---
 bomba_core.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 6ccd3fc..e290ab8 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -482,6 +482,10 @@ protected:
 	void moveBuffer(const BufferType& newBuffer) {
 		_buffer = newBuffer;
 	}
+	void restartBuffer(const BufferType& newBuffer) {
+		_buffer = newBuffer;
+		_size = 0;
+	}
 	int remainingSpace() const {
 		return _buffer.size();
 	}
@@ -541,7 +545,7 @@ public:
 	}
 
 	void clear() {
-		moveBuffer({_basic.data(), _basic.size()});
+		restartBuffer({_basic.data(), _basic.size()});
 	}
 };
 
@@ -592,7 +596,7 @@ public:
 
 	void clear() {
 		_extended.resize(0);
-		moveBuffer({_basic.data(), _basic.size()});
+		restartBuffer({_basic.data(), _basic.size()});
 	}
 };
 
-- 
2.43.0


From 83b93c28d530a6da0441ca5c659fa53d074b7fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 14/30] fix: HTTP first lines without separators were read past
 their end

---
 bomba_http.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 1cb847a..46a6ab6 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -631,7 +631,7 @@ public:
 
 			virtual bool firstLineReader(std::string_view firstLine) override {
 				int separator1 = 0;
-				while (firstLine[separator1] != ' ' && separator1 < std::ssize(firstLine))
+				while (separator1 < std::ssize(firstLine) && firstLine[separator1] != ' ')
 					separator1++;
 				std::string_view methodName = firstLine.substr(0, separator1);
 				if (methodName == "GET")
@@ -643,8 +643,12 @@ public:
 
 				separator1++;
 				int separator2 = separator1;
-				while (firstLine[separator2] != ' ' && separator2 < std::ssize(firstLine))
+				while (separator2 < std::ssize(firstLine) && firstLine[separator2] != ' ')
 					separator2++;
+				if (separator2 >= std::ssize(firstLine)) [[unlikely]] {
+					requestType = WEIRD_REQUEST; // No path or no protocol
+					return true;
+				}
 				path = std::pair<int, int>(separator1, separator2 - separator1);
 				separator2++;
 				std::string_view protocol = firstLine.substr(separator2, firstLine.size() - separator2);
@@ -844,13 +848,12 @@ class HttpClient : public IRpcResponder {
 
 		virtual bool firstLineReader(std::string_view firstLine) override {
 			int separator1 = 0;
-			while (firstLine[separator1] != ' ' && separator1 < std::ssize(firstLine))
+			while (separator1 < std::ssize(firstLine) && firstLine[separator1] != ' ')
 				separator1++;
 			separator1++;
-			int separator2 = separator1 + 1;
-			while (firstLine[separator2] != ' ' && separator2 < std::ssize(firstLine))
-				separator2++;
-			std::from_chars(&firstLine[separator1], &firstLine[separator2], resultCode);
+			if (separator1 >= std::ssize(firstLine)) [[unlikely]]
+				return false;
+			std::from_chars(firstLine.data() + separator1, firstLine.data() + firstLine.size(), resultCode);
 			return true;
 		}
 		virtual void headerReader(std::string_view, std::string_view, std::pair<int, int>) override { }
-- 
2.43.0


From 66c422d1ab5b6f20b2dba189c19c30c685a53163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 15/30] fix: HTTP messages with a negative or excessive
 Content-Length were processed

---
 bomba_http.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 46a6ab6..362c189 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -5,6 +5,7 @@
 #include "bomba_core.hpp"
 #endif
 #include <charconv>
+#include <limits>
 
 // Good HTTP protocol description: https://www3.ntu.edu.sg/home/ehchua/programming/webprogramming/HTTP_Basics.html
 // Good testing site: http://www.ptsv2.com/
@@ -118,6 +119,8 @@ struct HttpParseState {
 			// Use the data
 			if (attributeName == "content-length") {
 				std::from_chars(&*attributeValue.begin(), &*attributeValue.end(), bodySize);
+				if (bodySize < 0 || bodySize > std::numeric_limits<int>::max() / 2) [[unlikely]]
+					return {ServerReaction::DISCONNECT, 0};
 			} else
 				headerReader(attributeName, attributeValue, std::pair<int, int>(attributeValueStart, attributeValue.size()));
 
-- 
2.43.0


From e54254e33825329541e74f309aa1e4a27c280062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 16/30] fix: a POST without content type got the one of the
 previous request

---
 bomba_http.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 362c189..9e28e16 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -676,6 +676,7 @@ public:
 			auto restore = [this] () {
 				_state.reset();
 				_state.requestType = ParseState::UNINVESTIGATED_REQUEST;
+				_state.contentType = {};
 			};
 
 			// Locate the header's span
-- 
2.43.0


From 8178069e6068e3744c4e1a23249b2fe3bf3eab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 17/30] fix: wrong line ending in the HTTP response to unknown
 methods

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 9e28e16..bb8ad49 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -789,7 +789,7 @@ public:
 				}
 			} else {
 				constexpr std::string_view errorMessage =
-									"HTTP/1.1 501 Method Not Implemented\n\r"
+									"HTTP/1.1 501 Method Not Implemented\r\n"
 									"Content-Length: 77\r\n\r\n"
 									"<!doctype html><html lang=en><title>Error 501: Method not implemented</title>";
 				writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
-- 
2.43.0


From d2e79593911e500880fcc893c8dbb2fcff0156b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 18/30] fix: HTTP responses without Content-Length were given a
 body of negative size

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index bb8ad49..39810fc 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -933,7 +933,7 @@ public:
 				}					
 				done = true;
 
-				reader(std::span<char>(input.begin() + state.parsePosition, input.begin() + state.parsePosition + state.bodySize),
+				reader(std::span<char>(input.begin() + state.parsePosition, input.begin() + state.parsePosition + std::max(0, state.bodySize)),
 						(state.resultCode >= 200 && state.resultCode < 300));
 				if (!identified)
 					_lastTokenRead.id++;
-- 
2.43.0


From 5c0b4289d8b552063608e6ed8afcbc7ca29918f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 19/30] fix: the body of an HTTP request other than POST was
 taken for the next request

---
 bomba_http.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 39810fc..e2da3f4 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -692,17 +692,15 @@ public:
 				if (_state.bodySize == -1) {
 					return { ServerReaction::DISCONNECT, 0}; // The size was not in the header
 				}
-			} else _state.bodySize = 0;
+			} else if (_state.bodySize == -1)
+				_state.bodySize = 0;
 			int consuming = _state.parsePosition + _state.bodySize;
 			
+			if (std::ssize(input) < consuming)
+				return {ServerReaction::READ_ON, input.size()};
+
 			// All body has beed read
 			if (_state.requestType == ParseState::GET_REQUEST || _state.requestType == ParseState::POST_REQUEST) [[likely]] {
-				if (_state.requestType == ParseState::POST_REQUEST) {
-					if (_state.bodySize == -1 || std::ssize(input) < _state.parsePosition + _state.bodySize) {
-						return {ServerReaction::READ_ON, input.size()};
-					}
-				}
-
 				bool success = false;
 				constexpr static char correctIntro[] = "HTTP/1.1 200 OK\r\nContent-Length:";
 				constexpr static char unsetSize[] = " 0         ";
-- 
2.43.0


From a6464dc273f755d46aa2d448a9391c0fb10c5473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 20/30] fix: HTTP response headers arriving in parts were
 mistaken for complete

---
 bomba_http.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index e2da3f4..ae6c550 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -915,6 +915,7 @@ public:
 						done = true;
 					}
 					if (reaction != ServerReaction::OK) {
+						state = ParseState{}; // The header is read from its start when there is more of it
 						return {reaction, RequestToken{}, position};
 					}
 				}
-- 
2.43.0


From c5caedb41f51743a2825e9cae2437617f6a6795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 21/30] fix: Content-Length of HTTP responses of 2 GiB and more
 was wrong

---
 bomba_http.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index ae6c550..d4eb079 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -713,14 +713,13 @@ public:
 
 					WriteStarter(decltype(writer) writer) : writer(writer) {}
 
-					void startCorrectResponse(GeneralisedBuffer& target, std::string_view contentType, std::optional<int> size = std::nullopt) {
+					void startCorrectResponse(GeneralisedBuffer& target, std::string_view contentType, std::optional<int64_t> size = std::nullopt) {
 						startedResponse = true;
 						target += correctIntro;
 						if (!size.has_value()) {
 							target += unsetSize;
 						} else {
-							std::array<char, sizeof(unsetSize)> sizeBuffer;
-							memcpy(sizeBuffer.data(), unsetSize, sizeBuffer.size());
+							std::array<char, 24> sizeBuffer = {' '};
 							auto written = std::to_chars(sizeBuffer.data() + 1, sizeBuffer.data() + sizeBuffer.size(), *size);
 							target += std::string_view(sizeBuffer.data(), written.ptr - sizeBuffer.data());
 						}
-- 
2.43.0


From 58affa13874e628c3025693dbe0bb97cd08b5473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 22/30] fix: an HTTP error response was appended to a partially
 sent one

---
 bomba_http.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index d4eb079..0f35cd1 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -709,8 +709,7 @@ public:
 					Callback<void(std::span<const char>)> writer;
 					bool startedResponse = false;
 					int headerSize = 0;
-
-
+					bool streamed = false; // The beginning of the response may have been sent already
 					WriteStarter(decltype(writer) writer) : writer(writer) {}
 
 					void startCorrectResponse(GeneralisedBuffer& target, std::string_view contentType, std::optional<int64_t> size = std::nullopt) {
@@ -741,6 +740,7 @@ public:
 					}
 					void writeKnownSize(std::string_view resourceType, int64_t size, Callback<void(GeneralisedBuffer&)> filler) override {
 						NonOwningStreamingBuffer<1024> streamingBuffer{writer};
+						streamed = true;
 						startCorrectResponse(streamingBuffer, resourceType, size);
 						filler(streamingBuffer);
 					}
@@ -771,6 +771,10 @@ public:
 						}
 					}
 				} catch (...) {
+					if (correctResponseWriter.streamed) [[unlikely]] {
+						restore();
+						return {ServerReaction::DISCONNECT, consuming}; // The rest of the response cannot be sent
+					}
 					constexpr std::string_view errorMessage =
 							"HTTP/1.1 500 Internal Server Error\r\n"
 							"Content-Length: 76\r\n\r\n"
-- 
2.43.0


From 19307a6835dd252b6a8f4582baf77f705bf8764a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:03 +0000
Subject: [PATCH 23/30] fix: U+0800 in HTML form messages was decoded to
 invalid UTF-8

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 0f35cd1..229945b 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -174,7 +174,7 @@ void demangleHttpResponse(std::string_view input, StringType& output) {
 				if (value < 0x80)
 					output += value;
 				else {
-					if (value > 0x800) {
+					if (value >= 0x800) {
 						if (value >= 0x10000) {
 							output += 0b11110000 + (value >> 18);
 							output += 0b10000000 + ((value >> 12) & 0b00111111);
-- 
2.43.0


From b8fc75be129f593cd21710ca87b71e2eec8963dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:44 +0000
Subject: [PATCH 24/30] fix: HTML form messages ending with an empty or missing
 value were read past their end

---
 bomba_http.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 229945b..3fef0c8 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -156,7 +156,7 @@ void demangleUtf8Url(std::string_view input, StringType& output) {
 			if (i + 3 > input.size()) [[unlikely]]
 				return;
 			unsigned char escaped = {};
-			std::from_chars(&input[i + 1], &input[i + 3], escaped, 16);
+			std::from_chars(input.data() + i + 1, input.data() + i + 3, escaped, 16);
 			output += escaped;
 			i += 2;
 		} else [[likely]]
@@ -192,7 +192,7 @@ void demangleHttpResponse(std::string_view input, StringType& output) {
 				if (index + 3 > std::ssize(input)) [[unlikely]]
 					return 0;
 				int escaped = {};
-				std::from_chars(&input[index + 1], &input[index + 3], escaped, 16);
+				std::from_chars(input.data() + index + 1, input.data() + index + 3, escaped, 16);
 				return escaped;
 			};
 			int decoded = urlDecode(i);
@@ -350,7 +350,7 @@ struct HtmlMessageEncoding {
 		int64_t readInt(Flags) final override {
 			int end = getEnd();
 			int64_t result = 0;
-			std::from_chars_result got = std::from_chars(&_contents[_position], &_contents[end], result);
+			std::from_chars_result got = std::from_chars(_contents.data() + _position, _contents.data() + end, result);
 			_position = end;
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected integer");
@@ -401,17 +401,15 @@ struct HtmlMessageEncoding {
 					_position++;
 				_demangled.clear();
 				demangleHttpResponse(_contents.substr(start, _position - start), _demangled);
-				_position++;
+				if (_position < std::ssize(_contents)) [[likely]]
+					_position++;
 				onEach(_demangled, index);
 				index++;
 			}
 			_objectStarted = false;
 		}
 		void skipObjectElement(Flags) final override {
-			if (_contents[_position] == '&')
-				_position++;
-			while (_position < std::ssize(_contents) && _contents[_position] != '&')
-				_position++;
+			_position = getEnd();
 		}
 
 		bool readOptional(Flags, Callback<> readValue) override {
-- 
2.43.0


From 8ad071b17cc780ad812921436d64d69c1d4df17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:08 +0000
Subject: [PATCH 25/30] fix: types of values in HTML form messages were
 identified from a wrong place

---
 bomba_http.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 3fef0c8..9d34d78 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -324,15 +324,18 @@ struct HtmlMessageEncoding {
 				demangledPos++;
 			bool exponentWasUsed = false;
 			bool decimalWasUsed = false;
+			bool digitWasUsed = false;
 			bool canBeInt = true;
 			for (; demangledPos < std::ssize(demangled); demangledPos++) {
 				if (demangled[demangledPos] == 'e' || demangled[demangledPos] == 'E') {
 					if (exponentWasUsed) [[unlikely]]
 						return TYPE_STRING;
 					exponentWasUsed = true;
-					if (demangledPos >= std::ssize(demangled)) [[unlikely]]
+					if (!digitWasUsed) [[unlikely]]
 						return TYPE_STRING;
-					if (demangled[demangledPos] == '-')
+					digitWasUsed = false;
+					if (demangledPos + 1 < std::ssize(demangled)
+							&& (demangled[demangledPos + 1] == '-' || demangled[demangledPos + 1] == '+'))
 						demangledPos++;
 					canBeInt = false;
 				} else if (demangled[demangledPos] == '.') {
@@ -340,10 +343,13 @@ struct HtmlMessageEncoding {
 						return TYPE_STRING;
 					decimalWasUsed = true;
 					canBeInt = false;
-				}
-				if (demangled[_position] < '0' || demangled[_position] > '9')
+				} else if (demangled[demangledPos] >= '0' && demangled[demangledPos] <= '9') {
+					digitWasUsed = true;
+				} else
 					return TYPE_STRING;
 			}
+			if (!digitWasUsed) [[unlikely]]
+				return TYPE_STRING;
 			return canBeInt ? TYPE_INTEGER : TYPE_FLOAT;
 		}
 
-- 
2.43.0


From 94ad1ef7f884b5585c4f7ebb51dd9877d7abc612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 26/30] fix: numbers of 20 or more characters or with positive
 exponents broke HTML form messages

---
 bomba_http.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 9d34d78..72a5351 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -438,10 +438,10 @@ struct HtmlMessageEncoding {
 
 		template <typename Num>
 		void writeValue(Num value) {
-			constexpr int SIZE = 20;
+			constexpr int SIZE = 30;
 			std::array<char, SIZE> bytes = {};
-			std::to_chars(bytes.data(), bytes.data() + SIZE, value);
-			_contents += &bytes[0];
+			auto written = std::to_chars(bytes.data(), bytes.data() + SIZE, value);
+			mangleHttpResponse(std::string_view(bytes.data(), written.ptr - bytes.data()), _contents); // Exponents contain +
 		}
 	public:
 		Output(OutputStringType& contents) : _contents(contents) {}
-- 
2.43.0


From 35846b0b850cfb680ce7d9a1181d7e7ceae98cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:50 +0000
Subject: [PATCH 27/30] fix: names of members in HTML form messages were not
 escaped and read past their end

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 72a5351..3a71dee 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -484,7 +484,7 @@ struct HtmlMessageEncoding {
 		void introduceObjectMember(Flags, std::string_view name, int) final override {
 			if (_objectIndex != 0)
 				_contents += '&';
-			_contents += name.data();
+			mangleHttpResponse(name, _contents);
 			_contents += '=';
 			_objectIndex++;
 		}
-- 
2.43.0


From 155300984e9db343f51ecb2c322de82d5ab4a5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:29 +0000
Subject: [PATCH 28/30] fix: reading a number in an HTML form message moved to
 an unrelated position

---
 bomba_http.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 3a71dee..ba57050 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -366,7 +366,6 @@ struct HtmlMessageEncoding {
 			std::string_view demangled = demangleTillEnd();
 			double result = 0;
 			std::from_chars_result got = std::from_chars(demangled.data(), demangled.data() + demangled.size(), result);
-			_position += got.ptr - &_contents[_position];
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected double");
 			return result;
-- 
2.43.0


From 39c0b320f20f1bfc90094f12ac6863c5f1d2e517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 29/30] fix: texts like &a231; in HTML form messages were taken
 for character references

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index ba57050..c8edb18 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -197,7 +197,7 @@ void demangleHttpResponse(std::string_view input, StringType& output) {
 			};
 			int decoded = urlDecode(i);
 			if (decoded == '&' && i + 8 < std::ssize(input)) [[unlikely]] {
-				if (urlDecode(i + 3) == '#' && input[i + 6] >= '0' && input[i + 6] <= '9') {
+				if (input[i + 3] == '%' && urlDecode(i + 3) == '#' && input[i + 6] >= '0' && input[i + 6] <= '9') {
 					int numberEnd = i + 7;
 					while (numberEnd < std::ssize(input) && input[numberEnd] >= '0' && input[numberEnd] <= '9')
 						numberEnd++;
-- 
2.43.0


From b03a5283bc38b1af66f3e7febb6c8fe802707111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:00 +0000
Subject: [PATCH 30/30] fix: paths with separators of several characters kept a
 part of the separator in the names

---
 bomba_core.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index e290ab8..01428cc 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -834,10 +834,11 @@ struct PathWithSeparator {
 		const IRemoteCallable* current = root;
 		while (start < path.end()) {
 			auto end = start;
+			auto next = path.end();
 			while (end != path.end()) {
 				for (int i = 0; (end + i) != path.end() && *(end + i) == Separator[i]; i++) {
 					if (i + 1 == Separator.size()) {
-						end += i;
+						next = end + i + 1;
 						goto foundSeparator;
 					}
 				}
@@ -848,8 +849,7 @@ struct PathWithSeparator {
 			current = current->getChild(std::string_view(start, end));
 			if (!current)
 				return nullptr;
-			end++;
-			start = end;
+			start = next;
 		}
 		return current;
 	}
-- 
2.43.0

