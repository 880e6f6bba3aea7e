From 3056e2d844eef0849e4a518bd6e45ff8eee0bf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 01/38] fix: base64 encode/decode check output size before
 writing, not after

---
 include/crab/crypto/base64.hxx | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/crab/crypto/base64.hxx b/include/crab/crypto/base64.hxx
index 1aaac98..11accc2 100644
--- a/include/crab/crypto/base64.hxx
+++ b/include/crab/crypto/base64.hxx
@@ -38,8 +38,9 @@
 namespace crab { namespace base64 {
 
 CRAB_INLINE void encode(char *out, size_t out_len, const uint8_t *in, size_t in_len) {
+	if (out_len != encoded_size(in_len))  // check before writing to out
+		throw std::logic_error{"base64 encode size mismatch"};
 	const uint8_t *in_start = in;
-	char *out_start         = out;
 	const char *const tab   = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
 
 	for (auto n = in_len / 3; n--;) {
@@ -71,13 +72,17 @@ CRAB_INLINE void encode(char *out, size_t out_len, const uint8_t *in, size_t in_
 	default:
 		break;
 	}
-	if (out != out_start + out_len)
-		throw std::logic_error{"base64 encode size mismatch"};
 }
 
 CRAB_INLINE size_t decode(uint8_t *out, size_t out_len, const char *in, std::size_t in_len) {
 	uint8_t *out_start = out;
 
+	// must be called before writing to out
+	auto check_space = [&](size_t count) {
+		if (out_len - static_cast<size_t>(out - out_start) < count)
+			throw std::logic_error{"base64 decode size mismatch"};
+	};
+
 	const uint8_t *uin       = reinterpret_cast<const uint8_t *>(in);
 	const uint8_t *uin_start = uin;
 
@@ -109,12 +114,14 @@ CRAB_INLINE size_t decode(uint8_t *out, size_t out_len, const char *in, std::siz
 			if (uin[2] == '=') {
 				if ((c0 | c1) & 64)
 					return std::string::npos;
+				check_space(1);
 				int v  = (c0 << 18) + (c1 << 12);
 				*out++ = uint8_t(v >> 16);
 				continue;
 			}
 			if ((c0 | c1 | c2) & 64)
 				return std::string::npos;
+			check_space(2);
 			int v  = (c0 << 18) + (c1 << 12) + (c2 << 6);
 			*out++ = uint8_t(v >> 16);
 			*out++ = uint8_t(v >> 8);
@@ -122,6 +129,7 @@ CRAB_INLINE size_t decode(uint8_t *out, size_t out_len, const char *in, std::siz
 		}
 		if ((c0 | c1 | c2 | c3) & 64)
 			return std::string::npos;
+		check_space(3);
 		int v  = (c0 << 18) + (c1 << 12) + (c2 << 6) + c3;
 		*out++ = uint8_t(v >> 16);
 		*out++ = uint8_t(v >> 8);
@@ -134,6 +142,7 @@ CRAB_INLINE size_t decode(uint8_t *out, size_t out_len, const char *in, std::siz
 		int c2 = inverse[*uin++];
 		if ((c0 | c1 | c2) & 64)
 			return std::string::npos;
+		check_space(2);
 		int v  = (c0 << 18) + (c1 << 12) + (c2 << 6);
 		*out++ = uint8_t(v >> 16);
 		*out++ = uint8_t(v >> 8);
@@ -144,6 +153,7 @@ CRAB_INLINE size_t decode(uint8_t *out, size_t out_len, const char *in, std::siz
 		int c1 = inverse[*uin++];
 		if ((c0 | c1) & 64)
 			return std::string::npos;
+		check_space(1);
 		int v  = (c0 << 18) + (c1 << 12);
 		*out++ = uint8_t(v >> 16);
 		break;
@@ -151,8 +161,6 @@ CRAB_INLINE size_t decode(uint8_t *out, size_t out_len, const char *in, std::siz
 	case 1:
 		return std::string::npos;
 	}
-	if (static_cast<size_t>(out - out_start) > out_len)
-		throw std::logic_error{"base64 decode size mismatch"};
 	return out - out_start;
 }
 
-- 
2.43.0


From 576408ebe97f463ec6f51e31802cb615df103ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 02/38] fix: integer_cast from floating point throws on NaN and
 on values rounding to max + 1

---
 include/crab/integer_cast.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crab/integer_cast.hpp b/include/crab/integer_cast.hpp
index dffc7ca..e1b8459 100644
--- a/include/crab/integer_cast.hpp
+++ b/include/crab/integer_cast.hpp
@@ -4,6 +4,7 @@
 #pragma once
 
 #include <cctype>
+#include <cmath>
 #include <cstdint>
 #include <cstring>
 #include <limits>
@@ -184,7 +185,8 @@ inline T integer_cast_is_integral(const char *arg, std::false_type, std::false_t
 
 template<typename T, typename S>  // source floating point
 inline T integer_cast_is_integral(const S &arg, std::false_type, std::true_type) {
-	if (arg > std::numeric_limits<T>::max())
+	// written so that NaN throws. max() can be rounded up when converted to S, but max() + 1 is always power of 2, hence is exact
+	if (!(arg <= std::numeric_limits<T>::max()) || arg >= std::ldexp(S(1), std::numeric_limits<T>::digits))
 		throw_out_of_range<T>(arg);
 	if (arg < std::numeric_limits<T>::min())
 		throw_out_of_range<T>(arg);
-- 
2.43.0


From 9b4f2861bb9dee71739b1194d093d756a3d9a46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:42 +0000
Subject: [PATCH 03/38] fix: IMemoryStream::write_to keeps bytes the sink did
 not accept

---
 include/crab/streams.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/streams.hxx b/include/crab/streams.hxx
index 8dc83ae..8929942 100644
--- a/include/crab/streams.hxx
+++ b/include/crab/streams.hxx
@@ -202,7 +202,7 @@ CRAB_INLINE size_t IMemoryStream::write_to(OStream &out, size_t max_count) {
 			break;
 		size_t count = out.write_some(data, rc);
 		data += count;
-		si -= rc;
+		si -= count;
 		max_count -= count;
 		total_count += count;
 		if (count == 0)
-- 
2.43.0


From ac9988b9023e4e2e5c13b10bdf2a4d3b0ab11d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:42 +0000
Subject: [PATCH 04/38] fix: CombinedIStream::write_to counts bytes of the
 first stream too

---
 include/crab/streams.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crab/streams.hpp b/include/crab/streams.hpp
index 1c35ca8..fcb2d07 100644
--- a/include/crab/streams.hpp
+++ b/include/crab/streams.hpp
@@ -295,13 +295,13 @@ public:
 	}
 	using IStream::read_some;
 	size_t write_to(OStream &out, size_t max_count) override {
+		size_t count = 0;
 		if (!a->empty()) {
-			size_t count = a->write_to(out, max_count);
-			max_count -= count;
+			count = a->write_to(out, max_count);
 			if (!a->empty())
 				return count;
 		}
-		return b->write_to(out, max_count);
+		return count + b->write_to(out, max_count - count);
 	}
 	using IFiniteStream::write_to;
 };
-- 
2.43.0


From 416f75dde6a1bd533f863c356bedaad2ffd9d3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 05/38] fix: RequestParser skips empty line ended by bare LF
 before method

---
 include/crab/http/request_parser.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 95b3fe8..fd7625e 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -31,7 +31,7 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 		if (input == '\r')
 			return METHOD_START_LF;
 		if (input == '\n')
-			return METHOD;
+			return METHOD_START;
 		if (!is_char(input) || is_ctl(input) || is_tspecial(input))
 			throw std::runtime_error{"Invalid character at method start"};
 		req.method.push_back(input);
-- 
2.43.0


From 663a198bba6aa278894a0d92b2141c19778740ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 06/38] fix: RequestParser handles spaces at the end of request
 line

---
 include/crab/http/request_parser.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index fd7625e..1610740 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -157,9 +157,11 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 	case STATUS_LINE_CR:
 		if (is_sp(input))
 			return STATUS_LINE_CR;
+		if (input == '\r')
+			return STATUS_LINE_LF;
 		if (input != '\n')
 			throw std::runtime_error{"Newline is expected"};
-		return STATUS_LINE_LF;
+		return FIRST_HEADER_LINE_START;
 	case STATUS_LINE_LF:
 		if (input != '\n')
 			throw std::runtime_error{"Newline is expected"};
-- 
2.43.0


From 594159ad9c865669cc116d582e6f9c8ee26e3ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 07/38] fix: request and response parsers reject single-digit
 major versions above 1

---
 include/crab/http/request_parser.hxx  | 2 ++
 include/crab/http/response_parser.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 1610740..425798e 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -126,6 +126,8 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 		if (!isdigit(input))
 			throw std::runtime_error{"Invalid http version major start, must be digit"};
 		req.http_version_major = input - '0';
+		if (req.http_version_major > 1)
+			throw std::runtime_error{"Unsupported http version"};
 		return HTTP_VERSION_MAJOR;
 	case HTTP_VERSION_MAJOR:
 		if (input == '.')
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index ca7559c..7057372 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -48,6 +48,8 @@ CRAB_INLINE ResponseParser::State ResponseParser::consume(char input) {
 		if (!isdigit(input))
 			throw std::runtime_error{"Invalid http version major start, must be digit"};
 		req.http_version_major = input - '0';
+		if (req.http_version_major > 1)
+			throw std::runtime_error{"Unsupported http version"};
 		return HTTP_VERSION_MAJOR;
 	case HTTP_VERSION_MAJOR:
 		if (input == '.')
-- 
2.43.0


From 3504b3b731cbe9683058d8ffbbb02dee10f25c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 08/38] fix: chunked must be the last transfer encoding, not
 the first

---
 include/crab/http/request_parser.hxx  | 4 ++--
 include/crab/http/response_parser.hxx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 425798e..36d81f1 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -266,14 +266,14 @@ CRAB_INLINE void RequestParser::process_ready_header() {
 	if (header.name == string_view{"transfer-encoding"}) {
 		tolower(header.value);
 		if (header.value == string_view{"chunked"}) {
-			if (!req.transfer_encodings.empty())
-				throw std::runtime_error{"chunk encoding must be applied last"};
 			req.transfer_encoding_chunked = true;
 			return;
 		}
 		if (header.value == string_view{"identity"}) {
 			return;  // like chunked, it is transparent to user
 		}
+		if (req.transfer_encoding_chunked)
+			throw std::runtime_error{"chunk encoding must be applied last"};
 		req.transfer_encodings.push_back(header.value);
 		return;
 	}
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index 7057372..d4c137b 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -219,14 +219,14 @@ CRAB_INLINE void ResponseParser::process_ready_header() {
 	if (header.name == string_view{"transfer-encoding"}) {
 		tolower(header.value);
 		if (header.value == string_view{"chunked"}) {
-			if (!req.transfer_encodings.empty())
-				throw std::runtime_error{"chunk encoding must be applied last"};
 			req.transfer_encoding_chunked = true;
 			return;
 		}
 		if (header.value == string_view{"identity"}) {
 			return;  // like chunked, it is transparent to user
 		}
+		if (req.transfer_encoding_chunked)
+			throw std::runtime_error{"chunk encoding must be applied last"};
 		req.transfer_encodings.push_back(header.value);
 		return;
 	}
-- 
2.43.0


From 7c686642e9ed59442d74f049a89e5e55a2988537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 09/38] fix: header value folded before its first character has
 no leading spaces

---
 include/crab/http/request_parser.hxx  | 2 ++
 include/crab/http/response_parser.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 36d81f1..f9589b6 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -181,6 +181,8 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 		return HEADER_NAME;
 	case HEADER_LINE_START:
 		if (is_sp(input)) {
+			if (header.value.empty())
+				return SPACE_BEFORE_HEADER_VALUE;  // nothing to continue yet
 			header.value.push_back(input);
 			return HEADER_VALUE;  // value continuation
 		}
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index d4c137b..d719185 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -133,6 +133,8 @@ CRAB_INLINE ResponseParser::State ResponseParser::consume(char input) {
 		return HEADER_NAME;
 	case HEADER_LINE_START:
 		if (is_sp(input)) {
+			if (header.value.empty())
+				return SPACE_BEFORE_HEADER_VALUE;  // nothing to continue yet
 			header.value.push_back(input);
 			return HEADER_VALUE;  // value continuation
 		}
-- 
2.43.0


From f92b02eff824e054acea87843f006e2e9e729110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 10/38] fix: tabs are allowed inside header values and status
 text

---
 include/crab/http/request_parser.hxx  | 2 +-
 include/crab/http/response_parser.hxx | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index f9589b6..bbdf5c8 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -227,7 +227,7 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 			return HEADER_LF;
 		if (input == '\n')
 			return HEADER_LINE_START;
-		if (is_ctl(input))
+		if (is_ctl(input) && !is_sp(input))
 			throw std::runtime_error{"Invalid character (control) in header value"};
 		if (header_cms_list && input == ',') {
 			process_ready_header();
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index d719185..8e109a8 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -112,7 +112,7 @@ CRAB_INLINE ResponseParser::State ResponseParser::consume(char input) {
 			return STATUS_LINE_LF;
 		if (input == '\n')
 			return FIRST_HEADER_LINE_START;
-		if (is_ctl(input))
+		if (is_ctl(input) && !is_sp(input))
 			throw std::runtime_error{"Invalid character (control) in status text"};
 		req.status_text.push_back(input);
 		return STATUS_TEXT;
@@ -180,7 +180,7 @@ CRAB_INLINE ResponseParser::State ResponseParser::consume(char input) {
 		}
 		if (input == '\n')
 			return HEADER_LINE_START;
-		if (is_ctl(input))
+		if (is_ctl(input) && !is_sp(input))
 			throw std::runtime_error{"Invalid character (control) in header value"};
 		if (header_cms_list && input == ',') {
 			process_ready_header();
-- 
2.43.0


From 75acb1306df6cbf0799a12df4d27a5e060166ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 11/38] fix: trailer lines of chunked body may end with bare
 LF, as all other lines

---
 include/crab/http/request_parser.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index bbdf5c8..d864238 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -455,6 +455,8 @@ CRAB_INLINE BodyParser::State BodyParser::consume(uint8_t input) {
 		trailers_total_length += 1;
 		if (input == '\r')
 			return TRAILER_LF;
+		if (input == '\n')
+			return TRAILER_LINE_START;
 		return TRAILER;
 	case TRAILER_LF:
 		trailers_total_length += 1;
-- 
2.43.0


From 59115f4ffe042d48f661d08b6d0401b4b143b478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 12/38] fix: QueryParser continues normally after invalid
 percent sequences

---
 include/crab/http/query_parser.hxx | 40 +++++++++---------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/include/crab/http/query_parser.hxx b/include/crab/http/query_parser.hxx
index 0500109..66c76d8 100644
--- a/include/crab/http/query_parser.hxx
+++ b/include/crab/http/query_parser.hxx
@@ -87,32 +87,24 @@ CRAB_INLINE QueryParser::State QueryParser::consume(char input) {
 			key_.push_back(input);
 		return KEY;
 	case KEY_PERCENT1: {
-		if (input == '=') {
-			key_.push_back('%');
-			return VALUE;
-		}
 		int digit1 = from_hex_digit(input);
 		if (digit1 < 0) {
 			key_.push_back('%');
-			key_.push_back(input);
-			return KEY;
+			state = KEY;
+			return consume(input);
 		}
 		percent1_hex_sym = input;
 		return KEY_PERCENT2;
 	}
 	case KEY_PERCENT2: {
-		if (input == '=') {
-			key_.push_back('%');
-			key_.push_back(percent1_hex_sym);
-			return VALUE;
-		}
 		int digit2 = from_hex_digit(input);
 		if (digit2 < 0) {
 			key_.push_back('%');
 			key_.push_back(percent1_hex_sym);
-			key_.push_back(input);
-		} else
-			key_.push_back(static_cast<char>(from_hex_digit(percent1_hex_sym) * 16 + digit2));
+			state = KEY;
+			return consume(input);
+		}
+		key_.push_back(static_cast<char>(from_hex_digit(percent1_hex_sym) * 16 + digit2));
 		return KEY;
 	}
 	case VALUE:
@@ -128,32 +120,24 @@ CRAB_INLINE QueryParser::State QueryParser::consume(char input) {
 			value_.push_back(input);
 		return VALUE;
 	case VALUE_PERCENT1: {
-		if (input == '&') {
-			value_.push_back('%');
-			return KEY;
-		}
 		int digit1 = from_hex_digit(input);
 		if (digit1 < 0) {
 			value_.push_back('%');
-			value_.push_back(input);
-			return VALUE;
+			state = VALUE;
+			return consume(input);
 		}
 		percent1_hex_sym = input;
 		return VALUE_PERCENT2;
 	}
 	case VALUE_PERCENT2: {
-		if (input == '=') {
-			value_.push_back('%');
-			value_.push_back(percent1_hex_sym);
-			return VALUE;
-		}
 		int digit2 = from_hex_digit(input);
 		if (digit2 < 0) {
 			value_.push_back('%');
 			value_.push_back(percent1_hex_sym);
-			value_.push_back(input);
-		} else
-			value_.push_back(static_cast<char>(from_hex_digit(percent1_hex_sym) * 16 + digit2));
+			state = VALUE;
+			return consume(input);
+		}
+		value_.push_back(static_cast<char>(from_hex_digit(percent1_hex_sym) * 16 + digit2));
 		return VALUE;
 	}
 	default:
-- 
2.43.0


From 25c8cc5aa00960dd1106296bd3314a0ba38e1254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 13/38] fix: URIParser resolves all dot segments (last one,
 around encoded slash, after invalid percent)

---
 include/crab/http/query_parser.hxx | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/crab/http/query_parser.hxx b/include/crab/http/query_parser.hxx
index 66c76d8..e384152 100644
--- a/include/crab/http/query_parser.hxx
+++ b/include/crab/http/query_parser.hxx
@@ -290,32 +290,28 @@ CRAB_INLINE URIParser::State URIParser::consume(char input) {
 			cur_path_.push_back(input);
 		return PATH;
 	case PATH_HEX1: {
-		if (input == '?') {
-			cur_path_.push_back('%');
-			return QUERY;
-		}
 		int digit1 = from_hex_digit(input);
 		if (digit1 < 0) {
 			cur_path_.push_back('%');
-			cur_path_.push_back(input);
-			return PATH;
+			state = PATH;
+			return consume(input);
 		}
 		percent1_hex_sym = input;
 		return PATH_HEX2;
 	}
 	case PATH_HEX2: {
-		if (input == '?') {
-			cur_path_.push_back('%');
-			cur_path_.push_back(percent1_hex_sym);
-			return QUERY;
-		}
 		int digit2 = from_hex_digit(input);
 		if (digit2 < 0) {
 			cur_path_.push_back('%');
 			cur_path_.push_back(percent1_hex_sym);
-			cur_path_.push_back(input);
-		} else
-			cur_path_.push_back(static_cast<char>(static_cast<uint8_t>(from_hex_digit(percent1_hex_sym) * 16 + digit2)));
+			state = PATH;
+			return consume(input);
+		}
+		char decoded = static_cast<char>(static_cast<uint8_t>(from_hex_digit(percent1_hex_sym) * 16 + digit2));
+		if (decoded == '/')  // otherwise dots around encoded slash would survive in decoded path
+			persist_path_component();
+		else
+			cur_path_.push_back(decoded);
 		return PATH;
 	}
 	case QUERY:
@@ -336,6 +332,10 @@ CRAB_INLINE URIParser::State URIParser::consume_end() {
 		state = PATH;
 	}
 
+	if (cur_path_ == string_view{".."} && !path_components_.empty())
+		path_components_.pop_back();
+	if (cur_path_ == string_view{".."} || cur_path_ == string_view{"."})
+		cur_path_.clear();  // "/a/b/.." is "/a/", https://tools.ietf.org/html/rfc3986#section-5.2.4
 	for (auto &&pc : path_components_)
 		uri.path.append('/' + pc);
 	uri.path.append('/' + cur_path_);
-- 
2.43.0


From b2c86f2fb2681ff7280aac824d92645591a0f6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 14/38] fix: URIParser accepts query directly after host or
 port

---
 include/crab/http/query_parser.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/crab/http/query_parser.hxx b/include/crab/http/query_parser.hxx
index e384152..290a066 100644
--- a/include/crab/http/query_parser.hxx
+++ b/include/crab/http/query_parser.hxx
@@ -261,6 +261,8 @@ CRAB_INLINE URIParser::State URIParser::consume(char input) {
 		}
 		if (input == '/')
 			return PATH;
+		if (input == '?')
+			return QUERY;
 		if (input == ':')
 			return PORT;
 		uri.host.push_back(input);
@@ -277,6 +279,8 @@ CRAB_INLINE URIParser::State URIParser::consume(char input) {
 		}
 		if (input == '/')
 			return PATH;
+		if (input == '?')
+			return QUERY;
 		uri.port.push_back(input);
 		return PORT;
 	case PATH:
-- 
2.43.0


From a496fac6bc68e15044f8a099b47b138df8a22e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 15/38] fix: request path is percent-encoded on send and URI
 setter/getter are inverse, as documented

---
 include/crab/http/query_parser.hxx |  3 ++-
 include/crab/http/types.hxx        | 15 ++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/crab/http/query_parser.hxx b/include/crab/http/query_parser.hxx
index 290a066..7fb9f8e 100644
--- a/include/crab/http/query_parser.hxx
+++ b/include/crab/http/query_parser.hxx
@@ -7,6 +7,7 @@
 // Licensed under the MIT License. See LICENSE for details.
 
 #include <cctype>
+#include <cstring>
 #include <stdexcept>
 #include "query_parser.hpp"
 
@@ -388,7 +389,7 @@ CRAB_INLINE std::string url_encode(const std::string &str, bool path) {
 	static const char hexdigits[] = "0123456789abcdef";
 	std::string result;
 	for (auto c : str) {
-		if (!is_uri_reserved(c) || (path && c == '/')) {
+		if (!is_uri_reserved(c) || (path && c != 0 && std::strchr("/!$&'()*+,:;=@", c))) {  // pchar or slash
 			result += c;
 			continue;
 		}
diff --git a/include/crab/http/types.hxx b/include/crab/http/types.hxx
index 2111b47..cce0a37 100644
--- a/include/crab/http/types.hxx
+++ b/include/crab/http/types.hxx
@@ -192,21 +192,22 @@ CRAB_INLINE bool RequestHeader::is_websocket_upgrade() const {
 CRAB_INLINE void RequestHeader::set_uri(const std::string &uri) {
 	auto pos = uri.find('?');
 	if (pos == std::string::npos) {
-		path = uri;
+		path = url_decode(uri);
+		query_string.clear();
 	} else {
-		path         = uri.substr(0, pos);
+		path         = url_decode(uri.substr(0, pos));
 		query_string = uri.substr(pos + 1);
 	}
 }
 
-CRAB_INLINE std::string RequestHeader::get_uri() const { return query_string.empty() ? query_string : path + "?" + query_string; }
+CRAB_INLINE std::string RequestHeader::get_uri() const {
+	auto result = url_encode(path, true);
+	return query_string.empty() ? result : result + "?" + query_string;
+}
 
 CRAB_INLINE std::string RequestHeader::to_string() const {
 	std::stringstream ss;
-	ss << method << " " << path;  // TODO - uri-encode path
-	if (!query_string.empty())
-		ss << "?" << query_string;  // query_string must be already encoded
-	ss << " HTTP/" << http_version_major << "." << http_version_minor << "\r\n";
+	ss << method << " " << get_uri() << " HTTP/" << http_version_major << "." << http_version_minor << "\r\n";
 	if (!host.empty())
 		ss << "host: " << host << "\r\n";
 	if (!origin.empty())
-- 
2.43.0


From adfff6cbcae4ea14514fdf5441607159d06de751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 16/38] fix: ResponseHeader::to_string writes server field

---
 include/crab/http/types.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/types.hxx b/include/crab/http/types.hxx
index cce0a37..993cf87 100644
--- a/include/crab/http/types.hxx
+++ b/include/crab/http/types.hxx
@@ -233,6 +233,8 @@ CRAB_INLINE std::string ResponseHeader::to_string() const {
 	   << (status_text.empty() ? status_to_string(status) : status_text) << "\r\n";
 	if (!date.empty())
 		ss << "date: " << date << "\r\n";
+	if (!server.empty())
+		ss << "server: " << server << "\r\n";
 	details::to_string_common(*this, ss);
 	if (!sec_websocket_accept.empty())
 		ss << "sec-websocket-accept: " << sec_websocket_accept << "\r\n";
-- 
2.43.0


From 4d502646a1408bce3a7b4daf45ab77add808f4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 17/38] fix: WebMessageHeaderParser accepts continuation frames

---
 include/crab/http/web_message_parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crab/http/web_message_parser.hpp b/include/crab/http/web_message_parser.hpp
index 75cf882..988cd28 100644
--- a/include/crab/http/web_message_parser.hpp
+++ b/include/crab/http/web_message_parser.hpp
@@ -46,6 +46,7 @@ public:
 
 	static bool is_opcode_supported(int opcode) {
 		switch (opcode) {
+		case 0:  // continuation of fragmented message
 		case static_cast<int>(WebMessageOpcode::TEXT):
 		case static_cast<int>(WebMessageOpcode::BINARY):
 		case static_cast<int>(WebMessageOpcode::CLOSE):
-- 
2.43.0


From c5d247842961456356e72466efcfd4730835d138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 18/38] fix: rol by multiple of type width is not undefined
 behavior

---
 include/crab/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/util.hpp b/include/crab/util.hpp
index eba7d1f..552e344 100644
--- a/include/crab/util.hpp
+++ b/include/crab/util.hpp
@@ -169,7 +169,7 @@ inline bool is_valid_utf8(const std::string &str) { return is_valid_utf8(uint8_c
 template<typename T>
 T rol(T mask, size_t shift) {
 	shift = shift & (sizeof(T) * 8 - 1);
-	return (mask << shift) | (mask >> (sizeof(T) * 8 - shift));
+	return (mask << shift) | (mask >> ((sizeof(T) * 8 - shift) & (sizeof(T) * 8 - 1)));
 }
 
 namespace details {
-- 
2.43.0


From ead4ae8fdd39c00978e5427e98d450dcad9943bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:20 +0000
Subject: [PATCH 19/38] fix: Address::parse of ip:port parses IPv6 and returns
 false for bad port instead of throwing

---
 include/crab/network.hxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/crab/network.hxx b/include/crab/network.hxx
index 8047475..a975f86 100644
--- a/include/crab/network.hxx
+++ b/include/crab/network.hxx
@@ -41,10 +41,15 @@ CRAB_INLINE Address::Address(const std::string &ip_port) {
 }
 
 CRAB_INLINE bool Address::parse(Address &address, const std::string &ip_port) {
-	size_t pos = ip_port.find(':');
+	size_t pos = ip_port.rfind(':');  // IPv6 addresses contain ':', while port does not
 	if (pos == std::string::npos)
 		return false;
-	auto port = integer_cast<uint16_t>(ip_port.substr(pos + 1));
+	uint16_t port = 0;
+	try {
+		port = integer_cast<uint16_t>(ip_port.substr(pos + 1));
+	} catch (const std::exception &) {
+		return false;
+	}
 	return parse(address, ip_port.substr(0, pos), port);
 }
 
-- 
2.43.0


From 17ff62036fe6df0de5c1439826b25b3ea83976f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 20/38] fix: RunLoop does not oversleep timers after slow
 handlers

---
 include/crab/network.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crab/network.hxx b/include/crab/network.hxx
index a975f86..1b12b7c 100644
--- a/include/crab/network.hxx
+++ b/include/crab/network.hxx
@@ -164,6 +164,9 @@ CRAB_INLINE void RunLoop::run() {
 			continue;
 		// Nothing triggered and no timers here
 		if (idle_handlers.empty()) {
+			// Handlers could have been running for some time after links.now was updated
+			const auto passed = std::chrono::duration_cast<std::chrono::milliseconds>(steady_clock::now() - links.now).count();
+			timeout_ms        = passed < timeout_ms ? timeout_ms - static_cast<int>(passed) : 0;
 			step(timeout_ms);  // Just waiting
 		} else {
 			step(0);  // Poll, beware, both lists in a line below could change as a result
-- 
2.43.0


From 9e043228bc05fe7d0bb1a4180b9a14465b454a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 21/38] fix: BufferedTCPSocket connect/accept drop buffered
 data and shutdown of previous connection

---
 include/crab/http/connection.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/crab/http/connection.hpp b/include/crab/http/connection.hpp
index ce6bf99..def7cd1 100644
--- a/include/crab/http/connection.hpp
+++ b/include/crab/http/connection.hpp
@@ -24,9 +24,18 @@ public:
 	void close(bool with_event = false);
 	bool is_open() const { return sock.is_open(); }
 
-	bool connect(const Address &address) { return sock.connect(address); }
-	bool connect_tls(const Address &address, const std::string &host) { return sock.connect_tls(address, host); }
-	void accept(TCPAcceptor &acceptor, Address *accepted_addr = nullptr) { sock.accept(acceptor, accepted_addr); }
+	bool connect(const Address &address) {
+		close();  // Previous connection buffer, shutdown state and timer
+		return sock.connect(address);
+	}
+	bool connect_tls(const Address &address, const std::string &host) {
+		close();
+		return sock.connect_tls(address, host);
+	}
+	void accept(TCPAcceptor &acceptor, Address *accepted_addr = nullptr) {
+		close();
+		sock.accept(acceptor, accepted_addr);
+	}
 
 	size_t read_some(uint8_t *val, size_t count) override;
 	using IStream::read_some;  // Version for other char types
-- 
2.43.0


From 86ab6a85122872305cc828682c2f05576b7a215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:05 +0000
Subject: [PATCH 22/38] fix: TCPSocket::write_shutdown ignored while socket is
 not writable

---
 include/crab/network_posix.hxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/crab/network_posix.hxx b/include/crab/network_posix.hxx
index 0e3aa01..fbfd348 100644
--- a/include/crab/network_posix.hxx
+++ b/include/crab/network_posix.hxx
@@ -397,7 +397,13 @@ CRAB_INLINE void TCPSocket::close(bool with_event) {
 }
 
 CRAB_INLINE void TCPSocket::write_shutdown() {
-	if (!fd.is_valid() || !rwd_handler.can_write)
+	if (!fd.is_valid())
+		return;
+	// can_write is also false when buffer is full, or before first event, while shutdown must not be lost then.
+	// We must not shut down socket which is still connecting, though
+	sockaddr_storage peer{};
+	socklen_t peer_len = sizeof(peer);
+	if (!rwd_handler.can_write && ::getpeername(fd.get_value(), reinterpret_cast<sockaddr *>(&peer), &peer_len) < 0)
 		return;
 	::shutdown(fd.get_value(), SHUT_WR);
 }
-- 
2.43.0


From c179acf7b539ff494ffcdbc02d2c6c91cc6271d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:54 +0000
Subject: [PATCH 23/38] fix: pending UDP error stalls datagrams already in the
 queue

---
 include/crab/network_posix.hxx | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/crab/network_posix.hxx b/include/crab/network_posix.hxx
index fbfd348..46a8c27 100644
--- a/include/crab/network_posix.hxx
+++ b/include/crab/network_posix.hxx
@@ -143,12 +143,20 @@ CRAB_INLINE optional<size_t> read_datagram(const FileDescriptor &fd,
 	// (while correct behaviour is reading, truncating to 0, returning EMSGSIZE).
 	// We protect clients semantic by reading into our own small buffer
 	uint8_t workaround_buffer[1];  // Uninitialized
-	ssize_t result = recvfrom(fd.get_value(),
-	    count ? data : workaround_buffer,
-	    count ? count : sizeof(workaround_buffer),
-	    details::CRAB_MSG_NOSIGNAL,
-	    in_addr.impl_get_sockaddr(),
-	    &in_len);
+	ssize_t result = -1;
+	for (int attempt = 0; attempt != 16; ++attempt) {
+		result = recvfrom(fd.get_value(),
+		    count ? data : workaround_buffer,
+		    count ? count : sizeof(workaround_buffer),
+		    details::CRAB_MSG_NOSIGNAL,
+		    in_addr.impl_get_sockaddr(),
+		    &in_len);
+		if (result >= 0 || errno == EAGAIN || errno == EWOULDBLOCK || errno == EMSGSIZE)
+			break;
+		// Asynchronous error (for example ECONNREFUSED after ICMP report) was reported and cleared by the call,
+		// datagrams can still be in the queue, and epoll will not wake us up for them again, so we read on
+		in_len = sizeof(sockaddr_storage);
+	}
 	if (result > static_cast<ssize_t>(count))  // Can only happen when reading into workaround_buffer
 		result = static_cast<ssize_t>(count);
 	RunLoop::current()->stats.push_record("R(recvfrom)", fd.get_value(), int(result));
@@ -163,7 +171,7 @@ CRAB_INLINE optional<size_t> read_datagram(const FileDescriptor &fd,
 		if (errno != EMSGSIZE) {
 			// Sometimes (for example during adding/removing network adapters), errors could be returned on Linux
 			// We will ignore all errors here, in hope they will disappear soon
-			// TODO - if we get here, we will not be woke up by epoll any more, so
+			// TODO - if we get here, error persists, and we will not be woke up by epoll any more, so
 			// we need to classify all errors here, like in TCPAcceptor
 			return {};
 		}
-- 
2.43.0


From 10e30461ea9c70083c4e9f3275c03fa359932cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:54 +0000
Subject: [PATCH 24/38] fix: BufferedTCPSocket::write_shutdown never sends data
 which was only buffered

---
 include/crab/http/connection.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index ca3b7e8..1615239 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -95,6 +95,8 @@ CRAB_INLINE void BufferedTCPSocket::write_shutdown() {
 	if (data_to_write.empty()) {
 		sock.write_shutdown();
 		shutdown_timer.once(WM_SHUTDOWN_TIMEOUT_SEC);
+	} else {
+		write();  // Data could be only buffered, then socket event will not come
 	}
 }
 
-- 
2.43.0


From d558a6aeffc6971c95d5e50a52f6e9fde904adf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:10 +0000
Subject: [PATCH 25/38] fix: response with both chunked encoding and content
 length is framed wrongly

---
 include/crab/http/connection.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 1615239..2ce9dfa 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -517,6 +517,9 @@ CRAB_INLINE void ServerConnection::write(ResponseHeader &resp, BufferOptions bo)
 	invariant(!resp.is_websocket_upgrade(), "Please use web_socket_upgrade() function for web socket upgrade");
 	invariant(resp.transfer_encoding_chunked || resp.content_length, "Please set either chunked encoding or content_length");
 
+	if (resp.transfer_encoding_chunked)
+		resp.content_length.reset();  // Must not be sent together, and body is framed by one of them
+
 	resp.http_version_major = request_parser.req.http_version_major;
 	resp.http_version_minor = request_parser.req.http_version_minor;
 	resp.keep_alive         = request_parser.req.keep_alive;
-- 
2.43.0


From 166d151d88e8b6e618af57684eef3e5180365699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:10 +0000
Subject: [PATCH 26/38] fix: ErrorAuthorization response has no content length,
 throws out of run loop

---
 include/crab/http/server.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index f557ace..f754145 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -167,6 +167,7 @@ CRAB_INLINE void Server::on_client_handle_request(Client *who, Request &&request
 		Response response;
 		response.header.headers.push_back({"WWW-Authenticate", "Basic realm=\"" + ex.realm + "\", charset=\"UTF-8\""});
 		response.header.status = 401;
+		response.set_body(std::string{});  // Sets content-length
 		who->write(std::move(response));
 		return;
 	} catch (const std::exception &ex) {
-- 
2.43.0


From 5ebae39c08565e6c20e059d0a30c263776b58422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:10 +0000
Subject: [PATCH 27/38] fix: unfinished web message fragment survives into the
 next connection

---
 include/crab/http/connection.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 2ce9dfa..f5f8bd4 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -171,6 +171,7 @@ CRAB_INLINE bool ClientConnection::connect(const Address &address) {
 CRAB_INLINE void ClientConnection::close() {
 	state = RESOLVING_HOST;
 	read_buffer.clear();
+	web_message.reset();  // Fragments must not join messages of the next connection
 	dns.cancel();
 	waiting_request.reset();
 	sock.close();
@@ -439,6 +440,7 @@ CRAB_INLINE void ServerConnection::accept(TCPAcceptor &acceptor) {
 
 CRAB_INLINE void ServerConnection::close() {
 	read_buffer.clear();
+	web_message.reset();  // Fragments must not join messages of the next connection
 	wm_ping_timer.cancel();
 	sock.close();
 	state                    = REQUEST_HEADER;
-- 
2.43.0


From b484c6b601190a1b30b3e2f3fa5ec6d923e64cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:10 +0000
Subject: [PATCH 28/38] fix: body position does not advance when streaming
 rvalue strings

---
 include/crab/http/server.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index f754145..dc9e5c3 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -46,8 +46,9 @@ CRAB_INLINE void Client::write(const uint8_t *val, size_t count, BufferOptions b
 }
 
 CRAB_INLINE void Client::write(std::string &&ss, BufferOptions buffer_options) {
+	const size_t count = ss.size();  // Before ss is moved from
 	ServerConnection::write(std::move(ss), buffer_options);
-	body_position += ss.size();
+	body_position += count;
 	if (!is_writing_body()) {
 		rwd_handler = nullptr;
 	}
-- 
2.43.0


From 2120b10eb77f03ef1c6b07f8f51f43f1b55c9d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:56 +0000
Subject: [PATCH 29/38] fix: stream and disconnect handlers are destroyed while
 running

---
 include/crab/http/server.hpp |  1 +
 include/crab/http/server.hxx | 31 +++++++++++++++++++++++--------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/crab/http/server.hpp b/include/crab/http/server.hpp
index 31a6491..4642be3 100644
--- a/include/crab/http/server.hpp
+++ b/include/crab/http/server.hpp
@@ -79,6 +79,7 @@ private:
 
 	uint64_t body_position      = 0;
 	bool web_message_close_sent = false;
+	void call_stream_handler(Handler &&scb);
 	friend class Server;
 };
 
diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index dc9e5c3..fe8cdd3 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -78,16 +78,30 @@ CRAB_INLINE void Client::start_write_stream(ResponseHeader &response, Handler &&
 		response.server = "crab";
 	ServerConnection::write(response);
 	d_handler     = nullptr;
-	rwd_handler   = std::move(cb);
+	rwd_handler   = nullptr;
 	body_position = 0;
-	rwd_handler();  // Some data might are ready, so we call handler immediately. TODO - investigate consequences
+	call_stream_handler(std::move(cb));  // Some data might are ready, so we call handler immediately. TODO - investigate consequences
 }
 
 CRAB_INLINE void Client::start_write_stream(WebMessageOpcode opcode, Handler &&scb) {
 	ServerConnection::write(opcode);
-	rwd_handler   = std::move(scb);
+	rwd_handler   = nullptr;
 	body_position = 0;
-	rwd_handler();  // Some data might are ready, so we call handler immediately. TODO - investigate consequences
+	call_stream_handler(std::move(scb));  // Some data might are ready, so we call handler immediately. TODO - investigate consequences
+}
+
+CRAB_INLINE void Client::call_stream_handler(Handler &&scb) {
+	// Handler finishing the stream resets rwd_handler, it must not destroy itself while running
+	struct Restore {
+		Client *who;
+		Handler handler;
+		~Restore() {
+			if (who->is_writing_body() && !who->rwd_handler)
+				who->rwd_handler = std::move(handler);
+		}
+	} restore{this, std::move(scb)};
+	rwd_handler = nullptr;
+	restore.handler();
 }
 
 CRAB_INLINE Server::Server(const Address &address, const Settings &settings)
@@ -123,7 +137,7 @@ CRAB_INLINE void Server::on_client_handler(std::list<Client>::iterator it) {
 	WebMessage message;
 	Request request;
 	if (who->rwd_handler)
-		who->rwd_handler();
+		who->call_stream_handler(std::move(who->rwd_handler));
 	while (true) {
 		if (who->read_next(message)) {
 			on_client_handle_message(who, std::move(message));
@@ -146,10 +160,11 @@ CRAB_INLINE void Server::accept_all() {
 
 CRAB_INLINE void Server::on_client_disconnected(std::list<Client>::iterator it) {
 	Client *who = &*it;
-	if (who->d_handler)
-		who->d_handler();
+	Handler d_handler = std::move(who->d_handler);  // Late write() from handler must not destroy it while running
+	if (d_handler)
+		d_handler();
 	if (who->rwd_handler)
-		who->rwd_handler();
+		who->call_stream_handler(std::move(who->rwd_handler));
 	if (who->ws_handler)
 		who->ws_handler(WebMessage{WebMessageOpcode::CLOSE, {},
 		    who->web_message_close_sent ? WebMessage::CLOSE_STATUS_NORMAL : WebMessage::CLOSE_STATUS_DISCONNECT});
-- 
2.43.0


From 8982cd9e47a6268c16e437c6dd9d65994d2919a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:22 +0000
Subject: [PATCH 30/38] fix: pipelined requests and messages stall after
 response is finished

---
 include/crab/http/connection.hpp |  2 ++
 include/crab/http/connection.hxx | 14 ++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/crab/http/connection.hpp b/include/crab/http/connection.hpp
index def7cd1..08fb682 100644
--- a/include/crab/http/connection.hpp
+++ b/include/crab/http/connection.hpp
@@ -218,6 +218,7 @@ protected:
 	WebMessageHeaderParser wm_header_parser;  // Chunk header
 	WebMessageBodyParser wm_body_parser;      // Chunk body
 	optional<WebMessage> web_message;         // Built from chunks
+	Timer resume_timer;  // When response or message is finished, next one could already be in our or socket buffer
 	Timer wm_ping_timer;
 	// Server-side ping required for some NATs to keep port open
 	// TCP keep-alive is set by most browsers, but surprisingly it is not enough.
@@ -226,6 +227,7 @@ protected:
 	optional<uint64_t> remaining_body_content_length;  // empty for chunked
 
 	void sock_handler();
+	void on_resume_timer();
 	void on_wm_ping_timer();
 	bool advance_state();
 
diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index f5f8bd4..ad6ead2 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -427,6 +427,7 @@ CRAB_INLINE bool ClientConnection::advance_state() {
 
 CRAB_INLINE ServerConnection::ServerConnection(Handler &&rwd_handler)
     : read_buffer(8192)
+    , resume_timer([this]() { on_resume_timer(); })
     , wm_ping_timer([&]() { on_wm_ping_timer(); })
     , rwd_handler(std::move(rwd_handler))
     , sock([this]() { sock_handler(); }) {}
@@ -441,6 +442,7 @@ CRAB_INLINE void ServerConnection::accept(TCPAcceptor &acceptor) {
 CRAB_INLINE void ServerConnection::close() {
 	read_buffer.clear();
 	web_message.reset();  // Fragments must not join messages of the next connection
+	resume_timer.cancel();
 	wm_ping_timer.cancel();
 	sock.close();
 	state                    = REQUEST_HEADER;
@@ -498,6 +500,7 @@ CRAB_INLINE void ServerConnection::web_socket_upgrade() {
 	wm_body_parser   = WebMessageBodyParser{};
 	state            = WEB_MESSAGE_HEADER;
 	wm_ping_timer.once(WM_PING_TIMEOUT_SEC);  // Always server-side
+	resume_timer.once(0);
 }
 
 CRAB_INLINE void ServerConnection::write(Response &&resp) {
@@ -599,6 +602,7 @@ CRAB_INLINE void ServerConnection::write(const uint8_t *val, size_t count, Buffe
 			}
 			request_parser = RequestParser{};
 			state          = REQUEST_HEADER;
+			resume_timer.once(0);
 		}
 		return;
 	}
@@ -635,6 +639,7 @@ CRAB_INLINE void ServerConnection::write(std::string &&ss, BufferOptions bo) {
 			}
 			request_parser = RequestParser{};
 			state          = REQUEST_HEADER;
+			resume_timer.once(0);
 		}
 		return;
 	}
@@ -656,6 +661,7 @@ CRAB_INLINE void ServerConnection::write_last_chunk(BufferOptions bo) {
 		if (bo == BufferOptions::WRITE)
 			wm_ping_timer.once(WM_PING_TIMEOUT_SEC);
 		writing_web_message_body = false;
+		resume_timer.once(0);
 		return;
 	}
 	invariant(state == RESPONSE_BODY, "Connection unexpected write");
@@ -667,6 +673,14 @@ CRAB_INLINE void ServerConnection::write_last_chunk(BufferOptions bo) {
 	}
 	request_parser = RequestParser{};
 	state          = REQUEST_HEADER;
+	resume_timer.once(0);
+}
+
+CRAB_INLINE void ServerConnection::on_resume_timer() {
+	if (is_writing_body())
+		return;  // Will be set again when finished
+	if (state == REQUEST_READY || state == WEB_MESSAGE_READY || advance_state())
+		rwd_handler();
 }
 
 CRAB_INLINE void ServerConnection::sock_handler() {
-- 
2.43.0


From dd265e9320756b60b0bd0f3160a5e29bcbb9c42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:22 +0000
Subject: [PATCH 31/38] fix: client request reuses connection which server
 promised to close

---
 include/crab/http/client_request.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/client_request.hxx b/include/crab/http/client_request.hxx
index 094235f..dd7be2b 100644
--- a/include/crab/http/client_request.hxx
+++ b/include/crab/http/client_request.hxx
@@ -81,7 +81,10 @@ CRAB_INLINE void ClientRequestSimple::on_connection() {
 	if (!requesting)
 		return;  // Should not be possible
 	requesting = false;
-	timeout_timer.once(keep_connection_timeout_sec);
+	if (response.header.keep_alive)
+		timeout_timer.once(keep_connection_timeout_sec);
+	else
+		connection.close();  // Server will close it, next request must not be sent there
 	r_handler(std::move(response));
 }
 
-- 
2.43.0


From 278658f019111c4805983f03b17924100bf913d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:49 +0000
Subject: [PATCH 32/38] fix: DNS handler result is overwritten or destroyed
 while handler runs

---
 include/crab/network.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crab/network.hxx b/include/crab/network.hxx
index 1b12b7c..2486461 100644
--- a/include/crab/network.hxx
+++ b/include/crab/network.hxx
@@ -372,7 +372,8 @@ CRAB_INLINE DNSResolver::DNSResolver(DNS_handler &&handler)
 
 CRAB_INLINE void DNSResolver::on_handler() {
 	resolving = false;
-	dns_handler(names);
+	const auto result = std::move(names);  // Handler could call resolve() or destroy resolver
+	dns_handler(result);
 }
 
 CRAB_INLINE void DNSResolver::resolve(const std::string &host_name, uint16_t port, bool ipv4, bool ipv6) {
-- 
2.43.0


From de4c31c9b6ba18057d8b50e61bed9dc3a154d12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:19 +0000
Subject: [PATCH 33/38] fix: client request body is sent without length or with
 a wrong one

---
 include/crab/http/connection.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index ad6ead2..88c84d3 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -205,6 +205,10 @@ CRAB_INLINE bool ClientConnection::read_next(WebMessage &message) {
 CRAB_INLINE void ClientConnection::write(Request &&req) {
 	if (!is_open())
 		return;  // This NOP simplifies state machines of connection users
+	// The whole body is sent, so it must be framed by its exact size. Length is often absent in proxied requests
+	if (!req.header.content_length && !req.body.empty())
+		req.header.content_length = req.body.size();
+	invariant((req.header.content_length ? *req.header.content_length : 0) == req.body.size(), "Request content_length must be body size");
 	if (state == RESOLVING_HOST) {
 		invariant(!waiting_request, "Duplicate write RESOLVING_HOST state");
 		waiting_request = std::move(req);
-- 
2.43.0


From 79922bc75dc71e18fa66be56d309841283ec7786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:34 +0000
Subject: [PATCH 34/38] fix: name resolver destroyed in its handler while
 worker thread still uses it

---
 include/crab/network.hxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/crab/network.hxx b/include/crab/network.hxx
index 2486461..fa61c75 100644
--- a/include/crab/network.hxx
+++ b/include/crab/network.hxx
@@ -371,8 +371,13 @@ CRAB_INLINE DNSResolver::DNSResolver(DNS_handler &&handler)
     : ab(std::bind(&DNSResolver::on_handler, this)), dns_handler(std::move(handler)) {}
 
 CRAB_INLINE void DNSResolver::on_handler() {
-	resolving = false;
-	const auto result = std::move(names);  // Handler could call resolve() or destroy resolver
+	std::vector<Address> result;  // Handler could call resolve() or destroy resolver
+	{
+		// Worker could still be inside ab.call(), resolver must not be destroyed before it leaves
+		std::unique_lock<std::mutex> lock(details::DNSWorker::get_instance().dns_mutex);
+		result    = std::move(names);
+		resolving = false;
+	}
 	dns_handler(result);
 }
 
-- 
2.43.0


From a901e5efb94b6dadd5270e78638fedaa11c34ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:07 +0000
Subject: [PATCH 35/38] fix: https request in a build without TLS is refused by
 connect(), not thrown from the run loop

---
 include/crab/http/connection.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 88c84d3..6be0123 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -148,6 +148,10 @@ CRAB_INLINE bool ClientConnection::connect(const std::string &h, uint16_t p, con
 	close();
 	if (pr != string_view{"http"} && pr != string_view{"https"})
 		throw std::runtime_error{"ClientConnection unsupported protocol"};
+#if !CRAB_TLS
+	if (pr == string_view{"https"})  // Throwing later, from DNS handler, would end run loop instead of reporting error
+		throw std::runtime_error{"crablib was build without TLS support"};
+#endif
 	dns.resolve(h, p, true, false);
 	host     = h;
 	port     = p;
-- 
2.43.0


From b17a668e79166db6d7df6bc257ec85fa8d093cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:08 +0000
Subject: [PATCH 36/38] fix: string_view of pointer and size (and substr) keeps
 the last character

---
 include/crab/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/util.hpp b/include/crab/util.hpp
index 552e344..5a0a950 100644
--- a/include/crab/util.hpp
+++ b/include/crab/util.hpp
@@ -82,7 +82,7 @@ class string_view {
 public:
 	string_view() = default;
 	explicit string_view(const char *value) : d(value), s(std::strlen(value)) {}
-	constexpr explicit string_view(const char *value, size_t size) : d(value), s(size - 1) {}
+	constexpr explicit string_view(const char *value, size_t size) : d(value), s(size) {}
 
 	int compare(const char *value, size_t size) const { return (s == size) ? std::memcmp(d, value, s) : s > size ? 1 : -1; }
 	int compare(const std::string &b) const { return compare(b.data(), b.size()); }
-- 
2.43.0


From 4fa7b36bab5a9633105700201a65bda0d7725624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:23 +0000
Subject: [PATCH 37/38] fix: address text with an embedded zero character is
 malformed, not cut at it

---
 include/crab/network_posix_win.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/network_posix_win.hxx b/include/crab/network_posix_win.hxx
index 6b6056b..b43d7a4 100644
--- a/include/crab/network_posix_win.hxx
+++ b/include/crab/network_posix_win.hxx
@@ -11,6 +11,8 @@
 namespace crab {
 
 CRAB_INLINE bool Address::parse(Address &address, const std::string &ip, uint16_t port) {
+	if (ip.find('\0') != std::string::npos)
+		return false;  // inet_pton would ignore everything after it
 	Address tmp;
 	auto ap6 = reinterpret_cast<sockaddr_in6 *>(tmp.impl_get_sockaddr());
 	if (inet_pton(AF_INET6, ip.c_str(), &ap6->sin6_addr) == 1) {
-- 
2.43.0


From c85d25708178acf15604264ec97d2ba678331aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:31 +0000
Subject: [PATCH 38/38] fix: printed performance records keep leading zeroes of
 microseconds

---
 include/crab/network.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crab/network.hxx b/include/crab/network.hxx
index fa61c75..45172bc 100644
--- a/include/crab/network.hxx
+++ b/include/crab/network.hxx
@@ -23,7 +23,8 @@ CRAB_INLINE void PerformanceStats::print_records(std::ostream &out) {
 	for (const auto &p : performance) {
 		auto mksec = std::chrono::duration_cast<std::chrono::microseconds>(p.tm.time_since_epoch()).count();
 		auto sec   = mksec / 1000000;
-		out << "* " << sec << "." << mksec % 1000000 << " " << p.event_type << " " << p.count << std::endl;
+		auto frac  = std::to_string(mksec % 1000000);
+		out << "* " << sec << "." << std::string(6 - frac.size(), '0') << frac << " " << p.event_type << " " << p.count << std::endl;
 	}
 	out << "---- total records " << performance.size() << std::endl;
 	clear_records();
-- 
2.43.0

