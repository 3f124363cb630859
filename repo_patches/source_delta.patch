From 92cc2df1ed28978d5577e1644cd8dd86f14aefc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 01/17] fix: count the whole input of a streamed xxhash update

xxhash::update added static_cast<uint8_t>(input.size()) to the total
length, so any single update of 256 bytes or more produced a wrong
length and, through buffer_usage(), a wrong digest.
---
 include/cthash/xxhash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index 6a0db64..7708e16 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -162,7 +162,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<uint8_t>(input.size());
+		length += static_cast<value_type>(input.size());
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
-- 
2.43.0


From 488160fb0f3a307f9e526be0b08b37000de9b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 02/17] fix: do not wrap the total length of xxhash32 at 4GiB

XXH32 adds the length modulo 2^32 but decides between the short-input
and the converged accumulator on the real length. With a 32 bit counter
an input whose length is 0..15 modulo 2^32 took the short-input path.
---
 include/cthash/xxhash.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index 7708e16..96257c0 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -130,7 +130,7 @@ template <size_t Bits> struct xxhash {
 
 	// members
 	value_type seed{0u};
-	value_type length{0u};
+	uint64_t length{0u};
 	acc_array internal_state{};
 	std::array<std::byte, sizeof(value_type) * 4u> buffer{};
 
@@ -162,7 +162,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<value_type>(input.size());
+		length += input.size();
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
@@ -200,7 +200,7 @@ template <size_t Bits> struct xxhash {
 	// TODO: any range with value convertible to byte
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
-		length = static_cast<value_type>(input.size());
+		length = input.size();
 		process_blocks(input);
 		tagged_hash_value<tag> output;
 		final_from(input, output);
-- 
2.43.0


From c274b1946a8bcf1195062377eb493601235b10eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 03/17] fix: do not sign-extend char input in constant
 evaluation

Bytes of a signed type (char, int8_t) with the top bit set were sign
extended when a word was assembled in constant evaluation, so a constexpr
digest of such text differed from the one calculated at run time.
---
 include/cthash/internal/convert.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cthash/internal/convert.hpp b/include/cthash/internal/convert.hpp
index d75ddcc..7839373 100644
--- a/include/cthash/internal/convert.hpp
+++ b/include/cthash/internal/convert.hpp
@@ -18,7 +18,7 @@ template <typename It1, typename It2, typename It3> constexpr auto byte_copy(It1
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<unsigned char>(in[Idx])) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
@@ -34,7 +34,7 @@ template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_byt
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_le_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << static_cast<T>(Idx * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<unsigned char>(in[Idx])) << static_cast<T>(Idx * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
-- 
2.43.0


From bac12003affc803a00ccaedb4df567e1ea0d4fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 04/17] fix: reject encoding names longer than the longest
 known one

The name was cut to the length of the longest known name before it was
compared, so "{:base64_no_paddingXYZ}" selected base64_no_padding.
---
 include/cthash/encoding/encodings.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cthash/encoding/encodings.hpp b/include/cthash/encoding/encodings.hpp
index 37508da..09d0bf2 100644
--- a/include/cthash/encoding/encodings.hpp
+++ b/include/cthash/encoding/encodings.hpp
@@ -173,8 +173,8 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 		return result{.encoding = DefaultEncoding{}, .iterator = it};
 	}
 
-	// this will copy it into buffer to compare
-	std::array<char, Encoding::longest_name_size> buffer{};
+	// this will copy it into buffer to compare (one character more than any name has, so longer names can't match)
+	std::array<char, Encoding::longest_name_size + 1u> buffer{};
 	auto out = buffer.begin();
 
 	for (;;) {
-- 
2.43.0


From 3350c46f5f9b4e9f73ebc38794524267527e5656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 05/17] fix: do not truncate wide characters in an encoding
 name

Characters of a wide format string were narrowed to char before the name
was compared, so L"{:\u0162ase64}" selected base64 and any character
congruent to '}' modulo 256 ended the name.
---
 include/cthash/encoding/encodings.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cthash/encoding/encodings.hpp b/include/cthash/encoding/encodings.hpp
index 09d0bf2..c1fc200 100644
--- a/include/cthash/encoding/encodings.hpp
+++ b/include/cthash/encoding/encodings.hpp
@@ -182,14 +182,15 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 			break;
 		}
 
-		const char c = *it;
+		const auto c = *it;
 
 		if (c == '}') {
 			break;
 		}
 
 		if (out != buffer.end()) {
-			*out++ = c;
+			// character not representable in char can't be in any name
+			*out++ = (static_cast<decltype(c)>(static_cast<char>(c)) == c) ? static_cast<char>(c) : '\0';
 		}
 
 		++it;
-- 
2.43.0


From 6864442bf2450b7c2f750e4be5dd26ea14dd3c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 06/17] fix: do not shift bit buffer by its whole width

Encoding a range of 32 or 64 bit integers into base2/4/16 shifted the
storage by its whole width, which is undefined behaviour (clang produces
zeros, constant evaluation fails).
---
 include/cthash/encoding/bit-buffer.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cthash/encoding/bit-buffer.hpp b/include/cthash/encoding/bit-buffer.hpp
index 3f9dab6..3ebd76e 100644
--- a/include/cthash/encoding/bit-buffer.hpp
+++ b/include/cthash/encoding/bit-buffer.hpp
@@ -69,7 +69,12 @@ public:
 
 	template <size_t Bits> constexpr void push(select_bit_integer_t<Bits> in) noexcept requires(Bits <= capacity()) {
 		assert(size() <= capacity() - Bits);
-		buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		if constexpr (Bits == sizeof(storage_type) * 8u) {
+			// there is nothing to keep (and shifting by the whole width is undefined)
+			buffer = static_cast<storage_type>(in);
+		} else {
+			buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		}
 		bits_available += static_cast<size_type>(Bits);
 	}
 	constexpr void push_empty_bits(size_t count) noexcept {
-- 
2.43.0


From 7a419ef17ef56c60194be709d7851e786e333fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 07/17] fix: make encode_to_view::to_string compile as C++20

Its fallback for libraries without ranges::to named an undeclared
variable, which rejects the whole header in C++20 mode. Include what it
uses, too.
---
 include/cthash/encoding/base.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cthash/encoding/base.hpp b/include/cthash/encoding/base.hpp
index 745130d..8ec8c9c 100644
--- a/include/cthash/encoding/base.hpp
+++ b/include/cthash/encoding/base.hpp
@@ -3,7 +3,10 @@
 
 #include "chunk-of-bits.hpp"
 #include "encodings.hpp"
+#include <algorithm>
 #include <bit>
+#include <iterator>
+#include <string>
 
 namespace cthash {
 
@@ -93,7 +96,7 @@ template <typename Encoding, typename CharT, typename R> struct encode_to_view {
 		auto result = std::basic_string<CharT>{};
 		result.resize(size());
 		auto [i, o] = std::ranges::copy(begin(), end(), result.begin());
-		assert(i == encoded.end());
+		assert(i == end());
 		assert(o == result.end());
 		return result;
 #endif
-- 
2.43.0


From 71a60415264700cbe96f2b2c369c32745cd7a764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 08/17] fix: include what internal headers use

Standard headers declaring size_t, uint8_t and std::same_as were missing,
so compilation depended on the order of includes and on the version of
the standard library (gcc 13, which README lists as supported, failed).
---
 include/cthash/internal/bit.hpp      | 2 ++
 include/cthash/internal/concepts.hpp | 3 +++
 include/cthash/internal/convert.hpp  | 2 ++
 include/cthash/internal/deduce.hpp   | 1 +
 include/cthash/internal/hexdec.hpp   | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/include/cthash/internal/bit.hpp b/include/cthash/internal/bit.hpp
index 99ede08..8ece421 100644
--- a/include/cthash/internal/bit.hpp
+++ b/include/cthash/internal/bit.hpp
@@ -2,6 +2,8 @@
 #define CTHASH_INTERNAL_BIT_HPP
 
 #include <bit>
+#include <concepts>
+#include <cstddef>
 
 namespace cthash::internal {
 
diff --git a/include/cthash/internal/concepts.hpp b/include/cthash/internal/concepts.hpp
index c653670..939797b 100644
--- a/include/cthash/internal/concepts.hpp
+++ b/include/cthash/internal/concepts.hpp
@@ -1,7 +1,10 @@
 #ifndef CTHASH_CONCEPTS_HPP
 #define CTHASH_CONCEPTS_HPP
 
+#include <concepts>
 #include <span>
+#include <cstddef>
+#include <cstdint>
 
 namespace cthash {
 
diff --git a/include/cthash/internal/convert.hpp b/include/cthash/internal/convert.hpp
index 7839373..7391251 100644
--- a/include/cthash/internal/convert.hpp
+++ b/include/cthash/internal/convert.hpp
@@ -3,8 +3,10 @@
 
 #include "bit.hpp"
 #include "concepts.hpp"
+#include <algorithm>
 #include <span>
 #include <type_traits>
+#include <utility>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
diff --git a/include/cthash/internal/deduce.hpp b/include/cthash/internal/deduce.hpp
index abc37c6..20de83f 100644
--- a/include/cthash/internal/deduce.hpp
+++ b/include/cthash/internal/deduce.hpp
@@ -2,6 +2,7 @@
 #define CTHASH_INTERNAL_DEDUCE_HPP
 
 #include <concepts>
+#include <cstddef>
 #include <cstdint>
 
 namespace cthash::internal {
diff --git a/include/cthash/internal/hexdec.hpp b/include/cthash/internal/hexdec.hpp
index 44d186e..406941c 100644
--- a/include/cthash/internal/hexdec.hpp
+++ b/include/cthash/internal/hexdec.hpp
@@ -5,6 +5,8 @@
 #include <ostream>
 #include <span>
 #include <type_traits>
+#include <cstddef>
+#include <cstdint>
 
 namespace cthash::internal {
 
-- 
2.43.0


From 988cc0479bb019e087991e8d63804fa0bbf71760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 09/17] fix: do not drop last byte of arrays which are not
 string literals

Every array of one-byte elements was taken for a string literal, so the
last byte of std::byte[N], unsigned char[N] and signed char[N] was
silently left out of the hash. Only char and char8_t arrays can be string
literals. xxhash gets the overload for contiguous containers the other
hashers have, so it still accepts these arrays.
---
 include/cthash/internal/concepts.hpp |  5 ++++-
 include/cthash/xxhash.hpp            | 10 ++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/cthash/internal/concepts.hpp b/include/cthash/internal/concepts.hpp
index 939797b..ad5362e 100644
--- a/include/cthash/internal/concepts.hpp
+++ b/include/cthash/internal/concepts.hpp
@@ -12,7 +12,10 @@ template <typename T> concept one_byte_char = (sizeof(T) == 1u);
 
 template <typename T> concept byte_like = (sizeof(T) == 1u) && (std::same_as<T, char> || std::same_as<T, unsigned char> || std::same_as<T, char8_t> || std::same_as<T, std::byte> || std::same_as<T, uint8_t> || std::same_as<T, int8_t>);
 
-template <one_byte_char CharT, size_t N> void string_literal_helper(const CharT (&)[N]);
+// only these are types of string literals with one-byte characters (arrays of other byte types don't have zero terminator)
+template <typename T> concept one_byte_literal_char = std::same_as<T, char> || std::same_as<T, char8_t>;
+
+template <one_byte_literal_char CharT, size_t N> void string_literal_helper(const CharT (&)[N]);
 
 template <typename T> concept string_literal = requires(const T & in) //
 {
diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index 96257c0..36bf6d9 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -197,6 +197,11 @@ template <size_t Bits> struct xxhash {
 		return update(std::span(std::data(input), std::size(input) - 1u));
 	}
 
+	template <convertible_to_byte_span T> [[gnu::flatten]] constexpr xxhash & update(const T & input) noexcept {
+		using byte_type = typename decltype(std::span(input))::value_type;
+		return update(std::span<const byte_type>(input));
+	}
+
 	// TODO: any range with value convertible to byte
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
@@ -215,6 +220,11 @@ template <size_t Bits> struct xxhash {
 		return update_and_final(std::span(std::data(input), std::size(input) - 1u));
 	}
 
+	template <convertible_to_byte_span T> [[gnu::flatten]] constexpr auto update_and_final(const T & input) noexcept {
+		using byte_type = typename decltype(std::span(input))::value_type;
+		return update_and_final(std::span<const byte_type>(input));
+	}
+
 	constexpr auto converge_conditionaly() const noexcept -> value_type {
 		// step 1 shortcut for short input
 		if (length < buffer.size()) {
-- 
2.43.0


From b64cbc93f46b1af639b208318c1aa0d6eb853a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 10/17] fix: report files checksum can't map instead of
 crashing

Directories, pipes and files without a known size can't be mapped; the
result of mmap wasn't checked and such arguments ended in a segfault.
---
 checksum.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/checksum.cpp b/checksum.cpp
index eab5903..290eb37 100644
--- a/checksum.cpp
+++ b/checksum.cpp
@@ -32,6 +32,10 @@ struct mapped_file {
 		}
 	}
 
+	bool is_mapped() const noexcept {
+		return fd != invalid && (sz == 0 || ptr != MAP_FAILED);
+	}
+
 	auto get_span() const noexcept {
 		return std::span<const std::byte>(reinterpret_cast<std::byte *>(ptr), sz);
 	}
@@ -54,6 +58,11 @@ int main(int argc, char ** argv) {
 		return 1;
 	}
 
+	if (!f.is_mapped()) {
+		std::cerr << "can't read file!\n";
+		return 1;
+	}
+
 	const auto start = std::chrono::high_resolution_clock::now();
 
 	if (h == "sha-224") {
-- 
2.43.0


From 0314639b20de0b298bbe3f98208a8ec0c6e52349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 11/17] fix: name sha-512/224 correctly in usage of checksum

---
 checksum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/checksum.cpp b/checksum.cpp
index 290eb37..cfccd92 100644
--- a/checksum.cpp
+++ b/checksum.cpp
@@ -44,7 +44,7 @@ struct mapped_file {
 int main(int argc, char ** argv) {
 	if (argc < 3) {
 		std::cerr << argv[0] << " hash file\n";
-		std::cerr << "hash is one of: sha-224, sha-256, sha-384, sha-512, sha-512/223, sha-512/256, sha3-224, sha3-256, sha3-384, sha3-512, \n";
+		std::cerr << "hash is one of: sha-224, sha-256, sha-384, sha-512, sha-512/224, sha-512/256, sha3-224, sha3-256, sha3-384, sha3-512, \n";
 		std::cerr << "  shake-128/n, shake-256/n (where n is 32/64/128/256/512/1024/2048),\n";
 		std::cerr << "  xxhash32, xxhash64\n";
 		return 1;
-- 
2.43.0


From 2a3c1faa6961c5ce2f40bdd23e96f95faf5240bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 12/17] fix: regenerate single header, which did not compile on
 its own

It was expanded from older headers, without <cstdint> and with a bit
buffer and selection of encodings differing from the modular headers.
---
 include/cthash-single-header.hpp | 148 +++++++++++++++++++++++--------
 1 file changed, 111 insertions(+), 37 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 1691958..ec63630 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -46,7 +46,6 @@ constexpr auto simple(const T & value, Args &&... args) noexcept {
 } // namespace cthash
 
 #endif
-
 #ifndef CTHASH_VALUE_HPP
 #define CTHASH_VALUE_HPP
 
@@ -101,7 +100,6 @@ template <typename CharT, size_t N> fixed_string(const CharT (&)[N]) -> fixed_st
 } // namespace cthash
 
 #endif
-
 #ifndef CTHASH_ENCODING_BASE_HPP
 #define CTHASH_ENCODING_BASE_HPP
 
@@ -116,6 +114,7 @@ template <typename CharT, size_t N> fixed_string(const CharT (&)[N]) -> fixed_st
 
 #include <ranges>
 #include <concepts>
+#include <cstdint>
 
 namespace cthash {
 
@@ -138,7 +137,6 @@ template <typename T> concept byte_range = requires() {
 } // namespace cthash
 
 #endif
-
 #include <bit>
 #include <iostream>
 #include <numeric>
@@ -206,7 +204,12 @@ public:
 
 	template <size_t Bits> constexpr void push(select_bit_integer_t<Bits> in) noexcept requires(Bits <= capacity()) {
 		assert(size() <= capacity() - Bits);
-		buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		if constexpr (Bits == sizeof(storage_type) * 8u) {
+			// there is nothing to keep (and shifting by the whole width is undefined)
+			buffer = static_cast<storage_type>(in);
+		} else {
+			buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		}
 		bits_available += static_cast<size_type>(Bits);
 	}
 	constexpr void push_empty_bits(size_t count) noexcept {
@@ -326,7 +329,6 @@ public:
 } // namespace cthash
 
 #endif
-
 #include <iostream>
 #include <ranges>
 
@@ -507,7 +509,7 @@ template <size_t Bits, bool AllowPadding, std::ranges::input_range Input> requir
 
 		storage_type buffer{};
 
-		constexpr iterator(parent & p) noexcept: it{p.begin()}, end{p.end()} {
+		constexpr iterator(parent & p) noexcept: it{std::ranges::begin(p)}, end{std::ranges::end(p)} {
 			// initialize
 			buffer.feed_buffer(it, end);
 		}
@@ -586,7 +588,6 @@ template <size_t Bits, bool AllowPadding = false> constexpr auto chunk_of_bits =
 } // namespace cthash
 
 #endif
-
 #ifndef CTHASH_ENCODING_ENCODINGS_HPP
 #define CTHASH_ENCODING_ENCODINGS_HPP
 
@@ -761,8 +762,8 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 		return result{.encoding = DefaultEncoding{}, .iterator = it};
 	}
 
-	// this will copy it into buffer to compare
-	std::array<char, Encoding::longest_name_size> buffer{};
+	// this will copy it into buffer to compare (one character more than any name has, so longer names can't match)
+	std::array<char, Encoding::longest_name_size + 1u> buffer{};
 	auto out = buffer.begin();
 
 	for (;;) {
@@ -770,14 +771,15 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 			break;
 		}
 
-		const char c = *it;
+		const auto c = *it;
 
 		if (c == '}') {
 			break;
 		}
 
 		if (out != buffer.end()) {
-			*out++ = c;
+			// character not representable in char can't be in any name
+			*out++ = (static_cast<decltype(c)>(static_cast<char>(c)) == c) ? static_cast<char>(c) : '\0';
 		}
 
 		++it;
@@ -797,8 +799,10 @@ template <typename DefaultEncoding = encoding::hexdec, typename InputContext> co
 } // namespace cthash
 
 #endif
-
+#include <algorithm>
 #include <bit>
+#include <iterator>
+#include <string>
 
 namespace cthash {
 
@@ -880,6 +884,24 @@ template <typename Encoding, typename CharT, typename R> struct encode_to_view {
 	constexpr size_t size() const noexcept requires(std::ranges::sized_range<R>) {
 		return input.size();
 	}
+
+	constexpr auto to_string() const requires(std::ranges::sized_range<R>) {
+#if __cpp_lib_ranges_to_container >= 202202L
+		return std::ranges::to<std::basic_string<CharT>>(*this);
+#else
+		auto result = std::basic_string<CharT>{};
+		result.resize(size());
+		auto [i, o] = std::ranges::copy(begin(), end(), result.begin());
+		assert(i == end());
+		assert(o == result.end());
+		return result;
+#endif
+	}
+
+	constexpr friend std::basic_ostream<CharT> & operator<<(std::basic_ostream<CharT> & out, encode_to_view in) {
+		std::ranges::copy(in.begin(), in.end(), std::ostream_iterator<CharT, CharT>(out));
+		return out;
+	}
 };
 
 template <typename Encoding, typename ValueT, typename R> struct decode_from_view {
@@ -911,7 +933,7 @@ template <typename Encoding, typename CharT = char> struct encode_to_action {
 	template <std::ranges::input_range R> constexpr friend auto operator|(R && input, encode_to_action action) {
 		return action.operator()<R>(std::forward<R>(input));
 	}
-	template <std::ranges::input_range R> constexpr auto operator()(R && input) {
+	template <std::ranges::input_range R> constexpr auto operator()(R && input) const {
 		return encode_to_view<Encoding, CharT, R>(std::forward<R>(input));
 	}
 };
@@ -920,7 +942,7 @@ template <typename Encoding, typename ValueT = unsigned char> struct decode_from
 	template <std::ranges::input_range R> constexpr friend auto operator|(R && input, decode_from_action action) {
 		return action.operator()<R>(std::forward<R>(input));
 	}
-	template <std::ranges::input_range R> constexpr auto operator()(R && input) {
+	template <std::ranges::input_range R> constexpr auto operator()(R && input) const {
 		return decode_from_view<Encoding, ValueT, R>(std::forward<R>(input));
 	}
 };
@@ -957,8 +979,39 @@ constexpr auto base64_no_padding_decode = decode_from<encoding::base64_no_paddin
 
 } // namespace cthash
 
+namespace std {
+
+#if __cpp_lib_format >= 201907L
+#define CTHASH_STDFMT_AVAILABLE 1
+#endif
+
+#if _LIBCPP_VERSION >= 170000
+// libc++ will define __cpp_lib_format macro in 19.0
+// https://github.com/llvm/llvm-project/issues/77773
+#define CTHASH_STDFMT_AVAILABLE 1
+#endif
+
+// template <typename Encoding, typename CharT, typename R> struct encode_to_view
+
+#ifdef CTHASH_STDFMT_AVAILABLE
+template <typename Encoding, typename R, typename CharT>
+struct formatter<cthash::encode_to_view<Encoding, CharT, R>, CharT> {
+	using subject_type = cthash::encode_to_view<Encoding, CharT, R>;
+
+	template <typename ParseContext> constexpr auto parse(ParseContext & ctx) {
+		return std::ranges::begin(ctx);
+	}
+
+	template <typename FormatContext> constexpr auto format(const subject_type & value, FormatContext & ctx) const {
+		return std::ranges::copy(value, ctx.out()).out;
+	}
+};
+
 #endif
 
+} // namespace std
+
+#endif
 #ifndef CTHASH_INTERNAL_ALGORITHM_HPP
 #define CTHASH_INTERNAL_ALGORITHM_HPP
 
@@ -987,11 +1040,11 @@ template <typename T, typename It1, typename It2, typename Stream> constexpr aut
 } // namespace cthash::internal
 
 #endif
-
 #ifndef CTHASH_INTERNAL_DEDUCE_HPP
 #define CTHASH_INTERNAL_DEDUCE_HPP
 
 #include <concepts>
+#include <cstddef>
 #include <cstdint>
 
 namespace cthash::internal {
@@ -1037,6 +1090,8 @@ template <typename Config> constexpr size_t digest_bytes_length_of = [] {
 #include <ostream>
 #include <span>
 #include <type_traits>
+#include <cstddef>
+#include <cstdint>
 
 namespace cthash::internal {
 
@@ -1090,7 +1145,6 @@ constexpr auto literal_hexdec_to_binary(const CharT (&in)[N]) -> std::array<std:
 } // namespace cthash::internal
 
 #endif
-
 #include <algorithm>
 #include <array>
 #include <format>
@@ -1290,7 +1344,6 @@ template <cthash::convertible_to_tagged_hash_value Type, typename CharT> struct
 } // namespace std
 
 #endif
-
 #ifndef CTHASH_INTERNAL_ASSERT_HPP
 #define CTHASH_INTERNAL_ASSERT_HPP
 
@@ -1315,11 +1368,12 @@ constexpr void assert_this(bool value, const char * expression, const char * fil
 } // namespace cthash
 
 #endif
-
 #ifndef CTHASH_INTERNAL_BIT_HPP
 #define CTHASH_INTERNAL_BIT_HPP
 
 #include <bit>
+#include <concepts>
+#include <cstddef>
 
 namespace cthash::internal {
 
@@ -1357,7 +1411,10 @@ template <unsigned_integral_of_size<8> T> constexpr auto byteswap(T val) noexcep
 #ifndef CTHASH_CONCEPTS_HPP
 #define CTHASH_CONCEPTS_HPP
 
+#include <concepts>
 #include <span>
+#include <cstddef>
+#include <cstdint>
 
 namespace cthash {
 
@@ -1365,7 +1422,10 @@ template <typename T> concept one_byte_char = (sizeof(T) == 1u);
 
 template <typename T> concept byte_like = (sizeof(T) == 1u) && (std::same_as<T, char> || std::same_as<T, unsigned char> || std::same_as<T, char8_t> || std::same_as<T, std::byte> || std::same_as<T, uint8_t> || std::same_as<T, int8_t>);
 
-template <one_byte_char CharT, size_t N> void string_literal_helper(const CharT (&)[N]);
+// only these are types of string literals with one-byte characters (arrays of other byte types don't have zero terminator)
+template <typename T> concept one_byte_literal_char = std::same_as<T, char> || std::same_as<T, char8_t>;
+
+template <one_byte_literal_char CharT, size_t N> void string_literal_helper(const CharT (&)[N]);
 
 template <typename T> concept string_literal = requires(const T & in) //
 {
@@ -1382,12 +1442,13 @@ template <typename T> concept convertible_to_byte_span = requires(T && obj) //
 } // namespace cthash
 
 #endif
-
 #ifndef CTHASH_INTERNAL_CONVERT_HPP
 #define CTHASH_INTERNAL_CONVERT_HPP
 
+#include <algorithm>
 #include <span>
 #include <type_traits>
+#include <utility>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
@@ -1401,7 +1462,7 @@ template <typename It1, typename It2, typename It3> constexpr auto byte_copy(It1
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<unsigned char>(in[Idx])) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
@@ -1417,7 +1478,7 @@ template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_byt
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_le_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << static_cast<T>(Idx * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<unsigned char>(in[Idx])) << static_cast<T>(Idx * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
@@ -1465,7 +1526,6 @@ unwrap_bigendian_number(std::span<std::byte, 4>) -> unwrap_bigendian_number<uint
 } // namespace cthash
 
 #endif
-
 #include <algorithm>
 #include <array>
 #include <span>
@@ -1624,7 +1684,7 @@ template <typename Config> struct internal_hasher {
 	}
 
 	[[gnu::always_inline]] constexpr void write_result_into(digest_span_t out) noexcept
-	requires(digest_bytes % sizeof(state_item_t) == 0u)
+		requires(digest_bytes % sizeof(state_item_t) == 0u)
 	{
 		// copy result to byte result
 		constexpr size_t values_for_output = digest_bytes / sizeof(state_item_t);
@@ -1636,7 +1696,7 @@ template <typename Config> struct internal_hasher {
 	}
 
 	[[gnu::always_inline]] constexpr void write_result_into(digest_span_t out) noexcept
-	requires(digest_bytes % sizeof(state_item_t) != 0u)
+		requires(digest_bytes % sizeof(state_item_t) != 0u)
 	{
 		// this is only used when digest doesn't align with output buffer
 
@@ -1688,6 +1748,8 @@ template <typename Config> struct hasher: private internal_hasher<Config> {
 		return *this;
 	}
 
+	// TODO: any range with value convertible to byte
+
 	// output (by reference or by value)
 	constexpr void final(digest_span_t digest) noexcept {
 		super::finalize();
@@ -1708,7 +1770,6 @@ template <typename Config> struct hasher: private internal_hasher<Config> {
 } // namespace cthash
 
 #endif
-
 #include <array>
 #include <span>
 #include <concepts>
@@ -1860,13 +1921,13 @@ namespace literals {
 } // namespace cthash
 
 #endif
-
 #ifndef CTHASH_SHA2_SHA384_HPP
 #define CTHASH_SHA2_SHA384_HPP
 
 #ifndef CTHASH_SHA2_SHA512_HPP
 #define CTHASH_SHA2_SHA512_HPP
 
+
 namespace cthash {
 
 struct sha512_config {
@@ -1964,10 +2025,10 @@ namespace literals {
 } // namespace cthash
 
 #endif
-
 #ifndef CTHASH_SHA2_SHA512_T_HPP
 #define CTHASH_SHA2_SHA512_T_HPP
 
+
 namespace cthash {
 
 namespace sha256t_support {
@@ -2153,7 +2214,6 @@ struct state_1600_ref: std::span<uint64_t, (5u * 5u)> {
 } // namespace cthash::keccak
 
 #endif
-
 #include <cstdint>
 
 namespace cthash {
@@ -2450,6 +2510,8 @@ template <typename Config> struct keccak_hasher: basic_keccak_hasher<Config> {
 		return *this;
 	}
 
+	// TODO: any range with value convertible to byte
+
 	using super::final;
 };
 
@@ -2484,10 +2546,10 @@ namespace literals {
 } // namespace cthash
 
 #endif
-
 #ifndef CTHASH_SHA3_SHA3_256_HPP
 #define CTHASH_SHA3_SHA3_256_HPP
 
+
 namespace cthash {
 
 struct sha3_256_config {
@@ -2515,10 +2577,10 @@ namespace literals {
 } // namespace cthash
 
 #endif
-
 #ifndef CTHASH_SHA3_SHA3_384_HPP
 #define CTHASH_SHA3_SHA3_384_HPP
 
+
 namespace cthash {
 
 struct sha3_384_config {
@@ -2546,10 +2608,10 @@ namespace literals {
 } // namespace cthash
 
 #endif
-
 #ifndef CTHASH_SHA3_SHA3_512_HPP
 #define CTHASH_SHA3_SHA3_512_HPP
 
+
 namespace cthash {
 
 struct sha3_512_config {
@@ -2577,10 +2639,10 @@ namespace literals {
 } // namespace cthash
 
 #endif
-
 #ifndef CTHASH_SHA3_SHAKE128_HPP
 #define CTHASH_SHA3_SHAKE128_HPP
 
+
 namespace cthash {
 
 template <size_t N> struct shake128_value;
@@ -2638,10 +2700,10 @@ namespace literals {
 } // namespace cthash
 
 #endif
-
 #ifndef CTHASH_SHA3_SHAKE256_HPP
 #define CTHASH_SHA3_SHAKE256_HPP
 
+
 namespace cthash {
 
 template <size_t N> struct shake256_value;
@@ -2824,7 +2886,7 @@ template <size_t Bits> struct xxhash {
 
 	// members
 	value_type seed{0u};
-	value_type length{0u};
+	uint64_t length{0u};
 	acc_array internal_state{};
 	std::array<std::byte, sizeof(value_type) * 4u> buffer{};
 
@@ -2856,7 +2918,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<uint8_t>(input.size());
+		length += input.size();
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
@@ -2891,8 +2953,15 @@ template <size_t Bits> struct xxhash {
 		return update(std::span(std::data(input), std::size(input) - 1u));
 	}
 
+	template <convertible_to_byte_span T> [[gnu::flatten]] constexpr xxhash & update(const T & input) noexcept {
+		using byte_type = typename decltype(std::span(input))::value_type;
+		return update(std::span<const byte_type>(input));
+	}
+
+	// TODO: any range with value convertible to byte
+
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
-		length = static_cast<value_type>(input.size());
+		length = input.size();
 		process_blocks(input);
 		tagged_hash_value<tag> output;
 		final_from(input, output);
@@ -2907,6 +2976,11 @@ template <size_t Bits> struct xxhash {
 		return update_and_final(std::span(std::data(input), std::size(input) - 1u));
 	}
 
+	template <convertible_to_byte_span T> [[gnu::flatten]] constexpr auto update_and_final(const T & input) noexcept {
+		using byte_type = typename decltype(std::span(input))::value_type;
+		return update_and_final(std::span<const byte_type>(input));
+	}
+
 	constexpr auto converge_conditionaly() const noexcept -> value_type {
 		// step 1 shortcut for short input
 		if (length < buffer.size()) {
-- 
2.43.0


From 9c130334b1166f4f0abf400e8e949030ceaf43f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 13/17] fix: initialize block of SHA-2 hashers, so copying them
 is a constant expression

---
 include/cthash-single-header.hpp | 2 +-
 include/cthash/hasher.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index ec63630..6343eb8 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -1564,7 +1564,7 @@ template <typename Config> struct internal_hasher {
 	unsigned block_used;
 
 	// constructors
-	constexpr internal_hasher() noexcept: hash{config.initial_values}, total_length{0u}, block_used{0u} { }
+	constexpr internal_hasher() noexcept: hash{config.initial_values}, total_length{0u}, block{}, block_used{0u} { }
 	constexpr internal_hasher(const internal_hasher &) noexcept = default;
 	constexpr internal_hasher(internal_hasher &&) noexcept = default;
 	constexpr ~internal_hasher() noexcept = default;
diff --git a/include/cthash/hasher.hpp b/include/cthash/hasher.hpp
index bd15faf..e546ed2 100644
--- a/include/cthash/hasher.hpp
+++ b/include/cthash/hasher.hpp
@@ -46,7 +46,7 @@ template <typename Config> struct internal_hasher {
 	unsigned block_used;
 
 	// constructors
-	constexpr internal_hasher() noexcept: hash{config.initial_values}, total_length{0u}, block_used{0u} { }
+	constexpr internal_hasher() noexcept: hash{config.initial_values}, total_length{0u}, block{}, block_used{0u} { }
 	constexpr internal_hasher(const internal_hasher &) noexcept = default;
 	constexpr internal_hasher(internal_hasher &&) noexcept = default;
 	constexpr ~internal_hasher() noexcept = default;
-- 
2.43.0


From d66937d7bd96d951fef2010feac4eb2862e35f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 14/17] fix: include what encodings.hpp uses

---
 include/cthash/encoding/encodings.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cthash/encoding/encodings.hpp b/include/cthash/encoding/encodings.hpp
index c1fc200..2a028ea 100644
--- a/include/cthash/encoding/encodings.hpp
+++ b/include/cthash/encoding/encodings.hpp
@@ -2,7 +2,13 @@
 #define CTHASH_ENCODING_ENCODINGS_HPP
 
 #include "concepts.hpp"
+#include <algorithm>
+#include <array>
+#include <optional>
+#include <stdexcept>
+#include <string_view>
 #include <variant>
+#include <cassert>
 
 namespace cthash {
 
-- 
2.43.0


From 7549eb83f12765175aa6d0cc15ab645581ca0dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 15/17] fix: include format where encoding views are made
 formattable

---
 include/cthash-single-header.hpp | 7 +++++++
 include/cthash/encoding/base.hpp | 1 +
 2 files changed, 8 insertions(+)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 6343eb8..17f951e 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -591,7 +591,13 @@ template <size_t Bits, bool AllowPadding = false> constexpr auto chunk_of_bits =
 #ifndef CTHASH_ENCODING_ENCODINGS_HPP
 #define CTHASH_ENCODING_ENCODINGS_HPP
 
+#include <algorithm>
+#include <array>
+#include <optional>
+#include <stdexcept>
+#include <string_view>
 #include <variant>
+#include <cassert>
 
 namespace cthash {
 
@@ -801,6 +807,7 @@ template <typename DefaultEncoding = encoding::hexdec, typename InputContext> co
 #endif
 #include <algorithm>
 #include <bit>
+#include <format>
 #include <iterator>
 #include <string>
 
diff --git a/include/cthash/encoding/base.hpp b/include/cthash/encoding/base.hpp
index 8ec8c9c..41efebb 100644
--- a/include/cthash/encoding/base.hpp
+++ b/include/cthash/encoding/base.hpp
@@ -5,6 +5,7 @@
 #include "encodings.hpp"
 #include <algorithm>
 #include <bit>
+#include <format>
 #include <iterator>
 #include <string>
 
-- 
2.43.0


From 5c59d169b2ed265d4569de4864935ef7020b0b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 16/17] fix: encode ranges with C++20 iterators and ranges not
 iterable when const

---
 include/cthash-single-header.hpp          | 21 +++++++++++----------
 include/cthash/encoding/base.hpp          |  6 +++---
 include/cthash/encoding/chunk-of-bits.hpp | 15 ++++++++-------
 3 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 17f951e..12d70bb 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -385,7 +385,7 @@ template <typename Buffer, bool AllowPadding> requires(Buffer::aligned()) struct
 	}
 
 	template <typename It, typename End> constexpr void feed_buffer(It & it, End end) noexcept {
-		using input_value_type = std::iterator_traits<It>::value_type;
+		using input_value_type = std::iter_value_t<It>;
 
 		while (!buffer.has_bits_for_pop() && (it != end)) {
 			buffer.push(static_cast<std::make_unsigned_t<input_value_type>>(*it));
@@ -446,7 +446,7 @@ template <typename Buffer, bool AllowPadding> requires(!Buffer::aligned()) struc
 	}
 
 	template <typename It, typename End> constexpr void feed_buffer(It & it, End end) noexcept {
-		using input_value_type = std::iterator_traits<It>::value_type;
+		using input_value_type = std::iter_value_t<It>;
 
 		for (;;) {
 			if (it == end) {
@@ -543,14 +543,15 @@ template <size_t Bits, bool AllowPadding, std::ranges::input_range Input> requir
 		}
 	};
 
-	static_assert(std::input_iterator<iterator<true>>);
 	static_assert(std::input_iterator<iterator<false>>);
-	static_assert(std::sentinel_for<sentinel, iterator<true>>);
 	static_assert(std::sentinel_for<sentinel, iterator<false>>);
 
 	constexpr chunk_of_bits_view(Input _input) noexcept: input{_input} { }
 
-	constexpr auto begin() const noexcept {
+	// not every range can be iterated when it is const (e.g. filter_view)
+	constexpr auto begin() const noexcept requires(std::ranges::input_range<const Input>) {
+		static_assert(std::input_iterator<iterator<true>>);
+		static_assert(std::sentinel_for<sentinel, iterator<true>>);
 		return iterator<true>{input};
 	}
 
@@ -562,12 +563,12 @@ template <size_t Bits, bool AllowPadding, std::ranges::input_range Input> requir
 		return sentinel{};
 	}
 
-	constexpr size_t size() const noexcept requires(std::ranges::sized_range<Input> && AllowPadding) {
+	constexpr size_t size() const noexcept requires(std::ranges::sized_range<const Input> && AllowPadding) {
 		// calculate with blocks
 		return ((std::ranges::size(input) + (buffer_t::in_capacity() - 1u)) / buffer_t::in_capacity()) * buffer_t::out_capacity();
 	}
 
-	constexpr size_t size() const noexcept requires(std::ranges::sized_range<Input> && !AllowPadding) {
+	constexpr size_t size() const noexcept requires(std::ranges::sized_range<const Input> && !AllowPadding) {
 		// calculate with bits
 		const size_t bit_size_of_input = std::ranges::size(input) * input_value_bit_size;
 		return (bit_size_of_input + (output_value_bit_size - 1u)) / output_value_bit_size;
@@ -876,7 +877,7 @@ template <typename Encoding, typename CharT, typename R> struct encode_to_view {
 
 	constexpr encode_to_view(R _input): input{_input} { }
 
-	constexpr auto begin() const noexcept {
+	constexpr auto begin() const noexcept requires(std::ranges::input_range<const R>) {
 		return iterator<true>{input.begin()};
 	}
 
@@ -888,11 +889,11 @@ template <typename Encoding, typename CharT, typename R> struct encode_to_view {
 		return sentinel{input.end()};
 	}
 
-	constexpr size_t size() const noexcept requires(std::ranges::sized_range<R>) {
+	constexpr size_t size() const noexcept requires(std::ranges::sized_range<const R>) {
 		return input.size();
 	}
 
-	constexpr auto to_string() const requires(std::ranges::sized_range<R>) {
+	constexpr auto to_string() const requires(std::ranges::sized_range<const R>) {
 #if __cpp_lib_ranges_to_container >= 202202L
 		return std::ranges::to<std::basic_string<CharT>>(*this);
 #else
diff --git a/include/cthash/encoding/base.hpp b/include/cthash/encoding/base.hpp
index 41efebb..700f085 100644
--- a/include/cthash/encoding/base.hpp
+++ b/include/cthash/encoding/base.hpp
@@ -74,7 +74,7 @@ template <typename Encoding, typename CharT, typename R> struct encode_to_view {
 
 	constexpr encode_to_view(R _input): input{_input} { }
 
-	constexpr auto begin() const noexcept {
+	constexpr auto begin() const noexcept requires(std::ranges::input_range<const R>) {
 		return iterator<true>{input.begin()};
 	}
 
@@ -86,11 +86,11 @@ template <typename Encoding, typename CharT, typename R> struct encode_to_view {
 		return sentinel{input.end()};
 	}
 
-	constexpr size_t size() const noexcept requires(std::ranges::sized_range<R>) {
+	constexpr size_t size() const noexcept requires(std::ranges::sized_range<const R>) {
 		return input.size();
 	}
 
-	constexpr auto to_string() const requires(std::ranges::sized_range<R>) {
+	constexpr auto to_string() const requires(std::ranges::sized_range<const R>) {
 #if __cpp_lib_ranges_to_container >= 202202L
 		return std::ranges::to<std::basic_string<CharT>>(*this);
 #else
diff --git a/include/cthash/encoding/chunk-of-bits.hpp b/include/cthash/encoding/chunk-of-bits.hpp
index 7b47f6a..7f93a8f 100644
--- a/include/cthash/encoding/chunk-of-bits.hpp
+++ b/include/cthash/encoding/chunk-of-bits.hpp
@@ -58,7 +58,7 @@ template <typename Buffer, bool AllowPadding> requires(Buffer::aligned()) struct
 	}
 
 	template <typename It, typename End> constexpr void feed_buffer(It & it, End end) noexcept {
-		using input_value_type = std::iterator_traits<It>::value_type;
+		using input_value_type = std::iter_value_t<It>;
 
 		while (!buffer.has_bits_for_pop() && (it != end)) {
 			buffer.push(static_cast<std::make_unsigned_t<input_value_type>>(*it));
@@ -119,7 +119,7 @@ template <typename Buffer, bool AllowPadding> requires(!Buffer::aligned()) struc
 	}
 
 	template <typename It, typename End> constexpr void feed_buffer(It & it, End end) noexcept {
-		using input_value_type = std::iterator_traits<It>::value_type;
+		using input_value_type = std::iter_value_t<It>;
 
 		for (;;) {
 			if (it == end) {
@@ -216,14 +216,15 @@ template <size_t Bits, bool AllowPadding, std::ranges::input_range Input> requir
 		}
 	};
 
-	static_assert(std::input_iterator<iterator<true>>);
 	static_assert(std::input_iterator<iterator<false>>);
-	static_assert(std::sentinel_for<sentinel, iterator<true>>);
 	static_assert(std::sentinel_for<sentinel, iterator<false>>);
 
 	constexpr chunk_of_bits_view(Input _input) noexcept: input{_input} { }
 
-	constexpr auto begin() const noexcept {
+	// not every range can be iterated when it is const (e.g. filter_view)
+	constexpr auto begin() const noexcept requires(std::ranges::input_range<const Input>) {
+		static_assert(std::input_iterator<iterator<true>>);
+		static_assert(std::sentinel_for<sentinel, iterator<true>>);
 		return iterator<true>{input};
 	}
 
@@ -235,12 +236,12 @@ template <size_t Bits, bool AllowPadding, std::ranges::input_range Input> requir
 		return sentinel{};
 	}
 
-	constexpr size_t size() const noexcept requires(std::ranges::sized_range<Input> && AllowPadding) {
+	constexpr size_t size() const noexcept requires(std::ranges::sized_range<const Input> && AllowPadding) {
 		// calculate with blocks
 		return ((std::ranges::size(input) + (buffer_t::in_capacity() - 1u)) / buffer_t::in_capacity()) * buffer_t::out_capacity();
 	}
 
-	constexpr size_t size() const noexcept requires(std::ranges::sized_range<Input> && !AllowPadding) {
+	constexpr size_t size() const noexcept requires(std::ranges::sized_range<const Input> && !AllowPadding) {
 		// calculate with bits
 		const size_t bit_size_of_input = std::ranges::size(input) * input_value_bit_size;
 		return (bit_size_of_input + (output_value_bit_size - 1u)) / output_value_bit_size;
-- 
2.43.0


From 777c40a412b72f918ae2a40ed0792d8e1be0710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:30 +0000
Subject: [PATCH 17/17] fix: make bit buffers comparable, which iterators of
 views need

---
 include/cthash-single-header.hpp       | 3 +++
 include/cthash/encoding/bit-buffer.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 12d70bb..370ca64 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -251,6 +251,9 @@ template <size_t OutBits, size_t InBits = 8u> class bit_buffer: protected basic_
 public:
 	constexpr bit_buffer() noexcept = default;
 
+	// base is not accessible for others, so it must be compared from here
+	constexpr friend bool operator==(const bit_buffer & lhs, const bit_buffer & rhs) noexcept = default;
+
 	using typename super::size_type;
 	static constexpr auto out_bits = std::integral_constant<size_type, OutBits>{};
 	static constexpr auto in_bits = std::integral_constant<size_type, InBits>{};
diff --git a/include/cthash/encoding/bit-buffer.hpp b/include/cthash/encoding/bit-buffer.hpp
index 3ebd76e..73a082f 100644
--- a/include/cthash/encoding/bit-buffer.hpp
+++ b/include/cthash/encoding/bit-buffer.hpp
@@ -116,6 +116,9 @@ template <size_t OutBits, size_t InBits = 8u> class bit_buffer: protected basic_
 public:
 	constexpr bit_buffer() noexcept = default;
 
+	// base is not accessible for others, so it must be compared from here
+	constexpr friend bool operator==(const bit_buffer & lhs, const bit_buffer & rhs) noexcept = default;
+
 	using typename super::size_type;
 	static constexpr auto out_bits = std::integral_constant<size_type, OutBits>{};
 	static constexpr auto in_bits = std::integral_constant<size_type, InBits>{};
-- 
2.43.0

