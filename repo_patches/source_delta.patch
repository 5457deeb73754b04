From 47467541aa8c2ec4c6558259eb4d68deda8498db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:19 +0000
Subject: [PATCH 01/80] fix: bitstream overflow left the bit position past the
 word, so the next push shifted out of range

---
 source/bitstream.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/bitstream.h b/source/bitstream.h
index f0e8023..2f0144a 100644
--- a/source/bitstream.h
+++ b/source/bitstream.h
@@ -50,12 +50,12 @@ namespace JASS
 			inline void push_buffer(void)
 				{
 				if (stream_pos >= stream_length)
-					{
 					failed = true;
-					return;
+				else
+					{
+					stream[stream_pos] = buffer;
+					stream_pos++;
 					}
-				stream[stream_pos] = buffer;
-				stream_pos++;
 				buffer = 0;
 				bit_pos = 0;
 				}
-- 
2.43.0


From 357f96d6cf02d9272dab51d5d023adde52da9870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:30 +0000
Subject: [PATCH 02/80] fix: relative-10 decoded the fourth 3-bit integer of a
 codeword from the wrong bits

---
 source/compress_integer_relative_10.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_relative_10.cpp b/source/compress_integer_relative_10.cpp
index 2d67112..2943b2a 100644
--- a/source/compress_integer_relative_10.cpp
+++ b/source/compress_integer_relative_10.cpp
@@ -243,7 +243,7 @@ namespace JASS
 						*destination++ = value & 0x7;
 						*destination++ = (value >> 3) & 0x7;
 						*destination++ = (value >> 6) & 0x7;
-						*destination++ = (value >> 8) & 0x7;
+						*destination++ = (value >> 9) & 0x7;
 						*destination++ = (value >> 12) & 0x7;
 						*destination++ = (value >> 15) & 0x7;
 						*destination++ = (value >> 18) & 0x7;
-- 
2.43.0


From 30c3c0da530d48c3c62509815b19c7b722647dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:30 +0000
Subject: [PATCH 03/80] fix: relative-10 wrote a whole word into a partial word
 at the end of the destination

---
 source/compress_integer_relative_10.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_relative_10.cpp b/source/compress_integer_relative_10.cpp
index 2943b2a..4fff96e 100644
--- a/source/compress_integer_relative_10.cpp
+++ b/source/compress_integer_relative_10.cpp
@@ -127,7 +127,7 @@ namespace JASS
 		*/
 		for (words_in_compressed_string = 1; pos < source_integers; words_in_compressed_string++)  //outer loop: loops thru' all the elements in source[]
 			{
-			if (into >= end)
+			if (into + 1 > end)
 				return 0;
 			needed = 0;
 			for (term = 0; term < 30 && pos + term < source_integers; term++)
-- 
2.43.0


From 3c87192f5c055275558e08ac18537b32f413f1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:30 +0000
Subject: [PATCH 04/80] fix: elias gamma simd shifted a 32-bit selector by 32
 for a full width column

---
 source/compress_integer_elias_gamma_simd.cpp    | 2 +-
 source/compress_integer_elias_gamma_simd_vb.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/compress_integer_elias_gamma_simd.cpp b/source/compress_integer_elias_gamma_simd.cpp
index 06045e1..4b9eb3f 100755
--- a/source/compress_integer_elias_gamma_simd.cpp
+++ b/source/compress_integer_elias_gamma_simd.cpp
@@ -75,7 +75,7 @@ namespace JASS
 		for (current--; current >=  0; current--)
 			{
 			size_t number_of_0s = encodings[current];
-			value <<= number_of_0s;
+			value = number_of_0s >= 32 ? 0 : value << number_of_0s;
 			value |= 1 << (number_of_0s - 1);
 			}
 
diff --git a/source/compress_integer_elias_gamma_simd_vb.cpp b/source/compress_integer_elias_gamma_simd_vb.cpp
index 6769573..060e994 100755
--- a/source/compress_integer_elias_gamma_simd_vb.cpp
+++ b/source/compress_integer_elias_gamma_simd_vb.cpp
@@ -38,7 +38,7 @@ namespace JASS
 		for (current--; current >=  0; current--)
 			{
 			size_t number_of_0s = encodings[current];
-			value <<= number_of_0s;
+			value = number_of_0s >= 32 ? 0 : value << number_of_0s;
 			value |= 1 << (number_of_0s - 1);
 			}
 
-- 
2.43.0


From 0fbcdafe1870f61dc26b01e8795bfceaa3f7cb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:30 +0000
Subject: [PATCH 05/80] fix: lyck-16 packed integers wider than the fixed width
 slots they were written to

---
 source/compress_integer_lyck_16.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/compress_integer_lyck_16.cpp b/source/compress_integer_lyck_16.cpp
index ef9c462..89af033 100644
--- a/source/compress_integer_lyck_16.cpp
+++ b/source/compress_integer_lyck_16.cpp
@@ -34,7 +34,7 @@ namespace JASS
 				return 0;
 
 			uint32_t integers_to_encode;
-			size_t cumulative = 0;
+			size_t widest = 0;
 			uint32_t ending = source_integers > 16 ? 16 : (uint32_t)source_integers;
 			for (integers_to_encode = 0; integers_to_encode < ending; integers_to_encode++)
 				{
@@ -48,8 +48,9 @@ namespace JASS
 				/*
 					Check to see if we still fit in the current word
 				*/
-				cumulative += bits;
-				if (cumulative > 16)
+				if (bits > widest)
+					widest = bits;
+				if (widest * (integers_to_encode + 1) > 16)
 					break;
 				}
 
-- 
2.43.0


From 2cf9a461d8decff379ce9f1b931f2f2ca7ead924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:30 +0000
Subject: [PATCH 06/80] fix: simple-8b encoded long runs of 0 as runs of 1

---
 source/compress_integer_simple_8b.cpp        | 2 ++
 source/compress_integer_simple_8b_packed.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/compress_integer_simple_8b.cpp b/source/compress_integer_simple_8b.cpp
index ae9b063..0e7df43 100644
--- a/source/compress_integer_simple_8b.cpp
+++ b/source/compress_integer_simple_8b.cpp
@@ -144,6 +144,8 @@ namespace JASS
 			for (size_t offset = 0; offset < remaining && bitmask; offset++)
 				{
 				bitmask &= can_pack_table[row_for_bits_needed[maths::ceiling_log2(source[pos + offset])] + offset];
+				if (source[pos + offset] == 0)
+					bitmask &= 0xFFFC;			// the first two selectors are runs of 1s and so cannot represent a 0
 				last_bitmask |= (bitmask & invalid_masks_for_offset[offset + 1]);
 				}
 
diff --git a/source/compress_integer_simple_8b_packed.cpp b/source/compress_integer_simple_8b_packed.cpp
index f535d73..f82fb96 100644
--- a/source/compress_integer_simple_8b_packed.cpp
+++ b/source/compress_integer_simple_8b_packed.cpp
@@ -204,6 +204,8 @@ namespace JASS
 			for (size_t offset = 0; offset < remaining && bitmask; offset++)
 				{
 				bitmask &= can_pack_table[row_for_bits_needed[maths::ceiling_log2(source[pos + offset])] + offset];
+				if (source[pos + offset] == 0)
+					bitmask &= 0xFFFC;			// the first two selectors are runs of 1s and so cannot represent a 0
 				last_bitmask |= (bitmask & invalid_masks_for_offset[offset + 1]);
 				}
 				
-- 
2.43.0


From 09434087625cac68958288c3e515778502c00704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:30 +0000
Subject: [PATCH 07/80] fix: packed simple codecs wrote a single integer
 without checking the size of the destination

---
 source/compress_integer_simple_16_packed.cpp | 6 ++++++
 source/compress_integer_simple_8b_packed.cpp | 6 ++++++
 source/compress_integer_simple_9_packed.cpp  | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/source/compress_integer_simple_16_packed.cpp b/source/compress_integer_simple_16_packed.cpp
index 7bb0fde..c0f7ff3 100644
--- a/source/compress_integer_simple_16_packed.cpp
+++ b/source/compress_integer_simple_16_packed.cpp
@@ -135,6 +135,12 @@ namespace JASS
 			if (*source > 1 << 28)
 				return 0;
 
+			/*
+				Check for overflow of the destination
+			*/
+			if (into + 1 > end)
+				return 0;
+
 			/*
 				Choose largest bits-per-integer mask, single integer => '15'
 			*/
diff --git a/source/compress_integer_simple_8b_packed.cpp b/source/compress_integer_simple_8b_packed.cpp
index f82fb96..ac0b716 100644
--- a/source/compress_integer_simple_8b_packed.cpp
+++ b/source/compress_integer_simple_8b_packed.cpp
@@ -157,6 +157,12 @@ namespace JASS
 			if (static_cast<uint64_t>(*source) > (1ULL << 60))
 				return 0;
 
+			/*
+				Check for overflow of the destination
+			*/
+			if (into + 1 > end)
+				return 0;
+
 			/*
 				Choose largest bits-per-integer mask, single integer => '15'
 			*/
diff --git a/source/compress_integer_simple_9_packed.cpp b/source/compress_integer_simple_9_packed.cpp
index c984ffd..17810c5 100644
--- a/source/compress_integer_simple_9_packed.cpp
+++ b/source/compress_integer_simple_9_packed.cpp
@@ -128,6 +128,12 @@ namespace JASS
 			if (*source > 1 << 28)
 				return 0;
 				
+			/*
+				Check for overflow of the destination
+			*/
+			if (into + 1 > end)
+				return 0;
+
 			/*
 				choose largest bits-per-integer mask, single integer => '8'
 			*/
-- 
2.43.0


From ed96028204ab81ad5befdc5f8941d05a5fc36eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 08/80] fix: elias gamma and elias delta never checked the
 length of the destination

---
 source/compress_integer_elias_delta.cpp | 2 ++
 source/compress_integer_elias_gamma.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/compress_integer_elias_delta.cpp b/source/compress_integer_elias_delta.cpp
index 9a5f799..8bc55d1 100644
--- a/source/compress_integer_elias_delta.cpp
+++ b/source/compress_integer_elias_delta.cpp
@@ -58,6 +58,8 @@ namespace JASS
 			/*
 				Append the value in binary
 			*/
+			if ((into + unary + 1) / 8 + sizeof(uint64_t) > encoded_buffer_length)
+				return 0;			// overflow of the destination
 			size_t shift = into % 8;
 			uint64_t pattern = zig_zag << shift;
 			uint64_t *address = reinterpret_cast<uint64_t *>(encoded + (into / 8));
diff --git a/source/compress_integer_elias_gamma.cpp b/source/compress_integer_elias_gamma.cpp
index 51c3758..e479b43 100644
--- a/source/compress_integer_elias_gamma.cpp
+++ b/source/compress_integer_elias_gamma.cpp
@@ -52,6 +52,8 @@ namespace JASS
 			/*
 				Append the value in binary
 			*/
+			if (into / 8 + sizeof(uint64_t) > encoded_buffer_length)
+				return 0;			// overflow of the destination
 			size_t shift = into % 8;
 			uint64_t pattern = zig_zag << shift;
 			uint64_t *address = reinterpret_cast<uint64_t *>(encoded + (into / 8));
-- 
2.43.0


From e1d055804a1aaa475db990ddaec8cd8121e97880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 09/80] fix: elias delta simd let the payload run over the
 selectors held at the end of the destination

---
 source/compress_integer_elias_delta_simd.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/compress_integer_elias_delta_simd.cpp b/source/compress_integer_elias_delta_simd.cpp
index 4b14046..cc5989f 100644
--- a/source/compress_integer_elias_delta_simd.cpp
+++ b/source/compress_integer_elias_delta_simd.cpp
@@ -125,7 +125,7 @@ namespace JASS
 			/*
 				Check for overflow of the output buffer
 			*/
-			if (destination > end_of_destination)
+			if (destination > end_of_destination || destination > selector)
 				return 0;
 
 			/*
@@ -182,7 +182,7 @@ namespace JASS
 				/*
 					Check for underflow of the selector pointr
 				*/
-				if (selector < reinterpret_cast<uint32_t *>(encoded))
+				if (selector < destination)
 					return 0;
 
 				/*
@@ -231,6 +231,8 @@ namespace JASS
 		/*
 			Flush the last selector the move the selectors to the end of the payloads
 		*/
+		if (selector < destination)
+			return 0;
 		*selector = static_cast<uint32_t>(accumulated_selector & 0xFFFFFFFFFFFFFFFF);
 		size_t length_of_selectors = ((reinterpret_cast<uint8_t *>(encoded) + encoded_buffer_length)) - reinterpret_cast<uint8_t *>(selector);
 		memmove(destination, selector, length_of_selectors);
-- 
2.43.0


From 3870a5a302f9e99445c39f636e8844ac233f0cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 10/80] fix: elias gamma simd vb ignored the end of the
 destination when writing the variable byte tail

---
 source/compress_integer_elias_gamma_simd_vb.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/compress_integer_elias_gamma_simd_vb.cpp b/source/compress_integer_elias_gamma_simd_vb.cpp
index 060e994..680f52a 100755
--- a/source/compress_integer_elias_gamma_simd_vb.cpp
+++ b/source/compress_integer_elias_gamma_simd_vb.cpp
@@ -58,6 +58,8 @@ namespace JASS
 		/*
 			Store the length of the variable byte part
 		*/
+		if (destination + 1 > end_of_destination)
+			return 0;
 		*destination++ = 0;			// store as a 4-byte integer to start with (variable byte encode it later)
 		while (1)
 			{
@@ -155,7 +157,7 @@ namespace JASS
 							if (vbyte_size < elias_size)
 								{
 								// re-code the codeword
-								vbyte_size = compress_integer_variable_byte::encode(selector, end_of_destination - selector, array_at_start_of_codeword, elements_at_start_of_codeword);
+								vbyte_size = compress_integer_variable_byte::encode(selector, (uint8_t *)encoded + encoded_buffer_length - (uint8_t *)selector, array_at_start_of_codeword, elements_at_start_of_codeword);
 								destination = selector;
 								}
 							else
@@ -167,8 +169,10 @@ namespace JASS
 								encodings[slice - 1] += encodings[slice];
 								encodings[slice] = 0;
 								*selector = compute_selector(encodings);
-								vbyte_size = compress_integer_variable_byte::encode(destination, end_of_destination - selector, array, elements);
+								vbyte_size = compress_integer_variable_byte::encode(destination, (uint8_t *)encoded + encoded_buffer_length - (uint8_t *)destination, array, elements);
 								}
+							if (vbyte_size == 0)
+								return 0;			// overflow of the destination
 							uint32_t *vb_length_locaton = (uint32_t *)encoded;
 							*vb_length_locaton = vbyte_size;
 
-- 
2.43.0


From 14db5d2a741d40bc4d3c09b0a904b18c43290258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 11/80] fix: stream vbyte never checked the length of the
 destination

---
 source/compress_integer_stream_vbyte.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/source/compress_integer_stream_vbyte.cpp b/source/compress_integer_stream_vbyte.cpp
index b66ffbf..b218e92 100644
--- a/source/compress_integer_stream_vbyte.cpp
+++ b/source/compress_integer_stream_vbyte.cpp
@@ -8,6 +8,7 @@
 #include <stdio.h>
 
 #include <random>
+#include <vector>
 
 #include "asserts.h"
 #include "compress_integer_stream_vbyte.h"
@@ -30,7 +31,25 @@ namespace JASS
 	*/
 	size_t compress_integer_stream_vbyte::encode(void *encoded_as_void, size_t encoded_buffer_length, const integer *source, size_t source_integers)
 		{
-		return streamvbyte::streamvbyte_encode(const_cast<integer *>(source), static_cast<uint32_t>(source_integers), static_cast<uint8_t *>(encoded_as_void));
+		/*
+			Compute the size (two bits per integer plus the bytes of each integer) so that we can check for overflow of the destination
+		*/
+		size_t bytes_needed = (source_integers + 3) / 4;
+		for (const integer *value = source; value < source + source_integers; value++)
+			bytes_needed += *value < (1U << 8) ? 1 : *value < (1U << 16) ? 2 : *value < (1U << 24) ? 3 : 4;
+		if (bytes_needed > encoded_buffer_length)
+			return 0;
+
+		/*
+			The encoder writes 16 bytes at a time so it can write past the end of the encoding
+		*/
+		if (bytes_needed + 16 <= encoded_buffer_length)
+			return streamvbyte::streamvbyte_encode(const_cast<integer *>(source), static_cast<uint32_t>(source_integers), static_cast<uint8_t *>(encoded_as_void));
+
+		std::vector<uint8_t> encoded(bytes_needed + 16);
+		streamvbyte::streamvbyte_encode(const_cast<integer *>(source), static_cast<uint32_t>(source_integers), encoded.data());
+		memcpy(encoded_as_void, encoded.data(), bytes_needed);
+		return bytes_needed;
 		}
 
 	/*
-- 
2.43.0


From 4344a1a0b75c0182b582aa78c04cf09fe976110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 12/80] fix: carry-8b decoded the fourth 15-bit integer of a
 codeword from the wrong bits

---
 source/compress_integer_carry_8b.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_carry_8b.cpp b/source/compress_integer_carry_8b.cpp
index 92533bb..2e98ed3 100644
--- a/source/compress_integer_carry_8b.cpp
+++ b/source/compress_integer_carry_8b.cpp
@@ -566,7 +566,7 @@ printf("[%d] Decode:%d\n", (int)(destination - destination_at_start), (int)(sele
 					*(destination + 0) = payload >> 0 & 0x7FFF;
 					*(destination + 1) = payload >> 15 & 0x7FFF;
 					*(destination + 2) = payload >> 30 & 0x7FFF;
-					*(destination + 3) = payload >> 15 & 0x7FFF;
+					*(destination + 3) = payload >> 45 & 0x7FFF;
 					destination += 4;
 
 					source++;
-- 
2.43.0


From b85e0ce85a52208f2a6a8a1a5a0941015ba8d044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:02 +0000
Subject: [PATCH 13/80] fix: search threads allocated their thread local data
 in a shared std::map without synchronisation

---
 anytime/JASS_anytime_api.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 8b18ae7..9a4c6fc 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -411,6 +411,12 @@ JASS_ERROR JASS_anytime_api::search(std::vector<JASS_anytime_thread_result> &out
 		anytime(output[0], query_list, 0);
 	else
 		{
+		/*
+			Allocate each thread's data before any thread starts, because the threads share the container it is held in
+		*/
+		for (size_t which = 0; which < thread_count ; which++)
+			get_thread_local_data(which);
+
 		/*
 			Multiple threads, so start each worker
 		*/
-- 
2.43.0


From 7084c3892aa8ea0e299d4807169adcf7842e5cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:02 +0000
Subject: [PATCH 14/80] fix: a relative postings limit computed for one query
 was written to the limit shared by all queries and threads

---
 anytime/JASS_anytime_api.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 9a4c6fc..aa22c49 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -575,8 +575,9 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 		/*
 			Check to see if we've got a rho stopping condition relative to the number of postings in this query.
 		*/
+		size_t postings_limit = postings_to_process;
 		if (relative_postings_to_process != 1)
-			postings_to_process = total_postings_for_query * relative_postings_to_process;
+			postings_limit = total_postings_for_query * relative_postings_to_process;
 
 		/*
 			Process the segments
@@ -593,7 +594,7 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 				The definition of "enough" is that processing the next segment will exceed postings_to_process so we wil be over
 				the "time limit" so we must not do it.
 			*/
-			if (postings_processed + header->segment_frequency > postings_to_process)
+			if (postings_processed + header->segment_frequency > postings_limit)
 				break;
 			postings_processed += header->segment_frequency;
 
-- 
2.43.0


From 7887c697f61040e5e3fdf1c1282cb526f648e9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:02 +0000
Subject: [PATCH 15/80] fix: looking up the rsv limit of an unknown query added
 it to a table shared by the search threads

---
 source/top_k_limit.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/top_k_limit.h b/source/top_k_limit.h
index 5bb4866..1a19fb3 100644
--- a/source/top_k_limit.h
+++ b/source/top_k_limit.h
@@ -74,7 +74,9 @@ namespace JASS
 			*/
 			uint32_t operator[](std::string query_id)
 				{
-				return table[query_id];
+				auto found = table.find(query_id);				// not table[], which would add the query to the table (and threads share the table)
+
+				return found == table.end() ? 0 : found->second;
 				}
 
 			/*
-- 
2.43.0


From 39815463e235e884660576014db0b96cc1313b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:02 +0000
Subject: [PATCH 16/80] fix: a line without an rsv in the file of rsv limits
 dereferenced a null pointer

---
 source/top_k_limit.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/top_k_limit.cpp b/source/top_k_limit.cpp
index dc921e7..f73b979 100644
--- a/source/top_k_limit.cpp
+++ b/source/top_k_limit.cpp
@@ -44,6 +44,8 @@ namespace JASS
 				Then has a space
 			*/
 			uint8_t *rsv_position = (uint8_t *)strchr((char *)query_id, ' ');
+			if (rsv_position == nullptr)
+				continue;						// there is no rsv on this line
 			*rsv_position++ = '\0';
 			while (isspace(*rsv_position))
 				rsv_position++;
-- 
2.43.0


From d30f7011d5d6d483d477d6dd28b1d654dcf36ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:02 +0000
Subject: [PATCH 17/80] fix: searching for an empty query dereferenced the end
 of the (empty) list of results

---
 anytime/JASS_anytime_api.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index aa22c49..8ca9d67 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -365,6 +365,9 @@ JASS_anytime_result JASS_anytime_api::search(const std::string &query)
 	query_list.push_back(query);
 	anytime(output, query_list, 0);
 
+	if (output.results.empty())
+		return JASS_anytime_result();			// an empty query has no results
+
 	return output.results.begin()->second;
 	}
 
-- 
2.43.0


From 7def0017df20aa6cb0cafe9c27df16e11e16744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:02 +0000
Subject: [PATCH 18/80] fix: an empty query in a batch stopped the thread that
 took it, losing the remaining queries

---
 anytime/JASS_anytime_query.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_query.h b/anytime/JASS_anytime_query.h
index f297e37..b05713c 100644
--- a/anytime/JASS_anytime_query.h
+++ b/anytime/JASS_anytime_query.h
@@ -90,7 +90,7 @@ class JASS_anytime_query
 			auto total_queries = list.size();
 			while (starting_from < total_queries)
 				{
-				while (!list[starting_from].taken)					/// remember that compare_exchange_strong might unexpectedly fail so we loop over the node we're looking at
+				while (!list[starting_from].query.empty() && !list[starting_from].taken)					/// remember that compare_exchange_strong might unexpectedly fail so we loop over the node we're looking at
 					{
 					uint8_t expected = false;
 					if (list[starting_from].taken.compare_exchange_strong(expected, true))
-- 
2.43.0


From f03c084fd10035381dbde0f27c7941768d42768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:02 +0000
Subject: [PATCH 19/80] fix: an rsv limit larger than an accumulator was
 truncated to some small limit

---
 anytime/JASS_anytime_api.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 8ca9d67..b2799e1 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -571,6 +571,7 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 			smallest_possible_rsv = smallest_possible_rsv == 0 ? 1 : smallest_possible_rsv;
 			}
 		rsv_at_k = rsv_at_k == 0 ? 1 : rsv_at_k;			// rsv_at_k cannot be 0 (because at least one search term must be in the document)
+		rsv_at_k = rsv_at_k > JASS::query::MAX_RSV ? 1 : rsv_at_k;			// no document can reach this, so it isn't a limit (and it doesn't fit in an accumulator)
 
 		local.jass_query->rewind(smallest_possible_rsv, rsv_at_k, largest_possible_rsv);
 //std::cout << "MAXRSV:" << largest_possible_rsv << " MINRSV:" << smallest_possible_rsv << "\n";
-- 
2.43.0


From 86df09ad7c2ce0e5246089e4155d4d6f55cbe409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:02 +0000
Subject: [PATCH 20/80] fix: load_index reported success for an index it could
 not read, and a failed load left the engine unusable

---
 anytime/JASS_anytime_api.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index b2799e1..086f655 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -111,7 +111,12 @@ JASS_ERROR JASS_anytime_api::load_index(size_t index_version, const std::string
 				return JASS_ERROR_BAD_INDEX_VERSION;
 			}
 
-		index->read_index(directory);
+		if (index->read_index(directory) == 0)
+			{
+			delete index;
+			index = nullptr;
+			return JASS_ERROR_FAIL;
+			}
 
 		if (index->document_count() > JASS::query::MAX_DOCUMENTS)
 			{
@@ -129,6 +134,9 @@ JASS_ERROR JASS_anytime_api::load_index(size_t index_version, const std::string
 		}
 	catch (...)
 		{
+		thread_local_data.clear();
+		delete index;
+		index = nullptr;
 		return JASS_ERROR_FAIL;
 		}
 	}
-- 
2.43.0


From 683e8491736ce6076f9ab476112d62adc1dabea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:02 +0000
Subject: [PATCH 21/80] fix: the top-k lower bound was not raised when the
 Oracle filled the heap, so documents evicted from the heap were then looked
 for in it

---
 source/query_heap_clean.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/query_heap_clean.h b/source/query_heap_clean.h
index 4b59683..43f0889 100755
--- a/source/query_heap_clean.h
+++ b/source/query_heap_clean.h
@@ -320,9 +320,10 @@ namespace JASS
 						if (needed_for_top_k == 0)
 							{
 							top_results.make_heap();
-							if (top_k_lower_bound != 1)
-								throw Done(); /* We must be using the Oracle, and we must have filled the top-k and so we can stop processing this query. */
+							bool using_oracle = top_k_lower_bound != 1;
 							top_k_lower_bound = *accumulator_pointers[0]; /* set the new bottom of heap value */
+							if (using_oracle)
+								throw Done(); /* We must be using the Oracle, and we must have filled the top-k and so we can stop processing this query. */
 							}
 						}
 					return;
-- 
2.43.0


From 797f769734854e3989843b097deab0d07e6da07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:21 +0000
Subject: [PATCH 22/80] fix: the AVX512 sort of an empty array (a query with no
 results) ran off the end of the array

---
 source/sort512_uint64_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/sort512_uint64_t.h b/source/sort512_uint64_t.h
index b03bde9..a92a539 100755
--- a/source/sort512_uint64_t.h
+++ b/source/sort512_uint64_t.h
@@ -2830,7 +2830,7 @@ static void CoreSort(SortType array[], const IndexType left, const IndexType rig
 
 template <class SortType, class IndexType = size_t>
 static inline void Sort(SortType array[], const IndexType size){
-    CoreSort<SortType,IndexType>(array, 0, size-1);
+    if(size > 1) CoreSort<SortType,IndexType>(array, 0, size-1);
 }
 
 }
-- 
2.43.0


From 508d600b4e3035137b41230accb56355c3fc961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:22 +0000
Subject: [PATCH 23/80] fix: query_maxblock with the AVX512 sort returned the
 lowest scoring documents rather than the highest

---
 source/query_maxblock.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/query_maxblock.h b/source/query_maxblock.h
index 005a4ea..0e803d6 100755
--- a/source/query_maxblock.h
+++ b/source/query_maxblock.h
@@ -404,6 +404,7 @@ namespace JASS
 	#elif defined(AVX512_SORT)
 // NOT CHECKED
 					Sort512_uint64_t::Sort(sorted_accumulators, non_zero_accumulators);
+					std::reverse(sorted_accumulators, sorted_accumulators + non_zero_accumulators);		// Sort() sorts from lowest to highest
 					non_zero_accumulators = maths::minimum(non_zero_accumulators, top_k);
 	#endif
 #else
-- 
2.43.0


From 6e56d852a92f57f071f350f1ec81abbedd726ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:45 +0000
Subject: [PATCH 24/80] fix: a query of 255 or more terms overflowed the
 accumulators, which could put the same document in the results more than once

---
 anytime/JASS_anytime_api.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 086f655..117cd08 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -598,7 +598,12 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 		for (auto *header = local.segment_order.get(); header < current_segment; header++)
 			{
 			if (scale_rsv_scores)
-				header->impact = (JASS::query::ACCUMULATOR_TYPE)((double)header->impact / (double)largest_possible_rsv_with_overflow * ((double)JASS::query::MAX_RSV - query_terms_count) + 1);
+				{
+				if (query_terms_count < JASS::query::MAX_RSV)
+					header->impact = (JASS::query::ACCUMULATOR_TYPE)((double)header->impact / (double)largest_possible_rsv_with_overflow * ((double)JASS::query::MAX_RSV - query_terms_count) + 1);
+				else			// an accumulator can't hold 1 for each term, so terms with small impacts must contribute nothing
+					header->impact = (JASS::query::ACCUMULATOR_TYPE)((double)header->impact / (double)largest_possible_rsv_with_overflow * (double)JASS::query::MAX_RSV);
+				}
 
 //std::cout << "Process Segment->(" << header->impact << ":" << header->segment_frequency << ")\n";
 			/*
@@ -614,7 +619,8 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 				Process the postings
 			*/
 			JASS::query::ACCUMULATOR_TYPE impact = header->impact;
-			local.jass_query->decode_and_process(impact, header->segment_frequency, index->postings() + header->offset, header->end - header->offset);
+			if (impact != 0)
+				local.jass_query->decode_and_process(impact, header->segment_frequency, index->postings() + header->offset, header->end - header->offset);
 
 			/*
 				Early terminate if we have filled the heap with documents having rsv scores higher than the rsv_at_k oracle score.
-- 
2.43.0


From 1f0d3c6df7384e80289a028b404b93078be10144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:52 +0000
Subject: [PATCH 25/80] fix: allocator_pool: leave room for the alignment
 padding in a chunk made for a large request (malloc() looped for ever)

---
 source/allocator_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/allocator_pool.cpp b/source/allocator_pool.cpp
index c72e4af..95521ee 100644
--- a/source/allocator_pool.cpp
+++ b/source/allocator_pool.cpp
@@ -132,7 +132,7 @@ namespace JASS
 			*/
 			if (chunk == nullptr || top_of_stack + bytes + padding > chunk->chunk_end)
 				{
-				if (add_chunk(bytes) != nullptr)
+				if (add_chunk(bytes + alignment) != nullptr)
 					continue;
 				else
 					{
-- 
2.43.0


From eee53fbeb4c93c0f5a605d6baba0d860841f93be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:52 +0000
Subject: [PATCH 26/80] fix: allocators: comparing with a different kind of
 allocator dereferenced a null pointer

---
 source/allocator_memory.h | 4 ++++
 source/allocator_pool.h   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/source/allocator_memory.h b/source/allocator_memory.h
index 36edc4d..e5ac82a 100644
--- a/source/allocator_memory.h
+++ b/source/allocator_memory.h
@@ -72,6 +72,8 @@ namespace JASS
 						Downcast the parameter to an allocator_memory and see if it matches this.
 					*/
 					auto other = dynamic_cast<const allocator_memory *>(&with);
+					if (other == nullptr)
+						return false;			// a different kind of allocator
 					return (used == other->size()) && (allocated == other->capacity()) && (buffer.load() == other->buffer.load());
 					}
 				catch (...)
@@ -97,6 +99,8 @@ namespace JASS
 						Downcast the parameter to an allocator_memory and see if it matches this.
 					*/
 					auto other = dynamic_cast<const allocator_memory *>(&with);
+					if (other == nullptr)
+						return true;			// a different kind of allocator
 					return (used != other->size()) || (allocated != other->capacity()) || (buffer.load() != other->buffer.load());
 					}
 				catch (...)
diff --git a/source/allocator_pool.h b/source/allocator_pool.h
index f952e9d..88343b1 100644
--- a/source/allocator_pool.h
+++ b/source/allocator_pool.h
@@ -214,6 +214,8 @@ namespace JASS
 						Downcast the parameter to an allocator_memory and see if it matches this.
 					*/
 					auto other = dynamic_cast<const allocator_pool *>(&with);
+					if (other == nullptr)
+						return false;			// a different kind of allocator
 					return (used == other->size()) && (allocated == other->capacity()) && (current_chunk.load() == other->current_chunk.load());
 					}
 				catch (...)
@@ -240,6 +242,8 @@ namespace JASS
 						Downcast the parameter to an allocator_memory and see if it matches this.
 					*/
 					auto other = dynamic_cast<const allocator_pool *>(&with);
+					if (other == nullptr)
+						return true;			// a different kind of allocator
 					return (used != other->size()) || (allocated != other->capacity()) || (current_chunk.load() != other->current_chunk.load());
 					}
 				catch (...)
-- 
2.43.0


From a9c229a9dd9cfb1670e5fa7a82e0d898cbc001d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:52 +0000
Subject: [PATCH 27/80] fix: allocator_memory: return nullptr (as documented)
 rather than end the program when the memory has run out

---
 source/allocator_memory.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/source/allocator_memory.cpp b/source/allocator_memory.cpp
index 1bf362b..123986a 100644
--- a/source/allocator_memory.cpp
+++ b/source/allocator_memory.cpp
@@ -40,13 +40,8 @@ namespace JASS
 			/*
 				If we don't have capacity to succeed then fail
 			*/
-			if (already_used + bytes + padding > allocated)
-				{
-	//			#ifdef NEVER
-					exit(printf("file:%s line:%d: Out of memory:%lld bytes requested %lld bytes used %lld bytes allocated of %lld bytes available.\n", __FILE__, __LINE__, (long long)bytes, (long long)used, (long long)allocated, (long long)allocated));					// LCOV_EXCL_LINE		// highly unlikely to happen
-	//			#endif
+			if (bytes > allocated || already_used + bytes + padding > allocated)
 				return nullptr;					//	LCOV_EXCL_LINE		// highly unlikely to happen
-				}
 
 			/*
 				Take the current top of stack, and mark the requested bytes as used
-- 
2.43.0


From 2c6e5e955517465c39b07320d9b93e9fa356185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:20 +0000
Subject: [PATCH 28/80] fix: dynamic_array::serialise() wrote past the end of a
 buffer that is too small

---
 source/dynamic_array.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/dynamic_array.h b/source/dynamic_array.h
index 3a0b308..e35f4b1 100644
--- a/source/dynamic_array.h
+++ b/source/dynamic_array.h
@@ -368,10 +368,11 @@ namespace JASS
 					*/
 					for (node *current = head; current != nullptr; current = current->next)
 						{
-						std::copy(current->data, current->data + (current->used <= size_of_into ? current->used.load() : size_of_into), into);
-						size_of_into -= current->used;
+						size_t copies = current->used <= size_of_into ? current->used.load() : size_of_into;
+						std::copy(current->data, current->data + copies, into);
+						size_of_into -= copies;
 						would_take += current->used;
-						into += current->used;
+						into += copies;
 						}
 					}
 				return would_take;
-- 
2.43.0


From 84bbbe1f19d09f0a238570d326d4be635ec5a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 29/80] fix: beap::find() walked off the end of the array when
 the key is smaller than everything in the beap

---
 source/beap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/beap.h b/source/beap.h
index bdc0718..71bbe33 100644
--- a/source/beap.h
+++ b/source/beap.h
@@ -239,7 +239,7 @@ namespace JASS
 						current_location -= current_height;
 						current_height--;
 						end_of_row -= current_height + 2;
-						if (current_location < 0)
+						if (current_height < 0)
 							return -1;
 						}
 					else if (key > array[current_location])
-- 
2.43.0


From 77857edcaa99ed27ee62a624ffcac65bae76ca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 30/80] fix: top_k_heap: push_back() after front() while not
 full, and promote() after sort(), left a wrong front and order

---
 source/top_k_heap.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/top_k_heap.h b/source/top_k_heap.h
index 9bff44f..d5fa27a 100644
--- a/source/top_k_heap.h
+++ b/source/top_k_heap.h
@@ -101,6 +101,7 @@ namespace JASS
 						If adding this element hasn't yet filled the heap then don't make a heap
 					*/
 					members.push_back(element);
+					front_correct = heap_ordered = false;
 					}
 				else if (total_insertions == k)
 					{
@@ -161,10 +162,7 @@ namespace JASS
 					front_correct = heap_ordered = true;
 					}
 				else
-					{
-					front_correct = true;
-					heap_ordered = false;
-					}
+					heap_ordered = false;			// but the front is still as correct (or not) as it was
 				}
 
 			/*
-- 
2.43.0


From 31392a6b5bc09e7bc5bab61f19e6e9f4019aad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 31/80] fix: bitstring: a bitstring that had been made shorter
 kept its old bits, and combining it with others went past the end of theirs

---
 source/bitstring.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/bitstring.cpp b/source/bitstring.cpp
index 37bf623..aae62ae 100644
--- a/source/bitstring.cpp
+++ b/source/bitstring.cpp
@@ -55,6 +55,12 @@ namespace JASS
 			size_t bytes_long = chunks_long * sizeof(chunks_long);
 			bits.resize(bytes_long);
 			}
+
+		/*
+			bits that are no longer valid must be 0
+		*/
+		for (size_t clearing = new_length_in_bits; clearing < bits_long; clearing++)
+			unsafe_unsetbit(clearing);
 			
 		/*
 			remember out length
@@ -118,7 +124,7 @@ namespace JASS
 		/*
 			work out when to stop
 		*/
-		bitstring_word *end = aa + (bits.size() / sizeof(bitstring_word));
+		bitstring_word *end = aa + (longest + 8 * sizeof(bitstring_word)) / (8 * sizeof(bitstring_word));
 
 		/*
 			swith on op and run until we're done
-- 
2.43.0


From 0492035dafa3518ffe0e88b33a51da6502058189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 32/80] fix: bitstream::eof() failed (and wrote an extra word)
 if the bits written exactly filled the last word

---
 source/bitstream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/bitstream.h b/source/bitstream.h
index 2f0144a..2c80878 100644
--- a/source/bitstream.h
+++ b/source/bitstream.h
@@ -168,7 +168,8 @@ namespace JASS
 			*/
 			uint64_t eof(void)
 				{
-				push_buffer();
+				if (bit_pos != 0)
+					push_buffer();
 				return failed ? 0 : (total_bits + 7) / 8;			// return the number of bytes used or 0 on error
 				}
 
-- 
2.43.0


From 049b09917a4a98a82f9d0434b8180b6d27f71f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 33/80] fix: instream_deflate stopped at the end of the first
 member of a .gz file made of several

---
 source/instream_deflate.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/source/instream_deflate.cpp b/source/instream_deflate.cpp
index 200b12b..fe27cf1 100644
--- a/source/instream_deflate.cpp
+++ b/source/instream_deflate.cpp
@@ -68,6 +68,23 @@ namespace JASS
 
 		if (state == Z_STREAM_END)
 			{
+			/*
+				A .gz file can be several compressed members one after the other.  If there's another then carry on with it.
+			*/
+			if (stream.avail_in <= 0)
+				{
+				stream.avail_in = (uInt)source->fetch(buffer, buffer_length);
+				stream.next_in = buffer;
+				}
+			if (stream.avail_in > 0 && *stream.next_in == 0x1F && inflateReset(&stream) == Z_OK)
+				{
+				state = Z_OK;
+				if (stream.avail_out != 0)
+					continue;
+				bytes_read += document.contents.size();
+				return;			// filled the output buffer and so return bytes read
+				}
+
 			got = document.contents.size() - stream.avail_out;		// number of bytes that were decompressed
 			document.contents.resize(got);
 			bytes_read += got;
-- 
2.43.0


From 5e18c2f6132685bd28093af640ffbf57a68d4300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 34/80] fix: file::tell() was past the end of the file after a
 read that reached it

---
 source/file.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/file.h b/source/file.h
index c477629..90fd6e4 100755
--- a/source/file.h
+++ b/source/file.h
@@ -268,14 +268,16 @@ namespace JASS
 				flush();
 
 				/*
-					Take note of the new file position (at the end of the read)
+					Perform the read
 				*/
-				file_position += size;		// this is where we'll be at the end of the read
+				size_t got = ::fread(data, 1, size, fp);
 
 				/*
-					And now perform the read
+					Take note of the new file position (at the end of the read)
 				*/
-				return ::fread(data, 1, size, fp);
+				file_position += got;
+
+				return got;
 				}
 
 			/*
-- 
2.43.0


From 38e05f53b8581464b74c91d2f4805d15a3e1d5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 35/80] fix: file::size() did not count bytes that had been
 written but not yet flushed

---
 source/file.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/file.cpp b/source/file.cpp
index 03477a0..4d99420 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -314,6 +314,12 @@ namespace JASS
 			if (fseeko(fp, current_position, SEEK_SET) < 0)
 				return 0;							// LCOV_EXCL_LINE	// seek has failed.
 		#endif
+
+		/*
+			What is in the write buffer will go at the current position, and that might make the file longer.
+		*/
+		if (buffer_used > 0 && file_size < static_cast<decltype(file_size)>(current_position + buffer_used))
+			file_size = current_position + buffer_used;
 		
 		/*
 			This will fail in the case where off_t is larger than a size_t.  This is unlikely.
-- 
2.43.0


From d71ae64abf10c2c33125e131a9c896161d1eb55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 36/80] fix: reading an empty or missing file left the old
 contents in the string, and writing an empty file reported failure

---
 source/file.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/file.cpp b/source/file.cpp
index 4d99420..49af23a 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -144,6 +144,11 @@ namespace JASS
 #endif
 		size_t file_length = 0;			// length of the file in bytes
 
+		/*
+			If the file is empty, or cannot be read, then so is the result
+		*/
+		into.resize(0);
+
 		/*
 			Fopen() the file then fstat() it.  The alternative is to stat() then fopen() - but that is wrong because the file might change between the two calls.
 		*/
@@ -180,11 +185,11 @@ namespace JASS
 		if ((fp = fopen(filename.c_str(), "wb")) == nullptr)
 			return false;
 
-		size_t success = fwrite(&buffer[0], buffer.size(), 1, fp);
+		size_t written = fwrite(&buffer[0], 1, buffer.size(), fp);
 
 		fclose(fp);
 
-		return success == 1 ? true : false;
+		return written == buffer.size() ? true : false;
 		}
 
 	/*
-- 
2.43.0


From 78356142b838691f58d92cf849b8ff400d6e0738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 37/80] fix: instream_file (on stdin and other streams of
 unknown length) never reported the end of the input

---
 source/instream_file.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/instream_file.cpp b/source/instream_file.cpp
index 0b27723..f0b0474 100644
--- a/source/instream_file.cpp
+++ b/source/instream_file.cpp
@@ -64,8 +64,8 @@ namespace JASS
 	/*
 		Do the read and note how many bytes we're read.
 	*/
-	if (disk_file.read(&document.contents[0], document.contents.size()) > 0)
-		bytes_read += document.contents.size();
+	document.contents.resize(disk_file.read(&document.contents[0], document.contents.size()));
+	bytes_read += document.contents.size();
 	}
 	
 	/*
-- 
2.43.0


From 9b674802618612ed121ac1d4a7f6aee7d989bedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 38/80] fix: channel_trec: the tail of a longer token seen
 earlier ended up on the end of the topic number

---
 source/channel_trec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/channel_trec.cpp b/source/channel_trec.cpp
index 2f889dd..4d37c75 100644
--- a/source/channel_trec.cpp
+++ b/source/channel_trec.cpp
@@ -87,7 +87,7 @@ namespace JASS
 								digits = parser.get_next_token();
 							while (digits.type != JASS::parser::token::numeric && digits.type != JASS::parser::token::eof);
 							old_number = number;
-							number = atol(reinterpret_cast<char *>(digits.get().address()));
+							number = digits.type == JASS::parser::token::eof ? 0 : atol(std::string(reinterpret_cast<char *>(digits.get().address()), digits.get().size()).c_str());
 
 							if (old_number >= 0)
 								return construct(into, old_number, answer.str());
-- 
2.43.0


From 3b59f817c3dbb552ae4b93bf025cbf3a546f5c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 39/80] fix: compress_general_zstd: encoding into a buffer that
 is too small never returned, and decoding always failed

---
 source/compress_general_zstd.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/source/compress_general_zstd.cpp b/source/compress_general_zstd.cpp
index fa94f1e..7416552 100644
--- a/source/compress_general_zstd.cpp
+++ b/source/compress_general_zstd.cpp
@@ -53,6 +53,8 @@ namespace JASS
 			auto toRead = ZSTD_compressStream(ress.cstream, &output , &input);   /* toRead is guaranteed to be <= ZSTD_CStreamInSize() */
 			if (ZSTD_isError(toRead))
 				return 0;
+			if (output.pos == output.size && input.pos < input.size)
+				return 0;			// the destination is full
 			}
 
 		size_t const remainingToFlush = ZSTD_endStream(ress.cstream, &output);   /* close frame */
@@ -68,20 +70,8 @@ namespace JASS
 	*/
 	size_t compress_general_zstd::decode(void *decoded, size_t destination_length, const void *source, size_t source_bytes)
 		{
-		/*
-		if (inflateReset(&instream) != Z_OK)
-			return 0;
-
-		instream.avail_in = source_bytes;
-		instream.next_in = (Bytef *)source;
-		instream.avail_out = destination_length;
-		instream.next_out = (Bytef *)decoded;
-
-		auto status = inflate(&instream, Z_FINISH);
-
-		return status == Z_STREAM_END ? (destination_length - instream.avail_out) : 0;
-		*/
-		return 0;
+		size_t got = ZSTD_decompress(decoded, destination_length, source, source_bytes);
+		return ZSTD_isError(got) ? 0 : got;
 		}
 		
 	/*
-- 
2.43.0


From 4599720ae2a46b9d3f4940c25a4f4ff684679b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:23 +0000
Subject: [PATCH 40/80] fix: commandline: 0 and negative values were errors,
 and text that is not a number an exception, for floating point parameters

---
 source/commandline.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/source/commandline.h b/source/commandline.h
index bfa24de..ad28fa4 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -205,11 +205,20 @@ namespace JASS
 							 std::is_same<TYPE, double>::value>::type* = nullptr>
 			static void extract(std::ostringstream &messages, const char *parameter, command<TYPE> element)
 				{
-				double answer = std::stod(parameter);
+				if (parameter == nullptr)
+					{
+					messages << " Missing numeric parameter\n";
+					return;
+					}
 
-				if (answer > (std::numeric_limits<TYPE>::max)())
+				char *end;
+				double answer = strtod(parameter, &end);
+
+				if (end == parameter)
+					messages << parameter << " Not a number\n";
+				else if (answer > (std::numeric_limits<TYPE>::max)())
 					messages << parameter << " Numeric overflow on parameter\n";
-				else if (answer < (std::numeric_limits<TYPE>::min)())
+				else if (answer < std::numeric_limits<TYPE>::lowest())
 					messages << parameter << " Numeric underflow on parameter\n";
 				else
 					element.parameter = static_cast<TYPE>(answer);
-- 
2.43.0


From 4540877d55679c9d1844e25bcd36ba78698913e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:23 +0000
Subject: [PATCH 41/80] fix: commandline: a string or flag as the last
 parameter read past the end of the parameter list, and a missing string
 crashed

---
 source/commandline.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/source/commandline.h b/source/commandline.h
index ad28fa4..3ad572c 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -236,6 +236,12 @@ namespace JASS
 			*/
 			static void extract(std::ostringstream &messages, const char *parameter, command<std::string> element)
 				{
+				if (parameter == nullptr)
+					{
+					messages << " Missing parameter\n";
+					return;
+					}
+
 				element.parameter = parameter;
 				}
 
@@ -264,11 +270,12 @@ namespace JASS
 				@brief Iterate over each parameter looking for one that matches
 				@param messages [out] Any errors are reported down this stream.
 				@param arg [in/out] The place in the command line parameter list that we're currenty looking at.
+				@param argc [in] The number of parameters in the command line parameter list.
 				@param argv [in] The command line parameter list.
 			*/
 			template<std::size_t I = 0, typename... Tp>
 			inline typename std::enable_if<I == sizeof...(Tp), void>::type
-			static for_each_parameter(std::ostringstream &messages, size_t &arg, const char *argv[], std::tuple<Tp...> &)
+			static for_each_parameter(std::ostringstream &messages, size_t &arg, size_t argc, const char *argv[], std::tuple<Tp...> &)
 				{
 				messages << argv[arg] << " Unknown parameter\n";
 				arg++;
@@ -282,24 +289,27 @@ namespace JASS
 			/*!
 				@brief Iterate over each parameter looking for one that matches
 				@param arg [in/out] The place in the command line parameter list that we're currenty looking at.
+				@param argc [in] The number of parameters in the command line parameter list.
 				@param argv [in] The command line parameter list.
 				@param tuple [in] The remainder of the command line parameters as specified as the programmer.
 			*/
 			template<std::size_t I = 0, typename... Tp>
 			inline typename std::enable_if<I < sizeof...(Tp), void>::type
-			static for_each_parameter(std::ostringstream &messages, size_t &arg, const char *argv[], std::tuple<Tp...> &tuple)
+			static for_each_parameter(std::ostringstream &messages, size_t &arg, size_t argc, const char *argv[], std::tuple<Tp...> &tuple)
 				{
 				if (std::get<I>(tuple).shortname.size() == 0 || std::get<I>(tuple).longname.size() == 0)				// looking for non-parameters (i.e. notes_
-					for_each_parameter<I + 1, Tp...>(messages, arg, argv, tuple);
+					for_each_parameter<I + 1, Tp...>(messages, arg, argc, argv, tuple);
 				else if (strcmp(argv[arg], std::get<I>(tuple).shortname.c_str()) == 0)				// looking for "-a v"
 					{
-					extract(messages, argv[++arg], std::get<I>(tuple));
+					arg++;
+					extract(messages, arg < argc ? argv[arg] : nullptr, std::get<I>(tuple));
 					if (typeid(std::get<I>(tuple).parameter) != typeid(bool))
 						arg++;
 					}
 				else if (strcmp(argv[arg], std::get<I>(tuple).longname.c_str()) == 0)		// looking for "--aaa v"
 					{
-					extract(messages, argv[++arg], std::get<I>(tuple));
+					arg++;
+					extract(messages, arg < argc ? argv[arg] : nullptr, std::get<I>(tuple));
 					if (typeid(std::get<I>(tuple).parameter) != typeid(bool))
 						arg++;
 					}
@@ -314,7 +324,7 @@ namespace JASS
 					arg++;
 					}
 				else
-					for_each_parameter<I + 1, Tp...>(messages, arg, argv, tuple);
+					for_each_parameter<I + 1, Tp...>(messages, arg, argc, argv, tuple);
 				}
 
 			/*
@@ -494,7 +504,7 @@ namespace JASS
 				size_t argument = 1;
 
 				while (argument < static_cast<size_t>(argc))
-					for_each_parameter(messages, argument, argv, all_parameters);
+					for_each_parameter(messages, argument, static_cast<size_t>(argc), argv, all_parameters);
 
 				error = messages.str();
 				return error == "";
-- 
2.43.0


From f824f95ff9c3a98b59ea45e77fcf52b580a211d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:23 +0000
Subject: [PATCH 42/80] fix: commandline: integers too large for 64 bits, and
 negative unsigned integers, were taken to be some other number

---
 source/commandline.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/source/commandline.h b/source/commandline.h
index 3ad572c..7744f13 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -19,6 +19,7 @@
 #include <iostream>
 #include <typeinfo>
 
+#include <errno.h>
 #include <stdlib.h>
 
 #include "string.h"
@@ -143,9 +144,14 @@ namespace JASS
 					return;
 					}
 
+				errno = 0;
 				long long answer = strtoll(parameter, NULL, 0);
 
-				if (answer > (std::numeric_limits<TYPE>::max)())
+				if (answer == (std::numeric_limits<long long>::max)() && errno == ERANGE)
+					messages << parameter << " Numeric overflow on parameter\n";
+				else if (answer == (std::numeric_limits<long long>::min)() && errno == ERANGE)
+					messages << parameter << " Numeric underflow on parameter\n";
+				else if (answer > (std::numeric_limits<TYPE>::max)())
 					messages << parameter << " Numeric overflow on parameter\n";
 				else if (answer < (std::numeric_limits<TYPE>::min)())
 					messages << parameter << " Numeric underflow on parameter\n";
@@ -177,8 +183,20 @@ namespace JASS
 					return;
 					}
 
+				errno = 0;
 				unsigned long long answer = strtoull(parameter, NULL, 0);
 
+				if (errno == ERANGE)
+					{
+					messages << parameter << " Numeric overflow on parameter\n";
+					return;
+					}
+				if (answer != 0 && parameter[strspn(parameter, " \t")] == '-')
+					{
+					messages << parameter << " Numeric underflow on parameter\n";
+					return;
+					}
+
 				/*
 					Coverity Scan complains about the line below when TYPE is a unisgned long long because it can never be true.
 				*/
-- 
2.43.0


From 57495281e89b6152d9342d21854dacf17117446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:23 +0000
Subject: [PATCH 43/80] fix: commandline: --rho_min (any parameter whose name
 starts with the name of another) was taken to be --rho with a value of _min

---
 source/commandline.h | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/source/commandline.h b/source/commandline.h
index 7744f13..13c66d0 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -279,6 +279,31 @@ namespace JASS
 				messages << element.shortname << " (" << element.longname  << ") Unknown parameter type\n";
 				}
 
+			/*
+				COMMANDLINE::LONGEST_MATCH()
+				----------------------------
+			*/
+			/*!
+				@brief Compute the length of the longest parameter name that the argument starts with.
+				@param argument [in] The command line argument.
+				@param tuple [in] The command line parameters as specified as the programmer.
+				@return The length of the longest matching name.
+			*/
+			template<std::size_t I = 0, typename... Tp>
+			static size_t longest_match(const char *argument, const std::tuple<Tp...> &tuple)
+				{
+				if constexpr (I == sizeof...(Tp))
+					return 0;
+				else
+					{
+					size_t longest = longest_match<I + 1, Tp...>(argument, tuple);
+					for (const auto *name : {&std::get<I>(tuple).shortname, &std::get<I>(tuple).longname})
+						if (name->size() > longest && strncmp(argument, name->c_str(), name->size()) == 0)
+							longest = name->size();
+					return longest;
+					}
+				}
+
 			/*
 				COMMANDLINE::FOR_EACH_PARAMETER()
 				---------------------------------
@@ -331,12 +356,12 @@ namespace JASS
 					if (typeid(std::get<I>(tuple).parameter) != typeid(bool))
 						arg++;
 					}
-				else if (strncmp(argv[arg], std::get<I>(tuple).longname.c_str(), std::get<I>(tuple).longname.size()) == 0)			// looking for "-aav"
+				else if (strncmp(argv[arg], std::get<I>(tuple).longname.c_str(), std::get<I>(tuple).longname.size()) == 0 && std::get<I>(tuple).longname.size() == longest_match(argv[arg], tuple))			// looking for "-aav"
 					{
 					extract(messages, argv[arg] + std::get<I>(tuple).longname.size(), std::get<I>(tuple));
 					arg++;
 					}
-				else if (strncmp(argv[arg], std::get<I>(tuple).shortname.c_str(), std::get<I>(tuple).shortname.size()) == 0)		// looking for "-av"
+				else if (strncmp(argv[arg], std::get<I>(tuple).shortname.c_str(), std::get<I>(tuple).shortname.size()) == 0 && std::get<I>(tuple).shortname.size() == longest_match(argv[arg], tuple))		// looking for "-av"
 					{
 					extract(messages, argv[arg] + std::get<I>(tuple).shortname.size(), std::get<I>(tuple));
 					arg++;
-- 
2.43.0


From 503aef7a63f9284e3ff8ffa37e1bd0e5b18deb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:37 +0000
Subject: [PATCH 44/80] fix: stem_porter: a y at the start of a word, or after
 a y that is a vowel, is a consonant

---
 source/stem_porter.cpp | 9 +++------
 source/stem_porter.h   | 4 ++--
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/source/stem_porter.cpp b/source/stem_porter.cpp
index 15d1ead..f394813 100644
--- a/source/stem_porter.cpp
+++ b/source/stem_porter.cpp
@@ -55,12 +55,9 @@ namespace JASS
 	*/
 	bool stem_porter::has_vowel(const char *what)
 		{
-		if (strpbrk("aeiou", what) != NULL)
-			return true;
-		else
-			for (const char *pos = strchr(what, 'y'); pos != NULL; pos = strchr(pos + 1, 'y'))
-				if (!ascii::isvowel(*(pos + 1)))
-					return true;
+		for (; *what != '\0'; what++)
+			if (isvowely(what))
+				return true;
 
 		return false;
 		}
diff --git a/source/stem_porter.h b/source/stem_porter.h
index a159dd2..4b484f2 100644
--- a/source/stem_porter.h
+++ b/source/stem_porter.h
@@ -46,13 +46,13 @@ namespace JASS
 				"A consonant in a word is a letter other than A, E, I, O or U, and other than Y preceded by a consonant."
 				...
 				"If a letter is not a consonant it is a vowel."
-				so a vowely is {aeiou} or {y} not folowed by a {aeiou}
+				so a vowely is {aeiou} or {y} preceded by a letter that is not a vowely (what precedes a letter is what follows it in the reversed string)
 				@param c [in] Pointer to the character to check.
 				@return true if a vowely or false otherwise.
 			*/
 			bool isvowely(const char *c)
 				{
-				return *c != '\0' && (ascii::isvowel(*c) || (*c == 'y' && !ascii::isvowel(*(c + 1))));
+				return *c != '\0' && (ascii::isvowel(*c) || (*c == 'y' && *(c + 1) != '\0' && !isvowely(c + 1)));
 				}
 
 			/*
-- 
2.43.0


From b225ed35be4c2ce037d715d90d4ee6c8711433e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:56 +0000
Subject: [PATCH 45/80] fix: stemming a token of the longest allowed length
 wrote the terminating '\0' past the end of its buffer

---
 source/parser.cpp            | 16 ++++++++--------
 source/parser.h              |  2 +-
 source/parser_unicoil_json.h |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/parser.cpp b/source/parser.cpp
index 102b07a..9db2b40 100644
--- a/source/parser.cpp
+++ b/source/parser.cpp
@@ -123,7 +123,7 @@ namespace JASS
 			more than one ASCII digit.
 		*/
 		uint8_t *buffer_pos = current_token.buffer;
-		uint8_t *buffer_end = current_token.buffer + sizeof(current_token.buffer);
+		uint8_t *buffer_end = current_token.buffer + current_token.max_token_length;
 
 		/*
 			ASCII Alphabetics
@@ -258,7 +258,7 @@ namespace JASS
 					/*
 						copy the tag into the token buffer
 					*/
-					size_t bytes = maths::minimum((size_t)(end - start), sizeof(current_token.buffer));
+					size_t bytes = maths::minimum((size_t)(end - start), current_token.max_token_length);
 					memcpy(current_token.buffer, start, bytes);
 					buffer_pos += bytes;
 					current++;
@@ -273,7 +273,7 @@ namespace JASS
 						{
 						current++;
 						const uint8_t *found = std::find(current, end_of_document, '>');
-						size_t bytes = maths::minimum((size_t)(found - current), sizeof(current_token.buffer));
+						size_t bytes = maths::minimum((size_t)(found - current), current_token.max_token_length);
 						memcpy(current_token.buffer, current, bytes);
 						buffer_pos = current_token.buffer + bytes;
 						current = found + 1;
@@ -293,7 +293,7 @@ namespace JASS
 					static uint8_t close_pi[] = "?>";
 					current++;
 					const uint8_t *found = std::search(current, end_of_document, close_pi, close_pi + sizeof(close_pi) - 1);
-					size_t bytes = maths::minimum((size_t)(found - current), sizeof(current_token.buffer));
+					size_t bytes = maths::minimum((size_t)(found - current), current_token.max_token_length);
 					memcpy(current_token.buffer, current, bytes);
 					buffer_pos = current_token.buffer + bytes;
 					current = found + sizeof(close_pi) - 1;
@@ -310,7 +310,7 @@ namespace JASS
 						static uint8_t close_comment[] = "-->";
 						current += 2;
 						const uint8_t *found = std::search(current, end_of_document, close_comment, close_comment + sizeof(close_comment) - 1);
-						size_t bytes = maths::minimum((size_t)(found - current), sizeof(current_token.buffer));
+						size_t bytes = maths::minimum((size_t)(found - current), current_token.max_token_length);
 						memcpy(current_token.buffer, current, bytes);
 						buffer_pos = current_token.buffer + bytes;
 						current = found + sizeof(close_comment) - 1;
@@ -327,7 +327,7 @@ namespace JASS
 							[82]     NotationDecl::= '<!NOTATION' S Name S (ExternalID | PublicID) S? '>'
 						*/
 						const uint8_t *found = std::find(current, end_of_document, '>');
-						size_t bytes = maths::minimum((size_t)(found - current), sizeof(current_token.buffer));
+						size_t bytes = maths::minimum((size_t)(found - current), current_token.max_token_length);
 						memcpy(current_token.buffer, current, bytes);
 						buffer_pos = current_token.buffer + bytes;
 						current = found + 1;
@@ -344,7 +344,7 @@ namespace JASS
 						static uint8_t close_block[] = "]]>";
 						current += 7;
 						const uint8_t *found = std::search(current, end_of_document, close_block, close_block + sizeof(close_block) - 1);
-						size_t bytes = maths::minimum((size_t)(found - current), sizeof(current_token.buffer));
+						size_t bytes = maths::minimum((size_t)(found - current), current_token.max_token_length);
 						memcpy(current_token.buffer, current, bytes);
 						buffer_pos = current_token.buffer + bytes;
 						current = found + sizeof(close_block) - 1;
@@ -365,7 +365,7 @@ namespace JASS
 						*/
 						current++;
 						const uint8_t *found = std::find(current, end_of_document, '[');
-						size_t bytes = maths::minimum((size_t)(found - current), sizeof(current_token.buffer));
+						size_t bytes = maths::minimum((size_t)(found - current), current_token.max_token_length);
 						memcpy(current_token.buffer, current, bytes);
 						buffer_pos = current_token.buffer + bytes;
 						current = found + 1;
diff --git a/source/parser.h b/source/parser.h
index d204393..5940f3c 100644
--- a/source/parser.h
+++ b/source/parser.h
@@ -81,7 +81,7 @@ namespace JASS
 					static constexpr size_t max_token_length = 1024;		///< Any token longer that this will be truncated at this length
 
 				public:
-					uint8_t buffer[max_token_length];				///< The token manages its memory through this buffer
+					uint8_t buffer[max_token_length + 1];			///< The token manages its memory through this buffer
 					slice lexeme;											///< The token itself, stored as a slice (pointer / length pair)
 					token_type type;										///< The type of this token (See token_type)
 					index_postings_impact::impact_type count;		///< The number of times the token is seen (normally 1, but if parsing a forward index it might be known to be larget).
diff --git a/source/parser_unicoil_json.h b/source/parser_unicoil_json.h
index da19741..3189efb 100644
--- a/source/parser_unicoil_json.h
+++ b/source/parser_unicoil_json.h
@@ -87,7 +87,7 @@ namespace JASS
 					Set up the parser
 				*/
 				uint8_t *buffer_pos = current_token.buffer;
-				uint8_t *buffer_end = current_token.buffer + sizeof(current_token.buffer);
+				uint8_t *buffer_end = current_token.buffer + current_token.max_token_length;
 
 				/*
 					Find the term
-- 
2.43.0


From 5ca34b5971ca8e7c44f15f7e18b79d8cb7625219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:53 +0000
Subject: [PATCH 46/80] fix: stem_porter: words of a vowel and a consonant (the
 "us" of "use") were taken to end consonant-vowel-consonant

---
 source/stem_porter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/stem_porter.h b/source/stem_porter.h
index 4b484f2..a0501da 100644
--- a/source/stem_porter.h
+++ b/source/stem_porter.h
@@ -67,7 +67,7 @@ namespace JASS
 			*/
 			bool cvc(const char *what)
 				{
-				return ((strchr("aeiouwxy", *what) == NULL) && (isvowely(what + 1)) && (!isvowely(what + 2))) ? true : false;
+				return ((strchr("aeiouwxy", *what) == NULL) && (isvowely(what + 1)) && *(what + 2) != '\0' && (!isvowely(what + 2))) ? true : false;
 				}
 
 			/*
-- 
2.43.0


From 4feab3f6f5a2b0b1ce65c79246cefc83979662ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:07 +0000
Subject: [PATCH 47/80] fix: unicode::isutf8() read the byte after the end of
 an empty buffer

---
 source/unicode.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/unicode.h b/source/unicode.h
index ccdfa99..39f120c 100644
--- a/source/unicode.h
+++ b/source/unicode.h
@@ -121,6 +121,12 @@ namespace JASS
 			*/
 			static size_t isutf8(const void *utf8_start, const void *end_of_buffer)
 				{
+				/*
+					nothing to examine
+				*/
+				if (utf8_start >= end_of_buffer)
+					return 0;
+
 				/*
 					get the length
 				*/
-- 
2.43.0


From 34f58bc2203e699e99f4a38cc5828193b56a3be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:07 +0000
Subject: [PATCH 48/80] fix: overlong UTF-8, UTF-8 encoded surrogates, and
 codepoints past U+10FFFF were accepted as valid UTF-8

---
 source/unicode.h | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/source/unicode.h b/source/unicode.h
index 39f120c..1fa3862 100644
--- a/source/unicode.h
+++ b/source/unicode.h
@@ -103,7 +103,7 @@ namespace JASS
 					return 2;
 				if (codepoint <= 0xFFFF)
 					return 3;
-				if (codepoint <= 0x1FFFFF)
+				if (codepoint <= max_codepoint)
 					return 4;
 
 				return 0;
@@ -152,6 +152,26 @@ namespace JASS
 					if ((*++byte >> 6) != 2)
 						return 0;
 
+				/*
+					check for sequences longer than necessary, surrogates, and codepoints that are too large (see RFC 3629)
+				*/
+				byte = (uint8_t *)utf8_start;
+				switch (number_of_bytes)
+					{
+					case 2:
+						if (byte[0] < 0xC2)
+							return 0;
+						break;
+					case 3:
+						if ((byte[0] == 0xE0 && byte[1] < 0xA0) || (byte[0] == 0xED && byte[1] > 0x9F))
+							return 0;
+						break;
+					case 4:
+						if ((byte[0] == 0xF0 && byte[1] < 0x90) || (byte[0] == 0xF4 && byte[1] > 0x8F) || byte[0] > 0xF4)
+							return 0;
+						break;
+					}
+
 				/*
 					success so return the length of the sequence
 				*/
-- 
2.43.0


From bc3a7a56595acd03f60aaa24eadea900119cea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:28 +0000
Subject: [PATCH 49/80] fix: characters that fold to a codepoint whose number
 starts with A to F were folded to some unrelated character

---
 tools/unicode_database_to_c.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/unicode_database_to_c.cpp b/tools/unicode_database_to_c.cpp
index d7bb507..004bb49 100644
--- a/tools/unicode_database_to_c.cpp
+++ b/tools/unicode_database_to_c.cpp
@@ -627,7 +627,10 @@ for (uint32_t which_semicolon = 0; which_semicolon < 5; which_semicolon++)
 */
 uint32_t normalisation = codepoint;
 const char *digit = semicolon + 1;
-while ((digit = strpbrk(digit, ";0123456789")) != nullptr)
+if (*digit == '<')					// step over the kind of normalisation (e.g. "<compat>")
+	if ((digit = strchr(digit, '>')) == nullptr)
+		return;			// LCOV_EXCL_LINE
+while ((digit = strpbrk(digit, ";0123456789ABCDEF")) != nullptr)
 	{
 	if (*digit == ';')
 		{
@@ -733,7 +736,7 @@ void process_casefolding(const char *line)
 	semicolon = strchr(semicolon + 1, ';');
 	const char *digit = semicolon + 1;
 	std::vector<int> folded;						// the case folded translation
-	while ((digit = strpbrk(digit, ";0123456789")) != nullptr)
+	while ((digit = strpbrk(digit, ";0123456789ABCDEF")) != nullptr)
 		{
 		if (*digit == ';')
 			break;
-- 
2.43.0


From 43fb0c071e4d89cd435912fd985e05bf7c9df397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:38 +0000
Subject: [PATCH 50/80] fix: a one character token at the end of a document was
 continued with the bytes after the document

---
 source/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/parser.cpp b/source/parser.cpp
index 9db2b40..8e1775d 100644
--- a/source/parser.cpp
+++ b/source/parser.cpp
@@ -137,7 +137,7 @@ namespace JASS
 			*buffer_pos++ = ascii::tolower(*current);
 			current++;
 		
-			while (ascii::isalpha(*current))
+			while (current < end_of_document && ascii::isalpha(*current))
 				{
 				if (buffer_pos < buffer_end)
 					*buffer_pos++ = ascii::tolower(*current);				// won't write on overflow
@@ -167,7 +167,7 @@ namespace JASS
 			*buffer_pos++ = *current;
 			current++;
 		
-			while (ascii::isdigit(*current))
+			while (current < end_of_document && ascii::isdigit(*current))
 				{
 				if (buffer_pos < buffer_end)
 					*buffer_pos++ = *current;				// won't write on overflow
-- 
2.43.0


From d890b8b32cc5d0c058d3f53e26c391ca65e2acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:38 +0000
Subject: [PATCH 51/80] fix: an attribute with no closing quote read the byte
 after the end of the document

---
 source/parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/parser.cpp b/source/parser.cpp
index 8e1775d..8489a47 100644
--- a/source/parser.cpp
+++ b/source/parser.cpp
@@ -230,6 +230,7 @@ namespace JASS
 					/*
 						Attributes are ignored at the moment (Last time I needed to index attributes was in the 1990s!)
 					*/
+					const uint8_t *before_close = current - 1;
 					while (current < end_of_document && *current != '>')
 						{
 						/*
@@ -244,13 +245,13 @@ namespace JASS
 								current++;
 							while (current < end_of_document && *current != '\'');		// the skip over the '"' happens when this loop exits.
 							
-						current++;
+						before_close = current++;
 						}
 						
 					/*
 						was it an open tag or an empty tag?
 					*/
-					if (*(current - 1) == '/')
+					if (before_close < end_of_document && *before_close == '/')
 						current_token.type = current_token.xml_empty_tag;				// Empty tag
 					else
 						current_token.type = current_token.xml_start_tag;				// Start tag.
-- 
2.43.0


From 4f0eee98351d9594ff7a924b3140673d8ea8e03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:38 +0000
Subject: [PATCH 52/80] fix: a < followed by a byte that is not UTF-8 was taken
 to be a tag, losing the text up to the next >

---
 source/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/parser.cpp b/source/parser.cpp
index 8489a47..7208c2e 100644
--- a/source/parser.cpp
+++ b/source/parser.cpp
@@ -203,7 +203,7 @@ namespace JASS
 					full XML parser. Square brackets below are XML production numbers.
 				*/
 				uint32_t codepoint = unicode::utf8_to_codepoint(current, end_of_document, bytes);
- 				if (unicode::isxmlnamestartchar(codepoint))
+ 				if (bytes != 0 && unicode::isxmlnamestartchar(codepoint))
 					{
 					/*
 						[40]     STag          ::= '<' Name (S Attribute)* S? '>'
@@ -270,7 +270,7 @@ namespace JASS
 						[42]     ETag        ::= '</' Name S? '>'
 					*/
 					codepoint = unicode::utf8_to_codepoint(current + 1, end_of_document, bytes);
-	 				if (unicode::isxmlnamestartchar(codepoint))
+	 				if (bytes != 0 && unicode::isxmlnamestartchar(codepoint))
 						{
 						current++;
 						const uint8_t *found = std::find(current, end_of_document, '>');
-- 
2.43.0


From 497d037438e3efc7e4d40a142fb3250afcdd1e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:38 +0000
Subject: [PATCH 53/80] fix: the words of a query after a byte that is not
 UTF-8 were ignored

---
 source/parser_query.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser_query.cpp b/source/parser_query.cpp
index 3523782..acce114 100644
--- a/source/parser_query.cpp
+++ b/source/parser_query.cpp
@@ -30,7 +30,7 @@ namespace JASS
 		codepoint = unicode::utf8_to_codepoint(current, end_of_query, bytes);
 		while (!unicode::isalnum(codepoint))
 			{
-			if (bytes == 0 || (current += bytes) >= end_of_query)
+			if ((current += bytes == 0 ? 1 : bytes) >= end_of_query)			// a byte that isn't valid UTF-8 is a separator (as it is in a document)
 				return eof_token;
 			codepoint = unicode::utf8_to_codepoint(current, end_of_query, bytes);
 			}
-- 
2.43.0


From b85155288666e0704651a3fcc07595e971735e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:32 +0000
Subject: [PATCH 54/80] fix: parser_fasta read past the end of the document,
 lost or repeated k-mers, and typed k-mers as whatever the header ended with

---
 source/parser_fasta.cpp | 67 +++++++++++++++++++++--------------------
 source/parser_fasta.h   |  1 +
 2 files changed, 36 insertions(+), 32 deletions(-)

diff --git a/source/parser_fasta.cpp b/source/parser_fasta.cpp
index ee17fdc..47e42f7 100644
--- a/source/parser_fasta.cpp
+++ b/source/parser_fasta.cpp
@@ -23,32 +23,34 @@ namespace JASS
 	*/
 	const class parser::token &parser_fasta::get_next_token_dna(void)
 		{
-		/*
-			Skip over any leading spaces
-		*/
-		while (!ascii::isDNAbase(*current))
-			current++;
+		uint8_t *buffer_end = current_token.buffer + current_token.max_token_length;
 
 		/*
-			Make sure we don't read past end of document
+			The header is parsed as text, so the last token might not have been alphabetic
 		*/
-		if (current >= end_of_document)
-			return eof_token;
+		current_token.type = current_token.alpha;
 
 		/*
 			Find the next k-mer.  If we encounter whitespace then we throw away the whitespace.
 			As a valid k-mer can only contain DNA bases, if we encounter a symbol that is invalid we skip that token and start at the next DNA base pair.
 		*/
-		uint8_t *buffer_pos = current_token.buffer;
-		const uint8_t *from = current++;
-		size_t byte = 0;
-		while (byte < kmer_length && from < end_of_document)
+		while (current < end_of_document)
 			{
+			/*
+				Skip over anything before the first base
+			*/
+			if (!ascii::isDNAbase(*current))
+				{
+				current++;
+				continue;
+				}
+
 			/*
 				Construct a single k-mer failing if we find a non-base character
 			*/
-			byte = 0;
-			buffer_pos = current_token.buffer;
+			uint8_t *buffer_pos = current_token.buffer;
+			const uint8_t *from = current;
+			size_t byte = 0;
 			while (byte < kmer_length && from < end_of_document)
 				{
 				if (ascii::isspace(*from))
@@ -58,31 +60,32 @@ namespace JASS
 					/*
 						Valid DNA bases get added to the token
 					*/
-					*buffer_pos++ = ascii::tolower(*from++);
+					if (buffer_pos < buffer_end)
+						*buffer_pos++ = ascii::tolower(*from);				// won't write on overflow
+					from++;
 					byte++;
 					}
 				else
-					{
-					/*
-						Not a valid DNA base so start the token at the next chacter and the one after that (current) at the character after that.
-					*/
-					current = (++from) + 1;
 					break;
-					}
 				}
-			}
 
-		/*
-			Do we have enough characters to for a k-mer (or are we at EOF)?
-		*/
-		if (current >= end_of_document || byte != kmer_length)
-			return eof_token;
+			/*
+				Return the k-mer as a token (the next one starts at the next base).
+			*/
+			if (byte == kmer_length)
+				{
+				current++;
+				current_token.lexeme = slice((void *)current_token.buffer, (void *)buffer_pos);
+				return current_token;
+				}
 
-		/*
-			Return the k-mer as a token.
-		*/
-		current_token.lexeme = slice((void *)current_token.buffer, (void *)buffer_pos);
-		return current_token;
+			/*
+				Either we are at the end of the document or from points to something that is not a base so start again after that
+			*/
+			current = from;
+			}
+
+		return eof_token;
 		}
 
 	/*
diff --git a/source/parser_fasta.h b/source/parser_fasta.h
index c59029b..4eb236d 100644
--- a/source/parser_fasta.h
+++ b/source/parser_fasta.h
@@ -134,6 +134,7 @@ namespace JASS
 					if (got.type == token::token_type::eof)
 						{
 						mode = DNA;
+						current = end_of_document;							// a tag that isn't closed does not extend into the DNA
 						end_of_document = end_of_fasta_document;		// shift to the end of document being the end of the FASTA document not just the end of the text.
 						return get_next_token_dna();
 						}
-- 
2.43.0


From f600656d922149bc91267c7247e4ac89d44eb4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:33 +0000
Subject: [PATCH 55/80] fix: parser_unicoil_json: made up a term at the end of
 the document, used the last count for one too large, and read past the end

---
 source/parser_unicoil_json.h | 135 +++++++++++++++++++----------------
 1 file changed, 74 insertions(+), 61 deletions(-)

diff --git a/source/parser_unicoil_json.h b/source/parser_unicoil_json.h
index 3189efb..fe12275 100644
--- a/source/parser_unicoil_json.h
+++ b/source/parser_unicoil_json.h
@@ -23,6 +23,7 @@
 #pragma once
 
 #include <charconv>
+#include <limits>
 
 #include "ascii.h"
 #include "parser.h"
@@ -77,84 +78,96 @@ namespace JASS
 			*/
 			virtual const class parser::token &get_next_token(void)
 				{
-				/*
-					Check for EOF
-				*/
-				if (current >= end_of_document)
-					return eof_token;
-
-				/*
-					Set up the parser
-				*/
-				uint8_t *buffer_pos = current_token.buffer;
-				uint8_t *buffer_end = current_token.buffer + current_token.max_token_length;
-
-				/*
-					Find the term
-				*/
 				while (current < end_of_document)
 					{
-					if (*current == '"')
-						break;
-					current++;
-					}
+					/*
+						Set up the parser
+					*/
+					uint8_t *buffer_pos = current_token.buffer;
+					uint8_t *buffer_end = current_token.buffer + current_token.max_token_length;
+
+					/*
+						Find the term
+					*/
+					while (current < end_of_document)
+						{
+						if (*current == '"')
+							break;
+						current++;
+						}
 
-				current++;
+					current++;
 
-				/*
-					Copy the term to the token buffer
-				*/
-				while (current < end_of_document)
-					{
-					if (*current == '\\')
+					/*
+						Copy the term to the token buffer
+					*/
+					while (current < end_of_document)
 						{
+						if (*current == '\\' && current + 1 < end_of_document)
+							{
+							if (buffer_pos < buffer_end)
+								*buffer_pos++ = *current;
+							current++;				// escaped characters in JSON
+							}
+						else if (*current == '"')
+							break;
 						if (buffer_pos < buffer_end)
 							*buffer_pos++ = *current;
-						current++;				// escaped characters in JSON
+						current++;
 						}
-					else if (*current == '"')
-						break;
-					if (buffer_pos < buffer_end)
-						*buffer_pos++ = *current;
-					current++;
-					}
 
-				/*
-					Find the term count
-				*/
-				while (current < end_of_document)
-					{
-					if (ascii::isdigit(*current))
-						break;
-					current++;
-					}
+					/*
+						Find the term count
+					*/
+					while (current < end_of_document)
+						{
+						if (ascii::isdigit(*current))
+							break;
+						current++;
+						}
 
-				const uint8_t *count_start = current;
+					const uint8_t *count_start = current;
 
-				while (current < end_of_document)
-					{
-					if (!ascii::isdigit(*current))
+					while (current < end_of_document)
+						{
+						if (!ascii::isdigit(*current))
+							break;
+						current++;
+						}
+
+					const uint8_t *count_finish = current;
+
+					/*
+						If there is no count then there is no term (we are at the end of the document)
+					*/
+					if (count_start >= count_finish)
 						break;
-					current++;
-					}
 
-				const uint8_t *count_finish = current;
+					/*
+						Construct a token object
+					*/
+					uint64_t count = 0;
+					if (std::from_chars((char *)count_start, (char *)count_finish, count).ec == std::errc::result_out_of_range)
+						count = std::numeric_limits<uint64_t>::max();
 
-				/*
-					Construct a token object
-				*/
-				current_token.lexeme = slice((void *)current_token.buffer, (void *)buffer_pos);
-				current_token.type = token::alpha;
-				std::from_chars((char *)count_start, (char *)count_finish, current_token.count);
+					current_token.lexeme = slice((void *)current_token.buffer, (void *)buffer_pos);
+					current_token.type = token::alpha;
+					if (count > index_postings_impact::largest_impact)
+						{
+						std::cout << current_token.lexeme;
+						std::cout << " " << count << "\n";
+						count = index_postings_impact::largest_impact;
+						}
+					current_token.count = (index_postings_impact::impact_type)count;
 
-				if (current_token.count > index_postings_impact::largest_impact)
-					{
-					std::cout << current_token.lexeme;
-					std::cout << " " << current_token.count << "\n";
-					current_token.count = index_postings_impact::largest_impact;
+					/*
+						Terms with a count of 0 are ignored
+					*/
+					if (current_token.count > 0)
+						return current_token;
 					}
 
-				return current_token.count > 0 ? current_token : get_next_token();
+				return eof_token;
 				}
 
 			/*
-- 
2.43.0


From b98133fd8b41e7f966ca282afeadbdc32d4089d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 56/80] fix: instream_document_trec lost documents when the
 source returned less than was asked for, and searched outside its buffer
 after end of file

---
 source/instream_document_trec.cpp | 33 ++++++++++++++++---------------
 source/instream_document_trec.h   |  7 +++++--
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/source/instream_document_trec.cpp b/source/instream_document_trec.cpp
index ac36af1..6c1610a 100644
--- a/source/instream_document_trec.cpp
+++ b/source/instream_document_trec.cpp
@@ -88,45 +88,46 @@ namespace JASS
 			Find the start tag
 		*/
 		uint8_t *document_start;
-		if ((document_start = std::search(unread_data, buffer_end, document_start_tag.c_str(), document_start_tag.c_str() + document_start_tag.size())) == buffer_end)
+		while ((document_start = std::search(unread_data, buffer_end, document_start_tag.c_str(), document_start_tag.c_str() + document_start_tag.size())) == buffer_end)
 			{
 			/*
-				We might be at the end of a buffer and half-way through a tag so we copy the remainder of the file to the
-				start of the buffer and fill the remainder.
+				We might be at the end of a buffer and half-way through a tag so we copy what might be the start of that tag
+				to the start of the buffer and fill the remainder.
 			*/
-			memmove(buffer, unread_data, buffer_size - buffer_used);
-			buffer_end -= buffer_used;
+			size_t keep = (std::min)((size_t)(buffer_end - unread_data), document_start_tag.size() - 1);
+			memmove(buffer, buffer_end - keep, keep);
+			buffer_end = buffer + keep;
 			buffer_used = 0;
-			
-			fetch(buffer_end, buffer + buffer_size - buffer_end);
 			unread_data = buffer;
-		
-			if ((document_start = std::search(unread_data, buffer_end, document_start_tag.c_str(), document_start_tag.c_str() + document_start_tag.size())) == buffer_end)
+
+			if (fetch(buffer_end, buffer + buffer_size - buffer_end) == 0)
 				{
 				/*
-					Most probably end of file.
+					End of file.
 				*/
 				object.primary_key = object.contents = slice();
 				return;
 				}
-			buffer_used = document_start_tag.size();
 			}
 
 		/*
 			Find the end tag
 		*/
 		uint8_t *document_end;
-		if ((document_end = std::search(document_start, buffer_end, document_end_tag.c_str(), document_end_tag.c_str() + document_end_tag.size())) == buffer_end)
+		uint8_t *search_from = document_start;
+		while ((document_end = std::search(search_from, buffer_end, document_end_tag.c_str(), document_end_tag.c_str() + document_end_tag.size())) == buffer_end)
 			{
 			/*
 				This happens when we move find the start tag in the buffer, but the end tag is not in memory.  We play the 
 				same game as above and shift the start tag to the start of the buffer.
 			*/
-			memmove(buffer, document_start, (buffer_end - buffer) - (document_start - buffer));
-			buffer_end -= document_start - buffer;
-			fetch(buffer_end, buffer_size - (buffer_end - buffer));
+			size_t in_use = buffer_end - document_start;
+			memmove(buffer, document_start, in_use);
 			document_start = buffer;
-			if ((document_end = std::search(document_start, buffer_end, document_end_tag.c_str(), document_end_tag.c_str() + document_end_tag.size())) == buffer_end)
+			search_from = buffer + in_use - (std::min)(in_use, document_end_tag.size() - 1);			// there might be part of the end tag at the end of the buffer
+			buffer_end = buffer + in_use;
+			buffer_used = 0;
+			if (fetch(buffer_end, buffer_size - in_use) == 0)
 				{
 				/*
 					We are either at end of file of have a document that is too large to index (so pretend EOF)
diff --git a/source/instream_document_trec.h b/source/instream_document_trec.h
index 71430e3..e85f2d1 100644
--- a/source/instream_document_trec.h
+++ b/source/instream_document_trec.h
@@ -80,10 +80,13 @@ namespace JASS
 				@brief Fetch another block of data from the source.
 				@param buffer [out] Write bytes amount of data into this memory location.
 				@param bytes [in] Read this amount of data from the source.
+				@return The number of bytes read, 0 if there is no room for more or the source is at end of file.
 			*/
-			void fetch(void *buffer, size_t bytes)
+			size_t fetch(void *buffer, size_t bytes)
 				{
-				buffer_end = (uint8_t *)buffer + source->fetch(buffer, bytes);
+				size_t got = bytes == 0 ? 0 : source->fetch(buffer, bytes);
+				buffer_end = (uint8_t *)buffer + got;
+				return got;
 				}
 
 		public:
-- 
2.43.0


From 605a4f414abb920e44eec05303920f033f02a381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 57/80] fix: a primary key that was all whitespace became a
 slice of negative length in instream_document_trec

---
 source/instream_document_trec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/instream_document_trec.cpp b/source/instream_document_trec.cpp
index 6c1610a..c73a2a2 100644
--- a/source/instream_document_trec.cpp
+++ b/source/instream_document_trec.cpp
@@ -152,9 +152,9 @@ namespace JASS
 			/*
 				Trim whitespace from the start and end of the primary key.
 			*/
-			while (isspace(*document_id_start) && document_id_start < document_end)			// trim early whitespace
+			while (document_id_start < document_id_end && isspace(*document_id_start))			// trim early whitespace
 				document_id_start++;
-			while (isspace(*(document_id_end - 1)) && document_id_end > document_start)				// trip trailing whitespace
+			while (document_id_end > document_id_start && isspace(*(document_id_end - 1)))				// trip trailing whitespace
 				document_id_end--;
 			}
 
-- 
2.43.0


From a75631ece852ee6e9dc7d26bc760bbb094033440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 58/80] fix: instream_document_fasta lost data when the source
 returned less than was asked for, and returned a > at the end of the file for
 ever

---
 source/instream_document_fasta.cpp | 36 ++++++++++++++----------------
 source/instream_document_fasta.h   |  7 ++++--
 2 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/source/instream_document_fasta.cpp b/source/instream_document_fasta.cpp
index ff8990f..6c5a792 100644
--- a/source/instream_document_fasta.cpp
+++ b/source/instream_document_fasta.cpp
@@ -67,28 +67,21 @@ namespace JASS
 			Find the start of the document
 		*/
 		uint8_t *document_start;
-		if ((document_start = std::find(unread_data, buffer_end, '>')) == buffer_end)
+		while ((document_start = std::find(unread_data, buffer_end, '>')) == buffer_end)
 			{
 			/*
-				We might be at the end of a buffer and half-way through a tag so we copy the remainder of the file to the
-				start of the buffer and fill the remainder.
+				There's no document in the buffer so fill it.
 			*/
-			memmove(buffer, unread_data, buffer_size - buffer_used);
-			buffer_end -= buffer_used;
 			buffer_used = 0;
-			
-			fetch(buffer_end, buffer + buffer_size - buffer_end);
 			unread_data = buffer;
-		
-			if ((document_start = std::find(unread_data, buffer_end, '>')) == buffer_end)
+			if (fetch(buffer, buffer_size) == 0)
 				{
 				/*
-					Most probably end of file.
+					End of file.
 				*/
 				object.primary_key = object.contents = slice();
 				return;
 				}
-			buffer_used = 1;
 			}
 
 		/*
@@ -96,23 +89,28 @@ namespace JASS
 		*/
 		uint8_t *document_end;
 		static const char *end_of_document_marker = "\n>";
-		if ((document_end = std::search(document_start + 1, buffer_end, end_of_document_marker, end_of_document_marker + 2)) == buffer_end)
+		uint8_t *search_from = document_start + 1;
+		while ((document_end = std::search(search_from, buffer_end, end_of_document_marker, end_of_document_marker + 2)) == buffer_end)
 			{
 			/*
 				This happens when we move find the start tag in the buffer, but the end tag is not in memory.  We play the 
 				same game as above and shift the start tag to the start of the buffer.
 			*/
-			memmove(buffer, document_start, (buffer_end - buffer) - (document_start - buffer));
-			buffer_end -= document_start - buffer;
-			fetch(buffer_end, buffer_size - (buffer_end - buffer));
+			size_t in_use = buffer_end - document_start;
+			memmove(buffer, document_start, in_use);
 			document_start = buffer;
-			document_end = std::search(document_start + 1, buffer_end, end_of_document_marker, end_of_document_marker + 2);
-			if (document_end == buffer_end)
-				document_end--;
+			search_from = in_use > 1 ? buffer + in_use - 1 : buffer + in_use;		// the '\n' might already be at the end of the buffer
+			buffer_end = buffer + in_use;
+			if (fetch(buffer_end, buffer_size - in_use) == 0)
+				{
+				document_end = buffer_end;		// at end of file (or the document is as large as the buffer)
+				break;
+				}
 			}
+		if (document_end != buffer_end)
+			document_end++;		// because the end of line marker matters (believe it or not!).
 
 		buffer_used = document_end - buffer;		// skip to end of the document
-		document_end++;		// because the end of line marker matters (believe it or not!).
 
 		/*
 			Extract the document's primary key.
diff --git a/source/instream_document_fasta.h b/source/instream_document_fasta.h
index 01a975e..182cb20 100644
--- a/source/instream_document_fasta.h
+++ b/source/instream_document_fasta.h
@@ -60,10 +60,13 @@ namespace JASS
 				@brief Fetch another block of data from the source.
 				@param buffer [out] Write bytes amount of data into this memory location.
 				@param bytes [in] Read this amount of data from the source.
+				@return The number of bytes read, 0 if there is no room for more or the source is at end of file.
 			*/
-			void fetch(void *buffer, size_t bytes)
+			size_t fetch(void *buffer, size_t bytes)
 				{
-				buffer_end = (uint8_t *)buffer + source->fetch(buffer, bytes);
+				size_t got = bytes == 0 ? 0 : source->fetch(buffer, bytes);
+				buffer_end = (uint8_t *)buffer + got;
+				return got;
 				}
 
 		public:
-- 
2.43.0


From 9f835e9db2b650ddb5ffa4e4500d7ab1efb78778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:50 +0000
Subject: [PATCH 59/80] fix: the primary key of a FASTA document with no line
 end after its header read past the end of the document

---
 source/instream_document_fasta.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/instream_document_fasta.cpp b/source/instream_document_fasta.cpp
index 6c5a792..4ff69b4 100644
--- a/source/instream_document_fasta.cpp
+++ b/source/instream_document_fasta.cpp
@@ -119,13 +119,13 @@ namespace JASS
 		uint8_t *document_id_start = std::find(document_start, document_end, '>');
 		if (document_id_start != document_end)
 			{
-			document_id_end = std::find(document_id_start + 1, document_end, '\n') + 1;
+			document_id_end = std::find(document_id_start + 1, document_end, '\n');
 			/*
 				Trim whitespace from the start and end of the primary key.
 			*/
-			while (isspace(*document_id_start) && document_id_start < document_end)			// trim early whitespace
+			while (document_id_start < document_id_end && isspace(*document_id_start))			// trim early whitespace
 				document_id_start++;
-			while (isspace(*(document_id_end - 1)) && document_id_end > document_start)				// trip trailing whitespace
+			while (document_id_end > document_id_start && isspace(*(document_id_end - 1)))				// trip trailing whitespace
 				document_id_end--;
 			}
 
@@ -133,7 +133,7 @@ namespace JASS
 			Copy the id into the document object and get the document
 		*/
 		object.contents = slice(object.contents_allocator, document_start, document_end);
-		if (document_id_end == document_end)
+		if (document_id_start == document_end)
 			object.primary_key = slice(object.primary_key_allocator, "Unknown");
 		else
 			object.primary_key = slice(object.primary_key_allocator, document_id_start, document_id_end);
-- 
2.43.0


From d5a80adf66208162cb99bc4069e01b821cac971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:50 +0000
Subject: [PATCH 60/80] fix: instream_document_warc missed the line after a
 line that just filled its buffer, and could match one longer than it

---
 source/instream_document_warc.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/source/instream_document_warc.cpp b/source/instream_document_warc.cpp
index c2606d7..f4a52fb 100644
--- a/source/instream_document_warc.cpp
+++ b/source/instream_document_warc.cpp
@@ -40,6 +40,7 @@ namespace JASS
 						return nullptr;		// at EOF
 					}
 				while (*into != '\n' && into < end);
+				bool at_end_of_line = *into == '\n';
 				*into = '\0';
 
 				/*
@@ -50,11 +51,13 @@ namespace JASS
 				*/
 				if (into == end)
 					{
-					do
-						if (source->fetch(into, 1) != 1)
-							return nullptr;		// at EOF
-					while (*into != '\n');
-					continue;		// don't do the string compare because we're out of sync
+					if (!at_end_of_line)
+						do
+							if (source->fetch(into, 1) != 1)
+								return nullptr;		// at EOF
+						while (*into != '\n');
+					buffer[string_length] = '\0';		// don't do the string compare because we're out of sync
+					continue;
 					}
 				}
 			while (buffer[string_length] != ':');			// check for the ':' in the right place
-- 
2.43.0


From 15a1a0a8c958891fb6b3bda480e4ebb554b76535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:20 +0000
Subject: [PATCH 61/80] fix: instream_document_warc lost the end of each
 document, and returned memory it had not read if the file was shorter than
 Content-Length

---
 source/instream_document_warc.cpp | 49 +++++++++++++++++++++++++++----
 source/instream_document_warc.h   |  1 +
 2 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/source/instream_document_warc.cpp b/source/instream_document_warc.cpp
index f4a52fb..3250b78 100644
--- a/source/instream_document_warc.cpp
+++ b/source/instream_document_warc.cpp
@@ -5,6 +5,7 @@
 #include <string.h>
 
 #include <memory>
+#include <algorithm>
 
 #include "ascii.h"
 #include "instream_memory.h"
@@ -90,7 +91,11 @@ namespace JASS
 			while (ascii::isspace(*filename))
 				filename++;
 
-			object.primary_key = slice(object.primary_key_allocator, filename, filename + strlen(filename));
+			const char *filename_end = filename + strlen(filename);
+			while (filename_end > filename && ascii::isspace(*(filename_end - 1)))		// WARC lines end in "\r\n"
+				filename_end--;
+
+			object.primary_key = slice(object.primary_key_allocator, filename, filename_end);
 
 			/*
 				Get and store the document length
@@ -100,12 +105,44 @@ namespace JASS
 				object.primary_key = object.contents = slice();
 			else
 				{
-				size_t length = atoll(file_length);
-				char *document = reinterpret_cast<char *>(object.contents_allocator.malloc(length + 1));
+				long long content_bytes = atoll(file_length);
+				size_t length = content_bytes < 0 ? 0 : content_bytes;
+
+				/*
+					Skip over the remainder of the header (it ends with a blank line).
+				*/
+				bool blank_line = true;
+				char character = '\0';
+				while (source->fetch(&character, 1) == 1)
+					if (character == '\n')
+						{
+						if (blank_line)
+							break;
+						blank_line = true;
+						}
+					else if (character != '\r')
+						blank_line = false;
+
+				/*
+					The document is the '\n' from that blank line and the payload. The file might be shorter than the header claims,
+					and so read what there is rather than trusting the length.
+				*/
+				static constexpr size_t READ_SIZE = 1024 * 1024;
+				payload.assign(1, '\n');
+				size_t have = 1;
+				size_t got = 1;
+				while (have <= length && got != 0)
+					{
+					if (have == payload.size())
+						payload.resize(have + (std::min)(length - (have - 1), READ_SIZE));
+					got = source->fetch(&payload[have], payload.size() - have);
+					have += got;
+					}
+				payload.resize(have);
 
-				source->fetch(document, length);
-				document[length] = '\0';
-				object.contents = slice(document, document + length);
+				char *document = reinterpret_cast<char *>(object.contents_allocator.malloc(payload.size() + 1));
+				memcpy(document, payload.c_str(), payload.size() + 1);
+				object.contents = slice(document, document + payload.size());
 				}
 			}
 		}
diff --git a/source/instream_document_warc.h b/source/instream_document_warc.h
index bf3dda6..ef19b52 100644
--- a/source/instream_document_warc.h
+++ b/source/instream_document_warc.h
@@ -31,6 +31,7 @@ namespace JASS
 			
 		private:
 			std::string buffer;													///< An internal buffer used to store lines
+			std::string payload;												///< The document while it is being read
 			
 		private:
 			/*
-- 
2.43.0


From 9627ff7747841abb5bf93680adaa3f862bb12d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:43 +0000
Subject: [PATCH 62/80] fix: instream_document_unicoil_json lost documents when
 reads were short, read outside its buffer, and a document with no terms ended
 the index

---
 source/instream_document_unicoil_json.cpp | 131 +++++++++-------------
 1 file changed, 50 insertions(+), 81 deletions(-)

diff --git a/source/instream_document_unicoil_json.cpp b/source/instream_document_unicoil_json.cpp
index d6f29d3..d7ec4f5 100644
--- a/source/instream_document_unicoil_json.cpp
+++ b/source/instream_document_unicoil_json.cpp
@@ -25,105 +25,72 @@ namespace JASS
 	void instream_document_unicoil_json::read(document &object)
 		{
 		const char *doc_start = nullptr;
-		const char *docid_start = nullptr;
-		const char *docid_end = nullptr;
 		const char *doc_end = nullptr;
 
-		/*
-			Check for EOF
-		*/
-		if (buffer_end < buffer_start)
-			{
-			object.primary_key = object.contents = slice();
-			return;
-			}
-
 		/*
 			Get the document start and end
 		*/
-		do
+		while (true)
 			{
 			doc_start = std::search(buffer_start, buffer_end, start_of_document, start_of_document + 6);
-			doc_end = std::search(buffer_start, buffer_end, end_of_document, end_of_document + 3);
+			doc_end = std::search(doc_start, buffer_end, end_of_document, end_of_document + 3);
+			if (doc_end != buffer_end)
+				break;
+
+			/*
+				The buffer doesn't hold all of the next document.  Move what there is of it (or what might be the start of it) to the
+				start of the buffer and then fill the remainder - after making more space if that's needed.
+			*/
+			if (doc_start == buffer_end)
+				doc_start -= (std::min)((size_t)(buffer_end - buffer_start), (size_t)5);
+			size_t bytes_in_use = buffer_end - doc_start;
+			memmove(&buffer[0], doc_start, bytes_in_use);
+			if (bytes_in_use == buffer_size)
+				{
+				buffer_size += buffer_size;
+				buffer.resize(buffer_size);
+				}
+			buffer_start = &buffer[0];
+			buffer_end = buffer_start + bytes_in_use;
+
+			size_t bytes = source->fetch((void *)buffer_end, buffer_size - bytes_in_use);
+			buffer_end += bytes;
 
-			if (doc_end == buffer_end)
+			if (bytes == 0)
 				{
 				/*
-					Two possibilities, one is that the buffer is too small, the other is that we've reached the end of the buffer and so need to read more.
+					At EOF. The last document might not end in a '\n'.
 				*/
-				if (buffer_start == &buffer[0])
+				doc_start = std::search(buffer_start, buffer_end, start_of_document, start_of_document + 6);
+				doc_end = buffer_end;
+				while (doc_end > doc_start && ascii::isspace(*(doc_end - 1)))
+					doc_end--;
+				if (doc_end - doc_start < 6 + 2 || doc_end[-1] != '}' || doc_end[-2] != '}')
 					{
 					/*
-						The buffer is too small so extend it
-					*/
-					size_t bytes_in_use = buffer_end - buffer_start;
-					size_t bytes_remaining = buffer_size - bytes_in_use;
-
-					if (bytes_in_use != 0)
-						{
-						/*
-							Double the size of the buffer if its got data in it - because its too small.
-						*/
-						size_t gap = doc_start - buffer_start;
-						buffer_size += buffer_size;
-						buffer.resize(buffer_size);		// create space and move the old contents into the new space
-						buffer_start = &buffer[0];
-						buffer_end = &buffer[0] + bytes_in_use;
-						doc_start = &buffer[0] + gap;
-
-						bytes_remaining += buffer_size;
-						}
-
-					size_t bytes = source->fetch((void *)buffer_end, bytes_remaining);
-					doc_end = buffer_end += bytes;
-
-					/*
-						At EOF
+						There is no document, or it is incomplete.
 					*/
-					if (bytes == 0)
-						{
-						if (doc_start != nullptr)
-							{
-							doc_end = buffer_end;			// the last document might not end in a '\n'.
-							if (doc_end != doc_start)
-								break;							// the last document isn't empty
-							}
-
-						object.primary_key = object.contents = slice();
-						return;
-						}
-					}
-				else
-					{
-					/*
-						We're not at the start of the buffer so move the remaining data and go to the start of the buffer
-					*/
-					doc_start -= buffer_start - &buffer[0];
-					memmove(&buffer[0], buffer_start, buffer_end - buffer_start);
-					size_t bytes_in_use = buffer_end - buffer_start;
-					size_t bytes_remaining = buffer_size - bytes_in_use;
-					buffer_start = &buffer[0];
-					doc_end = buffer_end = buffer_start + bytes_in_use;
-
-					/*
-						Now fill the remainder of the buffer
-					*/
-					size_t bytes = source->fetch((void *)buffer_end, bytes_remaining);
-					doc_end = buffer_end += bytes;
+					buffer_start = buffer_end;
+					object.primary_key = object.contents = slice();
+					return;
 					}
+				doc_end -= 2;				// like the search, point to the "}}"
+				break;
 				}
 			}
-		while (doc_end == buffer_end);
 
 		/*
 			Get the document primary key
 		*/
-		docid_start = std::search(doc_start, doc_end, document_id_marker, document_id_marker + 7);
-		if (docid_start != nullptr)
-			if ((docid_start = strchr(docid_start + 6, '"')) != nullptr)
-				docid_end = strchr(++docid_start, '"');
+		const char *docid_end = doc_end;
+		const char *docid_start = std::search(doc_start, doc_end, document_id_marker, document_id_marker + 7);
+		if (docid_start != doc_end)
+			{
+			docid_start += 7;
+			docid_end = std::find(docid_start, doc_end, '"');
+			}
 
-		if (docid_end == buffer_end)
+		if (docid_end == doc_end)
 			{
 			static const char *none = "AnonymousDocument";
 			object.primary_key = slice(object.primary_key_allocator, none, none + strlen(none));
@@ -134,10 +101,12 @@ namespace JASS
 		/*
 			Get and store the document. In this case we're only looking for the data marked "vector"
 		*/
-		doc_start = std::search(doc_start, doc_end, vector_marker, vector_marker + 11) + 11;
-		object.contents = slice(object.contents_allocator, doc_start, doc_end);
-		
-		buffer_start = doc_end +2;
+		doc_start = std::search(doc_start, doc_end, vector_marker, vector_marker + 11);
+		if (doc_start != doc_end)
+			doc_start += 11;
+		object.contents = slice(object.contents_allocator, doc_start, doc_end + 1);		// include the first '}' so that a document with no terms isn't taken to be the end of the file
+
+		buffer_start = doc_end + 2;
 		}
 
 	/*
-- 
2.43.0


From 204788d8beff8a48edf10e11afda47a16d9f7645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:43 +0000
Subject: [PATCH 63/80] fix: instream_directory_iterator crashed on an empty
 directory, and took sub-directories to be files and any file with .gz in its
 path to be compressed

---
 source/instream_directory_iterator.cpp | 50 ++++++++++++++++----------
 source/instream_directory_iterator.h   | 11 ++++++
 2 files changed, 43 insertions(+), 18 deletions(-)

diff --git a/source/instream_directory_iterator.cpp b/source/instream_directory_iterator.cpp
index 98a07cd..03f58c3 100644
--- a/source/instream_directory_iterator.cpp
+++ b/source/instream_directory_iterator.cpp
@@ -25,6 +25,30 @@ namespace JASS
 		last = end(source);
 		}
 
+	/*
+		INSTREAM_DIRECTORY_ITERATOR::NEXT_FILE()
+		----------------------------------------
+	*/
+	bool instream_directory_iterator::next_file(void)
+		{
+		while (current != last)
+			{
+			std::filesystem::path filename = current->path();
+			bool is_file = current->is_regular_file();
+			current++;
+
+			if (!is_file)
+				continue;				// sub-directories (etc.) are not documents
+
+			reader = std::shared_ptr<instream>(new instream_file(filename.string()));
+			if (filename.extension() == ".gz")
+				reader = std::shared_ptr<JASS::instream>(new instream_deflate(reader));
+			return true;
+			}
+
+		return false;
+		}
+
 	/*
 		INSTREAM_DIRECTORY_ITERATOR::READ()
 		-----------------------------------
@@ -34,15 +58,11 @@ namespace JASS
 		/*
 			Is this the first time this method is called?
 		*/
-		if (reader == nullptr)
-			if (current != last)
-				{
-//puts(current->path().string().c_str());
-				reader = std::shared_ptr<instream>(new instream_file(current->path().string()));
-				if (current->path().string().rfind(".gz") != std::string::npos)
-					reader = std::shared_ptr<JASS::instream>(new instream_deflate(reader));
-				current++;
-				}
+		if (reader == nullptr && !next_file())
+			{
+			document.contents = slice();			// there are no files
+			return;
+			}
 
 		/*
 			Now we can get data from the reader and return it, after making sure we're not at EOF.
@@ -61,16 +81,10 @@ namespace JASS
 			read_into = ((uint8_t *)read_into) + bytes_read;
 
 			/*
-				We're at EOF so move on to the next disk file
+				If we're at EOF then move on to the next disk file
 			*/
-			if (current != last)
-				{
-//puts(current->path().string().c_str());
-				reader = std::shared_ptr<instream>(new instream_file(current->path().string()));
-				if (current->path().string().rfind(".gz") != std::string::npos)
-					reader = std::shared_ptr<JASS::instream>(new instream_deflate(reader));
-				current++;
-				}
+			if (bytes_read != 0 || next_file())
+				continue;
 			else
 				{
 				document.contents.resize(document.contents.size() - amount_to_read);
diff --git a/source/instream_directory_iterator.h b/source/instream_directory_iterator.h
index aca0e90..e427ec0 100644
--- a/source/instream_directory_iterator.h
+++ b/source/instream_directory_iterator.h
@@ -35,6 +35,17 @@ namespace JASS
 			std::shared_ptr<instream> reader;					///< A chain of instram objects responsible for sourcing the data
 			size_t bytes_read;										///< The number of bytes that have been read from the file.
 
+		protected:
+			/*
+				INSTREAM_DIRECTORY_ITERATOR::NEXT_FILE()
+				----------------------------------------
+			*/
+			/*!
+				@brief Open the next file in the directory (decompressing it if its name ends in ".gz").
+				@return true if there is one, false if there are no more.
+			*/
+			bool next_file(void);
+
 		public:
 			/*
 				INSTREAM_DIRECTORY_ITERATOR::INSTREAM_DIRECTORY_ITERATOR()
-- 
2.43.0


From fa0c7a96d4afe51b8aa7669943241c7b33461f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:31 +0000
Subject: [PATCH 64/80] fix: precision, F1 and the number of relevant documents
 returned added up graded assessments rather than counting relevant documents

---
 source/evaluate_precision.cpp         | 3 ++-
 source/evaluate_relevant_returned.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/evaluate_precision.cpp b/source/evaluate_precision.cpp
index 749c37d..4e6b74f 100644
--- a/source/evaluate_precision.cpp
+++ b/source/evaluate_precision.cpp
@@ -31,7 +31,8 @@ namespace JASS
 			{
 			auto assessment = find(query_id, result);
 
-			found_and_relevant += assessment.score;
+			if (assessment.score != 0)
+				found_and_relevant++;
 
 			which++;
 
diff --git a/source/evaluate_relevant_returned.cpp b/source/evaluate_relevant_returned.cpp
index d79c597..c9af58c 100644
--- a/source/evaluate_relevant_returned.cpp
+++ b/source/evaluate_relevant_returned.cpp
@@ -25,7 +25,8 @@ namespace JASS
 			{
 			auto assessment = find(query_id, result);
 
-			found_and_relevant += assessment.score;
+			if (assessment.score != 0)
+				found_and_relevant++;
 
 			which++;
 
-- 
2.43.0


From f0e0cc1ada0f0d710e95ce7f62873bc549ba430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:31 +0000
Subject: [PATCH 65/80] fix: JASS_eval reported average precision as rank
 biased precision

---
 tools/JASS_eval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/JASS_eval.cpp b/tools/JASS_eval.cpp
index 4ce053d..ab8b420 100644
--- a/tools/JASS_eval.cpp
+++ b/tools/JASS_eval.cpp
@@ -833,7 +833,7 @@ metric_set evaluate_query(const std::string &run_id, const std::string &query_id
 	double map = evaluate_map_computer.compute(query_id, results_list, depth);
 
 	JASS::evaluate_rank_biased_precision evaluate_rbp_computer(parameter_probability, gold_standard_assessments);
-	double rbp = evaluate_map_computer.compute(query_id, results_list, depth);
+	double rbp = evaluate_rbp_computer.compute(query_id, results_list, depth);
 
 	size_t number_of_relvant_assessments = evaluate_map_computer.relevance_count(query_id);
 
-- 
2.43.0


From b58f9cd69dfb8403b8a316c07b8a84fe262eaf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:31 +0000
Subject: [PATCH 66/80] fix: recall (and F1) of a query with no relevant
 documents was not a number

---
 source/evaluate_recall.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/evaluate_recall.cpp b/source/evaluate_recall.cpp
index b91e22c..16ef2fc 100644
--- a/source/evaluate_recall.cpp
+++ b/source/evaluate_recall.cpp
@@ -23,6 +23,12 @@ namespace JASS
 		double found_and_relevant = 0;
 		size_t which = 0;
 
+		/*
+			No relevant assessment scores 1 (like MAP), as does not looking at any results.
+		*/
+		if (relevant == 0 || depth == 0)
+			return 1;
+
 		for (const auto &result : results_list)
 			{
 			auto assessment = find(query_id, result);
-- 
2.43.0


From c1bfd83ce7c5499104decba796a66628b00c1aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:31 +0000
Subject: [PATCH 67/80] fix: expected search length was 2^64 if no relevant
 document was returned and there was no depth

---
 source/evaluate_expected_search_length.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/evaluate_expected_search_length.cpp b/source/evaluate_expected_search_length.cpp
index e172b46..966515b 100644
--- a/source/evaluate_expected_search_length.cpp
+++ b/source/evaluate_expected_search_length.cpp
@@ -33,6 +33,9 @@ namespace JASS
 				break;
 			}
 
-		return depth;
+		/*
+			None of the results we looked at is relevant.
+		*/
+		return depth == (std::numeric_limits<size_t>::max)() ? results_list.size() : depth;
 		}
 	}
-- 
2.43.0


From 8f2d5bece12678fc24fce342709bad37b5d256e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:31 +0000
Subject: [PATCH 68/80] fix: cheapest precision used the documents that were
 first by name rather than those that are cheapest

---
 source/evaluate_cheapest_precision.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/evaluate_cheapest_precision.cpp b/source/evaluate_cheapest_precision.cpp
index 934b94a..8b2099c 100644
--- a/source/evaluate_cheapest_precision.cpp
+++ b/source/evaluate_cheapest_precision.cpp
@@ -52,7 +52,10 @@ namespace JASS
 		if (query_prices.size() == 0 || depth == 0)
 			return 1;
 
-		std::sort(query_prices.begin(), query_prices.end());
+		std::sort(query_prices.begin(), query_prices.end(), [this](const judgement &first, const judgement &second)
+			{
+			return find_price(first.document_id).score < find_price(second.document_id).score;
+			});
 
 		/*
 			Slice the relevant item list for this query at either depth or the number of items in the results list
@@ -61,13 +64,18 @@ namespace JASS
 		size_t slice_point = JASS::maths::minimum(depth, results_list.size());
 		if (slice_point < query_prices.size())
 			{
-			auto price = find_price(query_prices[slice_point].document_id).score;
+			auto price = find_price(query_prices[slice_point - 1].document_id).score;
 			while (slice_point < query_prices.size() && find_price(query_prices[slice_point].document_id).score == price)
 					slice_point++;
 					
 			query_prices.resize(slice_point);
 			}
 
+		/*
+			Put them in the order needed to search for them.
+		*/
+		std::sort(query_prices.begin(), query_prices.end());
+
 
 		/*
 			Compute the precision
-- 
2.43.0


From a873f596b625ef8b4a237f9191f0e81342c471ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:31 +0000
Subject: [PATCH 69/80] fix: JASS_eval lost results when a run was not in order
 of query and rank, and evaluated lines that are not results

---
 tools/JASS_eval.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/tools/JASS_eval.cpp b/tools/JASS_eval.cpp
index ab8b420..fea8ac7 100644
--- a/tools/JASS_eval.cpp
+++ b/tools/JASS_eval.cpp
@@ -11,6 +11,7 @@
 #include <string>
 #include <iomanip>
 #include <iostream>
+#include <algorithm>
 
 #include "file.h"
 #include "maths.h"
@@ -577,7 +578,9 @@ class run_result
 					51 Q0 WSJ871218-0126 1 208 JASSv2
 			@param source [in] a single line from a TREC run file in trec_eval format.
 		*/
-		explicit run_result(uint8_t *source)
+		explicit run_result(uint8_t *source) :
+			rank(0),
+			score(0)
 			{
 			if (char *column_1 = (char *)source)
 				{
@@ -724,7 +727,22 @@ void load_run(const std::string &run_filename, std::vector<run_result> &parsed_r
 	JASS::file::buffer_to_list(run_list, run);
 
 	for (uint8_t *line : run_list)
-		parsed_run.push_back(run_result(line));
+		{
+		run_result result(line);
+		if (result.query_id != "")				// ignore lines that are not results
+			parsed_run.push_back(result);
+		}
+	if (parsed_run.size() == 0)
+		exit(printf("Cannot read run file: %s\n", run_filename.c_str()));
+
+	/*
+		Put the results of each query together and in rank order
+	*/
+	std::stable_sort(parsed_run.begin(), parsed_run.end(), [](const run_result &first, const run_result &second)
+		{
+		auto compare = first.query_id.compare(second.query_id);
+		return compare < 0 || (compare == 0 && first.rank < second.rank);
+		});
 	}
 
 /*
-- 
2.43.0


From 32a9acf071083924b6ac9789cfd54307cafb835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:31 +0000
Subject: [PATCH 70/80] fix: JASS_eval included queries that are not in the
 assessments in the average over the queries in the assessments

---
 tools/JASS_eval.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tools/JASS_eval.cpp b/tools/JASS_eval.cpp
index fea8ac7..666728c 100644
--- a/tools/JASS_eval.cpp
+++ b/tools/JASS_eval.cpp
@@ -1004,7 +1004,14 @@ void load_and_evaluate_run(const std::string &filename, std::map<std::string, me
 		{
 		(void)query_id;
 		query_count++;
-		averages += scores;
+
+		/*
+			Averages are over the assessed queries, so the results of a query that wasn't assessed are not included in them
+			(unless averaging over the queries in the run).
+		*/
+		auto assessment = gold_standard_assessments->find_first(query_id);
+		if (parameter_zeroless_averaging || (assessment != gold_standard_assessments->assessments.end() && assessment->query_id == query_id))
+			averages += scores;
 		}
 
 	/*
-- 
2.43.0


From 2191fa6861d7a8ba5955a4d19331f161343f9d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:31 +0000
Subject: [PATCH 71/80] fix: JASS_eval took an average precision of 0 to be 1
 when computing GMAP

---
 tools/JASS_eval.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tools/JASS_eval.cpp b/tools/JASS_eval.cpp
index 666728c..8b707e2 100644
--- a/tools/JASS_eval.cpp
+++ b/tools/JASS_eval.cpp
@@ -67,6 +67,8 @@ auto parameters = std::make_tuple										///< The  command line parameter bloc
 	JASS::commandline::parameter("-Z", "--Zeroless-averaging", "Average over the number of queries in the run [default: number of queries in assessments]", parameter_zeroless_averaging)
 	);
 
+constexpr double GMAP_MINIMUM = 0.00001;								///< The smallest average precision used in the computation of GMAP (as a geometric mean with a zero is zero). This is the value trec_eval uses.
+
 enum metric_index
 	{
 	NUMBER_OF_QUERIES,						///< the number of queries that this object represets (the numner of += ops called).
@@ -293,7 +295,7 @@ class metric_set
 			metric[F1_AT_1000] = f1_at_1000;
 			metric[MEAN_AVERAGE_PRECISION] = mean_average_precision;
 			metric[RANK_BIASED_PRECISION] = rank_biased_precision;
-			metric[GEOMETRIC_MEAN_AVERAGE_PRECISION] = mean_average_precision == 0 ? 0 : log(mean_average_precision);
+			metric[GEOMETRIC_MEAN_AVERAGE_PRECISION] = log(JASS::maths::maximum(mean_average_precision, GMAP_MINIMUM));
 			metric[CHEAPEST_PRECISION] = cheapest_precision;
 			metric[SELLING_POWER] = selling_power;
 			metric[BUYING_POWER] = buying_power;
@@ -354,6 +356,12 @@ class metric_set
 		if (parameter_zeroless_averaging)
 			number_of_queries = metric[NUMBER_OF_QUERIES];
 
+		/*
+			GMAP is in log space, where queries that are not in the run do not score 0.
+		*/
+		if (number_of_queries > metric[NUMBER_OF_QUERIES])
+			metric[GEOMETRIC_MEAN_AVERAGE_PRECISION] += (number_of_queries - metric[NUMBER_OF_QUERIES]) * log(GMAP_MINIMUM);
+
 		/*
 			do the averaging
 		*/
-- 
2.43.0


From 9f1beb4024b4b9486e064f81743315e124a107ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:31 +0000
Subject: [PATCH 72/80] fix: JASS_eval failed when the assessments were only
 prices

---
 tools/JASS_eval.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/JASS_eval.cpp b/tools/JASS_eval.cpp
index 8b707e2..2cdfcab 100644
--- a/tools/JASS_eval.cpp
+++ b/tools/JASS_eval.cpp
@@ -799,7 +799,10 @@ void load_assessments(std::string &assessments_filename, JASS::evaluate &gold_st
 		while (1)
 			{
 			if ((ch = strchr(ch + 1, '\n')) == NULL)
+				{
+				ch = assessments.c_str() + assessments.size();
 				break;
+				}
 
 			while (isspace(*ch))
 				ch++;
-- 
2.43.0


From 5db0c272c95edb4a2b31aeb794a6ea82bc947a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:59 +0000
Subject: [PATCH 73/80] fix: normal_cumulative_distribution_function() was
 wrong in the sixth digit (a coefficient of formula 26.2.17 was mistyped)

---
 source/statistics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/statistics.cpp b/source/statistics.cpp
index eb9aa16..20ff32b 100644
--- a/source/statistics.cpp
+++ b/source/statistics.cpp
@@ -24,7 +24,7 @@ namespace JASS
 		double b1 = .319381530;
 		double b2 = -0.356563782;
 		double b3 = 1.781477937;
-		double b4 = -1.8212515978;
+		double b4 = -1.821255978;
 		double b5 = 1.330274429;
 		double p = .2316419;
 
-- 
2.43.0


From 0ba3264cf8e8f6cd79d8e28a44fe03fdee2bc45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:59 +0000
Subject: [PATCH 74/80] fix: t_cumulative_distribution_function() with 1 degree
 of freedom added up 2^31 terms and was wrong, as was ttest_paired() of two
 samples

---
 source/statistics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/statistics.cpp b/source/statistics.cpp
index 20ff32b..e76ba08 100644
--- a/source/statistics.cpp
+++ b/source/statistics.cpp
@@ -92,7 +92,7 @@ namespace JASS
 			double c = sqrt(dnu / (dx * dx + dnu));
 			double csq = dnu / (dx * dx + dnu);
 			double s = dx / sqrt(dx * dx + dnu);
-			int64_t imax = nu - 2;
+			int64_t imax = (int64_t)nu - 2;
 			int64_t ievodd = nu - 2 * (nu / 2);
 
 			int64_t imin;
-- 
2.43.0


From e4c3edb58307eabce036387483dc9616167654da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:43 +0000
Subject: [PATCH 75/80] fix: uncompressed indexes hold d1 differences, but said
 they were d0

---
 source/serialise_jass_v1.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/serialise_jass_v1.cpp b/source/serialise_jass_v1.cpp
index c962f34..c9c3d12 100644
--- a/source/serialise_jass_v1.cpp
+++ b/source/serialise_jass_v1.cpp
@@ -257,7 +257,6 @@ namespace JASS
 				break;
 			case serialise_jass_v1::jass_v1_codex::uncompressed:
 				name = "None";
-				d_ness = 0;
 				break;
 			default:
 				exit(printf("Unknown index format\n"));
-- 
2.43.0


From 307c5f0d7dbf3531add9d26bef2d3d0e43bc8c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:22 +0000
Subject: [PATCH 76/80] fix: dynamic_array's atomic counters were not aligned
 (and so were not atomic, or were very slow, across cache lines)

---
 source/dynamic_array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/dynamic_array.h b/source/dynamic_array.h
index e35f4b1..d72466b 100644
--- a/source/dynamic_array.h
+++ b/source/dynamic_array.h
@@ -69,7 +69,7 @@ namespace JASS
 						/*
 							Allocate the data this node controls.
 						*/
-						data = new (pool.malloc(size * sizeof(TYPE))) TYPE[size];
+						data = new (pool.malloc(size * sizeof(TYPE), alignof(TYPE))) TYPE[size];
 						}
 				};
 
@@ -201,7 +201,7 @@ namespace JASS
 				/*
 					Allocate space for the first write
 				*/
-				head = tail = new (pool.malloc(sizeof(node))) node(pool, initial_size);
+				head = tail = new (pool.malloc(sizeof(node), alignof(node))) node(pool, initial_size);
 				}
 			
 			/*
@@ -289,7 +289,7 @@ namespace JASS
 							We've walked past the end so we allocate space for a new node (and elements in that node) and add it to the list.
 						*/
 						last->used = last->allocated;
-						node *another = new (pool.malloc(sizeof(node))) node(pool, (size_t)(last->allocated * growth_factor));
+						node *another = new (pool.malloc(sizeof(node), alignof(node))) node(pool, (size_t)(last->allocated * growth_factor));
 						/*
 							Atomicly make it the tail and if we succeed than make the previous node in the list point to this one.
 							If we fail then the pool allocator won't take the memory back so ignore and re-try
-- 
2.43.0


From afbf404f75904e30000ab429f961fa57d9e82b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:22 +0000
Subject: [PATCH 77/80] fix: JASSv1_to_human printed impacts modulo 256

---
 tools/JASSv1_to_human.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/JASSv1_to_human.cpp b/tools/JASSv1_to_human.cpp
index c6167c7..efb293b 100755
--- a/tools/JASSv1_to_human.cpp
+++ b/tools/JASSv1_to_human.cpp
@@ -108,7 +108,10 @@ class printer
 		*/
 		void add_rsv(uint64_t document, uint64_t impact)
 			{
-			std::cout << '<' << document << ',' << impact << '>';
+			/*
+				The impact passed to this method has been through an accumulator and so might have overflowed.
+			*/
+			std::cout << '<' << document << ',' << this->impact << '>';
 			}
 	} ;
 
@@ -144,6 +147,7 @@ void walk_index_v1(JASS::deserialised_jass_v1 &index, JASS::compress_integer &de
 				uint64_t *postings = (uint64_t *)term.offset + current_segment;
 				const JASS::deserialised_jass_v1::segment_header_on_disk &header = *reinterpret_cast<const JASS::deserialised_jass_v1::segment_header_on_disk *>(index.postings() + *postings);
 
+				out_stream.set_score(header.impact);
 				decompressor.set_impact(header.impact);
 				decompressor.decode_with_writer(out_stream, header.segment_frequency, index.postings() + header.offset, header.end - header.offset);
 				}
@@ -197,6 +201,7 @@ void walk_index_v2(JASS::deserialised_jass_v1 &index, JASS::compress_integer &de
 //printf("%02X ", *(current_header_pointer + header.offset + byte));
 //std::cout << "\n";
 
+				out_stream.set_score(header.impact);
 				decompressor.set_impact(header.impact);
 				decompressor.decode_with_writer(out_stream, header.segment_frequency, segment_header_pointer + header.offset, header.end);
 				}
-- 
2.43.0


From f2d9d26297dd8018f98c6975b1f689b36a23a629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:13 +0000
Subject: [PATCH 78/80] fix: JASS_anytime ignored the queries after a blank
 line in the query file

---
 anytime/JASS_anytime.cpp | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/anytime/JASS_anytime.cpp b/anytime/JASS_anytime.cpp
index 6f9afca..6503c8e 100755
--- a/anytime/JASS_anytime.cpp
+++ b/anytime/JASS_anytime.cpp
@@ -90,24 +90,16 @@ void load_queries(std::vector<JASS_anytime_query> &query_list, const std::string
 		Read the query set and bung it into a vector
 	*/
 	input->gets(query);
-
-	std::size_t found = query.find_last_not_of(" \t\f\v\n\r");
-	if (found != std::string::npos)
-	  query.erase(found + 1);
-	else
-	  query.clear();            // str is all whitespace
-
-	while (query.size() != 0)
+	while (query.size() != 0)				// an empty line has an end of line marker on it, at end of file there is nothing
 		{
-		query_list.push_back(query);
-
-		input->gets(query);
-
 		std::size_t found = query.find_last_not_of(" \t\f\v\n\r");
 		if (found != std::string::npos)
-		  query.erase(found + 1);
-		else
-		  query.clear();            // str is all whitespace
+			{
+			query.erase(found + 1);
+			query_list.push_back(query);
+			}
+
+		input->gets(query);
 		}
 		
 	delete input;
-- 
2.43.0


From 634862f5c59347d169223d009d48365faecc10a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:13 +0000
Subject: [PATCH 79/80] fix: channel_trec made up a topic (number
 18446744073709551615) when there are none

---
 source/channel_trec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/channel_trec.cpp b/source/channel_trec.cpp
index 4d37c75..bdb6116 100644
--- a/source/channel_trec.cpp
+++ b/source/channel_trec.cpp
@@ -126,6 +126,11 @@ namespace JASS
 			}
 
 		at_eof = true;
+		if (number < 0)				// there are no topics in the file
+			{
+			into.clear();
+			return;
+			}
 		return construct(into, number, answer.str());
 		}
 
-- 
2.43.0


From 64d8a6044497dcd1c469ad22fb580b9b9be5980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:13 +0000
Subject: [PATCH 80/80] fix: a failure to load the oracle scores left the
 engine with a table that had been deleted

---
 anytime/JASS_anytime_api.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 117cd08..3f954ea 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -149,8 +149,9 @@ JASS_ERROR JASS_anytime_api::load_oracle_scores(std::string filename)
 	{
 	try
 		{
+		JASS::top_k_limit *table = new JASS::top_k_limit(filename);
 		delete precomputed_minimum_rsv_table;
-		precomputed_minimum_rsv_table = new JASS::top_k_limit(filename);
+		precomputed_minimum_rsv_table = table;
 		}
 	catch(...)
 		{
-- 
2.43.0

