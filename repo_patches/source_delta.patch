From 2e1a7d633f603e3227e497b233b06476a968ca75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:55 +0000
Subject: [PATCH 01/50] fix: Relative-10 decoded the fourth 3-bit integer of a
 10-integer word with the wrong shift

---
 source/compress_integer_relative_10.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_relative_10.cpp b/source/compress_integer_relative_10.cpp
index 2d67112..2943b2a 100644
--- a/source/compress_integer_relative_10.cpp
+++ b/source/compress_integer_relative_10.cpp
@@ -243,7 +243,7 @@ namespace JASS
 						*destination++ = value & 0x7;
 						*destination++ = (value >> 3) & 0x7;
 						*destination++ = (value >> 6) & 0x7;
-						*destination++ = (value >> 8) & 0x7;
+						*destination++ = (value >> 9) & 0x7;
 						*destination++ = (value >> 12) & 0x7;
 						*destination++ = (value >> 15) & 0x7;
 						*destination++ = (value >> 18) & 0x7;
-- 
2.43.0


From 9ce8fd247c54345e6cb777c53e659ee124485c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:55 +0000
Subject: [PATCH 02/50] fix: maths::find_first_set_bit(uint64_t) returned 0
 when the low 32 bits were clear

---
 source/maths.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/maths.h b/source/maths.h
index b8b014f..0630802 100644
--- a/source/maths.h
+++ b/source/maths.h
@@ -257,7 +257,7 @@ namespace JASS
 			static inline uint32_t find_first_set_bit(uint64_t x)
 				{
 				static const uint32_t table[] = {0, 1, 2, 53, 3, 7, 54, 27, 4, 38, 41, 8, 34, 55, 48, 28, 62, 5, 39, 46, 44, 42, 22, 9, 24, 35, 59, 56, 49, 18, 29, 11, 63, 52, 6, 26, 37, 40, 33, 47, 61, 45, 43, 21, 23, 58, 17, 10, 51, 25, 36, 32, 60, 20, 57, 16, 50, 31, 19, 15, 30, 14, 13, 12};
-				return table[((x & -(int32_t)x) * 0x022FDD63CC95386DULL) >> 58];
+				return table[((x & (~x + 1)) * 0x022FDD63CC95386DULL) >> 58];
 				}
 
 			/*
-- 
2.43.0


From 40b17969032c93b6a86796c8c1dd7254d14c8842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:03 +0000
Subject: [PATCH 03/50] fix: bitstring kept stale bits when shortened, and
 operations on strings with different buffer sizes ran past the end

---
 source/bitstring.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/bitstring.cpp b/source/bitstring.cpp
index 37bf623..6662a86 100644
--- a/source/bitstring.cpp
+++ b/source/bitstring.cpp
@@ -56,6 +56,12 @@ namespace JASS
 			bits.resize(bytes_long);
 			}
 			
+		/*
+			if the bitstring is getting shorter then clear the bits that are no longer valid (so that they're not counted and don't come back)
+		*/
+		for (size_t clearing = new_length_in_bits; clearing < bits_long; clearing++)
+			unsafe_unsetbit(clearing);
+
 		/*
 			remember out length
 		*/
@@ -116,9 +122,9 @@ namespace JASS
 		bitstring_word *cc = (bitstring_word *)&c.bits[0];
 		
 		/*
-			work out when to stop
+			work out when to stop (the internal buffers need not all be the same size, but each is at least this long)
 		*/
-		bitstring_word *end = aa + (bits.size() / sizeof(bitstring_word));
+		bitstring_word *end = aa + (longest + 8 * sizeof(bitstring_word)) / (8 * sizeof(bitstring_word));
 
 		/*
 			swith on op and run until we're done
-- 
2.43.0


From c7f69de294187f3da1bd954d5d720d6bf2514061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 04/50] fix: beap::find ran off the end of the array looking
 for a key smaller than every element

---
 source/beap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/beap.h b/source/beap.h
index bdc0718..773dede 100644
--- a/source/beap.h
+++ b/source/beap.h
@@ -239,7 +239,7 @@ namespace JASS
 						current_location -= current_height;
 						current_height--;
 						end_of_row -= current_height + 2;
-						if (current_location < 0)
+						if (current_location > end_of_row)
 							return -1;
 						}
 					else if (key > array[current_location])
-- 
2.43.0


From e066caa84b5262be859619d3cfe7915ee41c4d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 05/50] fix: Carry-8b decoded zeros as ones when they were
 packed with a 1-bit selector

---
 source/compress_integer_carry_8b.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/compress_integer_carry_8b.cpp b/source/compress_integer_carry_8b.cpp
index 92533bb..6345c44 100644
--- a/source/compress_integer_carry_8b.cpp
+++ b/source/compress_integer_carry_8b.cpp
@@ -121,7 +121,10 @@ size_t compress_integer_carry_8b::pack_one_word(size_t base, size_t highest, uin
 		{
 		while (terms < selector_table[base + selector].integers && terms < source_integers)
 			{
-			if (maths::ceiling_log2(source[terms]) > selector_table[base + selector].bits)
+			/*
+				The 1-bit selectors are decoded as runs of 1s so they cannot hold a 0
+			*/
+			if (maths::ceiling_log2(source[terms]) > selector_table[base + selector].bits || (source[terms] == 0 && selector_table[base + selector].bits == 1))
 				{
 				selector++;
 				break;
-- 
2.43.0


From 23bc9e6534eb9200d099d10e833fe1df887ecdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 06/50] fix: Simple-8b (and the packed variant) decoded runs of
 120 or 240 zeros as ones

---
 source/compress_integer_simple_8b.cpp        | 2 ++
 source/compress_integer_simple_8b_packed.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/compress_integer_simple_8b.cpp b/source/compress_integer_simple_8b.cpp
index ae9b063..10e85af 100644
--- a/source/compress_integer_simple_8b.cpp
+++ b/source/compress_integer_simple_8b.cpp
@@ -144,6 +144,8 @@ namespace JASS
 			for (size_t offset = 0; offset < remaining && bitmask; offset++)
 				{
 				bitmask &= can_pack_table[row_for_bits_needed[maths::ceiling_log2(source[pos + offset])] + offset];
+				if (source[pos + offset] == 0)
+					bitmask &= 0xFFFC;			// selectors 0 and 1 are decoded as runs of 1s so they cannot hold a 0
 				last_bitmask |= (bitmask & invalid_masks_for_offset[offset + 1]);
 				}
 
diff --git a/source/compress_integer_simple_8b_packed.cpp b/source/compress_integer_simple_8b_packed.cpp
index f535d73..95f5458 100644
--- a/source/compress_integer_simple_8b_packed.cpp
+++ b/source/compress_integer_simple_8b_packed.cpp
@@ -204,6 +204,8 @@ namespace JASS
 			for (size_t offset = 0; offset < remaining && bitmask; offset++)
 				{
 				bitmask &= can_pack_table[row_for_bits_needed[maths::ceiling_log2(source[pos + offset])] + offset];
+				if (source[pos + offset] == 0)
+					bitmask &= 0xFFFC;			// selectors 0 and 1 are decoded as runs of 1s so they cannot hold a 0
 				last_bitmask |= (bitmask & invalid_masks_for_offset[offset + 1]);
 				}
 				
-- 
2.43.0


From 220ff7f97e469a65284a6655a71b7f6136d62881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:53 +0000
Subject: [PATCH 07/50] fix: dynamic_array::serialise() wrote past the end of a
 buffer smaller than the array

---
 source/dynamic_array.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/dynamic_array.h b/source/dynamic_array.h
index 3a0b308..6cd9821 100644
--- a/source/dynamic_array.h
+++ b/source/dynamic_array.h
@@ -368,10 +368,11 @@ namespace JASS
 					*/
 					for (node *current = head; current != nullptr; current = current->next)
 						{
-						std::copy(current->data, current->data + (current->used <= size_of_into ? current->used.load() : size_of_into), into);
-						size_of_into -= current->used;
+						size_t to_copy = current->used <= size_of_into ? current->used.load() : size_of_into;
+						std::copy(current->data, current->data + to_copy, into);
+						size_of_into -= to_copy;
 						would_take += current->used;
-						into += current->used;
+						into += to_copy;
 						}
 					}
 				return would_take;
-- 
2.43.0


From f0245c14e216ee887441260ad275c864ffbf3532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:02 +0000
Subject: [PATCH 08/50] fix: allocator_pool::malloc() never returned when an
 aligned request filled a whole chunk

---
 source/allocator_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/allocator_pool.cpp b/source/allocator_pool.cpp
index c72e4af..0129b37 100644
--- a/source/allocator_pool.cpp
+++ b/source/allocator_pool.cpp
@@ -132,7 +132,7 @@ namespace JASS
 			*/
 			if (chunk == nullptr || top_of_stack + bytes + padding > chunk->chunk_end)
 				{
-				if (add_chunk(bytes) != nullptr)
+				if (add_chunk(alignment == 1 ? bytes : bytes + alignment) != nullptr)		// a new chunk must have space for the padding too
 					continue;
 				else
 					{
-- 
2.43.0


From 83f0594bdab281f882b7aa0020d20c97c9aafc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:08 +0000
Subject: [PATCH 09/50] Verification hook: a small index table when
 JASS_VERIFY_SMALL_TABLES is defined

---
 source/index_manager_sequential.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/index_manager_sequential.h b/source/index_manager_sequential.h
index a3af9d0..25bca4a 100644
--- a/source/index_manager_sequential.h
+++ b/source/index_manager_sequential.h
@@ -39,7 +39,11 @@ namespace JASS
 		{
 		private:
 			allocator_pool memory;														///< All memory in allocatged from this allocator.
+#ifdef JASS_VERIFY_SMALL_TABLES
+			hash_table<slice, index_postings, 8> index;							///< The index is a hash table of index_postings keyed on the term (a slice).
+#else
 			hash_table<slice, index_postings, 24> index;							///< The index is a hash table of index_postings keyed on the term (a slice).
+#endif
 			dynamic_array<slice> primary_key;										///< The list of primary keys (i.e. external document identifiers) allocated in memory.
 			
 			/*
-- 
2.43.0


From 6232d2047bd259de0655af289594c63923dc94f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:10 +0000
Subject: [PATCH 10/50] fix: Carry-8b decoded the fourth 15-bit integer of a
 60-bit payload with the wrong shift

---
 source/compress_integer_carry_8b.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_carry_8b.cpp b/source/compress_integer_carry_8b.cpp
index 6345c44..bc8364a 100644
--- a/source/compress_integer_carry_8b.cpp
+++ b/source/compress_integer_carry_8b.cpp
@@ -569,7 +569,7 @@ printf("[%d] Decode:%d\n", (int)(destination - destination_at_start), (int)(sele
 					*(destination + 0) = payload >> 0 & 0x7FFF;
 					*(destination + 1) = payload >> 15 & 0x7FFF;
 					*(destination + 2) = payload >> 30 & 0x7FFF;
-					*(destination + 3) = payload >> 15 & 0x7FFF;
+					*(destination + 3) = payload >> 45 & 0x7FFF;
 					destination += 4;
 
 					source++;
-- 
2.43.0


From 3aa351a4aebee2a050d7332acf1b3dd32ceee322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:10 +0000
Subject: [PATCH 11/50] fix: the first term frequency pushed for a document was
 not capped at the largest impact

---
 source/index_postings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/index_postings.h b/source/index_postings.h
index cd15fc1..680fccb 100644
--- a/source/index_postings.h
+++ b/source/index_postings.h
@@ -141,7 +141,7 @@ namespace JASS
 
 					for (uint8_t *byte = space; byte < ending; byte++)
 						document_ids.push_back(*byte);
-					term_frequencies.push_back(amount);
+					term_frequencies.push_back(amount < index_postings_impact::largest_impact ? amount : index_postings_impact::largest_impact);
 
 					highest_document = document_id;
 					}
-- 
2.43.0


From 05b9925bb8c5e5fa25883b2f05fcdaff1d5a574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 12/50] fix: Elias delta wrote past the end of a destination
 buffer that is too small

---
 source/compress_integer_elias_delta.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/compress_integer_elias_delta.cpp b/source/compress_integer_elias_delta.cpp
index 9a5f799..292e6d5 100644
--- a/source/compress_integer_elias_delta.cpp
+++ b/source/compress_integer_elias_delta.cpp
@@ -58,6 +58,8 @@ namespace JASS
 			/*
 				Append the value in binary
 			*/
+			if (into / 8 + sizeof(uint64_t) > encoded_buffer_length)
+				return 0;				// each write is of 8 bytes, this one would overflow the output buffer
 			size_t shift = into % 8;
 			uint64_t pattern = zig_zag << shift;
 			uint64_t *address = reinterpret_cast<uint64_t *>(encoded + (into / 8));
@@ -68,6 +70,8 @@ namespace JASS
 			/*
 				We now know the length of the integer so we can encode the actual value in binary (without zig-zagging) with the high bit turned off
 			*/
+			if (into / 8 + sizeof(uint64_t) > encoded_buffer_length)
+				return 0;
 			shift = into % 8;
 			pattern = (*value & ~(1ULL << (n - 1))) << shift;
 			address = reinterpret_cast<uint64_t *>(encoded + (into / 8));
-- 
2.43.0


From 21c6574b8ac33788eca79f1cf04fddd65e033b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 13/50] fix: Elias gamma wrote past the end of a destination
 buffer that is too small

---
 source/compress_integer_elias_gamma.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/compress_integer_elias_gamma.cpp b/source/compress_integer_elias_gamma.cpp
index 51c3758..3ec74f6 100644
--- a/source/compress_integer_elias_gamma.cpp
+++ b/source/compress_integer_elias_gamma.cpp
@@ -52,6 +52,8 @@ namespace JASS
 			/*
 				Append the value in binary
 			*/
+			if (into / 8 + sizeof(uint64_t) > encoded_buffer_length)
+				return 0;				// each write is of 8 bytes, this one would overflow the output buffer
 			size_t shift = into % 8;
 			uint64_t pattern = zig_zag << shift;
 			uint64_t *address = reinterpret_cast<uint64_t *>(encoded + (into / 8));
-- 
2.43.0


From d42954df4fba7759c187d55d2d1593ff8aa4b592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 14/50] fix: Elias gamma SIMD VB gave the wrong buffer length
 to variable byte, and ignored its overflow

---
 source/compress_integer_elias_gamma_simd_vb.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/compress_integer_elias_gamma_simd_vb.cpp b/source/compress_integer_elias_gamma_simd_vb.cpp
index 6769573..3bdf2c1 100755
--- a/source/compress_integer_elias_gamma_simd_vb.cpp
+++ b/source/compress_integer_elias_gamma_simd_vb.cpp
@@ -58,6 +58,8 @@ namespace JASS
 		/*
 			Store the length of the variable byte part
 		*/
+		if (encoded_buffer_length < sizeof(*destination))
+			return 0;
 		*destination++ = 0;			// store as a 4-byte integer to start with (variable byte encode it later)
 		while (1)
 			{
@@ -155,7 +157,7 @@ namespace JASS
 							if (vbyte_size < elias_size)
 								{
 								// re-code the codeword
-								vbyte_size = compress_integer_variable_byte::encode(selector, end_of_destination - selector, array_at_start_of_codeword, elements_at_start_of_codeword);
+								vbyte_size = compress_integer_variable_byte::encode(selector, (uint8_t *)end_of_destination - (uint8_t *)selector, array_at_start_of_codeword, elements_at_start_of_codeword);
 								destination = selector;
 								}
 							else
@@ -167,8 +169,10 @@ namespace JASS
 								encodings[slice - 1] += encodings[slice];
 								encodings[slice] = 0;
 								*selector = compute_selector(encodings);
-								vbyte_size = compress_integer_variable_byte::encode(destination, end_of_destination - selector, array, elements);
+								vbyte_size = compress_integer_variable_byte::encode(destination, (uint8_t *)end_of_destination - (uint8_t *)destination, array, elements);
 								}
+							if (vbyte_size == 0)
+								return 0;					// the variable byte part did not fit in the buffer
 							uint32_t *vb_length_locaton = (uint32_t *)encoded;
 							*vb_length_locaton = vbyte_size;
 
-- 
2.43.0


From a23cc8c1b0f52a8bb94116d0755ab9d353c96c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 15/50] fix: Elias delta SIMD let the payloads and the
 selectors overlap in a destination buffer that is too small

---
 source/compress_integer_elias_delta_simd.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/compress_integer_elias_delta_simd.cpp b/source/compress_integer_elias_delta_simd.cpp
index 4b14046..20b8473 100644
--- a/source/compress_integer_elias_delta_simd.cpp
+++ b/source/compress_integer_elias_delta_simd.cpp
@@ -102,7 +102,6 @@ namespace JASS
 		uint64_t accumulated_selector = 0;
 
 		uint32_t *destination = reinterpret_cast<uint32_t *>(encoded);
-		uint32_t *end_of_destination = (uint32_t *)((uint8_t *)encoded + encoded_buffer_length);
 		uint32_t carryover = 0;
 		uint32_t actual_max_width = 0;
 
@@ -125,8 +124,8 @@ namespace JASS
 			/*
 				Check for overflow of the output buffer
 			*/
-			if (destination > end_of_destination)
-				return 0;
+			if (destination > selector)
+				return 0;				// the payloads (from the start) have run into the selectors (from the end)
 
 			/*
 				Zero the result memory before writing the bit paterns into it
@@ -231,6 +230,8 @@ namespace JASS
 		/*
 			Flush the last selector the move the selectors to the end of the payloads
 		*/
+		if (destination > selector)
+			return 0;
 		*selector = static_cast<uint32_t>(accumulated_selector & 0xFFFFFFFFFFFFFFFF);
 		size_t length_of_selectors = ((reinterpret_cast<uint8_t *>(encoded) + encoded_buffer_length)) - reinterpret_cast<uint8_t *>(selector);
 		memmove(destination, selector, length_of_selectors);
-- 
2.43.0


From 5b1c3d1988253704234f990f72d86db739e3e072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:02 +0000
Subject: [PATCH 16/50] fix: packed Simple-9/16/8b (one integer) and
 Relative-10 wrote past the end of a destination buffer that is too small

---
 source/compress_integer_relative_10.cpp      | 2 +-
 source/compress_integer_simple_16_packed.cpp | 6 ++++++
 source/compress_integer_simple_8b_packed.cpp | 6 ++++++
 source/compress_integer_simple_9_packed.cpp  | 6 ++++++
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/source/compress_integer_relative_10.cpp b/source/compress_integer_relative_10.cpp
index 2943b2a..4fff96e 100644
--- a/source/compress_integer_relative_10.cpp
+++ b/source/compress_integer_relative_10.cpp
@@ -127,7 +127,7 @@ namespace JASS
 		*/
 		for (words_in_compressed_string = 1; pos < source_integers; words_in_compressed_string++)  //outer loop: loops thru' all the elements in source[]
 			{
-			if (into >= end)
+			if (into + 1 > end)
 				return 0;
 			needed = 0;
 			for (term = 0; term < 30 && pos + term < source_integers; term++)
diff --git a/source/compress_integer_simple_16_packed.cpp b/source/compress_integer_simple_16_packed.cpp
index 7bb0fde..0aa101b 100644
--- a/source/compress_integer_simple_16_packed.cpp
+++ b/source/compress_integer_simple_16_packed.cpp
@@ -135,6 +135,12 @@ namespace JASS
 			if (*source > 1 << 28)
 				return 0;
 
+			/*
+				Check for overflow of the output buffer
+			*/
+			if (into + 1 > end)
+				return 0;
+
 			/*
 				Choose largest bits-per-integer mask, single integer => '15'
 			*/
diff --git a/source/compress_integer_simple_8b_packed.cpp b/source/compress_integer_simple_8b_packed.cpp
index 95f5458..bd2014d 100644
--- a/source/compress_integer_simple_8b_packed.cpp
+++ b/source/compress_integer_simple_8b_packed.cpp
@@ -157,6 +157,12 @@ namespace JASS
 			if (static_cast<uint64_t>(*source) > (1ULL << 60))
 				return 0;
 
+			/*
+				Check for overflow of the output buffer
+			*/
+			if (into + 1 > end)
+				return 0;
+
 			/*
 				Choose largest bits-per-integer mask, single integer => '15'
 			*/
diff --git a/source/compress_integer_simple_9_packed.cpp b/source/compress_integer_simple_9_packed.cpp
index c984ffd..bb43192 100644
--- a/source/compress_integer_simple_9_packed.cpp
+++ b/source/compress_integer_simple_9_packed.cpp
@@ -128,6 +128,12 @@ namespace JASS
 			if (*source > 1 << 28)
 				return 0;
 				
+			/*
+				Check for overflow of the output buffer
+			*/
+			if (into + 1 > end)
+				return 0;
+
 			/*
 				choose largest bits-per-integer mask, single integer => '8'
 			*/
-- 
2.43.0


From 0780a620f14fc423eecddeb6e53ffa0801f88a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:32 +0000
Subject: [PATCH 17/50] fix: Carryover-12 decoded a 30-bit integer (in a 32-bit
 payload) as 28 bits

---
 source/compress_integer_carryover_12.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_carryover_12.cpp b/source/compress_integer_carryover_12.cpp
index ed7b2c4..01dd3ad 100644
--- a/source/compress_integer_carryover_12.cpp
+++ b/source/compress_integer_carryover_12.cpp
@@ -575,7 +575,7 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0
 					payload = *source >> 2;
 					break;
 				case 23:
-					*(destination + 0) = payload >> 0 & 0x0FFFFFFF;
+					*(destination + 0) = payload >> 0 & 0x3FFFFFFF;
 					destination++;
 
 #ifdef CARRY_DEBUG
-- 
2.43.0


From f941920ae71b44626975539ec8a764c2b35ada70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:21 +0000
Subject: [PATCH 18/50] fix: packed Simple-9/16 silently corrupted a last
 integer too large to pack

---
 source/compress_integer_simple_16_packed.cpp | 4 +++-
 source/compress_integer_simple_9_packed.cpp  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/compress_integer_simple_16_packed.cpp b/source/compress_integer_simple_16_packed.cpp
index 0aa101b..6bd9c71 100644
--- a/source/compress_integer_simple_16_packed.cpp
+++ b/source/compress_integer_simple_16_packed.cpp
@@ -132,7 +132,7 @@ namespace JASS
 			/*
 				Check for overflow - and if not then just store 1 integer.
 			*/
-			if (*source > 1 << 28)
+			if (*source >= 1 << 28)
 				return 0;
 
 			/*
@@ -165,6 +165,8 @@ namespace JASS
 			Init last value to pack-by-self
 		*/
 		pos = source_integers - 1;
+		if (source[pos] >= 1 << 28)
+			return 0;
 		blocks_needed[pos] = 0;
 		masks[pos] = 15;
 		
diff --git a/source/compress_integer_simple_9_packed.cpp b/source/compress_integer_simple_9_packed.cpp
index bb43192..72be16f 100644
--- a/source/compress_integer_simple_9_packed.cpp
+++ b/source/compress_integer_simple_9_packed.cpp
@@ -125,7 +125,7 @@ namespace JASS
 			/*
 				Check for overflow - and if not then just store 1 integer.
 			*/
-			if (*source > 1 << 28)
+			if (*source >= 1 << 28)
 				return 0;
 				
 			/*
@@ -158,6 +158,8 @@ namespace JASS
 			init last value to pack-by-self
 		*/
 		pos = source_integers - 1;
+		if (source[pos] >= 1 << 28)
+			return 0;
 		blocks_needed[pos] = 0;
 		masks[pos] = 8;
 		
-- 
2.43.0


From a098cac93816d87a744a033ca3e90b9839b4635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 19/50] fix: Stream VByte wrote past the end of a destination
 buffer that is too small

---
 source/compress_integer_stream_vbyte.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/compress_integer_stream_vbyte.cpp b/source/compress_integer_stream_vbyte.cpp
index b66ffbf..1b522c3 100644
--- a/source/compress_integer_stream_vbyte.cpp
+++ b/source/compress_integer_stream_vbyte.cpp
@@ -30,6 +30,12 @@ namespace JASS
 	*/
 	size_t compress_integer_stream_vbyte::encode(void *encoded_as_void, size_t encoded_buffer_length, const integer *source, size_t source_integers)
 		{
+		/*
+			The Stream VByte library does not check for overflow, it requires room for the worst case (2 bits of key and 4 bytes of data per integer)
+		*/
+		if (encoded_buffer_length < (source_integers + 3) / 4 + source_integers * sizeof(*source))
+			return 0;
+
 		return streamvbyte::streamvbyte_encode(const_cast<integer *>(source), static_cast<uint32_t>(source_integers), static_cast<uint8_t *>(encoded_as_void));
 		}
 
-- 
2.43.0


From 9d4b12bb9b9a75ecf19da71eed3e41637432bebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:32 +0000
Subject: [PATCH 20/50] fix: Unicode case folding and normalisation lost the
 leading hexadecimal letters of the target code point

---
 tools/unicode_database_to_c.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/unicode_database_to_c.cpp b/tools/unicode_database_to_c.cpp
index d7bb507..2257f30 100644
--- a/tools/unicode_database_to_c.cpp
+++ b/tools/unicode_database_to_c.cpp
@@ -627,7 +627,9 @@ for (uint32_t which_semicolon = 0; which_semicolon < 5; which_semicolon++)
 */
 uint32_t normalisation = codepoint;
 const char *digit = semicolon + 1;
-while ((digit = strpbrk(digit, ";0123456789")) != nullptr)
+if (*digit == '<' && (digit = strchr(digit, '>')) == nullptr)		// skip over the compatibility formatting tag (e.g. <noBreak>)
+	return;			// LCOV_EXCL_LINE
+while ((digit = strpbrk(digit, ";0123456789ABCDEF")) != nullptr)
 	{
 	if (*digit == ';')
 		{
@@ -733,7 +735,7 @@ void process_casefolding(const char *line)
 	semicolon = strchr(semicolon + 1, ';');
 	const char *digit = semicolon + 1;
 	std::vector<int> folded;						// the case folded translation
-	while ((digit = strpbrk(digit, ";0123456789")) != nullptr)
+	while ((digit = strpbrk(digit, ";0123456789ABCDEF")) != nullptr)
 		{
 		if (*digit == ';')
 			break;
-- 
2.43.0


From 6024cff6488a079d4e3538604f4be219005f4236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 21/50] fix: unicode::isutf8() read the byte past the end of an
 empty buffer

---
 source/unicode.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/unicode.h b/source/unicode.h
index ccdfa99..06cab66 100644
--- a/source/unicode.h
+++ b/source/unicode.h
@@ -121,6 +121,12 @@ namespace JASS
 			*/
 			static size_t isutf8(const void *utf8_start, const void *end_of_buffer)
 				{
+				/*
+					an empty buffer is not UTF-8 (and can't be read from)
+				*/
+				if (utf8_start >= end_of_buffer)
+					return 0;
+
 				/*
 					get the length
 				*/
-- 
2.43.0


From 7e492c445e0ba455d6f82353f52b06dbf536e004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 22/50] fix: parser read past the end of documents ending in a
 letter, digit, unfinished tag, or unterminated attribute

---
 source/parser.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/parser.cpp b/source/parser.cpp
index 102b07a..d40c18e 100644
--- a/source/parser.cpp
+++ b/source/parser.cpp
@@ -137,7 +137,7 @@ namespace JASS
 			*buffer_pos++ = ascii::tolower(*current);
 			current++;
 		
-			while (ascii::isalpha(*current))
+			while (current < end_of_document && ascii::isalpha(*current))
 				{
 				if (buffer_pos < buffer_end)
 					*buffer_pos++ = ascii::tolower(*current);				// won't write on overflow
@@ -167,7 +167,7 @@ namespace JASS
 			*buffer_pos++ = *current;
 			current++;
 		
-			while (ascii::isdigit(*current))
+			while (current < end_of_document && ascii::isdigit(*current))
 				{
 				if (buffer_pos < buffer_end)
 					*buffer_pos++ = *current;				// won't write on overflow
@@ -203,7 +203,7 @@ namespace JASS
 					full XML parser. Square brackets below are XML production numbers.
 				*/
 				uint32_t codepoint = unicode::utf8_to_codepoint(current, end_of_document, bytes);
- 				if (unicode::isxmlnamestartchar(codepoint))
+ 				if (bytes != 0 && unicode::isxmlnamestartchar(codepoint))
 					{
 					/*
 						[40]     STag          ::= '<' Name (S Attribute)* S? '>'
@@ -247,6 +247,9 @@ namespace JASS
 						current++;
 						}
 						
+					if (current > end_of_document)
+						current = end_of_document;				// an unterminated quoted attribute ran off the end of the document
+
 					/*
 						was it an open tag or an empty tag?
 					*/
@@ -269,7 +272,7 @@ namespace JASS
 						[42]     ETag        ::= '</' Name S? '>'
 					*/
 					codepoint = unicode::utf8_to_codepoint(current + 1, end_of_document, bytes);
-	 				if (unicode::isxmlnamestartchar(codepoint))
+	 				if (bytes != 0 && unicode::isxmlnamestartchar(codepoint))
 						{
 						current++;
 						const uint8_t *found = std::find(current, end_of_document, '>');
-- 
2.43.0


From 5f1d66d468822be824c18b669853348e9c680428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:35 +0000
Subject: [PATCH 23/50] fix: parser lost the '<' of a "<!" that does not start
 any markup

---
 source/parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/parser.cpp b/source/parser.cpp
index d40c18e..02ecd19 100644
--- a/source/parser.cpp
+++ b/source/parser.cpp
@@ -376,6 +376,7 @@ namespace JASS
 						}
 					else
 						{
+						current--;				// the '!' is returned next time
 						*buffer_pos++ = *(current - 1);
 						current_token.type = current_token.other;				// Just plain old non alphanumerics.  Returned one character at a time.
 						}
-- 
2.43.0


From 4503db0a24ac7eddde24510b8166de3063c79e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:01 +0000
Subject: [PATCH 24/50] fix: parser_fasta read past the end of the document
 looking for the next base

---
 source/parser_fasta.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser_fasta.cpp b/source/parser_fasta.cpp
index ee17fdc..25c84ad 100644
--- a/source/parser_fasta.cpp
+++ b/source/parser_fasta.cpp
@@ -26,7 +26,7 @@ namespace JASS
 		/*
 			Skip over any leading spaces
 		*/
-		while (!ascii::isDNAbase(*current))
+		while (current < end_of_document && !ascii::isDNAbase(*current))
 			current++;
 
 		/*
-- 
2.43.0


From 9ac7f43946b5b0e799c5e244ec5b55e60b23cf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:01 +0000
Subject: [PATCH 25/50] fix: parser_fasta returned a k-mer twice when
 whitespace followed an invalid base

---
 source/parser_fasta.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/parser_fasta.cpp b/source/parser_fasta.cpp
index 25c84ad..90695ba 100644
--- a/source/parser_fasta.cpp
+++ b/source/parser_fasta.cpp
@@ -64,9 +64,11 @@ namespace JASS
 				else
 					{
 					/*
-						Not a valid DNA base so start the token at the next chacter and the one after that (current) at the character after that.
+						Not a valid DNA base so start the token at the next DNA base and the one after that (current) at the character after that.
 					*/
-					current = (++from) + 1;
+					while (from < end_of_document && !ascii::isDNAbase(*from))
+						from++;
+					current = from + 1;
 					break;
 					}
 				}
-- 
2.43.0


From 548a4ea11c0e41bbdc00d3a3beddb78f51c144f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:01 +0000
Subject: [PATCH 26/50] fix: parser_fasta lost the last base of a document when
 the k-mer length is 1

---
 source/parser_fasta.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser_fasta.cpp b/source/parser_fasta.cpp
index 90695ba..960e71f 100644
--- a/source/parser_fasta.cpp
+++ b/source/parser_fasta.cpp
@@ -77,7 +77,7 @@ namespace JASS
 		/*
 			Do we have enough characters to for a k-mer (or are we at EOF)?
 		*/
-		if (current >= end_of_document || byte != kmer_length)
+		if (byte != kmer_length)
 			return eof_token;
 
 		/*
-- 
2.43.0


From f6c8e17088002e40a8142e90cf74a8a83547c72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:01 +0000
Subject: [PATCH 27/50] fix: parser_fasta gave k-mers the type of the last
 token of the description line

---
 source/parser_fasta.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/parser_fasta.cpp b/source/parser_fasta.cpp
index 960e71f..3640c6a 100644
--- a/source/parser_fasta.cpp
+++ b/source/parser_fasta.cpp
@@ -83,6 +83,7 @@ namespace JASS
 		/*
 			Return the k-mer as a token.
 		*/
+		current_token.type = current_token.alpha;
 		current_token.lexeme = slice((void *)current_token.buffer, (void *)buffer_pos);
 		return current_token;
 		}
-- 
2.43.0


From 25a1bd50d06e6e9b90c8937c5eebec723d1c818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:08 +0000
Subject: [PATCH 28/50] fix: parser_unicoil_json returned a spurious token if
 anything followed the last weight

---
 source/parser_unicoil_json.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/parser_unicoil_json.h b/source/parser_unicoil_json.h
index da19741..af185c7 100644
--- a/source/parser_unicoil_json.h
+++ b/source/parser_unicoil_json.h
@@ -101,6 +101,12 @@ namespace JASS
 
 				current++;
 
+				/*
+					If there wasn't a term then we're at the end of the document
+				*/
+				if (current >= end_of_document)
+					return eof_token;
+
 				/*
 					Copy the term to the token buffer
 				*/
-- 
2.43.0


From 71619fa860503a0ec7dcbf426a9191ce9792bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:11 +0000
Subject: [PATCH 29/50] fix: parser_unicoil_json used the weight of the
 previous term when a weight was missing or out of range

---
 source/parser_unicoil_json.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/parser_unicoil_json.h b/source/parser_unicoil_json.h
index af185c7..3ed82ec 100644
--- a/source/parser_unicoil_json.h
+++ b/source/parser_unicoil_json.h
@@ -151,7 +151,9 @@ namespace JASS
 				*/
 				current_token.lexeme = slice((void *)current_token.buffer, (void *)buffer_pos);
 				current_token.type = token::alpha;
-				std::from_chars((char *)count_start, (char *)count_finish, current_token.count);
+				current_token.count = 0;				// in case there is no weight
+				if (std::from_chars((char *)count_start, (char *)count_finish, current_token.count).ec == std::errc::result_out_of_range)
+					current_token.count = std::numeric_limits<index_postings_impact::impact_type>::max();
 
 				if (current_token.count > index_postings_impact::largest_impact)
 					{
-- 
2.43.0


From e89ac750190d33dfafbe2d23406c3c05e077fed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:38 +0000
Subject: [PATCH 30/50] Revert "fix: parser lost the '<' of a "<!" that does
 not start any markup"

This reverts commit 5f1d66d468822be824c18b669853348e9c680428.
---
 source/parser.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/parser.cpp b/source/parser.cpp
index 02ecd19..d40c18e 100644
--- a/source/parser.cpp
+++ b/source/parser.cpp
@@ -376,7 +376,6 @@ namespace JASS
 						}
 					else
 						{
-						current--;				// the '!' is returned next time
 						*buffer_pos++ = *(current - 1);
 						current_token.type = current_token.other;				// Just plain old non alphanumerics.  Returned one character at a time.
 						}
-- 
2.43.0


From 38aa4a2e1dd0cb90c2072767303d8f895ac98d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:09 +0000
Subject: [PATCH 31/50] fix: Porter stemmer took an initial y for a vowel and
 two letters for consonant-vowel-consonant

---
 source/stem_porter.cpp | 2 +-
 source/stem_porter.h   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/stem_porter.cpp b/source/stem_porter.cpp
index 15d1ead..cc1be8c 100644
--- a/source/stem_porter.cpp
+++ b/source/stem_porter.cpp
@@ -59,7 +59,7 @@ namespace JASS
 			return true;
 		else
 			for (const char *pos = strchr(what, 'y'); pos != NULL; pos = strchr(pos + 1, 'y'))
-				if (!ascii::isvowel(*(pos + 1)))
+				if (isvowely(pos))
 					return true;
 
 		return false;
diff --git a/source/stem_porter.h b/source/stem_porter.h
index a159dd2..3bab842 100644
--- a/source/stem_porter.h
+++ b/source/stem_porter.h
@@ -52,7 +52,7 @@ namespace JASS
 			*/
 			bool isvowely(const char *c)
 				{
-				return *c != '\0' && (ascii::isvowel(*c) || (*c == 'y' && !ascii::isvowel(*(c + 1))));
+				return *c != '\0' && (ascii::isvowel(*c) || (*c == 'y' && *(c + 1) != '\0' && !isvowely(c + 1)));
 				}
 
 			/*
@@ -67,7 +67,7 @@ namespace JASS
 			*/
 			bool cvc(const char *what)
 				{
-				return ((strchr("aeiouwxy", *what) == NULL) && (isvowely(what + 1)) && (!isvowely(what + 2))) ? true : false;
+				return ((strchr("aeiouwxy", *what) == NULL) && (isvowely(what + 1)) && *(what + 2) != '\0' && (!isvowely(what + 2))) ? true : false;
 				}
 
 			/*
-- 
2.43.0


From 9978e238d835d9058e290a345d46e7dbb1a231ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:47 +0000
Subject: [PATCH 32/50] fix: lyck-16 packed lists whose widest integer does not
 fit its share of the word

---
 source/compress_integer_lyck_16.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/compress_integer_lyck_16.cpp b/source/compress_integer_lyck_16.cpp
index ef9c462..c0b1d21 100644
--- a/source/compress_integer_lyck_16.cpp
+++ b/source/compress_integer_lyck_16.cpp
@@ -34,7 +34,7 @@ namespace JASS
 				return 0;
 
 			uint32_t integers_to_encode;
-			size_t cumulative = 0;
+			size_t widest = 0;
 			uint32_t ending = source_integers > 16 ? 16 : (uint32_t)source_integers;
 			for (integers_to_encode = 0; integers_to_encode < ending; integers_to_encode++)
 				{
@@ -48,8 +48,9 @@ namespace JASS
 				/*
 					Check to see if we still fit in the current word
 				*/
-				cumulative += bits;
-				if (cumulative > 16)
+				if (bits > widest)
+					widest = bits;
+				if (widest * (integers_to_encode + 1) > 16)			// each is packed into an equal part of the 16 bits
 					break;
 				}
 
-- 
2.43.0


From a862da9f3868044a9f648ed6664111d4f3e4ed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:20 +0000
Subject: [PATCH 33/50] fix: recall is 1, not NaN or infinite, when nothing is
 relevant

---
 source/evaluate_recall.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/evaluate_recall.cpp b/source/evaluate_recall.cpp
index b91e22c..a144b27 100644
--- a/source/evaluate_recall.cpp
+++ b/source/evaluate_recall.cpp
@@ -23,6 +23,12 @@ namespace JASS
 		double found_and_relevant = 0;
 		size_t which = 0;
 
+		/*
+			If there is nothing to find (or we don't look) then we get a perfect score.
+		*/
+		if (relevant == 0 || depth == 0)
+			return 1;
+
 		for (const auto &result : results_list)
 			{
 			auto assessment = find(query_id, result);
-- 
2.43.0


From d3576044049302c72e054dd745144bf447c1bcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:20 +0000
Subject: [PATCH 34/50] fix: cheapest precision ordered the relevant documents
 by id instead of price

---
 source/evaluate_cheapest_precision.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/evaluate_cheapest_precision.cpp b/source/evaluate_cheapest_precision.cpp
index 934b94a..822b0eb 100644
--- a/source/evaluate_cheapest_precision.cpp
+++ b/source/evaluate_cheapest_precision.cpp
@@ -40,7 +40,7 @@ namespace JASS
 				if ((*assessment).score != 0)
 					{
 					auto price = find_price((*assessment).document_id);
-					query_prices.push_back(*assessment);
+					query_prices.push_back(judgement(query_id, (*assessment).document_id, price.score));
 					}
 				}
 			else
@@ -52,7 +52,7 @@ namespace JASS
 		if (query_prices.size() == 0 || depth == 0)
 			return 1;
 
-		std::sort(query_prices.begin(), query_prices.end());
+		std::sort(query_prices.begin(), query_prices.end(), [](const judgement &left, const judgement &right) { return left.score < right.score; });
 
 		/*
 			Slice the relevant item list for this query at either depth or the number of items in the results list
@@ -61,13 +61,18 @@ namespace JASS
 		size_t slice_point = JASS::maths::minimum(depth, results_list.size());
 		if (slice_point < query_prices.size())
 			{
-			auto price = find_price(query_prices[slice_point].document_id).score;
-			while (slice_point < query_prices.size() && find_price(query_prices[slice_point].document_id).score == price)
+			auto price = query_prices[slice_point - 1].score;
+			while (slice_point < query_prices.size() && query_prices[slice_point].score == price)
 					slice_point++;
 					
 			query_prices.resize(slice_point);
 			}
 
+		/*
+			Sort on document_id so that we can search the cheapest items.
+		*/
+		std::sort(query_prices.begin(), query_prices.end());
+
 
 		/*
 			Compute the precision
-- 
2.43.0


From 09e7868943d8671ccc320d9911eef6b85b348d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:20 +0000
Subject: [PATCH 35/50] fix: top_k_limit::operator[] inserted into the table,
 which searching threads share

---
 source/top_k_limit.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/top_k_limit.h b/source/top_k_limit.h
index 5bb4866..70bfea6 100644
--- a/source/top_k_limit.h
+++ b/source/top_k_limit.h
@@ -74,7 +74,8 @@ namespace JASS
 			*/
 			uint32_t operator[](std::string query_id)
 				{
-				return table[query_id];
+				auto found = table.find(query_id);
+				return found == table.end() ? 0 : found->second;
 				}
 
 			/*
-- 
2.43.0


From 648412db91b57250b6ecf707370980a902b90390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:39 +0000
Subject: [PATCH 36/50] fix: an empty query ended a batch of anytime queries
 early

---
 anytime/JASS_anytime_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 8b18ae7..3c8f2de 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -447,7 +447,7 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 	std::string query = JASS_anytime_query::get_next_query(query_list, next_query);
 	std::string query_id;
 
-	while (query.size() != 0)
+	while (next_query < query_list.size())			// get_next_query() runs off the end of the list when there are no more queries (a query itself might be empty)
 		{
 		static const std::string seperators_between_id_and_query = " \t:";
 
-- 
2.43.0


From f63745d57a1f9e7e7ec4b2048f6b4b5ecbc83099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:39 +0000
Subject: [PATCH 37/50] fix: a relative postings budget of one query was kept
 for the next, and shared by the threads

---
 anytime/JASS_anytime_api.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 3c8f2de..9d8c642 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -569,8 +569,9 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 		/*
 			Check to see if we've got a rho stopping condition relative to the number of postings in this query.
 		*/
+		size_t postings_limit = postings_to_process;
 		if (relative_postings_to_process != 1)
-			postings_to_process = total_postings_for_query * relative_postings_to_process;
+			postings_limit = total_postings_for_query * relative_postings_to_process;
 
 		/*
 			Process the segments
@@ -587,7 +588,7 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 				The definition of "enough" is that processing the next segment will exceed postings_to_process so we wil be over
 				the "time limit" so we must not do it.
 			*/
-			if (postings_processed + header->segment_frequency > postings_to_process)
+			if (postings_processed + header->segment_frequency > postings_limit)
 				break;
 			postings_processed += header->segment_frequency;
 
-- 
2.43.0


From 73d8b7377ca69bd46c1669b32018e358e29c65c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:39 +0000
Subject: [PATCH 38/50] fix: search threads inserted into the map of
 thread-local data as they started

---
 anytime/JASS_anytime_api.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 9d8c642..bf2478c 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -414,6 +414,9 @@ JASS_ERROR JASS_anytime_api::search(std::vector<JASS_anytime_thread_result> &out
 		/*
 			Multiple threads, so start each worker
 		*/
+		for (size_t which = 0; which < thread_count ; which++)
+			get_thread_local_data(which);
+
 		for (size_t which = 0; which < thread_count ; which++)
 			thread_pool.push_back(JASS::thread(anytime_bootstrap, this, std::ref(output[which]), std::ref(query_list), which));
 
-- 
2.43.0


From 0d96bb8c0dfa16616f3c96ac758e86a19cc4f5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:39 +0000
Subject: [PATCH 39/50] fix: a command line ending in an option that needs a
 string crashed

---
 source/commandline.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/commandline.h b/source/commandline.h
index bfa24de..d49ade1 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -227,6 +227,12 @@ namespace JASS
 			*/
 			static void extract(std::ostringstream &messages, const char *parameter, command<std::string> element)
 				{
+				if (parameter == nullptr)
+					{
+					messages << " Missing string parameter\n";
+					return;
+					}
+
 				element.parameter = parameter;
 				}
 
-- 
2.43.0


From 0fdbcb140be5090fa9cc7b70b90836bd106619bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:39 +0000
Subject: [PATCH 40/50] fix: a missing or malformed number for a real option
 crashed, and negative numbers were refused

---
 source/commandline.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/commandline.h b/source/commandline.h
index d49ade1..c93e53b 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -205,11 +205,17 @@ namespace JASS
 							 std::is_same<TYPE, double>::value>::type* = nullptr>
 			static void extract(std::ostringstream &messages, const char *parameter, command<TYPE> element)
 				{
-				double answer = std::stod(parameter);
+				if (parameter == nullptr)
+					{
+					messages << " Missing numeric parameter\n";
+					return;
+					}
+
+				double answer = strtod(parameter, NULL);
 
 				if (answer > (std::numeric_limits<TYPE>::max)())
 					messages << parameter << " Numeric overflow on parameter\n";
-				else if (answer < (std::numeric_limits<TYPE>::min)())
+				else if (answer < std::numeric_limits<TYPE>::lowest())
 					messages << parameter << " Numeric underflow on parameter\n";
 				else
 					element.parameter = static_cast<TYPE>(answer);
-- 
2.43.0


From a82ba242f26e454bbb78e5c18ef64629ae51a396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:39 +0000
Subject: [PATCH 41/50] fix: an option whose name starts with another option's
 name was taken for that option

---
 source/commandline.h | 48 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/source/commandline.h b/source/commandline.h
index c93e53b..2a08471 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -258,6 +258,50 @@ namespace JASS
 				messages << element.shortname << " (" << element.longname  << ") Unknown parameter type\n";
 				}
 
+			/*
+				COMMANDLINE::LONGEST_MATCH()
+				----------------------------
+			*/
+			/*!
+				@brief C++ terminator for iterating over a tuple, no parameters are left to check.
+				@return 0.
+			*/
+			template<std::size_t I = 0, typename... Tp>
+			inline typename std::enable_if<I == sizeof...(Tp), size_t>::type
+			static longest_match(const char *, const std::tuple<Tp...> &)
+				{
+				return 0;
+				}
+
+			/*
+				COMMANDLINE::LONGEST_MATCH()
+				----------------------------
+			*/
+			/*!
+				@brief Find the length of the longest parameter name (short or long) that the argument starts with.
+				@details One name might be the start of another (e.g. "--rho" and "--rho_min"), in which case the longest is the one the user means.
+				@param argument [in] the argument from the command line.
+				@param tuple [in] the parameters.
+				@return The length of the longest name the argument starts with, or 0 if there isn't one.
+			*/
+			template<std::size_t I = 0, typename... Tp>
+			inline typename std::enable_if<I < sizeof...(Tp), size_t>::type
+			static longest_match(const char *argument, const std::tuple<Tp...> &tuple)
+				{
+				size_t longest = longest_match<I + 1, Tp...>(argument, tuple);
+				const auto &shortname = std::get<I>(tuple).shortname;
+				const auto &longname = std::get<I>(tuple).longname;
+
+				if (shortname.size() == 0 || longname.size() == 0)				// ignore notes
+					return longest;
+				if (shortname.size() > longest && strncmp(argument, shortname.c_str(), shortname.size()) == 0)
+					longest = shortname.size();
+				if (longname.size() > longest && strncmp(argument, longname.c_str(), longname.size()) == 0)
+					longest = longname.size();
+
+				return longest;
+				}
+
 			/*
 				COMMANDLINE::FOR_EACH_PARAMETER()
 				---------------------------------
@@ -306,12 +350,12 @@ namespace JASS
 					if (typeid(std::get<I>(tuple).parameter) != typeid(bool))
 						arg++;
 					}
-				else if (strncmp(argv[arg], std::get<I>(tuple).longname.c_str(), std::get<I>(tuple).longname.size()) == 0)			// looking for "-aav"
+				else if (std::get<I>(tuple).longname.size() == longest_match(argv[arg], tuple) && strncmp(argv[arg], std::get<I>(tuple).longname.c_str(), std::get<I>(tuple).longname.size()) == 0)			// looking for "-aav"
 					{
 					extract(messages, argv[arg] + std::get<I>(tuple).longname.size(), std::get<I>(tuple));
 					arg++;
 					}
-				else if (strncmp(argv[arg], std::get<I>(tuple).shortname.c_str(), std::get<I>(tuple).shortname.size()) == 0)		// looking for "-av"
+				else if (std::get<I>(tuple).shortname.size() == longest_match(argv[arg], tuple) && strncmp(argv[arg], std::get<I>(tuple).shortname.c_str(), std::get<I>(tuple).shortname.size()) == 0)		// looking for "-av"
 					{
 					extract(messages, argv[arg] + std::get<I>(tuple).shortname.size(), std::get<I>(tuple));
 					arg++;
-- 
2.43.0


From 3b815c3a0a3879d0792231cdea80ac058cfa672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:39 +0000
Subject: [PATCH 42/50] fix: reading a CIFF file read a record after the last,
 and went on after an error

---
 tools/ciff_lin.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/tools/ciff_lin.h b/tools/ciff_lin.h
index d2b2f17..3c59137 100644
--- a/tools/ciff_lin.h
+++ b/tools/ciff_lin.h
@@ -466,7 +466,7 @@ namespace JASS
 							/*
 								On error move to the end of the stream and mark the stream as bad
 							*/
-							which = (std::numeric_limits<decltype(which)>::max)();
+							which = source.ciff_header.num_postings_lists;
 							source.status = FAIL;
 							}
 
@@ -577,18 +577,24 @@ namespace JASS
 					*/
 					docrecords_iterator &operator++()
 						{
-						current.clear();
+						which++;
+
+						/*
+							There is nothing to read after the last record
+						*/
+						if (which > static_cast<size_t>(source.ciff_header.num_docs))
+							return *this;
 
+						current.clear();
 						if (doc_record::get_next(current, stream) == FAIL)
 							{
 							/*
 								On error move to the end of the stream and mark the stream as bad
 							*/
-							which = (std::numeric_limits<decltype(which)>::max)();
+							which = static_cast<size_t>(source.ciff_header.num_docs) + 1;
 							source.status = FAIL;
 							}
 
-						which++;
 						return *this;
 						}
 
@@ -749,7 +755,7 @@ namespace JASS
 				stream(source_file),
 				status(OK)
 				{
-				read_header(ciff_header);
+				status = read_header(ciff_header);
 				ciff_header.text_render();
 				}
 
-- 
2.43.0


From 8bd852321d9a0580b954499b1d6cd42ed8873f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:39 +0000
Subject: [PATCH 43/50] fix: ciff_to_JASS wrote to the first posting of an
 empty postings list

---
 tools/ciff_to_JASS.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/ciff_to_JASS.cpp b/tools/ciff_to_JASS.cpp
index e29ccc5..c1accfa 100644
--- a/tools/ciff_to_JASS.cpp
+++ b/tools/ciff_to_JASS.cpp
@@ -188,8 +188,10 @@ int main(int argc, const char *argv[])
 
 		/*
 			CIFF counts from documentID = 0, but JASS indexing counts from documentID = 1,
-			so we increment the first docid (as the others are d-gaps).
+			so we increment the first docid (as the others are d-gaps).  A list without postings has nothing to index.
 		*/
+		if (posting.postings.empty())
+			continue;
 		posting.postings[0].docid++;
 
 		JASS::parser::token term;
-- 
2.43.0


From 82dfe19375e6f5b9ac5bd2d30ca055e2f198e648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:35 +0000
Subject: [PATCH 44/50] fix: the file position after a read is where the read
 ended, even at the end of the file

---
 source/file.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/file.h b/source/file.h
index c477629..e35036f 100755
--- a/source/file.h
+++ b/source/file.h
@@ -268,14 +268,16 @@ namespace JASS
 				flush();
 
 				/*
-					Take note of the new file position (at the end of the read)
+					And now perform the read
 				*/
-				file_position += size;		// this is where we'll be at the end of the read
+				size_t got = ::fread(data, 1, size, fp);
 
 				/*
-					And now perform the read
+					Take note of the new file position (at the end of the read), which is before the end of the request if we hit EOF
 				*/
-				return ::fread(data, 1, size, fp);
+				file_position += got;
+
+				return got;
 				}
 
 			/*
-- 
2.43.0


From 60cbfd9b809c6c255fc3f9791c8301f6ec96e8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:35 +0000
Subject: [PATCH 45/50] fix: an empty file can be written and read in one go

---
 source/file.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/source/file.cpp b/source/file.cpp
index 03477a0..c981707 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -154,10 +154,9 @@ namespace JASS
 #else
 			if (fstat(fileno(fp), &details) == 0)
 #endif
-				if ((file_length = details.st_size) != 0)
 					{
-					into.resize(file_length);
-					if (fread(&into[0], details.st_size, 1, fp) != 1)
+					into.resize(file_length = details.st_size);
+					if (file_length != 0 && fread(&into[0], details.st_size, 1, fp) != 1)
 						into.resize(0);				// LCOV_EXCL_LINE	// happens when reading the file_size buyes failes (i.e. disk or file failure).
 					}
 			fclose(fp);
@@ -180,11 +179,11 @@ namespace JASS
 		if ((fp = fopen(filename.c_str(), "wb")) == nullptr)
 			return false;
 
-		size_t success = fwrite(&buffer[0], buffer.size(), 1, fp);
+		size_t bytes = fwrite(&buffer[0], 1, buffer.size(), fp);
 
 		fclose(fp);
 
-		return success == 1 ? true : false;
+		return bytes == buffer.size() ? true : false;
 		}
 
 	/*
-- 
2.43.0


From a95fe22e8d9e79d9c9689eb629cda6cd67690c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:35 +0000
Subject: [PATCH 46/50] fix: instream_file reports how many bytes it read

---
 source/instream_file.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/instream_file.cpp b/source/instream_file.cpp
index 0b27723..c05aab7 100644
--- a/source/instream_file.cpp
+++ b/source/instream_file.cpp
@@ -62,10 +62,11 @@ namespace JASS
 		document.contents.resize(file_length - bytes_read);
 
 	/*
-		Do the read and note how many bytes we're read.
+		Do the read and note how many bytes we've read.  There might be fewer than we asked for because the length of a stream
+		isn't known until EOF is reached.
 	*/
-	if (disk_file.read(&document.contents[0], document.contents.size()) > 0)
-		bytes_read += document.contents.size();
+	document.contents.resize(disk_file.read(&document.contents[0], document.contents.size()));
+	bytes_read += document.contents.size();
 	}
 	
 	/*
-- 
2.43.0


From 79b7be7125ec74664fe2b5b096c84dc1d05154b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:35 +0000
Subject: [PATCH 47/50] fix: a blank TREC document number is an empty primary
 key

---
 source/instream_document_trec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/instream_document_trec.cpp b/source/instream_document_trec.cpp
index ac36af1..76fe4e6 100644
--- a/source/instream_document_trec.cpp
+++ b/source/instream_document_trec.cpp
@@ -153,7 +153,7 @@ namespace JASS
 			*/
 			while (isspace(*document_id_start) && document_id_start < document_end)			// trim early whitespace
 				document_id_start++;
-			while (isspace(*(document_id_end - 1)) && document_id_end > document_start)				// trip trailing whitespace
+			while (isspace(*(document_id_end - 1)) && document_id_end > document_id_start)				// trip trailing whitespace
 				document_id_end--;
 			}
 
-- 
2.43.0


From b0615e84e32926caeecb835ee5829affa3111369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:35 +0000
Subject: [PATCH 48/50] fix: the last record of a FASTA file is delivered once
 and its key ends with its header

---
 source/instream_document_fasta.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/instream_document_fasta.cpp b/source/instream_document_fasta.cpp
index ff8990f..da0baa1 100644
--- a/source/instream_document_fasta.cpp
+++ b/source/instream_document_fasta.cpp
@@ -111,8 +111,8 @@ namespace JASS
 				document_end--;
 			}
 
-		buffer_used = document_end - buffer;		// skip to end of the document
 		document_end++;		// because the end of line marker matters (believe it or not!).
+		buffer_used = document_end - buffer;		// skip to end of the document
 
 		/*
 			Extract the document's primary key.
@@ -121,7 +121,7 @@ namespace JASS
 		uint8_t *document_id_start = std::find(document_start, document_end, '>');
 		if (document_id_start != document_end)
 			{
-			document_id_end = std::find(document_id_start + 1, document_end, '\n') + 1;
+			document_id_end = std::find(document_id_start + 1, document_end, '\n');
 			/*
 				Trim whitespace from the start and end of the primary key.
 			*/
@@ -135,7 +135,7 @@ namespace JASS
 			Copy the id into the document object and get the document
 		*/
 		object.contents = slice(object.contents_allocator, document_start, document_end);
-		if (document_id_end == document_end)
+		if (document_id_start == document_end)
 			object.primary_key = slice(object.primary_key_allocator, "Unknown");
 		else
 			object.primary_key = slice(object.primary_key_allocator, document_id_start, document_id_end);
-- 
2.43.0


From abc2609cf613b6a5a8815990bc3ba697afa9b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:35 +0000
Subject: [PATCH 49/50] fix: the uniCOIL reader does not read past the end of
 an enlarged buffer

---
 source/instream_document_unicoil_json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/instream_document_unicoil_json.cpp b/source/instream_document_unicoil_json.cpp
index d6f29d3..41241e5 100644
--- a/source/instream_document_unicoil_json.cpp
+++ b/source/instream_document_unicoil_json.cpp
@@ -71,7 +71,7 @@ namespace JASS
 						buffer_end = &buffer[0] + bytes_in_use;
 						doc_start = &buffer[0] + gap;
 
-						bytes_remaining += buffer_size;
+						bytes_remaining = buffer_size - bytes_in_use;
 						}
 
 					size_t bytes = source->fetch((void *)buffer_end, bytes_remaining);
-- 
2.43.0


From e1a0d8b68d9c687caf5a7d24bce4b405a55d9912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:35 +0000
Subject: [PATCH 50/50] fix: a WARC header line that exactly fills the buffer
 does not swallow the next line

---
 source/instream_document_warc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/instream_document_warc.cpp b/source/instream_document_warc.cpp
index c2606d7..97cdf16 100644
--- a/source/instream_document_warc.cpp
+++ b/source/instream_document_warc.cpp
@@ -40,6 +40,7 @@ namespace JASS
 						return nullptr;		// at EOF
 					}
 				while (*into != '\n' && into < end);
+				bool overflow = *into != '\n';		// a line that exactly fits in the buffer is complete
 				*into = '\0';
 
 				/*
@@ -48,7 +49,7 @@ namespace JASS
 					in documents such as clueweb09-en0000-05-10880 which as a 1486 character WARC-Target-URI!  It also won't
 					affect the string comparison because we're only comparing to the start of the string.
 				*/
-				if (into == end)
+				if (overflow)
 					{
 					do
 						if (source->fetch(into, 1) != 1)
-- 
2.43.0

