From ba1e66d51cd34bedc2573bf0a8f8703c9d0bd648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:54 +0000
Subject: [PATCH 01/21] fix: SHA-256 padding buffer was one block short for
 sizes 63 mod 64

---
 Hash/SHA/SHA-2/SHA-256/sha-256.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
index f80b922..a900cd3 100644
--- a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
+++ b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
@@ -48,7 +48,7 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 {
 	int n = 0;
 	// Declare message to hold padded text
-	if ( (size + 1)%64 > 56 )
+	if ( (size)%64 >= 56 )
 	{
 		n = (size/64)*64 + 128;
 	} else {
-- 
2.43.0


From 1b55a0d9c089f45df4a18753f1c999c79a510b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:05 +0000
Subject: [PATCH 02/21] fix: SHA-256 of messages larger than the stack or 2^31
 bytes

---
 Authentication/HMAC-SHA-256/sha-256.cpp | 11 +++++++----
 Hash/SHA/SHA-2/SHA-256/sha-256.cpp      | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/Authentication/HMAC-SHA-256/sha-256.cpp b/Authentication/HMAC-SHA-256/sha-256.cpp
index a900cd3..db51da9 100644
--- a/Authentication/HMAC-SHA-256/sha-256.cpp
+++ b/Authentication/HMAC-SHA-256/sha-256.cpp
@@ -46,7 +46,7 @@ void pad_message(uint8_t *message, uint64_t size)
 
 void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 {
-	int n = 0;
+	uint64_t n = 0;
 	// Declare message to hold padded text
 	if ( (size)%64 >= 56 )
 	{
@@ -54,10 +54,11 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 	} else {
 		n = (size/64)*64 + 64;
 	}
-	uint32_t msg[n/4];
+	// The padded copy may exceed the stack, keep it on the heap
+	uint32_t *msg = new uint32_t[n/4];
 
 	// Compute the number of 512 bit blocks
-	int N = n / 64;
+	uint64_t N = n / 64;
 
 	std::memcpy(msg, message, size);
 	// Pad message to full 512 bit blocks
@@ -79,7 +80,7 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 
 	uint8_t* byte_ptr = (uint8_t*)msg;
 	// Iterate through each 512-bit block
-	for ( int i = 1; i <= N; i++ )
+	for ( uint64_t i = 1; i <= N; i++ )
 	{
 		// Prepare the message schedule
 		for ( int t = 0; t < 64; t++ )
@@ -142,4 +143,6 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 		       	((ss.digest[i] >> 24) & 0x000000ff); u32_digest++;
 	}
 	//std::memcpy(digest, ss.digest, 32);
+
+	delete[] msg;
 }
diff --git a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
index a900cd3..db51da9 100644
--- a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
+++ b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
@@ -46,7 +46,7 @@ void pad_message(uint8_t *message, uint64_t size)
 
 void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 {
-	int n = 0;
+	uint64_t n = 0;
 	// Declare message to hold padded text
 	if ( (size)%64 >= 56 )
 	{
@@ -54,10 +54,11 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 	} else {
 		n = (size/64)*64 + 64;
 	}
-	uint32_t msg[n/4];
+	// The padded copy may exceed the stack, keep it on the heap
+	uint32_t *msg = new uint32_t[n/4];
 
 	// Compute the number of 512 bit blocks
-	int N = n / 64;
+	uint64_t N = n / 64;
 
 	std::memcpy(msg, message, size);
 	// Pad message to full 512 bit blocks
@@ -79,7 +80,7 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 
 	uint8_t* byte_ptr = (uint8_t*)msg;
 	// Iterate through each 512-bit block
-	for ( int i = 1; i <= N; i++ )
+	for ( uint64_t i = 1; i <= N; i++ )
 	{
 		// Prepare the message schedule
 		for ( int t = 0; t < 64; t++ )
@@ -142,4 +143,6 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 		       	((ss.digest[i] >> 24) & 0x000000ff); u32_digest++;
 	}
 	//std::memcpy(digest, ss.digest, 32);
+
+	delete[] msg;
 }
-- 
2.43.0


From eab94205f0a31307e587ba62c5b0d12cd5a0de1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:05 +0000
Subject: [PATCH 03/21] fix: HMAC of an empty message left the tag unwritten

---
 Authentication/HMAC-SHA-256/hmac.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/Authentication/HMAC-SHA-256/hmac.cpp b/Authentication/HMAC-SHA-256/hmac.cpp
index 73e014e..895a45b 100644
--- a/Authentication/HMAC-SHA-256/hmac.cpp
+++ b/Authentication/HMAC-SHA-256/hmac.cpp
@@ -55,9 +55,6 @@ void hmac_load_key(hmac_state *cs, uint8_t *key, int keysize)
 
 void hmac_tag_generation(hmac_state *cs, uint8_t *tag, uint8_t *message, uint64_t dataLength, int tagLength)
 {
-	// Assert that datalength is strictly positive
-	if ( dataLength < 1 ) return;
-
 	// The inner key is used in the first computation along with the message
 	uint8_t *inner_computation = new uint8_t[dataLength+HMAC_KEYLENGTH];
 	std::memcpy(inner_computation, cs->inner_key, HMAC_KEYLENGTH);
-- 
2.43.0


From eeb254637b51259944bfa44801898d501da0a0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:05 +0000
Subject: [PATCH 04/21] fix: MD5Update block loop wrapped for updates close to
 2^32 bytes

---
 Legacy/MD5/md5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Legacy/MD5/md5.cpp b/Legacy/MD5/md5.cpp
index acf7093..c9df553 100644
--- a/Legacy/MD5/md5.cpp
+++ b/Legacy/MD5/md5.cpp
@@ -131,7 +131,7 @@ void MD5Update(MD5_CTX *context, u8 *input, u32 inputLen)
   if (inputLen >= partLen) {
 	MD5_memcpy((u8*)&context->buffer[index], (u8*)input, partLen);
  	MD5Transform (context->state, context->buffer);
-	for (i = partLen; i + 63 < inputLen; i += 64)
+	for (i = partLen; inputLen - i > 63; i += 64)
    		MD5Transform (context->state, &input[i]);
  	index = 0;
   }
-- 
2.43.0


From 4802a697204ff8ec31b187dfb103b0f30c942793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:53 +0000
Subject: [PATCH 05/21] fix: Rabbit counter carry was lost when the sum is
 exactly 2^32

---
 StreamCiphers/Rabbit/rabbit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StreamCiphers/Rabbit/rabbit.h b/StreamCiphers/Rabbit/rabbit.h
index d085d22..512fc2c 100644
--- a/StreamCiphers/Rabbit/rabbit.h
+++ b/StreamCiphers/Rabbit/rabbit.h
@@ -61,7 +61,7 @@ inline void rabbit_counter(rabbit_state *cs)
 	for (int j = 0; j < 8; j++)
 	{
 		temp = (uint64_t)cs->C[j] + (uint64_t)A[j] + (uint64_t)cs->carry;
-		cs->carry = temp > WORDSIZE;
+		cs->carry = temp >= WORDSIZE;
 #ifdef DEBUG
 		std::cout << "Wordsize: " << WORDSIZE << std::endl;
 
-- 
2.43.0


From 73689637225a2b6bf818f56e5eed532e7d8146d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:53 +0000
Subject: [PATCH 06/21] fix: Rabbit IV set-up restores the counter carry of the
 master state

---
 StreamCiphers/Rabbit/rabbit.cpp | 2 ++
 StreamCiphers/Rabbit/rabbit.h   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/StreamCiphers/Rabbit/rabbit.cpp b/StreamCiphers/Rabbit/rabbit.cpp
index 44e9ab3..90acd8e 100644
--- a/StreamCiphers/Rabbit/rabbit.cpp
+++ b/StreamCiphers/Rabbit/rabbit.cpp
@@ -92,6 +92,7 @@ void rabbit_load_key(rabbit_state *cs, uint8_t key[16])
 		cs->MASTER_C[j] = cs->C[j];
 		cs->MASTER_X[j] = cs->X[j];
 	}
+	cs->MASTER_carry = cs->carry;
 #ifdef DEBUG
 	std::cout << "\n\n\nAfter final XOR\n" << std::endl;
 	print_inner_state(cs);
@@ -114,6 +115,7 @@ void rabbit_load_iv(rabbit_state *cs, uint8_t iv[8])
 	cs->X[5] = cs->MASTER_X[5];
 	cs->X[6] = cs->MASTER_X[6];
 	cs->X[7] = cs->MASTER_X[7];
+	cs->carry = cs->MASTER_carry;
 
 	uint16_t *iv_u16 = (uint16_t*)iv; 
 	uint32_t *iv_u32 = (uint32_t*)iv;
diff --git a/StreamCiphers/Rabbit/rabbit.h b/StreamCiphers/Rabbit/rabbit.h
index 512fc2c..e08a5c9 100644
--- a/StreamCiphers/Rabbit/rabbit.h
+++ b/StreamCiphers/Rabbit/rabbit.h
@@ -35,6 +35,7 @@ struct rabbit_state{
 	uint32_t X[8];
 	uint32_t C[8];
 	uint8_t carry;
+	uint8_t MASTER_carry;
 };
 
 inline uint32_t g(uint32_t u, uint32_t v)
-- 
2.43.0


From 252e5230ed8ad4bdfdf0f2a0bd9a46083109cc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:25 +0000
Subject: [PATCH 07/21] fix: HC-128 keystream restarted at step 0 with every
 packet

---
 StreamCiphers/HC-128/hc128.cpp | 6 ++++--
 StreamCiphers/HC-128/hc128.h   | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/StreamCiphers/HC-128/hc128.cpp b/StreamCiphers/HC-128/hc128.cpp
index 53076ce..a6dd97c 100644
--- a/StreamCiphers/HC-128/hc128.cpp
+++ b/StreamCiphers/HC-128/hc128.cpp
@@ -59,13 +59,15 @@ void hc128_initialize(hc128_state *cs, uint8_t key[16], uint8_t iv[16])
 			h2(cs, cs->Q[(i-12)&0x1FF]);
 	}
 
+	cs->step = 0;
 }
 
 void hc128_generate_keystream(hc128_state *cs, uint32_t *keystream, uint64_t size)
 {
-	// Generate keystream
-	for (int i = 0; i <= (size-1)/4; i++)
+	// Generate keystream, continuing at the step the previous packet ended
+	for (uint64_t n = 0; n <= (size-1)/4; n++)
 	{
+		uint32_t i = cs->step++;
 		int j = (i&0x1FF);
 		if ( (i&0x3FF) < 512 )
 		{
diff --git a/StreamCiphers/HC-128/hc128.h b/StreamCiphers/HC-128/hc128.h
index 40e20f7..3bc0a37 100644
--- a/StreamCiphers/HC-128/hc128.h
+++ b/StreamCiphers/HC-128/hc128.h
@@ -37,6 +37,8 @@
 struct hc128_state{
 	uint32_t P[512];
 	uint32_t Q[512];
+	// Steps taken since initialization (P and Q alternate every 512 steps)
+	uint32_t step;
 };
 
 void hc128_initialize(hc128_state *cs, uint8_t key[16], uint8_t iv[16]);
-- 
2.43.0


From 579929d952f2215d202ef44eb1b7492b79cc561b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:25 +0000
Subject: [PATCH 08/21] fix: HC-128 packets larger than the stack

---
 StreamCiphers/HC-128/hc128.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/StreamCiphers/HC-128/hc128.cpp b/StreamCiphers/HC-128/hc128.cpp
index a6dd97c..8f55efc 100644
--- a/StreamCiphers/HC-128/hc128.cpp
+++ b/StreamCiphers/HC-128/hc128.cpp
@@ -94,12 +94,13 @@ void hc128_process_packet(hc128_state *cs, uint8_t *output, uint8_t *input, uint
 	if ( size < 1 ) return;
 		
 
-	uint32_t keystream[(size-1)/4 +1];
+	// The keystream may exceed the stack, keep it on the heap
+	uint32_t *keystream = new uint32_t[(size-1)/4 +1];
 
 	// Generate enough keystream
 	hc128_generate_keystream(cs, keystream, size);
 
-	int counter = 0;
+	uint64_t counter = 0;
 	// Process a full word
 	while ( size > 3 )
 	{
@@ -114,4 +115,5 @@ void hc128_process_packet(hc128_state *cs, uint8_t *output, uint8_t *input, uint
 		// Mix keystream to the final bytes
 		*output = *input ^ *byteptr; byteptr++; output++; input++;
 	}	
+	delete[] keystream;
 }
-- 
2.43.0


From eb9dcf6028e70b76a5516f997175089dc2fb86b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:40 +0000
Subject: [PATCH 09/21] fix: Sosemanuk FSM update used wrong inputs

---
 StreamCiphers/Sosemanuk/sosemanuk.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/StreamCiphers/Sosemanuk/sosemanuk.h b/StreamCiphers/Sosemanuk/sosemanuk.h
index 7bc3b21..32d8883 100644
--- a/StreamCiphers/Sosemanuk/sosemanuk.h
+++ b/StreamCiphers/Sosemanuk/sosemanuk.h
@@ -51,8 +51,9 @@ inline uint32_t Trans(uint32_t R1)
 inline void sosemanuk_fsm_update(sosemanuk_state *cs, uint32_t *f_buf)
 {
 	// Update fsm
-	cs->R1 = cs->R2 + mux(cs->R1, cs->s[1], (cs->s[8] ^ cs->s[9]));
-	cs->R2 = Trans(cs->R1);
+	uint32_t R1_prev = cs->R1;
+	cs->R1 = cs->R2 + mux(R1_prev, cs->s[1], (cs->s[1] ^ cs->s[8]));
+	cs->R2 = Trans(R1_prev);
 	*f_buf = (cs->s[9] + cs->R1) ^ cs->R2;
 	
 }
-- 
2.43.0


From da5d0d64c2d034badd60569e0da2cc90f60f3207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:40 +0000
Subject: [PATCH 10/21] fix: Serpent short-key padding bit was put at the wrong
 end of the byte

---
 BlockCiphers/Serpent/serpent.cpp    | 6 +++---
 StreamCiphers/Sosemanuk/serpent.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/BlockCiphers/Serpent/serpent.cpp b/BlockCiphers/Serpent/serpent.cpp
index 6e14406..e2b19d2 100644
--- a/BlockCiphers/Serpent/serpent.cpp
+++ b/BlockCiphers/Serpent/serpent.cpp
@@ -130,9 +130,9 @@ void serpent_key_schedule(serpent_state *ctx, uint8_t *input_key, int size)
 	if ( size < 32 )
 	{
 				// Appending a 1-bit followed by 0-bits is
-		// similar to appending 0x80 hex:
-		// 0x80  = 1000 0000
-		key[size] = 0x80; size++;
+		// similar to appending 0x01 hex, as Serpent
+		// numbers bits from the least significant one.
+		key[size] = 0x01; size++;
 		for ( ; size < 32; size++)
 		{
 			key[size] = 0x00;
diff --git a/StreamCiphers/Sosemanuk/serpent.cpp b/StreamCiphers/Sosemanuk/serpent.cpp
index 6e14406..e2b19d2 100644
--- a/StreamCiphers/Sosemanuk/serpent.cpp
+++ b/StreamCiphers/Sosemanuk/serpent.cpp
@@ -130,9 +130,9 @@ void serpent_key_schedule(serpent_state *ctx, uint8_t *input_key, int size)
 	if ( size < 32 )
 	{
 				// Appending a 1-bit followed by 0-bits is
-		// similar to appending 0x80 hex:
-		// 0x80  = 1000 0000
-		key[size] = 0x80; size++;
+		// similar to appending 0x01 hex, as Serpent
+		// numbers bits from the least significant one.
+		key[size] = 0x01; size++;
 		for ( ; size < 32; size++)
 		{
 			key[size] = 0x00;
-- 
2.43.0


From 670acd471cf3bf7bf4533a2703a84495fa1d6eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:14 +0000
Subject: [PATCH 11/21] fix: AEGIS loop bounds wrapped for messages shorter
 than a block

---
 StreamCiphers/AEGIS/AEGIS/aegis_128.cpp     | 8 ++++----
 StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp | 8 ++++----
 StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
index 6ab347b..242c047 100644
--- a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp + 15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp + 15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
diff --git a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
index 64b25bb..17d8da0 100644
--- a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp + 15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp + 15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
diff --git a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
index f022ed2..f028cef 100644
--- a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp + 15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp + 15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
-- 
2.43.0


From 4a23df139af25131ee4dde27947c77fbaab9f000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:03 +0000
Subject: [PATCH 12/21] fix: AES-CTR trailing bytes used out-of-range shifts
 instead of the keystream bytes

---
 BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp     | 2 +-
 BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp | 2 +-
 BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
index edb761c..3d010d9 100644
--- a/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
@@ -179,7 +179,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
index 8a14ccb..33e2c0e 100644
--- a/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
@@ -214,7 +214,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
index 2b8292c..7ae1057 100644
--- a/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
@@ -214,7 +214,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
-- 
2.43.0


From b4278b2f3ee662f7a5ae87b2e5294be5de87f6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:03 +0000
Subject: [PATCH 13/21] fix: AES-CFB partial block used the keystream bytes in
 the wrong order

---
 BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp                | 6 +++---
 BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp | 6 +++---
 BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
index 24dd469..c7ae317 100644
--- a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
@@ -287,10 +287,10 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 			// Process individual bytes at this point
 			uint8_t *tmp_ptr = (uint8_t*) w_state_ptr;
 			int prev_size = size;
-			int k = 3;
+			int k = 0;
 			while (size >= 4)
 			{
-				*w_ptr_out = (*w_ptr_in) ^ keystream[k--]; w_ptr_in++; w_ptr_out++;
+				*w_ptr_out = (*w_ptr_in) ^ keystream[k++]; w_ptr_in++; w_ptr_out++;
 				size -= 4;
 			}
 
@@ -301,7 +301,7 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
index cf354cb..1fb118a 100644
--- a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -323,10 +323,10 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 			// Process individual bytes at this point
 			uint8_t *tmp_ptr = (uint8_t*) w_state_ptr;
 			int prev_size = size;
-			int k = 3;
+			int k = 0;
 			while (size >= 4)
 			{
-				*w_ptr_out = (*w_ptr_in) ^ keystream[k--]; w_ptr_in++; w_ptr_out++;
+				*w_ptr_out = (*w_ptr_in) ^ keystream[k++]; w_ptr_in++; w_ptr_out++;
 				size -= 4;
 			}
 
@@ -337,7 +337,7 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
index c401888..9a705fd 100644
--- a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -322,10 +322,10 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 			// Process individual bytes at this point
 			uint8_t *tmp_ptr = (uint8_t*) w_state_ptr;
 			int prev_size = size;
-			int k = 3;
+			int k = 0;
 			while (size >= 4)
 			{
-				*w_ptr_out = (*w_ptr_in) ^ keystream[k--]; w_ptr_in++; w_ptr_out++;
+				*w_ptr_out = (*w_ptr_in) ^ keystream[k++]; w_ptr_in++; w_ptr_out++;
 				size -= 4;
 			}
 
@@ -336,7 +336,7 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
-- 
2.43.0


From 4cf70bb679ad581b7ff2ff95e12f5b8b3f9ce644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:03 +0000
Subject: [PATCH 14/21] fix: AES-CFB feedback register was wrong after a
 partial block

---
 BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp      | 160 ++---------------
 .../AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp    | 161 ++----------------
 .../AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp    | 160 ++---------------
 3 files changed, 45 insertions(+), 436 deletions(-)

diff --git a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
index c7ae317..af54506 100644
--- a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
@@ -5,6 +5,7 @@
 // Petter Solnoer - 31/03/2020   //
 ///////////////////////////////////
 
+#include <cstring>
 #include <iostream>
 #include <fstream>
 #include "aes_cfb.h"
@@ -65,6 +66,10 @@ void aes_cfb_initialize(aes_state *cs, uint8_t key[16], uint8_t iv[16])
 
 void aes_encrypt(aes_state *cs, uint32_t keystream[])
 {
+	// Save the state
+	uint32_t state[4];
+	std::memcpy(state, &(cs->reg1), 16);
+
 	initial_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[0]));
 	#ifndef ROUND_REDUCED
 	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[4]));
@@ -80,6 +85,9 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	final_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[40]));
 	keystream[0] = cs->reg1; keystream[1] = cs->reg2;
 	keystream[2] = cs->reg3; keystream[3] = cs->reg4;
+
+	// Set state
+	std::memcpy(&(cs->reg1), state, 16);
 }
 
 void full_state_update(aes_state *cs, uint32_t *ctxt)
@@ -92,151 +100,13 @@ void full_state_update(aes_state *cs, uint32_t *ctxt)
 
 void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 {
-	if (size % 4 == 0)
-	{
-		if (size == 4)
-		{
-			cs->reg1 = cs->reg2;
-			cs->reg2 = cs->reg3;
-			cs->reg3 = cs->reg4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else if (size == 8)
-		{
-			cs->reg1 = cs->reg3;
-			cs->reg2 = cs->reg4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else
-		{
-			cs->reg1 = cs->reg4;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-	}
-	else if (size % 4 == 1)
-	{
-		if (size == 1)
-		{
-			cs->reg1 = ((cs->reg1 << 8) ^ (cs->reg2 >> 24));
-			cs->reg2 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg3 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg4 = ((cs->reg4 << 8) ^ (*ctxt));
-			size = 0;
-
-		}
-		if (size == 5)
-		{
-			cs->reg1 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg2 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg3 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 9)
-		{
-			cs->reg1 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg2 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 13)
-		{
-			cs->reg1 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else if (size % 4 == 2)
-	{
-		if (size == 2)
-		{
-			cs->reg1 = ((cs->reg1 << 16) ^ (cs->reg2 >> 16));
-			cs->reg2 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg3 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg4 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-
-		}
-		if (size == 6)
-		{
-			cs->reg1 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg2 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg3 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 10)
-		{
-			cs->reg1 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg2 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 14)
-		{
-			cs->reg1 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else
-	{
-		if (size == 3)
-		{
-			cs->reg1 = ((cs->reg1 << 24) ^ (cs->reg2 >> 8));
-			cs->reg2 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg4 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-		}
-		if (size == 7)
-		{
-			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 11)
-		{
-			cs->reg1 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg2 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 15)
-		{
-			cs->reg1 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-
+	// Shift the ciphertext bytes into the register, which
+	// always holds the last 16 bytes of ciphertext.
+	uint8_t reg[16];
+	std::memcpy(reg, &(cs->reg1), 16);
+	std::memmove(reg, reg+size, 16-size);
+	std::memcpy(reg+16-size, ctxt, size);
+	std::memcpy(&(cs->reg1), reg, 16);
 }
 
 void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size, int mode)
diff --git a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
index 1fb118a..d783ba1 100644
--- a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -5,6 +5,7 @@
 // Petter Solnoer - 26/08/2020   //
 ///////////////////////////////////
 
+#include <cstring>
 #include <iostream>
 #include <fstream>
 #include "aes_cfb.h"
@@ -98,8 +99,11 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	B_S = veorq_u8(B_S, B_K10);
 
 	vst1q_u8((uint8_t*)keystream, B_S);
-	vst1q_u8((uint8_t*)&cs->reg1, B_S);
 #else
+	// Save the state
+	uint32_t state[4];
+	std::memcpy(state, &(cs->reg1), 16);
+
 	initial_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[0]));
 	#ifndef ROUND_REDUCED
 	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[4]));
@@ -115,6 +119,9 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	final_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[40]));
 	keystream[0] = cs->reg1; keystream[1] = cs->reg2;
 	keystream[2] = cs->reg3; keystream[3] = cs->reg4;
+
+	// Set state
+	std::memcpy(&(cs->reg1), state, 16);
 #endif
 }
 
@@ -128,151 +135,13 @@ void full_state_update(aes_state *cs, uint32_t *ctxt)
 
 void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 {
-	if (size % 4 == 0)
-	{
-		if (size == 4)
-		{
-			cs->reg1 = cs->reg2;
-			cs->reg2 = cs->reg3;
-			cs->reg3 = cs->reg4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else if (size == 8)
-		{
-			cs->reg1 = cs->reg3;
-			cs->reg2 = cs->reg4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else
-		{
-			cs->reg1 = cs->reg4;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-	}
-	else if (size % 4 == 1)
-	{
-		if (size == 1)
-		{
-			cs->reg1 = ((cs->reg1 << 8) ^ (cs->reg2 >> 24));
-			cs->reg2 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg3 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg4 = ((cs->reg4 << 8) ^ (*ctxt));
-			size = 0;
-
-		}
-		if (size == 5)
-		{
-			cs->reg1 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg2 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg3 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 9)
-		{
-			cs->reg1 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg2 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 13)
-		{
-			cs->reg1 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else if (size % 4 == 2)
-	{
-		if (size == 2)
-		{
-			cs->reg1 = ((cs->reg1 << 16) ^ (cs->reg2 >> 16));
-			cs->reg2 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg3 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg4 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-
-		}
-		if (size == 6)
-		{
-			cs->reg1 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg2 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg3 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 10)
-		{
-			cs->reg1 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg2 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 14)
-		{
-			cs->reg1 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else
-	{
-		if (size == 3)
-		{
-			cs->reg1 = ((cs->reg1 << 24) ^ (cs->reg2 >> 8));
-			cs->reg2 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg4 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-		}
-		if (size == 7)
-		{
-			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 11)
-		{
-			cs->reg1 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg2 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 15)
-		{
-			cs->reg1 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-
+	// Shift the ciphertext bytes into the register, which
+	// always holds the last 16 bytes of ciphertext.
+	uint8_t reg[16];
+	std::memcpy(reg, &(cs->reg1), 16);
+	std::memmove(reg, reg+size, 16-size);
+	std::memcpy(reg+16-size, ctxt, size);
+	std::memcpy(&(cs->reg1), reg, 16);
 }
 
 void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size, int mode)
diff --git a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
index 9a705fd..b409b03 100644
--- a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -5,6 +5,7 @@
 // Petter Solnoer - 26/08/2020   //
 ///////////////////////////////////
 
+#include <cstring>
 #include <iostream>
 #include <fstream>
 #include "aes_cfb.h"
@@ -99,6 +100,10 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	_mm_storeu_si128 ((__m128i*)keystream, B_S);
 
 #else
+	// Save the state
+	uint32_t state[4];
+	std::memcpy(state, &(cs->reg1), 16);
+
 	initial_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[0]));
 	#ifndef ROUND_REDUCED
 	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[4]));
@@ -114,6 +119,9 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	final_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[40]));
 	keystream[0] = cs->reg1; keystream[1] = cs->reg2;
 	keystream[2] = cs->reg3; keystream[3] = cs->reg4;
+
+	// Set state
+	std::memcpy(&(cs->reg1), state, 16);
 #endif
 }
 
@@ -127,151 +135,13 @@ void full_state_update(aes_state *cs, uint32_t *ctxt)
 
 void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 {
-	if (size % 4 == 0)
-	{
-		if (size == 4)
-		{
-			cs->reg1 = cs->reg2;
-			cs->reg2 = cs->reg3;
-			cs->reg3 = cs->reg4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else if (size == 8)
-		{
-			cs->reg1 = cs->reg3;
-			cs->reg2 = cs->reg4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else
-		{
-			cs->reg1 = cs->reg4;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-	}
-	else if (size % 4 == 1)
-	{
-		if (size == 1)
-		{
-			cs->reg1 = ((cs->reg1 << 8) ^ (cs->reg2 >> 24));
-			cs->reg2 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg3 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg4 = ((cs->reg4 << 8) ^ (*ctxt));
-			size = 0;
-
-		}
-		if (size == 5)
-		{
-			cs->reg1 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg2 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg3 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 9)
-		{
-			cs->reg1 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg2 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 13)
-		{
-			cs->reg1 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else if (size % 4 == 2)
-	{
-		if (size == 2)
-		{
-			cs->reg1 = ((cs->reg1 << 16) ^ (cs->reg2 >> 16));
-			cs->reg2 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg3 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg4 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-
-		}
-		if (size == 6)
-		{
-			cs->reg1 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg2 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg3 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 10)
-		{
-			cs->reg1 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg2 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 14)
-		{
-			cs->reg1 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else
-	{
-		if (size == 3)
-		{
-			cs->reg1 = ((cs->reg1 << 24) ^ (cs->reg2 >> 8));
-			cs->reg2 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg4 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-		}
-		if (size == 7)
-		{
-			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 11)
-		{
-			cs->reg1 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg2 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 15)
-		{
-			cs->reg1 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-
+	// Shift the ciphertext bytes into the register, which
+	// always holds the last 16 bytes of ciphertext.
+	uint8_t reg[16];
+	std::memcpy(reg, &(cs->reg1), 16);
+	std::memmove(reg, reg+size, 16-size);
+	std::memcpy(reg+16-size, ctxt, size);
+	std::memcpy(&(cs->reg1), reg, 16);
 }
 
 void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size, int mode)
-- 
2.43.0


From 73676150fa7e0696a113cb520befc34767906a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:21 +0000
Subject: [PATCH 15/21] fix: DES rounds all used the first round key

---
 Legacy/DES/des.cpp | 4 ++--
 Legacy/DES/des.h   | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/Legacy/DES/des.cpp b/Legacy/DES/des.cpp
index 396b597..0af370e 100644
--- a/Legacy/DES/des.cpp
+++ b/Legacy/DES/des.cpp
@@ -94,8 +94,8 @@ void des_ecb_block(des_state *cs, u32 *output, u32 *input)
 
 	for (int i = 0; i < 8; i++)
 	{
-		DES_ROUND(cs, &Y, &X, &T);
-		DES_ROUND(cs, &X, &Y, &T);
+		DES_ROUND(cs->rk + 4*i, &Y, &X, &T);
+		DES_ROUND(cs->rk + 4*i + 2, &X, &Y, &T);
 	}
 
 	DES_FP(&Y, &X, &T);
diff --git a/Legacy/DES/des.h b/Legacy/DES/des.h
index f55826b..0577a7e 100644
--- a/Legacy/DES/des.h
+++ b/Legacy/DES/des.h
@@ -246,9 +246,8 @@ inline void DES_IP(u32 *X, u32 *Y, u32 *T)
 	*X = ((*X << 1) | (*X >> 31)) & 0xffffffff;
 }
 
-inline void DES_ROUND(des_state *cs, u32 *X, u32 *Y, u32 *T)
+inline void DES_ROUND(u32 *rk_ptr, u32 *X, u32 *Y, u32 *T)
 {
-	u32 *rk_ptr = cs->rk;
 	*T = *rk_ptr ^ *X; rk_ptr++;
     	*Y ^= Sbox8[ (*T      ) & 0x3f ] ^
          Sbox6[ (*T >>  8) & 0x3f ] ^
-- 
2.43.0


From 997cda69e6f001a62745f19f7ebc80abd9b0c9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:21 +0000
Subject: [PATCH 16/21] fix: DES-CTR used the same counter block for the whole
 packet

---
 Legacy/DES/des.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Legacy/DES/des.cpp b/Legacy/DES/des.cpp
index 0af370e..6ab9a2d 100644
--- a/Legacy/DES/des.cpp
+++ b/Legacy/DES/des.cpp
@@ -116,10 +116,10 @@ void des_process_packet_ecb(des_state *cs, u32 *output, u32 *input, u64 size)
 void des_process_packet_ctr(des_state *cs, u32 *output, u32 *input, u32 *nonce, u64 size)
 {
 	// We always assume that the size divides the block size.
-	// Furthermore, we use a 96 bit nonce and a 32 bit counter.
-	u32 iv[4];
-	std::memcpy(iv, nonce, 12);
-	iv[3] = 0;
+	// The block is 64 bits, so the counter starts at the first two words
+	// of the nonce and counts up with every block.
+	u32 iv[2];
+	std::memcpy(iv, nonce, 8);
 	while (size > 0)
 	{
 		u32 keystream[2] = {0};
@@ -131,6 +131,7 @@ void des_process_packet_ctr(des_state *cs, u32 *output, u32 *input, u32 *nonce,
 		*output = *input ^ keystream[1];
 		output++; input++;
 
-		iv[3] += 1; size -= 8;
+		iv[1] += 1; if (iv[1] == 0) iv[0] += 1;
+		size -= 8;
 	}
 }
-- 
2.43.0


From 8d59e56914e3e07e7f261b02422aa48ef4a254e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:20:15 +0000
Subject: [PATCH 17/21] fix: labeled HE read uninitialised memory for labels
 shorter than the message size

---
 .../Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp | 6 ++++--
 .../muLabeledHE/mu_labeled_he.cpp                           | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index 7e3ed72..69daaf4 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -1,6 +1,7 @@
 #include "labeled_he.h"
 #include "../../Joye_libert/joye_libert.h"
 
+#include <cstring>
 #include <iostream>
 
 he_ct::he_ct(void)
@@ -55,9 +56,10 @@ void he_encrypt(
 	// Declare array
 	uint8_t keystream[msgsize/8];
 	
-	// Load label into the array
+	// Load label into the array, as a big endian integer
 	size_t size = (mpz_sizeinbase(label, 2) + CHAR_BIT-1)/CHAR_BIT;
-	mpz_export(keystream, &size, 1, 1, 0, 0, label);
+	std::memset(keystream, 0, msgsize/8);
+	mpz_export(keystream + (msgsize/8 - size), &size, 1, 1, 0, 0, label);
 
 	// Encrypt the array
 	hc128_process_packet(hc_cs, keystream, keystream, msgsize/8);
diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
index 1919d2a..eec6fc8 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
@@ -2,6 +2,7 @@
 #include "../joye_libert/joye_libert.h"
 #include "../HC-128/hc128.h"
 
+#include <cstring>
 #include <iostream>
 
 he_ct::he_ct(void)
@@ -63,9 +64,10 @@ void mu_he_encrypt(
 	// Declare array
 	uint8_t keystream[msgsize/8];
 
-	// Load label into the array
+	// Load label into the array, as a big endian integer
         size_t size = (mpz_sizeinbase(label, 2) + CHAR_BIT-1)/CHAR_BIT;
-        mpz_export(keystream, &size, 1, 1, 0, 0, label);
+        std::memset(keystream, 0, msgsize/8);
+        mpz_export(keystream + (msgsize/8 - size), &size, 1, 1, 0, 0, label);
 	
 	// Encrypt the array
 	hc128_process_packet(hc_cs, keystream, keystream, msgsize/8);
-- 
2.43.0


From 8723ee8a3d748845dbc5488c6af14539846d383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:20:15 +0000
Subject: [PATCH 18/21] fix: muLabeledHE include paths did not exist

---
 .../muLabeledHE/mu_labeled_he.cpp                             | 4 ++--
 .../muLabeledHE/mu_labeled_he.h                               | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
index eec6fc8..8887670 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
@@ -1,6 +1,6 @@
 #include "mu_labeled_he.h"
-#include "../joye_libert/joye_libert.h"
-#include "../HC-128/hc128.h"
+#include "../../Joye_libert/joye_libert.h"
+#include "../../../StreamCiphers/HC-128/hc128.h"
 
 #include <cstring>
 #include <iostream>
diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.h b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.h
index af82ded..1fab750 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.h
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.h
@@ -1,7 +1,7 @@
 #ifndef MU_LABELED_HE_H
 #define MU_LABELED_HE_H
 
-#include "../HC-128/hc128.h"
+#include "../../../StreamCiphers/HC-128/hc128.h"
 
 #include <gmp.h>
 
-- 
2.43.0


From 52aa2f680e6602a6dc39c4ed530e3c6afb9f039f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:07 +0000
Subject: [PATCH 19/21] fix: ChaCha packets of 2^31 bytes and more were left
 unprocessed

---
 StreamCiphers/ChaCha/chacha.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/StreamCiphers/ChaCha/chacha.cpp b/StreamCiphers/ChaCha/chacha.cpp
index 2198104..466e1c3 100644
--- a/StreamCiphers/ChaCha/chacha.cpp
+++ b/StreamCiphers/ChaCha/chacha.cpp
@@ -77,24 +77,24 @@ void chacha_block(chacha_state *cs, uint32_t counter, uint32_t *keystream)
 void chacha_process_packet(chacha_state *cs, uint8_t *output, uint8_t *input, uint64_t size)
 {
 	// Generate sufficient keystream;
-	int n_words = std::ceil(double(size)/4);
+	uint64_t n_words = std::ceil(double(size)/4);
 
-	int n_iterations = std::ceil(double(n_words)/16);
+	uint64_t n_iterations = std::ceil(double(n_words)/16);
 
 	uint32_t *keystream = new uint32_t[n_iterations*16];
 
 	uint32_t counter = 1;
 
-	for (int i = 0; i < n_iterations; i++)
+	for (uint64_t i = 0; i < n_iterations; i++)
 	{
 		chacha_block(cs, counter, &(keystream[16*i]));
 		counter++;
 	}
 
-	int n_bytes = size;
+	uint64_t n_bytes = size;
 	uint32_t *w_ptr_in = (uint32_t*) input;
 	uint32_t *w_ptr_out = (uint32_t*) output;
-	int ks_index = 0;
+	uint64_t ks_index = 0;
 	while (n_bytes > 3)
 	{
 		*w_ptr_out = *w_ptr_in ^ keystream[ks_index];
@@ -104,7 +104,7 @@ void chacha_process_packet(chacha_state *cs, uint8_t *output, uint8_t *input, ui
 	input = (uint8_t*) w_ptr_in;
 	output = (uint8_t*) w_ptr_out;
 	uint8_t *byte_ks = (uint8_t*)&keystream[ks_index]; 
-	for (int i = 0; i < n_bytes; i++)
+	for (uint64_t i = 0; i < n_bytes; i++)
 	{
 		*output = *input ^ *byte_ks; byte_ks++;
 		//*output = *input ^ ((keystream[ks_index] >> (24-8*i))&0xff);
-- 
2.43.0


From 24dfd8429657638c59c15719cf9148c024ad2c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:44 +0000
Subject: [PATCH 20/21] fix: Joye-Libert encryption accepted randomisers that
 are not units

---
 AsymmetricCryptography/Joye_libert/joye_libert.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/AsymmetricCryptography/Joye_libert/joye_libert.cpp b/AsymmetricCryptography/Joye_libert/joye_libert.cpp
index 7f082c1..ab5a47a 100644
--- a/AsymmetricCryptography/Joye_libert/joye_libert.cpp
+++ b/AsymmetricCryptography/Joye_libert/joye_libert.cpp
@@ -167,12 +167,14 @@ void joye_libert_encrypt(
 	       	const mpz_t N,
 	       	const uint32_t msgsize)
 {
-	mpz_t x;
+	mpz_t x, gcd;
 	mpz_init_set_ui(x, 0);
+	mpz_init_set_ui(gcd, 0);
 	// Pick a random x in Z_N^*
-	while(!mpz_cmpabs_ui(x, 0))
+	while(mpz_cmp_ui(gcd, 1))
 	{
 		mpz_urandomm(x, state, N);
+		mpz_gcd(gcd, x, N);
 	}
 #ifdef DEBUG
 	gmp_printf("x: %Zd\n", x);
-- 
2.43.0


From b9b2f625f64f54deb3e0577ba902c50d727655e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:28:45 +0000
Subject: [PATCH 21/21] fix: hex_encode's output index overflowed for inputs of
 2^30 bytes and more

---
 Encoders/Hex/encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Encoders/Hex/encoder.cpp b/Encoders/Hex/encoder.cpp
index 8d1c597..4ad9705 100644
--- a/Encoders/Hex/encoder.cpp
+++ b/Encoders/Hex/encoder.cpp
@@ -14,7 +14,7 @@
 void hex_encode(char* output, const uint8_t* input, int size)
 {
 	int loop;
-	int i;
+	int64_t i;
 
 	i = 0;
 	loop = 0;
-- 
2.43.0

