From eb2d8fc3df55469e26b0ca609f56b8262221ca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:47 +0000
Subject: [PATCH 1/8] fix: Bech32 decoder must reject mixed case regardless of
 which case comes first

---
 java/io/nayuki/bitcoin/crypto/Bech32.java | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/java/io/nayuki/bitcoin/crypto/Bech32.java b/java/io/nayuki/bitcoin/crypto/Bech32.java
index 7cd285a..74911ec 100644
--- a/java/io/nayuki/bitcoin/crypto/Bech32.java
+++ b/java/io/nayuki/bitcoin/crypto/Bech32.java
@@ -216,16 +216,18 @@ public final class Bech32 {
 		
 		{  // Normalize to lowercase, rejecting mixed case
 			boolean hasLower = false;
+			boolean hasUpper = false;
 			char[] temp = s.toCharArray();
 			for (int i = 0; i < temp.length; i++) {
 				char c = temp[i];
 				hasLower |= 'a' <= c && c <= 'z';
 				if ('A' <= c && c <= 'Z') {
-					if (hasLower)
-						throw new IllegalArgumentException("String has mixed case");
+					hasUpper = true;
 					temp[i] += 'a' - 'A';
 				}
 			}
+			if (hasLower && hasUpper)
+				throw new IllegalArgumentException("String has mixed case");
 			s = new String(temp);
 		}
 		
-- 
2.43.0


From 0209dc54d23bdca35d9920ecba898a069ea31e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:47 +0000
Subject: [PATCH 2/8] fix: segwit address decoder must reject a superfluous
 zero padding group

---
 java/io/nayuki/bitcoin/crypto/Bech32.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/java/io/nayuki/bitcoin/crypto/Bech32.java b/java/io/nayuki/bitcoin/crypto/Bech32.java
index 74911ec..c591238 100644
--- a/java/io/nayuki/bitcoin/crypto/Bech32.java
+++ b/java/io/nayuki/bitcoin/crypto/Bech32.java
@@ -138,6 +138,8 @@ public final class Bech32 {
 		
 		// Final checks and return
 		assert outputIndex == witProg.length;
+		if (bitBufferLen >= IN_BITS)
+			throw new IllegalArgumentException("Excess padding");
 		if (bitBuffer != 0)
 			throw new IllegalArgumentException("Non-zero padding");
 		return new Object[]{decoded[0], witVer, witProg};
-- 
2.43.0


From 9a58b2faae5da9b0949b5faa538138dfa7b8659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:47 +0000
Subject: [PATCH 3/8] fix: Base58Check decoder must reject data shorter than
 the checksum with IllegalArgumentException

---
 java/io/nayuki/bitcoin/crypto/Base58Check.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/java/io/nayuki/bitcoin/crypto/Base58Check.java b/java/io/nayuki/bitcoin/crypto/Base58Check.java
index 6f3acc8..2ebd0f8 100644
--- a/java/io/nayuki/bitcoin/crypto/Base58Check.java
+++ b/java/io/nayuki/bitcoin/crypto/Base58Check.java
@@ -63,6 +63,8 @@ public final class Base58Check {
 	// The caller is responsible for handling the version byte(s).
 	public static byte[] base58ToBytes(String s) {
 		byte[] concat = base58ToRawBytes(s);
+		if (concat.length < 4)
+			throw new IllegalArgumentException("Data too short for checksum");
 		byte[] data = Arrays.copyOf(concat, concat.length - 4);
 		byte[] hash = Arrays.copyOfRange(concat, concat.length - 4, concat.length);
 		byte[] rehash = Arrays.copyOf(Sha256.getDoubleHash(data).toBytes(), 4);
-- 
2.43.0


From aa4590b022cb250d106cc9a28c8a1e60d038b127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:05 +0000
Subject: [PATCH 4/8] fix: ECDSA signing must reduce a message hash that is not
 less than the curve order

---
 cpp/Ecdsa.cpp                            | 3 ++-
 java/io/nayuki/bitcoin/crypto/Ecdsa.java | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/Ecdsa.cpp b/cpp/Ecdsa.cpp
index 46f8c4a..1da5230 100644
--- a/cpp/Ecdsa.cpp
+++ b/cpp/Ecdsa.cpp
@@ -48,7 +48,8 @@ bool Ecdsa::sign(const Uint256 &privateKey, const Sha256Hash &msgHash, const Uin
 	countOps(1 * curvepointCopyOps);
 	
 	Uint256 s = r;
-	const Uint256 z(msgHash.value);
+	Uint256 z(msgHash.value);
+	z.subtract(order, static_cast<uint32_t>(z >= order));
 	multiplyModOrder(s, privateKey);
 	uint32_t carry = s.add(z);
 	s.subtract(order, carry | static_cast<uint32_t>(s >= order));
diff --git a/java/io/nayuki/bitcoin/crypto/Ecdsa.java b/java/io/nayuki/bitcoin/crypto/Ecdsa.java
index 692e67a..c021c94 100644
--- a/java/io/nayuki/bitcoin/crypto/Ecdsa.java
+++ b/java/io/nayuki/bitcoin/crypto/Ecdsa.java
@@ -72,6 +72,7 @@ public final class Ecdsa {
 		Int256Math.copy(val, rOff, val, sOff);
 		Arrays.fill(val, zOff, zOff + NUM_WORDS, 0);
 		Int256Math.bytesToUint(msgHash.toBytes(), val, zOff);
+		Int256Math.uintSubtract(val, zOff, orderOff, Int256Math.lessThan(val, zOff, orderOff) ^ 1, zOff);
 		multiplyModOrder(val, sOff, privateKey, 0, tempOff);
 		int carry = Int256Math.uintAdd(val, sOff, zOff, 1, sOff);
 		Int256Math.uintSubtract(val, sOff, orderOff, carry | (Int256Math.lessThan(val, sOff, orderOff) ^ 1), sOff);
-- 
2.43.0


From 3f4d68226f807ebba37c67b307d07080dfb7d320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:05 +0000
Subject: [PATCH 5/8] fix: child key derivation must fail instead of wrapping
 the depth from 255 to 0

---
 cpp/ExtendedPrivateKey.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/ExtendedPrivateKey.cpp b/cpp/ExtendedPrivateKey.cpp
index ae0d0b7..c2252ae 100644
--- a/cpp/ExtendedPrivateKey.cpp
+++ b/cpp/ExtendedPrivateKey.cpp
@@ -39,6 +39,9 @@ ExtendedPrivateKey::ExtendedPrivateKey(
 
 
 ExtendedPrivateKey ExtendedPrivateKey::getChildKey(uint32_t index) const {
+	if (depth == UINT8_MAX)  // The child's depth is not representable
+		return ExtendedPrivateKey();
+	
 	uint8_t msg[37];
 	if (index < HARDEN)  // Normal child key
 		publicKey.toCompressedPoint(msg);
-- 
2.43.0


From a7e8594ae069ae5275ccee8a4f0c07bda759da53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 6/8] fix: x86-64 assembly must not require 16-byte aligned
 operands

---
 cpp/AsmX8664.s | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpp/AsmX8664.s b/cpp/AsmX8664.s
index 34a1509..432482d 100644
--- a/cpp/AsmX8664.s
+++ b/cpp/AsmX8664.s
@@ -96,8 +96,10 @@ asm_Uint256_replace:
 	pshufd    $0, %xmm0, %xmm0
 	movdqu     0(%rdi), %xmm1
 	movdqu    16(%rdi), %xmm2
-	pblendvb   0(%rsi), %xmm1
-	pblendvb  16(%rsi), %xmm2
+	movdqu     0(%rsi), %xmm3
+	movdqu    16(%rsi), %xmm4
+	pblendvb  %xmm3, %xmm1
+	pblendvb  %xmm4, %xmm2
 	movdqu    %xmm1,  0(%rdi)
 	movdqu    %xmm2, 16(%rdi)
 	retq
@@ -131,8 +133,10 @@ asm_Uint256_swap:
 asm_Uint256_equalTo:
 	movdqu     0(%rdi), %xmm0
 	movdqu    16(%rdi), %xmm1
-	pcmpeqb    0(%rsi), %xmm0
-	pcmpeqb   16(%rsi), %xmm1
+	movdqu     0(%rsi), %xmm2
+	movdqu    16(%rsi), %xmm3
+	pcmpeqb   %xmm2, %xmm0
+	pcmpeqb   %xmm3, %xmm1
 	pand      %xmm1, %xmm0
 	pmovmskb  %xmm0, %eax
 	cmpl      $0xFFFF, %eax
-- 
2.43.0


From 5f5e2f07b271fc132c99a8409d7274c531e7a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 7/8] fix: HMAC-SHA-512 in Java failed for messages within one
 block of the array length limit

---
 java/io/nayuki/bitcoin/crypto/Sha512.java | 76 +++++++++++++----------
 1 file changed, 44 insertions(+), 32 deletions(-)

diff --git a/java/io/nayuki/bitcoin/crypto/Sha512.java b/java/io/nayuki/bitcoin/crypto/Sha512.java
index d172962..9bddfd4 100644
--- a/java/io/nayuki/bitcoin/crypto/Sha512.java
+++ b/java/io/nayuki/bitcoin/crypto/Sha512.java
@@ -32,34 +32,7 @@ public final class Sha512 {
 	 * @throws NullPointerException if the message is {@code null}
 	 */
 	public static byte[] getHash(byte[] msg) {
-		// Compress whole message blocks
-		Objects.requireNonNull(msg);
-		long[] state = {
-			0x6A09E667F3BCC908L, 0xBB67AE8584CAA73BL, 0x3C6EF372FE94F82BL, 0xA54FF53A5F1D36F1L,
-			0x510E527FADE682D1L, 0x9B05688C2B3E6C1FL, 0x1F83D9ABFB41BD6BL, 0x5BE0CD19137E2179L};
-		int off = msg.length / BLOCK_LEN * BLOCK_LEN;
-		compress(state, msg, off);
-		
-		// Final blocks, padding, and length
-		byte[] block = new byte[BLOCK_LEN];
-		System.arraycopy(msg, off, block, 0, msg.length - off);
-		off = msg.length % block.length;
-		block[off] = (byte)0x80;
-		off++;
-		if (off + 16 > block.length) {
-			compress(state, block, block.length);
-			Arrays.fill(block, (byte)0);
-		}
-		long len = (long)msg.length << 3;
-		for (int i = 0; i < 8; i++)
-			block[block.length - 1 - i] = (byte)(len >>> (i * 8));
-		compress(state, block, block.length);
-		
-		// Int64 array to bytes in big endian
-		byte[] result = new byte[state.length * 8];
-		for (int i = 0; i < result.length; i++)
-			result[i] = (byte)(state[i / 8] >>> ((7 - i % 8) * 8));
-		return result;
+		return getHash(msg, INITIAL_STATE.clone(), 0);
 	}
 	
 	
@@ -82,11 +55,13 @@ public final class Sha512 {
 		if (key.length != BLOCK_LEN)
 			throw new AssertionError();
 		
-		byte[] innerMsg = new byte[BLOCK_LEN + msg.length];
+		// Note: The key block and message are not concatenated, because their total length might exceed the limit of an array
+		byte[] innerKey = new byte[BLOCK_LEN];
 		for (int i = 0; i < key.length; i++)
-			innerMsg[i] = (byte)(key[i] ^ 0x36);
-		System.arraycopy(msg, 0, innerMsg, BLOCK_LEN, msg.length);
-		byte[] innerHash = getHash(innerMsg);
+			innerKey[i] = (byte)(key[i] ^ 0x36);
+		long[] state = INITIAL_STATE.clone();
+		compress(state, innerKey, innerKey.length);
+		byte[] innerHash = getHash(msg, state, innerKey.length);
 		
 		byte[] outerMsg = new byte[BLOCK_LEN + innerHash.length];
 		for (int i = 0; i < key.length; i++)
@@ -99,6 +74,37 @@ public final class Sha512 {
 	
 	/*---- Private functions ----*/
 	
+	// Note: The initState array will be modified.
+	private static byte[] getHash(byte[] msg, long[] initState, int prefixLen) {
+		// Compress whole message blocks
+		Objects.requireNonNull(msg);
+		long[] state = initState;
+		int off = msg.length / BLOCK_LEN * BLOCK_LEN;
+		compress(state, msg, off);
+		
+		// Final blocks, padding, and length
+		byte[] block = new byte[BLOCK_LEN];
+		System.arraycopy(msg, off, block, 0, msg.length - off);
+		off = msg.length % block.length;
+		block[off] = (byte)0x80;
+		off++;
+		if (off + 16 > block.length) {
+			compress(state, block, block.length);
+			Arrays.fill(block, (byte)0);
+		}
+		long len = ((long)msg.length + prefixLen) << 3;
+		for (int i = 0; i < 8; i++)
+			block[block.length - 1 - i] = (byte)(len >>> (i * 8));
+		compress(state, block, block.length);
+		
+		// Int64 array to bytes in big endian
+		byte[] result = new byte[state.length * 8];
+		for (int i = 0; i < result.length; i++)
+			result[i] = (byte)(state[i / 8] >>> ((7 - i % 8) * 8));
+		return result;
+	}
+	
+	
 	private static void compress(long[] state, byte[] blocks, int len) {
 		if (len < 0 || len % BLOCK_LEN != 0)
 			throw new IllegalArgumentException();
@@ -149,6 +155,12 @@ public final class Sha512 {
 	
 	/*---- Class constants ----*/
 	
+	private static final long[] INITIAL_STATE = {
+		0x6A09E667F3BCC908L, 0xBB67AE8584CAA73BL, 0x3C6EF372FE94F82BL, 0xA54FF53A5F1D36F1L,
+		0x510E527FADE682D1L, 0x9B05688C2B3E6C1FL, 0x1F83D9ABFB41BD6BL, 0x5BE0CD19137E2179L,
+	};
+	
+	
 	private static final long[] ROUND_CONSTANTS = {
 		0x428A2F98D728AE22L, 0x7137449123EF65CDL, 0xB5C0FBCFEC4D3B2FL, 0xE9B5DBA58189DBBCL,
 		0x3956C25BF348B538L, 0x59F111F1B605D019L, 0x923F82A4AF194F9BL, 0xAB1C5ED5DA6D8118L,
-- 
2.43.0


From ce30d5e032b81b9f7f3b705fb6f64f2de8bb856f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 8/8] fix: x86-64 add and subtract must ignore the unspecified
 upper half of the enable argument's register

---
 cpp/AsmX8664.s | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/AsmX8664.s b/cpp/AsmX8664.s
index 432482d..68191e7 100644
--- a/cpp/AsmX8664.s
+++ b/cpp/AsmX8664.s
@@ -10,7 +10,8 @@
 /* uint32_t asm_Uint256_add(uint32_t dest[8], const uint32_t src[8], uint32_t enable) */
 .globl asm_Uint256_add
 asm_Uint256_add:
-	negq    %rdx
+	negl    %edx
+	movslq  %edx, %rdx
 	movq     0(%rsi), %rax
 	movq     8(%rsi), %rcx
 	movq    16(%rsi), %r8
@@ -31,7 +32,8 @@ asm_Uint256_add:
 /* uint32_t asm_Uint256_subtract(uint32_t dest[8], const uint32_t src[8], uint32_t enable) */
 .globl asm_Uint256_subtract
 asm_Uint256_subtract:
-	negq    %rdx
+	negl    %edx
+	movslq  %edx, %rdx
 	movq     0(%rsi), %rax
 	movq     8(%rsi), %rcx
 	movq    16(%rsi), %r8
-- 
2.43.0

