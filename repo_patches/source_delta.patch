From f0cdcf0fe561b7a0a798ada69fa52d953341c105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 001/106] fix: bit readers check the end of the stream before
 touching the buffer

---
 asn1crt/asn1crt_encoding.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index e350ec7..1262571 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -229,6 +229,9 @@ void BitStream_AppendBit(BitStream* pBitStrm, flag v)
 
 flag BitStream_ReadBit(BitStream* pBitStrm, flag* v)
 {
+	if (pBitStrm->currentByte >= pBitStrm->count)
+		return FALSE;
+
 	*v = pBitStrm->buf[pBitStrm->currentByte] & masks[pBitStrm->currentBit];
 
 	if (pBitStrm->currentBit<7)
@@ -242,6 +245,8 @@ flag BitStream_ReadBit(BitStream* pBitStrm, flag* v)
 }
 
 flag BitStream_PeekBit(BitStream* pBitStrm) {
+	if (pBitStrm->currentByte >= pBitStrm->count)
+		return FALSE;
 	return pBitStrm->buf[pBitStrm->currentByte] & masks[pBitStrm->currentBit];
 }
 
@@ -497,6 +502,9 @@ flag BitStream_ReadPartialByte(BitStream* pBitStrm, byte *v, byte nbits)
 	int totalBits = cb + nbits;
 	int totalBitsForNextByte;
 
+	if (pBitStrm->currentByte >= pBitStrm->count)
+		return FALSE;
+
 	if (totalBits <= 8) {
 		*v = (byte)((pBitStrm->buf[pBitStrm->currentByte] >> (8 - totalBits)) & masksb[nbits]);
 		pBitStrm->currentBit += nbits;
@@ -510,6 +518,8 @@ flag BitStream_ReadPartialByte(BitStream* pBitStrm, byte *v, byte nbits)
 		totalBitsForNextByte = totalBits - 8;
 		*v = (byte)(pBitStrm->buf[pBitStrm->currentByte++] << totalBitsForNextByte);
 		bitstream_fetch_data_if_required(pBitStrm);
+		if (pBitStrm->currentByte >= pBitStrm->count)
+			return FALSE;
 		*v |= (byte)(pBitStrm->buf[pBitStrm->currentByte] >> (8 - totalBitsForNextByte));
 		*v &= masksb[nbits];
 		pBitStrm->currentBit = totalBitsForNextByte;
-- 
2.43.0


From 03e13aed1178afaf012a13ebf003c8c4cee26be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 002/106] fix: BitStream_AppendByteArray does not touch the
 byte after the array when aligned

---
 asn1crt/asn1crt_encoding.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 1262571..54ec8c4 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -336,8 +336,10 @@ flag BitStream_AppendByteArray(BitStream* pBitStrm, const byte arr[], const int
         pBitStrm->buf[pBitStrm->currentByte++] |= (byte)(v >> cb);  //shift right and then populate current byte
         bitstream_push_data_if_required(pBitStrm);
 
-        pBitStrm->buf[pBitStrm->currentByte] &= nmask;
-        pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << ncb);
+        if (cb) {
+            pBitStrm->buf[pBitStrm->currentByte] &= nmask;
+            pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << ncb);
+        }
     }
 
     for (int i = 1; i < arr_len - 1; i++) {
-- 
2.43.0


From 27e960f7c2acde44111cf029cb9dd82e4eff7e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 003/106] fix: BitStream_ReadByteArray advances with the stream
 and stays inside it when aligned

---
 asn1crt/asn1crt_encoding.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 54ec8c4..45ee555 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -395,7 +395,6 @@ flag BitStream_ReadByte(BitStream* pBitStrm, byte* v)
 flag BitStream_ReadByteArray(BitStream* pBitStrm, byte* arr, int arr_len) {
     int cb = pBitStrm->currentBit;
     int ncb = 8 - cb;
-	byte* rb = &pBitStrm->buf[pBitStrm->currentByte];
 	byte* wb = arr;
 
 #ifndef ASN1SCC_STREAMING
@@ -404,13 +403,12 @@ flag BitStream_ReadByteArray(BitStream* pBitStrm, byte* arr, int arr_len) {
 #endif
 
     for (int i = 0; i < arr_len; i++) {
-		*wb = (byte)((*rb) << cb);
-		rb++;
+		*wb = (byte)(pBitStrm->buf[pBitStrm->currentByte++] << cb);
 		bitstream_fetch_data_if_required(pBitStrm);
-		*wb |= (byte)((*rb) >> ncb);
+		if (cb)
+			*wb |= (byte)(pBitStrm->buf[pBitStrm->currentByte] >> ncb);
 		wb++;
     }
-	pBitStrm->currentByte += arr_len;
     return TRUE;
 }
 
-- 
2.43.0


From 3dab3aa7f5f453477233fe20d61cadd5bee03132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 004/106] fix: an empty null-terminated bit string is found
 when its maximum size is zero

---
 asn1crt/asn1crt_encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 45ee555..15f44e0 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1374,7 +1374,7 @@ int BitStream_checkBitPatternPresent(BitStream* pBitStrm, const byte bit_termina
 flag BitStream_ReadBits_nullterminated(BitStream* pBitStrm, const byte bit_terminated_pattern[], size_t bit_terminated_pattern_size_in_bits, byte* BuffToWrite, int nMaxReadBits, int *bitsRead)
 {
 
-	int checkBitPatternPresentResult = 0;
+	int checkBitPatternPresentResult = 1;
 	*bitsRead = 0;
 	int ret = TRUE;
 	flag bitVal;
-- 
2.43.0


From e2bf06c30d206234617e5d919f21905209282c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 005/106] fix: decoding a message cut inside alignment padding
 fails instead of aborting

---
 asn1crt/asn1crt_encoding_acn.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 4eaf6e9..98e6bab 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -12,8 +12,10 @@ static flag RequiresReverse(void)
 
 void Acn_AlignToNextByte(BitStream* pBitStrm, flag bEncode)
 {
-	CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_BYTE -
+	if (bEncode) {
+		CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_BYTE -
 		pBitStrm->currentBit) & (NO_OF_BITS_IN_BYTE - 1));
+	}
 
 	if (pBitStrm->currentBit != 0)
 	{
@@ -23,15 +25,19 @@ void Acn_AlignToNextByte(BitStream* pBitStrm, flag bEncode)
 			bitstream_push_data_if_required(pBitStrm);
 		else
 			bitstream_fetch_data_if_required(pBitStrm);
-		CHECK_BIT_STREAM(pBitStrm);
+		if (bEncode) {
+			CHECK_BIT_STREAM(pBitStrm);
+		}
 	}
 }
 
 void Acn_AlignToNextWord(BitStream* pBitStrm, flag bEncode)
 {
-	CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_INT16 -
+	if (bEncode) {
+		CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_INT16 -
 		(NO_OF_BITS_IN_BYTE * (pBitStrm->currentByte & (NO_OF_BYTES_IN_INT16 - 1)) + pBitStrm->currentBit))
 		& (NO_OF_BITS_IN_INT16 - 1));
+	}
 
 	Acn_AlignToNextByte(pBitStrm, bEncode);
 	pBitStrm->currentByte = ((pBitStrm->currentByte + (NO_OF_BYTES_IN_INT16 - 1)) / NO_OF_BYTES_IN_INT16) * NO_OF_BYTES_IN_INT16;
@@ -41,14 +47,18 @@ void Acn_AlignToNextWord(BitStream* pBitStrm, flag bEncode)
 	else
 		bitstream_fetch_data_if_required(pBitStrm);
 
-	CHECK_BIT_STREAM(pBitStrm);
+	if (bEncode) {
+		CHECK_BIT_STREAM(pBitStrm);
+	}
 }
 
 void Acn_AlignToNextDWord(BitStream* pBitStrm, flag bEncode)
 {
-	CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_INT32 -
+	if (bEncode) {
+		CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_INT32 -
 		(NO_OF_BITS_IN_BYTE * (pBitStrm->currentByte & (NO_OF_BYTES_IN_INT32 - 1)) + pBitStrm->currentBit))
 		& (NO_OF_BITS_IN_INT32 - 1));
+	}
 
 	Acn_AlignToNextByte(pBitStrm, bEncode);
 	pBitStrm->currentByte = ((pBitStrm->currentByte + (NO_OF_BYTES_IN_INT32 - 1)) / NO_OF_BYTES_IN_INT32) * NO_OF_BYTES_IN_INT32;
@@ -58,7 +68,9 @@ void Acn_AlignToNextDWord(BitStream* pBitStrm, flag bEncode)
 	else
 		bitstream_fetch_data_if_required(pBitStrm);
 
-	CHECK_BIT_STREAM(pBitStrm);
+	if (bEncode) {
+		CHECK_BIT_STREAM(pBitStrm);
+	}
 }
 
 /*ACN Integer functions*/
-- 
2.43.0


From 0ccb39025a80c950a35acb6a077e07bf782172dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 006/106] fix: decoding a REAL handles every binary form and
 refuses malformed ones

---
 asn1crt/asn1crt_encoding.c | 75 ++++++++++++++++++++++----------------
 asn1crt/asn1crt_encoding.h |  2 +-
 2 files changed, 45 insertions(+), 32 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 15f44e0..895f677 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1119,30 +1119,22 @@ void CalculateMantissaAndExponent(asn1Real d, int* exponent, asn1SccUint64* mant
 #endif
 }
 
-asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exponent)
+asn1Real GetDoubleByMantissaAndExp(asn1SccUint64 mantissa, int exponent)
 {
 #ifdef USE_LDEXP
 	return (asn1Real)ldexp((double)mantissa, exponent);
 #else
-	asn1Real ret = 1.0;
-	if (mantissa == 0)
-		return 0.0;
-
-	if (exponent >= 0) {
-		while (exponent) {
-			ret = ret * 2.0;
-			exponent--;
-		}
-		return (asn1Real)mantissa*ret;
+	/* scale step by step, so that neither 2^exponent overflows nor a huge exponent takes long */
+	asn1Real ret = (asn1Real)mantissa;
+	while (exponent > 0 && ret != 0.0 && !isinf(ret)) {
+		ret = ret * 2.0;
+		exponent--;
 	}
-	else {
-		exponent = -exponent;
-		while (exponent) {
-			ret = ret * 2.0;
-			exponent--;
-		}
-		return ((asn1Real)mantissa) / ret;
+	while (exponent < 0 && ret != 0.0) {
+		ret = ret / 2.0;
+		exponent++;
 	}
+	return ret;
 #endif
 }
 
@@ -1244,24 +1236,24 @@ flag BitStream_DecodeReal(BitStream* pBitStrm, asn1Real* v)
 	if (!BitStream_ReadByte(pBitStrm, &header))
 		return FALSE;
 
-	if (header == 0x40)
+	if (length == 1 && header == 0x40)
 	{
 		*v = INFINITY;
 		return TRUE;
 	}
 
-	if (header == 0x41)
+	if (length == 1 && header == 0x41)
 	{
 		*v = -INFINITY;
 		return TRUE;
 	}
 
-	if (header == 0x42) {
+	if (length == 1 && header == 0x42) {
         *v = NAN;
         return TRUE;
     }
 
-	if (header == 0x43) {
+	if (length == 1 && header == 0x43) {
         *v = -0.0;
         return TRUE;
     }
@@ -1275,14 +1267,16 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 	int sign = 1;
 	/*int base=2;*/
 	int F;
-	unsigned factor = 1;
 	int expLen;
-	int exponent;
+	asn1SccSint64 exponent;
 	flag expIsNegative = FALSE;
 	int expFactor = 1;
-	asn1SccUint N = 0;
+	asn1SccUint64 N = 0;
 	int i;
 
+	/* only the binary encoding is supported, and base bits 11 are reserved */
+	if ((header & 0x80) == 0 || (header & 0x30) == 0x30)
+		return FALSE;
 	if (header & 0x40)
 		sign = -1;
 	if (header & 0x10) {
@@ -1295,19 +1289,36 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 	}
 
 	F = (header & 0x0C) >> 2;
-	factor <<= F;
 
 	expLen = (header & 0x03) + 1;
+	if (expLen == 4) {
+		/* the next octet holds the length of the exponent */
+		byte b = 0;
+		if (length < 1 || !BitStream_ReadByte(pBitStrm, &b) || b == 0)
+			return FALSE;
+		expLen = b;
+		length--;
+	}
 
 	if (expLen>length)
 		return FALSE;
-	expIsNegative = BitStream_PeekBit(pBitStrm);
-	exponent = expIsNegative ? 0xFFFFFFFF : 0;
+	exponent = 0;
 	for (i = 0; i<expLen; i++) {
 		byte b = 0;
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
-		exponent = exponent << 8 | b;
+		if (i == 0) {
+			expIsNegative = (b & 0x80) != 0;
+			exponent = expIsNegative ? (asn1SccSint64)b - 0x100 : b;
+		}
+		else {
+			exponent = exponent * 0x100 + b;
+		}
+		/* more than enough to reach zero or infinity from any mantissa */
+		if (exponent > 0x100000)
+			exponent = 0x100000;
+		else if (exponent < -0x100000)
+			exponent = -0x100000;
 	}
 
 	length -= expLen;
@@ -1316,12 +1327,14 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 		byte b = 0;
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
+		if ((N >> 56) != 0)
+			return FALSE; /* the mantissa does not fit in 64 bits */
 		N = N << 8 | b;
 	}
 
 
-	/*  *v = N*factor * pow(base,exp);*/
-	*v = GetDoubleByMantissaAndExp(N*factor, expFactor*exponent);
+	/*  *v = N * 2^F * pow(base,exp);*/
+	*v = GetDoubleByMantissaAndExp(N, (int)(expFactor*exponent + F));
 
 	if (sign<0)
 		*v = -(*v);
diff --git a/asn1crt/asn1crt_encoding.h b/asn1crt/asn1crt_encoding.h
index 2d8c174..abd7aff 100644
--- a/asn1crt/asn1crt_encoding.h
+++ b/asn1crt/asn1crt_encoding.h
@@ -85,7 +85,7 @@ flag BitStream_DecodeConstraintPosWholeNumberUInt32(BitStream* pBitStrm, uint32_
 int GetNumberOfBitsForNonNegativeInteger(asn1SccUint v);
 
 void CalculateMantissaAndExponent(asn1Real d, int* exp, asn1SccUint64* mantissa);
-asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exp);
+asn1Real GetDoubleByMantissaAndExp(asn1SccUint64 mantissa, int exp);
 
 int GetLengthInBytesOfSInt(asn1SccSint v);
 int GetLengthInBytesOfUInt(asn1SccUint64 v);
-- 
2.43.0


From c56daf867df0d931049fa88eb2c5ff471799c488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 007/106] fix: minus zero is encoded as minus zero

---
 asn1crt/asn1crt_encoding.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 895f677..64cc13d 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1155,12 +1155,12 @@ void BitStream_EncodeReal(BitStream* pBitStrm, asn1Real v)
 		return;
 	}
 
-	if (v == 0.0)
+	if (v == 0.0 && !signbit(v))
 	{
 		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0, 0, 0xFF);
 		return;
 	}
-	if (v == -0.0) {
+	if (v == 0.0) {
 		BitStream_EncodeConstraintWholeNumber(pBitStrm, 1, 0, 0xFF);
 		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0x43, 0, 0xFF);
 		return;
-- 
2.43.0


From 3d29445395f7562332721619c5ccfbcee3ca1c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 008/106] fix: subnormal REAL values are encoded with their own
 mantissa

---
 asn1crt/asn1crt_encoding.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 64cc13d..996f336 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1110,13 +1110,22 @@ void CalculateMantissaAndExponent(asn1Real d, int* exponent, asn1SccUint64* mant
 #if FP_WORD_SIZE==8
 	* exponent = (int)(((ll & ExpoBitMask) >> 52) - 1023 - 52);
 	*mantissa = ll & MantBitMask;
-	(*mantissa) |= MantisaExtraBit;
 #else
 	*exponent = (int)(((ll & ExpoBitMask) >> 23) - 127 - 23);
 
 	*mantissa = ll & MantBitMask;
-	(*mantissa) |= MantisaExtraBit;
 #endif
+	if ((ll & ExpoBitMask) != 0) {
+		(*mantissa) |= MantisaExtraBit;
+	}
+	else if (*mantissa != 0) {
+		/* subnormal: there is no implied bit and the exponent is one more than the field says */
+		(*exponent)++;
+		while (((*mantissa) & MantisaExtraBit) == 0) {
+			(*mantissa) <<= 1;
+			(*exponent)--;
+		}
+	}
 }
 
 asn1Real GetDoubleByMantissaAndExp(asn1SccUint64 mantissa, int exponent)
-- 
2.43.0


From bf2a903bf4e1cf9f889f0930a1c6a23078929861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 009/106] fix: a string with a fragmented length may be empty
 and respects its minimum size

---
 asn1crt/asn1crt_encoding.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 996f336..3df70db 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1612,7 +1612,7 @@ flag BitStream_DecodeOctetString_fragmentation(BitStream* pBitStrm, byte* arr, i
 				if (ret) {
 					nLengthTmp1 += (long)nRemainingItemsVar1;
 
-					if ((nLengthTmp1 >= 1) && (nLengthTmp1 <= asn1SizeMax)) {
+					if (nLengthTmp1 <= asn1SizeMax) {
 						*nCount = (int)nLengthTmp1;
 
 					}
@@ -1668,6 +1668,7 @@ flag BitStream_DecodeOctetString(BitStream* pBitStrm, byte* arr, int* nCount, as
 	}
 	else {
 		ret = BitStream_DecodeOctetString_fragmentation(pBitStrm, arr, nCount, asn1SizeMax);
+		ret = ret && (*nCount >= asn1SizeMin);
 	}
 	return ret;
 }
@@ -1800,7 +1801,7 @@ flag BitStream_DecodeBitString(BitStream* pBitStrm, byte* arr, int* pCount, asn1
 					if (ret) {
 						nLengthTmp1 += (long)nRemainingItemsVar1;
 
-						if ((nLengthTmp1 >= 1) && (nLengthTmp1 <= asn1SizeMax)) {
+						if ((nLengthTmp1 >= asn1SizeMin) && (nLengthTmp1 <= asn1SizeMax)) {
 							*pCount = (int)nLengthTmp1;
 						} else {
 							ret = FALSE;  /*COVERAGE_IGNORE*/
-- 
2.43.0


From 02f82c33d8ed02a4589bfd8480de3e41358c7b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 010/106] fix: a truncated octet string is refused

---
 asn1crt/asn1crt_encoding.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 3df70db..dc77336 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1652,7 +1652,7 @@ flag BitStream_EncodeOctetString(BitStream* pBitStrm, const byte* arr, int nCoun
 flag BitStream_DecodeOctetString(BitStream* pBitStrm, byte* arr, int* nCount, asn1SccSint asn1SizeMin, asn1SccSint asn1SizeMax) {
 	flag ret = TRUE;
 	if (asn1SizeMax < 65536) {
-		asn1SccSint nCountL;
+		asn1SccSint nCountL = 0;
 		if (asn1SizeMin < asn1SizeMax) {
 			ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCountL, asn1SizeMin, asn1SizeMax);
 		}
@@ -1663,7 +1663,7 @@ flag BitStream_DecodeOctetString(BitStream* pBitStrm, byte* arr, int* nCount, as
 		*nCount = (int)nCountL;
 		ret = ret && (nCountL >= asn1SizeMin && nCountL <= asn1SizeMax);
 		if (ret) {
-			BitStream_DecodeOctetString_no_length(pBitStrm, arr, *nCount);
+			ret = BitStream_DecodeOctetString_no_length(pBitStrm, arr, *nCount);
 		}
 	}
 	else {
-- 
2.43.0


From 6b3f011ec8cdfdaead9844ca2dea090e767f9406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 011/106] fix: object identifiers below root 2 may have a
 second arc above 39

---
 asn1crt/asn1crt.c               | 6 ++++--
 asn1crt/asn1crt_encoding_uper.c | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/asn1crt/asn1crt.c b/asn1crt/asn1crt.c
index ffab9eb..12a257e 100644
--- a/asn1crt/asn1crt.c
+++ b/asn1crt/asn1crt.c
@@ -116,11 +116,13 @@ void ObjectIdentifier_Init(Asn1ObjectIdentifier *pVal) {
 }
 
 flag ObjectIdentifier_isValid(const Asn1ObjectIdentifier *pVal) {
-	return (pVal->nCount >= 2) && (pVal->values[0] <= 2) && (pVal->values[1] <= 39);
+	/* the second arc is limited to 39 only below the roots 0 and 1 */
+	return (pVal->nCount >= 2) && (pVal->nCount <= OBJECT_IDENTIFIER_MAX_LENGTH) &&
+		(pVal->values[0] <= 2) && (pVal->values[0] == 2 || pVal->values[1] <= 39);
 }
 
 flag RelativeOID_isValid(const Asn1ObjectIdentifier *pVal) {
-	return pVal->nCount > 0;
+	return pVal->nCount > 0 && pVal->nCount <= OBJECT_IDENTIFIER_MAX_LENGTH;
 }
 
 flag ObjectIdentifier_equal(const Asn1ObjectIdentifier *pVal1, const Asn1ObjectIdentifier *pVal2) {
diff --git a/asn1crt/asn1crt_encoding_uper.c b/asn1crt/asn1crt_encoding_uper.c
index e92b5a2..d77cd3c 100644
--- a/asn1crt/asn1crt_encoding_uper.c
+++ b/asn1crt/asn1crt_encoding_uper.c
@@ -127,8 +127,9 @@ flag ObjectIdentifier_uper_decode(BitStream* pBitStrm, Asn1ObjectIdentifier *pVa
 	if (!ObjectIdentifier_subidentifiers_uper_decode(pBitStrm, &totalSize, &si))
 		return FALSE;
 	pVal->nCount = 2;
-	pVal->values[0] = si / 40;
-	pVal->values[1] = si % 40;
+	/* below root 2 the second arc may be larger than 39 */
+	pVal->values[0] = si < 80 ? si / 40 : 2;
+	pVal->values[1] = si - pVal->values[0] * 40;
 	while (totalSize > 0 && pVal->nCount < OBJECT_IDENTIFIER_MAX_LENGTH)
 	{
 		if (!ObjectIdentifier_subidentifiers_uper_decode(pBitStrm, &totalSize, &si))
-- 
2.43.0


From 8f275e8ea1ca45cdeba12a752fae4947b33d237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 012/106] fix: malformed object identifier contents are refused

---
 asn1crt/asn1crt_encoding_uper.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_uper.c b/asn1crt/asn1crt_encoding_uper.c
index d77cd3c..666cc6f 100644
--- a/asn1crt/asn1crt_encoding_uper.c
+++ b/asn1crt/asn1crt_encoding_uper.c
@@ -95,10 +95,14 @@ static flag ObjectIdentifier_subidentifiers_uper_decode(BitStream* pBitStrm, asn
 
 		bLastOctet = ((curByte & 0x80) == 0);
 		curOctetValue = curByte & 0x7F;
+		/* the first octet is never 0x80, and the value must fit in the integer type */
+		if ((*siValue == 0 && curByte == 0x80) || (*siValue >> (sizeof(asn1SccUint) * 8 - 7)) != 0)
+			return FALSE;
 		(*siValue) <<= 7;
 		(*siValue) |= curOctetValue;
 	}
-	return TRUE;
+	/* false if there were no octets, or the last octet of the subidentifier is missing */
+	return bLastOctet;
 }
 
 static flag ObjectIdentifier_uper_decode_length(BitStream* pBitStrm, asn1SccSint* totalSize) {
@@ -157,7 +161,7 @@ flag RelativeOID_uper_decode(BitStream* pBitStrm, Asn1ObjectIdentifier *pVal) {
 		pVal->values[pVal->nCount] = si;
 		pVal->nCount++;
 	}
-	//return true, if totalSize is zero. Otherwise we exit the loop because more components were present than OBJECT_IDENTIFIER_MAX_LENGTH
-	return totalSize == 0;
+	//return true, if there was a component and totalSize is zero. Otherwise we exit the loop because more components were present than OBJECT_IDENTIFIER_MAX_LENGTH
+	return pVal->nCount > 0 && totalSize == 0;
 }
 
-- 
2.43.0


From dd1027c20ce8922f1780c4f9f36741851e345a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 013/106] fix: malformed ASCII integers are refused instead of
 aborting or being accepted

---
 asn1crt/asn1crt_encoding_acn.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 98e6bab..5385e09 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -706,7 +706,8 @@ flag Acn_Dec_UInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int
 	{
 		if (!BitStream_ReadByte(pBitStrm, &digit))
 			return FALSE;
-		ASSERT_OR_RETURN_FALSE(digit >= '0' && digit <= '9');
+		if (digit < '0' || digit > '9')
+			return FALSE;
 		digit = (byte)((int)digit - '0');
 
 		ret *= 10;
@@ -725,6 +726,8 @@ flag Acn_Dec_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint* pIntVal, int
 	asn1SccUint ret = 0;
 	int sign = 1;
 
+	if (encodedSizeInBytes < 1)
+		return FALSE;
 	if (!BitStream_ReadByte(pBitStrm, &digit))
 		return FALSE;
 	if (digit == '+')
@@ -732,7 +735,7 @@ flag Acn_Dec_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint* pIntVal, int
 	else if (digit == '-')
 		sign = -1;
 	else {
-		ASSERT_OR_RETURN_FALSE(0);
+		return FALSE;
 	}
 	encodedSizeInBytes--;
 
@@ -883,6 +886,8 @@ flag Acn_Dec_UInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint*
 		if (!BitStream_ReadByte(pBitStrm, &(tmp[sz - 1])))
 			return FALSE;
 
+		if (digit < '0' || digit > '9')
+			return FALSE;
 		digit = (byte)((int)digit - '0');
 
 		ret *= 10;
@@ -903,7 +908,8 @@ flag Acn_Dec_SInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccSint*
 
 	if (!BitStream_ReadByte(pBitStrm, &digit))
 		return FALSE;
-	ASSERT_OR_RETURN_FALSE(digit == '-' || digit == '+');
+	if (digit != '-' && digit != '+')
+		return FALSE;
 	if (digit == '-')
 		isNegative = TRUE;
 
-- 
2.43.0


From 7cf15a160ef3485b372f47d68dc0f7c168c21907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 014/106] fix: decimal ACN integers that do not fit are refused

---
 asn1crt/asn1crt_encoding_acn.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 5385e09..fbc73d5 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -586,6 +586,8 @@ flag Acn_Dec_Int_BCD_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int en
 	{
 		if (!BitStream_ReadPartialByte(pBitStrm, &digit, 4))
 			return FALSE;
+		if (digit > 9 || ret > ((asn1SccUint)-1 - digit) / 10)
+			return FALSE;
 
 		ret *= 10;
 		ret += digit;
@@ -649,6 +651,8 @@ flag Acn_Dec_Int_BCD_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint* pI
 		if (digit>9)
 			break;
 
+		if (ret > ((asn1SccUint)-1 - digit) / 10)
+			return FALSE;
 		ret *= 10;
 		ret += digit;
 
@@ -710,6 +714,8 @@ flag Acn_Dec_UInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int
 			return FALSE;
 		digit = (byte)((int)digit - '0');
 
+		if (ret > ((asn1SccUint)-1 - digit) / 10)
+			return FALSE;
 		ret *= 10;
 		ret += digit;
 
@@ -744,9 +750,10 @@ flag Acn_Dec_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint* pIntVal, int
 		return false;
 	}
 
-	*pIntVal = (asn1SccSint)ret;
-
-	*pIntVal = sign*(*pIntVal);
+	/* the largest magnitude is one more for negative numbers */
+	if (ret > ((asn1SccUint)-1) / 2 + (sign < 0 ? 1 : 0))
+		return FALSE;
+	*pIntVal = sign < 0 ? (asn1SccSint)(0 - ret) : (asn1SccSint)ret;
 	return TRUE;
 
 }
@@ -890,6 +897,8 @@ flag Acn_Dec_UInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint*
 			return FALSE;
 		digit = (byte)((int)digit - '0');
 
+		if (ret > ((asn1SccUint)-1 - digit) / 10)
+			return FALSE;
 		ret *= 10;
 		ret += digit;
 	}
@@ -916,9 +925,10 @@ flag Acn_Dec_SInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccSint*
 	if (!Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &ret, null_characters, null_characters_size))
 		return false;
 
-	*pIntVal = (asn1SccSint)ret;
-	if (isNegative)
-		*pIntVal = -(*pIntVal);
+	/* the largest magnitude is one more for negative numbers */
+	if (ret > ((asn1SccUint)-1) / 2 + (isNegative ? 1 : 0))
+		return FALSE;
+	*pIntVal = isNegative ? (asn1SccSint)(0 - ret) : (asn1SccSint)ret;
 	return TRUE;
 }
 
-- 
2.43.0


From 691e540ff77d3c0f9598da2d4ca4067805f75bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 015/106] fix: a BCD integer of more than 16 digits with an
 embedded length can be decoded

---
 asn1crt/asn1crt_encoding_acn.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index fbc73d5..2e17814 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -618,8 +618,6 @@ flag Acn_Dec_Int_BCD_VarSize_LengthEmbedded(BitStream* pBitStrm, asn1SccUint* pI
 	byte nNibbles = 0;
 	if (!BitStream_ReadByte(pBitStrm, &nNibbles))
 		return FALSE;
-	if (nNibbles > 2 * WORD_SIZE)
-		return FALSE;
 	return Acn_Dec_Int_BCD_ConstSize(pBitStrm, pIntVal, nNibbles);
 }
 
-- 
2.43.0


From 24cdc5f216dfd7c4c4b281b706ccd4b0d744cd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 016/106] fix: decoding an overlong null-terminated string does
 not write after the target

---
 asn1crt/asn1crt_encoding_acn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 2e17814..45f1fa8 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -1360,7 +1360,7 @@ flag Acn_Dec_String_Ascii_Null_Terminated_mult(BitStream* pBitStrm, asn1SccSint
 	}
 
 	asn1SccSint i = 0;
-	while (i <= max && (memcmp(null_character, tmp, sz) != 0)) {
+	while (i < max && (memcmp(null_character, tmp, sz) != 0)) {
 		strVal[i] = tmp[0];
 		i++;
 		for (int j = 0; j < (int)sz - 1; j++)
-- 
2.43.0


From cedb2d3f136fa4acb9b79755514ced803c1264cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 017/106] fix: an external size determinant outside the size
 constraint is refused

---
 asn1crt/asn1crt_encoding_acn.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 45f1fa8..95701d7 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -1377,7 +1377,9 @@ flag Acn_Dec_String_Ascii_Null_Terminated_mult(BitStream* pBitStrm, asn1SccSint
 
 flag Acn_Dec_String_Ascii_External_Field_Determinant(BitStream* pBitStrm, asn1SccSint max, asn1SccSint extSizeDeterminantFld, char* strVal)
 {
-	return Acn_Dec_String_Ascii_private(pBitStrm, max, extSizeDeterminantFld <= max ? extSizeDeterminantFld : max, strVal);
+	if (extSizeDeterminantFld < 0 || extSizeDeterminantFld > max)
+		return FALSE;
+	return Acn_Dec_String_Ascii_private(pBitStrm, max, extSizeDeterminantFld, strVal);
 }
 
 flag Acn_Dec_String_Ascii_Internal_Field_Determinant(BitStream* pBitStrm, asn1SccSint max, asn1SccSint min, char* strVal)
@@ -1419,7 +1421,9 @@ flag Acn_Dec_String_CharIndex_FixSize(BitStream* pBitStrm, asn1SccSint max, byte
 
 flag Acn_Dec_String_CharIndex_External_Field_Determinant(BitStream* pBitStrm, asn1SccSint max, byte allowedCharSet[], int charSetSize, asn1SccSint extSizeDeterminantFld, char* strVal)
 {
-	return Acn_Dec_String_CharIndex_private(pBitStrm, max, extSizeDeterminantFld <= max ? extSizeDeterminantFld : max, allowedCharSet, charSetSize, strVal);
+	if (extSizeDeterminantFld < 0 || extSizeDeterminantFld > max)
+		return FALSE;
+	return Acn_Dec_String_CharIndex_private(pBitStrm, max, extSizeDeterminantFld, allowedCharSet, charSetSize, strVal);
 }
 
 flag Acn_Dec_String_CharIndex_Internal_Field_Determinant(BitStream* pBitStrm, asn1SccSint max, byte allowedCharSet[], int charSetSize, asn1SccSint min, char* strVal)
@@ -1448,7 +1452,9 @@ flag Acn_Dec_IA5String_CharIndex_External_Field_Determinant(BitStream* pBitStrm,
 		0x64,0x65,0x66,0x67,0x68,0x69,0x6A,0x6B,0x6C,0x6D,
 		0x6E,0x6F,0x70,0x71,0x72,0x73,0x74,0x75,0x76,0x77,
 		0x78,0x79,0x7A,0x7B,0x7C,0x7D,0x7E,0x7F };
-	return Acn_Dec_String_CharIndex_private(pBitStrm, max, extSizeDeterminantFld <= max ? extSizeDeterminantFld : max, allowedCharSet, 128, strVal);
+	if (extSizeDeterminantFld < 0 || extSizeDeterminantFld > max)
+		return FALSE;
+	return Acn_Dec_String_CharIndex_private(pBitStrm, max, extSizeDeterminantFld, allowedCharSet, 128, strVal);
 }
 
 flag Acn_Dec_IA5String_CharIndex_Internal_Field_Determinant(BitStream* pBitStrm, asn1SccSint max, asn1SccSint min, char* strVal)
-- 
2.43.0


From d90a94ba47b34f25a8a373e82888dc03bf2029c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 018/106] fix: an encoded ACN integer too large for the target
 variable is refused

---
 asn1crt/asn1crt_encoding_acn.c | 511 +++++++++++++++++++--------------
 1 file changed, 292 insertions(+), 219 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 95701d7..5cad819 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -1507,585 +1507,658 @@ asn1SccSint milbus_decode(asn1SccSint val)
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pIntVal, int encodedSizeInBits) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
-	*pIntVal = (uint8_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits) && v <= UINT8_MAX;
+	if (ret)
+		*pIntVal = (uint8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt16(BitStream* pBitStrm, uint16_t* pIntVal, int encodedSizeInBits) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
-	*pIntVal = (uint16_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits) && v <= UINT16_MAX;
+	if (ret)
+		*pIntVal = (uint16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt32(BitStream* pBitStrm, uint32_t* pIntVal, int encodedSizeInBits) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
-	*pIntVal = (uint32_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits) && v <= UINT32_MAX;
+	if (ret)
+		*pIntVal = (uint32_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_8UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, &v);
-	*pIntVal = (uint8_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, &v) && v <= UINT8_MAX;
+	if (ret)
+		*pIntVal = (uint8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, &v);
-	*pIntVal = (uint16_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, &v) && v <= UINT16_MAX;
+	if (ret)
+		*pIntVal = (uint16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, &v);
-	*pIntVal = (uint8_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, &v) && v <= UINT8_MAX;
+	if (ret)
+		*pIntVal = (uint8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
-	*pIntVal = (uint32_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v) && v <= UINT32_MAX;
+	if (ret)
+		*pIntVal = (uint32_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
-	*pIntVal = (uint16_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v) && v <= UINT16_MAX;
+	if (ret)
+		*pIntVal = (uint16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
-	*pIntVal = (uint8_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v) && v <= UINT8_MAX;
+	if (ret)
+		*pIntVal = (uint8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
-	*pIntVal = (uint32_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v) && v <= UINT32_MAX;
+	if (ret)
+		*pIntVal = (uint32_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
-	*pIntVal = (uint16_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v) && v <= UINT16_MAX;
+	if (ret)
+		*pIntVal = (uint16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
-	*pIntVal = (uint8_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v) && v <= UINT8_MAX;
+	if (ret)
+		*pIntVal = (uint8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, &v);
-	*pIntVal = (uint16_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, &v) && v <= UINT16_MAX;
+	if (ret)
+		*pIntVal = (uint16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, &v);
-	*pIntVal = (uint8_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, &v) && v <= UINT8_MAX;
+	if (ret)
+		*pIntVal = (uint8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
-	*pIntVal = (uint32_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v) && v <= UINT32_MAX;
+	if (ret)
+		*pIntVal = (uint32_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
-	*pIntVal = (uint16_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v) && v <= UINT16_MAX;
+	if (ret)
+		*pIntVal = (uint16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
-	*pIntVal = (uint8_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v) && v <= UINT8_MAX;
+	if (ret)
+		*pIntVal = (uint8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
-	*pIntVal = (uint32_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v) && v <= UINT32_MAX;
+	if (ret)
+		*pIntVal = (uint32_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
-	*pIntVal = (uint16_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v) && v <= UINT16_MAX;
+	if (ret)
+		*pIntVal = (uint16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
-	*pIntVal = (uint8_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v) && v <= UINT8_MAX;
+	if (ret)
+		*pIntVal = (uint8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
-	*pIntVal = (uint8_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v) && v <= UINT8_MAX;
+	if (ret)
+		*pIntVal = (uint8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
-	*pIntVal = (uint16_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v) && v <= UINT16_MAX;
+	if (ret)
+		*pIntVal = (uint16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
-	*pIntVal = (uint32_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v) && v <= UINT32_MAX;
+	if (ret)
+		*pIntVal = (uint32_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSizeInt8(BitStream* pBitStrm, int8_t* pIntVal, int encodedSizeInBits) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
-	*pIntVal = (int8_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits) && v >= INT8_MIN && v <= INT8_MAX;
+	if (ret)
+		*pIntVal = (int8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSizeInt16(BitStream* pBitStrm, int16_t* pIntVal, int encodedSizeInBits) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
-	*pIntVal = (int16_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits) && v >= INT16_MIN && v <= INT16_MAX;
+	if (ret)
+		*pIntVal = (int16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSizeInt32(BitStream* pBitStrm, int32_t* pIntVal, int encodedSizeInBits) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
-	*pIntVal = (int32_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits) && v >= INT32_MIN && v <= INT32_MAX;
+	if (ret)
+		*pIntVal = (int32_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_8Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_8(pBitStrm, &v);
-	*pIntVal = (int8_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_8(pBitStrm, &v) && v >= INT8_MIN && v <= INT8_MAX;
+	if (ret)
+		*pIntVal = (int8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, &v);
-	*pIntVal = (int16_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, &v) && v >= INT16_MIN && v <= INT16_MAX;
+	if (ret)
+		*pIntVal = (int16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, &v);
-	*pIntVal = (int8_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, &v) && v >= INT8_MIN && v <= INT8_MAX;
+	if (ret)
+		*pIntVal = (int8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
-	*pIntVal = (int32_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v) && v >= INT32_MIN && v <= INT32_MAX;
+	if (ret)
+		*pIntVal = (int32_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
-	*pIntVal = (int16_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v) && v >= INT16_MIN && v <= INT16_MAX;
+	if (ret)
+		*pIntVal = (int16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
-	*pIntVal = (int8_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v) && v >= INT8_MIN && v <= INT8_MAX;
+	if (ret)
+		*pIntVal = (int8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
-	*pIntVal = (int32_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v) && v >= INT32_MIN && v <= INT32_MAX;
+	if (ret)
+		*pIntVal = (int32_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
-	*pIntVal = (int16_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v) && v >= INT16_MIN && v <= INT16_MAX;
+	if (ret)
+		*pIntVal = (int16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
-	*pIntVal = (int8_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v) && v >= INT8_MIN && v <= INT8_MAX;
+	if (ret)
+		*pIntVal = (int8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(pBitStrm, &v);
-	*pIntVal = (int16_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(pBitStrm, &v) && v >= INT16_MIN && v <= INT16_MAX;
+	if (ret)
+		*pIntVal = (int16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(pBitStrm, &v);
-	*pIntVal = (int8_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(pBitStrm, &v) && v >= INT8_MIN && v <= INT8_MAX;
+	if (ret)
+		*pIntVal = (int8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
-	*pIntVal = (int32_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v) && v >= INT32_MIN && v <= INT32_MAX;
+	if (ret)
+		*pIntVal = (int32_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
-	*pIntVal = (int16_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v) && v >= INT16_MIN && v <= INT16_MAX;
+	if (ret)
+		*pIntVal = (int16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
-	*pIntVal = (int8_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v) && v >= INT8_MIN && v <= INT8_MAX;
+	if (ret)
+		*pIntVal = (int8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
-	*pIntVal = (int32_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v) && v >= INT32_MIN && v <= INT32_MAX;
+	if (ret)
+		*pIntVal = (int32_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
-	*pIntVal = (int16_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v) && v >= INT16_MIN && v <= INT16_MAX;
+	if (ret)
+		*pIntVal = (int16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
-	*pIntVal = (int8_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v) && v >= INT8_MIN && v <= INT8_MAX;
+	if (ret)
+		*pIntVal = (int8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
-	*pIntVal = (int8_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v) && v >= INT8_MIN && v <= INT8_MAX;
+	if (ret)
+		*pIntVal = (int8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
-	*pIntVal = (int16_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v) && v >= INT16_MIN && v <= INT16_MAX;
+	if (ret)
+		*pIntVal = (int16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
-	*pIntVal = (int32_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v) && v >= INT32_MIN && v <= INT32_MAX;
+	if (ret)
+		*pIntVal = (int32_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_BCD_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pIntVal, int encodedSizeInNibbles) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
-	*pIntVal = (uint8_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles) && v <= UINT8_MAX;
+	if (ret)
+		*pIntVal = (uint8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_BCD_ConstSizeUInt16(BitStream* pBitStrm, uint16_t* pIntVal, int encodedSizeInNibbles) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
-	*pIntVal = (uint16_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles) && v <= UINT16_MAX;
+	if (ret)
+		*pIntVal = (uint16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_BCD_ConstSizeUInt32(BitStream* pBitStrm, uint32_t* pIntVal, int encodedSizeInNibbles) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
-	*pIntVal = (uint32_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles) && v <= UINT32_MAX;
+	if (ret)
+		*pIntVal = (uint32_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
-	*pIntVal = (uint8_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v) && v <= UINT8_MAX;
+	if (ret)
+		*pIntVal = (uint8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
-	*pIntVal = (uint16_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v) && v <= UINT16_MAX;
+	if (ret)
+		*pIntVal = (uint16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
-	*pIntVal = (uint32_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v) && v <= UINT32_MAX;
+	if (ret)
+		*pIntVal = (uint32_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
-	*pIntVal = (uint8_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v) && v <= UINT8_MAX;
+	if (ret)
+		*pIntVal = (uint8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
-	*pIntVal = (uint16_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v) && v <= UINT16_MAX;
+	if (ret)
+		*pIntVal = (uint16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
-	*pIntVal = (uint32_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v) && v <= UINT32_MAX;
+	if (ret)
+		*pIntVal = (uint32_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_SInt_ASCII_ConstSizeInt8(BitStream* pBitStrm, int8_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
-	*pIntVal = (int8_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes) && v >= INT8_MIN && v <= INT8_MAX;
+	if (ret)
+		*pIntVal = (int8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_SInt_ASCII_ConstSizeInt16(BitStream* pBitStrm, int16_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
-	*pIntVal = (int16_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes) && v >= INT16_MIN && v <= INT16_MAX;
+	if (ret)
+		*pIntVal = (int16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_SInt_ASCII_ConstSizeInt32(BitStream* pBitStrm, int32_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
-	*pIntVal = (int32_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes) && v >= INT32_MIN && v <= INT32_MAX;
+	if (ret)
+		*pIntVal = (int32_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
-	*pIntVal = (int8_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v) && v >= INT8_MIN && v <= INT8_MAX;
+	if (ret)
+		*pIntVal = (int8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
-	*pIntVal = (int16_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v) && v >= INT16_MIN && v <= INT16_MAX;
+	if (ret)
+		*pIntVal = (int16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
-	*pIntVal = (int32_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v) && v >= INT32_MIN && v <= INT32_MAX;
+	if (ret)
+		*pIntVal = (int32_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt8(BitStream* pBitStrm, int8_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
-	*pIntVal = (int8_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size) && v >= INT8_MIN && v <= INT8_MAX;
+	if (ret)
+		*pIntVal = (int8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt16(BitStream* pBitStrm, int16_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
-	*pIntVal = (int16_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size) && v >= INT16_MIN && v <= INT16_MAX;
+	if (ret)
+		*pIntVal = (int16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt32(BitStream* pBitStrm, int32_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccSint v;
-	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
-	*pIntVal = (int32_t)v;
+	asn1SccSint v = 0;
+	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size) && v >= INT32_MIN && v <= INT32_MAX;
+	if (ret)
+		*pIntVal = (int32_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_UInt_ASCII_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
-	*pIntVal = (uint8_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes) && v <= UINT8_MAX;
+	if (ret)
+		*pIntVal = (uint8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_UInt_ASCII_ConstSizeUInt16(BitStream* pBitStrm, uint16_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
-	*pIntVal = (uint16_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes) && v <= UINT16_MAX;
+	if (ret)
+		*pIntVal = (uint16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_UInt_ASCII_ConstSizeUInt32(BitStream* pBitStrm, uint32_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
-	*pIntVal = (uint32_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes) && v <= UINT32_MAX;
+	if (ret)
+		*pIntVal = (uint32_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
-	*pIntVal = (uint8_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v) && v <= UINT8_MAX;
+	if (ret)
+		*pIntVal = (uint8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
-	*pIntVal = (uint16_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v) && v <= UINT16_MAX;
+	if (ret)
+		*pIntVal = (uint16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
-	*pIntVal = (uint32_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v) && v <= UINT32_MAX;
+	if (ret)
+		*pIntVal = (uint32_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt8(BitStream* pBitStrm, uint8_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
-	*pIntVal = (uint8_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size) && v <= UINT8_MAX;
+	if (ret)
+		*pIntVal = (uint8_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt16(BitStream* pBitStrm, uint16_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
-	*pIntVal = (uint16_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size) && v <= UINT16_MAX;
+	if (ret)
+		*pIntVal = (uint16_t)v;
 	return ret;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt32(BitStream* pBitStrm, uint32_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccUint v;
-	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
-	*pIntVal = (uint32_t)v;
+	asn1SccUint v = 0;
+	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size) && v <= UINT32_MAX;
+	if (ret)
+		*pIntVal = (uint32_t)v;
 	return ret;
 }
 
-- 
2.43.0


From b8eab7861cc83451c0bfe5ce191f13a46c4a8397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 019/106] fix: object identifiers are recognised as equivalent
 when a type is referenced

---
 FrontEndAst/TypesEquivalence.fs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FrontEndAst/TypesEquivalence.fs b/FrontEndAst/TypesEquivalence.fs
index 7971302..36e649c 100644
--- a/FrontEndAst/TypesEquivalence.fs
+++ b/FrontEndAst/TypesEquivalence.fs
@@ -11,6 +11,7 @@ let rec uperEquivalence (t1:Asn1Type) (t2:Asn1Type) =
     | OctetString o1, OctetString o2        -> o1.cons = o2.cons
     | NullType _, NullType _                -> true
     | BitString bs1, BitString bs2          -> bs1.cons = bs2.cons
+    | ObjectIdentifier o1, ObjectIdentifier o2 -> o1.cons = o2.cons
     | Boolean _, Boolean _                  -> true
     | Enumerated e1, Enumerated e2          -> e1.items = e2.items &&  e1.cons = e2.cons
     | SequenceOf sqof1, SequenceOf sqof2    -> 
-- 
2.43.0


From a0b7c43b5e4a8b360e9bbfc694ef51854734b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 020/106] fix: the alphabet check of a constrained string
 reference is emitted

---
 BackendAst/DastValidate2.fs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/BackendAst/DastValidate2.fs b/BackendAst/DastValidate2.fs
index c298bf5..b32e4f3 100644
--- a/BackendAst/DastValidate2.fs
+++ b/BackendAst/DastValidate2.fs
@@ -1061,6 +1061,11 @@ let createReferenceTypeFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn
 
     let errorCodeComment = o.refCons |> List.map(fun z -> z.ASN1) |> Seq.StrJoin ""
 
-    createIsValidFunction r l t funBody  typeDefinition [] [] [] [] (Some errorCodeComment) ns
+    let alphaFuncs =
+        match resolvedType.ActualType.Kind with
+        | IA5String _   -> us.alphaFuncs
+        | _             -> []
+
+    createIsValidFunction r l t funBody  typeDefinition alphaFuncs [] [] [] (Some errorCodeComment) ns
 
 
-- 
2.43.0


From a6d35fc2c05b81063b11df9530c58cd9da1ef84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 021/106] fix: no validation function is called for a reference
 to a reference to NULL

---
 BackendAst/DastValidate2.fs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/BackendAst/DastValidate2.fs b/BackendAst/DastValidate2.fs
index b32e4f3..e802a2e 100644
--- a/BackendAst/DastValidate2.fs
+++ b/BackendAst/DastValidate2.fs
@@ -1033,8 +1033,14 @@ let createReferenceTypeFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn
             | false -> moduleName + "." + baseTypeDefinitionName + "_IsConstraintValid"
 
 
+    // NULL has no validation function, no matter how many references lead to it
+    let baseIsValidFunction =
+        match resolvedType.ActualType.Kind with
+        | NullType _    -> None
+        | _             -> resolvedType.isValidFunction
+
     let ns =
-        match resolvedType.isValidFunction with
+        match baseIsValidFunction with
         | Some _    ->
             match t.id.topLevelTas with
             | None -> us
@@ -1048,7 +1054,7 @@ let createReferenceTypeFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn
             convertMultipleVCBsToStatementAndSetErrorCode l p errCode vcbs |>
             List.unzip
 
-        match resolvedType.isValidFunction with
+        match baseIsValidFunction with
         | Some _    ->
             let funcBodyContent = callBaseTypeFunc (l.lg.getParamValue t p.accessPath Encode) baseFncName soTypeCasting
             match (funcBodyContent::with_component_check) |> DAstUtilFunctions.nestItems_ret l  with
-- 
2.43.0


From f7a9a2b59ced348846d381f2b979c99831b94a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:24 +0000
Subject: [PATCH 022/106] fix: quotes and backslashes are escaped in generated
 string and character literals

---
 BackendAst/DAstInitialize.fs     |  2 +-
 BackendAst/DAstVariables.fs      |  2 +-
 BackendAst/DastValidate2.fs      | 10 +++++-----
 FrontEndAst/DAstUtilFunctions.fs | 12 ++++++++++++
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/BackendAst/DAstInitialize.fs b/BackendAst/DAstInitialize.fs
index 9095f0f..5478676 100644
--- a/BackendAst/DAstInitialize.fs
+++ b/BackendAst/DAstInitialize.fs
@@ -341,7 +341,7 @@ let createIA5StringInitFunc (r:Asn1AcnAst.AstRoot)  (lm:LanguageMacros) (t:Asn1A
         |> Array.tryFind(fun x -> x >= 32I && x <= 126I)
     let sFirstNonNullChar =
         match firstPrintableAsciiCode with
-        | Some c  -> sprintf "'%c'" (char (int c))
+        | Some c  -> charLiteral (string (char (int c)))
         | None    -> "'\0'"
     let testCaseFuncs =
         let seqOfCase (nSize:BigInteger)  =
diff --git a/BackendAst/DAstVariables.fs b/BackendAst/DAstVariables.fs
index 3f69700..9ff29bc 100644
--- a/BackendAst/DAstVariables.fs
+++ b/BackendAst/DAstVariables.fs
@@ -42,7 +42,7 @@ let convertStringValue2TargetLangStringLiteral (lm:LanguageMacros) mxSizeUper (v
         parts |>
         List.map(fun s ->
             match s with
-            | CStringValue  sv -> lm.vars.PrintSingleStringValue (sv.Replace("\"","\"\""))
+            | CStringValue  sv -> lm.vars.PrintSingleStringValue (escapeStringLiteral sv)
             | SpecialCharacter  CarriageReturn -> lm.vars.PrintCR ()
             | SpecialCharacter  LineFeed       -> lm.vars.PrintLF ()
             | SpecialCharacter  HorizontalTab  -> lm.vars.PrintHT ()
diff --git a/BackendAst/DastValidate2.fs b/BackendAst/DastValidate2.fs
index e802a2e..0b1a757 100644
--- a/BackendAst/DastValidate2.fs
+++ b/BackendAst/DastValidate2.fs
@@ -208,21 +208,21 @@ let ia5StringConstraint2ValidationCodeBlock  (r:Asn1AcnAst.AstRoot) (lm:Language
     let stringContainsChar    (v:String)  =
         let newStr =
             if v.Length>1 then
-                v.IDQ
+                (escapeStringLiteral v).IDQ
             elif v.Length = 1 then
                 let c = v.ToCharArray()[0]
                 if   c = CommonTypes.CharCR  then lm.vars.PrintCR ()
                 elif c = CommonTypes.CharLF  then lm.vars.PrintLF ()
                 elif c = CommonTypes.CharHT  then lm.vars.PrintHT ()
                 elif c = CommonTypes.CharNul then lm.vars.PrintStringValueNull ()
-                else v.IDQ
+                else (escapeStringLiteral v).IDQ
             else
-                v.IDQ
+                (escapeStringLiteral v).IDQ
         lm.isvalid.stringContainsChar newStr
 
     let alphaFuncName = ToC (((typeId.AcnAbsPath |> Seq.skip 1 |> Seq.StrJoin("-")).Replace("#","elm")) + "_CharsAreValid")
     let foldRangeCharCon (lm:LanguageMacros)   (c:CharTypeConstraint)  st =
-        let valToStrFunc1 v = v.ToString().ISQ
+        let valToStrFunc1 v = charLiteral (v.ToString())
         foldRangeTypeConstraint   (con_or lm) (con_and lm) (con_not lm) (con_except lm) con_root (con_root2 lm)
             (fun _ (v:string)  s  -> (fun p -> VCBExpression (stringContainsChar v (p.accessPath.joined lm.lg))) ,s)
             (fun _ v1 v2  minIsIn maxIsIn s   ->
@@ -233,7 +233,7 @@ let ia5StringConstraint2ValidationCodeBlock  (r:Asn1AcnAst.AstRoot) (lm:Language
             st
 
     foldStringTypeConstraint2 (con_or lm) (con_and lm) (con_not lm) (con_except lm) con_root (con_root2 lm)
-        (fun _ v  s         -> (fun p -> VCBExpression (lm.isvalid.ExpStringEqual (p.accessPath.joined lm.lg) v.IDQ))  ,s)
+        (fun _ v  s         -> (fun p -> VCBExpression (lm.isvalid.ExpStringEqual (p.accessPath.joined lm.lg) (escapeStringLiteral v).IDQ))  ,s)
         (fun _ intCon s     -> foldSizeRangeTypeConstraint r lm (fun l p -> lm.isvalid.StrLen (p.accessPath.joined lm.lg)) intCon s)
         (fun _ alphcon (s:State)      ->
             let alphaBody p =
diff --git a/FrontEndAst/DAstUtilFunctions.fs b/FrontEndAst/DAstUtilFunctions.fs
index de9b6a0..577b8fb 100644
--- a/FrontEndAst/DAstUtilFunctions.fs
+++ b/FrontEndAst/DAstUtilFunctions.fs
@@ -12,6 +12,18 @@ open System.Xml.Serialization
 open System.IO
 //open Newtonsoft.Json
 
+/// the characters between the quotes of a string literal of the target language
+let escapeStringLiteral (s:string) =
+    match ProgrammingLanguage.ActiveLanguages.Head with
+    | Ada   -> s.Replace("\"", "\"\"")
+    | _     -> s.Replace("\\", "\\\\").Replace("\"", "\\\"")
+
+/// a character literal of the target language
+let charLiteral (s:string) =
+    match ProgrammingLanguage.ActiveLanguages.Head with
+    | Ada   -> "'" + s + "'"
+    | _     -> "'" + s.Replace("\\", "\\\\").Replace("'", "\\'") + "'"
+
 let getAccessFromScopeNodeList (ReferenceToType nodes)  (childTypeIsString: bool) (lm:LanguageMacros) (pVal : CodegenScope) =
     let handleNode zeroBasedSequenceOfLevel (pVal : CodegenScope) (n:ScopeNode) (childTypeIsString: bool) =
         match n with
-- 
2.43.0


From b7c6d73bef2320df6c925652b14f36e0c57eb447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 023/106] fix: a doubled quote in an ASN.1 string is one quote
 character

---
 BackendAst/DAstAsn1.fs                    | 6 +++---
 BackendAst/PrintAsn1.fs                   | 2 +-
 CommonTypes/CommonTypes.fs                | 2 +-
 FrontEndAst/CreateAsn1AstFromAntlrTree.fs | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/BackendAst/DAstAsn1.fs b/BackendAst/DAstAsn1.fs
index d292b07..516a96a 100644
--- a/BackendAst/DAstAsn1.fs
+++ b/BackendAst/DAstAsn1.fs
@@ -28,7 +28,7 @@ let rec printAsn1Value (v:Asn1AcnAst.Asn1Value) =
     | Asn1AcnAst.RealValue           v       -> stg_asn1.Print_RealValue v.Value
     | Asn1AcnAst.StringValue(parts,_)          ->
         match parts with
-        | (CStringValue v)::[] ->        stg_asn1.Print_StringValue v
+        | (CStringValue v)::[] ->        stg_asn1.Print_StringValue (v.Replace("\"", "\"\""))
         | _     ->        stg_asn1.Print_SeqOfValue (parts |> List.map(fun p -> p.AsAsn1))
     | Asn1AcnAst.BooleanValue        v       -> stg_asn1.Print_BooleanValue v.Value
     | Asn1AcnAst.BitStringValue      v       -> stg_asn1.Print_BitStringValue v.Value
@@ -107,9 +107,9 @@ let foldStringCon    (c:IA5StringConstraint)  =
         (fun _ e1 e2 s        -> stg_asn1.Print_ExceptConstraint e1 e2, s)
         (fun _ e s            -> stg_asn1.Print_RootConstraint e, s)
         (fun _ e1 e2 s        -> stg_asn1.Print_RootConstraint2 e1 e2, s)
-        (fun _ v  s           -> stg_asn1.Print_SingleValueConstraint (stg_asn1.Print_StringValue v ),s)
+        (fun _ v  s           -> stg_asn1.Print_SingleValueConstraint (stg_asn1.Print_StringValue (v.Replace("\"", "\"\""))),s)
         (fun _ intCon s       -> foldRangeCon  (fun i -> i.ToString()) (fun i -> i.ToString()) intCon , s)
-        (fun _ alphcon s      -> foldRangeCon  (fun i -> "\"" + i.ToString() + "\"") (fun i -> "\"" + i.ToString() + "\"") alphcon,s)
+        (fun _ alphcon s      -> foldRangeCon  (fun i -> (CStringValue (i.ToString())).AsAsn1) (fun i -> (CStringValue (i.ToString())).AsAsn1) alphcon,s)
         c
         0 |> fst
 
diff --git a/BackendAst/PrintAsn1.fs b/BackendAst/PrintAsn1.fs
index 23af3bc..03e15d7 100644
--- a/BackendAst/PrintAsn1.fs
+++ b/BackendAst/PrintAsn1.fs
@@ -24,7 +24,7 @@ let rec PrintAsn1Value (v:Asn1Value) =
     |RealValue(v)            -> stg_asn1.Print_RealValue v.Value
     |StringValue(parts,_)          ->
         match parts with
-        | (CStringValue v)::[] ->        stg_asn1.Print_StringValue v
+        | (CStringValue v)::[] ->        stg_asn1.Print_StringValue (v.Replace("\"", "\"\""))
         | _     ->        stg_asn1.Print_SeqOfValue (parts |> List.map(fun p -> p.AsAsn1))
     |TimeValue v             ->
         stg_asn1.Print_TimeValue (asn1DateTimeValueToString  v.Value)
diff --git a/CommonTypes/CommonTypes.fs b/CommonTypes/CommonTypes.fs
index 10707bf..9c84bb2 100644
--- a/CommonTypes/CommonTypes.fs
+++ b/CommonTypes/CommonTypes.fs
@@ -1094,7 +1094,7 @@ type SingleStringValue =
             | SpecialCharacter NullCharacter -> new String(Char.MinValue, 1)
         member this.AsAsn1 =
             match this with
-            | CStringValue  v -> "\"" + v + "\""
+            | CStringValue  v -> "\"" + v.Replace("\"", "\"\"") + "\""
             | SpecialCharacter CarriageReturn -> "cr"
             | SpecialCharacter LineFeed -> "lf"
             | SpecialCharacter HorizontalTab -> "ht"
diff --git a/FrontEndAst/CreateAsn1AstFromAntlrTree.fs b/FrontEndAst/CreateAsn1AstFromAntlrTree.fs
index ff6095a..8b1bd47 100644
--- a/FrontEndAst/CreateAsn1AstFromAntlrTree.fs
+++ b/FrontEndAst/CreateAsn1AstFromAntlrTree.fs
@@ -178,7 +178,7 @@ let rec CreateValue integerSizeInBytes (astRoot:list<ITree>) (tree:ITree ) : Res
                 | asn1Parser.TRUE                   -> Ok (BooleanValue(tree.GetValueL true))
                 | asn1Parser.FALSE                  -> Ok (BooleanValue(tree.GetValueL false))
                 | asn1Parser.StringLiteral          ->
-                    let text = tree.Text.Substring(1, tree.Text.Length-2)
+                    let text = tree.Text.Substring(1, tree.Text.Length-2).Replace("\"\"", "\"")
                     Ok (StringValue({ StringLoc.Value = text; Location = tree.Location}))
                 | asn1Parser.NULL                   -> Ok NullValue
                 | asn1Parser.BitStringLiteral       -> Ok (BitStringValue(tree.GetValueL(GetActualString(tree.Text))))
-- 
2.43.0


From 1a4be090411be8fdbd90e4e9cd885a9bfb09ca7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 024/106] fix: the index of an enumeration item follows the
 order of the values

---
 BackendAst/DAstUPer.fs            | 2 +-
 FrontEndAst/AcnCreateFromAntlr.fs | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/BackendAst/DAstUPer.fs b/BackendAst/DAstUPer.fs
index 92517dc..f74e857 100644
--- a/BackendAst/DAstUPer.fs
+++ b/BackendAst/DAstUPer.fs
@@ -319,7 +319,7 @@ let createEnumeratedFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:C
         match r.args.isEnumEfficientEnabled o.items.Length with
         | false ->
             let items =
-                o.items |> List.mapi(fun i itm -> Enumerated_item pp (lm.lg.getNamedItemBackendName (Some typeDefinition) itm) (BigInteger i) nLastItemIndex codec)
+                o.items |> List.sortBy(fun itm -> itm.definitionValue) |> List.mapi(fun i itm -> Enumerated_item pp (lm.lg.getNamedItemBackendName (Some typeDefinition) itm) (BigInteger i) nLastItemIndex codec)
             let nBits = (GetNumberOfBitsForNonNegativeInteger (nMax-nMin))
             let funcBodyContent = Enumerated pp td items nMin nMax nBits errCode.errCodeName nLastItemIndex sFirstItemName codec
             {UPERFuncBodyResult.funcBody = funcBodyContent; errCodes = [errCode]; localVariables = []; bValIsUnReferenced=false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries = []}
diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index e3a3ba7..ff5b6b4 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -724,8 +724,10 @@ let private mergeEnumerated (asn1: Asn1Ast.AstRoot) (lms:(ProgrammingLanguage*La
         let newItems = allocateItems unallocated allocated 0I |> List.sortBy(fun ni -> namedItems |> Seq.findIndex(fun x -> x.Name.Value = ni.Name.Value) )
         newItems
 
-    let mapItem (i:int) (itm:Asn1Ast.NamedItem) =
+    let mapItem (allItems:Asn1Ast.NamedItem list) (itm:Asn1Ast.NamedItem) =
         let definitionValue = Asn1Ast.GetValueAsInt itm._value.Value asn1
+        // the enumeration index follows the order of the values, not the order of definition (X.691 14.1)
+        let i = allItems |> List.filter(fun x -> Asn1Ast.GetValueAsInt x._value.Value asn1 < definitionValue) |> List.length
         let c_name, s_name, a_name =
             match asn1.args.renamePolicy with
             | AlwaysPrefixTypeName      ->
@@ -771,7 +773,7 @@ let private mergeEnumerated (asn1: Asn1Ast.AstRoot) (lms:(ProgrammingLanguage*La
         | false -> allocatedValuesToAllEnumItems items, false
         | true -> allocatedValuesToAllEnumItems items, true
     let uperSizeInBits = GetNumberOfBitsForNonNegativeInteger(BigInteger((Seq.length items) - 1))
-    let items = items0|> List.mapi mapItem
+    let items = items0|> List.map (mapItem items0)
 
     let acnProperties =
         match acnErrLoc with
-- 
2.43.0


From 7a60e63cb11f2a25ef77531eb66e14c55ffec761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 025/106] fix: IA5String alphabets of more than 64 characters
 are encoded by code, not by index

---
 BackendAst/Acn/AcnStrings.fs | 2 +-
 BackendAst/DAstUPer.fs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BackendAst/Acn/AcnStrings.fs b/BackendAst/Acn/AcnStrings.fs
index 152d90c..cbcbf18 100644
--- a/BackendAst/Acn/AcnStrings.fs
+++ b/BackendAst/Acn/AcnStrings.fs
@@ -100,7 +100,7 @@ let createAcnStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedF
         let pp, resultExpr = joinedOrAsIdentifier lm codec p
         let nBits = GetNumberOfBitsForNonNegativeInteger (BigInteger (o.uperCharSet.Length-1))
         let internalItem =
-            match o.uperCharSet.Length = 128 with
+            match o.uperCharSet.Length > 64 with
             | true  -> InternalItem_string_no_alpha pp errCode.errCodeName i codec
             | false ->
                 let nBits = GetNumberOfBitsForNonNegativeInteger (BigInteger (o.uperCharSet.Length-1))
diff --git a/BackendAst/DAstUPer.fs b/BackendAst/DAstUPer.fs
index f74e857..72f1e89 100644
--- a/BackendAst/DAstUPer.fs
+++ b/BackendAst/DAstUPer.fs
@@ -449,7 +449,7 @@ let createIA5StringFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:Co
 
         let nBits = GetNumberOfBitsForNonNegativeInteger (BigInteger (o.uperCharSet.Length-1))
         let internalItem =
-            match o.uperCharSet.Length = 128 with
+            match o.uperCharSet.Length > 64 with
             | true  -> InternalItem_string_no_alpha (p.accessPath.joined lm.lg) errCode.errCodeName i codec
             | false ->
                 let nBits = GetNumberOfBitsForNonNegativeInteger (BigInteger (o.uperCharSet.Length-1))
-- 
2.43.0


From 5cea08cdc164651cebe483ca9dccb0fd597616fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:04 +0000
Subject: [PATCH 026/106] fix: a fixed size of a multiple of 16K ends with an
 empty fragment

---
 BackendAst/DAstUPer.fs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/BackendAst/DAstUPer.fs b/BackendAst/DAstUPer.fs
index 72f1e89..d5fef09 100644
--- a/BackendAst/DAstUPer.fs
+++ b/BackendAst/DAstUPer.fs
@@ -386,11 +386,9 @@ let handleFixedSizeFragmentation (lm:LanguageMacros) (p:CodegenScope) (codec:Com
 
     let bRemainingItemsWithinByte = r.nRemainingItemsVar <= C_127
     let parts=
-        match r.nRemainingItemsVar > 0I with
-        | true  ->
-            let part = fixedSize_Fragmentation_sqf_remaining (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) internalItem_funcBody bRemainingItemsWithinByte r.nRemainingItemsVar sCurOffset sBLI sRemainingItemsVar bIsBitStringType errCode.errCodeName codec
-            parts@[part]
-        | false -> parts
+        // the last fragment is below 16K; it is present even when it is empty (X.691 11.9.3.8.3)
+        let part = fixedSize_Fragmentation_sqf_remaining (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) internalItem_funcBody bRemainingItemsWithinByte r.nRemainingItemsVar sCurOffset sBLI sRemainingItemsVar bIsBitStringType errCode.errCodeName codec
+        parts@[part]
 
     let createLv = lm.lg.uper.createLv
 
-- 
2.43.0


From 82862dc4c2afffb4063828ac8b51272130f715cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 027/106] fix: with -eee the codecs of a constrained
 enumeration use all its enumerators

The array shared with the validity check holds only the values that satisfy the
constraint, while the codecs index it with the position among all enumerators.
---
 StgC/header_c.stg | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/StgC/header_c.stg b/StgC/header_c.stg
index f47abff..41774aa 100644
--- a/StgC/header_c.stg
+++ b/StgC/header_c.stg
@@ -147,7 +147,9 @@ static const asn1SccSint <td.values_array>[] = {
 
 #define <td.values_array_count> <arrsValidEnumNames.Length>
 
-#define <td.encoded_values_array> <td.values_array>
+static const asn1SccSint <td.encoded_values_array>[] = {
+    <arrsEnumNames:{it|<it>}; wrap, anchor, separator=",">
+};
 
 #define <td.encoded_values_array_count> <arrsEnumNames.Length>
 >>
-- 
2.43.0


From c4b7de89679b77fa648e2d4e3af1d4c071910120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 028/106] fix: a length, item or size determinant that cannot
 be decoded is reported

Several decoders lost the failure: the result of reading the length of an OCTET STRING
was overwritten by reading its contents, the items of fixed-size fragments kept being read
after one failed, a little-endian 32-bit REAL ignored the result, and others failed
without setting an error code.
---
 BackendAst/Acn/AcnOctetBitStrings.fs |  2 +-
 BackendAst/Acn/AcnStrings.fs         |  2 +-
 BackendAst/DAstUPer.fs               |  4 ++--
 CommonTypes/AbstractMacros.fs        |  4 ++--
 StgAda/uper_a.stg                    |  8 ++++----
 StgC/acn_c.stg                       | 11 ++++++++++-
 StgC/uper_c.stg                      | 23 +++++++++++++++--------
 StgScala/uper_scala.stg              |  8 ++++----
 8 files changed, 39 insertions(+), 23 deletions(-)

diff --git a/BackendAst/Acn/AcnOctetBitStrings.fs b/BackendAst/Acn/AcnOctetBitStrings.fs
index b6c9502..8788e08 100644
--- a/BackendAst/Acn/AcnOctetBitStrings.fs
+++ b/BackendAst/Acn/AcnOctetBitStrings.fs
@@ -31,7 +31,7 @@ let createOctetStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInserte
         let funcBodyContent =
             match o.acnEncodingClass with
             | SZ_EC_FIXED_SIZE ->
-                let fncBody = fixedSize td pp access o.minSize.acn codec
+                let fncBody = fixedSize td pp access o.minSize.acn errCode.errCodeName codec
                 Some(fncBody, [errCode],[])
 
             | SZ_EC_LENGTH_EMBEDDED lenSize ->
diff --git a/BackendAst/Acn/AcnStrings.fs b/BackendAst/Acn/AcnStrings.fs
index cbcbf18..499ff36 100644
--- a/BackendAst/Acn/AcnStrings.fs
+++ b/BackendAst/Acn/AcnStrings.fs
@@ -129,7 +129,7 @@ let createAcnStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedF
             | _ when o.maxSize.uper < 65536I && o.maxSize.uper=o.minSize.uper  ->
                 str_FixedSize pp typeDefinitionName i internalItem o.minSize.uper nBits nBits 0I initExpr introSnap callAux codec, charIndex@nStringLength
             | _ when o.maxSize.uper < 65536I && o.maxSize.uper<>o.minSize.uper  ->
-                str_VarSize pp (p.accessPath.joined lm.lg) typeDefinitionName i internalItem o.minSize.uper o.maxSize.uper nSizeInBits nBits nBits 0I initExpr callAux codec, charIndex@nStringLength
+                str_VarSize pp (p.accessPath.joined lm.lg) typeDefinitionName i internalItem o.minSize.uper o.maxSize.uper nSizeInBits nBits nBits 0I initExpr callAux errCode.errCodeName codec, charIndex@nStringLength
             | _                                                ->
                 let funcBodyContent,localVariables = DAstUPer.handleFragmentation lm p codec errCode ii o.uperMaxSizeInBits o.minSize.uper o.maxSize.uper internalItem nBits false true
                 funcBodyContent,charIndex@localVariables
diff --git a/BackendAst/DAstUPer.fs b/BackendAst/DAstUPer.fs
index d5fef09..60b0847 100644
--- a/BackendAst/DAstUPer.fs
+++ b/BackendAst/DAstUPer.fs
@@ -482,7 +482,7 @@ let createIA5StringFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:Co
             | _ when o.maxSize.uper < 65536I && o.maxSize.uper=o.minSize.uper ->
                 str_FixedSize pp typeDefinitionName i internalItem o.minSize.uper nBits nBits 0I initExpr introSnap callAux codec, lv::charIndex@nStringLength
             | _ when o.maxSize.uper < 65536I && o.maxSize.uper<>o.minSize.uper ->
-                str_VarSize pp (p.accessPath.joined lm.lg) typeDefinitionName i internalItem o.minSize.uper o.maxSize.uper nSizeInBits nBits nBits 0I initExpr callAux codec, lv::charIndex@nStringLength
+                str_VarSize pp (p.accessPath.joined lm.lg) typeDefinitionName i internalItem o.minSize.uper o.maxSize.uper nSizeInBits nBits nBits 0I initExpr callAux errCode.errCodeName codec, lv::charIndex@nStringLength
             | _ ->
                 let funcBodyContent,localVariables = handleFragmentation lm p codec errCode ii o.uperMaxSizeInBits o.minSize.uper o.maxSize.uper internalItem nBits false true
                 let localVariables = localVariables |> List.addIf (lm.lg.uper.requires_IA5String_i || o.maxSize.uper<>o.minSize.uper) lv
@@ -518,7 +518,7 @@ let createOctetStringFunction_funcBody (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros
             | false, Decode -> [lm.lg.uper.count_var]
 
         match minSize with
-        | _ when maxSize < 65536I && isFixedSize -> fixedSize td pp access minSize codec, (if false then lv::nStringLength else nStringLength)
+        | _ when maxSize < 65536I && isFixedSize -> fixedSize td pp access minSize errCode.errCodeName codec, (if false then lv::nStringLength else nStringLength)
         | _ when maxSize < 65536I && (not isFixedSize) -> varSize td pp access minSize maxSize nSizeInBits  errCode.errCodeName codec, (if false  then lv::nStringLength else nStringLength)
         | _ ->
             let funcBodyContent,localVariables = handleFragmentation lm p codec errCode ii uperMaxSizeInBits minSize maxSize internalItem nIntItemMaxSize false false
diff --git a/CommonTypes/AbstractMacros.fs b/CommonTypes/AbstractMacros.fs
index 6a9b91a..3114263 100644
--- a/CommonTypes/AbstractMacros.fs
+++ b/CommonTypes/AbstractMacros.fs
@@ -337,10 +337,10 @@ Generated by the C stg macros with the following command
         abstract member sequence_default_child : p:string -> sAcc:string -> sChName:string -> sChildContent:string -> soExistVar:string option -> soChildExpr:string option -> sChildTypedef:string -> sInitWithDefaultValue:string -> codec:Codec -> string;
         abstract member sequence_build : p:string -> sTypeDefName:string -> bIsOptional:bool -> arrsChildren:seq<string> -> string;
         abstract member str_FixedSize : p:string -> sTasName:string -> i:string -> sInternalItem:string -> nFixedSize:BigInteger -> nIntItemMinSize:BigInteger -> nIntItemMaxSize:BigInteger -> nAlignSize:BigInteger -> soInitExpr:string option -> bIntroSnap:bool -> soCallAux:string option -> codec:Codec -> string;
-        abstract member str_VarSize : p:string -> sPIden:string -> sTasName:string -> i:string -> sInternalItem:string -> nSizeMin:BigInteger -> nSizeMax:BigInteger -> nSizeInBits:BigInteger -> nIntItemMinSize:BigInteger -> nIntItemMaxSize:BigInteger -> nAlignSize:BigInteger -> soInitExpr:string option -> soCallAux:string option -> codec:Codec -> string;
+        abstract member str_VarSize : p:string -> sPIden:string -> sTasName:string -> i:string -> sInternalItem:string -> nSizeMin:BigInteger -> nSizeMax:BigInteger -> nSizeInBits:BigInteger -> nIntItemMinSize:BigInteger -> nIntItemMaxSize:BigInteger -> nAlignSize:BigInteger -> soInitExpr:string option -> soCallAux:string option -> sErrCode:string -> codec:Codec -> string;
         abstract member seqOf_FixedSize : p:string -> sTasName:string -> i:string -> sInternalItem:string -> nFixedSize:BigInteger -> nIntItemMinSize:BigInteger -> nIntItemMaxSize:BigInteger -> nAlignSize:BigInteger -> sChildInitExpr:string -> soCallAux:string option -> codec:Codec -> string;
         abstract member seqOf_VarSize : p:string -> sAcc:string -> sTasName:string -> i:string -> sInternalItem:string -> nSizeMin:BigInteger -> nSizeMax:BigInteger -> nSizeInBits:BigInteger -> nIntItemMinSize:BigInteger -> nIntItemMaxSize:BigInteger -> nAlignSize:BigInteger -> sChildInitExpr:string -> sErrCode:string -> nAbsOffset:BigInteger -> nRemainingMinBits:BigInteger -> nLevel:BigInteger -> nIx:BigInteger -> nOffset:BigInteger -> bIntroSnap:bool -> soCallAux:string option -> codec:Codec -> string;
-        abstract member octet_FixedSize : sTypeDefName:string -> p:string -> sAcc:string -> nFixedSize:BigInteger -> codec:Codec -> string;
+        abstract member octet_FixedSize : sTypeDefName:string -> p:string -> sAcc:string -> nFixedSize:BigInteger -> sErrCode:string -> codec:Codec -> string;
         abstract member octet_VarSize : sTypeDefName:string -> p:string -> sAcc:string -> nSizeMin:BigInteger -> nSizeMax:BigInteger -> nSizeInBits:BigInteger -> sErrCode:string -> codec:Codec -> string;
         abstract member bitString_FixSize : sTypeDefName:string -> p:string -> sAcc:string -> nFixedSize:BigInteger -> sErrCode:string -> codec:Codec -> string;
         abstract member bitString_VarSize : sTypeDefName:string -> p:string -> sAcc:string -> nSizeMin:BigInteger -> nSizeMax:BigInteger -> sErrCode:string -> nSizeInBits:BigInteger -> codec:Codec -> string;
diff --git a/StgAda/uper_a.stg b/StgAda/uper_a.stg
index 1f79326..aad5f19 100644
--- a/StgAda/uper_a.stg
+++ b/StgAda/uper_a.stg
@@ -512,7 +512,7 @@ result := <rtlModuleName()>.ASN1_RESULT'(Success => True, ErrorCode => 0);
 <p>(<nFixedSize> + 1) := adaasn1rtl.NUL;
 >>
 
-str_VarSize_encode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux) ::= <<
+str_VarSize_encode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux, sErrCode) ::= <<
 nStringLength := <rtlModuleName()>.getStringSize(<p>);
 result.Success := nStringLength >= <nSizeMin> AND nStringLength \<= <nSizeMax>;
 <i> := 1;
@@ -522,7 +522,7 @@ if result.Success then
 end if;
 >>
 
-str_VarSize_decode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux) ::= <<
+str_VarSize_decode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux, sErrCode) ::= <<
 --val := <sTasName>_Init;
 result.ErrorCode := <rtlModuleName()>.ERR_INSUFFICIENT_DATA;
 adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, <nSizeMin>, <nSizeMax>, <nSizeInBits>, result.Success);
@@ -565,11 +565,11 @@ if not result.Success then
 end if;
 >>
 
-octet_FixedSize_encode(sTypeDefName, p, sAcc, nFixedSize) ::= <<
+octet_FixedSize_encode(sTypeDefName, p, sAcc, nFixedSize, sErrCode) ::= <<
 adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, <p><sAcc>Data, Integer(<nFixedSize>));
 >>
 
-octet_FixedSize_decode(sTypeDefName, p, sAcc, nFixedSize) ::= <<
+octet_FixedSize_decode(sTypeDefName, p, sAcc, nFixedSize, sErrCode) ::= <<
 result := <rtlModuleName()>.ASN1_RESULT'(Success => True, ErrorCode => 0);
 adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, <p><sAcc>Data, Integer(<nFixedSize>), result.success);
 >>
diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 0653c2a..7bd3f79 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -344,7 +344,7 @@ ret = Acn_Dec_Real_IEEE754_64_big_endian(pBitStrm, <p>);
 
 Real_32_little_endian_encode(p, sSuffix, sErrCode) ::= "Acn_Enc_Real_IEEE754_32_little_endian(pBitStrm, <p>);"
 Real_32_little_endian_decode(p, sSuffix, sErrCode) ::= <<
-Acn_Dec_Real_IEEE754_32_little_endian<sSuffix>(pBitStrm, <p>);
+ret = Acn_Dec_Real_IEEE754_32_little_endian<sSuffix>(pBitStrm, <p>);
 <A(sErrCode)>
 >>
 
@@ -413,6 +413,7 @@ Null_pattern_encode(p, arruNullValueAsByteArray, nSize, arrsBits, sErrCode, bSav
 Null_pattern_decode(p, arruNullValueAsByteArray, nSize, arrsBits, sErrCode, bSavePosition) ::= <<
 <if(bSavePosition)>
 ret = BitStream_ReadBitPattern_ignore_value(pBitStrm, <nSize>);
+<A(sErrCode)>
 
 <else>
 <if(arruNullValueAsByteArray)>
@@ -599,6 +600,7 @@ ret = BitStream_EncodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCo
 oct_external_field_decode(sTypedefName, p, sAcc, noSizeMin, noSizeMax, sExtFld, bIsUnsigned, nAlignSize, sErrCode) ::= <<
 <if(noSizeMin)>
 ret = (<noSizeMin>\<=<sExtFld><if(noSizeMax)> && <sExtFld>\<=<noSizeMax><endif>);
+<A(sErrCode)>
 if (ret) {
     <p><sAcc>nCount = (int)<sExtFld>;
     ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
@@ -607,6 +609,7 @@ if (ret) {
 <else>
 <if(noSizeMax)>
 ret = (<sExtFld>\<=<noSizeMax>);
+<A(sErrCode)>
 if (ret) {
     <p><sAcc>nCount = (int)<sExtFld>;
     ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
@@ -627,6 +630,7 @@ ret = BitStream_EncodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <nSizeMax>);
 
 oct_external_field_fix_size_decode(sTypedefName, p, sAcc, noSizeMin, nSizeMax, sExtFld, bIsUnsigned, nAlignSize, sErrCode) ::= <<
 ret = (<if(noSizeMin)>(<noSizeMin>\<=<sExtFld>) && <endif>(<sExtFld>\<=<nSizeMax>));
+<A(sErrCode)>
 if (ret) {
     ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <nSizeMax>);
 	<A(sErrCode)>
@@ -653,6 +657,7 @@ sqf_external_field_encode(sTypeDefName, p, sAcc, i, sInternalItem, noSizeMin, nS
 
 sqf_external_field_decode(sTypeDefName, p, sAcc, i, sInternalItem, noSizeMin, nSizeMax, sExtFld, bIsUnsigned, nAlignSize, sErrCode, nIntItemMinSize, nIntItemMaxSize, sChildInitExpr, bIntroSnap, soCallAux) ::= <<
 ret = (<if(noSizeMin)>(<noSizeMin>\<=<sExtFld>) && <endif>(<sExtFld>\<=<nSizeMax>));
+<A(sErrCode)>
 if (ret) {
     <p><sAcc>nCount = (int)<sExtFld>;
     <loopFixedItem(i=i, sInternalItem=sInternalItem, fixedSize=[p,sAcc, "nCount"])>
@@ -666,6 +671,7 @@ sqf_external_field_fix_size_encode(sTypeDefName, p, sAcc, i, sInternalItem, noSi
 
 sqf_external_field_fix_size_decode(sTypeDefName, p, sAcc, i, sInternalItem, noSizeMin, nSizeMax, sExtFld, bIsUnsigned, nAlignSize, sErrCode, nIntItemMinSize, nIntItemMaxSize, sChildInitExpr, bIntroSnap, soCallAux) ::= <<
 ret = (<if(noSizeMin)>(<noSizeMin>\<=<sExtFld>) && <endif>(<sExtFld>\<=<nSizeMax>));
+<A(sErrCode)>
 if (ret) {
     <loopFixedItem(i=i, sInternalItem=sInternalItem, fixedSize=[nSizeMax])>
 }
@@ -709,6 +715,7 @@ BitStream_AppendBits(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
 bit_string_external_field_decode(sTypeDefName, p, sErrCode, sAcc, noSizeMin, noSizeMax, sExtFld) ::= <<
 <if(noSizeMin)>
 ret = (<noSizeMin>\<=<sExtFld><if(noSizeMax)> && <sExtFld>\<=<noSizeMax><endif>);
+<A(sErrCode)>
 if (ret) {
     <p><sAcc>nCount = (int)<sExtFld>;
     ret = BitStream_ReadBits(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
@@ -717,6 +724,7 @@ if (ret) {
 <else>
 <if(noSizeMax)>
 ret = (<sExtFld>\<=<noSizeMax>);
+<A(sErrCode)>
 if (ret) {
     <p><sAcc>nCount = (int)<sExtFld>;
     ret = BitStream_ReadBits(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
@@ -736,6 +744,7 @@ BitStream_AppendBits(pBitStrm, <p><sAcc>arr, <nSizeMax>);
 
 bit_string_external_field_fixed_size_decode(sTypeDefName, p, sErrCode, sAcc, noSizeMin, nSizeMax, sExtFld) ::= <<
 ret = (<if(noSizeMin)>(<noSizeMin>\<=<sExtFld>) && <endif>(<sExtFld>\<=<nSizeMax>));
+<A(sErrCode)>
 if (ret) {
     ret = BitStream_ReadBits(pBitStrm, <p><sAcc>arr, <nSizeMax>);
     *pErrCode = ret ? 0 : <sErrCode>;
diff --git a/StgC/uper_c.stg b/StgC/uper_c.stg
index b020e43..01bc7bf 100644
--- a/StgC/uper_c.stg
+++ b/StgC/uper_c.stg
@@ -462,7 +462,7 @@ str_FixedSize_decode(p, sTasName, i, sInternalItem, nFixedSize, nIntItemMinSize,
 <p>[<nFixedSize>] = 0x0;
 >>
 
-str_VarSize_encode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux) ::= <<
+str_VarSize_encode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux, sErrCode) ::= <<
 nStringLength = strlen(<p>);
 /*ret = nStringLength >= <nSizeMin> && nStringLength \<= <nSizeMax>;*/
 BitStream_EncodeConstraintWholeNumber(pBitStrm, nStringLength, <nSizeMin>, <nSizeMax>);
@@ -470,8 +470,9 @@ BitStream_EncodeConstraintWholeNumber(pBitStrm, nStringLength, <nSizeMin>, <nSiz
 
 >>
 
-str_VarSize_decode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux) ::= <<
+str_VarSize_decode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux, sErrCode) ::= <<
 ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nStringLength, <nSizeMin>, <nSizeMax>);
+*pErrCode = ret ? 0 : <sErrCode>;
 <loopFixedItem(i=i, sInternalItem=sInternalItem, fixedSize="nStringLength")>
 <p>[nStringLength] = 0x0;
 >>
@@ -501,12 +502,13 @@ ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, <nSizeMin>, <nSiz
 
 
 
-octet_FixedSize_encode(sTypeDefName, p, sAcc, nFixedSize) ::= <<
+octet_FixedSize_encode(sTypeDefName, p, sAcc, nFixedSize, sErrCode) ::= <<
 ret = BitStream_EncodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <nFixedSize>);
 >>
 
-octet_FixedSize_decode(sTypeDefName, p, sAcc, nFixedSize) ::= <<
+octet_FixedSize_decode(sTypeDefName, p, sAcc, nFixedSize, sErrCode) ::= <<
 ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <nFixedSize>);
+*pErrCode = ret ? 0 : <sErrCode>;
 >>
 
 octet_VarSize_encode(sTypeDefName, p, sAcc, nSizeMin, nSizeMax, nSizeInBits, sErrCode) ::= <<
@@ -518,7 +520,10 @@ octet_VarSize_decode(sTypeDefName, p, sAcc, nSizeMin, nSizeMax, nSizeInBits, sEr
 ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, <nSizeMin>, <nSizeMax>);
 *pErrCode = ret ? 0 : <sErrCode>;
 <p><sAcc>nCount = (long)nCount;
-ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
+if (ret) {
+	ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
+	*pErrCode = ret ? 0 : <sErrCode>;
+}
 >>
 
 
@@ -540,6 +545,7 @@ BitStream_EncodeConstraintWholeNumber(pBitStrm, <p><sAcc>nCount, <nSizeMin>, <nS
 
 bitString_VarSize_decode(sTypeDefName, p, sAcc, nSizeMin, nSizeMax, sErrCode, nSizeInBits) ::= <<
 ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, <nSizeMin>, <nSizeMax>);
+*pErrCode = ret ? 0 : <sErrCode>;
 if (ret) {
 	<p><sAcc>nCount = (long)nCount;
 	<bitString_FixSize_decode(sTypeDefName=sTypeDefName, p=p, sAcc=sAcc, nFixedSize=[p,sAcc, "nCount"], sErrCode=sErrCode)>
@@ -685,7 +691,7 @@ for(<sBlockIndex> = 0; ret && <sBlockIndex> \< <nBlocks64K>; <sBlockIndex>++) {
         *pErrCode = ret ? 0 : <sErrCodeName>;
 
 	    <else>
-	    for(<sBLI>=(int)<sCurOffset>; <sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>); <sBLI>++) {
+	    for(<sBLI>=(int)<sCurOffset>; ret && (<sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>)); <sBLI>++) {
 		    <sInternalItem>
 	    }
 
@@ -708,7 +714,7 @@ if (ret) {
     *pErrCode = ret ? 0 : <sErrCodeName>;
 
     <else>
-    for(<sBLI>=(int)<sCurOffset>; <sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>); <sBLI>++) {
+    for(<sBLI>=(int)<sCurOffset>; ret && (<sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>)); <sBLI>++) {
 	    <sInternalItem>
     }
 
@@ -728,13 +734,14 @@ ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &<sRemainingItemsVar>, 0,
 ret = ret && ((0x8000 & <sRemainingItemsVar>) > 0) && ( (0x7FFF & <sRemainingItemsVar>) == <nRemainingItemsVar>);
 
 <endif>
+*pErrCode = ret ? 0 : <sErrCodeName>;
 if (ret) {
     <if(bIsBitStringType)>
     ret = BitStream_ReadBits(pBitStrm, &<p><sAcc>arr[<sCurOffset>/8], (int)<nRemainingItemsVar>);
     *pErrCode = ret ? 0 : <sErrCodeName>;
 
     <else>
-    for(<sBLI>=(int)<sCurOffset>; <sBLI> \< (int)(<sCurOffset> + <nRemainingItemsVar>); <sBLI>++)
+    for(<sBLI>=(int)<sCurOffset>; ret && (<sBLI> \< (int)(<sCurOffset> + <nRemainingItemsVar>)); <sBLI>++)
     {
 	    <sInternalItem>
     }
diff --git a/StgScala/uper_scala.stg b/StgScala/uper_scala.stg
index 57d650a..c3364f2 100644
--- a/StgScala/uper_scala.stg
+++ b/StgScala/uper_scala.stg
@@ -430,7 +430,7 @@ str_FixedSize_decode(p, sTasName, i, sInternalItem, nFixedSize, nIntItemMinSize,
 >>
 
 
-str_VarSize_encode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux) ::= <<
+str_VarSize_encode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux, sErrCode) ::= <<
 nStringLength = <p>.indexOfOrLength(0x00.toRawUByte)
 /*ret = nStringLength >= <nSizeMin> && nStringLength \<= <nSizeMax>;*/
 codec.base.encodeConstrainedWholeNumber(nStringLength, <nSizeMin>, <nSizeMax>)
@@ -438,7 +438,7 @@ val <sPIden>_nCount = nStringLength
 <soCallAux>
 >>
 
-str_VarSize_decode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux) ::= <<
+str_VarSize_decode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux, sErrCode) ::= <<
 nStringLength = codec.base.decodeConstrainedWholeNumberInt(<nSizeMin>, <nSizeMax>)
 val <p>_nCount = nStringLength
 <soCallAux>
@@ -496,11 +496,11 @@ val <p>_nCount = locally {
 <soCallAux>
 >>
 
-octet_FixedSize_encode(sTypeDefName, p, sAcc, nFixedSize) ::= <<
+octet_FixedSize_encode(sTypeDefName, p, sAcc, nFixedSize, sErrCode) ::= <<
 codec.base.encodeOctetString_no_length_vec(<p><sAcc>arr, <nFixedSize>.toInt)
 >>
 
-octet_FixedSize_decode(sTypeDefName, p, sAcc, nFixedSize) ::= <<
+octet_FixedSize_decode(sTypeDefName, p, sAcc, nFixedSize, sErrCode) ::= <<
 val <p> = <sTypeDefName>(codec.base.decodeOctetString_no_length_vec(<nFixedSize>))
 >>
 
-- 
2.43.0


From 51309e528c42e9bbde70c307337c59b9122ef158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 029/106] fix: XER reals keep their value, special values are
 encoded and terminate

---
 asn1crt/asn1crt_encoding_xer.c | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index c248cbd..b9b274f 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -22,29 +22,14 @@ char* UInt2String(asn1SccUint v) {
 }
 
 char* Double2String(double v) {
-	if (fabs(v) < 1e-17)
-		return "0";
-
 	static char tmp[256];
-	int exponent = 0;
-
-	while (fabs(v) >= 10) {
-		v /= 10;
-		exponent++;
-	}
-
-	while (fabs(v) < 1) {
-		v *= 10;
-		exponent--;
-	}
 
-	if (fabs(fabs(v) - llabs((asn1SccSint)v)) < 1e-17) {
-		snprintf(tmp, sizeof(tmp), "%.1fE%d", v, exponent);
-	}
-	else {
-		snprintf(tmp, sizeof(tmp), "%.17gE%d", v, exponent);
-	}
+	if (isnan(v))
+		return "NaN";
+	if (isinf(v))
+		return v > 0 ? "INF" : "-INF";
 
+	snprintf(tmp, sizeof(tmp), "%.17g", v);
 	return tmp;
 }
 
-- 
2.43.0


From c2abb91add20b6e83f9b64be1c7dfa1f9ca4804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 030/106] fix: XER attributes are separated from the tag, and
 skipped when the caller wants none

---
 asn1crt/asn1crt_encoding_xer.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index b9b274f..609f7ce 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -194,10 +194,13 @@ Token LA(ByteStream* pByteStrm) {
 
 void AddAttribute(XmlAttributeArray* pAttrArray, const char* attr, const char* val)
 {
-	assert(((unsigned)pAttrArray->nCount) < (sizeof(XmlAttributeArray) - sizeof(int)) / sizeof(XmlAttribute));
+	XmlAttribute* pAttr;
 
-	strcpy(pAttrArray->attrs[pAttrArray->nCount].Name, attr);
-	strcpy(pAttrArray->attrs[pAttrArray->nCount].Value, val);
+	assert(((unsigned)pAttrArray->nCount) < sizeof(pAttrArray->attrs) / sizeof(pAttrArray->attrs[0]));
+
+	pAttr = &pAttrArray->attrs[pAttrArray->nCount];
+	snprintf(pAttr->Name, sizeof(pAttr->Name), "%s", attr);
+	snprintf(pAttr->Value, sizeof(pAttr->Value), "%s", val);
 	pAttrArray->nCount++;
 }
 
@@ -349,7 +352,7 @@ flag Xer_DecodeAttributes(ByteStream* pByteStrm, XmlAttributeArray* pAttrs, int
 	Token t1;
 	Token t2;
 
-	while (LA(pByteStrm).TokenID != '>') {
+	while (LA(pByteStrm).TokenID == WORD_ID) {
 		t1 = NT(pByteStrm);
 		if (t1.TokenID != WORD_ID) {
 			*pErrCode = ERR_INVALID_XML_FILE; /* +++ */
@@ -376,6 +379,12 @@ flag Xer_DecodeAttributes(ByteStream* pByteStrm, XmlAttributeArray* pAttrs, int
 			*pErrCode = ERR_INVALID_XML_FILE; /* +++ */
 			return FALSE;
 		}
+		if (pAttrs == NULL)
+			continue;
+		if ((unsigned)pAttrs->nCount >= sizeof(pAttrs->attrs) / sizeof(pAttrs->attrs[0])) {
+			*pErrCode = ERR_INVALID_XML_FILE; /* +++ */
+			return FALSE;
+		}
 		AddAttribute(pAttrs, t1.Value, t2.Value);
 	}
 	return TRUE;
@@ -399,6 +408,8 @@ flag Xer_EncodeComplexElementStart(ByteStream* pByteStrm, const char* elementTag
 		return FALSE;
 	if (pAttrs != NULL) {
 		for (i = 0; i<pAttrs->nCount; i++) {
+			if (!ByteStream_AppendString(pByteStrm, " "))
+				return FALSE;
 			if (!ByteStream_AppendString(pByteStrm, pAttrs->attrs[i].Name))
 				return FALSE;
 			if (!ByteStream_AppendString(pByteStrm, "="))
-- 
2.43.0


From af388631031b8e54878016e352b800c9d5ccc300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 031/106] fix: XER object identifiers are decoded arc by arc

---
 asn1crt/asn1crt_encoding_xer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 609f7ce..034ad6d 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -892,16 +892,19 @@ flag Xer_DecodeObjectIdentifier(ByteStream* pByteStrm, const char* elementTag, A
 
 	len = j;
 
+	tmp[len] = 0x0;
+
 	char *ptr = strtok(tmp, delim);
 	i = 0;
 	while (ptr != NULL && i < OBJECT_IDENTIFIER_MAX_LENGTH)
 	{
-		pVal->values[i++] = atoll(tmp);
+		pVal->values[i++] = strtoull(ptr, NULL, 10);
 
 		ptr = strtok(NULL, delim);
 	}
+	pVal->nCount = i;
 
-	return TRUE;
+	return ptr == NULL;
 }
 
 
-- 
2.43.0


From 8f4524831acc4cc6a72784f67151ceb4270a7895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 032/106] fix: XER octet and bit strings longer than the buffer
 or malformed are refused

---
 asn1crt/asn1crt_encoding_xer.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 034ad6d..8559612 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -844,14 +844,19 @@ flag Xer_DecodeOctetString(ByteStream* pByteStrm, const char* elementTag, byte v
 	len = (int)strlen(tmp);
 
 	for (i = 0; i<len; i++) {
-		if (isspace(tmp[i]))
+		if (isspace((byte)tmp[i]))
 			continue;
 		tmp[j++] = tmp[i];
 	}
 
 	len = j;
 
-	for (i = 0; i<len && i / 2 < bufferMaxSize; i++) {
+	if (len / 2 + len % 2 > bufferMaxSize) {
+		*pErrCode = ERR_INVALID_XML_FILE;
+		return FALSE;
+	}
+
+	for (i = 0; i<len; i++) {
 		byte nibble;
 		if (!CharToNibble(tmp[i], &nibble))
 			return FALSE;
@@ -885,7 +890,7 @@ flag Xer_DecodeObjectIdentifier(ByteStream* pByteStrm, const char* elementTag, A
 	len = (int)strlen(tmp);
 
 	for (i = 0; i<len; i++) {
-		if (isspace(tmp[i]))
+		if (isspace((byte)tmp[i]))
 			continue;
 		tmp[j++] = tmp[i];
 	}
@@ -940,7 +945,7 @@ flag Xer_DecodeBitString(ByteStream* pByteStrm, const char* elementTag, byte val
 
 	len = (int)strlen(tmp);
 	for (i = 0; i<len; i++) {
-		if (isspace(tmp[i]))
+		if (isspace((byte)tmp[i]))
 			continue;
 		tmp[j++] = tmp[i];
 	}
@@ -950,11 +955,20 @@ flag Xer_DecodeBitString(ByteStream* pByteStrm, const char* elementTag, byte val
 	if (len % 8)
 		bytes++;
 
+	if (len > bufferMaxSize) {
+		*pErrCode = ERR_INVALID_XML_FILE;
+		return FALSE;
+	}
+
 	memset(value, 0x0, (size_t)bytes);
 
 
-	for (i = 0; i<len && i / 8 < bufferMaxSize; i++) {
+	for (i = 0; i<len; i++) {
 		byte curVal = (byte)(tmp[i] - '0');
+		if (curVal > 1) {
+			*pErrCode = ERR_INVALID_XML_FILE;
+			return FALSE;
+		}
 		int curBit = 7 - i % 8;
 		value[i / 8] |= (byte)(curVal << curBit);
 	}
-- 
2.43.0


From 3162bb07a1d2c58753c8962e6d78d45b8e7bf273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 033/106] fix: XER enumeration names of any length are encoded

---
 asn1crt/asn1crt_encoding_xer.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 8559612..8245303 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -565,12 +565,6 @@ flag Xer_EncodeBoolean(ByteStream* pByteStrm, const char* elementTag, flag value
 
 flag Xer_EncodeEnumerated(ByteStream* pByteStrm, const char* elementTag, const char* value, int *pErrCode, int level)
 {
-	char tmp[256];
-	memset(tmp, 0x0, sizeof(tmp));
-	strcat(tmp, "<");
-	strcat(tmp, value);
-	strcat(tmp, "/>");
-
 	if (elementTag == NULL || strlen(elementTag) == 0)
 		return Xer_EncodePrimitiveElement(pByteStrm, value, "", pErrCode, level);
 
-- 
2.43.0


From 1dda706a1c16d0722771d1b21f27c00e163ed375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 034/106] fix: markup characters of a string are XML entities
 in XER

---
 BackendAst/DAstXer.fs          |  9 ++++--
 asn1crt/asn1crt_encoding_xer.c | 50 ++++++++++++++++++++++++++++++++--
 2 files changed, 55 insertions(+), 4 deletions(-)

diff --git a/BackendAst/DAstXer.fs b/BackendAst/DAstXer.fs
index ebfb317..3873b58 100644
--- a/BackendAst/DAstXer.fs
+++ b/BackendAst/DAstXer.fs
@@ -52,7 +52,12 @@ let getMaxSizeInBytesForXER_BitString   maxSize = maxSize * 8I
 let getMaxSizeInBytesForXER_OctetString maxSize = maxSize * 2I
 let getMaxSizeInBytesForXER_Real        = 50I
 let getMaxSizeInBytesForXER_NullType    = 0I
-let getMaxSizeInBytesForXER_IA5String   maxSize = maxSize
+let getMaxSizeInBytesForXER_IA5String   (alphabet:char array) maxSize =
+    // the characters that are markup in XML are encoded as entities
+    match alphabet |> Array.exists((=) '&'), alphabet |> Array.exists((=) '<') with
+    | true, _       -> maxSize * BigInteger ("&amp;".Length)
+    | false, true   -> maxSize * BigInteger ("&lt;".Length)
+    | false, false  -> maxSize
 let getMaxSizeInBytesForXER_NumericString   maxSize = maxSize
 
 let getMaxSizeInBytesForXER  (xmlTag:XerTag) (contentSize:BigInteger) : BigInteger =
@@ -242,7 +247,7 @@ let createIA5StringFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:Co
         let xmlTag = xmlTag |> orElse (XerLiteralConstant (if o.isNumeric then "NumericString" else "IA5String"))
         let pp = match codec with CommonTypes.Encode -> lm.lg.getValue p.accessPath | CommonTypes.Decode -> lm.lg.getPointer p.accessPath
         let nLevel = BigInteger (t.id.AcnAbsPath.Length - 2)
-        let contentSize = getMaxSizeInBytesForXER_IA5String o.maxSize.uper
+        let contentSize = getMaxSizeInBytesForXER_IA5String o.uperCharSet o.maxSize.uper
         let totalSize = getMaxSizeInBytesForXER xmlTag contentSize
         let bodyStm = String pp xmlTag.p nLevel (checkExp isValidFunc p) errCode.errCodeName codec
         Some {XERFuncBodyResult.funcBody = bodyStm; errCodes= [errCode]; localVariables=[];encodingSizeInBytes=totalSize}
diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 8245303..e71e58d 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -250,6 +250,26 @@ flag Xer_EncodePrimitiveElement(ByteStream* pByteStrm, const char* elementTag, c
 
 
 
+/* The predefined XML entities. The stream is just after the '&'. */
+static flag DecodeEntity(ByteStream* pByteStrm, char* c)
+{
+	static const struct { const char* name; char value; } entities[] = {
+		{ "lt;", '<' }, { "gt;", '>' }, { "amp;", '&' }, { "quot;", '"' }, { "apos;", '\'' }
+	};
+	size_t i;
+
+	for (i = 0; i < sizeof(entities) / sizeof(entities[0]); i++) {
+		size_t len = strlen(entities[i].name);
+		if (len <= (size_t)(pByteStrm->count - pByteStrm->currentByte) &&
+			memcmp(&pByteStrm->buf[pByteStrm->currentByte], entities[i].name, len) == 0) {
+			pByteStrm->currentByte += (long)len;
+			*c = entities[i].value;
+			return TRUE;
+		}
+	}
+	return FALSE;
+}
+
 flag Xer_DecodePrimitiveElement(ByteStream* pByteStrm, const char* elementTag, char* pDecodedValue, size_t maxLen, int *pErrCode)
 {
 	size_t written = 0;
@@ -294,7 +314,7 @@ flag Xer_DecodePrimitiveElement(ByteStream* pByteStrm, const char* elementTag, c
 	return FALSE;
 	}
 	*/
-	while (c != '<')
+	for (;;)
 	{
 		if (!GetNextChar(pByteStrm, &c))
 			return FALSE;
@@ -303,6 +323,10 @@ flag Xer_DecodePrimitiveElement(ByteStream* pByteStrm, const char* elementTag, c
 			pDecodedValue++;
 			break;
 		}
+		if (c == '&' && !DecodeEntity(pByteStrm, &c)) {
+			*pErrCode = ERR_INVALID_XML_FILE;
+			return FALSE;
+		}
 		if (written >= maxLen - 1) {
 			*pErrCode = ERR_INVALID_XML_FILE;
 			return FALSE;
@@ -594,7 +618,29 @@ flag Xer_EncodeReal(ByteStream* pByteStrm, const char* elementTag, asn1Real valu
 
 flag Xer_EncodeString(ByteStream* pByteStrm, const char* elementTag, const char* value, int *pErrCode, int level)
 {
-	return Xer_EncodePrimitiveElement(pByteStrm, elementTag, value, pErrCode, level);
+	char tmp[2] = { 0, 0 };
+
+	if (value == NULL || strpbrk(value, "<&") == NULL)
+		return Xer_EncodePrimitiveElement(pByteStrm, elementTag, value, pErrCode, level);
+
+	*pErrCode = ERR_INVALID_XML_FILE; /* +++ */
+	if (!ByteStream_PutSpace(pByteStrm, level))
+		return FALSE;
+	if (!Xer_EncodeComplexElementStart(pByteStrm, elementTag, NULL, pErrCode, -1))
+		return FALSE;
+
+	for (; *value != 0; value++) {
+		tmp[0] = *value;
+		if (!ByteStream_AppendString(pByteStrm, *value == '<' ? "&lt;" : *value == '&' ? "&amp;" : tmp))
+			return FALSE;
+	}
+
+	if (!Xer_EncodeComplexElementEnd(pByteStrm, elementTag, pErrCode, -1))
+		return FALSE;
+	if (level >= 0)
+		if (!ByteStream_PutNL(pByteStrm))
+			return FALSE;
+	return TRUE;
 }
 
 flag Xer_EncodeOctetString(ByteStream* pByteStrm, const char* elementTag, const byte value[], int nCount, int *pErrCode, int level)
-- 
2.43.0


From cbb88d06b84662c4096f3a558765ae5194fc4dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 035/106] fix: the XER size of enumerations and object
 identifiers covers their longest value

---
 BackendAst/DAstXer.fs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BackendAst/DAstXer.fs b/BackendAst/DAstXer.fs
index 3873b58..b6b840e 100644
--- a/BackendAst/DAstXer.fs
+++ b/BackendAst/DAstXer.fs
@@ -46,11 +46,12 @@ let private aux (s:string) = 2 * (s.Length + 1) + 1 |> BigInteger
 let getMaxSizeInBytesForXER_boolean ()  =  BigInteger ("<false/>".Length)  //<>
 let getMaxSizeInBytesForXER_Integer ()  =  BigInteger (System.Int64.MinValue.ToString().Length)
 let getMaxSizeInBytesForXER_Enumerated (itemNames : string list) =
-    let maxName = itemNames |>  Seq.max
+    let maxName = itemNames |>  Seq.maxBy(fun name -> name.Length)
     aux maxName
 let getMaxSizeInBytesForXER_BitString   maxSize = maxSize * 8I
 let getMaxSizeInBytesForXER_OctetString maxSize = maxSize * 2I
 let getMaxSizeInBytesForXER_Real        = 50I
+let getMaxSizeInBytesForXER_ObjectIdentifier = 20I * BigInteger (System.UInt64.MaxValue.ToString().Length + 1)
 let getMaxSizeInBytesForXER_NullType    = 0I
 let getMaxSizeInBytesForXER_IA5String   (alphabet:char array) maxSize =
     // the characters that are markup in XML are encoded as entities
@@ -193,7 +194,7 @@ let createObjectIdentifierFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (c
         let xmlTag = xmlTag |> orElse (XerLiteralConstant "ObjectIdentifier")
         let pp = match codec with CommonTypes.Encode -> lm.lg.getPointer p.accessPath | CommonTypes.Decode -> lm.lg.getPointer p.accessPath
         let nLevel = BigInteger (t.id.AcnAbsPath.Length - 2)
-        let contentSize = getMaxSizeInBytesForXER_Real
+        let contentSize = getMaxSizeInBytesForXER_ObjectIdentifier
         let totalSize = getMaxSizeInBytesForXER xmlTag contentSize
         let bodyStm = ObjectIdentifier pp xmlTag.p nLevel (checkExp isValidFunc p) errCode.errCodeName codec
         Some {XERFuncBodyResult.funcBody = bodyStm; errCodes= [errCode]; localVariables=[];encodingSizeInBytes=totalSize}
-- 
2.43.0


From ea0c8bf68ad029be35c810be03e7ec14530ad048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 036/106] fix: a failed XER decoding step is not reported as
 success

---
 StgC/xer_c.stg | 59 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/StgC/xer_c.stg b/StgC/xer_c.stg
index dc2ad4d..90cb500 100644
--- a/StgC/xer_c.stg
+++ b/StgC/xer_c.stg
@@ -83,7 +83,9 @@ ret = Xer_EncodeInteger(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 >>
 Integer_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
 ret = Xer_DecodeInteger(pByteStrm, <sTag>, <p>, pErrCode);
-<if(soCheckExp)><soCheckExp><endif>
+<if(soCheckExp)>if (ret) {
+    <soCheckExp>
+}<endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
 >>
 
@@ -93,7 +95,9 @@ ret = Xer_EncodePosInteger(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 >>
 IntegerPos_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
 ret = Xer_DecodePosInteger(pByteStrm, <sTag>, <p>, pErrCode);
-<if(soCheckExp)><soCheckExp><endif>
+<if(soCheckExp)>if (ret) {
+    <soCheckExp>
+}<endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
 >>
 
@@ -104,7 +108,9 @@ ret = Xer_EncodeBoolean(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 
 Boolean_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
 ret = Xer_DecodeBoolean(pByteStrm, <sTag>, <p>, pErrCode);
-<if(soCheckExp)><soCheckExp><endif>
+<if(soCheckExp)>if (ret) {
+    <soCheckExp>
+}<endif>
 *pErrCode = ret ? 0 : <sErrCode>;
 >>
 
@@ -117,7 +123,9 @@ ret = Xer_EncodeReal(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 
 Real_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
 ret = Xer_DecodeReal(pByteStrm, <sTag>, <p>, pErrCode);
-<if(soCheckExp)><soCheckExp><endif>
+<if(soCheckExp)>if (ret) {
+    <soCheckExp>
+}<endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
 >>
 
@@ -129,7 +137,9 @@ ret = Xer_EncodeObjectIdentifier(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 
 ObjectIdentifier_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
 ret = Xer_DecodeObjectIdentifier(pByteStrm, <sTag>, <p>, pErrCode);
-<if(soCheckExp)><soCheckExp><endif>
+<if(soCheckExp)>if (ret) {
+    <soCheckExp>
+}<endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
 >>
 
@@ -141,7 +151,9 @@ ret = Xer_Encode_<sTimeSubType>(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 
 TimeType_decode(p, sTimeSubType, sTag, nLevel, soCheckExp, sErrCode) ::= <<
 ret = Xer_Decode_<sTimeSubType>(pByteStrm, <sTag>, <p>, pErrCode);
-<if(soCheckExp)><soCheckExp><endif>
+<if(soCheckExp)>if (ret) {
+    <soCheckExp>
+}<endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
 >>
 
@@ -154,7 +166,9 @@ ret = Xer_EncodeNull(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 
 Null_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
 ret = Xer_DecodeNull(pByteStrm, <sTag>, <p>, pErrCode);
-<if(soCheckExp)><soCheckExp><endif>
+<if(soCheckExp)>if (ret) {
+    <soCheckExp>
+}<endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
 >>
 
@@ -167,7 +181,9 @@ ret = Xer_EncodeString(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 
 String_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
 ret = Xer_DecodeString(pByteStrm, <sTag>, <p>, sizeof(<p>), pErrCode);
-<if(soCheckExp)><soCheckExp><endif>
+<if(soCheckExp)>if (ret) {
+    <soCheckExp>
+}<endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
 >>
 
@@ -202,12 +218,15 @@ Enumerated_decode(p, sTag, nLevel, arrsItems, soCheckExp, sErrCode) ::= <<
     if (ret) {
         <arrsItems; separator="\n">
 	    else {
+		    ret = FALSE;            /*COVERAGE_IGNORE*/
 		    *pErrCode = <sErrCode>; /*COVERAGE_IGNORE*/
 	    }
     } else {
         *pErrCode = <sErrCode>; /*COVERAGE_IGNORE*/
     }
-	<if(soCheckExp)><soCheckExp><endif>
+	<if(soCheckExp)>if (ret) {
+    <soCheckExp>
+}<endif>
 	*pErrCode = ret  ? 0 : <sErrCode>;
 }
 >>
@@ -220,7 +239,9 @@ ret = Xer_EncodeOctetString(pByteStrm, <sTag>, <p><sAcc>arr, <if(!bIsFixedSize)>
 
 OctetString_decode(p, sAcc, sTag, nLevel, nSizeMax, bIsFixedSize, soCheckExp, sErrCode) ::= <<
 ret = Xer_DecodeOctetString(pByteStrm, <sTag>, <p><sAcc>arr, <nSizeMax>, <if(!bIsFixedSize)>&<p><sAcc>nCount<else>NULL<endif>, pErrCode);
-<if(soCheckExp)><soCheckExp><endif>
+<if(soCheckExp)>if (ret) {
+    <soCheckExp>
+}<endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
 >>
 
@@ -232,7 +253,9 @@ ret = Xer_EncodeBitString(pByteStrm, <sTag>, <p><sAcc>arr, <if(!bIsFixedSize)><p
 
 BitString_decode(p, sAcc, sTag, nLevel, nSizeMax, bIsFixedSize, soCheckExp, sErrCode) ::= <<
 ret = Xer_DecodeBitString(pByteStrm, <sTag>, <p><sAcc>arr, <nSizeMax>, <if(!bIsFixedSize)>&<p><sAcc>nCount<else>NULL<endif>, pErrCode);
-<if(soCheckExp)><soCheckExp><endif>
+<if(soCheckExp)>if (ret) {
+    <soCheckExp>
+}<endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
 >>
 
@@ -277,10 +300,13 @@ if (ret) {
     }
 }
 <if(bFixedSize)>
-*pErrCode = (ret && <sI> == <nSizeMax>) ? 0 : <sErrCode>;
+ret = ret && <sI> == <nSizeMax>;
+*pErrCode = ret ? 0 : <sErrCode>;
 
 <else>
-<if(soCheckExp)><soCheckExp><endif>
+<if(soCheckExp)>if (ret) {
+    <soCheckExp>
+}<endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
 
 <endif>
@@ -403,6 +429,7 @@ CHOICE_no_tag_decode(p, sAcc, arrsChildren, sErrCode) ::=<<
 {
 	char nextTag[256];
 	ret = Xer_LA_NextElementTag(pByteStrm, nextTag);
+	*pErrCode = ret ? 0 : <sErrCode>;
 	if (ret) {
 		<arrsChildren; separator="\n">
         else {
@@ -433,8 +460,10 @@ ret = Xer_DecodeComplexElementStart(pByteStrm, <sTag>, NULL, pErrCode);
 *pErrCode = ret ? 0 : <sErrCode>;
 if (ret) {
     <sMainBody>
-    ret = Xer_DecodeComplexElementEnd(pByteStrm, <sTag>, pErrCode);
-	*pErrCode = ret ? 0 : <sErrCode>;
+    if (ret) {
+        ret = Xer_DecodeComplexElementEnd(pByteStrm, <sTag>, pErrCode);
+        *pErrCode = ret ? 0 : <sErrCode>;
+    }
 }
 >>
 
-- 
2.43.0


From 34a49bb2c077504bce6011e82a40deec11abe549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 037/106] fix: a missing XER element is reported with an error
 code

---
 StgC/xer_c.stg | 1 +
 1 file changed, 1 insertion(+)

diff --git a/StgC/xer_c.stg b/StgC/xer_c.stg
index 90cb500..cfcebff 100644
--- a/StgC/xer_c.stg
+++ b/StgC/xer_c.stg
@@ -323,6 +323,7 @@ Sequence_mandatory_child_encode(sChName, sChildContent, sChildTag) ::= <<
 Sequence_mandatory_child_decode(sChName, sChildContent, sChildTag) ::= <<
 /*Decode <sChName> */
 ret = Xer_NextStartElementIs(pByteStrm, "<sChildTag>");
+*pErrCode = ret ? 0 : ERR_INVALID_XML_FILE;
 if (ret) {
 	<sChildContent>
 }
-- 
2.43.0


From e85f65e0b9e6ac7d111692de9b0ef55e5403e886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 038/106] fix: the validation of a referenced type checks the
 constraints of every type along the chain

---
 BackendAst/DastValidate2.fs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/BackendAst/DastValidate2.fs b/BackendAst/DastValidate2.fs
index 0b1a757..ee74265 100644
--- a/BackendAst/DastValidate2.fs
+++ b/BackendAst/DastValidate2.fs
@@ -1002,19 +1002,13 @@ let createReferenceTypeFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn
     let callBaseTypeFunc = l.isvalid.call_base_type_func
     let vcbs,us = createReferenceTypeFunction_this_type r l t.id o.refCons typeDefinition resolvedType us
 
-    let moduleName, typeDefinitionName, baseTypeDefinitionName =
+    let typeDefinitionName =
         match typeDefinition with
-        | ReferenceToExistingDefinition refToExist   ->
-            match refToExist.programUnit with
-            | Some md -> md, refToExist.typedefName, refToExist.typedefName
-            | None    -> ToC t.id.ModName, refToExist.typedefName, refToExist.typedefName
+        | ReferenceToExistingDefinition refToExist   -> refToExist.typedefName
         | TypeDefinition                tdDef        ->
             match tdDef.baseType with
-            | None -> ToC t.id.ModName, tdDef.typedefName, ToC2(r.args.TypePrefix + o.tasName.Value)
-            | Some refToExist ->
-                match refToExist.programUnit with
-                | Some md -> md, refToExist.typedefName, refToExist.typedefName
-                | None    -> ToC t.id.ModName, refToExist.typedefName, refToExist.typedefName
+            | None              -> tdDef.typedefName
+            | Some refToExist   -> refToExist.typedefName
     let soTypeCasting =
         let actType = Asn1AcnAstUtilFunctions.GetActualTypeByName r o.modName o.tasName
         match t.ActualType.Kind, actType.Kind with
@@ -1024,13 +1018,14 @@ let createReferenceTypeFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn
             | false -> Some typeDefinitionName
         | _         -> None
 
+    // the type definition may be the one of a type further down a chain of references.
+    // The function to call is the one of the referenced type, since it also checks the constraints added along the chain.
     let baseFncName =
-        match l.lg.hasModules with
-        | false     -> baseTypeDefinitionName + "_IsConstraintValid"
-        | true   ->
-            match t.id.ModName = o.modName.Value with
-            | true  -> baseTypeDefinitionName + "_IsConstraintValid"
-            | false -> moduleName + "." + baseTypeDefinitionName + "_IsConstraintValid"
+        let referencedType = ((r.GetModuleByName o.modName).GetTypeAssignmentByName o.tasName r).Type
+        let referencedDef = l.lg.getTypeDefinition referencedType.FT_TypeDefinition
+        match l.lg.hasModules && t.id.ModName <> o.modName.Value with
+        | false     -> referencedDef.typeName + "_IsConstraintValid"
+        | true      -> referencedDef.programUnit + "." + referencedDef.typeName + "_IsConstraintValid"
 
 
     // NULL has no validation function, no matter how many references lead to it
-- 
2.43.0


From d37c06a1ecf061a396cb69d82c457bab36c27a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 039/106] fix: strings are initialised when the initial values
 are constants

---
 BackendAst/DAstInitialize.fs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/BackendAst/DAstInitialize.fs b/BackendAst/DAstInitialize.fs
index 5478676..f344280 100644
--- a/BackendAst/DAstInitialize.fs
+++ b/BackendAst/DAstInitialize.fs
@@ -191,8 +191,14 @@ let createInitFunctionCommon (r: Asn1AcnAst.AstRoot) (lm: LanguageMacros) (o: As
             | Some funcName     ->
                 let initExpression = initExpressionFnc ()
                 let initExpressionGlobal = initExpressionGlobalFnc ()
+                // a string is an array in C, the constant cannot be assigned to it
+                let isAssignable =
+                    match o.ActualType.Kind with
+                    | Asn1AcnAst.IA5String _
+                    | Asn1AcnAst.NumericString _ -> false
+                    | _                          -> true
                 let initProc = 
-                    match r.args.generateConstInitGlobals && globalName.IsSome with
+                    match r.args.generateConstInitGlobals && globalName.IsSome && isAssignable with
                     | true ->
                         let funcBody = lm.init.assignAny (lm.lg.getValue p.accessPath) globalName.Value tdName
                         let func = initTypeAssignment varName sPtrPrefix sPtrSuffix funcName  tdName funcBody [] initExpression funcDefAnnots
-- 
2.43.0


From c9be5e0e468de6bb4b72e63062d898d9a15ad74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 040/106] fix: equality of a reference to a reference with its
 own type definition does not call itself

---
 BackendAst/DAstEqual.fs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BackendAst/DAstEqual.fs b/BackendAst/DAstEqual.fs
index 3082755..812f27e 100644
--- a/BackendAst/DAstEqual.fs
+++ b/BackendAst/DAstEqual.fs
@@ -326,7 +326,11 @@ let createReferenceTypeEqualFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros)
     | NullType _
     | IA5String _
     | ReferenceType _ ->
-        let bs = baseType.equalFunction
+        let bs =
+            match defOrRef with
+            // a type of its own, not a subtype: the body of the reference would call the function of this very type
+            | TypeDefinition tdDef when tdDef.baseType.IsNone   -> baseType.ActualType.equalFunction
+            | _                                                 -> baseType.equalFunction
         createEqualFunction_any r lm t defOrRef bs.isEqualBody, us
     | OctetString _
     | BitString  _
-- 
2.43.0


From 3df1b0883858f9fc3a27b4d6858546027d6b5e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 041/106] fix: the initial value of a constrained enumeration
 is one of the permitted values

---
 BackendAst/DAstInitialize.fs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BackendAst/DAstInitialize.fs b/BackendAst/DAstInitialize.fs
index f344280..35c777b 100644
--- a/BackendAst/DAstInitialize.fs
+++ b/BackendAst/DAstInitialize.fs
@@ -712,7 +712,7 @@ let createEnumeratedInitFunc (r: Asn1AcnAst.AstRoot) (lm: LanguageMacros) (t: As
                         {InitFunctionResult.funcBody = initEnumerated (lm.lg.getValue p.accessPath) (lm.lg.getNamedItemBackendName (Some typeDefinition) vl) tdName p.accessPath.isOptional resVar; resultVar = resVar; localVariables=[]});
                 testCaseTypeIDsMap = Map.ofList [(t.id, (TcvEnumeratedValue vl.Name.Value))]
             })
-    let constantInitExpression () = lm.lg.getNamedItemBackendName (Some typeDefinition) o.items.Head
+    let constantInitExpression () = lm.lg.getNamedItemBackendName (Some typeDefinition) (EncodeDecodeTestCase.EnumeratedAutomaticTestCaseValues2 r t o).Head
     createInitFunctionCommon r lm t typeDefinition funcBody testCaseFuncs.Head.initTestCaseFunc testCaseFuncs constantInitExpression constantInitExpression [] [] []
 
 let getChildExpression (lm:LanguageMacros) (childType:Asn1Type) =
-- 
2.43.0


From a934a565f470e4ab6352a805f812811cdbc09926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 042/106] fix: a default value of a variable-size bit string
 has its number of bits

---
 BackendAst/DAstInitialize.fs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BackendAst/DAstInitialize.fs b/BackendAst/DAstInitialize.fs
index 35c777b..8db9054 100644
--- a/BackendAst/DAstInitialize.fs
+++ b/BackendAst/DAstInitialize.fs
@@ -489,15 +489,15 @@ let createBitStringInitFunc (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (t:Asn1Ac
     let initFixVarSizeBitOrOctString    = lm.init.initFixVarSizeBitOrOctString
     let initTestCaseBitString           = lm.init.initTestCaseBitString
     let funcBody (p:CodegenScope) (v:Asn1ValueKind) =
-        let bytes =
+        let bytes, nBits =
             match v.ActualValue with
-            | BitStringValue iv     -> bitStringValueToByteArray (StringLoc.ByValue iv) |> Seq.toList
-            | OctetStringValue iv   -> iv
+            | BitStringValue iv     -> bitStringValueToByteArray (StringLoc.ByValue iv) |> Seq.toList, iv.Length
+            | OctetStringValue iv   -> iv, 8 * iv.Length
             | _                     -> raise(BugErrorException "UnexpectedValue")
         let arrsBytes = bytes |> List.mapi(fun i b -> initFixSizeBitOrOctString_bytei (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) ((i + lm.lg.ArrayStartIndex).ToString()) (sprintf "%x" b))
         match o.minSize.uper = o.maxSize.uper with
         | true  -> initFixSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) arrsBytes
-        | false -> initFixVarSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) (BigInteger arrsBytes.Length) arrsBytes
+        | false -> initFixVarSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) (BigInteger nBits) arrsBytes
 
     let anonyms =
         o.AllCons |>
-- 
2.43.0


From d18362a3cc44120f0f0f77a6a5d5d2fa47d7a058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 043/106] fix: BER readers and writers accessed the byte after
 the buffer

---
 asn1crt/asn1crt_encoding_ber.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index 4355355..4450aaf 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -13,7 +13,7 @@ int GetLengthInBytesOfSInt(asn1SccSint v);
 
 static flag ByteStream_PutByte(ByteStream* pStrm, byte v)
 {
-	if (pStrm->currentByte + 1>pStrm->count + 1)
+	if (pStrm->currentByte + 1 > pStrm->count)
 		return FALSE;
 
 	pStrm->buf[pStrm->currentByte] = v;
@@ -22,7 +22,7 @@ static flag ByteStream_PutByte(ByteStream* pStrm, byte v)
 }
 
 static flag ByteStream_GetByte(ByteStream* pStrm, byte* v) {
-	if (pStrm->currentByte + 1>pStrm->count + 1)
+	if (pStrm->currentByte + 1 > pStrm->count)
 		return FALSE;
 	*v = pStrm->buf[pStrm->currentByte];
 	pStrm->currentByte++;
-- 
2.43.0


From 31fd1011f43e75bb28ce2ae2447de15c73ac7dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 044/106] fix: BER lengths that do not fit an int wrapped
 around, and primitive types took the indefinite length for -1 octets

---
 asn1crt/asn1crt_encoding_ber.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index 4450aaf..b1303b4 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -5,6 +5,7 @@
 #include <float.h>
 #include <ctype.h>
 #include <stdlib.h>
+#include <limits.h>
 
 #include "asn1crt_encoding_ber.h"
 
@@ -162,6 +163,10 @@ flag BerDecodeLength(ByteStream* pByteStrm, int* value, int *pErrCode)
 			*pErrCode = ERR_INSUFFICIENT_DATA;
 			return FALSE;
 		}
+		if (ret > (unsigned int)(INT_MAX >> 8)) {
+			*pErrCode = ERR_BER_LENGTH_MISMATCH;
+			return FALSE;
+		}
 		ret <<= 8;
 		ret |= curByte;
 	}
@@ -169,6 +174,18 @@ flag BerDecodeLength(ByteStream* pByteStrm, int* value, int *pErrCode)
 	return TRUE;
 }
 
+/* primitive encodings have a definite length */
+static flag BerDecodeDefiniteLength(ByteStream* pByteStrm, int* value, int *pErrCode)
+{
+	if (!BerDecodeLength(pByteStrm, value, pErrCode))
+		return FALSE;
+	if (*value < 0) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
+	return TRUE;
+}
+
 static flag BerEncodeLength(ByteStream* pByteStrm, int value, int *pErrCode)
 {
 	asn1SccUint uv = (asn1SccUint)value;
@@ -247,7 +264,7 @@ flag BerDecodeInteger(ByteStream* pByteStrm, BerTag tag, asn1SccSint *value, int
 
 	if (!BerDecodeTag(pByteStrm, tag, pErrCode))
 		return FALSE;
-	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
+	if (!BerDecodeDefiniteLength(pByteStrm, &length, pErrCode))
 		return FALSE;
 
 	for (i = 0; i<length; i++) {
@@ -290,7 +307,7 @@ flag BerDecodeBoolean(ByteStream* pByteStrm, BerTag tag, flag *value, int *pErrC
 	if (!BerDecodeTag(pByteStrm, tag, pErrCode))
 		return FALSE;
 
-	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
+	if (!BerDecodeDefiniteLength(pByteStrm, &length, pErrCode))
 		return FALSE;
 
 	if (length != 1) {
@@ -390,7 +407,7 @@ flag BerDecodeIA5String(ByteStream* pByteStrm, BerTag tag, char* value, int maxL
 
 	if (!BerDecodeTag(pByteStrm, tag, pErrCode))
 		return FALSE;
-	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
+	if (!BerDecodeDefiniteLength(pByteStrm, &length, pErrCode))
 		return FALSE;
 
 
@@ -424,7 +441,7 @@ flag BerDecodeNull(ByteStream* pByteStrm, BerTag tag, int *pErrCode) {
 	if (!BerDecodeTag(pByteStrm, tag, pErrCode))
 		return FALSE;
 
-	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
+	if (!BerDecodeDefiniteLength(pByteStrm, &length, pErrCode))
 		return FALSE;
 
 	if (length != 0) {
@@ -479,7 +496,7 @@ flag BerDecodeBitString(ByteStream* pByteStrm, BerTag tag, byte* value, int *bit
 	if (!BerDecodeTag(pByteStrm, tag, pErrCode))
 		return FALSE;
 
-	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
+	if (!BerDecodeDefiniteLength(pByteStrm, &length, pErrCode))
 		return FALSE;
 
 	if (!ByteStream_GetByte(pByteStrm, &lastByteUnusedBits)) {
@@ -538,7 +555,7 @@ flag BerDecodeOctetString(ByteStream* pByteStrm, BerTag tag, byte* value, int *o
 
 	if (!BerDecodeTag(pByteStrm, tag, pErrCode))
 		return FALSE;
-	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
+	if (!BerDecodeDefiniteLength(pByteStrm, &length, pErrCode))
 		return FALSE;
 
 	if (octCount != NULL)
-- 
2.43.0


From 5dd3908048ba346e7c526553ee120fdcd970ff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 045/106] fix: BER integers without contents or of more octets
 than the target were decoded to a wrong value

---
 asn1crt/asn1crt_encoding_ber.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index b1303b4..5190e1c 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -267,6 +267,11 @@ flag BerDecodeInteger(ByteStream* pByteStrm, BerTag tag, asn1SccSint *value, int
 	if (!BerDecodeDefiniteLength(pByteStrm, &length, pErrCode))
 		return FALSE;
 
+	if (length < 1 || length > WORD_SIZE) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
+
 	for (i = 0; i<length; i++) {
 		byte curByte;
 
-- 
2.43.0


From 6f963c173ee91dd0195cce641920429e63fd5296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 046/106] fix: malformed and over-long BER bit strings were
 accepted with a wrong number of bits

---
 asn1crt/asn1crt_encoding_ber.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index 5190e1c..7703e01 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -509,18 +509,19 @@ flag BerDecodeBitString(ByteStream* pByteStrm, BerTag tag, byte* value, int *bit
 		return FALSE;
 	}
 
+	if (length < 1 || lastByteUnusedBits > 7 || (length == 1 && lastByteUnusedBits != 0) ||
+		length - 1 > maxBytesLen || (length - 1 == maxBytesLen && (length - 1) * 8 - lastByteUnusedBits > maxBitCount)) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
+
 	for (i = 0; i<length - 1; i++) {
 		if (!ByteStream_GetByte(pByteStrm, &curByte)) {
 			*pErrCode = ERR_INSUFFICIENT_DATA;
 			return FALSE;
 		}
-		if (i<maxBytesLen) {
-			nbitCnt += 8;
-			value[i] = curByte;
-		}
-		else {
-			lastByteUnusedBits = 0;
-		}
+		nbitCnt += 8;
+		value[i] = curByte;
 	}
 
 	nbitCnt -= lastByteUnusedBits;
-- 
2.43.0


From 4a9e76111adcdabcaf2d44d8ca419ca249608783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 047/106] fix: BER octet and character strings longer than the
 target were silently cut

---
 asn1crt/asn1crt_encoding_ber.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index 7703e01..2d8e5f7 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -416,13 +416,17 @@ flag BerDecodeIA5String(ByteStream* pByteStrm, BerTag tag, char* value, int maxL
 		return FALSE;
 
 
+	if (length > maxLength) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
+
 	for (i = 0; i<length; i++) {
 		if (!ByteStream_GetByte(pByteStrm, &curByte)) {
 			*pErrCode = ERR_INSUFFICIENT_DATA;
 			return FALSE;
 		}
-		if (i<maxLength)
-			value[i] = (char)curByte;
+		value[i] = (char)curByte;
 	}
 
 	return TRUE;
@@ -564,16 +568,20 @@ flag BerDecodeOctetString(ByteStream* pByteStrm, BerTag tag, byte* value, int *o
 	if (!BerDecodeDefiniteLength(pByteStrm, &length, pErrCode))
 		return FALSE;
 
+	if (length > maxOctCount) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
+
 	if (octCount != NULL)
-		*octCount = length <= maxOctCount ? length : maxOctCount;
+		*octCount = length;
 
 	for (i = 0; i<length; i++) {
 		if (!ByteStream_GetByte(pByteStrm, &curByte)) {
 			*pErrCode = ERR_INSUFFICIENT_DATA;
 			return FALSE;
 		}
-		if (i<maxOctCount)
-			value[i] = curByte;
+		value[i] = curByte;
 	}
 
 	return TRUE;
-- 
2.43.0


From 000dff2c28caa90d4e9ba829f903ebcc08a7a879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 048/106] fix: the constructed bit of BER tags of more than
 four octets was computed with an overflowing shift

---
 asn1crt/asn1crt_encoding_ber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index 2d8e5f7..fe111e0 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -93,7 +93,7 @@ flag BerDecodeTag(ByteStream* pByteStrm, BerTag tag, int *pErrCode) {
 		tgCopy >>= 8;
 		tagSize++;
 	}
-	PrimitiveBit = (BerTag)(0x20 << ((tagSize - 1) * 8));
+	PrimitiveBit = (BerTag)0x20 << ((tagSize - 1) * 8);
 
 	while (tagSize>0) {
 		if (!ByteStream_GetByte(pByteStrm, &curByte)) {
-- 
2.43.0


From 207330d0e7691511e9c478c847a8bab155880e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 049/106] fix: XER numbers that are no numbers or do not fit
 the target were decoded to some value

---
 asn1crt/asn1crt_encoding_xer.c | 51 +++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index e71e58d..e698000 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -6,6 +6,7 @@
 #include <ctype.h>
 #include <stdlib.h>
 #include <inttypes.h>
+#include <errno.h>
 
 #include "asn1crt_encoding_xer.h"
 
@@ -763,14 +764,49 @@ flag Xer_DecodeNull(ByteStream* pByteStrm, const char* elementTag, NullType* val
 
 
 
+/* a number is followed by white space at most */
+static flag OnlySpaceLeft(const char* start, const char* end)
+{
+	if (start == end)
+		return FALSE;
+	while (isspace((byte)*end))
+		end++;
+	return *end == 0x0;
+}
+
+static flag ParseUInt(const char* text, asn1SccUint* value)
+{
+	char* end;
+	unsigned long long v;
+
+	while (isspace((byte)*text))
+		text++;
+	if (!isdigit((byte)*text) && *text != '+')
+		return FALSE;
+	errno = 0;
+	v = strtoull(text, &end, 10);
+	*value = (asn1SccUint)v;
+	return errno == 0 && *value == v && OnlySpaceLeft(text, end);
+}
+
+static flag ParseInt(const char* text, asn1SccSint* value)
+{
+	char* end;
+	long long v;
+
+	errno = 0;
+	v = strtoll(text, &end, 10);
+	*value = (asn1SccSint)v;
+	return errno == 0 && *value == v && OnlySpaceLeft(text, end);
+}
+
 flag Xer_DecodeInteger(ByteStream* pByteStrm, const char* elementTag, asn1SccSint* value, int *pErrCode)
 {
 	char tmp[256];
 	memset(tmp, 0x0, sizeof(tmp));
 	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
 		return FALSE;
-	*value = atoll(tmp);
-	return TRUE;
+	return ParseInt(tmp, value);
 }
 
 flag Xer_DecodePosInteger(ByteStream* pByteStrm, const char* elementTag, asn1SccUint* value, int *pErrCode)
@@ -779,8 +815,7 @@ flag Xer_DecodePosInteger(ByteStream* pByteStrm, const char* elementTag, asn1Scc
 	memset(tmp, 0x0, sizeof(tmp));
 	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
 		return FALSE;
-	*value = strtoull(tmp, NULL, 10);
-	return TRUE;
+	return ParseUInt(tmp, value);
 }
 
 flag Xer_DecodeBoolean(ByteStream* pByteStrm, const char* elementTag, flag* value, int *pErrCode)
@@ -840,11 +875,12 @@ flag Xer_DecodeEnumerated(ByteStream* pByteStrm, const char* elementTag, char* v
 flag Xer_DecodeReal(ByteStream* pByteStrm, const char* elementTag, double* value, int *pErrCode)
 {
 	char tmp[256];
+	char* end;
 	memset(tmp, 0x0, sizeof(tmp));
 	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
 		return FALSE;
-	*value = atof(tmp);
-	return TRUE;
+	*value = strtod(tmp, &end);
+	return OnlySpaceLeft(tmp, end);
 }
 
 
@@ -943,7 +979,8 @@ flag Xer_DecodeObjectIdentifier(ByteStream* pByteStrm, const char* elementTag, A
 	i = 0;
 	while (ptr != NULL && i < OBJECT_IDENTIFIER_MAX_LENGTH)
 	{
-		pVal->values[i++] = strtoull(ptr, NULL, 10);
+		if (!ParseUInt(ptr, &pVal->values[i++]))
+			return FALSE;
 
 		ptr = strtok(NULL, delim);
 	}
-- 
2.43.0


From 780bbfa57ed96c6d79269b2d6d57fa0bd92a10e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:57 +0000
Subject: [PATCH 050/106] fix: XER octet strings of more than 511 octets and
 bit strings of more than 2047 bits could not be decoded

---
 asn1crt/asn1crt_encoding_xer.c | 112 ++++++++++++++++-----------------
 1 file changed, 56 insertions(+), 56 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index e698000..8332b25 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -890,6 +890,35 @@ flag Xer_DecodeString(ByteStream* pByteStrm, const char* elementTag, char* value
 }
 
 
+/* Finds the contents of an element that has neither child elements nor entities: they may have any length. */
+static flag Xer_LocatePrimitiveContents(ByteStream* pByteStrm, const char* elementTag, const byte** pContents, long* pLength, int *pErrCode)
+{
+	Token t;
+
+	*pErrCode = ERR_INVALID_XML_FILE; /* +++ */
+	*pContents = NULL;
+	*pLength = 0;
+
+	if (NT(pByteStrm).TokenID != '<')
+		return FALSE;
+	t = NT(pByteStrm);
+	if ((t.TokenID != WORD_ID) || (strcmp(t.Value, elementTag) != 0))
+		return FALSE;
+	t = NT(pByteStrm);
+	if (t.TokenID == '/')
+		return NT(pByteStrm).TokenID == '>';
+	if (t.TokenID != '>')
+		return FALSE;
+
+	*pContents = pByteStrm->buf + pByteStrm->currentByte;
+	while (pByteStrm->currentByte < pByteStrm->count && pByteStrm->buf[pByteStrm->currentByte] != '<') {
+		pByteStrm->currentByte++;
+		(*pLength)++;
+	}
+
+	return Xer_DecodeComplexElementEnd(pByteStrm, elementTag, pErrCode);
+}
+
 flag CharToNibble(char c, byte* pNibble) {
 	*pNibble = 0;
 	if (c >= '0' && c <= '9') {
@@ -909,42 +938,32 @@ flag CharToNibble(char c, byte* pNibble) {
 
 flag Xer_DecodeOctetString(ByteStream* pByteStrm, const char* elementTag, byte value[], int bufferMaxSize, int* nCount, int *pErrCode)
 {
-	char tmp[1024];
-	int len = 0;
-	int i;
-	int j = 0;
-	memset(tmp, 0x0, sizeof(tmp));
-	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
-		return FALSE;
-
-	len = (int)strlen(tmp);
+	const byte* text;
+	long len;
+	long i;
+	int nibbles = 0;
 
-	for (i = 0; i<len; i++) {
-		if (isspace((byte)tmp[i]))
-			continue;
-		tmp[j++] = tmp[i];
-	}
-
-	len = j;
-
-	if (len / 2 + len % 2 > bufferMaxSize) {
-		*pErrCode = ERR_INVALID_XML_FILE;
+	if (!Xer_LocatePrimitiveContents(pByteStrm, elementTag, &text, &len, pErrCode))
 		return FALSE;
-	}
 
 	for (i = 0; i<len; i++) {
 		byte nibble;
-		if (!CharToNibble(tmp[i], &nibble))
+		if (isspace(text[i]))
+			continue;
+		if (!CharToNibble((char)text[i], &nibble) || nibbles / 2 >= bufferMaxSize) {
+			*pErrCode = ERR_INVALID_XML_FILE;
 			return FALSE;
-		if (i % 2 == 0) {
-			value[i / 2] = (byte)(nibble << 4);
+		}
+		if (nibbles % 2 == 0) {
+			value[nibbles / 2] = (byte)(nibble << 4);
 		}
 		else {
-			value[i / 2] |= nibble;
+			value[nibbles / 2] |= nibble;
 		}
+		nibbles++;
 	}
 	if (nCount != NULL)
-		*nCount = len / 2 + len % 2;
+		*nCount = nibbles / 2 + nibbles % 2;
 
 	return TRUE;
 }
@@ -1010,47 +1029,28 @@ flag Xer_DecodeObjectIdentifier(ByteStream* pByteStrm, const char* elementTag, A
 
 flag Xer_DecodeBitString(ByteStream* pByteStrm, const char* elementTag, byte value[], int bufferMaxSize, int* nCount, int *pErrCode)
 {
-	char tmp[2048];
-	int len = 0;
-	int i;
-	int bytes;
-	int j = 0;
+	const byte* text;
+	long len;
+	long i;
+	int bits = 0;
 
-	memset(tmp, 0x0, sizeof(tmp));
-	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
+	if (!Xer_LocatePrimitiveContents(pByteStrm, elementTag, &text, &len, pErrCode))
 		return FALSE;
 
-	len = (int)strlen(tmp);
 	for (i = 0; i<len; i++) {
-		if (isspace((byte)tmp[i]))
+		if (isspace(text[i]))
 			continue;
-		tmp[j++] = tmp[i];
-	}
-	len = j;
-
-	bytes = len / 8;
-	if (len % 8)
-		bytes++;
-
-	if (len > bufferMaxSize) {
-		*pErrCode = ERR_INVALID_XML_FILE;
-		return FALSE;
-	}
-
-	memset(value, 0x0, (size_t)bytes);
-
-
-	for (i = 0; i<len; i++) {
-		byte curVal = (byte)(tmp[i] - '0');
-		if (curVal > 1) {
+		if ((text[i] != '0' && text[i] != '1') || bits >= bufferMaxSize) {
 			*pErrCode = ERR_INVALID_XML_FILE;
 			return FALSE;
 		}
-		int curBit = 7 - i % 8;
-		value[i / 8] |= (byte)(curVal << curBit);
+		if (bits % 8 == 0)
+			value[bits / 8] = 0;
+		value[bits / 8] |= (byte)((text[i] - '0') << (7 - bits % 8));
+		bits++;
 	}
 	if (nCount != NULL)
-		*nCount = len;
+		*nCount = bits;
 
 	return TRUE;
 }
-- 
2.43.0


From 6ece3339fde5212e7d3ff51c972c58423d1e7755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 051/106] fix: XER contents were cut at a NUL character

---
 asn1crt/asn1crt_encoding_xer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 8332b25..35cc494 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -324,7 +324,7 @@ flag Xer_DecodePrimitiveElement(ByteStream* pByteStrm, const char* elementTag, c
 			pDecodedValue++;
 			break;
 		}
-		if (c == '&' && !DecodeEntity(pByteStrm, &c)) {
+		if (c == 0x0 || (c == '&' && !DecodeEntity(pByteStrm, &c))) {
 			*pErrCode = ERR_INVALID_XML_FILE;
 			return FALSE;
 		}
-- 
2.43.0


From 70a7c2c253942af039203a855404597ed272010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 052/106] fix: XER booleans and enumerated values without a
 readable element were refused without an error code

---
 asn1crt/asn1crt_encoding_xer.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 35cc494..6da0d9b 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -828,8 +828,10 @@ flag Xer_DecodeBoolean(ByteStream* pByteStrm, const char* elementTag, flag* valu
 		if (!Xer_DecodeComplexElementStart(pByteStrm, elementTag, NULL, pErrCode))
 			return FALSE;
 
-	if (!Xer_LA_NextElementTag(pByteStrm, tmp))
+	if (!Xer_LA_NextElementTag(pByteStrm, tmp)) {
+		*pErrCode = ERR_INVALID_XML_FILE; /* +++ */
 		return FALSE;
+	}
 
 	if (strcmp(tmp, "true") == 0) {
 		*value = TRUE;
@@ -859,8 +861,10 @@ flag Xer_DecodeEnumerated(ByteStream* pByteStrm, const char* elementTag, char* v
 		if (!Xer_DecodeComplexElementStart(pByteStrm, elementTag, NULL, pErrCode))
 			return FALSE;
 
-	if (!Xer_LA_NextElementTag(pByteStrm, value))
+	if (!Xer_LA_NextElementTag(pByteStrm, value)) {
+		*pErrCode = ERR_INVALID_XML_FILE; /* +++ */
 		return FALSE;
+	}
 
 	if (!Xer_DecodePrimitiveElement(pByteStrm, value, tmp, sizeof(tmp), pErrCode))
 		return FALSE;
-- 
2.43.0


From d47cc0cffa7156f980546dde4c5b63a9add3a80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 053/106] fix: an unconstrained whole number of zero octets was
 decoded to a value that depended on the bits behind it

---
 asn1crt/asn1crt_encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index dc77336..559f67f 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1017,7 +1017,7 @@ flag BitStream_DecodeUnConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint* v
 
 	if (!BitStream_DecodeConstraintWholeNumber(pBitStrm, &nBytes, 0, 255))
 		return FALSE;
-	if (nBytes > WORD_SIZE)
+	if (nBytes < 1 || nBytes > WORD_SIZE)
 		return FALSE;
 
 	valIsNegative = BitStream_PeekBit(pBitStrm);
-- 
2.43.0


From 65ae881167b870e5617984225bba263119742a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 054/106] fix: octet strings that span the streaming buffer
 repeated their first octets

---
 asn1crt/asn1crt_encoding.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 559f67f..61a74a7 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1432,7 +1432,10 @@ flag BitStream_EncodeOctetString_no_length (BitStream* pBitStrm, const byte* arr
 				remainingBytesToSend :
 				pBitStrm->count - pBitStrm->currentByte;
 
+			if (currentBatch <= 0)
+				return FALSE;
 			memcpy(&pBitStrm->buf[pBitStrm->currentByte], arr, currentBatch);
+			arr += currentBatch;
 			pBitStrm->currentByte += currentBatch;
 			bitstream_push_data_if_required(pBitStrm);
 			remainingBytesToSend -= currentBatch;
@@ -1473,7 +1476,10 @@ flag BitStream_DecodeOctetString_no_length(BitStream* pBitStrm, byte* arr, int n
                 remainingBytesToRead :
                 pBitStrm->count - pBitStrm->currentByte;
 
+            if (currentBatch <= 0)
+                return FALSE;
             memcpy(arr, &pBitStrm->buf[pBitStrm->currentByte], currentBatch);
+            arr += currentBatch;
             pBitStrm->currentByte += currentBatch;
             bitstream_fetch_data_if_required(pBitStrm);
             remainingBytesToRead -= currentBatch;
-- 
2.43.0


From 5e3d92c102c472249ac70c6998a2640502e6720b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 055/106] fix: bits already pushed were left in the streaming
 buffer and mixed with the following ones

---
 asn1crt/asn1crt_encoding.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 61a74a7..e91d558 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1833,6 +1833,7 @@ void bitstream_fetch_data_if_required(BitStream* pStrm) {
 void bitstream_push_data_if_required(BitStream* pStrm) {
 	if (pStrm->currentByte == pStrm->count && pStrm->pushDataPrm != NULL) {
 		pushData(pStrm, pStrm->pushDataPrm);
+		memset(pStrm->buf, 0x0, (size_t)pStrm->count);
 		pStrm->currentByte = 0;
 	}
 }
-- 
2.43.0


From c5d36dbeece66e2241172412af738849320911ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 056/106] fix: streaming lost zero bits that span more than one
 buffer

---
 asn1crt/asn1crt_encoding.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index e91d558..c00f381 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -167,15 +167,14 @@ void BitStream_AppendNBitZero(BitStream* pBitStrm, int nbits)
 	int totalBytes = totalBits / 8;
 	pBitStrm->currentBit = totalBits % 8;
 	//pBitStrm->currentByte += totalBits / 8;
-	if (pBitStrm->currentByte + totalBytes <= pBitStrm->count) {
-		pBitStrm->currentByte += totalBytes;
-		bitstream_push_data_if_required(pBitStrm);
-	} else {
-		int extraBytes = pBitStrm->currentByte + totalBytes - pBitStrm->count;
+	while (pBitStrm->count > 0 && pBitStrm->currentByte + totalBytes > pBitStrm->count) {
+		totalBytes -= (int)(pBitStrm->count - pBitStrm->currentByte);
 		pBitStrm->currentByte = pBitStrm->count;
 		bitstream_push_data_if_required(pBitStrm);
-		pBitStrm->currentByte = extraBytes;
+		pBitStrm->currentByte = 0;
 	}
+	pBitStrm->currentByte += totalBytes;
+	bitstream_push_data_if_required(pBitStrm);
 }
 
 void BitStream_AppendNBitOne(BitStream* pBitStrm, int nbits)
-- 
2.43.0


From db7dc605388c63334cfd6edad0b5f21ba4fba499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 057/106] fix: an octet that straddles the end of the streaming
 buffer could not be read

---
 asn1crt/asn1crt_encoding.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index c00f381..45f054c 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -372,6 +372,11 @@ flag BitStream_ReadByte(BitStream* pBitStrm, byte* v)
 	int requiredBytes = (cb > 0) ? 2 : 1;
 	int availableBytes = pBitStrm->count - pBitStrm->currentByte;
 
+#ifdef ASN1SCC_STREAMING
+	if (pBitStrm->fetchDataPrm != NULL)
+		requiredBytes = 1; // the next byte is fetched below
+#endif
+
 	if (availableBytes < requiredBytes) {
 		return FALSE;
 	}
-- 
2.43.0


From 92648825064b31f11a9c3e1185c40c4dd4288f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 058/106] fix: byte arrays that do not fit into the rest of the
 streaming buffer were refused

---
 asn1crt/asn1crt_encoding.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 45f054c..adb026e 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -326,6 +326,9 @@ flag BitStream_AppendByteArray(BitStream* pBitStrm, const byte arr[], const int
     byte mask = (byte)~masksb[ncb];
     byte nmask = (byte)~mask;
     //if (pBitStrm->currentByte + (int)arr_len + (cb > 0 ? 1 : 0) >= pBitStrm->count)
+#ifdef ASN1SCC_STREAMING
+    if (pBitStrm->pushDataPrm == NULL)
+#endif
     if ( (pBitStrm->currentByte + arr_len)*8 + cb > pBitStrm->count*8)
         return FALSE;
 
-- 
2.43.0


From 0b899170ee187ebcafd6bd13ca3cad9fcfb93f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 059/106] fix: streaming builds read byte arrays past the end
 of a buffer that has no transport

---
 asn1crt/asn1crt_encoding.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index adb026e..ea4e62c 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -404,10 +404,11 @@ flag BitStream_ReadByteArray(BitStream* pBitStrm, byte* arr, int arr_len) {
     int ncb = 8 - cb;
 	byte* wb = arr;
 
-#ifndef ASN1SCC_STREAMING
+#ifdef ASN1SCC_STREAMING
+    if (pBitStrm->fetchDataPrm == NULL)
+#endif
     if ( (pBitStrm->currentByte + arr_len)*8 + cb > pBitStrm->count*8)
         return FALSE;
-#endif
 
     for (int i = 0; i < arr_len; i++) {
 		*wb = (byte)(pBitStrm->buf[pBitStrm->currentByte++] << cb);
-- 
2.43.0


From 5ca2d225a3c543dc3b624714ca437fc14339e27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:29 +0000
Subject: [PATCH 060/106] fix: the XER and BER real functions did not compile
 with FP_WORD_SIZE=4

---
 asn1crt/asn1crt_encoding_ber.c | 4 ++--
 asn1crt/asn1crt_encoding_xer.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index fe111e0..9bf58f6 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -330,7 +330,7 @@ flag BerDecodeBoolean(ByteStream* pByteStrm, BerTag tag, flag *value, int *pErrC
 	return TRUE;
 }
 
-flag BerEncodeReal(ByteStream* pByteStrm, BerTag tag, double value, int *pErrCode) {
+flag BerEncodeReal(ByteStream* pByteStrm, BerTag tag, asn1Real value, int *pErrCode) {
 	byte buf[100];
 	BitStream tmp;
 	byte length;
@@ -360,7 +360,7 @@ flag BerEncodeReal(ByteStream* pByteStrm, BerTag tag, double value, int *pErrCod
 
 }
 
-flag BerDecodeReal(ByteStream* pByteStrm, BerTag tag, double *value, int *pErrCode) {
+flag BerDecodeReal(ByteStream* pByteStrm, BerTag tag, asn1Real *value, int *pErrCode) {
 	/*  int length=0;
 	byte buf[100];*/
 	BitStream tmp;
diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 6da0d9b..5350b52 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -876,7 +876,7 @@ flag Xer_DecodeEnumerated(ByteStream* pByteStrm, const char* elementTag, char* v
 	return TRUE;
 }
 
-flag Xer_DecodeReal(ByteStream* pByteStrm, const char* elementTag, double* value, int *pErrCode)
+flag Xer_DecodeReal(ByteStream* pByteStrm, const char* elementTag, asn1Real* value, int *pErrCode)
 {
 	char tmp[256];
 	char* end;
-- 
2.43.0


From 9b193dc3f8bd96fc965ed79f9b7e9f84996f1b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:09 +0000
Subject: [PATCH 061/106] fix: with 4-byte words the mantissa of a double
 precision REAL lost its high half

---
 asn1crt/asn1crt_encoding.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index ea4e62c..5dfff57 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -738,12 +738,10 @@ int GetLengthInBytesOfUInt(asn1SccUint64 v)
 {
 	int ret = 0;
 	asn1SccUint32 v32 = (asn1SccUint32)v;
-#if WORD_SIZE==8
 	if (v>0xFFFFFFFF) {
 		ret = 4;
 		v32 = (asn1SccUint32)(v >> 32);
 	}
-#endif
 
 	if (v32<0x100)
 		return ret + 1;
@@ -1229,9 +1227,11 @@ void BitStream_EncodeReal(BitStream* pBitStrm, asn1Real v)
 	}
 
 
-	/* encode mantissa */
-	BitStream_AppendNBitZero(pBitStrm, nManLen * 8 - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)(mantissa)));
-	BitStream_EncodeNonNegativeInteger(pBitStrm, mantissa);
+	/* encode mantissa: it may be wider than asn1SccUint */
+	while (nManLen > 0) {
+		nManLen--;
+		BitStream_AppendByte0(pBitStrm, (byte)(mantissa >> (nManLen * 8)));
+	}
 
 }
 
-- 
2.43.0


From 2041b440202bbad607c8c25e8a7f3c2fa924d3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:09 +0000
Subject: [PATCH 062/106] fix: with 4-byte words integers encoded in more than
 32 bits were silently truncated

---
 asn1crt/asn1crt_encoding.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 5dfff57..9419c45 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -666,6 +666,14 @@ flag BitStream_DecodeNonNegativeInteger(BitStream* pBitStrm, asn1SccUint* v, int
 	*v |= lo;
 	return ret;
 #else
+	/* the bits that do not fit in v must be zero */
+	while (nBits > 32) {
+		flag bit = FALSE;
+		*v = 0;
+		if (!BitStream_ReadBit(pBitStrm, &bit) || bit)
+			return FALSE;
+		nBits--;
+	}
 	return BitStream_DecodeNonNegativeInteger32Neg(pBitStrm, v, nBits);
 #endif
 }
-- 
2.43.0


From 9be25baa3c3ac438cfe311c42ee87141177224aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:09 +0000
Subject: [PATCH 063/106] fix: with 4-byte words the high half of 64 bit ACN
 integers was ignored or wrong

---
 asn1crt/asn1crt_encoding_acn.c | 75 +++++++++++++++++++++++++++++-----
 1 file changed, 64 insertions(+), 11 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 5cad819..a91be3b 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -111,6 +111,31 @@ static void Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_B(BitStream* pBitSt
 	CHECK_BIT_STREAM(pBitStrm);
 }
 
+#if WORD_SIZE!=8
+/* the octets of a 64 bit integer that an asn1SccUint does not hold: 0x00, or 0xFF for negative numbers */
+static void Acn_Enc_SignExtension(BitStream* pBitStrm, byte sign)
+{
+	int i;
+	for (i = 0; i < 8 - WORD_SIZE; i++) {
+		BitStream_AppendByte0(pBitStrm, sign);
+	}
+}
+
+static flag Acn_Dec_SignExtension(BitStream* pBitStrm, byte* pSign)
+{
+	int i;
+	for (i = 0; i < 8 - WORD_SIZE; i++) {
+		byte b = 0;
+		if (!BitStream_ReadByte(pBitStrm, &b))
+			return FALSE;
+		if ((b != 0x0 && b != 0xFF) || (i > 0 && b != *pSign))
+			return FALSE;
+		*pSign = b;
+	}
+	return TRUE;
+}
+#endif
+
 void Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16(BitStream* pBitStrm, asn1SccUint intVal)
 {
 	Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_B(pBitStrm, intVal, 2);
@@ -125,10 +150,7 @@ void Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_64(BitStream* pBitStrm, as
 {
     // Avoid dead code warnings by conditionally compiling this part.
 #if WORD_SIZE!=8
-    int i;
-    for (i = 0; i < 8 - WORD_SIZE; i++) {
-        BitStream_AppendByte0(pBitStrm, 0x0);
-    }
+    Acn_Enc_SignExtension(pBitStrm, 0x0);
 #endif
 	Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_B(pBitStrm, intVal, WORD_SIZE);
 }
@@ -163,10 +185,7 @@ void Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_64(BitStream* pBitStrm,
     Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_N(pBitStrm, intVal, WORD_SIZE);
     // Avoid dead code warnings by conditionally compiling this part.
 #if WORD_SIZE!=8
-    int i;
-    for (i = 0; i < 8 - WORD_SIZE; i++) {
-        BitStream_AppendByte0(pBitStrm, 0x0);
-    }
+    Acn_Enc_SignExtension(pBitStrm, 0x0);
 #endif
 }
 
@@ -225,8 +244,11 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(BitStream* pBitStrm, as
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(BitStream* pBitStrm, asn1SccUint* pIntVal)
 {
-    pBitStrm->currentByte += (8 - WORD_SIZE);
-
+#if WORD_SIZE!=8
+	byte sign = 0;
+	if (!Acn_Dec_SignExtension(pBitStrm, &sign) || sign != 0)
+		return FALSE;
+#endif
 	return Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_N(pBitStrm, pIntVal, WORD_SIZE);
 }
 
@@ -267,7 +289,12 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(BitStream* pBitStrm,
 {
     flag ret;
 	ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_N(pBitStrm, pIntVal, WORD_SIZE);
-    pBitStrm->currentByte += (8 - WORD_SIZE);
+#if WORD_SIZE!=8
+	{
+		byte sign = 0;
+		ret = ret && Acn_Dec_SignExtension(pBitStrm, &sign) && sign == 0;
+	}
+#endif
     return ret;
 }
 
@@ -361,7 +388,12 @@ void Acn_Enc_Int_TwosComplement_ConstSize_big_endian_32(BitStream* pBitStrm, asn
 
 void Acn_Enc_Int_TwosComplement_ConstSize_big_endian_64(BitStream* pBitStrm, asn1SccSint intVal)
 {
+#if WORD_SIZE!=8
+    Acn_Enc_SignExtension(pBitStrm, intVal < 0 ? 0xFF : 0x0);
+    Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_B(pBitStrm, int2uint(intVal), WORD_SIZE);
+#else
     Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, int2uint(intVal));
+#endif
 }
 
 void Acn_Enc_Int_TwosComplement_ConstSize_little_endian_16(BitStream* pBitStrm, asn1SccSint intVal)
@@ -376,7 +408,12 @@ void Acn_Enc_Int_TwosComplement_ConstSize_little_endian_32(BitStream* pBitStrm,
 
 void Acn_Enc_Int_TwosComplement_ConstSize_little_endian_64(BitStream* pBitStrm, asn1SccSint intVal)
 {
+#if WORD_SIZE!=8
+	Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_N(pBitStrm, int2uint(intVal), WORD_SIZE);
+	Acn_Enc_SignExtension(pBitStrm, intVal < 0 ? 0xFF : 0x0);
+#else
 	Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, int2uint(intVal));
+#endif
 }
 
 
@@ -438,8 +475,16 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(BitStream* pBitStrm, asn
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(BitStream* pBitStrm, asn1SccSint* pIntVal)
 {
 	asn1SccUint tmp = 0;
+#if WORD_SIZE!=8
+	byte sign = 0;
+	if (!Acn_Dec_SignExtension(pBitStrm, &sign) || !Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_N(pBitStrm, &tmp, WORD_SIZE))
+		return FALSE;
+	if ((uint2int(tmp, WORD_SIZE) < 0) != (sign != 0))
+		return FALSE;
+#else
 	if (!Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &tmp))
 		return FALSE;
+#endif
 	*pIntVal = uint2int(tmp, WORD_SIZE);
 	return TRUE;
 }
@@ -465,8 +510,16 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(BitStream* pBitStrm,
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(BitStream* pBitStrm, asn1SccSint* pIntVal)
 {
 	asn1SccUint tmp = 0;
+#if WORD_SIZE!=8
+	byte sign = 0;
+	if (!Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_N(pBitStrm, &tmp, WORD_SIZE) || !Acn_Dec_SignExtension(pBitStrm, &sign))
+		return FALSE;
+	if ((uint2int(tmp, WORD_SIZE) < 0) != (sign != 0))
+		return FALSE;
+#else
 	if (!Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &tmp))
 		return FALSE;
+#endif
 	*pIntVal = uint2int(tmp, WORD_SIZE);
 	return TRUE;
 }
-- 
2.43.0


From b90ffc6d598f82766f7bb9698522cd52ff0ff543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 064/106] fix: with 4-byte words two's complement ACN integers
 of more than 32 bits were silently truncated

---
 asn1crt/asn1crt_encoding_acn.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index a91be3b..d4a83bd 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -433,6 +433,11 @@ flag Acn_Dec_Int_TwosComplement_ConstSize(BitStream* pBitStrm, asn1SccSint* pInt
 	for (i = 0; i<nBytes; i++) {
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
+#if WORD_SIZE!=8
+		/* the bits that are shifted out must be copies of the sign */
+		if ((*pIntVal >> (WORD_SIZE * 8 - 9)) != (valIsNegative ? -1 : 0))
+			return FALSE;
+#endif
 		*pIntVal = (*pIntVal << 8) | b;
 	}
 
@@ -440,6 +445,10 @@ flag Acn_Dec_Int_TwosComplement_ConstSize(BitStream* pBitStrm, asn1SccSint* pInt
 	{
 		if (!BitStream_ReadPartialByte(pBitStrm, &b, (byte)rstBits))
 			return FALSE;
+#if WORD_SIZE!=8
+		if ((*pIntVal >> (WORD_SIZE * 8 - 1 - rstBits)) != (valIsNegative ? -1 : 0))
+			return FALSE;
+#endif
 		*pIntVal = (*pIntVal << rstBits) | b;
 	}
 	return TRUE;
-- 
2.43.0


From 00501a3d5f0fa54877a351e106cd1359903ada8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 065/106] fix: semi-constrained integers that do not fit in the
 integer type were decoded to another value

---
 asn1crt/asn1crt_encoding.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 9419c45..b96141a 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -981,8 +981,9 @@ flag BitStream_DecodeSemiConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint*
 			return FALSE;
 		*v = (*v << 8) | b;
 	}
-	*v += min;
-	return TRUE;
+	*v = (asn1SccSint)((asn1SccUint)*v + (asn1SccUint)min);
+	/* a smaller value means that the encoded one does not fit */
+	return *v >= min;
 }
 
 flag BitStream_DecodeSemiConstraintPosWholeNumber(BitStream* pBitStrm, asn1SccUint* v, asn1SccUint min)
@@ -1001,7 +1002,8 @@ flag BitStream_DecodeSemiConstraintPosWholeNumber(BitStream* pBitStrm, asn1SccUi
 		*v = (*v << 8) | b;
 	}
 	*v += min;
-	return TRUE;
+	/* a smaller value means that the encoded one does not fit */
+	return *v >= min;
 }
 
 
-- 
2.43.0


From 2d76f53c79544a53d3731407797ccca6c3ae5d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:13 +0000
Subject: [PATCH 066/106] fix: Ada decoder of REAL accepted any content of more
 than 12 octets as 0.0

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 98067da..8f3fe3f 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -387,6 +387,9 @@ is
          else
             Result := ASN1_RESULT'(Success => True, ErrorCode => 0);
          end if;
+      else
+         Result :=
+           ASN1_RESULT'(Success => False, ErrorCode => ERR_END_OF_STREAM);
       end if;
    end UPER_Dec_Real;
 
-- 
2.43.0


From a86f55861acd4a17b4a3a0ceee3fc19ad53c3d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:13 +0000
Subject: [PATCH 067/106] fix: Ada decoder of REAL lost subnormal values and
 mantissas that overflow once scaled

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 8f3fe3f..6d5663f 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -253,7 +253,11 @@ is
    is
       pragma SPARK_Mode (Off);
    begin
-      return (Asn1Real (Factor * N) * Asn1Real (base)**Exp);
+      --  scaling is exact, a separate power of the base can overflow
+      return
+        Asn1Real'Scaling
+          (Asn1Real (Factor) * Asn1Real (N),
+           (case base is when 16 => 4, when 8 => 3, when others => 1) * Exp);
    end CalcReal;
 
    procedure UPER_Dec_Real_AsBinary_aux
-- 
2.43.0


From ca5cfb5be3dcc6c461fa8e298aa5b9617f09a3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:13 +0000
Subject: [PATCH 068/106] fix: Ada REAL encoder and decoder dropped the sign of
 minus zero

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 2 +-
 ADA_RTL2/src/adaasn1rtl-encoding.ads      | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 6d5663f..3a84e36 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -376,7 +376,7 @@ is
                   RealVal := NaN;
                   Result  := ASN1_RESULT'(Success => True, ErrorCode => 0);
                elsif Header = 16#43# then
-                  RealVal := -0.0;
+                  RealVal := -RealVal; --  a literal -0.0 has no sign
                   Result  := ASN1_RESULT'(Success => True, ErrorCode => 0);
                elsif (Header and 16#80#) > 0 then
                   UPER_Dec_Real_AsBinary
diff --git a/ADA_RTL2/src/adaasn1rtl-encoding.ads b/ADA_RTL2/src/adaasn1rtl-encoding.ads
index f8d55c1..bda206d 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding.ads
+++ b/ADA_RTL2/src/adaasn1rtl-encoding.ads
@@ -95,9 +95,11 @@ is
    function isNaN (r : Asn1Real) return Boolean is
    (r /= 0.0 and then (not (r < 0.0)) and then (not (r > 0.0)));
    function isPosZero (r : Asn1Real) return Boolean is
-     (r >= 0.0 and then r <= 0.0);
+     (r >= 0.0 and then r <= 0.0
+      and then Asn1Real'Copy_Sign (1.0, r) > 0.0);
    function isNegZero (r : Asn1Real) return Boolean is
-     (r >= -0.0 and then r <= -0.0);
+     (r >= 0.0 and then r <= 0.0
+      and then Asn1Real'Copy_Sign (1.0, r) < 0.0);
 
    function GetExponent (V : Asn1Real) return Asn1Int;
    function GetMantissa (V : Asn1Real) return Asn1UInt;
-- 
2.43.0


From 5e58d8fbcd682154093f99fba408eced61d4f368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:13 +0000
Subject: [PATCH 069/106] fix: Ada OBJECT IDENTIFIERs refused or misread second
 arcs above 39 below root 2

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 5 +++--
 ADA_RTL2/src/adaasn1rtl.adb               | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 3a84e36..08e8d3f 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -625,8 +625,9 @@ is
            (bs, totalSize, si, Result);
          if Result.Success then
             val.Length     := 2;
-            val.values (1) := si / 40;
-            val.values (2) := si mod 40;
+            --  below root 2 the second arc may be larger than 39
+            val.values (1) := (if si < 80 then si / 40 else 2);
+            val.values (2) := si - val.values (1) * 40;
 
             while Result.Success and totalSize > 0 and
               val.Length < OBJECT_IDENTIFIER_MAX_LENGTH
diff --git a/ADA_RTL2/src/adaasn1rtl.adb b/ADA_RTL2/src/adaasn1rtl.adb
index 855bc4c..9d893db 100644
--- a/ADA_RTL2/src/adaasn1rtl.adb
+++ b/ADA_RTL2/src/adaasn1rtl.adb
@@ -54,7 +54,7 @@ is
    is
    begin
       return val.Length >= 2 and then val.values (1) <= 2
-        and then val.values (2) <= 39;
+        and then (val.values (1) = 2 or else val.values (2) <= 39);
    end ObjectIdentifier_isValid;
 
    function RelativeOID_isValid (val : Asn1ObjectIdentifier) return Boolean is
-- 
2.43.0


From cfd63a3ffa2d3bd5e175ee27a01c08c15ff281fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:13 +0000
Subject: [PATCH 070/106] fix: Ada OBJECT IDENTIFIER decoder misread contents
 of 128 octets

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 08e8d3f..a8819c9 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -446,7 +446,7 @@ is
       UPER_Dec_ConstraintWholeNumberInt
         (bs, length, 0, 255, 8, result.Success);
       if result.Success then
-         if length > 16#80# then
+         if length >= 16#80# then
             length := (length - 16#80#) * 16#100#;
             UPER_Dec_ConstraintWholeNumberInt
               (bs, len2, 0, 255, 8, result.Success);
-- 
2.43.0


From c900731f79b7dce498f9076c1573e2051f49cb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:13 +0000
Subject: [PATCH 071/106] fix: Ada OBJECT IDENTIFIER decoder accepted
 overflowing, padded and unfinished subidentifiers

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index a8819c9..c174318 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -560,6 +560,10 @@ is
          remainingOctets := remainingOctets - 1;
          bLastOctet      := (curByte and 16#80#) = 0;
          curOctetValue   := Asn1UInt (curByte and 16#7F#);
+         --  the first octet is never 16#80#, and the value must fit
+         Result.Success  := Result.Success
+           and then not (siValue = 0 and curByte = 16#80#)
+           and then Shift_Right (siValue, Asn1UInt'Size - 7) = 0;
          siValue         := Shift_Left (siValue, 7);
 
          siValue := siValue or curOctetValue;
@@ -567,6 +571,9 @@ is
 
       end loop;
 
+      --  the last octet of the subidentifier may be missing
+      Result.Success := Result.Success and bLastOctet;
+
    end ObjectIdentifier_subidentifiers_uper_decode;
 
    procedure ObjectIdentifier_uper_encode
-- 
2.43.0


From ced867048ede69a8335f5acb0ddf8bdebdfa108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:13 +0000
Subject: [PATCH 072/106] fix: Ada OBJECT IDENTIFIER decoders accepted empty
 contents

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index c174318..611a89e 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -653,6 +653,8 @@ is
             Result.Success := Result.Success and totalSize = 0;
 
          end if;
+      else
+         Result.Success := False;
       end if;
    end ObjectIdentifier_uper_decode;
 
@@ -714,7 +716,8 @@ is
             val.Length              := val.Length + 1;
             val.values (val.Length) := si;
          end loop;
-         Result.Success := Result.Success and totalSize = 0;
+         Result.Success := Result.Success and totalSize = 0
+           and val.Length > 0;
       end if;
    end RelativeOID_uper_decode;
 
-- 
2.43.0


From 2d93b208166b392f1ebf613e1b64ea6f4d1b0d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:13 +0000
Subject: [PATCH 073/106] fix: Ada decoder of internal-length indexed strings
 limited the character index by the string length

---
 ADA_RTL2/src/adaasn1rtl-encoding-acn.adb | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
index 13d464f..7937f29 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
@@ -2393,7 +2393,8 @@ is
               bs.Current_Bit_Pos'Loop_Entry + (I - strVal'First) * nCharSize);
 
          Dec_ConstraintWholeNumberInt
-           (bs, charIndex, 0, Integer (asn1Max), nCharSize, Result.Success);
+           (bs, charIndex, 0, charSet'Last - charSet'First, nCharSize,
+            Result.Success);
          if Result.Success and charIndex + charSet'First <= charSet'Last then
             strVal (I) := charSet (charIndex + charSet'First);
          else
-- 
2.43.0


From 1b8920be71763fdb454cc578dd7c8cb2607f17d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:13 +0000
Subject: [PATCH 074/106] fix: Ada string decoders silently cut strings whose
 external length determinant is too large

---
 ADA_RTL2/src/adaasn1rtl-encoding-acn.adb | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
index 7937f29..01ea175 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
@@ -2283,6 +2283,8 @@ is
          strVal (I) := Standard.Ascii.NUL;
          I          := I + 1;
       end loop;
+      Result.Success := Result.Success
+        and then extSizeDeterminantFld <= Asn1Int (strVal'Length - 1);
 
    end Acn_Dec_String_Ascii_External_Field_Determinant;
 
@@ -2339,6 +2341,8 @@ is
          strVal (I) := Standard.Ascii.NUL;
          I          := I + 1;
       end loop;
+      Result.Success := Result.Success
+        and then extSizeDeterminantFld <= Asn1Int (strVal'Length - 1);
 
    end Acn_Dec_String_CharIndex_External_Field_Determinant;
 
-- 
2.43.0


From 12c400c880ad0bd27ef7c18072b2057e12e2dde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:13 +0000
Subject: [PATCH 075/106] fix: Ada decoder of null-terminated strings accepted
 strings without the terminator

---
 ADA_RTL2/src/adaasn1rtl-encoding-acn.adb | 7 +++++++
 ADA_RTL2/src/adaasn1rtl-encoding-acn.ads | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
index 01ea175..8a34dbb 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
@@ -2179,6 +2179,13 @@ is
          I          := I + 1;
       end loop;
 
+      --  the longest string must be followed by the terminator too
+      Result.Success :=
+        null_characters (null_characters'First .. null_characters'Last) =
+        tmp
+          (tmp'First ..
+               tmp'First + (null_characters'Last - null_characters'First));
+
    end Acn_Dec_String_Ascii_Null_Terminated;
 
    procedure Acn_Enc_String_Ascii_Internal_Field_Determinant
diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.ads b/ADA_RTL2/src/adaasn1rtl-encoding-acn.ads
index 8b1ba8d..f80ffd2 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.ads
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.ads
@@ -1424,7 +1424,7 @@ is
       and then bs.Current_Bit_Pos <=
         bs.Size_In_Bytes * 8 -
           (strVal'Length - 1 + null_characters'Length) * 8,
-      Post => Result.Success and
+      Post =>
       bs.Current_Bit_Pos >= bs'Old.Current_Bit_Pos and
       bs.Current_Bit_Pos <=
         bs'Old.Current_Bit_Pos +
-- 
2.43.0


From 5b07226679e558cdd3d607f63fae257bcf77c442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:13 +0000
Subject: [PATCH 076/106] fix: BCD null-terminated decoder took any nibble
 above 9 for the terminator

---
 asn1crt/asn1crt_encoding_acn.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index d4a83bd..6f811fb 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -708,8 +708,10 @@ flag Acn_Dec_Int_BCD_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint* pI
 	{
 		if (!BitStream_ReadPartialByte(pBitStrm, &digit, 4))
 			return FALSE;
-		if (digit>9)
+		if (digit == 0xF)
 			break;
+		if (digit > 9)
+			return FALSE;
 
 		if (ret > ((asn1SccUint)-1 - digit) / 10)
 			return FALSE;
-- 
2.43.0


From cbe5328ccdbda3de8d802069a7d4ffebcae1b393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:44 +0000
Subject: [PATCH 077/106] fix: Ada decoder of null-terminated ASCII integers
 wrapped around and did not need the terminator

---
 ADA_RTL2/src/adaasn1rtl-encoding-acn.adb | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
index 8a34dbb..577180c 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
@@ -1561,7 +1561,9 @@ is
          intDigit := Character'Pos (Ch) - Character'Pos ('0');
 
          Result.Success :=
-           intDigit >= 0 and intDigit <= 9 and IntVal < Powers_of_10 (i - 1);
+           intDigit >= 0 and then intDigit <= 9
+           and then IntVal < Powers_of_10 (i - 1)
+           and then IntVal <= (Asn1UInt'Last - Asn1UInt (intDigit)) / 10;
          if Result.Success then
             IntVal := IntVal * 10;
             IntVal := IntVal + Asn1UInt (intDigit);
@@ -1571,6 +1573,10 @@ is
            tmp (tmp'First .. tmp'First + (nullChars'Last - nullChars'First));
       end loop;
 
+      Result.Success := Result.Success
+        and then nullChars (nullChars'First .. nullChars'Last) =
+          tmp (tmp'First .. tmp'First + (nullChars'Last - nullChars'First));
+
       if not Result.Success then
          Result.ErrorCode := ERR_INCORRECT_STREAM;
       end if;
-- 
2.43.0


From be1b4a22e5eb3bc62455bd87080b481305e93742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:44 +0000
Subject: [PATCH 078/106] fix: Ada decoder of REAL took over-long mantissas for
 0.0 and the reserved base for 8

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 611a89e..546a4a0 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -287,8 +287,10 @@ is
       Result := ASN1_RESULT'(Success => False, ErrorCode => ERR_END_OF_STREAM);
       if ExpLen < Length and ExpLen <= 3 then
          Dec_Int (bs, Integer (ExpLen), Exp, Result.Success);
+         Result.Success := Result.Success
+           and Length - ExpLen <= Asn1UInt'Size / 8;
 
-         if Result.Success and Length - ExpLen <= Asn1UInt'Size / 8 then
+         if Result.Success then
             Dec_UInt (bs, Integer (Length - ExpLen), N, Result.Success);
             if Result.Success and Exp > Asn1Int (Integer'First) and
               Exp < Asn1Int (Integer'Last)
@@ -347,8 +349,15 @@ is
       ExpLen := (Header and 16#03#) + 1;
       pragma Assert (ExpLen <= 4);
 
-      UPER_Dec_Real_AsBinary_aux
-        (bs, ExpLen, EncLength, Factor, Sign, Base, RealVal, Result);
+      if (Header and 16#30#) = 16#30# then
+         RealVal := 0.0; --  reserved base
+         Result  :=
+           ASN1_RESULT'
+             (Success => False, ErrorCode => ERR_UNSUPPORTED_ENCODING);
+      else
+         UPER_Dec_Real_AsBinary_aux
+           (bs, ExpLen, EncLength, Factor, Sign, Base, RealVal, Result);
+      end if;
 
    end UPER_Dec_Real_AsBinary;
 
-- 
2.43.0


From 0737c4bc48ab52227cdaae6532ac341df42959dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 079/106] fix: Ada decoder of REAL accepted special values
 followed by further content octets

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 546a4a0..3353058 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -375,16 +375,16 @@ is
          if Length > 0 then
             BitStream_DecodeByte (bs, Header, Result.Success);
             if Result.Success then
-               if Header = 16#40# then
+               if Length = 1 and Header = 16#40# then
                   RealVal := PLUS_INFINITY;
                   Result  := ASN1_RESULT'(Success => True, ErrorCode => 0);
-               elsif Header = 16#41# then
+               elsif Length = 1 and Header = 16#41# then
                   RealVal := MINUS_INFINITY;
                   Result  := ASN1_RESULT'(Success => True, ErrorCode => 0);
-               elsif Header = 16#42# then
+               elsif Length = 1 and Header = 16#42# then
                   RealVal := NaN;
                   Result  := ASN1_RESULT'(Success => True, ErrorCode => 0);
-               elsif Header = 16#43# then
+               elsif Length = 1 and Header = 16#43# then
                   RealVal := -RealVal; --  a literal -0.0 has no sign
                   Result  := ASN1_RESULT'(Success => True, ErrorCode => 0);
                elsif (Header and 16#80#) > 0 then
-- 
2.43.0


From a9736acdf075db70bdf573e4eff44d8e4ece0690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:56 +0000
Subject: [PATCH 080/106] fix: true/false patterns of ACN-inserted BOOLEAN
 fields were ignored by the generated codecs

---
 BackendAst/Acn/AcnPrimitives.fs | 73 ++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 37 deletions(-)

diff --git a/BackendAst/Acn/AcnPrimitives.fs b/BackendAst/Acn/AcnPrimitives.fs
index 53c8fe4..0942509 100644
--- a/BackendAst/Acn/AcnPrimitives.fs
+++ b/BackendAst/Acn/AcnPrimitives.fs
@@ -286,51 +286,50 @@ let nestChildItems (lm:LanguageMacros) (codec:CommonTypes.Codec) children =
     DAstUtilFunctions.nestItems lm.isvalid.JoinItems2 children
 
 
+let private booleanFuncBody (lm:LanguageMacros) (codec:CommonTypes.Codec) (encodingPattern: AcnBooleanEncoding option) (p:CodegenScope) (errCode:ErrorCode) =
+    let Boolean         = lm.uper.Boolean
+    let acnBoolean      = lm.acn.Boolean
+    let BooleanTrueFalse = lm.acn.BooleanTrueFalse
+    let pvalue, ptr, resultExpr =
+        match codec, lm.lg.decodingKind with
+        | Decode, Copy ->
+            let resExpr = p.accessPath.asIdentifier
+            resExpr, resExpr, Some resExpr
+        | _ -> lm.lg.getValue p.accessPath, lm.lg.getPointer p.accessPath, None
+    match encodingPattern with
+    | None ->
+        let pp, resultExpr = adaptArgument lm codec p
+        Boolean pp errCode.errCodeName codec, resultExpr
+    | Some (TrueValueEncoding pattern)  ->
+        let arrBits = pattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
+        let arrTrueValueAsByteArray = bitStringValueToByteArray pattern
+        let arrFalseValueAsByteArray = arrTrueValueAsByteArray |> Array.map (~~~)
+        let nSize = pattern.Value.Length
+        acnBoolean pvalue ptr true (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrBits errCode.errCodeName codec, resultExpr
+    | Some (FalseValueEncoding pattern) ->
+        let arrBits = pattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
+        let arrFalseValueAsByteArray = bitStringValueToByteArray pattern
+        let arrTrueValueAsByteArray = arrFalseValueAsByteArray |> Array.map (~~~)
+        let nSize = pattern.Value.Length
+        acnBoolean pvalue ptr false (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrBits errCode.errCodeName codec, resultExpr
+    | Some (TrueFalseValueEncoding(trPattern, fvPatten)) ->
+        let arrTrueBits = trPattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
+        let arrFalseBits = fvPatten.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
+        let arrTrueValueAsByteArray = bitStringValueToByteArray trPattern
+        let arrFalseValueAsByteArray = bitStringValueToByteArray fvPatten
+        let nSize = trPattern.Value.Length
+        BooleanTrueFalse pvalue ptr (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrTrueBits arrFalseBits errCode.errCodeName codec, resultExpr
+
 let createAcnBooleanFunction (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDependencies) (lm:LanguageMacros) (codec:CommonTypes.Codec)  (typeId : ReferenceToType) (o:Asn1AcnAst.AcnBoolean)  (us:State)  =
     AcnPrimitiveFactory.createAcnOnlyPrimitive codec typeId us (fun errCode ->
         fun (acnArgs: (AcnGenericTypes.RelativePath*AcnGenericTypes.AcnParameter) list) (nestingScope: NestingScope) (p:CodegenScope) ->
-            let pp, resultExpr = adaptArgument lm codec p
-            let Boolean         = lm.uper.Boolean
-            let funcBodyContent = Boolean pp errCode.errCodeName codec
+            let funcBodyContent, resultExpr = booleanFuncBody lm codec o.acnProperties.encodingPattern p errCode
             let icd = AcnPrimitiveFactory.buildPrimitiveIcdAux "BOOLEAN" "BOOLEAN" None o.acnMinSizeInBits o.acnMaxSizeInBits None
             Some {AcnFuncBodyResult.funcBody = funcBodyContent; errCodes = [errCode]; localVariables = []; userDefinedFunctions=[]; bValIsUnReferenced= false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=[]; icdResult = Some icd})
 
 let createBooleanFunction (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDependencies) (lm:LanguageMacros) (codec:CommonTypes.Codec) (t:Asn1AcnAst.Asn1Type) (o:Asn1AcnAst.Boolean) (typeDefinition:TypeDefinitionOrReference) (baseTypeUperFunc : AcnFunction option) (isValidFunc: IsValidFunction option) (us:State)  =
     let funcBody (errCode:ErrorCode) (acnArgs: (AcnGenericTypes.RelativePath*AcnGenericTypes.AcnParameter) list) (nestingScope: NestingScope) (p:CodegenScope) =
-        let Boolean         = lm.uper.Boolean
-        let acnBoolean      = lm.acn.Boolean
-        let BooleanTrueFalse = lm.acn.BooleanTrueFalse
-
-        let funcBodyContent, resultExpr=
-            let pvalue, ptr, resultExpr =
-                match codec, lm.lg.decodingKind with
-                | Decode, Copy ->
-                    let resExpr = p.accessPath.asIdentifier
-                    resExpr, resExpr, Some resExpr
-                | _ -> lm.lg.getValue p.accessPath, lm.lg.getPointer p.accessPath, None
-            match o.acnProperties.encodingPattern with
-            | None ->
-                let pp, resultExpr = adaptArgument lm codec p
-                Boolean pp errCode.errCodeName codec, resultExpr
-            | Some (TrueValueEncoding pattern)  ->
-                let arrBits = pattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
-                let arrTrueValueAsByteArray = bitStringValueToByteArray pattern
-                let arrFalseValueAsByteArray = arrTrueValueAsByteArray |> Array.map (~~~)
-                let nSize = pattern.Value.Length
-                acnBoolean pvalue ptr true (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrBits errCode.errCodeName codec, resultExpr
-            | Some (FalseValueEncoding pattern) ->
-                let arrBits = pattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
-                let arrFalseValueAsByteArray = bitStringValueToByteArray pattern
-                let arrTrueValueAsByteArray = arrFalseValueAsByteArray |> Array.map (~~~)
-                let nSize = pattern.Value.Length
-                acnBoolean pvalue ptr false (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrBits errCode.errCodeName codec, resultExpr
-            | Some (TrueFalseValueEncoding(trPattern, fvPatten)) ->
-                let arrTrueBits = trPattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
-                let arrFalseBits = fvPatten.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
-                let arrTrueValueAsByteArray = bitStringValueToByteArray trPattern
-                let arrFalseValueAsByteArray = bitStringValueToByteArray fvPatten
-                let nSize = trPattern.Value.Length
-                BooleanTrueFalse pvalue ptr (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrTrueBits arrFalseBits errCode.errCodeName codec, resultExpr
+        let funcBodyContent, resultExpr = booleanFuncBody lm codec o.acnProperties.encodingPattern p errCode
         let icd = AcnPrimitiveFactory.buildPrimitiveIcdAux (getASN1Name t) (getASN1Name t) None o.acnMinSizeInBits o.acnMaxSizeInBits t.unitsOfMeasure
         let aux = lm.lg.generateBooleanAuxiliaries r ACN t o nestingScope p.accessPath codec
         Some {AcnFuncBodyResult.funcBody = funcBodyContent; errCodes = [errCode]; localVariables = []; userDefinedFunctions=[]; bValIsUnReferenced= false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=aux; icdResult = Some icd}
-- 
2.43.0


From 5474dd9b5864887ec861ec31ba3bab38ece7a643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 081/106] fix: an encoding property on an ACN-inserted field of
 a named type dropped the other properties of that type

---
 FrontEndAst/AcnCreateFromAntlr.fs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index ff5b6b4..7f55f72 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -945,10 +945,8 @@ let rec private mapAcnParamTypeToAcnAcnInsertedType (asn1:Asn1Ast.AstRoot) (lms:
             List.collect(fun acm -> acm.typeAssignments) |>
             List.filter(fun act -> act.name.Value = ts.Value) |>
             List.collect(fun act -> act.typeEncodingSpec.acnProperties)
-        let props =
-            match props with
-            | []    -> baseProps
-            | _     -> props
+        let props = props@baseProps
+        let acnAlignment = tryGetProp props (fun x -> match x with ALIGNTONEXT e -> Some e | _ -> None)
         match asn1Type0.Kind with
         | Asn1Ast.Enumerated nmItems    ->
             let cons =  asn1Type0.Constraints |> List.collect (fixConstraint asn1) |> List.map (ConstraintsMapping.getEnumConstraint asn1 asn1Type0)
-- 
2.43.0


From f234ed94cee81500cd551c5378c589c363237ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 082/106] fix: present-when was refused on OPTIONAL components
 of type OBJECT IDENTIFIER and of the TIME types

---
 FrontEndAst/AcnCreateFromAntlr.fs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index 7f55f72..749c195 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -352,7 +352,11 @@ let private mergeObjectIdentifier (asn1: Asn1Ast.AstRoot) (lms:(ProgrammingLangu
     let getRtlTypeName  (l:ProgrammingLanguage) = (asn1.args.getBasicLang l).getObjectIdentifierRtlTypeName relativeId
 
     //check for invalid properties
-    props |> Seq.iter(fun pr -> raise(SemanticError(acnErrLoc0, "Acn property cannot be applied to OBJECT IDENTIFIER types")))
+    props |> Seq.iter(fun pr ->
+        match pr with
+        | PRESENT_WHEN      _
+        | PRESENT_WHEN_EXP  _   -> ()
+        | _                     -> raise(SemanticError(acnErrLoc0, "Acn property cannot be applied to OBJECT IDENTIFIER types")))
 
     let acnProperties =  {ObjectIdTypeAcnProperties.sizeProperties = None; itemProperties = None }
 
@@ -373,7 +377,11 @@ let private mergeTimeType (asn1: Asn1Ast.AstRoot) (lms:(ProgrammingLanguage*Lang
     let getRtlTypeName  (l:ProgrammingLanguage) = (asn1.args.getBasicLang l).getTimeRtlTypeName timeClass
 
     //check for invalid properties
-    props |> Seq.iter(fun pr -> raise(SemanticError(acnErrLoc0, "Acn property cannot be applied to TIME types")))
+    props |> Seq.iter(fun pr ->
+        match pr with
+        | PRESENT_WHEN      _
+        | PRESENT_WHEN_EXP  _   -> ()
+        | _                     -> raise(SemanticError(acnErrLoc0, "Acn property cannot be applied to TIME types")))
 
 
     let uperMaxSizeInBits= 1I
-- 
2.43.0


From 9a178241e5588ad509fa9c11fc370c9be43c7794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 083/106] fix: encode-values ENUMERATED with a negative value
 aborted on the assertion of the non-negative integer encoder

---
 BackendAst/Acn/AcnEnum.fs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BackendAst/Acn/AcnEnum.fs b/BackendAst/Acn/AcnEnum.fs
index 0874148..64d6d03 100644
--- a/BackendAst/Acn/AcnEnum.fs
+++ b/BackendAst/Acn/AcnEnum.fs
@@ -32,6 +32,7 @@ let createEnumCommon (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDe
     let EnumeratedEncValues                 = lm.acn.EnumeratedEncValues
     let Enumerated_item                     = lm.acn.Enumerated_item
     let IntFullyConstraintPos               = lm.uper.IntFullyConstraintPos
+    let IntFullyConstraint                  = lm.uper.IntFullyConstraint
     let Enumerated_no_switch                = lm.acn.EnumeratedEncValues_no_switch
 
     let min = o.items |> List.map(fun x -> x.acnEncodeValue) |> Seq.min
@@ -64,7 +65,10 @@ let createEnumCommon (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDe
                     | Some tasInfo ->
                         lm.lg.generateIntFullyConstraintRangeAssert (ToC (r.args.TypePrefix + tasInfo.tasName)) p codec
                     | None -> None
-                let funcBody = IntFullyConstraintPos (castPp word_size_in_bits) min max nbits sSsuffix errCode.errCodeName rangeAssert codec
+                let funcBody =
+                    match intTypeClass.IsPositive with
+                    | true  -> IntFullyConstraintPos (castPp word_size_in_bits) min max nbits sSsuffix errCode.errCodeName rangeAssert codec
+                    | false -> IntFullyConstraint (castPp word_size_in_bits) min max nbits sSsuffix errCode.errCodeName codec
                 Some({UPERFuncBodyResult.funcBody = funcBody; errCodes = [errCode]; localVariables= []; bValIsUnReferenced=false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=[]})
             AcnPrimitives.createAcnIntegerFunctionInternal r lm codec (Concrete (min,max)) intTypeClass o.acnEncodingClass uperInt sAsn1Constraints acnMinSizeInBits acnMaxSizeInBits unitsOfMeasure typeDefinitionName (None, None)
         let funcBodyContent =
-- 
2.43.0


From 7e0d42fd9eefcb4d665ab79dd3ce7f9df54a04b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:42 +0000
Subject: [PATCH 084/106] fix: decoder of null-terminated lists missed the
 terminator after the maximum number of elements

Nested null-terminated lists share the variable with the outcome of the last terminator test, so a full list of
null-terminated elements left its own terminator unread; a full list without a terminator was accepted with its
count unset.
---
 StgC/acn_c.stg | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 7bd3f79..ef1daf7 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -691,18 +691,17 @@ while(ret && <i> \< <nSizeMax> && ( (checkBitPatternPresentResult = BitStream_ch
 	<i>++;
 }
 
-if (ret && (<i> == <nSizeMax>) && (checkBitPatternPresentResult == 1)) {
+if (ret && (<i> == <nSizeMax>)) {
 	checkBitPatternPresentResult = BitStream_checkBitPatternPresent(pBitStrm, (byte[]){<arruNullBytes; separator=", ">}, <nBitPatternLength>);
 }
 
 
-if (ret && (checkBitPatternPresentResult == 0)) {
-	ret = FALSE;			/*COVERAGE_IGNORE*/
-	*pErrCode = <sErrCode>;	/*COVERAGE_IGNORE*/
-} else if (ret && (checkBitPatternPresentResult == 2)) {
+if (ret && (checkBitPatternPresentResult == 2)) {
 	<p><sAcc>nCount = <i>;
-	ret = true;
 	*pErrCode = 0;
+} else if (ret) {
+	ret = FALSE;			/*COVERAGE_IGNORE*/
+	*pErrCode = <sErrCode>;	/*COVERAGE_IGNORE*/
 }
 
 >>
-- 
2.43.0


From e1f20cdf740c0446f699cd91724d699628b9674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:51 +0000
Subject: [PATCH 085/106] fix: lists of elements without contents ignored their
 ACN size determinant or terminator

---
 BackendAst/Acn/AcnSequenceOf.fs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/BackendAst/Acn/AcnSequenceOf.fs b/BackendAst/Acn/AcnSequenceOf.fs
index 1f5144d..ce7490b 100644
--- a/BackendAst/Acn/AcnSequenceOf.fs
+++ b/BackendAst/Acn/AcnSequenceOf.fs
@@ -94,6 +94,10 @@ let createSequenceOfFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInserted
             }
             let auxiliaries, callAux = lm.lg.generateSequenceOfLikeAuxiliaries r ACN (SqOf o) sqfProofGen codec
 
+            // elements without contents (e.g. NULL) have no body, but their number is still encoded
+            let itemOrEmpty =
+                internalItem |> Option.orElse (Some {AcnFuncBodyResult.funcBody = ""; errCodes = []; localVariables = []; userDefinedFunctions=[]; bValIsUnReferenced=true; bBsIsUnReferenced=true; resultExpr=None; auxiliaries=[]; icdResult = None})
+
             let ret =
                 match o.acnEncodingClass with
                 | SZ_EC_FIXED_SIZE
@@ -129,7 +133,7 @@ let createSequenceOfFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInserted
                         Some ({AcnFuncBodyResult.funcBody = ret; errCodes = errCode::childErrCodes; localVariables = (lv level)@(internalItem.localVariables@localVariables); userDefinedFunctions=internalItem.userDefinedFunctions; bValIsUnReferenced= false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=internalItem.auxiliaries @ auxiliaries; icdResult = Some icd})
 
                 | SZ_EC_ExternalField _ ->
-                    match internalItem with
+                    match itemOrEmpty with
                     | None -> None
                     | Some internalItem ->
                         let localVariables = internalItem.localVariables
@@ -149,7 +153,7 @@ let createSequenceOfFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInserted
                         Some ({AcnFuncBodyResult.funcBody = funcBodyContent; errCodes = errCode::childErrCodes; localVariables = (lv level)@localVariables; userDefinedFunctions=internalItem.userDefinedFunctions; bValIsUnReferenced= false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=internalItem.auxiliaries @ auxiliaries; icdResult = Some icd})
 
                 | SZ_EC_TerminationPattern bitPattern ->
-                    match internalItem with
+                    match itemOrEmpty with
                     | None -> None
                     | Some internalItem ->
                         let mod8 = bitPattern.Value.Length % 8
-- 
2.43.0


From 5b7a740790f62d1c36afc9ad6092eee51bfba403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:48 +0000
Subject: [PATCH 086/106] fix: the intersection of a bounded range with a
 half-open one could be the half-open range or the wrong part

---
 CommonTypes/CommonTypes.fs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommonTypes/CommonTypes.fs b/CommonTypes/CommonTypes.fs
index 9c84bb2..77a08c9 100644
--- a/CommonTypes/CommonTypes.fs
+++ b/CommonTypes/CommonTypes.fs
@@ -983,12 +983,12 @@ let rec uperIntersection r1 r2 (l:SrcLoc) =
     | (PosInf(a), PosInf(b))        -> PosInf(max a b)
     | (PosInf(a), NegInf(b))        -> if a<=b then Concrete(a,b) else emptyTypeError l
     | (PosInf(a1), Concrete(a,b))   -> if a1>b then emptyTypeError l
-                                        elif a1<=a then r1
+                                        elif a1<=a then r2
                                         else Concrete(a1,b)
     | (NegInf(a), NegInf(b))        -> NegInf(min a b)
     | (NegInf(a), PosInf(b))        -> if a>=b then Concrete(b,a) else emptyTypeError l
     | (NegInf(a1), Concrete(a,b))   -> if a1<a then emptyTypeError l
-                                        elif a1<b then Concrete(a1,b)
+                                        elif a1<b then Concrete(a,a1)
                                         else r2
     | (Concrete(a1,b1), Concrete(a2,b2)) -> if a1<=a2 && a2<=b1 && b1<=b2 then Concrete(a2,b1)
                                             elif a2<=a1 && a1<=b2 && b2<=b1 then Concrete(a1, b2)
-- 
2.43.0


From 5e0cf491fcfeed75b05601e7a0c0c4df5f036e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:42 +0000
Subject: [PATCH 087/106] fix: encoders of deferred determinants reported
 success together with an error code

---
 StgC/acn_c.stg | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index ef1daf7..36fe0d2 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -1240,7 +1240,7 @@ octet_string_containing_deferred_func_encode(p, sFuncName, sDetParamName, sPatch
         AcnBitStreamPos acn_data_end = Acn_BitStream_GetPos(pBitStrm);
         asn1SccUint acn_nCount = Acn_BitStream_DistanceInBytes(acn_data_start, acn_data_end);
         ret = <sPatchFuncName>((asn1SccUint)acn_nCount, pBitStrm, <sDetParamName>, pErrCode);
-        *pErrCode = <sErrCode>;
+        *pErrCode = ret ? 0 : <sErrCode>;
         if (!ret) return FALSE;
     }
 }
@@ -1311,7 +1311,7 @@ octet_string_containing_deferred_wrapper_encode(sBody, sDetParamName, sPatchFunc
         AcnBitStreamPos acn_data_end = Acn_BitStream_GetPos(pBitStrm);
         asn1SccUint acn_nCount = Acn_BitStream_DistanceInBytes(acn_data_start, acn_data_end);
         ret = <sPatchFuncName>((asn1SccUint)acn_nCount, pBitStrm, <sDetParamName>, pErrCode);
-        *pErrCode = <sErrCode>;
+        *pErrCode = ret ? 0 : <sErrCode>;
         if (!ret) return FALSE;
     }
 }
@@ -1338,7 +1338,7 @@ bit_string_containing_deferred_func_encode(p, sFuncName, sDetParamName, sPatchFu
         AcnBitStreamPos acn_data_end = Acn_BitStream_GetPos(pBitStrm);
         asn1SccUint acn_nCount = Acn_BitStream_DistanceInBits(acn_data_start, acn_data_end);
         ret = <sPatchFuncName>((asn1SccUint)acn_nCount, pBitStrm, <sDetParamName>, pErrCode);
-        *pErrCode = <sErrCode>;
+        *pErrCode = ret ? 0 : <sErrCode>;
         if (!ret) return FALSE;
     }
 }
@@ -1410,7 +1410,7 @@ bit_string_containing_deferred_wrapper_encode(sBody, sDetParamName, sPatchFuncNa
         AcnBitStreamPos acn_data_end = Acn_BitStream_GetPos(pBitStrm);
         asn1SccUint acn_nCount = Acn_BitStream_DistanceInBits(acn_data_start, acn_data_end);
         ret = <sPatchFuncName>((asn1SccUint)acn_nCount, pBitStrm, <sDetParamName>, pErrCode);
-        *pErrCode = <sErrCode>;
+        *pErrCode = ret ? 0 : <sErrCode>;
         if (!ret) return FALSE;
     }
 }
@@ -1591,7 +1591,7 @@ acn_deferred_det_init_ptr_decode(sInitFuncName, sDetName) ::= <<
    "ptr" variant: det is an AcnInsertedFieldRef* formal parameter — pass as-is. */
 acn_deferred_det_patch_value_encode(sPatchFuncName, sValue, sDetName, sErrCode) ::= <<
 ret = <sPatchFuncName>((asn1SccUint)<sValue>, pBitStrm, &<sDetName>, pErrCode);
-*pErrCode = <sErrCode>;
+*pErrCode = ret ? 0 : <sErrCode>;
 if (!ret) return FALSE;
 >>
 acn_deferred_det_patch_value_decode(sPatchFuncName, sValue, sDetName, sErrCode) ::= <<
@@ -1599,7 +1599,7 @@ acn_deferred_det_patch_value_decode(sPatchFuncName, sValue, sDetName, sErrCode)
 >>
 acn_deferred_det_patch_ptr_encode(sPatchFuncName, sValue, sDetName, sErrCode) ::= <<
 ret = <sPatchFuncName>((asn1SccUint)<sValue>, pBitStrm, <sDetName>, pErrCode);
-*pErrCode = <sErrCode>;
+*pErrCode = ret ? 0 : <sErrCode>;
 if (!ret) return FALSE;
 >>
 acn_deferred_det_patch_ptr_decode(sPatchFuncName, sValue, sDetName, sErrCode) ::= <<
@@ -1623,7 +1623,7 @@ acn_deferred_det_init_ptr_with_size_decode(sInitFuncName, nBits, sDetName) ::= <
 
 acn_deferred_det_patch_value_with_size_encode(sPatchFuncName, nBits, sValue, sDetName, sErrCode) ::= <<
 ret = <sPatchFuncName>((asn1SccUint)<sValue>, pBitStrm, <nBits>, &<sDetName>, pErrCode);
-*pErrCode = <sErrCode>;
+*pErrCode = ret ? 0 : <sErrCode>;
 if (!ret) return FALSE;
 >>
 acn_deferred_det_patch_value_with_size_decode(sPatchFuncName, nBits, sValue, sDetName, sErrCode) ::= <<
@@ -1632,7 +1632,7 @@ acn_deferred_det_patch_value_with_size_decode(sPatchFuncName, nBits, sValue, sDe
 
 acn_deferred_det_patch_ptr_with_size_encode(sPatchFuncName, nBits, sValue, sDetName, sErrCode) ::= <<
 ret = <sPatchFuncName>((asn1SccUint)<sValue>, pBitStrm, <nBits>, <sDetName>, pErrCode);
-*pErrCode = <sErrCode>;
+*pErrCode = ret ? 0 : <sErrCode>;
 if (!ret) return FALSE;
 >>
 acn_deferred_det_patch_ptr_with_size_decode(sPatchFuncName, nBits, sValue, sDetName, sErrCode) ::= <<
@@ -1642,7 +1642,7 @@ acn_deferred_det_patch_ptr_with_size_decode(sPatchFuncName, nBits, sValue, sDetN
 /* IA5String PatchDet variants: pass string value directly (no asn1SccUint cast) */
 acn_deferred_det_patch_value_str_encode(sPatchFuncName, nBits, sValue, sDetName, sErrCode) ::= <<
 ret = <sPatchFuncName>(<sValue>, pBitStrm, <nBits>, &<sDetName>, pErrCode);
-*pErrCode = <sErrCode>;
+*pErrCode = ret ? 0 : <sErrCode>;
 if (!ret) return FALSE;
 >>
 acn_deferred_det_patch_value_str_decode(sPatchFuncName, nBits, sValue, sDetName, sErrCode) ::= <<
@@ -1650,7 +1650,7 @@ acn_deferred_det_patch_value_str_decode(sPatchFuncName, nBits, sValue, sDetName,
 >>
 acn_deferred_det_patch_ptr_str_encode(sPatchFuncName, nBits, sValue, sDetName, sErrCode) ::= <<
 ret = <sPatchFuncName>(<sValue>, pBitStrm, <nBits>, <sDetName>, pErrCode);
-*pErrCode = <sErrCode>;
+*pErrCode = ret ? 0 : <sErrCode>;
 if (!ret) return FALSE;
 >>
 acn_deferred_det_patch_ptr_str_decode(sPatchFuncName, nBits, sValue, sDetName, sErrCode) ::= <<
-- 
2.43.0


From b23f1a8176eb55e3e380fbe3f576ac73f4363a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:26 +0000
Subject: [PATCH 088/106] fix: the encoder of a field with several users
 reported success together with an error code

---
 StgC/acn_c.stg | 1 +
 1 file changed, 1 insertion(+)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 36fe0d2..c262e29 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -1168,6 +1168,7 @@ MultiAcnUpdate(v, sV0, sErrCode, arrsLocalDeclarations, arrsLocalUpdateStatement
         }
         if (ret) {
             ret = (<arrsLocalCheckEquality; separator=" && ">);
+            *pErrCode = ret ? 0 : <sErrCode>;
             <v>_is_initialized = TRUE;
         }
     }
-- 
2.43.0


From 8fdeea6e0be6f89034a2c0f1d93ff2f999abbfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:09 +0000
Subject: [PATCH 089/106] fix: the Ada code of a string type that constrains
 another one used an undeclared alphabet

---
 FrontEndAst/DAstTypeDefinition.fs | 2 +-
 StgAda/spec_a.stg                 | 8 ++++----
 StgC/header_c.stg                 | 2 +-
 StgScala/header_scala.stg         | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/FrontEndAst/DAstTypeDefinition.fs b/FrontEndAst/DAstTypeDefinition.fs
index 6f8da17..2f332c7 100644
--- a/FrontEndAst/DAstTypeDefinition.fs
+++ b/FrontEndAst/DAstTypeDefinition.fs
@@ -360,7 +360,7 @@ let createString_u (lm:LanguageMacros)  (id:ReferenceToType) (typeDef: Map<Progr
             Some completeDefinition
         | NonPrimitiveNewSubTypeDefinition subDef     ->
             let otherProgramUnit = if td.programUnit = subDef.programUnit then None else (Some subDef.programUnit)
-            let completeDefinition = define_subType_ia5string td subDef otherProgramUnit
+            let completeDefinition = define_subType_ia5string td subDef otherProgramUnit arrnAlphaChars
             Some completeDefinition
         | NonPrimitiveReference2OtherType            -> None
     let aaa = createString ()
diff --git a/StgAda/spec_a.stg b/StgAda/spec_a.stg
index 76c6070..6db8ef5 100644
--- a/StgAda/spec_a.stg
+++ b/StgAda/spec_a.stg
@@ -209,14 +209,14 @@ subtype <td.alpha> is String(<td.alpha_index>);
 >>
 
 
-Define_subType_ia5string(td/*:FE_StringTypeDefinition*/, prTd/*:FE_StringTypeDefinition*/, soParentTypePackage) ::= <<
+Define_subType_ia5string(td/*:FE_StringTypeDefinition*/, prTd/*:FE_StringTypeDefinition*/, soParentTypePackage, arrnAlphaChars) ::= <<
 subtype <td.typeName> is <if(soParentTypePackage)><soParentTypePackage>.<endif><prTd.typeName>;
 subtype <td.encoding_range> is <if(soParentTypePackage)><soParentTypePackage>.<endif><prTd.encoding_range>;
 subtype <td.index> is <if(soParentTypePackage)><soParentTypePackage>.<endif><prTd.index>;
 <if(arrnAlphaChars)>
-subtype <td.alpha_index> is <if(soParentTypePackage)><soParentTypePackage>.<endif><prTd.alpha_index>;
-subtype <td.alpha> <if(soParentTypePackage)><soParentTypePackage>.<endif><prTd.alpha>;
-<td.alpha_set> : constant := <if(soParentTypePackage)><soParentTypePackage>.<endif><prTd.alpha_set>;
+subtype <td.alpha_index> is Integer range 1..<arrnAlphaChars.Length>;
+subtype <td.alpha> is String(<td.alpha_index>);
+<td.alpha_set> : constant <td.alpha> := <td.alpha>'(<arrnAlphaChars:{c|<i>=>Character'Val(<c>)}; wrap, anchor,  separator=", ">);
 
 <endif>
 >>
diff --git a/StgC/header_c.stg b/StgC/header_c.stg
index 41774aa..a4894c4 100644
--- a/StgC/header_c.stg
+++ b/StgC/header_c.stg
@@ -172,7 +172,7 @@ Define_new_ia5string(td/*:FE_StringTypeDefinition*/, nMin, nMax, nCMax, arrnAlph
 typedef char <td.typeName>[<nCMax>];
 >>
 
-Define_subType_ia5string(td/*:FE_StringTypeDefinition*/, prTd/*:FE_StringTypeDefinition*/, soParentTypePackage) ::= <<
+Define_subType_ia5string(td/*:FE_StringTypeDefinition*/, prTd/*:FE_StringTypeDefinition*/, soParentTypePackage, arrnAlphaChars) ::= <<
 typedef <prTd.typeName> <td.typeName>;
 >>
 
diff --git a/StgScala/header_scala.stg b/StgScala/header_scala.stg
index 5eb00b2..8ba9628 100644
--- a/StgScala/header_scala.stg
+++ b/StgScala/header_scala.stg
@@ -139,7 +139,7 @@ Define_new_ia5string(td/*:FE_StringTypeDefinition*/, nMin, nMax, nCMax, arrnAlph
 type <td.typeName> = Vector[UByte]
 >>
 
-Define_subType_ia5string(td/*:FE_StringTypeDefinition*/, prTd/*:FE_StringTypeDefinition*/, soParentTypePackage) ::= <<
+Define_subType_ia5string(td/*:FE_StringTypeDefinition*/, prTd/*:FE_StringTypeDefinition*/, soParentTypePackage, arrnAlphaChars) ::= <<
 typedef <prTd.typeName> <td.typeName>
 >>
 
-- 
2.43.0


From cfc82f1c4f132ee2c46babf1fb2df69470c96db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:09 +0000
Subject: [PATCH 090/106] fix: the Ada decoders of types without an encoding
 never set their result

---
 StgAda/acn_a.stg  | 3 +++
 StgAda/uper_a.stg | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/StgAda/acn_a.stg b/StgAda/acn_a.stg
index 16e9c82..0bb3f72 100644
--- a/StgAda/acn_a.stg
+++ b/StgAda/acn_a.stg
@@ -108,6 +108,9 @@ pragma Unreferenced(bs);
 <endif>
     <arrsLocalVariables; separator="\n">
 begin
+    <if(bBsIsUnreferenced)>
+    result := <rtlModuleName()>.ASN1_RESULT'(Success => true, ErrorCode => 0);
+    <endif>
     <sContent>
 end <sFuncName>_aux;
 <if(bVarNameIsUnreferenced)>
diff --git a/StgAda/uper_a.stg b/StgAda/uper_a.stg
index aad5f19..66aaaad 100644
--- a/StgAda/uper_a.stg
+++ b/StgAda/uper_a.stg
@@ -125,6 +125,9 @@ begin
     <if(soInitFuncName)>
     -- <sVarName> := <soInitFuncName>;
 
+    <endif>
+    <if(bBsIsUnreferenced)>
+    result := <rtlModuleName()>.ASN1_RESULT'(Success => true, ErrorCode => 0);
     <endif>
     <sContent>
 end <sFuncName>_aux;
-- 
2.43.0


From f6e6cbffd641b39332699473a5ba9d0b2d00eb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:09 +0000
Subject: [PATCH 091/106] fix: the Ada code for default values of BIT STRING
 assigned octets to bits

---
 BackendAst/DAstInitialize.fs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BackendAst/DAstInitialize.fs b/BackendAst/DAstInitialize.fs
index 8db9054..f90e1ee 100644
--- a/BackendAst/DAstInitialize.fs
+++ b/BackendAst/DAstInitialize.fs
@@ -489,11 +489,12 @@ let createBitStringInitFunc (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (t:Asn1Ac
     let initFixVarSizeBitOrOctString    = lm.init.initFixVarSizeBitOrOctString
     let initTestCaseBitString           = lm.init.initTestCaseBitString
     let funcBody (p:CodegenScope) (v:Asn1ValueKind) =
-        let bytes, nBits =
+        let bits =
             match v.ActualValue with
-            | BitStringValue iv     -> bitStringValueToByteArray (StringLoc.ByValue iv) |> Seq.toList, iv.Length
-            | OctetStringValue iv   -> iv, 8 * iv.Length
+            | BitStringValue iv     -> iv
+            | OctetStringValue iv   -> iv |> List.map(fun b -> System.Convert.ToString(b, 2).PadLeft(8, '0')) |> String.concat ""
             | _                     -> raise(BugErrorException "UnexpectedValue")
+        let bytes, nBits = lm.lg.bitStringValueToByteArray bits |> Seq.toList, bits.Length
         let arrsBytes = bytes |> List.mapi(fun i b -> initFixSizeBitOrOctString_bytei (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) ((i + lm.lg.ArrayStartIndex).ToString()) (sprintf "%x" b))
         match o.minSize.uper = o.maxSize.uper with
         | true  -> initFixSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) arrsBytes
-- 
2.43.0


From 7ec9c461fd5f8fa4924e2d62db70c724ba282f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:17 +0000
Subject: [PATCH 092/106] fix: a semi-constrained whole number of zero octets
 was accepted

---
 asn1crt/asn1crt_encoding.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index b96141a..52b2800 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -973,7 +973,7 @@ flag BitStream_DecodeSemiConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint*
 	*v = 0;
 	if (!BitStream_DecodeConstraintWholeNumber(pBitStrm, &nBytes, 0, 255))
 		return FALSE;
-	if (nBytes > WORD_SIZE)
+	if (nBytes < 1 || nBytes > WORD_SIZE)
 		return FALSE;
 	for (i = 0; i<nBytes; i++) {
 		byte b = 0;
@@ -993,7 +993,7 @@ flag BitStream_DecodeSemiConstraintPosWholeNumber(BitStream* pBitStrm, asn1SccUi
 	*v = 0;
 	if (!BitStream_DecodeConstraintWholeNumber(pBitStrm, &nBytes, 0, 255))
 		return FALSE;
-	if (nBytes > WORD_SIZE)
+	if (nBytes < 1 || nBytes > WORD_SIZE)
 		return FALSE;
 	for (i = 0; i<nBytes; i++) {
 		byte b = 0;
-- 
2.43.0


From f7009f914e7686aa2d11210926bc7e8938fca71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:05 +0000
Subject: [PATCH 093/106] fix: the Ada decoders of null-terminated lists and
 bit strings raised an exception for fewer elements than the minimum

---
 StgAda/acn_a.stg | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/StgAda/acn_a.stg b/StgAda/acn_a.stg
index 0bb3f72..75587c8 100644
--- a/StgAda/acn_a.stg
+++ b/StgAda/acn_a.stg
@@ -891,7 +891,7 @@ if result.Success and <i> = <nSizeMax>+1  then
 		<p>.Length := <i>-1;
 	end if;
 	result := <rtlModuleName()>.ASN1_RESULT'(Success => result.Success, ErrorCode => <sErrCode>);
-elsif result.Success and <i> \< <nSizeMax>+1 then
+elsif result.Success and <i> \< <nSizeMax>+1<if(noSizeMin)> and <i>-1 \>= <noSizeMin><endif> then
 	<p>.Length := <i>-1;
 	<rtlModuleName()>.encoding.BitStream_SkipBits(bs, <nBitPatternLength>);
 	result := <rtlModuleName()>.ASN1_RESULT'(Success => true, ErrorCode => 0);
@@ -1658,10 +1658,19 @@ adaasn1rtl.encoding.BitStream_AppendBitArray(bs, <p><sAcc>Data, <p><sAcc>Length)
 >>
 
 bit_string_null_terminated_decode(sTypeDefName, p, sErrCode, sAcc, i, noSizeMin, nSizeMax, arruNullBytes, nBitPatternLength)  ::= <<
-<rtlModuleName()>.encoding.BitStream_ReadBits_nullterminated(bs, <p><sAcc>Data, <p><sAcc>Length, <rtlModuleName()>.OctetBuffer'(<arruNullBytes:{b|<i>=>16#<b;format="X2">#}; wrap, anchor, separator=", ">), <nBitPatternLength>, result.Success);
-if not result.Success then
-    result.errorcode := <sErrCode>;		-- COVERAGE_IGNORE
-end if;
+declare
+    decodedBits : Natural;
+begin
+    <rtlModuleName()>.encoding.BitStream_ReadBits_nullterminated(bs, <p><sAcc>Data, decodedBits, <rtlModuleName()>.OctetBuffer'(<arruNullBytes:{b|<i>=>16#<b;format="X2">#}; wrap, anchor, separator=", ">), <nBitPatternLength>, result.Success);
+    <if(noSizeMin)>
+    result.Success := result.Success and then decodedBits \>= <noSizeMin>;
+    <endif>
+    if result.Success then
+        <p><sAcc>Length := decodedBits;
+    else
+        result.errorcode := <sErrCode>;		-- COVERAGE_IGNORE
+    end if;
+end;
 >>
 
 bit_string_null_terminated_decode0(p, sErrCode, sAcc, i, noSizeMin, nSizeMax, arruNullBytes, nBitPatternLength) /*nogen*/ ::= <<
-- 
2.43.0


From 35e2cfbc63268bc47d17b461af1017e592e67cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:17 +0000
Subject: [PATCH 094/106] fix: macro signatures regenerated for the Ada string
 alphabets

---
 CommonTypes/AbstractMacros.fs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommonTypes/AbstractMacros.fs b/CommonTypes/AbstractMacros.fs
index 3114263..7918419 100644
--- a/CommonTypes/AbstractMacros.fs
+++ b/CommonTypes/AbstractMacros.fs
@@ -63,7 +63,7 @@ Generated by the C stg macros with the following command
         abstract member Define_new_enumerated_private : td:FE_EnumeratedTypeDefinition -> arrsValidEnumNames:seq<string> -> arrsEnumNames:seq<string> -> string;
         abstract member Define_subType_enumerated_private : td:FE_EnumeratedTypeDefinition -> prTd:FE_EnumeratedTypeDefinition -> arrsValidEnumNames:seq<string> -> arrsEnumNames:seq<string> -> string;
         abstract member Define_new_ia5string : td:FE_StringTypeDefinition -> nMin:BigInteger -> nMax:BigInteger -> nCMax:BigInteger -> arrnAlphaChars:seq<BigInteger> -> string;
-        abstract member Define_subType_ia5string : td:FE_StringTypeDefinition -> prTd:FE_StringTypeDefinition -> soParentTypePackage:string option -> string;
+        abstract member Define_subType_ia5string : td:FE_StringTypeDefinition -> prTd:FE_StringTypeDefinition -> soParentTypePackage:string option -> arrnAlphaChars:seq<BigInteger> -> string;
         abstract member Define_new_octet_string : td:FE_SizeableTypeDefinition -> nMin:BigInteger -> nMax:BigInteger -> bFixedSize:bool -> arrsInvariants:seq<string> -> string;
         abstract member Define_subType_octet_string : td:FE_SizeableTypeDefinition -> prTd:FE_SizeableTypeDefinition -> soParentTypePackage:string option -> bFixedSize:bool -> string;
         abstract member Define_new_bit_string_named_bit : td:FE_SizeableTypeDefinition -> sTargetLangBitName:string -> sHexValue:string -> sComment:string -> string;
-- 
2.43.0


From 969c48d0b224ef601210451ccc7dcae5874e8748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:07 +0000
Subject: [PATCH 095/106] fix: the Ada decoder of an aligned NULL never set its
 result

---
 StgAda/acn_a.stg | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/StgAda/acn_a.stg b/StgAda/acn_a.stg
index 75587c8..445c346 100644
--- a/StgAda/acn_a.stg
+++ b/StgAda/acn_a.stg
@@ -110,6 +110,10 @@ pragma Unreferenced(bs);
 begin
     <if(bBsIsUnreferenced)>
     result := <rtlModuleName()>.ASN1_RESULT'(Success => true, ErrorCode => 0);
+    <else>
+    <if(bVarNameIsUnreferenced)>
+    result := <rtlModuleName()>.ASN1_RESULT'(Success => true, ErrorCode => 0);
+    <endif>
     <endif>
     <sContent>
 end <sFuncName>_aux;
-- 
2.43.0


From 199ec9af6f588010f46d3f0a33a89d77c69360d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:07 +0000
Subject: [PATCH 096/106] fix: with a word size of 4, helpers stayed in the
 emitted run-time library without what they call

---
 StgC/LangGeneric_c.fs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/StgC/LangGeneric_c.fs b/StgC/LangGeneric_c.fs
index 7f06813..f2caa5b 100644
--- a/StgC/LangGeneric_c.fs
+++ b/StgC/LangGeneric_c.fs
@@ -646,6 +646,8 @@ type LangGeneric_c() =
                 "ObjectIdentifier_subidentifiers_uper_encode"
                 "BitStream_DecodeNonNegativeInteger32Neg"
                 // ACN deferred patching functions (generated by DEFINE_ACN_DET_ENCODERS macros).
+                "Acn_Enc_SignExtension"
+                "Acn_Dec_SignExtension"
                 // These are static inline in the header; including them in RtlFuncNames
                 // ensures the RTL stripping keeps the base encoder functions they depend on.
                 "Acn_InitDet_U8"
-- 
2.43.0


From 58bffe4ad05a3fca576d6ede9c65b5020d62a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:37 +0000
Subject: [PATCH 097/106] fix: XER string decoders took the size of a pointer
 for the size of the target

---
 BackendAst/DAstXer.fs  | 2 +-
 StgAda/xer_a.stg       | 4 ++--
 StgC/xer_c.stg         | 6 +++---
 StgScala/xer_scala.stg | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/BackendAst/DAstXer.fs b/BackendAst/DAstXer.fs
index b6b840e..f5bea82 100644
--- a/BackendAst/DAstXer.fs
+++ b/BackendAst/DAstXer.fs
@@ -250,7 +250,7 @@ let createIA5StringFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:Co
         let nLevel = BigInteger (t.id.AcnAbsPath.Length - 2)
         let contentSize = getMaxSizeInBytesForXER_IA5String o.uperCharSet o.maxSize.uper
         let totalSize = getMaxSizeInBytesForXER xmlTag contentSize
-        let bodyStm = String pp xmlTag.p nLevel (checkExp isValidFunc p) errCode.errCodeName codec
+        let bodyStm = String pp xmlTag.p nLevel o.maxSize.uper (checkExp isValidFunc p) errCode.errCodeName codec
         Some {XERFuncBodyResult.funcBody = bodyStm; errCodes= [errCode]; localVariables=[];encodingSizeInBytes=totalSize}
     let soSparkAnnotations = None
     createXerFunction_any r lm codec t typeDefinition  isValidFunc  funcBody  soSparkAnnotations us
diff --git a/StgAda/xer_a.stg b/StgAda/xer_a.stg
index 2f63a3f..a19ac2d 100644
--- a/StgAda/xer_a.stg
+++ b/StgAda/xer_a.stg
@@ -150,12 +150,12 @@ ret.ErrorCode := (if ret.Success then 0 else <sErrCode>);
 
 
 
-String_encode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
+String_encode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
 adaasn1rtl.encoding.xer.Xer_EncodeString(bs, <sTag>, <p>, ret, <nLevel>);
 ret.ErrorCode := <sErrCode>;
 >>
 
-String_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
+String_decode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
 adaasn1rtl.encoding.xer.Xer_DecodeString(bs, <sTag>, <p>, ret);
 <if(soCheckExp)><soCheckExp><endif>
 ret.ErrorCode := (if ret.Success then 0 else <sErrCode>);
diff --git a/StgC/xer_c.stg b/StgC/xer_c.stg
index cfcebff..d687c42 100644
--- a/StgC/xer_c.stg
+++ b/StgC/xer_c.stg
@@ -174,13 +174,13 @@ ret = Xer_DecodeNull(pByteStrm, <sTag>, <p>, pErrCode);
 
 
 
-String_encode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
+String_encode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
 ret = Xer_EncodeString(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 *pErrCode = ret ? 0 : <sErrCode>;
 >>
 
-String_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
-ret = Xer_DecodeString(pByteStrm, <sTag>, <p>, sizeof(<p>), pErrCode);
+String_decode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
+ret = Xer_DecodeString(pByteStrm, <sTag>, <p>, <nSizeMax> + 1, pErrCode);
 <if(soCheckExp)>if (ret) {
     <soCheckExp>
 }<endif>
diff --git a/StgScala/xer_scala.stg b/StgScala/xer_scala.stg
index 0703302..51480c3 100644
--- a/StgScala/xer_scala.stg
+++ b/StgScala/xer_scala.stg
@@ -160,12 +160,12 @@ ret = Xer_DecodeNull(pByteStrm, <sTag>, <p>, pErrCode);
 
 
 
-String_encode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
+String_encode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
 ret = Xer_EncodeString(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 *pErrCode = ret ? 0 : <sErrCode>;
 >>
 
-String_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
+String_decode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
 ret = Xer_DecodeString(pByteStrm, <sTag>, <p>, sizeof(<p>), pErrCode);
 <if(soCheckExp)><soCheckExp><endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
-- 
2.43.0


From 03805d327b3c36c7f9d22576b393a38e341fe51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:14 +0000
Subject: [PATCH 098/106] fix: macro signatures regenerated for the XER strings

---
 CommonTypes/AbstractMacros.fs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommonTypes/AbstractMacros.fs b/CommonTypes/AbstractMacros.fs
index 7918419..2cf9d8e 100644
--- a/CommonTypes/AbstractMacros.fs
+++ b/CommonTypes/AbstractMacros.fs
@@ -538,7 +538,7 @@ Generated by the C stg macros with the following command
         abstract member ObjectIdentifier : p:string -> sTag:string -> nLevel:BigInteger -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
         abstract member TimeType : p:string -> sTimeSubType:string -> sTag:string -> nLevel:BigInteger -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
         abstract member Null : p:string -> sTag:string -> nLevel:BigInteger -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
-        abstract member String : p:string -> sTag:string -> nLevel:BigInteger -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
+        abstract member String : p:string -> sTag:string -> nLevel:BigInteger -> nSizeMax:BigInteger -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
         abstract member Enumerated_item : p:string -> sTag:string -> nLevel:BigInteger -> sItemID:string -> sXerValue:string -> sErrCode:string -> bFirst:bool -> codec:Codec -> string;
         abstract member Enumerated : p:string -> sTag:string -> nLevel:BigInteger -> arrsItems:seq<string> -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
         abstract member OctetString : p:string -> sAcc:string -> sTag:string -> nLevel:BigInteger -> nSizeMax:BigInteger -> bIsFixedSize:bool -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
-- 
2.43.0


From 4c5a1e9bce02968643001871353b8aa68bb6f4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:14 +0000
Subject: [PATCH 099/106] fix: the Ada decoder of a SEQUENCE of only NULL
 components did not compile

---
 StgAda/uper_a.stg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StgAda/uper_a.stg b/StgAda/uper_a.stg
index 66aaaad..629440a 100644
--- a/StgAda/uper_a.stg
+++ b/StgAda/uper_a.stg
@@ -323,7 +323,7 @@ Enumerated_no_switch_decode(p, td/*:FE_EnumeratedTypeDefinition*/, sErrCode, sEn
 /* SEQUENCE START */
 
 decode_empty_sequence_emptySeq(p) ::= <<
-<p> := (null record);
+<p> := (others => \<>);
 result := <rtlModuleName()>.ASN1_RESULT'(Success => true, ErrorCode => 0);
 >>
 
-- 
2.43.0


From a44d198910b85b31bb1a02d1be8135c2854400b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:30 +0000
Subject: [PATCH 100/106] fix: the announced XER size of lists of a named
 CHOICE did not count its tags

---
 BackendAst/DAstXer.fs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BackendAst/DAstXer.fs b/BackendAst/DAstXer.fs
index f5bea82..b2d4af6 100644
--- a/BackendAst/DAstXer.fs
+++ b/BackendAst/DAstXer.fs
@@ -442,7 +442,8 @@ let createReferenceFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:Co
                 | XerFunction z -> z
                 | XerFunctionDummy  -> raise (BugErrorException "XerFunctionDummy")
 
-            match baseTypeXerFunc.funcBody p xmlTag with
+            // without a tag, the function of the base type writes its own name
+            match baseTypeXerFunc.funcBody p (Some (xmlTag |> orElse (XerLiteralConstant o.tasName.Value))) with
             | Some baseXerFunc    ->
                 let soXmlTag = 
                     match xmlTag with
-- 
2.43.0


From 03e14f7fdd91ef1bb8535b190fe5b7d9426192c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:26 +0000
Subject: [PATCH 101/106] fix: Ada string decoders raised an exception for size
 determinants of more than 31 bits

---
 ADA_RTL2/src/adaasn1rtl-encoding-acn.adb | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
index 577180c..674548f 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
@@ -2280,7 +2280,7 @@ is
         ASN1_RESULT'(Success => True, ErrorCode => ERR_INCORRECT_STREAM);
 
       while Result.Success and then I <= strVal'Last - 1
-        and then I <= Integer (extSizeDeterminantFld)
+        and then Asn1Int (I) <= extSizeDeterminantFld
       loop
          pragma Loop_Invariant
            (I >= strVal'First and I <= strVal'Last and
@@ -2335,7 +2335,7 @@ is
         ASN1_RESULT'(Success => True, ErrorCode => ERR_INCORRECT_STREAM);
       strVal := (others => Standard.Ascii.NUL);
       while Result.Success and then I <= strVal'Last - 1
-        and then I <= Integer (extSizeDeterminantFld)
+        and then Asn1Int (I) <= extSizeDeterminantFld
       loop
          pragma Loop_Invariant
            (I >= strVal'First and I <= strVal'Last and
-- 
2.43.0


From 30b15437dc61e077f7483e3c781029e4d608a704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:05 +0000
Subject: [PATCH 102/106] fix: with -eee the encode-values set in ACN were
 ignored

---
 BackendAst/Acn/AcnEnum.fs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BackendAst/Acn/AcnEnum.fs b/BackendAst/Acn/AcnEnum.fs
index 64d6d03..e538b35 100644
--- a/BackendAst/Acn/AcnEnum.fs
+++ b/BackendAst/Acn/AcnEnum.fs
@@ -77,8 +77,10 @@ let createEnumCommon (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDe
             | Some intAcnFuncBdResult ->
                 let resultExpr, errCodes, auxiliaries =
                     intAcnFuncBdResult.resultExpr, intAcnFuncBdResult.errCodes, intAcnFuncBdResult.auxiliaries
+                // the array of -eee holds the values of the enumeration, not those an ACN specification sets
+                let encodesOwnValues = not o.encodeValues || (o.items |> List.forall(fun it -> it.acnEncodeValue = it.definitionValue))
                 let mainContent, localVariables =
-                    match r.args.isEnumEfficientEnabled o.items.Length  with
+                    match r.args.isEnumEfficientEnabled o.items.Length && encodesOwnValues with
                     | false ->
                         let arrItems =
                             o.items |>
-- 
2.43.0


From 19ca62aa6befbadbb8756c22433d5560a30d24ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:14 +0000
Subject: [PATCH 103/106] fix: characters that no token starts with were
 skipped without a diagnostic

---
 FrontEndAst/AntlrParse.fs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/FrontEndAst/AntlrParse.fs b/FrontEndAst/AntlrParse.fs
index fa075ed..43d2f43 100644
--- a/FrontEndAst/AntlrParse.fs
+++ b/FrontEndAst/AntlrParse.fs
@@ -11,7 +11,7 @@ open CommonTypes
 open System.Collections.Generic
 open System.Linq
 
-let antlrParse (lexer: ICharStream -> (#ITokenSource* asn1Parser.AntlrError list) ) treeParser (name: string, inputs : Input seq) = 
+let antlrParse (lexer: ICharStream -> (#ITokenSource* asn1Parser.AntlrError seq) ) treeParser (name: string, inputs : Input seq) = 
     let concatenateStreams (streams : Stream seq) =
         let spaceAscii = (byte 32)
         let memStream = new MemoryStream()
@@ -33,7 +33,8 @@ let antlrParse (lexer: ICharStream -> (#ITokenSource* asn1Parser.AntlrError list
     let tree, parcerErrors = treeParser(tokenStream);
     let b:ITree = tree
     
-    let allErrors = parcerErrors@lexerErrors
+    // the list of the lexer is complete only now: the tokens are read above
+    let allErrors = parcerErrors@(lexerErrors |> Seq.toList)
     {CommonTypes.AntlrParserResult.fileName = name; CommonTypes.AntlrParserResult.rootItem=tree; CommonTypes.AntlrParserResult.tokens=tokens}, allErrors
 
 
@@ -48,7 +49,7 @@ let asn1treeParser (tokenStream:CommonTokenStream)=
 
 let asn1Lexer (f:ICharStream) =
     let lexer = new asn1Lexer(f)
-    lexer, lexer.errorList |> Seq.toList
+    lexer, (lexer.errorList :> asn1Parser.AntlrError seq)
 
 let acnTreeGeneric func (tokenStream:CommonTokenStream)  =
     let p = new acnParser(tokenStream)
@@ -67,7 +68,7 @@ let acnTreeParser (tokenStream:CommonTokenStream)=
 
 let acnLexer (f:ICharStream) =
     let lexer = new acnLexer(f)
-    lexer, lexer.errorList |> Seq.toList
+    lexer, (lexer.errorList :> asn1Parser.AntlrError seq)
 
 
 let formatSemanticError (loc:SrcLoc) (msg:string) =
-- 
2.43.0


From d3052e1eb5be48cd02bf4a371a7c70da20c0d2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:31 +0000
Subject: [PATCH 104/106] fix: errors at the end of a file were reported at
 line 0 or column -1

---
 FrontEndAst/AntlrParse.fs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/FrontEndAst/AntlrParse.fs b/FrontEndAst/AntlrParse.fs
index 43d2f43..7f020a9 100644
--- a/FrontEndAst/AntlrParse.fs
+++ b/FrontEndAst/AntlrParse.fs
@@ -35,6 +35,17 @@ let antlrParse (lexer: ICharStream -> (#ITokenSource* asn1Parser.AntlrError seq)
     
     // the list of the lexer is complete only now: the tokens are read above
     let allErrors = parcerErrors@(lexerErrors |> Seq.toList)
+    // an error at the end of the file is attached to a token that has no position
+    allErrors |>
+        List.iter(fun e ->
+            if e.line <= 0 || e.charPosInline < 0 then
+                match tokens |> Array.tryFindBack (fun t -> t.Line > 0 && t.CharPositionInLine >= 0) with
+                | Some t    ->
+                    e.line <- t.Line
+                    e.charPosInline <- t.CharPositionInLine
+                | None      ->
+                    e.line <- 1
+                    e.charPosInline <- 0)
     {CommonTypes.AntlrParserResult.fileName = name; CommonTypes.AntlrParserResult.rootItem=tree; CommonTypes.AntlrParserResult.tokens=tokens}, allErrors
 
 
-- 
2.43.0


From 5e7b3bd738362a2a9f5f2bbbf2ed549ac6a0c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:34 +0000
Subject: [PATCH 105/106] fix: enumerated items given one value in ACN, and
 unknown items, were accepted

---
 FrontEndAst/AcnCreateFromAntlr.fs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index 749c195..53b6cd6 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -783,6 +783,17 @@ let private mergeEnumerated (asn1: Asn1Ast.AstRoot) (lms:(ProgrammingLanguage*La
     let uperSizeInBits = GetNumberOfBitsForNonNegativeInteger(BigInteger((Seq.length items) - 1))
     let items = items0|> List.map (mapItem items0)
 
+    // the values set in ACN are those of known items, and distinct: otherwise two items have one encoding
+    match acnType with
+    | Some acnType when encodeValues    ->
+        acnType.children |>
+            Seq.iter(fun z ->
+                if not (items |> Seq.exists(fun itm -> itm.Name.Value = z.name.Value)) then
+                    raise(SemanticError(z.name.Location, sprintf "'%s' is not an item of this enumerated type" z.name.Value))
+                if items |> Seq.exists(fun itm -> itm.Name.Value <> z.name.Value && items |> Seq.exists(fun itm2 -> itm2.Name.Value = z.name.Value && itm2.acnEncodeValue = itm.acnEncodeValue)) then
+                    raise(SemanticError(z.name.Location, sprintf "The value of item '%s' is also the value of another item" z.name.Value)))
+    | _                                 -> ()
+
     let acnProperties =
         match acnErrLoc with
         | Some acnErrLoc    ->
-- 
2.43.0


From 5618cfedf5b912983d10d95a272cd94be74454f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:25 +0000
Subject: [PATCH 106/106] fix: value assignments that refer to one another in a
 cycle hung the compiler

---
 FrontEndAst/CheckAsn1.fs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/FrontEndAst/CheckAsn1.fs b/FrontEndAst/CheckAsn1.fs
index 2ce284c..4ea03b5 100644
--- a/FrontEndAst/CheckAsn1.fs
+++ b/FrontEndAst/CheckAsn1.fs
@@ -681,11 +681,26 @@ let checkForCyclicModules ( ast:AstRoot) =
                              "Cyclic modules detected:\n%s\n"  cycMods))
     sortedModules
 
+/// a value that is defined, directly or through other values, as itself has no actual value
+let checkForCyclicValues (m:Asn1Module) (ast:AstRoot) =
+    let rec check (vas:ValueAssignment) visited (v:Asn1Value) =
+        match v.Kind with
+        | RefValue(modName, vasName)    ->
+            match visited |> List.contains (modName.Value, vasName.Value) with
+            | true  -> raise (SemanticError(vas.Name.Location, sprintf "The definition of value '%s' is cyclic" vas.Name.Value))
+            | false -> check vas ((modName.Value, vasName.Value)::visited) (GetBaseValue modName vasName ast)
+        | _                             -> ()
+    m.ValueAssignments |> Seq.iter(fun vas ->
+        match GetActualType vas.Type ast with
+        | {Kind = Enumerated _}         -> ()   // the name of an item
+        | _                             -> check vas [] vas.Value)
+
 let CheckFiles( ast:AstRoot) (pass :int) =
     checkForCyclicModules ast |> ignore
     let modules = ast.Files |> Seq.collect(fun f -> f.Modules ) |> Seq.toList
     // check for multiple module definitions
     modules |> Seq.map(fun m-> m.Name) |> CheckForDuplicates
+    modules |> Seq.iter (fun m -> checkForCyclicValues m ast)
     // check each file
     modules |> Seq.iter (fun x -> CheckModule x ast pass)
     //check that the icdPdus list provided in the command line is valid
-- 
2.43.0

