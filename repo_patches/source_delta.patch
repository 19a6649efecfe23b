From 0fbdafd0b35fc9bc0249b6c8bc35d96aff697a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:51 +0000
Subject: [PATCH 01/81] fix: count end-of-content octets of indefinite length
 BER elements

---
 src/iso8825_ber.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/iso8825_ber.c b/src/iso8825_ber.c
index ed64e25..1125adf 100644
--- a/src/iso8825_ber.c
+++ b/src/iso8825_ber.c
@@ -86,6 +86,7 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 	int r;
 	const uint8_t* buf = ptr;
 	size_t offset = 0;
+	size_t eoc_len = 0;
 
 	if (!ptr || !tlv) {
 		return -1;
@@ -142,7 +143,13 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 			}
 
 			// Check for end-of-content
+			// See ISO 8825-1:2003, 8.1.5
 			if (inner_tlv.tag == ASN1_EOC) {
+				if (r != 2 || inner_tlv.length != 0) {
+					// End-of-content must be two zero octets
+					return -7;
+				}
+				eoc_len = r;
 				break;
 			}
 
@@ -195,6 +202,9 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 	tlv->value = &buf[offset];
 	offset += tlv->length;
 
+	// Consume end-of-content (if any)
+	offset += eoc_len;
+
 	// Capture class and primitive/constructed bits as flags
 	tlv->flags = buf[0] & (ISO8825_BER_CLASS_MASK | ISO8825_BER_CONSTRUCTED);
 
-- 
2.43.0


From dcfa439e70207a182cae2702a44b32556205c544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:41 +0000
Subject: [PATCH 02/81] fix: bound and complete BER object identifier decoding

---
 src/iso8825_ber.c | 60 +++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/iso8825_ber.c b/src/iso8825_ber.c
index 1125adf..5d78622 100644
--- a/src/iso8825_ber.c
+++ b/src/iso8825_ber.c
@@ -277,41 +277,32 @@ int iso8825_ber_oid_decode(const void* ptr, size_t len, struct iso8825_oid_t* oi
 {
 	const uint8_t* buf = ptr;
 
-	memset(oid, 0, sizeof(*oid));
-
 	if (!ptr || !oid || !len) {
 		return -1;
 	}
 
-	if (len >= sizeof(oid->value)) {
-		// OID too long
-		return -2;
-	}
-
-	// See ISO 8825-1:2003, 8.19.4
-	if (buf[0] < 40) { // ITU-T
-		oid->value[0] = ASN1_OID_ITU_T;
-		oid->value[1] = buf[0];
-	} else if (buf[0] < 80) { // ISO
-		oid->value[0] = ASN1_OID_ISO;
-		oid->value[1] = buf[0] - 40;
-	} else { // joint-iso-itu-t
-		oid->value[0] = ASN1_OID_JOINT;
-		oid->value[1] = buf[0] - 80;
-	}
-	oid->length = 2;
-	++buf;
-	--len;
+	memset(oid, 0, sizeof(*oid));
 
 	// See ISO 8825-1:2003, 8.19
-	while (len && oid->length < sizeof(oid->value)) {
+	while (len) {
 		uint32_t subid = 0;
+		bool last_octet;
 
 		// Decode multibyte subidentifier
-		while (len) {
+		do {
+			if (!len) {
+				// Incomplete subidentifier
+				return -3;
+			}
+
+			if (subid > (UINT32_MAX >> 7)) {
+				// Subidentifier too large
+				return -4;
+			}
+
 			// Determine whether it is the last octet of the subidentifier
 			// See ISO 8825-1:2003, 8.19.2
-			bool last_octet = !(*buf & 0x80); // TODO: use define
+			last_octet = !(*buf & 0x80); // TODO: use define
 
 			// Extract the next 7 bits of the subidentifier
 			// See ISO 8825-1:2003, 8.19.2
@@ -319,9 +310,26 @@ int iso8825_ber_oid_decode(const void* ptr, size_t len, struct iso8825_oid_t* oi
 			subid |= *buf & 0x7f; // TODO: use define
 			++buf;
 			--len;
+		} while (!last_octet);
+
+		// The first subidentifier represents the first two arcs
+		// See ISO 8825-1:2003, 8.19.4
+		if (oid->length == 0) {
+			if (subid < 40) { // ITU-T
+				oid->value[0] = ASN1_OID_ITU_T;
+			} else if (subid < 80) { // ISO
+				oid->value[0] = ASN1_OID_ISO;
+			} else { // joint-iso-itu-t
+				oid->value[0] = ASN1_OID_JOINT;
+			}
+			oid->value[1] = subid - (oid->value[0] * 40);
+			oid->length = 2;
+			continue;
+		}
 
-			if (last_octet)
-				break;
+		if (oid->length >= sizeof(oid->value) / sizeof(oid->value[0])) {
+			// OID too long
+			return -2;
 		}
 
 		// Store subidentifier
-- 
2.43.0


From e5b4b771d0645e4439446d4093e854ce352a8000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:31 +0000
Subject: [PATCH 03/81] fix: write past end of local buffer when stringifying
 dates and times

---
 src/emv_strings.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 2848a90..52fcc01 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1806,7 +1806,7 @@ int emv_date_get_string(const uint8_t* buf, size_t buf_len, char* str, size_t st
 		}
 		date_str[(i * 2) + 1] = '0' + digit;
 	}
-	date_str[(buf_len * 2) + 1] = 0;
+	date_str[buf_len * 2] = 0;
 
 	// Assume it's the 21st century; if it isn't, then hopefully we've at
 	// least addressed climate change...
@@ -1879,7 +1879,7 @@ int emv_time_get_string(const uint8_t* buf, size_t buf_len, char* str, size_t st
 		}
 		time_str[(i * 2) + 1] = '0' + digit;
 	}
-	time_str[(buf_len * 2) + 1] = 0;
+	time_str[buf_len * 2] = 0;
 
 	// Hours
 	memcpy(str + offset, time_str, 2);
-- 
2.43.0


From 7d789239dc4da390700302c8719c167c41dceae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:32 +0000
Subject: [PATCH 04/81] fix: write past end of string buffer when integer
 string does not fit

---
 src/emv_strings.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 52fcc01..ca3fe84 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1605,18 +1605,18 @@ static int emv_uint_to_str(uint32_t value, char* str, size_t str_len)
 		c = '0' + digit;
 
 		if (digit != 0 || found_first_digit) {
+			if (str_len < 2) {
+				// No space left for digit and NULL termination
+				*str = 0;
+				return -3;
+			}
+
 			*str = c;
 			++str;
 			--str_len;
 			found_first_digit = true;
 		}
 
-		if (str_len == 0) {
-			// No space left to NULL terminate
-			str[0] = 0;
-			return -3;
-		}
-
 		value %= divider;
 		divider /= 10;
 	}
-- 
2.43.0


From 109dff49587ab277f139c8ad847f5ba2222d392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:33 +0000
Subject: [PATCH 05/81] fix: EMV format n values beyond 32 bits must not wrap

---
 src/emv_strings.c | 46 ++++++++++++++++++++++++++++++++++++++++------
 src/emv_tlv.c     | 13 +++++++++++--
 2 files changed, 51 insertions(+), 8 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index ca3fe84..644226e 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1568,15 +1568,49 @@ int emv_format_cn_get_string(const uint8_t* buf, size_t buf_len, char* str, size
 
 int emv_format_n_get_string(const uint8_t* buf, size_t buf_len, char* str, size_t str_len)
 {
-	int r;
-	uint32_t value;
+	bool found_first_digit = false;
 
-	r = emv_format_n_to_uint(buf, buf_len, &value);
-	if (r) {
-		return r;
+	if (!buf || !buf_len || !str || !str_len) {
+		return -1;
 	}
 
-	return emv_uint_to_str(value, str, str_len);
+	// Extract two decimal digits per byte
+	// NOTE: The field may contain more digits than a 32-bit integer can
+	// represent, for example Amount, Authorised (field 9F02)
+	for (size_t i = 0; i < buf_len * 2; ++i) {
+		uint8_t digit;
+
+		if ((i & 0x01) == 0) {
+			// Most significant nibble
+			digit = buf[i >> 1] >> 4;
+		} else {
+			// Least significant nibble
+			digit = buf[i >> 1] & 0x0F;
+		}
+		if (digit > 9) {
+			// Invalid digit for EMV format "n"
+			return 1;
+		}
+
+		// Omit leading zeros but keep last digit
+		if (digit == 0 && !found_first_digit && i + 1 < buf_len * 2) {
+			continue;
+		}
+		found_first_digit = true;
+
+		if (str_len < 2) {
+			// No space left for digit and NULL termination
+			*str = 0;
+			return -2;
+		}
+		*str = '0' + digit;
+		++str;
+		--str_len;
+	}
+
+	*str = 0; // NULL terminate string
+
+	return 0;
 }
 
 static int emv_uint_to_str(uint32_t value, char* str, size_t str_len)
diff --git a/src/emv_tlv.c b/src/emv_tlv.c
index 30496d6..ba1d706 100644
--- a/src/emv_tlv.c
+++ b/src/emv_tlv.c
@@ -457,12 +457,15 @@ const uint8_t* emv_uint_to_format_n(uint32_t value, uint8_t* buf, size_t buf_len
 
 int emv_format_n_to_uint(const uint8_t* buf, size_t buf_len, uint32_t* value)
 {
+	uint64_t x;
+
 	if (!buf || !buf_len || !value) {
 		return -1;
 	}
 
 	// Extract two decimal digits per byte
 	*value = 0;
+	x = 0;
 	for (unsigned int i = 0; i < buf_len; ++i) {
 		uint8_t digit;
 
@@ -473,7 +476,7 @@ int emv_format_n_to_uint(const uint8_t* buf, size_t buf_len, uint32_t* value)
 			return 1;
 		}
 		// Shift decimal digit into x
-		*value = (*value * 10) + digit;
+		x = (x * 10) + digit;
 
 		// Extract least significant nibble
 		digit = buf[i] & 0xf;
@@ -482,8 +485,14 @@ int emv_format_n_to_uint(const uint8_t* buf, size_t buf_len, uint32_t* value)
 			return 2;
 		}
 		// Shift decimal digit into x
-		*value = (*value * 10) + digit;
+		x = (x * 10) + digit;
+
+		if (x > UINT32_MAX) {
+			// Value too large for 32-bit integer
+			return 3;
+		}
 	}
+	*value = x;
 
 	return 0;
 }
-- 
2.43.0


From bdc37ee6784573759a77325947ee39fc4832a1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:17 +0000
Subject: [PATCH 06/81] fix: ATR category indicator 0x00 without COMPACT-TLV
 objects or status indicator

---
 src/iso7816.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index 8fe6836..baee2c6 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -193,6 +193,11 @@ int iso7816_atr_parse(const uint8_t* atr, size_t atr_len, struct iso7816_atr_inf
 		// See ISO 7816-4:2005, 8.1.1
 		switch (atr_info->T1) {
 			case ISO7816_ATR_T1_COMPACT_TLV_SI:
+				// Status indicator is mandatory
+				if (atr_info->historical_bytes_len < 3) {
+					return 5;
+				}
+
 				// Store status indicator bytes for later parsing
 				atr_info->historical_bytes_len -= 3;
 				atr_info->status_indicator_bytes = atr_info->historical_bytes + atr_info->historical_bytes_len;
@@ -714,6 +719,11 @@ static int iso7816_atr_parse_historical_bytes(const void* historical_bytes, size
 	struct iso7816_compact_tlv_itr_t itr;
 	struct iso7816_compact_tlv_t tlv;
 
+	if (!historical_bytes_len) {
+		// COMPACT-TLV data objects are optional
+		return 0;
+	}
+
 	r = iso7816_compact_tlv_itr_init(historical_bytes, historical_bytes_len, &itr);
 	if (r) {
 		return 24;
-- 
2.43.0


From c5769eafe1aad0e01bbb01b41a667e926c457675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:38 +0000
Subject: [PATCH 07/81] fix: ATR interface byte TD4 was taken for a historical
 byte

---
 src/iso7816.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index baee2c6..6a01f2f 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -165,6 +165,16 @@ int iso7816_atr_parse(const uint8_t* atr, size_t atr_len, struct iso7816_atr_inf
 		}
 	}
 
+	// If TD4 is present, consume it and ensure that it does not indicate
+	// further interface bytes because those are not supported
+	if (atr_info->TD[4]) {
+		uint8_t interface_byte_bits = atr_info->atr[atr_idx++];
+		if (interface_byte_bits & ~ISO7816_ATR_Tx_OTHER_MASK) {
+			// Unsupported number of interface bytes
+			return 9;
+		}
+	}
+
 	// Compute various derived parameters
 	iso7816_compute_gt(atr_info);
 	iso7816_compute_wt(atr_info);
-- 
2.43.0


From 03a95ea8abf7bb0f9e05caea282db0daa2b85cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:40 +0000
Subject: [PATCH 08/81] fix: overflow when computing block waiting time

---
 src/iso7816.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iso7816.c b/src/iso7816.c
index 6a01f2f..ff24abb 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -720,7 +720,8 @@ static void iso7816_compute_wt(struct iso7816_atr_info_t* atr_info)
 	// BWT = (((2^BWI x 960 x 372 x D / F) + 11)etu; where D is Di and F is Fi
 
 	// And finally, after all that thinking...
-	atr_info->protocol_T1.BWT = 11 + (((1 << BWI) * 960 * 372 * Di) / Fi);
+	// NOTE: The intermediate product may exceed 32 bits
+	atr_info->protocol_T1.BWT = 11 + (((uint64_t)(1 << BWI) * 960 * 372 * Di) / Fi);
 }
 
 static int iso7816_atr_parse_historical_bytes(const void* historical_bytes, size_t historical_bytes_len, struct iso7816_atr_info_t* atr_info)
-- 
2.43.0


From 3a9c21b761a91dc109c3036aa313a3a12e17ea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:53 +0000
Subject: [PATCH 09/81] fix: repeated ATR interface bytes of a protocol must
 not override the first

---
 src/iso7816.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index ff24abb..d5946f4 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -504,8 +504,26 @@ static int iso7816_atr_parse_TC2(uint8_t TC2, struct iso7816_atr_info_t* atr_inf
 	return 0;
 }
 
+static bool iso7816_atr_is_first(uint8_t protocol, unsigned int i, const uint8_t* const* Tx, const struct iso7816_atr_info_t* atr_info)
+{
+	for (unsigned int j = 3; j < i; ++j) {
+		if (Tx[j] &&
+			(*atr_info->TD[j-1] & ISO7816_ATR_Tx_OTHER_MASK) == protocol
+		) {
+			return false;
+		}
+	}
+
+	return true;
+}
+
 static int iso7816_atr_parse_TAi(uint8_t protocol, unsigned int i, uint8_t TAi, struct iso7816_atr_info_t* atr_info)
 {
+	// Only the first TA for a given protocol is defined; ignore subsequent ones
+	if (!iso7816_atr_is_first(protocol, i, atr_info->TA, atr_info)) {
+		return 0;
+	}
+
 	// Global interface parameters
 	if (protocol == ISO7816_PROTOCOL_T15) {
 		// First TA for T=15 encodes class indicator Y in bits 1 to 6
@@ -546,6 +564,11 @@ static int iso7816_atr_parse_TAi(uint8_t protocol, unsigned int i, uint8_t TAi,
 
 static int iso7816_atr_parse_TBi(uint8_t protocol, unsigned int i, uint8_t TBi, struct iso7816_atr_info_t* atr_info)
 {
+	// Only the first TB for a given protocol is defined; ignore subsequent ones
+	if (!iso7816_atr_is_first(protocol, i, atr_info->TB, atr_info)) {
+		return 0;
+	}
+
 	// Global interface parameters
 	if (protocol == ISO7816_PROTOCOL_T15) {
 		// First TB for T=15 indicates the use of SPU by the card (ISO 7816-3:2006, 8.3, page 20)
@@ -590,6 +613,11 @@ static int iso7816_atr_parse_TBi(uint8_t protocol, unsigned int i, uint8_t TBi,
 
 static int iso7816_atr_parse_TCi(uint8_t protocol, unsigned int i, uint8_t TCi, struct iso7816_atr_info_t* atr_info)
 {
+	// Only the first TC for a given protocol is defined; ignore subsequent ones
+	if (!iso7816_atr_is_first(protocol, i, atr_info->TC, atr_info)) {
+		return 0;
+	}
+
 	// Protocol T=1 parameters
 	if (protocol == ISO7816_PROTOCOL_T1) {
 		// First TC for T=1 indicates the error detection code to be used (ISO 7816-3:2006, 11.4.4)
-- 
2.43.0


From b45566da3ce69824639aff94b5335d3c7af398a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:23 +0000
Subject: [PATCH 10/81] fix: wrong length status for case 4 in APDU mode must
 not drop the command data

---
 src/emv_ttl.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 20657d0..8c4fb1c 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -42,6 +42,8 @@ int emv_ttl_trx(
 
 	// C-TPDU header: CLA INS P1 P2 P3
 	uint8_t c_tpdu_header[5];
+	// C-APDU with updated Le; only used for APDU mode
+	uint8_t c_apdu_update_le[EMV_CAPDU_MAX];
 	// C-TPDU data: found after P3; NULL if absent
 	const void* c_tpdu_data = NULL;
 
@@ -401,6 +403,18 @@ int emv_ttl_trx(
 		if (tx_update_le) {
 			// Update Le for next transmission
 			// See EMV Contact Interface Specification v1.0, 9.2.2.3.1, table 25
+			if (ctx->cardreader.mode == EMV_CARDREADER_MODE_APDU &&
+				apdu_case == ISO7816_APDU_CASE_4S &&
+				tx_buf_len == c_apdu_len
+			) {
+				// For APDU mode, transmit C-APDU again, including its data
+				memcpy(c_apdu_update_le, c_apdu, c_apdu_len);
+				c_apdu_update_le[c_apdu_len - 1] = SW2; // Le
+				tx_buf = c_apdu_update_le;
+
+				// Next transmission
+				continue;
+			}
 			memcpy(c_tpdu_header, tx_buf, 4);
 			c_tpdu_header[4] = SW2; // P3 = Le
 			tx_buf = c_tpdu_header;
-- 
2.43.0


From 30eb444396115e62cd6f9b780a64d9cf3af5048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:45 +0000
Subject: [PATCH 11/81] fix: write past end of R-APDU buffer that cannot hold
 SW1-SW2

---
 src/emv_ttl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 8c4fb1c..12dbd18 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -58,6 +58,11 @@ int emv_ttl_trx(
 		return -1;
 	}
 
+	// Ensure that R-APDU buffer has enough capacity for SW1-SW2
+	if (*r_apdu_len < 2) {
+		return -1;
+	}
+
 	emv_debug_capdu(c_apdu, c_apdu_len);
 
 	// Determine the APDU case
-- 
2.43.0


From ccf96ef1b2578af11ee7cd50a56cb713b4915fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:09 +0000
Subject: [PATCH 12/81] fix: receive buffer too small for R-TPDU with 256 bytes
 of data

---
 src/emv_ttl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 12dbd18..4d49214 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -126,7 +126,7 @@ int emv_ttl_trx(
 	do {
 		int r;
 		uint8_t INS;
-		uint8_t rx_buf[EMV_RAPDU_MAX];
+		uint8_t rx_buf[1 + EMV_RAPDU_MAX]; // R-TPDU may have leading INS byte
 		size_t rx_len = sizeof(rx_buf);
 		uint8_t SW1;
 		uint8_t SW2;
-- 
2.43.0


From a994b95a87707bfe42a92487194312dfdc56dc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:12 +0000
Subject: [PATCH 13/81] fix: T=0 procedure byte processing after data has been
 sent

---
 src/emv_ttl.c | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 4d49214..168531a 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -46,6 +46,8 @@ int emv_ttl_trx(
 	uint8_t c_apdu_update_le[EMV_CAPDU_MAX];
 	// C-TPDU data: found after P3; NULL if absent
 	const void* c_tpdu_data = NULL;
+	// Length of remaining C-TPDU data
+	size_t c_tpdu_data_len = 0;
 
 	// Next buffer to transmit
 	const void* tx_buf;
@@ -110,6 +112,7 @@ int emv_ttl_trx(
 		) {
 			// Locate C-TPDU data
 			c_tpdu_data = c_apdu + 5;
+			c_tpdu_data_len = c_tpdu_header[4]; // Lc
 		}
 
 		tx_buf = c_tpdu_header;
@@ -147,8 +150,13 @@ int emv_ttl_trx(
 
 		emv_debug_rtpdu(rx_buf, rx_len);
 
-		// Store INS of most recent tx for later use
-		INS = *((uint8_t*)(tx_buf + 1));
+		// Store INS of most recent command for later use. Note that for TPDU
+		// mode the most recent tx may have been data instead of a header.
+		if (ctx->cardreader.mode == EMV_CARDREADER_MODE_TPDU) {
+			INS = c_tpdu_header[1];
+		} else {
+			INS = *((uint8_t*)(tx_buf + 1));
+		}
 
 		// Extract SW1-SW2 status bytes
 		if (rx_len > 1) {
@@ -206,7 +214,7 @@ int emv_ttl_trx(
 				}
 
 				tx_buf = c_tpdu_data;
-				tx_buf_len = c_tpdu_header[4]; // Next transmit length is Lc
+				tx_buf_len = c_tpdu_data_len; // Next transmit length is remainder of Lc
 
 				// No more data available
 				c_tpdu_data = NULL;
@@ -226,23 +234,8 @@ int emv_ttl_trx(
 				tx_buf = c_tpdu_data;
 				tx_buf_len = 1;
 				++c_tpdu_data;
-
-				// Case 3: CLA INS P1 P2 Lc [Data(Lc)]
-				// If c_tpdu_data is at the end of [Data(Lc)],
-				// no more data is available
-				if (apdu_case == ISO7816_APDU_CASE_3S &&
-					c_tpdu_data - c_apdu >= c_apdu_len
-				) {
-					// No more data available
-					c_tpdu_data = NULL;
-				}
-
-				// Case 4: CLA INS P1 P2 Lc [Data(Lc)] Le
-				// If c_tpdu_data is at the end of [Data(Lc)],
-				// no more data is available
-				if (apdu_case == ISO7816_APDU_CASE_4S &&
-					c_tpdu_data - c_apdu >= c_apdu_len - 1
-				) {
+				--c_tpdu_data_len;
+				if (!c_tpdu_data_len) {
 					// No more data available
 					c_tpdu_data = NULL;
 				}
@@ -401,6 +394,9 @@ int emv_ttl_trx(
 			tx_buf = c_tpdu_header;
 			tx_buf_len = sizeof(c_tpdu_header);
 
+			// GET RESPONSE has no data
+			c_tpdu_data = NULL;
+
 			// Next transmission
 			continue;
 		}
@@ -420,11 +416,16 @@ int emv_ttl_trx(
 				// Next transmission
 				continue;
 			}
-			memcpy(c_tpdu_header, tx_buf, 4);
+			if (ctx->cardreader.mode == EMV_CARDREADER_MODE_APDU) {
+				memcpy(c_tpdu_header, tx_buf, 4);
+			}
 			c_tpdu_header[4] = SW2; // P3 = Le
 			tx_buf = c_tpdu_header;
 			tx_buf_len = sizeof(c_tpdu_header);
 
+			// P3 is Le and therefore no data is expected
+			c_tpdu_data = NULL;
+
 			// Next transmission
 			continue;
 		}
-- 
2.43.0


From ee906fb4e0b00c863e8e418a2c86619a6884b69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:23 +0000
Subject: [PATCH 14/81] fix: verify leading INS byte of R-TPDU without data

---
 src/emv_ttl.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 168531a..1f4c081 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -309,6 +309,15 @@ int emv_ttl_trx(
 				}
 		}
 
+		// For TPDU mode and a response with only one byte before SW1-SW2
+		if (ctx->cardreader.mode == EMV_CARDREADER_MODE_TPDU &&
+			rx_len == 3 &&
+			rx_buf[0] != INS
+		) {
+			// Leading byte should be INS
+			return 10;
+		}
+
 		// For TPDU mode and a response that appears to contain response data
 		if (ctx->cardreader.mode == EMV_CARDREADER_MODE_TPDU &&
 			rx_len > 3
-- 
2.43.0


From 5d947cd979a84d1422c08f96abc883551884ca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:42 +0000
Subject: [PATCH 15/81] fix: bound the number of 61XX and 6CXX responses
 without data

---
 src/emv_ttl.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 1f4c081..1f0edef 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -29,6 +29,9 @@
 #include <stdbool.h>
 #include <string.h>
 
+/// Maximum number of consecutive 61XX or 6CXX status bytes without response data
+#define EMV_TTL_RETRY_MAX (32)
+
 int emv_ttl_trx(
 	struct emv_ttl_t* ctx,
 	const void* c_apdu,
@@ -53,6 +56,9 @@ int emv_ttl_trx(
 	const void* tx_buf;
 	size_t tx_buf_len;
 
+	// Number of consecutive 61XX or 6CXX status bytes without response data
+	unsigned int retry_count = 0;
+
 	// Current position in R-APDU output
 	uint8_t* r_apdu_ptr = r_apdu;
 
@@ -346,6 +352,7 @@ int emv_ttl_trx(
 
 			// Ignore trailing status bytes
 			rx_len -= 2;
+			retry_count = 0;
 
 			// Copy data to R-APDU
 			memcpy(r_apdu_ptr, rx_buf + 1, rx_len);
@@ -372,6 +379,7 @@ int emv_ttl_trx(
 
 			// Ignore trailing status bytes
 			rx_len -= 2;
+			retry_count = 0;
 
 			// Copy data to R-APDU
 			memcpy(r_apdu_ptr, rx_buf, rx_len);
@@ -379,6 +387,15 @@ int emv_ttl_trx(
 			*r_apdu_len -= rx_len;
 		}
 
+		if (tx_get_response || tx_update_le) {
+			++retry_count;
+			if (retry_count > EMV_TTL_RETRY_MAX) {
+				// Card does not provide any response data
+				emv_debug_error("Too many responses without data");
+				return 12;
+			}
+		}
+
 		if (tx_get_response) {
 			uint8_t Le;
 
-- 
2.43.0


From 1025afac51715552687ef47dd2d7cb34d289806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:46 +0000
Subject: [PATCH 16/81] fix: extended Lc of C-APDU was read from the wrong
 offset

---
 src/iso7816_apdu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso7816_apdu.h b/src/iso7816_apdu.h
index c8c860e..1877c80 100644
--- a/src/iso7816_apdu.h
+++ b/src/iso7816_apdu.h
@@ -118,8 +118,8 @@ static inline int iso7816_apdu_case(const void* c_apdu, size_t c_apdu_len)
 			if (c_apdu_len > 7) {
 				// Extract bytes C6C7 from header
 				// See ISO 7816-3:2006, 12.1.3, table 13
-				unsigned int C6 = *(uint8_t*)(c_apdu + 6);
-				unsigned int C7 = *(uint8_t*)(c_apdu + 7);
+				unsigned int C6 = *(uint8_t*)(c_apdu + 5);
+				unsigned int C7 = *(uint8_t*)(c_apdu + 6);
 				unsigned int C6C7 = (C6 << 8) + C7;
 
 				if (C6C7) {
-- 
2.43.0


From d138fc5363113a93c57771597b63f401904f21e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:43 +0000
Subject: [PATCH 17/81] fix: simple ISO 8859 conversion wrote past end of
 output buffer

---
 src/iso8859_simple.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iso8859_simple.c b/src/iso8859_simple.c
index 9412595..98fe57c 100644
--- a/src/iso8859_simple.c
+++ b/src/iso8859_simple.c
@@ -58,8 +58,9 @@ int iso8859_to_utf8(
 			break;
 		}
 
-		// Ensure that at least 2 output bytes are available
-		if (utf8_len - utf8_idx < 2) {
+		// Ensure that enough output bytes are available for the next character
+		// as well as NULL termination
+		if (utf8_len - utf8_idx < (iso8859[i] < 0x80 ? 2 : 3)) {
 			// Unsufficient space left in output buffer
 			break;
 		}
-- 
2.43.0


From cd06fe8d26c1cc2da63ea867d120ab1b1211ec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:44 +0000
Subject: [PATCH 18/81] fix: iconv ISO 8859 conversion did not terminate its
 output

---
 src/iso8859_iconv.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iso8859_iconv.c b/src/iso8859_iconv.c
index 7c00e44..5b56885 100644
--- a/src/iso8859_iconv.c
+++ b/src/iso8859_iconv.c
@@ -52,12 +52,13 @@ int iso8859_to_utf8(
 	char* inbuf = (char*)iso8859;
 	size_t inbytesleft = iso8859_len;
 	char* outbuf = utf8;
-	size_t outbytesleft = utf8_len;
+	size_t outbytesleft;
 
 	if (!iso8859 || !iso8859_len || !utf8 || !utf8_len) {
 		return -1;
 	}
 	utf8[0] = 0;
+	outbytesleft = utf8_len - 1; // Leave space for NULL termination
 
 	if (!iso8859_is_supported(codepage)) {
 		return 1;
@@ -70,6 +71,10 @@ int iso8859_to_utf8(
 	}
 	r = iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
 	iconv_close(cd);
+
+	// Terminate UTF-8 string
+	*outbuf = 0;
+
 	if (r == (size_t)-1) {
 		return 2;
 	}
-- 
2.43.0


From ae87818558a99cd25bcff631ec3600ccbc413110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:45 +0000
Subject: [PATCH 19/81] fix: truncated ISO 8859 conversion split a multibyte
 character

---
 src/iso8859_boost.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/iso8859_boost.cpp b/src/iso8859_boost.cpp
index 5e5368b..8b68988 100644
--- a/src/iso8859_boost.cpp
+++ b/src/iso8859_boost.cpp
@@ -67,6 +67,14 @@ int iso8859_to_utf8(
 			return 2;
 		}
 
+		if (utf8_str.size() > utf8_len - 1) {
+			// Truncate without splitting a multibyte character
+			std::size_t len = utf8_len - 1;
+			while (len && (utf8_str[len] & 0xC0) == 0x80) {
+				--len;
+			}
+			utf8_str.resize(len);
+		}
 		std::strncpy(utf8, utf8_str.c_str(), utf8_len - 1);
 		utf8[utf8_len - 1] = 0;
 
-- 
2.43.0


From f2c005ddc1b87053fb95a2fef92e0b1947f5a75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:45 +0000
Subject: [PATCH 20/81] fix: application label without any usable character
 left the display name empty

---
 src/emv_app.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/emv_app.c b/src/emv_app.c
index a76a46f..da03804 100644
--- a/src/emv_app.c
+++ b/src/emv_app.c
@@ -220,7 +220,10 @@ static int emv_app_extract_display_name(struct emv_app_t* app, const struct emv_
 			app->display_name,
 			sizeof(app->display_name)
 		);
-		return 0;
+		if (r == 0 && app->display_name[0]) {
+			// Success
+			return 0;
+		}
 	}
 
 	// Although the Application Label field is mandatory, the terminal shall
-- 
2.43.0


From ae8c72fb1c409ea55798dd539283d3be59e80087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:46 +0000
Subject: [PATCH 21/81] fix: NULL supported AID list dereferenced by
 emv_app_is_supported()

---
 src/emv_app.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/emv_app.c b/src/emv_app.c
index da03804..5187391 100644
--- a/src/emv_app.c
+++ b/src/emv_app.c
@@ -295,6 +295,10 @@ bool emv_app_is_supported(
 		// Invalid app; not supported
 		return false;
 	}
+	if (!supported_aids) {
+		// No supported AIDs; not supported
+		return false;
+	}
 
 	// See EMV 4.4 Book 1, 12.3.1
 	for (tlv = supported_aids->front; tlv != NULL; tlv = tlv->next) {
-- 
2.43.0


From 900fae6fb7c1b3322b88ac0847343ba8ac7bcb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:48 +0000
Subject: [PATCH 22/81] fix: applications without priority indicator were
 listed in reverse order

---
 src/emv_app.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_app.c b/src/emv_app.c
index 5187391..88d415e 100644
--- a/src/emv_app.c
+++ b/src/emv_app.c
@@ -527,7 +527,7 @@ int emv_app_list_sort_priority(struct emv_app_list_t* list)
 		// implementation chooses to favour applications with a priority
 		// indicator over those without.
 		for (struct emv_app_t* cur = sorted_list.front; cur != NULL; cur = cur->next) {
-			if (!cur->priority) {
+			if (app->priority && !cur->priority) {
 				break;
 			}
 			if (app->priority && app->priority < cur->priority) {
-- 
2.43.0


From 77cfc138953e4d008ccc9a7937ced41448b6961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:31 +0000
Subject: [PATCH 23/81] fix: PSE record number must not wrap around

---
 src/emv_tal.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 644e602..0a3701f 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -149,7 +149,8 @@ int emv_tal_read_pse(
 
 	// Read all records from PSE AEF using the SFI
 	// See EMV 4.4 Book 1, 12.2.3
-	for (uint8_t record_number = 1; ; ++record_number) {
+	// NOTE: Record numbers are limited to a single byte
+	for (unsigned int record_number = 1; record_number <= 0xFF; ++record_number) {
 		uint8_t aef_record[EMV_RAPDU_DATA_MAX];
 		size_t aef_record_len = sizeof(aef_record);
 
-- 
2.43.0


From 372268952e6fb2b6ff951c089859e09a0ce3449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:31 +0000
Subject: [PATCH 24/81] fix: endless loop when reading records up to record 255

---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 0a3701f..6dbf5c0 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -755,7 +755,7 @@ static int emv_tal_read_sfi_records(
 		return EMV_TAL_ERROR_INVALID_PARAMETER;
 	}
 
-	for (uint8_t record_number = afl_entry->first_record; record_number <= afl_entry->last_record; ++record_number) {
+	for (unsigned int record_number = afl_entry->first_record; record_number <= afl_entry->last_record; ++record_number) {
 		uint8_t record[EMV_RAPDU_DATA_MAX];
 		size_t record_len = sizeof(record);
 		uint16_t sw1sw2;
-- 
2.43.0


From 8a163157e866fe7f61cdd5dea89f058b67928712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:32 +0000
Subject: [PATCH 25/81] fix: bound the number of SELECT next commands for a
 partial AID

---
 src/emv_tal.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 6dbf5c0..367c69c 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -34,6 +34,9 @@
 #include <stdint.h>
 #include <string.h>
 
+// Maximum number of SELECT next commands for the same partial AID
+#define EMV_TAL_SELECT_NEXT_MAX (255)
+
 // Helper functions
 static int emv_tal_parse_aef_record(
 	struct emv_tlv_list_t* pse_tlv_list,
@@ -304,6 +307,7 @@ int emv_tal_find_supported_apps(
 	int r;
 	struct emv_tlv_t* aid;
 	bool exact_match;
+	unsigned int next_count = 0;
 
 	if (!ttl || !supported_aids || !app_list) {
 		// Invalid parameters; terminate session
@@ -323,6 +327,7 @@ int emv_tal_find_supported_apps(
 			// SELECT application
 			// See EMV 4.4 Book 1, 12.3.3, step 1
 			emv_debug_info_data("SELECT application", aid->value, aid->length);
+			next_count = 0;
 			r = emv_ttl_select_by_df_name(ttl, aid->value, aid->length, fci, &fci_len, &sw1sw2);
 			if (r) {
 				emv_debug_trace_msg("emv_ttl_select_by_df_name() failed; r=%d", r);
@@ -432,6 +437,13 @@ int emv_tal_find_supported_apps(
 
 				// See EMV 4.4 Book 1, 12.3.3, step 7
 				exact_match = false;
+				if (++next_count > EMV_TAL_SELECT_NEXT_MAX) {
+					// Card never runs out of applications; continue to next
+					// supported AID
+					emv_debug_error("Too many applications for partial AID");
+					aid = aid->next;
+					exact_match = true;
+				}
 				continue;
 
 			} else {
-- 
2.43.0


From 16e1ad810d5495c38199a9351eeb32d268644df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:33 +0000
Subject: [PATCH 26/81] fix: empty application record was judged by stale
 memory

---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 367c69c..158b575 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -805,7 +805,7 @@ static int emv_tal_read_sfi_records(
 
 		// Therefore, any record that is not encoded as field 70 should not be
 		// parsed for EMV fields and invalidates offline data authentication.
-		if (record[0] != EMV_TAG_70_DATA_TEMPLATE) {
+		if (!record_len || record[0] != EMV_TAG_70_DATA_TEMPLATE) {
 			if (afl_entry->sfi >= 1 && afl_entry->sfi <= 10) {
 				// Invalid record for SFIs 1 - 10
 				// EMV 4.4 Book 3, 6.5.11.4
-- 
2.43.0


From 964ff9ea8904b1ee04f56953543db6eddcf6c54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:33 +0000
Subject: [PATCH 27/81] fix: additional byte after record template was not
 detected

---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 158b575..70c77f1 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -839,7 +839,7 @@ static int emv_tal_read_sfi_records(
 				emv_debug_error("Invalid record template tag 0x%02X", record_template.tag);
 				return EMV_TAL_ERROR_READ_RECORD_INVALID;
 			}
-			if (record_template.length + 3 < record_len) { // 3 bytes for ID and 2-byte length
+			if (r != record_len) {
 				// Record should contain a single record template without
 				// additional data after it
 				// See EMV 4.4 Book 3, 6.5.11.4
-- 
2.43.0


From 46491d86edb95df47b3b77aa9f2ec30493e607f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:34 +0000
Subject: [PATCH 28/81] fix: uninitialised tag in debug message about PSE AEF
 record

---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 70c77f1..120afef 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -244,7 +244,7 @@ static int emv_tal_parse_aef_record(
 	}
 	if (aef_template_tlv.tag != EMV_TAG_70_DATA_TEMPLATE) {
 		// No AEF template in PSE record; ignore and continue
-		emv_debug_error("Unexpected data element 0x%02X in PSE AEF record", tlv.tag);
+		emv_debug_error("Unexpected data element 0x%02X in PSE AEF record", aef_template_tlv.tag);
 		return EMV_TAL_RESULT_PSE_AEF_INVALID;
 	}
 
-- 
2.43.0


From 2c261460bfba6ea1fa8be8d87c627be04cd69ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:34 +0000
Subject: [PATCH 29/81] fix: GPO output pointers must not refer to freed fields
 upon failure

---
 src/emv_tal.c | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 120afef..69ee05d 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -567,7 +567,8 @@ int emv_tal_get_processing_options(
 	uint16_t sw1sw2;
 	struct iso8825_tlv_t gpo_tlv;
 	struct emv_tlv_list_t gpo_list = EMV_TLV_LIST_INIT;
-	const struct emv_tlv_t* tlv;
+	const struct emv_tlv_t* aip_tlv;
+	const struct emv_tlv_t* afl_tlv;
 
 	if (!ttl || !list) {
 		// Invalid parameters; terminate session
@@ -708,31 +709,25 @@ int emv_tal_get_processing_options(
 		}
 	}
 
-	// Populate AIP pointer
-	tlv = emv_tlv_list_find_const(&gpo_list, EMV_TAG_82_APPLICATION_INTERCHANGE_PROFILE);
-	if (!tlv) {
+	// Find AIP
+	aip_tlv = emv_tlv_list_find_const(&gpo_list, EMV_TAG_82_APPLICATION_INTERCHANGE_PROFILE);
+	if (!aip_tlv) {
 		// Mandatory field missing; terminate session
 		// See EMV 4.4 Book 3, 6.5.8.4
 		emv_debug_error("AIP not found in GPO response");
 		r = EMV_TAL_ERROR_GPO_FIELD_NOT_FOUND;
 		goto exit;
 	}
-	if (aip) {
-		*aip = tlv;
-	}
 
-	// Populate AFL pointer
-	tlv = emv_tlv_list_find_const(&gpo_list, EMV_TAG_94_APPLICATION_FILE_LOCATOR);
-	if (!tlv) {
+	// Find AFL
+	afl_tlv = emv_tlv_list_find_const(&gpo_list, EMV_TAG_94_APPLICATION_FILE_LOCATOR);
+	if (!afl_tlv) {
 		// Mandatory field missing; terminate session
 		// See EMV 4.4 Book 3, 6.5.8.4
 		emv_debug_error("AFL not found in GPO response");
 		r = EMV_TAL_ERROR_GPO_FIELD_NOT_FOUND;
 		goto exit;
 	}
-	if (afl) {
-		*afl = tlv;
-	}
 
 	r = emv_tlv_list_append(list, &gpo_list);
 	if (r) {
@@ -744,6 +739,14 @@ int emv_tal_get_processing_options(
 		goto exit;
 	}
 
+	// Populate AIP and AFL pointers
+	if (aip) {
+		*aip = aip_tlv;
+	}
+	if (afl) {
+		*afl = afl_tlv;
+	}
+
 	// Successful GPO processing
 	r = 0;
 	goto exit;
-- 
2.43.0


From 78549f9a8ffe82ad22c7637b7ddafc453a8d4f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:35 +0000
Subject: [PATCH 30/81] fix: NULL context dereferenced by
 emv_initiate_application_processing()

---
 src/emv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv.c b/src/emv.c
index 0d456bf..90e8b5e 100644
--- a/src/emv.c
+++ b/src/emv.c
@@ -502,7 +502,7 @@ int emv_initiate_application_processing(
 	struct emv_tlv_list_t gpo_output = EMV_TLV_LIST_INIT;
 
 	if (!ctx || !ctx->selected_app) {
-		emv_debug_trace_msg("ctx=%p, selected_app=%p", ctx, ctx->selected_app);
+		emv_debug_trace_msg("ctx=%p, selected_app=%p", ctx, ctx ? ctx->selected_app : NULL);
 		emv_debug_error("Invalid parameter");
 		return EMV_ERROR_INVALID_PARAMETER;
 	}
-- 
2.43.0


From b891ca317692e509bbd12214aaae3065fc0bd381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:35 +0000
Subject: [PATCH 31/81] fix: repeated application initiation used freed
 application data

---
 src/emv.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/emv.c b/src/emv.c
index 90e8b5e..1905863 100644
--- a/src/emv.c
+++ b/src/emv.c
@@ -507,6 +507,13 @@ int emv_initiate_application_processing(
 		return EMV_ERROR_INVALID_PARAMETER;
 	}
 
+	if (emv_tlv_list_is_empty(&ctx->selected_app->tlv_list)) {
+		// Application data has already been moved to ICC data list by a
+		// previous invocation
+		emv_debug_error("Invalid parameter");
+		return EMV_ERROR_INVALID_PARAMETER;
+	}
+
 	// Clear existing ICC data and terminal data lists to avoid ambiguity
 	emv_tlv_list_clear(&ctx->icc);
 	emv_tlv_list_clear(&ctx->terminal);
-- 
2.43.0


From 4f621826a87cc88b9ecca4f2e3994a752ae8d163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:36 +0000
Subject: [PATCH 32/81] fix: data of previously selected application survived
 selection of another

---
 src/emv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/emv.c b/src/emv.c
index 1905863..c786767 100644
--- a/src/emv.c
+++ b/src/emv.c
@@ -424,6 +424,10 @@ int emv_select_application(
 		ctx->selected_app = NULL;
 	}
 
+	// Data of any previously selected app no longer applies
+	emv_tlv_list_clear(&ctx->icc);
+	emv_tlv_list_clear(&ctx->terminal);
+
 	current_app = emv_app_list_remove_index(app_list, index);
 	if (!current_app) {
 		emv_debug_trace_msg("emv_app_list_remove_index() failed; index=%u", index);
-- 
2.43.0


From ee5851c1f11758c7c14f094f119300839fdaf3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:53 +0000
Subject: [PATCH 33/81] fix: empty AFL provided by card is a card error

---
 src/emv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv.c b/src/emv.c
index c786767..26cbc0a 100644
--- a/src/emv.c
+++ b/src/emv.c
@@ -738,7 +738,7 @@ int emv_read_application_data(struct emv_ctx_t* ctx)
 	// Process Application File Locator (AFL)
 	// See EMV 4.4 Book 3, 10.2
 	afl = emv_tlv_list_find_const(&ctx->icc, EMV_TAG_94_APPLICATION_FILE_LOCATOR);
-	if (!afl) {
+	if (!afl || !afl->length) {
 		// AFL not found; terminate session
 		// See EMV 4.4 Book 3, 6.5.8.4
 		emv_debug_error("AFL not found");
-- 
2.43.0


From e44b750e168aa41adaa93662a2973eae4c8474a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:09 +0000
Subject: [PATCH 34/81] fix: empty FCI was judged by stale memory

---
 src/emv_app.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_app.c b/src/emv_app.c
index 88d415e..d1715e7 100644
--- a/src/emv_app.c
+++ b/src/emv_app.c
@@ -99,7 +99,7 @@ struct emv_app_t* emv_app_create_from_fci(const void* fci, size_t fci_len)
 
 	// Parse FCI template
 	r = iso8825_ber_decode(fci, fci_len, &tlv);
-	if (r != fci_len) {
+	if (r <= 0 || r != fci_len) {
 		// Parse error
 		goto error;
 	}
-- 
2.43.0


From da4db7a8d85b10bb383b8436e3987f4d71d60e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:02 +0000
Subject: [PATCH 35/81] fix: JCB application identifiers were reported as
 unknown

---
 src/emv_fields.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/emv_fields.c b/src/emv_fields.c
index cd097a1..dcaa570 100644
--- a/src/emv_fields.c
+++ b/src/emv_fields.c
@@ -217,6 +217,8 @@ int emv_aid_get_info(
 	// JCB
 	if (emv_aid_match(aid, aid_len, jcb_aid)) {
 		info->scheme = EMV_CARD_SCHEME_JCB;
+		// Individual JCB card products are not reflected here
+		return 0;
 	}
 
 	// Dankort
-- 
2.43.0


From 8ed4282d2bb5e3067e3a7794726a65068a5d463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:10 +0000
Subject: [PATCH 36/81] fix: single byte fields without a value were read past
 their end

---
 src/emv_strings.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 644226e..fb1d7d9 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -397,7 +397,7 @@ int emv_tlv_get_info(
 				"The actual values to be used for the Transaction Type data "
 				"element are defined by the relevant payment system.";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -551,7 +551,7 @@ int emv_tlv_get_info(
 				"Indicates the type of account selected on the "
 				"terminal, coded as specified in Annex G";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -885,7 +885,7 @@ int emv_tlv_get_info(
 				"Indicates the type of cryptogram and the actions to be "
 				"performed by the terminal";
 			info->format = EMV_FORMAT_B;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -923,7 +923,7 @@ int emv_tlv_get_info(
 				"Indicates the environment of the terminal, its "
 				"communications capability, and its operational control";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -962,7 +962,7 @@ int emv_tlv_get_info(
 				"Indicates the method by which the PAN was entered, according "
 				"to the first two digits of the ISO 8583:1987 POS Entry Mode";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
-- 
2.43.0


From ba378f8db63c7762ab45548cbe24a782574090d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:11 +0000
Subject: [PATCH 37/81] fix: directory names were confused with other DF names

---
 src/emv_strings.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index fb1d7d9..b55a4f4 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -245,10 +245,11 @@ int emv_tlv_get_info(
 				"Identifies the name of the Dedicated File (DF) as described "
 				"in ISO/IEC 7816-4";
 			info->format = EMV_FORMAT_B;
-			if ((tlv->length == strlen(EMV_PSE) && strncmp((const char*)tlv->value, EMV_PSE, strlen(EMV_PSE))) ||
-				(tlv->length == strlen(EMV_PPSE) && strncmp((const char*)tlv->value, EMV_PPSE, strlen(EMV_PPSE)))
-			) {
-				if (value_str_len > tlv->length) {
+			if (tlv->value && (
+				(tlv->length == strlen(EMV_PSE) && strncmp((const char*)tlv->value, EMV_PSE, strlen(EMV_PSE)) == 0) ||
+				(tlv->length == strlen(EMV_PPSE) && strncmp((const char*)tlv->value, EMV_PPSE, strlen(EMV_PPSE)) == 0)
+			)) {
+				if (value_str && value_str_len > tlv->length) {
 					memcpy(value_str, tlv->value, tlv->length);
 					value_str[tlv->length] = 0;
 				}
-- 
2.43.0


From fa8cb56e50e3a368e82d982d9637be8d42a14499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:12 +0000
Subject: [PATCH 38/81] fix: track 2 string did not consider the output buffer
 length

---
 src/emv_strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index b55a4f4..8d39a50 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -2891,6 +2891,11 @@ int emv_track2_equivalent_data_get_string(
 		return 0;
 	}
 
+	// Minimum string length
+	if (str_len < track2_len * 2 + 1) {
+		return -2;
+	}
+
 	// The easiest way to convert track2 data to a string is to simply extract
 	// each nibble and add 0x30 ('0') to create the equivalent ASCII character
 	// All ASCII digits from 0x30 to 0x3F are printable and it is only
-- 
2.43.0


From 7a3aafb48b600117c819f430537bdce20abc8c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:12 +0000
Subject: [PATCH 39/81] fix: empty string lists were not terminated

---
 src/emv_strings.c     | 5 +++++
 src/iso7816_strings.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 8d39a50..509f42f 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -2034,6 +2034,11 @@ static void emv_str_list_init(struct str_itr_t* itr, char* buf, size_t len)
 {
 	itr->ptr = buf;
 	itr->len = len;
+
+	// NULL terminate empty string list
+	if (len) {
+		*itr->ptr = 0;
+	}
 }
 
 ATTRIBUTE_FORMAT_PRINTF(2, 3)
diff --git a/src/iso7816_strings.c b/src/iso7816_strings.c
index ed23dde..5970a2a 100644
--- a/src/iso7816_strings.c
+++ b/src/iso7816_strings.c
@@ -35,6 +35,11 @@ static void iso7816_str_list_init(struct str_itr_t* itr, char* buf, size_t len)
 {
 	itr->ptr = buf;
 	itr->len = len;
+
+	// NULL terminate empty string list
+	if (len) {
+		*itr->ptr = 0;
+	}
 }
 
 static void iso7816_str_list_add(struct str_itr_t* itr, const char* str)
-- 
2.43.0


From 83dc9c0ef60d64904d00870ca5cadb64e7f56ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:13 +0000
Subject: [PATCH 40/81] fix: short third party data was read past its end

---
 src/emv_strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 509f42f..1620589 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -5256,6 +5256,11 @@ int emv_mastercard_third_party_data_get_string_list(
 		char device_type[3];
 		const char* device_type_str;
 
+		if (tpd_len < 7) {
+			// If Device Type is present, minimum field length is 7
+			return 1;
+		}
+
 		memcpy(device_type, tpd_ptr, 2);
 		device_type[2] = 0; // NULL terminate
 
-- 
2.43.0


From 609d539c048586874ce6b031e7bfbbc0fc3e041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:14 +0000
Subject: [PATCH 41/81] fix: short commands were read past their end when
 stringified

---
 src/emv_strings.c     | 2 +-
 src/iso7816_strings.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 1620589..35f7eea 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -6026,7 +6026,7 @@ int emv_capdu_get_string(
 
 	str[0] = 0; // NULL terminate
 
-	if (str_len < 4) {
+	if (c_apdu_len < 4) {
 		// C-APDU must be least 4 bytes
 		// See EMV Contact Interface Specification v1.0, 9.4.1
 		return -2;
diff --git a/src/iso7816_strings.c b/src/iso7816_strings.c
index 5970a2a..cb97289 100644
--- a/src/iso7816_strings.c
+++ b/src/iso7816_strings.c
@@ -423,7 +423,7 @@ const char* iso7816_capdu_get_string(
 	}
 	str[0] = 0; // NULL terminate
 
-	if (str_len < 4) {
+	if (c_apdu_len < 4) {
 		// C-APDU must be least 4 bytes
 		// See ISO 7816-4:2005, 5.1
 		return NULL;
-- 
2.43.0


From d0e96c88cc362997ed4c48251225d6828290f832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:15 +0000
Subject: [PATCH 42/81] fix: last digit of long file identifier was omitted

---
 src/iso7816_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso7816_strings.c b/src/iso7816_strings.c
index cb97289..ac45b3e 100644
--- a/src/iso7816_strings.c
+++ b/src/iso7816_strings.c
@@ -143,7 +143,7 @@ static const char* iso7816_capdu_select_get_string(
 		for (size_t i = 0; i < apdu_case_4s->Lc; ++i) {
 			snprintf(
 				file_id_str + (i * 2),
-				sizeof(file_id_str) - 1 - (i * 2),
+				sizeof(file_id_str) - (i * 2),
 				"%02X",
 				apdu_case_4s->data[i]
 			);
-- 
2.43.0


From cc96a51d3e4eb71cfeb030df91afb569321e8091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:16 +0000
Subject: [PATCH 43/81] fix: CCD upper cumulative offline amount limit bit

---
 src/emv_fields.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_fields.h b/src/emv_fields.h
index 375121e..4f89a8a 100644
--- a/src/emv_fields.h
+++ b/src/emv_fields.h
@@ -407,7 +407,7 @@ enum emv_iad_format_t {
 #define EMV_IAD_CCD_CVR_BYTE3_L_OFFLINE_TXN_CNT_LIMIT_EXCEEDED  (0x80) ///< Card Verification Results (CVR): Lower Offline Transaction Count Limit Exceeded
 #define EMV_IAD_CCD_CVR_BYTE3_U_OFFLINE_TXN_CNT_LIMIT_EXCEEDED  (0x40) ///< Card Verification Results (CVR): Upper Offline Transaction Count Limit Exceeded
 #define EMV_IAD_CCD_CVR_BYTE3_L_OFFLINE_AMOUNT_LIMIT_EXCEEDED   (0x20) ///< Card Verification Results (CVR): Lower Cumulative Offline Amount Limit Exceeded
-#define EMV_IAD_CCD_CVR_BYTE3_U_OFFLINE_AMOUNT_LIMIT_EXCEEDED   (0x20) ///< Card Verification Results (CVR): Upper Cumulative Offline Amount Limit Exceeded
+#define EMV_IAD_CCD_CVR_BYTE3_U_OFFLINE_AMOUNT_LIMIT_EXCEEDED   (0x10) ///< Card Verification Results (CVR): Upper Cumulative Offline Amount Limit Exceeded
 #define EMV_IAD_CCD_CVR_BYTE3_ISSUER_DISCRETIONARY_BIT1         (0x08) ///< Card Verification Results (CVR): Issuer-discretionary bit 1
 #define EMV_IAD_CCD_CVR_BYTE3_ISSUER_DISCRETIONARY_BIT2         (0x04) ///< Card Verification Results (CVR): Issuer-discretionary bit 2
 #define EMV_IAD_CCD_CVR_BYTE3_ISSUER_DISCRETIONARY_BIT3         (0x02) ///< Card Verification Results (CVR): Issuer-discretionary bit 3
-- 
2.43.0


From 2b59d1e3486802d784f7d646a4fac6b70a529d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:47 +0000
Subject: [PATCH 44/81] fix: typo in card status update description

---
 src/emv_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 35f7eea..65b5d34 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -5873,7 +5873,7 @@ static int emv_csu_append_string_list(
 		emv_str_list_add(itr, "Card Status Update (CSU): Do Not Update Offline Counters");
 	}
 	if ((csu[1] & EMV_CSU_BYTE2_UPDATE_COUNTERS_MASK) == EMV_CSU_BYTE2_UPDATE_COUNTERS_UPPER_OFFLINE_LIMIT) {
-		emv_str_list_add(itr, "ard Status Update (CSU): Set Offline Counters to Upper Offline Limits");
+		emv_str_list_add(itr, "Card Status Update (CSU): Set Offline Counters to Upper Offline Limits");
 	}
 	if ((csu[1] & EMV_CSU_BYTE2_UPDATE_COUNTERS_MASK) == EMV_CSU_BYTE2_UPDATE_COUNTERS_RESET) {
 		emv_str_list_add(itr, "Card Status Update (CSU): Reset Offline Counters to Zero");
-- 
2.43.0


From eee69e077f37271defb35e0e4051f990276e1e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:40 +0000
Subject: [PATCH 45/81] fix: repeated initialisation of code lists left
 dangling references

---
 src/isocodes_lookup.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/isocodes_lookup.cpp b/src/isocodes_lookup.cpp
index 689f2a5..357d259 100644
--- a/src/isocodes_lookup.cpp
+++ b/src/isocodes_lookup.cpp
@@ -320,6 +320,12 @@ static bool build_country_list(json_object* json_root) noexcept
 		return false;
 	}
 
+	// Maps refer to list entries and must not outlive them
+	country_alpha2_map.clear();
+	country_alpha3_map.clear();
+	country_numeric_map.clear();
+	country_list.clear();
+
 	country_list.reserve(iso3166_1_array_length);
 	r = json_c_visit(iso3166_1_obj, 0, &json_array_visit_userfunc, (void*)&country_list_append);
 	if (r) {
@@ -379,6 +385,11 @@ static bool build_currency_list(json_object* json_root) noexcept
 		return false;
 	}
 
+	// Maps refer to list entries and must not outlive them
+	currency_alpha3_map.clear();
+	currency_numeric_map.clear();
+	currency_list.clear();
+
 	currency_list.reserve(iso4217_array_length);
 	r = json_c_visit(iso4217_obj, 0, &json_array_visit_userfunc, (void*)&currency_list_append);
 	if (r) {
@@ -433,6 +444,11 @@ static bool build_language_list(json_object* json_root) noexcept
 		return false;
 	}
 
+	// Maps refer to list entries and must not outlive them
+	language_alpha2_map.clear();
+	language_alpha3_map.clear();
+	language_list.clear();
+
 	language_list.reserve(iso_639_2_array_length);
 	r = json_c_visit(iso_639_2_obj, 0, &json_array_visit_userfunc, (void*)language_list_append);
 	if (r) {
-- 
2.43.0


From 5634c281bfb91e78de6aee94c1c448e3249e9644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:42 +0000
Subject: [PATCH 46/81] fix: malformed numeric code in code list terminated the
 process

---
 src/isocodes_lookup.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/isocodes_lookup.cpp b/src/isocodes_lookup.cpp
index 357d259..576e244 100644
--- a/src/isocodes_lookup.cpp
+++ b/src/isocodes_lookup.cpp
@@ -27,6 +27,7 @@
 #include <map>
 #include <memory>
 #include <cstdio>
+#include <cstring>
 
 // NOTE: Older versions of json-c, like the one for Ubuntu 20.04, don't specify
 // C linkage in the headers, which means it must be specified explicitly here
@@ -39,6 +40,12 @@ __END_DECLS
 
 typedef bool (*isocodes_list_append_func_t)(json_object* jso);
 
+static bool numeric_is_valid(const char* numeric)
+{
+	// Numeric codes consist of exactly three decimal digits
+	return std::strlen(numeric) == 3 && std::strspn(numeric, "0123456789") == 3;
+}
+
 struct isocodes_country_t {
 	std::string name;
 	std::string alpha2;
@@ -123,7 +130,7 @@ static bool country_list_append(json_object* jso)
 		return false;
 	}
 	const char* numeric_str = json_object_get_string(numeric_obj);
-	if (!numeric_str) {
+	if (!numeric_str || !numeric_is_valid(numeric_str)) {
 		return false;
 	}
 
@@ -175,7 +182,7 @@ static bool currency_list_append(json_object* jso)
 		return false;
 	}
 	const char* numeric_str = json_object_get_string(numeric_obj);
-	if (!numeric_str) {
+	if (!numeric_str || !numeric_is_valid(numeric_str)) {
 		return false;
 	}
 
@@ -482,7 +489,7 @@ int isocodes_init(const char* path)
 	} else {
 		path_str = ISOCODES_JSON_PATH;
 	}
-	if (path_str.back() != '/') {
+	if (path_str.empty() || path_str.back() != '/') {
 		path_str += "/";
 	}
 
-- 
2.43.0


From 44e4cd0682bd479dde92fbddc52bdac662748733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:35 +0000
Subject: [PATCH 47/81] fix: preferred name without a value was dereferenced

---
 src/emv_strings.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 65b5d34..ff4e5e8 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1328,6 +1328,9 @@ static int emv_tlv_value_get_string(const struct emv_tlv_t* tlv, enum emv_format
 			}
 			else if (tlv->tag == EMV_TAG_9F12_APPLICATION_PREFERRED_NAME) {
 				// TODO: Convert EMV_TAG_9F12_APPLICATION_PREFERRED_NAME from the appropriate ISO/IEC 8859 code page to UTF-8
+				if (!tlv->value) {
+					return -7;
+				}
 				memcpy(value_str, tlv->value, tlv->length);
 				value_str[tlv->length] = 0; // NULL terminate
 				return 0;
-- 
2.43.0


From a26732b091ff5ecba66e4d4df7ce6f6551831597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:00 +0000
Subject: [PATCH 48/81] fix: absence of terminal data output was described as
 an input capability

---
 src/emv_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index ff4e5e8..ecc86bb 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -2425,7 +2425,7 @@ int emv_addl_term_caps_get_string_list(
 	// Terminal Data Output Capability (byte 4)
 	// See EMV 4.4 Book 4, Annex A3, table 31
 	if (!(addl_term_caps[3] & EMV_ADDL_TERM_CAPS_OUTPUT_PRINT_OR_DISPLAY)) {
-		emv_str_list_add(&itr, "Terminal Data Input Capability: No print, electronic or display output");
+		emv_str_list_add(&itr, "Terminal Data Output Capability: No print, electronic or display output");
 	}
 	if ((addl_term_caps[3] & EMV_ADDL_TERM_CAPS_OUTPUT_PRINT_ATTENDANT)) {
 		emv_str_list_add(&itr, "Terminal Data Output Capability: Print or electronic, attendant");
-- 
2.43.0


From 47dfdb1c0f765ea335c3c47201ea611a34a31bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:31 +0000
Subject: [PATCH 49/81] fix: merchant categories of a previous list survived
 re-initialisation

---
 src/mcc_lookup.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mcc_lookup.cpp b/src/mcc_lookup.cpp
index 7933f8c..f8b378c 100644
--- a/src/mcc_lookup.cpp
+++ b/src/mcc_lookup.cpp
@@ -163,6 +163,9 @@ static bool build_mcc_list(json_object* json_root) noexcept
 		return false;
 	}
 
+	// Discard entries of any previous list
+	mcc_map.clear();
+
 	r = json_c_visit(json_root, 0, &json_array_visit_userfunc, (void*)&mcc_map_add);
 	if (r) {
 		return false;
-- 
2.43.0


From 104084c91a7c8d2cda2e4f32f9e926ad104aa227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:46 +0000
Subject: [PATCH 50/81] fix: malformed merchant category codes were accepted
 and misread

---
 src/mcc_lookup.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/mcc_lookup.cpp b/src/mcc_lookup.cpp
index f8b378c..a6d5f36 100644
--- a/src/mcc_lookup.cpp
+++ b/src/mcc_lookup.cpp
@@ -22,6 +22,8 @@
 #include "mcc_lookup.h"
 #include "emv_utils_config.h"
 
+#include <cstdlib>
+#include <cstring>
 #include <string>
 #include <map>
 
@@ -63,8 +65,17 @@ static bool mcc_map_add(json_object* jso)
 	if (!mcc_obj) {
 		return false;
 	}
-	int64_t mcc_number = json_object_get_int64(mcc_obj);
-	if (mcc_number <= 0) {
+	const char* mcc_str = json_object_get_string(mcc_obj);
+	if (!mcc_str) {
+		return false;
+	}
+	// Merchant Category Codes consist of up to four decimal digits
+	size_t mcc_len = std::strlen(mcc_str);
+	if (!mcc_len || mcc_len > 4 || std::strspn(mcc_str, "0123456789") != mcc_len) {
+		return false;
+	}
+	unsigned long mcc_number = std::strtoul(mcc_str, nullptr, 10);
+	if (!mcc_number) {
 		return false;
 	}
 
-- 
2.43.0


From 5b9ebdb8d2e599a6c5903711c8196b81766ae08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:14 +0000
Subject: [PATCH 51/81] fix: account for the current property, not the next
 one, when walking PC/SC TLV properties

---
 src/pcsc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index eec1720..5af651c 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -500,8 +500,8 @@ int pcsc_reader_get_property(
 			return 0;
 		}
 
-		tlv += (2 + tlv[1]);
 		tlv_len -= (2 + tlv[1]);
+		tlv += (2 + tlv[1]);
 	}
 
 	// Otherwise, retrieve from IFD_PIN_PROPERTIES
-- 
2.43.0


From 8021dea9fbc7b5187bd3cb0faba47015c287c154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 52/81] fix: validate the length of every PC/SC TLV property
 before skipping it

---
 src/pcsc.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index 5af651c..d4f4eb3 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -485,11 +485,13 @@ int pcsc_reader_get_property(
 	tlv = reader->features.properties;
 	tlv_len = reader->features.properties_len;
 	while (tlv_len >= 2) { // 1-byte tag and 1-byte length
+		if (tlv[1] > tlv_len - 2) {
+			// Invalid property length
+			*value_len = 0;
+			return -2;
+		}
+
 		if (tlv[0] == property) {
-			if (tlv[1] > tlv_len - 2) {
-				*value_len = 0;
-				return -2;
-			}
 			if (tlv[1] > *value_len) {
 				*value_len = 0;
 				return -3;
-- 
2.43.0


From 850e5b2ebf61e5c8b3a608b3b758a7b75806e584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 53/81] fix: invalidate PC/SC feature and property lengths when
 the request failed

---
 src/pcsc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pcsc.c b/src/pcsc.c
index d4f4eb3..9221f27 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -215,6 +215,7 @@ static int pcsc_reader_populate_features(struct pcsc_reader_t* reader)
 	);
 	if (result != SCARD_S_SUCCESS) {
 		fprintf(stderr, "SCardControl(CM_IOCTL_GET_FEATURE_REQUEST) failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
+		reader->features.buf_len = 0; // Invalidate buffer length
 		r = -3;
 		goto exit;
 	}
@@ -233,6 +234,7 @@ static int pcsc_reader_populate_features(struct pcsc_reader_t* reader)
 	while ((void*)pcsc_tlv - (void*)reader->features.buf < reader->features.buf_len) {
 		if (pcsc_tlv->length != 4) {
 			fprintf(stderr, "Failed to parse PC/SC reader features\n");
+			reader->features.buf_len = 0; // Invalidate buffer length
 			r = -5;
 			goto exit;
 		}
@@ -257,6 +259,7 @@ static int pcsc_reader_populate_features(struct pcsc_reader_t* reader)
 		);
 		if (result != SCARD_S_SUCCESS) {
 			fprintf(stderr, "SCardControl(%04X) failed; result=0x%x [%s]\n", (unsigned int)control_code, (unsigned int)result, pcsc_stringify_error(result));
+			reader->features.pin_properties_len = 0; // Invalidate buffer length
 			r = -7;
 			goto exit;
 		}
@@ -286,6 +289,7 @@ static int pcsc_reader_populate_features(struct pcsc_reader_t* reader)
 		);
 		if (result != SCARD_S_SUCCESS) {
 			fprintf(stderr, "SCardControl(%04X) failed; result=0x%x [%s]\n", (unsigned int)control_code, (unsigned int)result, pcsc_stringify_error(result));
+			reader->features.display_properties_len = 0; // Invalidate buffer length
 			r = -10;
 			goto exit;
 		}
@@ -315,6 +319,7 @@ static int pcsc_reader_populate_features(struct pcsc_reader_t* reader)
 		);
 		if (result != SCARD_S_SUCCESS) {
 			fprintf(stderr, "SCardControl(%04X) failed; result=0x%x [%s]\n", (unsigned int)control_code, (unsigned int)result, pcsc_stringify_error(result));
+			reader->features.properties_len = 0; // Invalidate buffer length
 			r = -13;
 			goto exit;
 		}
-- 
2.43.0


From 89dfd69ddc43366325ec3dd7b0627d57c6590f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 54/81] fix: do not disconnect from a PC/SC reader that was
 never connected

---
 src/pcsc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index 9221f27..c9c9f69 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -199,8 +199,7 @@ static int pcsc_reader_populate_features(struct pcsc_reader_t* reader)
 	);
 	if (result != SCARD_S_SUCCESS) {
 		fprintf(stderr, "SCardConnect(SCARD_SHARE_DIRECT) failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
-		r = -2;
-		goto exit;
+		return -2;
 	}
 
 	// Request reader features
-- 
2.43.0


From 5ac8e2f2ff0a281f41990325b2e3ba584c89c8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:16 +0000
Subject: [PATCH 55/81] fix: disconnect from PC/SC reader when contactless UID
 retrieval fails

---
 src/pcsc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pcsc.c b/src/pcsc.c
index c9c9f69..3d11bad 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -758,6 +758,7 @@ int pcsc_reader_connect(pcsc_reader_ctx_t reader_ctx)
 		);
 		if (r < 0) {
 			// Error during UID retrieval; assume card error
+			pcsc_reader_disconnect(reader);
 			return r;
 		} else if (r > 0) {
 			// Function not supported; assume contact card
-- 
2.43.0


From 3749a2bab6a0c7245824d891049a8ecf6a4bef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:02 +0000
Subject: [PATCH 56/81] fix: deeply nested data exhausted the stack when
 printed

---
 tools/print_helpers.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index e41caf1..6c94e09 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -38,6 +38,10 @@
 #include <stdio.h>
 #include <string.h>
 
+// Maximum nesting depth of printed data. This is much more than any valid EMV
+// data needs but limits the stack usage when printing hostile data.
+#define PRINT_MAX_DEPTH (64)
+
 static bool str_is_list(const char* str)
 {
 	if (!str || !str[0]) {
@@ -350,6 +354,11 @@ static int print_ber_buf_internal(
 	struct iso8825_tlv_t tlv;
 	char str[1024];
 
+	if (depth > PRINT_MAX_DEPTH) {
+		printf("Maximum nesting depth exceeded\n");
+		return -1;
+	}
+
 	r = iso8825_ber_itr_init(ptr, len, &itr);
 	if (r) {
 		printf("Failed to initialise BER iterator\n");
@@ -511,6 +520,11 @@ static int print_emv_buf_internal(
 	struct iso8825_ber_itr_t itr;
 	struct iso8825_tlv_t tlv;
 
+	if (depth > PRINT_MAX_DEPTH) {
+		printf("Maximum nesting depth exceeded\n");
+		return -1;
+	}
+
 	r = iso8825_ber_itr_init(ptr, len, &itr);
 	if (r) {
 		printf("Failed to initialise BER iterator\n");
-- 
2.43.0


From 3d7dd63549fdf4ca0996e5620a80557c290df328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:02 +0000
Subject: [PATCH 57/81] fix: invalid remainder of a DOL or Tag List was
 silently dropped when printed

---
 tools/print_helpers.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index 6c94e09..f1348df 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -801,6 +801,16 @@ void print_emv_dol(const void* ptr, size_t len, const char* prefix, unsigned int
 			printf("%02X [%u]\n", entry.tag, entry.length);
 		}
 	}
+	if (r < 0) {
+		for (unsigned int i = 0; i < depth; ++i) {
+			printf("%s", prefix ? prefix : "");
+		}
+		printf("DOL decoding error %d; remaining invalid data:", r);
+		for (size_t i = 0; i < itr.len; ++i) {
+			printf(" %02X", *((uint8_t*)itr.ptr + i));
+		}
+		printf("\n");
+	}
 }
 
 void print_emv_tag_list(const void* ptr, size_t len, const char* prefix, unsigned int depth)
@@ -836,6 +846,16 @@ void print_emv_tag_list(const void* ptr, size_t len, const char* prefix, unsigne
 		ptr += r;
 		len -= r;
 	}
+	if (r < 0) {
+		for (unsigned int i = 0; i < depth; ++i) {
+			printf("%s", prefix ? prefix : "");
+		}
+		printf("Tag List decoding error %d; remaining invalid data:", r);
+		for (size_t i = 0; i < len; ++i) {
+			printf(" %02X", *((uint8_t*)ptr + i));
+		}
+		printf("\n");
+	}
 }
 
 void print_emv_app(const struct emv_app_t* app)
-- 
2.43.0


From 8d8a076c223456f0a345cc59d8c3fb6a9dbd8da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:02 +0000
Subject: [PATCH 58/81] fix: all but the last INPUT argument of emv-decode were
 silently dropped

---
 tools/emv-decode.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/emv-decode.c b/tools/emv-decode.c
index a5b2814..15affa4 100644
--- a/tools/emv-decode.c
+++ b/tools/emv-decode.c
@@ -33,6 +33,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <argp.h>
+#include <errno.h>
 
 // Helper functions
 static error_t argp_parser_helper(int key, char* arg, struct argp_state* state);
@@ -198,6 +199,11 @@ static error_t argp_parser_helper(int key, char* arg, struct argp_state* state)
 
 	switch (key) {
 		case ARGP_KEY_ARG: {
+			if (data || arg_str) {
+				argp_error(state, "Only one INPUT may be specified");
+				return EINVAL;
+			}
+
 			if (emv_decode_mode == EMV_DECODE_ISO3166_1 ||
 				emv_decode_mode == EMV_DECODE_ISO4217 ||
 				emv_decode_mode == EMV_DECODE_ISO639
-- 
2.43.0


From b31af0b82f88a768840dc7d2ce4e92875cb0c2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:02 +0000
Subject: [PATCH 59/81] fix: fields after an invalid OID were reported as
 invalid data or padding

---
 tools/print_helpers.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index f1348df..6313d23 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -423,15 +423,16 @@ static int print_ber_buf_internal(
 
 				r = iso8825_ber_oid_decode(tlv.value, tlv.length, &oid);
 				if (r) {
-					// Failed to decode OID
-					break;
-				}
-
-				printf(" {");
-				for (unsigned int i = 0; i < oid.length; ++i) {
-					printf("%s%u", i ? " ": "", oid.value[i]);
+					// The field itself is valid BER encoded data and so are
+					// the fields after it
+					printf(" (Invalid OID)");
+				} else {
+					printf(" {");
+					for (unsigned int i = 0; i < oid.length; ++i) {
+						printf("%s%u", i ? " ": "", oid.value[i]);
+					}
+					printf("}");
 				}
-				printf("}");
 			}
 
 			printf("\n");
-- 
2.43.0


From 06a0ca94e5c4df9689a6ab77c7ba6c018c0e2c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:02 +0000
Subject: [PATCH 60/81] fix: offset of invalid data inside a field of
 indefinite length was misreported

---
 tools/print_helpers.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index 6313d23..b78bbad 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -376,7 +376,7 @@ static int print_ber_buf_internal(
 		if (iso8825_ber_is_constructed(&tlv)) {
 			// If the field is constructed, only consider the tag and length
 			// to be valid until the value has been parsed
-			valid_bytes += (r - tlv.length);
+			valid_bytes = (const void*)tlv.value - ptr;
 
 			printf("\n");
 			r = print_ber_buf_internal(
@@ -398,6 +398,10 @@ static int print_ber_buf_internal(
 				return valid_bytes;
 			}
 
+			// Consider the end-of-contents octets of the indefinite form, if
+			// any, to be valid as well
+			valid_bytes = itr.ptr - ptr;
+
 		} else {
 			// If the field is not constructed, consider all of the bytes to
 			// be valid BER encoded data
@@ -554,7 +558,7 @@ static int print_emv_buf_internal(
 		if (iso8825_ber_is_constructed(&tlv)) {
 			// If the field is constructed, only consider the tag and length
 			// to be valid until the value has been parsed
-			valid_bytes += (r - tlv.length);
+			valid_bytes = (const void*)tlv.value - ptr;
 
 			printf("\n");
 			r = print_emv_buf_internal(
@@ -576,6 +580,10 @@ static int print_emv_buf_internal(
 				return valid_bytes;
 			}
 
+			// Consider the end-of-contents octets of the indefinite form, if
+			// any, to be valid as well
+			valid_bytes = itr.ptr - ptr;
+
 		} else {
 			// If the field is not constructed, consider all of the bytes to
 			// be valid BER encoded data
-- 
2.43.0


From be3344b9739dc986b60defdee985a4761730b768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:02 +0000
Subject: [PATCH 61/81] fix: padding of 15 bytes for the AES cipher block size
 was not ignored

---
 tools/print_helpers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index b78bbad..dae724d 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -449,7 +449,7 @@ static int print_ber_buf_internal(
 			valid_bytes < len &&
 			(
 				((len & 0x7) == 0 && len - valid_bytes < 8) ||
-				((len & 0xF) == 0 && len - valid_bytes < 15)
+				((len & 0xF) == 0 && len - valid_bytes < 16)
 			)
 		) {
 			for (unsigned int i = 0; i < depth; ++i) {
@@ -630,7 +630,7 @@ static int print_emv_buf_internal(
 			valid_bytes < len &&
 			(
 				((len & 0x7) == 0 && len - valid_bytes < 8) ||
-				((len & 0xF) == 0 && len - valid_bytes < 15)
+				((len & 0xF) == 0 && len - valid_bytes < 16)
 			)
 		) {
 			for (unsigned int i = 0; i < depth; ++i) {
-- 
2.43.0


From 9d2bcf404319fedfdbbffbf8523d4419a407a322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:02 +0000
Subject: [PATCH 62/81] fix: ISO8859 input of more than 2047 bytes of UTF-8 was
 silently truncated

---
 tools/emv-decode.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/tools/emv-decode.c b/tools/emv-decode.c
index 15affa4..f2a2c25 100644
--- a/tools/emv-decode.c
+++ b/tools/emv-decode.c
@@ -891,7 +891,8 @@ int main(int argc, char** argv)
 		case EMV_DECODE_ISO8859_13:
 		case EMV_DECODE_ISO8859_14:
 		case EMV_DECODE_ISO8859_15: {
-			char utf8[2048];
+			char* utf8;
+			size_t utf8_len;
 			unsigned int codepage;
 
 			codepage = emv_decode_mode - EMV_DECODE_ISO8859_1 + 1;
@@ -900,13 +901,22 @@ int main(int argc, char** argv)
 				break;
 			}
 
-			memset(utf8, 0, sizeof(utf8));
-			r = iso8859_to_utf8(codepage, data, data_len, utf8, sizeof(utf8));
+			// Each ISO8859 character is at most 3 bytes in UTF-8
+			utf8_len = data_len * 3 + 1;
+			utf8 = calloc(1, utf8_len);
+			if (!utf8) {
+				fprintf(stderr, "Failed to allocate memory\n");
+				break;
+			}
+
+			r = iso8859_to_utf8(codepage, data, data_len, utf8, utf8_len);
 			if (r && utf8[0]) { // Ignore empty strings
 				fprintf(stderr, "iso8859_to_utf8() failed; r=%d\n", r);
+				free(utf8);
 				break;
 			}
 			printf("%s\n", utf8);
+			free(utf8);
 
 			break;
 		}
-- 
2.43.0


From 74c407f79b53a2146d11f17f03c86ddd0bbab161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:02 +0000
Subject: [PATCH 63/81] fix: absence of COMPACT-TLV historical bytes was
 reported as a parsing failure

---
 tools/print_helpers.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index dae724d..cbe4137 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -207,6 +207,11 @@ void print_atr_historical_bytes(const struct iso7816_atr_info_t* atr_info)
 		return;
 	}
 
+	if (!atr_info->historical_bytes_len) {
+		// No COMPACT-TLV data objects
+		return;
+	}
+
 	r = iso7816_compact_tlv_itr_init(
 		atr_info->historical_bytes,
 		atr_info->historical_bytes_len,
-- 
2.43.0


From f4bf79508f0fd2253a4da357c8463a26648a4ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:02 +0000
Subject: [PATCH 64/81] fix: byte after empty card service data was printed as
 card service data

---
 tools/print_helpers.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index cbe4137..e261090 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -235,7 +235,11 @@ void print_atr_historical_bytes(const struct iso7816_atr_info_t* atr_info)
 
 		switch (tlv.tag) {
 			case ISO7816_COMPACT_TLV_CARD_SERVICE_DATA:
-				r = iso7816_card_service_data_get_string_list(tlv.value[0], str, sizeof(str));
+				if (tlv.length == 1) {
+					r = iso7816_card_service_data_get_string_list(tlv.value[0], str, sizeof(str));
+				} else {
+					r = -1;
+				}
 				break;
 
 			case ISO7816_COMPACT_TLV_CARD_CAPABILITIES:
-- 
2.43.0


From 8f4ccae70a1048dcb6958619b45798ef19563ba0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 18:50:13 +0000
Subject: [PATCH 65/81] fix: long CVM List was silently truncated when printed

---
 tools/emv-decode.c    | 2 +-
 tools/print_helpers.c | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/tools/emv-decode.c b/tools/emv-decode.c
index f2a2c25..bb1189b 100644
--- a/tools/emv-decode.c
+++ b/tools/emv-decode.c
@@ -575,7 +575,7 @@ int main(int argc, char** argv)
 		}
 
 		case EMV_DECODE_CVM_LIST: {
-			char str[2048];
+			char str[20480]; // Enough for the longest possible CVM List
 
 			r = emv_cvm_list_get_string_list(data, data_len, str, sizeof(str));
 			if (r) {
diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index e261090..84b88ad 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -42,6 +42,10 @@
 // data needs but limits the stack usage when printing hostile data.
 #define PRINT_MAX_DEPTH (64)
 
+// Maximum size of the value string of a printed field. This is enough for the
+// longest possible CVM List (field 8E) of 252 bytes.
+#define PRINT_VALUE_STR_MAX (20480)
+
 static bool str_is_list(const char* str)
 {
 	if (!str || !str[0]) {
@@ -549,7 +553,7 @@ static int print_emv_buf_internal(
 
 		struct emv_tlv_t emv_tlv;
 		struct emv_tlv_info_t info;
-		char value_str[2048];
+		char value_str[PRINT_VALUE_STR_MAX];
 
 		emv_tlv.ber = tlv;
 		emv_tlv_get_info(&emv_tlv, &info, value_str, sizeof(value_str));
@@ -708,7 +712,7 @@ static void print_emv_tlv_internal(
 )
 {
 	struct emv_tlv_info_t info;
-	char value_str[2048];
+	char value_str[PRINT_VALUE_STR_MAX];
 
 	emv_tlv_get_info(tlv, &info, value_str, sizeof(value_str));
 
-- 
2.43.0


From dd5951b3b6dfe6ee8bfdf4b98b22b589324e9202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:34 +0000
Subject: [PATCH 66/81] fix: deeply nested fields of indefinite length
 exhausted the stack

---
 src/iso8825_ber.c | 127 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 90 insertions(+), 37 deletions(-)

diff --git a/src/iso8825_ber.c b/src/iso8825_ber.c
index 5d78622..a20d7e7 100644
--- a/src/iso8825_ber.c
+++ b/src/iso8825_ber.c
@@ -81,16 +81,28 @@ int iso8825_ber_tag_decode(const void* ptr, size_t len, unsigned int* tag)
 	return offset;
 }
 
-int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
+/**
+ * Decode tag and length octets of BER (Basic Encoding Rules) data
+ * @param ptr BER encoded data
+ * @param len Length of BER encoded data in bytes
+ * @param tlv Decoded tag and length output. Length is zero for the indefinite
+ *            length form.
+ * @param indefinite Set to true if the length is of the indefinite form
+ * @return Number of bytes consumed. Zero for end of data. Less than zero for error.
+ */
+static int iso8825_ber_header_decode(
+	const void* ptr,
+	size_t len,
+	struct iso8825_tlv_t* tlv,
+	bool* indefinite
+)
 {
 	int r;
 	const uint8_t* buf = ptr;
 	size_t offset = 0;
-	size_t eoc_len = 0;
 
-	if (!ptr || !tlv) {
-		return -1;
-	}
+	*indefinite = false;
+
 	if (!len) {
 		// End of encoded data
 		return 0;
@@ -120,44 +132,13 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 		// Indefinite length form
 		++offset;
 		tlv->length = 0;
-		tlv->value = &buf[offset];
+		*indefinite = true;
 
 		// Ensure that this is a constructed type
 		if ((buf[0] & ISO8825_BER_CONSTRUCTED) == 0) {
 			return -6;
 		}
 
-		// BER decode content octets to find end-of-content
-		do {
-			int r;
-			struct iso8825_tlv_t inner_tlv;
-
-			r = iso8825_ber_decode(tlv->value + tlv->length, len - offset - tlv->length, &inner_tlv);
-			if (r < 0) {
-				// Error while decoding inner TLV
-				return -7;
-			}
-			if (r == 0) {
-				// Unexpected end-of-data before end-of-content
-				return -8;
-			}
-
-			// Check for end-of-content
-			// See ISO 8825-1:2003, 8.1.5
-			if (inner_tlv.tag == ASN1_EOC) {
-				if (r != 2 || inner_tlv.length != 0) {
-					// End-of-content must be two zero octets
-					return -7;
-				}
-				eoc_len = r;
-				break;
-			}
-
-			// Add consumed bytes to length
-			// Exclude end-of-content from length
-			tlv->length += r;
-		} while (true);
-
 	} else if (buf[offset] & ISO8825_BER_LEN_LONG_FORM) {
 		// Long length form
 
@@ -193,6 +174,78 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 		++offset;
 	}
 
+	return offset;
+}
+
+int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
+{
+	int r;
+	const uint8_t* buf = ptr;
+	size_t offset = 0;
+	size_t eoc_len = 0;
+	bool indefinite;
+
+	if (!ptr || !tlv) {
+		return -1;
+	}
+
+	// Decode tag and length octets
+	r = iso8825_ber_header_decode(ptr, len, tlv, &indefinite);
+	if (r <= 0) {
+		// Error or end of encoded data
+		return r;
+	}
+	offset += r;
+
+	if (indefinite) {
+		size_t content_len = 0;
+		size_t depth = 1;
+
+		// BER decode content octets to find end-of-content. This is not
+		// recursive because the nesting depth of encoded data is unlimited.
+		do {
+			struct iso8825_tlv_t inner_tlv;
+
+			r = iso8825_ber_header_decode(
+				buf + offset + content_len,
+				len - offset - content_len,
+				&inner_tlv,
+				&indefinite
+			);
+			if (r < 0) {
+				// Error while decoding inner TLV
+				return -7;
+			}
+			if (r == 0) {
+				// Unexpected end-of-data before end-of-content
+				return -8;
+			}
+			content_len += r;
+
+			// Check for end-of-content
+			// See ISO 8825-1:2003, 8.1.5
+			if (inner_tlv.tag == ASN1_EOC) {
+				if (r != 2 || inner_tlv.length != 0) {
+					// End-of-content must be two zero octets
+					return -7;
+				}
+				eoc_len = r;
+				--depth;
+			} else if (indefinite) {
+				++depth;
+			} else {
+				if (inner_tlv.length > len - offset - content_len) {
+					// Not enough bytes remaining
+					return -7;
+				}
+				content_len += inner_tlv.length;
+			}
+		} while (depth);
+
+		// Exclude end-of-content from length
+		tlv->length = content_len - eoc_len;
+	}
+
 	// Validate tag length
 	if (offset + tlv->length > len) {
 		return -11;
-- 
2.43.0


From 10d92860c44710c63c2e612077c7ff37f207943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:31 +0000
Subject: [PATCH 67/81] fix: deeply nested EMV data exhausted the stack when
 parsed

---
 src/emv_tlv.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/emv_tlv.c b/src/emv_tlv.c
index ba1d706..95002f2 100644
--- a/src/emv_tlv.c
+++ b/src/emv_tlv.c
@@ -28,6 +28,10 @@
 #include <string.h>
 #include <assert.h>
 
+// Maximum nesting depth of EMV data when parsing. This is much more than any
+// valid EMV data needs but limits the stack usage when parsing hostile data.
+#define EMV_TLV_PARSE_MAX_DEPTH (64)
+
 // Helper functions
 static inline bool emv_tlv_list_is_valid(const struct emv_tlv_list_t* list);
 static struct emv_tlv_t* emv_tlv_alloc(unsigned int tag, unsigned int length, const uint8_t* value, uint8_t flags);
@@ -237,7 +241,12 @@ int emv_tlv_list_append(struct emv_tlv_list_t* list, struct emv_tlv_list_t* othe
 	return 0;
 }
 
-int emv_tlv_parse(const void* ptr, size_t len, struct emv_tlv_list_t* list)
+static int emv_tlv_parse_internal(
+	const void* ptr,
+	size_t len,
+	unsigned int depth,
+	struct emv_tlv_list_t* list
+)
 {
 	int r;
 	struct iso8825_ber_itr_t itr;
@@ -251,7 +260,10 @@ int emv_tlv_parse(const void* ptr, size_t len, struct emv_tlv_list_t* list)
 	while ((r = iso8825_ber_itr_next(&itr, &tlv)) > 0) {
 		if (iso8825_ber_is_constructed(&tlv)) {
 			// Recurse into constructed/template field but omit it from the list
-			r = emv_tlv_parse(tlv.value, tlv.length, list);
+			if (depth >= EMV_TLV_PARSE_MAX_DEPTH) {
+				return 2;
+			}
+			r = emv_tlv_parse_internal(tlv.value, tlv.length, depth + 1, list);
 			if (r) {
 				return r;
 			}
@@ -271,6 +283,11 @@ int emv_tlv_parse(const void* ptr, size_t len, struct emv_tlv_list_t* list)
 	return 0;
 }
 
+int emv_tlv_parse(const void* ptr, size_t len, struct emv_tlv_list_t* list)
+{
+	return emv_tlv_parse_internal(ptr, len, 0, list);
+}
+
 bool emv_tlv_is_terminal_format_n(unsigned int tag)
 {
 	// EMV tags with source 'Terminal' and format 'n'
-- 
2.43.0


From af6702bc92ae4afae3622bc0ee31146f880f5008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:53 +0000
Subject: [PATCH 68/81] fix: additional terminal capabilities with many bits
 set were silently truncated

---
 tools/emv-decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/emv-decode.c b/tools/emv-decode.c
index bb1189b..3b4d928 100644
--- a/tools/emv-decode.c
+++ b/tools/emv-decode.c
@@ -557,7 +557,7 @@ int main(int argc, char** argv)
 		}
 
 		case EMV_DECODE_ADDL_TERM_CAPS: {
-			char str[1024];
+			char str[2048];
 
 			if (data_len != 5) {
 				fprintf(stderr, "EMV Additional Terminal Capabilities (field 9F40) must be exactly 5 bytes\n");
-- 
2.43.0


From 172ca89249e5233b9a9edb1f67685b553fe0c3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:41 +0000
Subject: [PATCH 69/81] fix: emv-tool prompted for an application forever after
 end of input

---
 tools/emv-tool.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index b332630..e1deb3f 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -825,8 +825,9 @@ int main(int argc, char** argv)
 			}
 			printf("Enter number: ");
 			if (!fgets(s, sizeof(s), stdin)) {
-				printf("Invalid input. Try again.\n");
-				continue;
+				// No further input; no application can be selected
+				printf("No input; exiting\n");
+				goto emv_exit;
 			}
 			r = sscanf(s, "%u", &input);
 			if (r != 1) {
-- 
2.43.0


From acc50bebb0c8cee867fa0b3ee0caaad08078003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:11 +0000
Subject: [PATCH 70/81] fix: emv-tool took the rest of an overlong answer as a
 further answer

---
 tools/emv-tool.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index e1deb3f..a26cd7a 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -829,6 +829,15 @@ int main(int argc, char** argv)
 				printf("No input; exiting\n");
 				goto emv_exit;
 			}
+			if (!strchr(s, '\n') && !feof(stdin)) {
+				// Input is too long; discard the remainder of the line
+				int c = s[0];
+				while (c != '\n' && c != EOF) {
+					c = getchar();
+				}
+				printf("Invalid input. Try again.\n");
+				continue;
+			}
 			r = sscanf(s, "%u", &input);
 			if (r != 1) {
 				printf("Invalid input. Try again.\n");
-- 
2.43.0


From 6889fa13f5229794639d7afb854a9d3eef528f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 71/81] fix: emv-tool performed the transaction after refusing
 a zero amount

---
 tools/emv-tool.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index a26cd7a..6425028 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -649,6 +649,7 @@ int main(int argc, char** argv)
 	) {
 		fprintf(stderr, "Transaction amount (--txn-amount) argument must be non-zero\n");
 		argp_help(&argp_config, stdout, ARGP_HELP_STD_HELP, argv[0]);
+		return 1;
 	}
 
 	if (txn_type == EMV_TRANSACTION_TYPE_CASHBACK &&
@@ -656,6 +657,7 @@ int main(int argc, char** argv)
 	) {
 		fprintf(stderr, "Secondary transaction amount (--txn-amount-other) must be non-zero for cashback transaction\n");
 		argp_help(&argp_config, stdout, ARGP_HELP_STD_HELP, argv[0]);
+		return 1;
 	}
 
 	r = emv_strings_init(isocodes_path, mcc_json);
-- 
2.43.0


From d7acff9c7aeb153a501a22abb5a2b310de71b5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:12 +0000
Subject: [PATCH 72/81] fix: emv-tool accepted transaction types that are not
 two numeric digits

---
 tools/emv-tool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index 6425028..c1f7266 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -130,7 +130,7 @@ static error_t argp_parser_helper(int key, char* arg, struct argp_state* state)
 			unsigned long value;
 			char* endptr = arg;
 
-			if (arg_len != 2) {
+			if (arg_len != 2 || strspn(arg, "0123456789") != arg_len) {
 				argp_error(state, "Transaction type (--txn-type) argument must be 2 numeric digits");
 			}
 
-- 
2.43.0


From 1ecdadaa3c07ba1eabf1ccada88ead8b94621e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:12 +0000
Subject: [PATCH 73/81] fix: emv-tool accepted transaction amounts with signs,
 which wrapped around

---
 tools/emv-tool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index c1f7266..e126bf2 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -149,7 +149,7 @@ static error_t argp_parser_helper(int key, char* arg, struct argp_state* state)
 			unsigned long value;
 			char* endptr = arg;
 
-			if (arg_len == 0) {
+			if (arg_len == 0 || strspn(arg, "0123456789") != arg_len) {
 				argp_error(state, "Transaction amount (--txn-amount) argument must be numeric digits");
 			}
 
@@ -172,7 +172,7 @@ static error_t argp_parser_helper(int key, char* arg, struct argp_state* state)
 			unsigned long value;
 			char* endptr = arg;
 
-			if (arg_len == 0) {
+			if (arg_len == 0 || strspn(arg, "0123456789") != arg_len) {
 				argp_error(state, "Secondary transaction amount (--txn-amount-other) argument must be numeric digits");
 			}
 
-- 
2.43.0


From 11552a450bd5b69acddeb64e804d0bf55f866070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:43 +0000
Subject: [PATCH 74/81] fix: emv-tool --debug-source ALL selected no debug
 source

---
 tools/emv-tool.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index e126bf2..75c1fda 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -214,7 +214,11 @@ static error_t argp_parser_helper(int key, char* arg, struct argp_state* state)
 				}
 
 				// Found debug source string in list; shift into mask
-				debug_sources_mask |= 1 << i;
+				if (strcmp(debug_source_str[i], "ALL") == 0) {
+					debug_sources_mask |= EMV_DEBUG_SOURCE_ALL;
+				} else {
+					debug_sources_mask |= 1 << i;
+				}
 
 				arg = NULL;
 			}
-- 
2.43.0


From a5d407fdac221db36ae8c3e1e2e95d9b6780dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:06 +0000
Subject: [PATCH 75/81] fix: emv-viewer kept marking the previous selection
 after its tree was rebuilt

---
 viewer/emv-viewer-mainwindow.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/viewer/emv-viewer-mainwindow.cpp b/viewer/emv-viewer-mainwindow.cpp
index b0244e0..8a14ce4 100644
--- a/viewer/emv-viewer-mainwindow.cpp
+++ b/viewer/emv-viewer-mainwindow.cpp
@@ -176,6 +176,14 @@ void EmvViewerMainWindow::parseData()
 	QByteArray data;
 	unsigned int validBytes;
 
+	// The tree view items are about to be replaced and none will be selected.
+	// Note that rehighlight() will also trigger the textChanged() signal and
+	// therefore signals must be blocked for the duration of rehighlight().
+	dataEdit->blockSignals(true);
+	highlighter->clearSelection();
+	highlighter->rehighlight();
+	dataEdit->blockSignals(false);
+
 	str = dataEdit->toPlainText();
 	if (str.isEmpty()) {
 		treeView->clear();
-- 
2.43.0


From f4e28b3faf94fbe7a24e5f99884a521e36f07c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:19 +0000
Subject: [PATCH 76/81] fix: emv-viewer marked the wrong characters for fields
 of indefinite length

---
 viewer/emvhighlighter.cpp | 13 +++++++++++--
 viewer/emvtreeview.cpp    | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/viewer/emvhighlighter.cpp b/viewer/emvhighlighter.cpp
index f7777cb..367d716 100644
--- a/viewer/emvhighlighter.cpp
+++ b/viewer/emvhighlighter.cpp
@@ -30,6 +30,7 @@
 #include <QtGui/QFont>
 
 #include <cstddef>
+#include <cstdint>
 #include <cctype>
 
 // Qt containers may perform a deep copy when begin() is called by a range-
@@ -88,8 +89,11 @@ static bool parseBerData(
 			// If the field is constructed, only consider the tag and length
 			// to be valid until the value has been parsed. The fields inside
 			// the value will be added when they are parsed.
-			validBytes += (r - tlv.length);
-			*totalValidBytes += (r - tlv.length);
+			std::size_t fieldLength = r;
+			std::size_t headerLength = static_cast<const std::uint8_t*>(tlv.value) -
+				(static_cast<const std::uint8_t*>(ptr) + validBytes);
+			validBytes += headerLength;
+			*totalValidBytes += headerLength;
 
 			// Recursively parse constructed fields
 			bool valid;
@@ -110,6 +114,11 @@ static bool parseBerData(
 			}
 			validBytes += tlv.length;
 
+			// Consider the end-of-contents octets of the indefinite form, if
+			// any, to be valid as well
+			validBytes += (fieldLength - headerLength - tlv.length);
+			*totalValidBytes += (fieldLength - headerLength - tlv.length);
+
 		} else {
 			// If the field is not constructed, consider all of the bytes to
 			// be valid BER encoded data
diff --git a/viewer/emvtreeview.cpp b/viewer/emvtreeview.cpp
index ee34dbd..e2746df 100644
--- a/viewer/emvtreeview.cpp
+++ b/viewer/emvtreeview.cpp
@@ -25,6 +25,8 @@
 
 #include <QtWidgets/QTreeWidgetItemIterator>
 
+#include <cstdint>
+
 EmvTreeView::EmvTreeView(QWidget* parent)
 : QTreeWidget(parent)
 {
@@ -65,8 +67,10 @@ static bool parseData(
 			// If the field is constructed, only consider the tag and length
 			// to be valid until the value has been parsed. The fields inside
 			// the value will be added when they are parsed.
-			validBytes += (r - tlv.length);
-			*totalValidBytes += (r - tlv.length);
+			unsigned int headerLength = static_cast<const std::uint8_t*>(tlv.value) -
+				(static_cast<const std::uint8_t*>(ptr) + validBytes);
+			validBytes += headerLength;
+			*totalValidBytes += headerLength;
 
 			// Recursively parse constructed fields
 			bool valid;
@@ -87,6 +91,11 @@ static bool parseData(
 			}
 			validBytes += tlv.length;
 
+			// Consider the end-of-contents octets of the indefinite form, if
+			// any, to be valid as well
+			validBytes += (fieldLength - headerLength - tlv.length);
+			*totalValidBytes += (fieldLength - headerLength - tlv.length);
+
 		} else {
 			// If the field is not constructed, consider all of the bytes to
 			// be valid BER encoded data
-- 
2.43.0


From 1cc9152eda7a413cd2e49289ecf35f7e655d6688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:44 +0000
Subject: [PATCH 77/81] fix: emv-viewer silently truncated texts of more than
 2047 bytes

---
 viewer/emvtreeitem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viewer/emvtreeitem.cpp b/viewer/emvtreeitem.cpp
index 479a039..45f3315 100644
--- a/viewer/emvtreeitem.cpp
+++ b/viewer/emvtreeitem.cpp
@@ -154,7 +154,7 @@ void EmvTreeItem::setTlv(const struct iso8825_tlv_t* tlv, bool decode)
 	int r;
 	struct emv_tlv_t emv_tlv;
 	struct emv_tlv_info_t info;
-	QByteArray valueStr(2048, 0);
+	QByteArray valueStr(20480, 0); // Must be large enough for a CVM list of 252 bytes
 
 	// First delete existing children
 	deleteChildren();
-- 
2.43.0


From 0c9511e9e8ad9e0aa87d4ac3bf1d3d39576c30b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:48 +0000
Subject: [PATCH 78/81] fix: emv-viewer exhausted the stack for deeply nested
 fields

---
 viewer/emvhighlighter.cpp | 13 ++++++++++++-
 viewer/emvtreeview.cpp    | 11 +++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/viewer/emvhighlighter.cpp b/viewer/emvhighlighter.cpp
index 367d716..62ec6ac 100644
--- a/viewer/emvhighlighter.cpp
+++ b/viewer/emvhighlighter.cpp
@@ -45,11 +45,15 @@ constexpr std::add_const_t<T>& to_const_ref(T& t) noexcept
 template<class T>
 void to_const_ref(const T&&) = delete;
 
+/// Maximum depth of nested constructed fields
+#define PARSE_MAX_DEPTH (64)
+
 /**
  * Parse BER data and invoke callback function for each tag
  *
  * @param ptr Pointer to buffer
  * @param len Length of buffer
+ * @param depth Depth of nested constructed fields
  * @param totalValidBytes[out] Number of BER bytes successfully parsed
  * @param tagFunc Function to invoke for each tag, using tagFunc(offset, tag)
  * @param paddingFunc Function to invoke for each instance of padding,
@@ -63,6 +67,7 @@ template<
 static bool parseBerData(
 	const void* ptr,
 	std::size_t len,
+	unsigned int depth,
 	bool ignorePadding,
 	std::size_t* totalValidBytes,
 	TagFuncType tagFunc,
@@ -74,6 +79,11 @@ static bool parseBerData(
 	struct iso8825_ber_itr_t itr;
 	struct iso8825_tlv_t tlv;
 
+	if (depth > PARSE_MAX_DEPTH) {
+		qWarning("Fields nested too deeply; depth=%u", depth);
+		return false;
+	}
+
 	r = iso8825_ber_itr_init(ptr, len, &itr);
 	if (r) {
 		qWarning("iso8825_ber_itr_init() failed; r=%d", r);
@@ -100,6 +110,7 @@ static bool parseBerData(
 			valid = parseBerData(
 				tlv.value,
 				tlv.length,
+				depth + 1,
 				ignorePadding,
 				totalValidBytes,
 				tagFunc,
@@ -221,7 +232,7 @@ void EmvHighlighter::parseBlocks()
 	// valid characters
 	tagPositions.clear();
 	paddingPositions.clear();
-	parseBerData(data.constData(), data.size(), m_ignorePadding, &validBytes,
+	parseBerData(data.constData(), data.size(), 0, m_ignorePadding, &validBytes,
 		[this](unsigned int offset, unsigned int tag) {
 			unsigned int length;
 			// Compute tag length
diff --git a/viewer/emvtreeview.cpp b/viewer/emvtreeview.cpp
index e2746df..24f9f76 100644
--- a/viewer/emvtreeview.cpp
+++ b/viewer/emvtreeview.cpp
@@ -32,10 +32,14 @@ EmvTreeView::EmvTreeView(QWidget* parent)
 {
 }
 
+/// Maximum depth of nested constructed fields
+#define PARSE_MAX_DEPTH (64)
+
 static bool parseData(
 	QTreeWidgetItem* parent,
 	const void* ptr,
 	unsigned int len,
+	unsigned int depth,
 	bool ignorePadding,
 	bool decode,
 	unsigned int* totalValidBytes
@@ -46,6 +50,11 @@ static bool parseData(
 	struct iso8825_ber_itr_t itr;
 	struct iso8825_tlv_t tlv;
 
+	if (depth > PARSE_MAX_DEPTH) {
+		qWarning("Fields nested too deeply; depth=%u", depth);
+		return false;
+	}
+
 	r = iso8825_ber_itr_init(ptr, len, &itr);
 	if (r) {
 		qWarning("iso8825_ber_itr_init() failed; r=%d", r);
@@ -78,6 +87,7 @@ static bool parseData(
 				item,
 				tlv.value,
 				tlv.length,
+				depth + 1,
 				ignorePadding,
 				decode,
 				totalValidBytes
@@ -149,6 +159,7 @@ unsigned int EmvTreeView::populateItems(const QByteArray& data)
 		invisibleRootItem(),
 		data.constData(),
 		data.size(),
+		0,
 		m_ignorePadding,
 		m_decodeFields,
 		&totalValidBytes
-- 
2.43.0


From 3118a12080b731c68c0dfbf2e71fcdb47eedc581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:20 +0000
Subject: [PATCH 79/81] fix: emv-viewer took characters beyond the C character
 set for hex digits

---
 viewer/emv-viewer-mainwindow.cpp |  6 ++++--
 viewer/emvhighlighter.cpp        | 19 +++++++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/viewer/emv-viewer-mainwindow.cpp b/viewer/emv-viewer-mainwindow.cpp
index 8a14ce4..962388c 100644
--- a/viewer/emv-viewer-mainwindow.cpp
+++ b/viewer/emv-viewer-mainwindow.cpp
@@ -194,9 +194,11 @@ void EmvViewerMainWindow::parseData()
 	str = str.simplified().remove(' ');
 	validLen = str.length();
 
-	// Ensure that hex string contains only hex digits
+	// Ensure that hex string contains only hex digits. Note that
+	// std::isxdigit() is only defined for values that can be represented by
+	// unsigned char.
 	for (int i = 0; i < validLen; ++i) {
-		if (!std::isxdigit(str[i].unicode())) {
+		if (str[i].unicode() > 0x7F || !std::isxdigit(str[i].unicode())) {
 			// Only parse up to invalid digit
 			validLen = i;
 			break;
diff --git a/viewer/emvhighlighter.cpp b/viewer/emvhighlighter.cpp
index 62ec6ac..22b8f1b 100644
--- a/viewer/emvhighlighter.cpp
+++ b/viewer/emvhighlighter.cpp
@@ -45,6 +45,13 @@ constexpr std::add_const_t<T>& to_const_ref(T& t) noexcept
 template<class T>
 void to_const_ref(const T&&) = delete;
 
+/// Determine whether character is a hex digit. Note that std::isxdigit() is only
+/// defined for values that can be represented by unsigned char.
+static inline bool isHexDigit(QChar c)
+{
+	return c.unicode() <= 0x7F && std::isxdigit(c.unicode());
+}
+
 /// Maximum depth of nested constructed fields
 #define PARSE_MAX_DEPTH (64)
 
@@ -211,7 +218,7 @@ void EmvHighlighter::parseBlocks()
 
 	// Ensure that hex string contains only hex digits
 	for (unsigned int i = 0; i < hexStrLen; ++i) {
-		if (!std::isxdigit(str[i].unicode())) {
+		if (!isHexDigit(str[i])) {
 			// Only parse up to invalid digit
 			hexStrLen = i;
 			break;
@@ -302,7 +309,7 @@ void EmvHighlighter::highlightBlock(const QString& text)
 	} else if (berStrLen <= blockData->startPos) {
 		// All digits are invalid and some may be non-hex as well
 		for (int i = 0; i < text.length(); ++i) {
-			if (std::isxdigit(text[i].unicode())) {
+			if (isHexDigit(text[i])) {
 				setFormat(i, 1, invalidColor);
 			} else {
 				setFormat(i, 1, nonHexFormat);
@@ -313,7 +320,7 @@ void EmvHighlighter::highlightBlock(const QString& text)
 		// Some digits are invalid
 		unsigned int digitIdx = 0;
 		for (int i = 0; i < text.length(); ++i) {
-			if (std::isxdigit(text[i].unicode())) {
+			if (isHexDigit(text[i])) {
 				if (blockData->startPos + digitIdx < berStrLen) {
 					// Valid digits
 					setFormat(i, 1, QTextCharFormat());
@@ -335,7 +342,7 @@ void EmvHighlighter::highlightBlock(const QString& text)
 		for (auto&& pos : to_const_ref(tagPositions)) {
 			unsigned int digitIdx = 0;
 			for (int i = 0; i < text.length(); ++i) {
-				if (!std::isxdigit(text[i].unicode())) {
+				if (!isHexDigit(text[i])) {
 					// Ignore non-hex digits
 					continue;
 				}
@@ -355,7 +362,7 @@ void EmvHighlighter::highlightBlock(const QString& text)
 		for (auto&& pos : to_const_ref(paddingPositions)) {
 			unsigned int digitIdx = 0;
 			for (int i = 0; i < text.length(); ++i) {
-				if (!std::isxdigit(text[i].unicode())) {
+				if (!isHexDigit(text[i])) {
 					// Ignore non-hex digits
 					continue;
 				}
@@ -376,7 +383,7 @@ void EmvHighlighter::highlightBlock(const QString& text)
 		// Apply formatting of selected digits
 		unsigned int digitIdx = 0;
 		for (int i = 0; i < text.length(); ++i) {
-			if (!std::isxdigit(text[i].unicode())) {
+			if (!isHexDigit(text[i])) {
 				// Ignore non-hex digits
 				continue;
 			}
-- 
2.43.0


From fdbc14ff505ac3033594e455916ff19e2c22a3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 80/81] fix: pcsc_init() wrote through NULL when an allocation
 failed

---
 src/pcsc.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pcsc.c b/src/pcsc.c
index 3d11bad..ffeb16d 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -109,6 +109,9 @@ int pcsc_init(pcsc_ctx_t* ctx)
 	}
 
 	*ctx = malloc(sizeof(struct pcsc_t));
+	if (!*ctx) {
+		return -1;
+	}
 	pcsc = *ctx;
 	memset(pcsc, 0, sizeof(*pcsc));
 
@@ -130,6 +133,10 @@ int pcsc_init(pcsc_ctx_t* ctx)
 
 	// Allocate and retrieve the reader list
 	pcsc->reader_strings = malloc(pcsc->reader_strings_size);
+	if (!pcsc->reader_strings) {
+		pcsc_release(ctx);
+		return -1;
+	}
 	result = SCardListReaders(pcsc->context, NULL, pcsc->reader_strings, &pcsc->reader_strings_size);
 	if (result != SCARD_S_SUCCESS) {
 		fprintf(stderr, "SCardListReaders() failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
@@ -147,6 +154,10 @@ int pcsc_init(pcsc_ctx_t* ctx)
 
 	// Allocate and populate reader objects
 	pcsc->readers = calloc(pcsc->reader_count, sizeof(struct pcsc_reader_t));
+	if (!pcsc->readers && pcsc->reader_count) {
+		pcsc_release(ctx);
+		return -1;
+	}
 	memset(pcsc->readers, 0, pcsc->reader_count * sizeof(struct pcsc_reader_t));
 	current_reader_name = pcsc->reader_strings;
 	for (size_t i = 0; i < pcsc->reader_count; ++i) {
@@ -157,6 +168,10 @@ int pcsc_init(pcsc_ctx_t* ctx)
 
 	// Allocate and populate reader states
 	pcsc->reader_states = calloc(pcsc->reader_count, sizeof(SCARD_READERSTATE));
+	if (!pcsc->reader_states && pcsc->reader_count) {
+		pcsc_release(ctx);
+		return -1;
+	}
 	memset(pcsc->reader_states, 0, pcsc->reader_count * sizeof(SCARD_READERSTATE));
 	for (size_t i = 0; i < pcsc->reader_count; ++i) {
 		pcsc->reader_states[i].szReader = pcsc->readers[i].name;
-- 
2.43.0


From 62faca055deaf0f7df289c347b1b9c321d228669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:16 +0000
Subject: [PATCH 81/81] fix: the ETU and bit rate shown for ATR byte TA1 were
 truncated to whole cycles

---
 src/iso7816.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iso7816.c b/src/iso7816.c
index d5946f4..1fe8e32 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -901,12 +901,12 @@ const char* iso7816_atr_TAi_get_string(const struct iso7816_atr_info_t* atr_info
 	// For TA1
 	if (i == 1) {
 		snprintf(str, str_len,
-			"Fi=%u; Di=%u; %u cycles/ETU @ max %.1fMHz; max %lu bit/s",
+			"Fi=%u; Di=%u; %g cycles/ETU @ max %.1fMHz; max %lu bit/s",
 			atr_info->global.Fi,
 			atr_info->global.Di,
-			atr_info->global.Fi / atr_info->global.Di,
+			(double)atr_info->global.Fi / atr_info->global.Di,
 			atr_info->global.fmax,
-			((unsigned long)(atr_info->global.fmax * 1000000)) / (atr_info->global.Fi / atr_info->global.Di)
+			((unsigned long)(atr_info->global.fmax * 1000000)) * atr_info->global.Di / atr_info->global.Fi
 		);
 
 		return str;
-- 
2.43.0

