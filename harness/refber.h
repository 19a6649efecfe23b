// Independent reference model of BER element decoding (ISO 8825-1), as an explicit grammar walk.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>

struct RefTlv { uint64_t tag = 0; uint64_t len = 0; size_t off = 0; uint8_t cls = 0; bool cons = false; };

// tag: <0 malformed, 0 end of data, else octets used
static int ref_tag(const uint8_t* b, size_t n, uint64_t& tag) {
	if (n == 0) return 0;
	tag = b[0];
	if ((b[0] & 0x1F) != 0x1F) return 1;
	for (size_t i = 1; i < 4; ++i) { // tags of up to four octets are representable
		if (i >= n) return -1;
		tag = tag * 256 + b[i];
		if (!(b[i] & 0x80)) return (int)i + 1;
	}
	return -1;
}
// element at b[0..n): octets used by the element (including end-of-contents octets), 0 end, -1 malformed
static long ref_ber(const uint8_t* b, size_t n, RefTlv& t) {
	if (n == 0) return 0;
	int k = ref_tag(b, n, t.tag);
	if (k < 0) return -1;
	size_t i = k;
	t.cls = b[0] & 0xC0; t.cons = (b[0] >> 5) & 1;
	if (i >= n) return -1;
	uint8_t l = b[i++];
	if (l < 0x80) t.len = l;
	else if (l > 0x80) {
		unsigned c = l - 0x80;
		if (c > 4 || i + c > n) return -1;
		t.len = 0;
		while (c--) t.len = t.len * 256 + b[i++];
	} else { // indefinite form: elements up to an end-of-contents element
		if (!t.cons) return -1;
		t.off = i;
		size_t p = i;
		for (;;) {
			RefTlv in;
			long r = ref_ber(b + p, n - p, in);
			if (r <= 0) return -1;
			if (in.tag == 0) {
				if (r != 2 || b[p] != 0 || b[p + 1] != 0) return -1;
				t.len = p - i;
				return (long)(p + 2);
			}
			p += r;
		}
	}
	t.off = i;
	if (t.len > n - i) return -1;
	return (long)(i + t.len);
}
