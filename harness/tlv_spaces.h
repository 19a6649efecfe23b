// Encoded fields of every shape, for the programs that display them; the includer defines check_tlv(m, data, emv, padding, via)
#pragma once
static const Bytes ALPHA = { 0x00, 0x01, 0x02, 0x50, 0x80, 0x81, 0x61, 0x9F, 0x38, 0x8E, 0x06 };
static const std::vector<Bytes> ELEMS = { // fields of every kind of rendering
	{ 0x50, 0x04, 'V', 'I', 'S', 'A' }, { 0x50, 0x00 }, { 0x5A, 0x03, 0x12, 0x34, 0x5F }, { 0x82, 0x02, 0x39, 0x00 }, { 0x8C, 0x06, 0x9F, 0x02, 0x06, 0x95, 0x05, 0x9A }, { 0x8D, 0x05, 0x9F, 0x02, 0x06, 0x95, 0x05 }, { 0x9F, 0x38, 0x00 }, { 0x9F, 0x38, 0x03, 0x9F, 0x37, 0x04 }, { 0x9F, 0x4A, 0x02, 0x82, 0x9F }, { 0x9F, 0x4A, 0x01, 0x82 },
	{ 0x9F, 0x4A, 0x04, 0x5F, 0x24, 0xDF, 0x01 }, { 0x95, 0x05, 0x80, 0, 0, 0, 0x01 }, { 0x9F, 0x26, 0x02, 0xAA, 0xBB }, { 0xDF, 0x81, 0x7F, 0x01, 0x33 }, { 0x00, 0x00 }, { 0x00, 0x01, 0x00 }, { 0x5F, 0x2D, 0x04, 'n', 'l', 'e', 'n' }, { 0x5F, 0x28, 0x02, 0x05, 0x28 }, { 0x9F, 0x02, 0x06, 0, 0, 0, 0, 0x12, 0x34 }, { 0x5A, 0x81, 0x02, 0x11, 0x22 }, { 0x5A, 0x84, 0, 0, 0, 1, 0x44 },
	{ 0x0C, 0x03, 'a', '"', 'z' }, { 0x13, 0x00 }, { 0x06, 0x03, 0x2A, 0x86, 0x48 }, { 0x06, 0x02, 0x2A, 0x86 }, { 0x06, 0x00 }, { 0x16, 0x02, 0xC3, 0xA9 }, { 0x04, 0x02, 'h', 'i' }, { 0x86, 0x04, 0x84, 0x24, 0x00, 0x00 }, { 0x8E, 0x0C, 0, 0, 0, 1, 0, 0, 0, 2, 0x41, 0x03, 0x5E, 0x06 }, { 0x9F, 0x12, 0x03, 0x41, 0xA9, 0x42 }, { 0x4F, 0x07, 0xA0, 0, 0, 0, 3, 0x10, 0x10 },
};
static const std::vector<Bytes> TEMPL = { { 0x70 }, { 0x6F }, { 0xBF, 0x0C }, { 0x30 }, { 0xFF, 0x81, 0x06 } };
static const std::vector<Bytes> DAMAGE = { {}, { 0x9F }, { 0x50 }, { 0x50, 0x05, 0x41 }, { 0x50, 0x80 }, { 0x61, 0x80 }, { 0x50, 0x85, 0, 0, 0, 0, 1 }, { 0x1F, 0x81, 0x82, 0x83, 0x04 }, { 0x80 }, { 0xFF }, { 0x61, 0x80, 0x50, 0x00, 0x00 } };
static Bytes wrap28(unsigned t, int form, const Bytes& b) { Bytes o = TEMPL[t]; if (form == 2) { o.push_back(0x80); o.insert(o.end(), b.begin(), b.end()); o.push_back(0); o.push_back(0); return o; } if (form == 1 || b.size() > 127) { o.push_back(0x82); o.push_back(b.size() >> 8); } o.push_back(b.size()); o.insert(o.end(), b.begin(), b.end()); return o; }
static void app28(Bytes& o, const Bytes& b) { o.insert(o.end(), b.begin(), b.end()); }
static void hand_tlv(Mc& m, const Bytes& v) { bool emv = m.choose(2); bool pad = v.size() % 8 == 0 && m.choose(2); check_tlv(m, v, emv, pad); }
static bool tlv_lite; // for a program that takes long: fewer combinations of the same pieces
static const Bytes& some(Mc& m, const std::vector<Bytes>& v, size_t few) { return v[m.choose(tlv_lite ? std::min(v.size(), few) : v.size())]; }
static unsigned some_t(Mc& m) { return m.choose(tlv_lite ? 2 : TEMPL.size()); }
static void add_tlv_spaces(bool th) {
	for (unsigned k = 1; k <= (th ? 6u : 5u) - tlv_lite; ++k) add(("TLV strings of length " + std::to_string(k)).c_str(), k >= 2 ? 121 : 11, [k](Mc& m, uint64_t x) { Bytes v{ ALPHA[x % 11] }; if (k >= 2) v.push_back(ALPHA[x / 11]); while (v.size() < k) v.push_back(ALPHA[m.choose(11)]); bool emv = k >= 5 && !tlv_lite && !m.thorough ? true : !m.choose(2); check_tlv(m, v, emv, false); });
	add("TLV strings of a block", 64, [](Mc& m, uint64_t x) { static const Bytes B = { 0x00, 0x01, 0x80, 0x61, 0x9F, 0x50, 0x02, 0x06 }; unsigned n = 8; Bytes v{ B[x % 8], B[x / 8] }; while (v.size() < (m.thorough ? 5 : 4)) v.push_back(B[m.choose(8)]); uint8_t fill = B[m.choose(3)]; while (v.size() < n) v.push_back(fill); check_tlv(m, v, m.choose(2), true); });
	add("TLV fields in sequence", ELEMS.size() * ELEMS.size(), [](Mc& m, uint64_t x) { Bytes v = ELEMS[x % ELEMS.size()]; app28(v, ELEMS[x / ELEMS.size()]); unsigned k = m.choose(4); if (k == 1) app28(v, DAMAGE[m.choose(DAMAGE.size())]); if (k == 2) v.resize(1 + m.choose(v.size())); if (k == 3) { unsigned t = m.choose(TEMPL.size()); v = wrap28(t, m.choose(3), v); } hand_tlv(m, v); });
	add("TLV templates", ELEMS.size() * 3, [](Mc& m, uint64_t x) { // template in template with fields before, inside and after, cut or damaged at each place
		const Bytes& el = ELEMS[x % ELEMS.size()]; unsigned f1 = x / ELEMS.size(); static const std::vector<Bytes> SIDE = { {}, { 0x9F, 0x26, 0x01, 0x77 }, { 0x31, 0x00 } };
		Bytes in = some(m, SIDE, 2); app28(in, el); if (m.choose(2)) app28(in, some(m, DAMAGE, 4)); in = wrap28(m.choose(2) * 2, f1, in); Bytes v = some(m, SIDE, 2); app28(v, in); unsigned z = m.choose(4); if (z == 1) { app28(v, some(m, DAMAGE, 4)); } if (z == 2) app28(v, some(m, SIDE, 2)); v = wrap28(1, tlv_lite ? f1 : m.choose(3), v); if (z == 3) app28(v, some(m, DAMAGE, 4)); hand_tlv(m, v); });
	add("TLV truncations", ELEMS.size(), [](Mc& m, uint64_t x) { Bytes in = ELEMS[x]; app28(in, ELEMS[(x * 7 + 3) % ELEMS.size()]); Bytes v = wrap28(some_t(m), m.choose(3), in); Bytes w = wrap28(some_t(m), m.choose(3), v); size_t c = m.choose(w.size() + 1); if (c) w.resize(c); if (m.choose(2)) { Bytes pre = ELEMS[3]; app28(pre, w); w = pre; } hand_tlv(m, w); });
	add("TLV every tag", 512, [](Mc& m, uint64_t x) { static const std::vector<unsigned> T = all_tags(); std::vector<unsigned> mine; for (size_t i = x; i < T.size(); i += 512) mine.push_back(T[i]); if (mine.empty()) { m.skip(); return; } unsigned tag = m.pick(mine); bool emv = !m.choose(2);
		static const std::vector<Bytes> S = { {}, { 0x00 }, { 0x01 }, { 0x30 }, { 0x22 }, { 0x05, 0x28 }, { 'n', 'l' }, { 0x12, 0x34, 0x56 }, { 0x21, 0x12, 0x31 }, { 'A', 'B', ' ', 'C' }, { 0x20, 0x40, 0x00, 0x00 }, { 0xD8, 0x80, 0x00, 0x01 }, { 0x80, 0x00, 0x00, 0x00, 0x01 }, { 0, 0, 0, 0, 0x12, 0x34 }, { 0xA0, 0, 0, 0, 0x04, 0x10, 0x10 }, { 0x6C, 0xFF, 0x80, 0, 0, 0, 0, 0x01 }, { 0x41, 0x11, 0x11, 0xD2, 0x51, 0x22, 0x01, 0x1F }, { 0, 0, 0, 0, 0, 0, 0, 0, 0x41, 0x03, 0x1E, 0x00 }, { 0x06, 0x01, 0x0A, 0x03, 0xA0, 0, 0 }, { 0x9F, 0x02, 0x06, 0x9A, 0x03 }, { 0x9F, 0x02, 0x9F }, { 0x05, 0x28, 0x01, 0x02, 0xAB }, { 0x02, 0x01, 0x00 } };
		Bytes b = m.pick(S); if (tag == 0) { m.skip(); return; } Bytes v; if (tag > 255) v.push_back(tag >> 8); v.push_back(tag); v.push_back(b.size()); app28(v, b); bool in = m.choose(2); if (in) v = wrap28(0, 0, v); check_tlv(m, v, emv, false); });
	add("TLV padding", 40, [](Mc& m, uint64_t x) { // every amount of good data followed by every amount of other bytes, alone or in a template
		Bytes v; size_t n = x; if (n == 1) { m.skip(); return; } if (n) { unsigned z = n % 3 == 2 && n > 4 ? 1 : 0; if (z) app28(v, { 0x9F, 0x26, (uint8_t)(n - 3) }); else app28(v, { 0x50, (uint8_t)(n - 2) }); v.resize(n, 0x41); }
		static const std::vector<uint8_t> P = { 0x80, 0xFF, 0x1F, 0x0F }; uint8_t p = m.pick(P); size_t k = m.choose(34); for (size_t i = 0; i < k; ++i) v.push_back(i ? (p == 0x80 ? 0x00 : p) : p); unsigned w = m.choose(4); bool emv = tlv_lite ? x & 1 : m.choose(2), pad = tlv_lite ? m.choose(2) : m.choose(3) != 0;
		if (w == 1) v = wrap28(0, 0, v); if (w == 2) v = wrap28(2, 1, v); if (w == 3) { v = wrap28(0, 0, v); app28(v, { 0x82, 0x02, 0x39, 0x00 }); } if (m.choose(2) && v.size() % 8) { Bytes a(8 - v.size() % 8, 0xEE); if (v.size() % 8 <= 6) { a.assign(8 - v.size() % 8, 0x41); a[0] = 0x50; a[1] = a.size() - 2; } Bytes y = a; app28(y, v); v = y; } check_tlv(m, v, emv, pad); });
	add("TLV long values", 30, [](Mc& m, uint64_t x) { static const unsigned N[] = { 126, 127, 128, 200, 250, 251, 252, 253, 254, 255, 256, 257, 300, 511, 682, 683, 684, 1000, 1022, 1023, 1024, 1025, 1100, 2046, 2047, 2048, 2049, 4095, 4096, 8192 }; unsigned n = N[x]; static const std::vector<Bytes> T = { { 0x50 }, { 0x0C }, { 0x8E }, { 0x8C }, { 0x9F, 0x4A }, { 0x5F, 0x50 }, { 0x9F, 0x26 }, { 0x04 }, { 0x06 }, { 0x94 }, { 0x5F, 0x2D }, { 0x70 } };
		unsigned t = m.choose(T.size()); Bytes v = T[t]; v.push_back(0x82); v.push_back(n >> 8); v.push_back(n); static const uint8_t F[] = { 'A', 'z', 0x41, 0x95, 0x82, '/', 0x77, 0x22, 0x2A, 0x08, 'e', 0x5A }; size_t b = v.size(); v.resize(b + n, F[t]);
		if (t == 2) for (size_t i = b; i < v.size(); ++i) v[i] = i < b + 8 ? 0 : (i - b) % 2 ? 0x03 + (i - b) / 2 % 3 : 0x41 + (i - b) / 2 % 4; if (t == 5) memcpy(&v[b], "http:", 5);
		if (t == 2 && n > 252) { m.skip(); return; } if (t == 11) { v[b + 1] = 0x82; v[b + 2] = (n - 4) >> 8; v[b + 3] = n - 4; } check_tlv(m, v, !m.choose(2), false, m.choose(2)); });
	add("TLV nesting", 12, [](Mc& m, uint64_t x) { static const unsigned D[] = { 1, 5, 30, 60, 63, 64, 65, 66, 70, 200, 3000, 30000 }; unsigned d = D[x]; int form = m.choose(3); bool brief = tlv_lite && d > 100; unsigned dmg = brief ? 0 : m.choose(4); Bytes v{ 0x5A, 0x01, 0x11 }; if (dmg == 1) v = { 0x9F }; if (dmg == 2) v = {};
		if (form == 2) { Bytes w; for (unsigned i = 0; i < d; ++i) app28(w, { 0x70, 0x80 }); app28(w, v); for (unsigned i = 0; i < d; ++i) app28(w, { 0, 0 }); v = w; }
		else { Bytes rev(v.rbegin(), v.rend()); for (unsigned i = 0; i < d; ++i) { size_t n = rev.size(); Bytes h{ 0x70 }; if (form == 0 && n < 128) h.push_back(n); else { h.push_back(0x83); h.push_back(n >> 16); h.push_back(n >> 8); h.push_back(n); } rev.insert(rev.end(), h.rbegin(), h.rend()); } v.assign(rev.rbegin(), rev.rend()); }
		if (dmg == 3) v.push_back(0x5A); check_tlv(m, v, brief || !m.choose(2), !brief && m.choose(2), d > 100 || m.choose(2)); }, 3);
	add("TLV ways to give it", ELEMS.size(), [](Mc& m, uint64_t x) { Bytes v = ELEMS[x]; if (m.choose(2)) v = wrap28(0, 0, v); check_tlv(m, v, !m.choose(2), false, 1 + m.choose(2)); });
	// BER strings and identifiers
	add("BER universal types", 32, [](Mc& m, uint64_t x) { Bytes b; unsigned n = m.choose(m.thorough ? 5 : 4); static const Bytes C = { 0x00, 0x2A, 0x41, 0x80, 0x22, 0x81, 0xFF, 0x0A }; for (unsigned i = 0; i < n; ++i) b.push_back(C[m.choose(8)]); Bytes v; v.push_back(x == 31 ? 0x1E : x); v.push_back(b.size()); app28(v, b); if (m.choose(2)) app28(v, { 0x0C, 0x01, 'q' }); check_tlv(m, v, false, v.size() % 8 == 0); });
}
