// C26: what a command and a status are said to be
#include "strtab.h"
extern "C" { int shim_case(const void*, size_t); int shim_case_code(int); size_t shim_len3(const void*), shim_len4(const void*); int shim_sw(int, uint8_t, uint8_t); }
#include <map>
using namespace mc;
enum { BAD = -2, SHORT = -1, C1 = 0, C2S, C2E, C3S, C3E, C4S, C4E };
// ISO 7816-3:2006 table 13, from the header bytes and the length
static int ref_case(unsigned c5, unsigned n2, size_t len) {
	if (len < 4) return SHORT; size_t L = len - 4;
	if (L == 0) return C1; if (L == 1) return C2S;
	if (c5) return L == 1 + c5 ? C3S : L == 2 + c5 ? C4S : BAD;
	if (L == 3) return C2E; if (L < 3 || !n2) return BAD;
	return L == 3 + (size_t)n2 ? C3E : L == 5 + (size_t)n2 ? C4E : BAD;
}
static int lib_case(int c) { return c < 0 ? c : shim_case_code(c); }
static const char* NAME[] = { "1", "2S", "2E", "3S", "3E", "4S", "4E" };
static int case_of(const Bytes& a) { return ref_case(a.size() > 4 ? a[4] : 0, a.size() > 6 ? a[5] << 8 | a[6] : 0, a.size()); }
static void check_case(Mc& m, uint8_t* end, unsigned c5, unsigned n2, size_t len) { // the buffer ends where the command does
	uint8_t* p = end - len; const uint8_t h[7] = { 0x00, 0xA4, 0x04, 0x00, (uint8_t)c5, (uint8_t)(n2 >> 8), (uint8_t)n2 }; if (len) memcpy(p, h, len < 7 ? len : 7);
	int e = ref_case(len > 4 ? c5 : 0, len > 6 ? n2 : 0, len), r = shim_case(p, len); m.step();
	if (e < 0 ? r >= 0 : r != lib_case(e)) m.fail("case", "command %s... of %zu bytes is taken for case %d instead of %s", hex(p, len < 7 ? len : 7).c_str(), len, r, e < 0 ? "an error" : NAME[e]);
	m.cover(e == BAD ? "malformed" : e == SHORT ? "too short" : NAME[e]);
}
static const std::map<unsigned, const char*> ISO_INS = { { 0x04, "DEACTIVATE FILE" }, { 0x0C, "ERASE RECORD" }, { 0x0E, "ERASE BINARY" }, { 0x0F, "ERASE BINARY" }, { 0x10, "PERFORM SCQL OPERATION" }, { 0x12, "PERFORM TRANSACTION OPERATION" }, { 0x14, "PERFORM USER OPERATION" }, { 0x20, "VERIFY" }, { 0x21, "VERIFY" }, { 0x22, "MANAGE SECURITY ENVIRONMENT" }, { 0x24, "CHANGE REFERENCE DATA" }, { 0x26, "DISABLE VERIFICATION REQUIREMENT" }, { 0x28, "ENABLE VERIFICATION REQUIREMENT" }, { 0x2A, "PERFORM SECURITY OPERATION" }, { 0x2C, "RESET RETRY COUNTER" }, { 0x44, "ACTIVATE FILE" }, { 0x46, "GENERATE ASYMMETRIC KEY PAIR" }, { 0x70, "MANAGE CHANNEL" }, { 0x82, "EXTERNAL AUTHENTICATE" }, { 0x84, "GET CHALLENGE" }, { 0x86, "GENERAL AUTHENTICATE" }, { 0x87, "GENERAL AUTHENTICATE" }, { 0x88, "INTERNAL AUTHENTICATE" }, { 0xA0, "SEARCH BINARY" }, { 0xA1, "SEARCH BINARY" }, { 0xA2, "SEARCH RECORD" }, { 0xB0, "READ BINARY" }, { 0xB1, "READ BINARY" }, { 0xC0, "GET RESPONSE" }, { 0xC2, "ENVELOPE" }, { 0xC3, "ENVELOPE" }, { 0xCA, "GET DATA" }, { 0xCB, "GET DATA" }, { 0xD0, "WRITE BINARY" }, { 0xD1, "WRITE BINARY" }, { 0xD2, "WRITE RECORD" }, { 0xD6, "UPDATE BINARY" }, { 0xD7, "UPDATE BINARY" }, { 0xDC, "UPDATE RECORD" }, { 0xDD, "UPDATE RECORD" }, { 0xE0, "CREATE FILE" }, { 0xE2, "APPEND RECORD" }, { 0xE4, "DELETE FILE" }, { 0xE6, "TERMINATE DF" }, { 0xE8, "TERMINATE EF" }, { 0xFE, "TERMINATE CARD USAGE" } };
static const std::map<unsigned, const char*> EMV_INS = { { 0x1E, "APPLICATION BLOCK" }, { 0x18, "APPLICATION UNBLOCK" }, { 0x16, "CARD BLOCK" }, { 0xAE, "GENERATE AC" }, { 0xA8, "GET PROCESSING OPTIONS" }, { 0x24, "PIN CHANGE/UNBLOCK" } };
static void fmt(std::string& s, const char* f, ...) { char b[700]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); s += b; }
// 0: no text, 1: text, 2: the standard says nothing
static int ref_iso(const Bytes& a, std::string& s) {
	s.clear(); if (a.size() < 4 || a[0] & 0x80) return 0; int c = case_of(a); unsigned p1 = a[2], p2 = a[3]; static const char* OCC[] = { "first", "last", "next", "previous" };
	switch (a[1]) {
	case 0xA4: {
		if (c == C3S) return 2; // not forbidden by the standard
		if (c != C2S && c != C4S) return 0; unsigned n = c == C4S ? a[4] : 0; if (!p1 && !p2 && (!n || (n == 2 && a[5] == 0x3F && a[6] == 0x00))) { s = "SELECT Master File"; return 1; } if (!n) return 0;
		bool text = true; for (unsigned i = 0; i < n; ++i) if (a[5 + i] < 0x20 || a[5 + i] > 0x7E) text = false;
		s = std::string("SELECT ") + OCC[p2 & 3] + " " + (text ? std::string(a.begin() + 5, a.begin() + 5 + n) : hex(&a[5], n)); return 1; }
	case 0xB2: case 0xB3: {
		if (a[1] == 0xB2 ? c != C2S && c != C2E : c != C4S && c != C4E) return 0; if (p1 == 0xFF || (p2 & 7) == 7) return 0;
		std::string rec; if (!p1) rec = "current record"; else fmt(rec, p2 & 4 ? "record number %u" : "record identifier %u", p1);
		fmt(s, "READ RECORD from short EF %u, ", p2 >> 3); switch (p2 & 7) { case 4: s += rec; break; case 5: s += "all records from " + rec + " up to last"; break; case 6: s += "all records from the last up to " + rec; break; default: s += std::string(OCC[p2 & 3]) + " occurence of " + rec; } return 1; }
	case 0xDA: case 0xDB:
		if (c != C3S && c != C3E) return 0; s = "PUT DATA"; if (c == C3E) return 1;
		if (a[1] == 0xDA) { if (!p1) { if (p2 >= 0x40 && p2 < 0xFF) fmt(s, " for BER-TLV field %02X", p2); } else if (p1 == 1) fmt(s, " for proprietary identifier %02X", p2); else if (p1 == 2) { if (p2 && p2 < 0xFF) fmt(s, " for SIMPLE-TLV field %02X", p2); } else if (p1 >= 0x40) fmt(s, " for BER-TLV field %02X%02X", p1, p2); }
		else { if (!p1 && p2 >= 1 && p2 <= 30) fmt(s, " for short EF %u", p2); else if (p1 == 0x3F && p2 == 0xFF) s += " for current DF"; else if (p1 || p2) fmt(s, " for file %02X%02X", p1, p2); }
		return 1;
	}
	auto i = ISO_INS.find(a[1]); if (i == ISO_INS.end()) return 0; s = i->second; return 1;
}
static int ref_emv(const Bytes& a, std::string& s) {
	s.clear(); if (a.size() < 4 || a[0] == 0xFF) return 0; if (!(a[0] & 0x80)) return ref_iso(a, s);
	if (a[1] == 0xCA) { fmt(s, "GET DATA field %02X%02X", a[2], a[3]); return 1; } auto i = EMV_INS.find(a[1]); if (i == EMV_INS.end()) return 0; s = i->second; return 1;
}
struct Out { Buf b; Out() : b(1200, 0xA5) {} char* at(size_t cap) { return b.c() + b.n() - cap; } }; // room of cap bytes, ending at the end of the buffer
static Out& out() { static Out o; return o; }
static void say(Mc& m, const Bytes& a, const uint8_t* p, bool emv, int e, const std::string& want, size_t cap) {
	char* o = out().at(cap); memset(o, 0xA5, cap); bool ok; int r = 0; if (emv) { r = emv_capdu_get_string(p, a.size(), o, cap); ok = !r; if (r < 0 && a.size() >= 4) m.fail("error", "command %s: internal error %d", hex(a).c_str(), r); } else { const char* s = iso7816_capdu_get_string(p, a.size(), o, cap); ok = s; if (s && s != o) m.fail("text", "command %s: text elsewhere", hex(a).c_str()); }
	m.step(); if (e == 2) { m.cover("not settled"); return; }
	if (!e) { if (ok) m.fail("text", "%s command %s is shown as \"%s\" instead of unknown", emv ? "EMV" : "ISO", hex(a).c_str(), std::string(o, strnlen(o, cap)).c_str()); if (emv && a.size() >= 4 && o[0]) m.fail("text", "command %s: text left behind", hex(a).c_str()); m.cover("unknown command"); return; }
	if (!ok) m.fail("text", "%s command %s is unknown instead of \"%s\"", emv ? "EMV" : "ISO", hex(a).c_str(), want.c_str());
	size_t n = want.size() < cap ? want.size() : cap - 1; if (memcmp(o, want.data(), n) || o[n]) m.fail("text", "%s command %s is shown as \"%s\" instead of \"%s\" in %zu bytes", emv ? "EMV" : "ISO", hex(a).c_str(), std::string(o, strnlen(o, cap)).c_str(), want.c_str(), cap); m.cover(n < want.size() ? "text cut" : "text");
}
static void show(Mc& m, const Bytes& a, bool caps = false) {
	Buf b(a); std::string w; for (int emv = 0; emv < 2; ++emv) { int e = emv ? ref_emv(a, w) : ref_iso(a, w); say(m, a, b.p(), emv, e, w, 600); if (caps && e) for (size_t c = 1; c <= w.size() + 2; ++c) say(m, a, b.p(), emv, e, w, c); if (m.tracing) m.log("%s: %s", hex(a).c_str(), e == 1 ? w.c_str() : "unknown"); if (!emv || e != 2) m.state(hash(w, emv)); }
}
// the ends commands come with: after P1 P2
static std::vector<Bytes> shapes() {
	std::vector<Bytes> v = { {}, { 0x00 }, { 0x05 }, { 0x00, 0x01, 0x00 }, { 0x00, 0x00, 0x00 }, { 0x00, 0x00 }, { 0x02, 0x3F, 0x00 }, { 0x02, 0x3F, 0x00, 0x00 }, { 0x02, 0x3F, 0x01, 0x00 }, { 0x02, 0x00, 0x3F, 0x00 }, { 0x02, 'A', 'z', 0x00 }, { 0x02, 'A', 'z' }, { 0x03, 0x3F, 0x00, 0x00, 0x00 }, { 0x01, 0x3F, 0x10 }, { 0x02, 0x3F }, { 0x02, 0x3F, 0x00, 0x00, 0x00 }, { 0x00, 0x00, 0x02, 0x3F, 0x00 }, { 0x00, 0x00, 0x02, 0x3F, 0x00, 0x00, 0x00 }, { 0x00, 0x00, 0x02, 0x3F, 0x00, 0x00 }, { 0x00, 0x00, 0x00, 0x3F, 0x00 }, { 0x0E, '1', 'P', 'A', 'Y', '.', 'S', 'Y', 'S', '.', 'D', 'D', 'F', '0', '1', 0x00 }, { 0x07, 0xA0, 0x00, 0x00, 0x00, 0x03, 0x10, 0x10, 0x00 } };
	for (int t = 0; t < 3; ++t) for (int le = 0; le < 2; ++le) { Bytes b(256 + le, t == 0 ? 'x' : 0x80); b[0] = 0xFF; if (t == 2) { b[255] = 'y'; b[254] = 0x7F; } if (le) b[256] = 0; v.push_back(b); }
	return v;
}
static Bytes cmd(unsigned cla, unsigned ins, unsigned p1, unsigned p2, const Bytes& tail) { Bytes a{ (uint8_t)cla, (uint8_t)ins, (uint8_t)p1, (uint8_t)p2 }; a.insert(a.end(), tail.begin(), tail.end()); return a; }
// status words
static bool ref_sw(unsigned s1, unsigned s2, std::string& s, size_t& sure) {
	static const std::map<unsigned, const char*> T = { { 0x6200, "State of non-volatile memory is unchanged" }, { 0x6281, "Part of returned data may be corrupted" }, { 0x6282, "End of file or record reached before reading Ne bytes" }, { 0x6283, "Selected file deactivated" }, { 0x6284, "File control information not formatted according to ISO 7816-4:2005, 5.3.3" }, { 0x6285, "Selected file in termination state" }, { 0x6286, "No input data available from a sensor on the card" }, { 0x6300, "State of non-volatile memory has changed" }, { 0x6381, "File filled up by the last write" }, { 0x6400, "State of non-volatile memory is unchanged" }, { 0x6401, "Immediate response required by card" }, { 0x6500, "State of non-volatile memory has changed" }, { 0x6581, "Memory failure" }, { 0x6700, "Wrong length" }, { 0x6800, "Functions in CLA not supported" }, { 0x6881, "Logical channel not supported" }, { 0x6882, "Secure messaging not supported" }, { 0x6883, "Last command of the chain expected" }, { 0x6884, "Command chaining not supported" }, { 0x6900, "Command not allowed" }, { 0x6981, "Command incompatible with file structure" }, { 0x6982, "Security status not satisfied" }, { 0x6983, "Authentication method blocked" }, { 0x6984, "Reference data not usable" }, { 0x6985, "Conditions of use not satisfied" }, { 0x6986, "Command not allowed (no current EF)" }, { 0x6987, "Expected secure messaging data objects missing" }, { 0x6988, "Incorrect secure messaging data objects" }, { 0x6A00, "Wrong parameters P1-P2" }, { 0x6A80, "Incorrect parameters in the command data field" }, { 0x6A81, "Function not supported" }, { 0x6A82, "File or application not found" }, { 0x6A83, "Record not found" }, { 0x6A84, "Not enough memory space in the file" }, { 0x6A85, "Nc inconsistent with TLV structure" }, { 0x6A86, "Incorrect parameters P1-P2" }, { 0x6A87, "Nc inconsistent with parameters P1-P2" }, { 0x6A88, "Referenced data or reference data not found" }, { 0x6A89, "File already exists" }, { 0x6A8A, "DF name already exists" }, { 0x6B00, "Wrong parameters P1-P2" }, { 0x6D00, "Instruction code not supported or invalid" }, { 0x6E00, "Class not supported" }, { 0x6F00, "No precise diagnosis" } };
	s.clear(); sure = 0; unsigned w = s1 << 8 | s2; bool only0 = s1 == 0x67 || s1 == 0x6B || s1 == 0x6D || s1 == 0x6E || s1 == 0x6F;
	if (w == 0x9000) s = "Normal"; else if (s1 == 0x61) fmt(s, "Normal: %u data bytes remaining", s2); else if ((s1 >> 4 != 6 && s1 >> 4 != 9) || s1 == 0x60) s = "Invalid"; else if (s1 >> 4 == 9 || (only0 && s2)) s = "Proprietary";
	else { s = s1 < 0x64 ? "Warning: " : s1 < 0x67 ? "Execution error: " : "Checking error: "; sure = s.size(); auto i = T.find(w);
		if (i != T.end()) s += i->second; else if ((s1 == 0x62 || s1 == 0x64) && s2 >= 2 && s2 <= 0x80) fmt(s, "Card-originated query of %u bytes", s2); else if (s1 == 0x63 && s2 >> 4 == 0xC) fmt(s, "Counter is %u", s2 & 15); else if (s1 == 0x66) fmt(s, "Security error 0x%02X", s2); else if (s1 == 0x6C) fmt(s, "Wrong Le field (%u data bytes available)", s2); else s += "Unknown"; }
	return s2 || (s1 != 0x61 && s1 != 0x6C); // a count of zero stands for 256
}
static void setup() {
	static bool th = !strcmp(getenv("MC_TIER"), "thorough");
	out(); static Buf big(70000, 0); static uint8_t* const end = big.p() + big.n();
	add("cases, short", 256, [](Mc& m, uint64_t c5) { for (unsigned n2 : { 0u, 1u, 2u, 255u, 256u, 257u, 300u, 0xFFFFu }) for (size_t len = 0; len <= 600; ++len) check_case(m, end, c5, n2, len); if (shim_case(nullptr, 5) >= 0) m.fail("case", "no command is taken for one"); m.state(c5); });
	add("cases, extended", 256, [](Mc& m, uint64_t hi) { for (unsigned n2 = hi << 8; n2 < (hi << 8) + 256; ++n2) { for (size_t len = 5; len <= 12; ++len) check_case(m, end, 0, n2, len); for (size_t d = 0; d <= 13; ++d) if (n2 + d >= 5) check_case(m, end, 0, n2, n2 + d - (n2 > 5 ? 1 : 0)); unsigned sw = (n2 & 0xFF) << 8 | n2 >> 8; for (size_t d = 6; d <= 10; ++d) check_case(m, end, 0, n2, sw + d); check_case(m, end, 0, n2, 65535 + 9); check_case(m, end, 0, n2, 65544 + 1); if (th) for (size_t len = 0; len < 70000; len += 97) check_case(m, end, 0, n2, len); m.state(n2); } });
	add("case lengths", 256, [](Mc& m, uint64_t n) { Buf b(261, 0x11); b.p()[4] = n; size_t l3 = shim_len3(b.p()), l4 = shim_len4(b.p()); m.step(); if (l3 != 5 + n) m.fail("length", "case 3 command with %u bytes of data takes %zu bytes", (unsigned)n, l3); if (l4 != 6 + n) m.fail("length", "case 4 command with %u bytes of data takes %zu bytes", (unsigned)n, l4); m.cover("lengths"); });
	static std::vector<Bytes> S = shapes();
	add("commands, any class and instruction", 256, [](Mc& m, uint64_t cla) { for (unsigned ins = 0; ins < 256; ++ins) for (auto& t : S) { if (t.size() > 20 && ins % 8) continue; show(m, cmd(cla, ins, 0, 0, t)); if (t.size() < 4) { show(m, cmd(cla, ins, 0x9F, 0x36, t)); show(m, cmd(cla, ins, 1, 0x14, t)); } } });
	add("commands too short", 256, [](Mc& m, uint64_t cla) { show(m, {}); show(m, { (uint8_t)cla }); for (unsigned ins = 0; ins < 256; ++ins) { show(m, { (uint8_t)cla, (uint8_t)ins }); show(m, { (uint8_t)cla, (uint8_t)ins, 0 }); show(m, { (uint8_t)cla, (uint8_t)ins, 4 }); } });
	static const std::vector<unsigned> INS = { 0xA4, 0xB2, 0xB3, 0xDA, 0xDB, 0xCA, 0xC0, 0xCB };
	add("commands, all parameters", INS.size() * 256, [](Mc& m, uint64_t k) { unsigned ins = INS[k / 256], p1 = k % 256; unsigned cla = m.pick(std::vector<unsigned>{ 0x00, 0x80, 0x0C }); for (unsigned p2 = 0; p2 < 256; ++p2) for (auto& t : S) { if (t.size() > 20 && (!th || p2 % 16)) { if (p2 % 64 > 3 || p1 % 64) continue; } if (k / 256 >= 5 && t.size() > 3) continue; show(m, cmd(cla, ins, p1, p2, t)); } });
	add("selected names", 256, [](Mc& m, uint64_t x) { for (unsigned n = 1; n < 256; n = n < 18 || th ? n + 1 : n + 37) for (unsigned at = 0; at < n; at = at + 1 < n && !th && n > 17 ? n - 1 : at + 1) { Bytes t(n + 2, 'B'); t[0] = n; t[1 + at] = x; t[n + 1] = 0; show(m, cmd(0, 0xA4, 4, 0, t)); if (n < 4) for (unsigned p2 = 0; p2 < 8; ++p2) show(m, cmd(0, 0xA4, 0, p2, t)); } });
	add("capacities", ISO_INS.size() + EMV_INS.size() + 60, [](Mc& m, uint64_t k) { static const std::vector<unsigned> P1 = { 0, 1, 2, 0x3F, 0x40, 0xC8 }, P2 = { 0, 4, 5, 6, 7, 0x4C, 0xFE, 0xFF }; if (k < ISO_INS.size()) { auto i = ISO_INS.begin(); std::advance(i, k); show(m, cmd(0, i->first, 0, 0, {}), true); return; } k -= ISO_INS.size(); if (k < EMV_INS.size()) { auto i = EMV_INS.begin(); std::advance(i, k); show(m, cmd(0x80, i->first, 0, 0, {}), true); return; } k -= EMV_INS.size(); static const unsigned I[] = { 0xA4, 0xB2, 0xB3, 0xDA, 0xDB, 0xCA }; unsigned ins = I[k % 6]; for (unsigned p1 : P1) for (unsigned p2 : P2) for (size_t s = k / 6; s < S.size(); s += 10) { if (S[s].size() > 20 && p1) continue; show(m, cmd(ins == 0xCA ? 0x80 : 0, ins, p1, p2, S[s]), true); } });
	add("status", 256, [](Mc& m, uint64_t s1) { std::string w; size_t sure; for (unsigned s2 = 0; s2 < 256; ++s2) { bool exact = ref_sw(s1, s2, w, sure);
			for (size_t cap = 1; cap <= w.size() + 3; ++cap) { char* o = out().at(cap); memset(o, 0xA5, cap); const char* s = iso7816_sw1sw2_get_string(s1, s2, o, cap); m.step(); if (s != o) m.fail("status", "%02X%02X has no text", (unsigned)s1, s2); if (!memchr(o, 0, cap)) m.fail("status", "%02X%02X: text of %zu bytes not terminated", (unsigned)s1, s2, cap); if (!exact) continue; size_t n = w.size() < cap ? w.size() : cap - 1; if (memcmp(o, w.data(), n) || o[n]) m.fail("status", "%02X%02X is shown as \"%s\" instead of \"%s\" in %zu bytes", (unsigned)s1, s2, o, w.c_str(), cap); }
			if (exact) m.state(hash(w, 9)); struct { const char* n; bool got, want; } H[] = { { "success", (bool)shim_sw(0, s1, s2), s1 == 0x90 && !s2 }, { "normal", (bool)shim_sw(1, s1, s2), (s1 == 0x90 && !s2) || s1 == 0x61 }, { "a warning", (bool)shim_sw(2, s1, s2), s1 == 0x62 || s1 == 0x63 }, { "an error", (bool)shim_sw(3, s1, s2), !((s1 == 0x90 && !s2) || (s1 >= 0x61 && s1 <= 0x63)) } }; for (auto& h : H) if (h.got != h.want) m.fail("status", "%02X%02X is %s%s", (unsigned)s1, s2, h.want ? "not " : "", h.n); m.cover(w.compare(0, 4, "Warn") == 0 ? "warning" : w.compare(0, 4, "Norm") == 0 ? "normal" : "error"); }
		if (iso7816_sw1sw2_get_string(s1, 0, nullptr, 0)) m.fail("status", "text without room"); });
	add("life cycle", 16, [](Mc& m, uint64_t h) { for (unsigned x = h * 16; x < h * 16 + 16; ++x) { const char* s = iso7816_lcs_get_string(x); m.step(); const char* w = x == 0 ? "No information given" : x == 1 ? "Creation state" : x == 3 ? "Initialisation state" : x == 5 || x == 7 ? "Operational state (activated)" : x == 4 || x == 6 ? "Operational state (deactivated)" : x >= 12 && x < 16 ? "Termination state" : x >= 16 ? "Proprietary" : nullptr; if (w ? !s || strcmp(s, w) : !s) m.fail("life cycle", "life cycle %02X is shown as \"%s\" instead of \"%s\"", x, s ? s : "", w ? w : "some text"); m.cover("life cycle"); } });
}
static struct Init { Init() { setup_hook = setup; } } init_;
