// C23: descriptions of coded fields say exactly what the bits and codes mean
#include "strtab.h"
#include "golden_fields.h"
#include <emv_fields.h>
#include <algorithm>
using namespace mc;
static std::string sf(const char* f, ...) __attribute__((format(printf, 1, 2)));
static std::string sf(const char* f, ...) { char b[700]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static Bytes unhex(const char* s) { Bytes v; for (; *s && s[1]; s += 2) { unsigned x; sscanf(s, "%2x", &x); v.push_back(x); } return v; }
static bool holds(const Cond& c, const Bytes& v) { return c.value == ANY ? (v[c.byte] & c.mask) != 0 : (v[c.byte] & c.mask) == (unsigned)c.value; }
static bool shown(const Row& r, const Bytes& v) { if (r.kind == ALWAYS) return true; for (auto& c : r.conds) { bool h = holds(c, v); if (r.kind == OR && h) return true; if (r.kind == AND && !h) return false; } return r.kind == AND; }
static std::string rows(const Field& F, const Bytes& v, const std::string& pre) { std::string s; s.reserve(8192); s = pre; for (auto& r : F.rows) if (shown(r, v)) { s += r.text; s += '\n'; } return s; }
struct Want { std::string text; bool ok; bool any; }; // ok: must be accepted; any: may be refused
static bool an(uint8_t c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
static Want want(const Field& F, const Bytes& v) {
	std::string f = F.fn, t = F.title; Want w{ "", true, false };
	if (f == "emv_term_type_get_string_list" && v[0] == 0) { w.any = true; return w; }
	if (f == "iso7816_card_capabilities_get_string_list" && v.size() == 3 && (v[2] & 0x18) == 0x18) { w.any = true; return w; }
	if (f == "emv_visa_form_factor_indicator_get_string_list" && v[0] >> 5 != 1) { w.text = sf("Form Factor Indicator (FFI): Version Number %u\n", v[0] >> 5); return w; }
	std::string pre, post;
	if (t == "CCD issuer application data") {
		pre = "Application: CCD-Compliant\nIAD Format: CCD Version 4.1\n"; unsigned c = v[1] & 0x0F;
		if (c != 5 && c != 6) { w.any = true; return w; }
		pre += sf("Cryptogram Version: %s\nDerivation Key Index (DKI): %02X\n", c == 5 ? "TDES" : "AES", v[2]);
	} else if (t.find("M/Chip") == 0) {
		pre = v.size() == 18 ? "Application: M/Chip 4\n" : "Application: M/Chip Advance\n"; unsigned k = v[1] & 6; if (k == 6 || k == 2) { w.any = true; return w; }
		pre += sf("Derivation Key Index (DKI): %02X\nCryptogram Version Number (CVN): %02X\nCryptogram: %s session key\nCryptogram: %s\n", v[0], v[1], k == 0 ? "Mastercard Proprietary SKD" : "EMV CSK", v[1] & 1 ? "Counter included in AC data" : "Counters not included in AC data");
	} else if (t == "VSDC 0/1/3 issuer application data") pre = sf("Application: Visa Smart Debit/Credit (VSDC)\nIAD Format: %u\nDerivation Key Index (DKI): %02X\nCryptogram Version Number (CVN): %02X (CVN%02u)\n", v[2] >> 4, v[1], v[2], v[2]);
	else if (t == "VSDC 2/4 issuer application data") pre = sf("Application: Visa Smart Debit/Credit (VSDC)\nIAD Format: %u\nCryptogram Version Number (CVN): %02X (CVN'%02X')\nDerivation Key Index (DKI): %02X\n", v[1] >> 4, v[1], v[1], v[2]);
	else if (f == "emv_issuer_auth_data_get_string_list") {
		if (v[4] & 0x70 || v[6]) return w;
		pre = sf("Authorisation Response Cryptogram (ARPC): %02X%02X%02X%02X\n", v[0], v[1], v[2], v[3]);
		if (v[7]) post = sf("Card Status Update (CSU): Issuer Discretionary 0x%02X\n", v[7]);
		if (v.size() > 8) { if (v[4] & 0x80) post += sf("Proprietary Authentication Data: %zu bytes\n", v.size() - 8); }
	}
	w.text = rows(F, v, pre); w.text += post; return w;
}
static char TEXT[8192];
static int call(const char* fn, const Bytes& v) { static thread_local const Render* last; if (!last || strcmp(last->name, fn)) last = render(fn); Buf b(v); TEXT[0] = 0; return last->fn(b.p(), v.size(), TEXT, sizeof TEXT); }
static int call(const char* fn, const Bytes& v, std::string& out) { int r = call(fn, v); out = TEXT; return r; }
static void judge(Mc& m, const char* fn, const Bytes& v, const Want& w) {
	m.step(); int r = call(fn, v); const char* got = TEXT; size_t L = strlen(TEXT); if (m.tracing) m.log("%s %s -> %d\n%s", fn, hex(v).c_str(), r, got);
	if (w.any) { m.cover("reserved value"); return; }
	if (!w.ok) { if (r == 0) m.fail("accepted", "%s(%s) accepted a field without meaning: \"%s\"", fn, hex(v).c_str(), got); m.cover("refused"); return; }
	if (r) m.fail("refused", "%s(%s) returned %d", fn, hex(v).c_str(), r);
	if (L != w.text.size() || memcmp(got, w.text.data(), L)) m.fail("meaning", "%s(%s) is described as\n%sinstead of\n%s", fn, hex(v).c_str(), got, w.text.c_str());
	m.state(std::_Hash_bytes(got, L, (size_t)hash(fn, strlen(fn)))); m.cover("described");
}
// --- coded values
static const char* CVM[64];
static const char* COND[] = { "Always", "If unattended cash", "If not unattended cash and not manual cash and not purchase with cashback", "If terminal supports the CVM", "If manual cash", "If purchase with cashback" };
static std::string cond(unsigned c, const std::string& X, const std::string& Y) { if (c < 6) return COND[c]; if (c < 10) return std::string("If transaction is in the application currency and is ") + (c % 2 ? "over " : "under ") + (c < 8 ? X : Y) + " value"; return "Unknown condition"; }
static const char* cvm(unsigned c) { return CVM[c & 0x3F] ? CVM[c & 0x3F] : "Unknown CVM"; }
static void codes_setup() {
	struct { unsigned c; const char* t; } T[] = { { 0x00, "Fail CVM processing" }, { 0x01, "Plaintext PIN verification performed by ICC" }, { 0x02, "Enciphered PIN verified online" }, { 0x03, "Plaintext PIN verification performed by ICC and signature" }, { 0x04, "Enciphered PIN verification performed by ICC" }, { 0x05, "Enciphered PIN verification performed by ICC and signature" },
		{ 0x06, "Facial biometric verified offline (by ICC)" }, { 0x07, "Facial biometric verified online" }, { 0x08, "Finger biometric verified offline (by ICC)" }, { 0x09, "Finger biometric verified online" }, { 0x0A, "Palm biometric verified offline (by ICC)" }, { 0x0B, "Palm biometric verified online" }, { 0x0C, "Iris biometric verified offline (by ICC)" }, { 0x0D, "Iris biometric verified online" }, { 0x0E, "Voice biometric verified offline (by ICC)" }, { 0x0F, "Voice biometric verified online" },
		{ 0x1E, "Signature (paper)" }, { 0x1F, "No CVM required" }, { 0x3F, "Invalid CV Rule" } };
	for (auto& t : T) CVM[t.c] = t.t;
}
struct Single { const char* fn; std::vector<std::pair<unsigned, const char*>> v; };
static const std::vector<Single> SINGLES = {
	{ "emv_transaction_type_get_string", { { 0x00, "Goods and services" }, { 0x01, "Cash" }, { 0x09, "Cashback" }, { 0x20, "Refund" }, { 0x30, "Inquiry" } } },
	{ "emv_account_type_get_string", { { 0x00, "Default" }, { 0x10, "Savings" }, { 0x20, "Cheque/Debit" }, { 0x30, "Credit" } } },
	{ "emv_pos_entry_mode_get_string", { { 0x00, "Unknown" }, { 0x01, "Manual PAN entry" }, { 0x02, "Magnetic stripe" }, { 0x03, "Optical Code" }, { 0x04, "OCR" }, { 0x05, "Integrated circuit card (ICC). CVV can be checked." }, { 0x07, "Auto entry via contactless EMV" }, { 0x10, "Merchant has Cardholder Credentials on File" }, { 0x80, "Fallback from integrated circuit card (ICC) to magnetic stripe" }, { 0x90, "Magnetic stripe as read from track 2. CVV can be checked." }, { 0x91, "Auto entry via contactless magnetic stripe" }, { 0x95, "Integrated circuit card (ICC). CVV may not be checked." }, { 0x99, "Same as original transaction" } } },
};
// names of products and schemes
struct Aid { const char *aid, *text; };
static const std::vector<Aid> AIDS = {
	{ "A0000000031010", "Visa Credit/Debit" }, { "A0000000032010", "Visa Electron" }, { "A0000000032020", "V Pay" }, { "A0000000038010", "Visa Plus" }, { "A000000003999999", "Visa" }, { "A000000098", "Visa USA Debit" },
	{ "A0000000041010", "Mastercard Credit/Debit" }, { "A0000000043060", "Maestro" }, { "A0000000046000", "Mastercard Cirrus" }, { "A0000000042203", "Mastercard USA Debit" }, { "A000000005", "Maestro UK" }, { "B012345678", "Mastercard Test Card" }, { "A000000004999999", "Mastercard" },
	{ "A00000002501", "American Express Credit/Debit" }, { "A0000000259999", "American Express Credit/Debit" }, { "A000000790", "American Express (China Credit/Debit)" },
	{ "A0000001523010", "Discover Card" }, { "A0000001524010", "Discover USA Debit" }, { "A000000152999999", "Discover" }, { "A000000324", "Discover ZIP" },
	{ "A0000000421010", "Cartes Bancaires (CB) Credit/Debit" }, { "A0000000422010", "Cartes Bancaires (CB) Debit" }, { "A000000042999999", "Cartes Bancaires (CB)" }, { "A0000000651010", "JCB" },
	{ "A0000001214711", "Visa/Dankort" }, { "A0000001214712", "Dankort (J/Speedy)" }, { "A00000012199", "Dankort" },
	{ "A000000333010101", "UnionPay Debit" }, { "A000000333010102", "UnionPay Credit" }, { "A000000333010103", "UnionPay Quasi-credit" }, { "A000000333010106", "UnionPay Electronic Cash" }, { "A000000333010108", "UnionPay USA Debit" }, { "A00000033399", "UnionPay" },
	{ "A000000337", "GIM-UEMOA" }, { "A000000337101000", "GIM-UEMOA Standard" }, { "A000000337101001", "GIM-UEMOA Prepaye Online" }, { "A000000337102000", "GIM-UEMOA Classic" }, { "A000000337102001", "GIM-UEMOA Prepaye Possibile Offline" }, { "A000000337301000", "GIM-UEMOA Retrait" }, { "A000000337601001", "GIM-UEMOA Porte Monnaie Electronique" },
	{ "A0000003591010028001", "Deutsche Kreditwirtschaft (DK) Girocard" }, { "A0000003710001", "Verve" }, { "A00000038410", "eftpos (Australia) savings" }, { "A00000038420", "eftpos (Australia) cheque" }, { "A0000003849999", "eftpos (Australia)" },
	{ "A0000005241010", "RuPay" }, { "A0000006581010", "Mir Credit" }, { "A0000006582010", "Mir Debit" }, { "A00000065899", "Mir" }, { "A000000732100123", "Meeza" },
};
static std::string hexu(const uint8_t* p, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += sf("%02X", p[i]); return s; }
// Third party data as the documents state it: text, accepted
static const char* const CONCESSION[] = { "", "01 - Senior Citizen, potentially eligible for senior citizen discounts", "02 - Student, potentially eligible for student-based discounts", "03 - Active military and veterans, potentially eligible for service member discounts", "04 - Low Income household, potentially eligible for means-based discounts", "05 - Disability, eligible for paratransit and other disability discounts", "06 - Minor Child, potentially enables free travel for under 16 and young kids", "07 - Transit Staff, potentially enables free travel for transit staff", "08 - City/Government/Preferred Employees, potentially enables discounted travel for federal and preferred employees" };
static const char* device(uint8_t a, uint8_t b) { for (auto& d : DEVICES) if (d.code[0] == (char)a && d.code[1] == (char)b) return d.text; return nullptr; }
static Want tpd(const Bytes& v) {
	Want w{ "", true, false }; if (v.size() < 5 || v.size() > 32) { w.ok = false; return w; }
	const char* country = nullptr; unsigned num = v[0] << 8 | v[1]; for (auto& c : COUNTRIES) if (strtoul(c.num, nullptr, 16) == num) { country = c.name.c_str(); break; }
	w.text = std::string("Country: ") + (country ? std::string(country).substr(0, 127) : "Unknown") + "\n";
	unsigned id = v[2] << 8 | v[3]; bool ext = (id & 0x7FFF) == 3; w.text += id == 0 ? "Unique Identifier: Proprietary Data not used\n" : ext ? "Unique Identifier: Mastercard Product Extension\n" : "Unique Identifier: Unknown\n";
	size_t at = 4; if (!(id & 0x8000)) { if (v.size() < 7) { w.ok = false; return w; } if (v[4] < 0x20 || v[4] > 0x7E || v[5] < 0x20 || v[5] > 0x7E) { w.any = true; return w; } const char* d = device(v[4], v[5]); w.text += sf("Device Type: %c%c", v[4], v[5]); if (d) w.text += std::string(" - ") + d; w.text += "\n"; at = 6; }
	size_t left = v.size() - at; const uint8_t* p = v.data() + at;
	if (id == 0 && (left != 1 || p[0])) { w.ok = false; return w; }
	if (!ext) { if (p[0] == 0) w.text += "Proprietary Data: Not used\n"; return w; }
	if (left < 2) { w.ok = false; return w; }
	unsigned pid = p[0] << 8 | p[1];
	if (pid == 1) { w.text += "Product Identifier: Fleet Card\n"; if (left != 8) { w.ok = false; return w; }
		if (p[2]) w.text += p[2] == 2 ? "Product Restriction Code: Good for fuel only\n" : p[2] == 1 ? "Product Restriction Code: Good for fuel and other products\n" : "Product Restriction Code: RFU\n";
		if (p[3] & 8) w.text += "Product Type Code: Prompt for Odometer\n"; if (p[3] & 4) w.text += "Product Type Code: Prompt for Driver Number\n"; if (p[3] & 2) w.text += "Product Type Code: Prompt for Vehicle Number\n"; if (p[3] & 1) w.text += "Product Type Code: Prompt for ID Number\n"; if (p[3] & 0xF0) w.text += "Product Type Code: RFU\n";
		if (p[4]) w.text += p[4] == 0x80 ? "Card Type: Driver card\n" : p[4] == 0x40 ? "Card Type: Vehicle card\n" : "Card Type: RFU\n"; return w; }
	if (pid == 2) { w.text += "Product Identifier: Transit\n"; if (left != 5) { w.ok = false; return w; }
		if (p[2] & 0x80) w.text += "Transit: Deferred Authorization Not Supported\n"; if (p[2] & 0x7F) w.text += "Transit: RFU\n"; w.text += p[3] >= 1 && p[3] <= 8 ? std::string("Concession Code: ") + CONCESSION[p[3]] + "\n" : "Concession Code: RFU\n"; return w; }
	w.text += "Product Identifier: Unknown\n"; return w;
}
static Want iad91(const Bytes& v, const Field& F) { // issuer authentication data of any length
	Want w{ "", true, false }; if (v.size() < 8 || v.size() > 32) { w.ok = false; return w; }
	if (v.size() == 10) { std::string arpc = "Authorisation Response Cryptogram (ARPC): " + hexu(&v[0], 8) + "\n"; if (an(v[8]) && an(v[9])) { w.text = arpc + sf("Authorisation Response Code: %c%c\n", v[8], v[9]); return w; } if (!(v[8] & 0xF0)) { w.text = arpc + sf("M/Chip ARPC Response Code: %02X%02X\n", v[8], v[9]); return w; } }
	return want(F, v);
}
static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough"); load_codes(); codes_setup();
	static const Bytes BASE = { 0x00, 0xFF, 0x55, 0xAA };
	// one space item = one field and one byte of it; pairs with later bytes
	struct Item { unsigned f, a, b; }; static std::vector<Item> items;
	for (unsigned f = 0; f < FIELDS.size(); ++f) for (unsigned i = 0; i < FIELDS[f].vary.size(); ++i) for (unsigned j = i; j < FIELDS[f].vary.size(); ++j) items.push_back({ f, FIELDS[f].vary[i], FIELDS[f].vary[j] });
	add("all values of every byte and of every pair of bytes", items.size() * 4, [th](Mc& m, uint64_t k) { const Item& it = items[k / 4]; const Field& F = FIELDS[it.f]; Bytes v = unhex(F.tmpl); uint8_t base = BASE[k % 4]; bool all = th || k % 4 < 2;
		for (auto at : F.vary) if (at != it.a && at != it.b) v[at] = base;
		v[it.a] = m.choose(256); for (unsigned x = 0; x < (it.a == it.b ? 1u : 256u); x += all ? 1 : 5) { if (it.a != it.b) v[it.b] = x; judge(m, F.fn, v, want(F, v)); } });
	add("identifying bytes of structured fields", FIELDS.size() * 256, [](Mc& m, uint64_t k) { const Field& F = FIELDS[k / 256]; if (F.title == std::string("card capabilities, 3 bytes")) return; Bytes v = unhex(F.tmpl); unsigned at; std::string t = F.title; uint8_t x = k % 256;
		if (t == "CCD issuer application data") { at = m.choose(2); if (at == 0) { if (x >> 4 != 0xA) return; at = 1; } else at = 2; }
		else if (t.find("M/Chip") == 0) { at = m.choose(2); if (at == 1 && ((x & 0x80) || (x & 6) == 6 || (x & 6) == 2)) return; if (at == 1) { v[1] = x; Buf b(v); int f = emv_iad_get_format(b.p(), v.size()); if (f != EMV_IAD_FORMAT_MCHIP4 && f != EMV_IAD_FORMAT_MCHIP_ADVANCE) return; } }
		else if (t == "VSDC 0/1/3 issuer application data") { at = 1 + m.choose(2); if (at == 2) { unsigned f = x >> 4; if (f != 0 && f != 1 && f != 3) return; } }
		else if (t == "VSDC 2/4 issuer application data") { at = 1 + m.choose(2); if (at == 1 && x >> 4 != 2 && x >> 4 != 4) return; }
		else if (t.find("issuer auth") == 0) at = m.choose(4); else if (t.find("form factor") == 0) at = 0; else return;
		v[at] = x; judge(m, F.fn, v, want(F, v)); });
	add("wrong lengths", FIELDS.size() * 12, [](Mc& m, uint64_t k) { const Field& F = FIELDS[k / 12]; const Render* R = render(F.fn); if (R->len <= 0) return; unsigned n = k % 12; if ((int)n == R->len || !n) return; Bytes v(n, BASE[m.choose(4)]); std::string got; m.step(); int r = call(F.fn, v, got); if (!r) m.fail("length", "%s accepted %u bytes: \"%s\"", F.fn, n, got.c_str()); m.cover("wrong length refused"); });
	add("single value fields", SINGLES.size() * 256, [](Mc& m, uint64_t k) { const Single& S = SINGLES[k / 256]; unsigned c = k % 256; Want w{ "", false, false }; for (auto& v : S.v) if (v.first == c) { w.ok = true; w.text = v.second; } judge(m, S.fn, { (uint8_t)c }, w); });
	add("contactless reader capabilities", 256, [](Mc& m, uint64_t c) { Want w{ "Not Available for Use", true, false }; switch (c & 0xC8) { case 0x00: w.text = "Deprecated"; break; case 0x40: w.text = "Mag-stripe CVM Not Required"; break; case 0x48: w.text = "Mag-stripe CVM Required"; break; case 0x80: w.text = "Deprecated - EMV and Mag-stripe"; break; case 0xC0: w.text = "EMV and Mag-stripe CVM Not Required"; break; case 0xC8: w.text = "EMV and Mag-stripe CVM Required"; break; } judge(m, "emv_amex_cl_reader_caps_get_string", { (uint8_t)c }, w); });
	add("authorisation response codes", 256, [](Mc& m, uint64_t a) { for (unsigned b = 0; b < 256; ++b) { Want w{ "", false, false }; if (an(a) && an(b)) { w.ok = true; w.text = sf("%c%c", (int)a, b); for (auto& c : ARCS) if (c.code[0] == (char)a && c.code[1] == (char)b) { w.text += std::string(" - ") + c.text; break; } } judge(m, "emv_auth_response_code_get_string", { (uint8_t)a, (uint8_t)b }, w); }
		for (size_t n : { 1, 3, 4 }) judge(m, "emv_auth_response_code_get_string", Bytes(n, a), { "", false, false }); });
	add("verification results", 256, [](Mc& m, uint64_t a) { for (unsigned b = 0; b < 256; ++b) for (unsigned r : { 0u, 1u, 2u, 3u, 127u, 128u, 255u }) { std::string t = std::string("CVM Performed: ") + (a == 0x3F ? "CVM not performed" : cvm(a)) + "\nCVM Condition: " + cond(b, "X", "Y") + "\nCVM Result: " + (r == 0 ? "Unknown" : r == 1 ? "Failed" : r == 2 ? "Successful" : sf("%u", r)) + "\n"; judge(m, "emv_cvm_results_get_string_list", { (uint8_t)a, (uint8_t)b, (uint8_t)r }, { t, true, false }); } for (size_t n : { 1, 2, 4, 5 }) judge(m, "emv_cvm_results_get_string_list", Bytes(n, a), { "", false, false }); });
	static const std::vector<uint32_t> AMT = { 0, 1, 100, 0x01020304, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF };
	add("verification rules", 256, [th](Mc& m, uint64_t a) { unsigned i = m.choose(AMT.size()), j = th ? m.choose(AMT.size()) : (3 * i + 1) % AMT.size(); uint32_t X = AMT[i], Y = AMT[j]; auto line = [&](unsigned c, unsigned d) { return cond(d, sf("%u", X), sf("%u", Y)) + "; " + cvm(c) + "; " + (c & 0x40 ? "Apply succeeding CV Rule if this CVM is unsuccessful" : "Fail cardholder verification if this CVM is unsuccessful") + "\n"; };
		for (unsigned b = 0; b < 256; ++b) { Bytes v; for (uint32_t n : { X, Y }) for (int s = 24; s >= 0; s -= 8) v.push_back(n >> s); v.push_back(a); v.push_back(b); std::string t = line(a, b); unsigned more = b < 12 ? 3 : 1; judge(m, "emv_cvm_list_get_string_list", v, { t, true, false }); for (unsigned i = 1; i < more; ++i) { uint8_t c = a * 7 + i * 0x41, d = b + i; v.push_back(c); v.push_back(d); t += line(c, d); judge(m, "emv_cvm_list_get_string_list", v, { t, true, false }); } } });
	add("names of applications", AIDS.size(), [](Mc& m, uint64_t k) { Bytes v = unhex(AIDS[k].aid); unsigned n = m.choose(18 - v.size() > 12 ? 12 : 18 - v.size()); for (unsigned i = 0; i < n; ++i) v.push_back(0x77); judge(m, "emv_aid_get_string", v, { AIDS[k].text, v.size() <= 16, false }); });
	add("unregistered applications", 256, [](Mc& m, uint64_t k) { Bytes v = { 0xA0, 0x00, (uint8_t)k, 0x12, (uint8_t)m.choose(256), 0x10, 0x10 }; judge(m, "emv_aid_get_string", v, { "", false, false }); for (size_t n = 1; n < 5; ++n) judge(m, "emv_aid_get_string", Bytes(v.begin(), v.begin() + n), { "", false, false }); });
	// application file locator text: every entry of every file, first and last record, and count of authenticated records
	add("file locators", 256, [th](Mc& m, uint64_t f) { static const Bytes R = { 0, 1, 2, 3, 4, 9, 0x7F, 0xFE, 0xFF }; unsigned n = m.choose(2), first = m.pick(R), last = m.pick(R), oda = m.pick(R); auto ok = [](unsigned f, unsigned a, unsigned b, unsigned o) { unsigned sfi = f >> 3; return !(f & 7) && sfi >= 1 && sfi <= 30 && a && b >= a && o <= b - a + 1; };
		auto line = [](unsigned f, unsigned a, unsigned b, unsigned o) { std::string s = sf("SFI %u, record %u", f >> 3, a); if (b != a) s += sf(" to %u", b); if (o) s += sf(", %u record%s used for offline data authentication", o, o > 1 ? "s" : ""); return s + "\n"; };
		Bytes v; std::string t; if (n) { v = { 0x08, 0x01, 0x03, 0x02 }; t = line(8, 1, 3, 2); } v.insert(v.end(), { (uint8_t)f, (uint8_t)first, (uint8_t)last, (uint8_t)oda }); t += line(f, first, last, oda); bool good = ok(f, first, last, oda);
		std::string got; m.step(); int r = call("emv_afl_get_string_list", v, got); if (m.tracing) m.log("locator %s -> %d %s", hex(v).c_str(), r, got.c_str()); if (good ? (r || got != t) : (!r || !got.empty())) m.fail("meaning", "locator %s is described as (%d) \"%s\"%s", hex(v).c_str(), r, got.c_str(), good ? sf(" instead of \"%s\"", t.c_str()).c_str() : ", not refused"); m.cover(good ? "described" : "refused"); });
	add("registered proprietary data", 256, [](Mc& m, uint64_t hi) { for (unsigned lo = 0; lo < 256; ++lo) for (unsigned n : { 0u, 1u, 5u }) { auto name = [](unsigned id) { return id == 1 ? "European Cards Stakeholders Group\n" : id == 3 ? "Technical Cooperation ep2 Association\n" : "Unknown ASRPD identifier\n"; }; Bytes v = { (uint8_t)hi, (uint8_t)lo, (uint8_t)n }; v.resize(3 + n, 0x11); std::string t = name(hi << 8 | lo); judge(m, "emv_asrpd_get_string_list", v, { t, true, false }); if (hi < 2) { v.insert(v.end(), { 0, 3, 1, 0 }); judge(m, "emv_asrpd_get_string_list", v, { t + name(3), true, false }); for (size_t c = 1; c < 4; ++c) judge(m, "emv_asrpd_get_string_list", Bytes(v.begin(), v.end() - c), { "", false, false }); } } });
	add("third party data, identifiers", 256, [](Mc& m, uint64_t hi) { for (unsigned lo = 0; lo < 256; ++lo) { Bytes v = { 0x05, 0x28, (uint8_t)hi, (uint8_t)lo, '0', '3', 0x00 }; judge(m, "emv_mastercard_third_party_data_get_string_list", v, tpd(v)); v = { 0x09, 0x99, (uint8_t)hi, (uint8_t)lo, 0x00 }; judge(m, "emv_mastercard_third_party_data_get_string_list", v, tpd(v)); v = { 0x07, 0x10, (uint8_t)hi, (uint8_t)lo, 0x31, 0x34, 0x01, 0x02, 0x03 }; judge(m, "emv_mastercard_third_party_data_get_string_list", v, tpd(v)); } });
	add("third party data, device types", 95, [](Mc& m, uint64_t a) { for (unsigned b = 0x20; b < 0x7F; ++b) for (unsigned id : { 0u, 3u, 1u }) { Bytes v = { 0x05, 0x28, 0x00, (uint8_t)id, (uint8_t)(a + 0x20), (uint8_t)b, 0x00 }; if (id == 3) v.push_back(5); judge(m, "emv_mastercard_third_party_data_get_string_list", v, tpd(v)); } });
	add("third party data, product extensions", 256, [](Mc& m, uint64_t x) { unsigned dev = m.choose(2), prod = m.choose(4), at = m.choose(3), len = m.choose(12); Bytes v = { 0x05, 0x28, (uint8_t)(dev ? 0x00 : 0x80), 0x03 }; if (dev) { v.push_back('1'); v.push_back('9'); } size_t p = v.size(); v.resize(p + len, m.choose(2) ? 0xFF : 0x00); if (len > 0) v[p] = prod == 3 ? 1 : 0; if (len > 1) v[p + 1] = prod; if (len > 2 + at) v[p + 2 + at] = x; judge(m, "emv_mastercard_third_party_data_get_string_list", v, tpd(v)); });
	add("third party data, countries and lengths", 256, [](Mc& m, uint64_t x) { static const Bytes C = { 0x05, 0x28, 0x07, 0x10, 0x03, 0x84, 0x09, 0x01, 0x09, 0x99, 0x00, 0x00, 0x12, 0x34 }; unsigned c = m.choose(C.size() / 2) * 2; if (x > 36) { Bytes v = { (uint8_t)x, (uint8_t)m.choose(256), 0x80, 0x01, 0x00 }; judge(m, "emv_mastercard_third_party_data_get_string_list", v, tpd(v)); return; } Bytes v(x, 0x41); if (x < 1) return; for (size_t i = 0; i < 2 && i < x; ++i) v[i] = C[c + i]; if (x > 2) v[2] = m.choose(2) ? 0x80 : 0x00; judge(m, "emv_mastercard_third_party_data_get_string_list", v, tpd(v)); });
	static const Field* CSU = nullptr; for (auto& f : FIELDS) if (!strcmp(f.fn, "emv_issuer_auth_data_get_string_list")) CSU = &f;
	add("issuer authentication data of every length", 256, [](Mc& m, uint64_t x) { unsigned n = 1 + m.choose(35), at = m.choose(5); Bytes v(n, m.choose(2) ? 0x81 : 0x00); if (n > 6) v[6] = 0; if (n > 4) v[4] = m.choose(2) ? 0x83 : 0x03; if (n > 4 + at) v[4 + at] = x; if (n == 10) { if (at == 4) { for (unsigned y = 0; y < 256; ++y) { v[9] = y; judge(m, "emv_issuer_auth_data_get_string_list", v, iad91(v, *CSU)); } return; } v[8] = 0x80; } judge(m, "emv_issuer_auth_data_get_string_list", v, iad91(v, *CSU)); });
	// lists of codes
	add("currency lists", 256, [](Mc& m, uint64_t a) { static const Bytes C = { 0x09, 0x78, 0x07, 0x10, 0x09, 0x01, 0x09, 0x99, 0x12, 0x34, 0x00, 0x00 }; auto name = [](const uint8_t* p) { unsigned num = p[0] << 8 | p[1]; for (auto& c : CURRENCIES) if (strtoul(c.num, nullptr, 16) == num) return c.name.substr(0, 127) + "\n"; return std::string("Unknown\n"); };
		for (unsigned b = 0; b < 256; ++b) { Bytes v = { (uint8_t)a, (uint8_t)b }; std::string t = name(&v[0]); bool digits = (a & 15) < 10 && a >> 4 < 10 && (b & 15) < 10 && b >> 4 < 10; judge(m, "emv_app_reference_currency_get_string_list", v, { t, true, !digits }); }
		if (a < 216) { Bytes v; std::string t; unsigned i[3] = { (unsigned)a % 6, (unsigned)a / 6 % 6, (unsigned)a / 36 }; for (unsigned k : i) { v.push_back(C[2 * k]); v.push_back(C[2 * k + 1]); t += name(&v[v.size() - 2]); } judge(m, "emv_app_reference_currency_get_string_list", v, { t, true, false }); v.pop_back(); judge(m, "emv_app_reference_currency_get_string_list", v, { "", false, false }); } });
	add("language lists", 256, [](Mc& m, uint64_t a) { auto name = [](const uint8_t* p) { for (auto& c : LANGUAGES) if (c.a2[0] && (p[0] | 0x20) == c.a2[0] && (p[1] | 0x20) == c.a2[1] && isalpha(p[0]) && isalpha(p[1])) return c.name.substr(0, 127) + "\n"; return std::string("Unknown\n"); };
		for (unsigned b = 0; b < 256; ++b) { Bytes v = { (uint8_t)a, (uint8_t)b }; bool al = isalpha(a) && isalpha(b); judge(m, "emv_language_preference_get_string_list", v, { name(&v[0]), true, !al }); }
		static const char* L[] = { "en", "nl", "EN", "Nl", "ql", "qf", "zz" }; if (a < 7 * 7) { const char *x = L[a % 7], *y = L[a / 7]; Bytes v = { (uint8_t)x[0], (uint8_t)x[1], (uint8_t)y[0], (uint8_t)y[1] }; judge(m, "emv_language_preference_get_string_list", v, { name(&v[0]) + name(&v[2]), true, false }); v.pop_back(); judge(m, "emv_language_preference_get_string_list", v, { "", false, false }); } });
}
static struct Init { Init() { setup_hook = setup; } } init_;
