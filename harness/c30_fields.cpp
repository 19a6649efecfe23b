// C30: how fields are named, classified and valued
#include "strtab.h"
#include <map>
#include <algorithm>
using namespace mc;
struct Field { unsigned tag; enum emv_format_t format; const char* name; const char* how; unsigned max; }; // how: decoder, or format with the largest size it may have (characters or digits; 0 unlimited), or none
static const Field FIELDS[] = {
	{ 0x42, EMV_FORMAT_N, "Issuer Identification Number (IIN)", "N", 6 },
	{ 0x4F, EMV_FORMAT_B, "Application Dedicated File (ADF) Name", "emv_aid_get_string", 0 },
	{ 0x50, EMV_FORMAT_ANS, "Application Label", "ANS", 16 },
	{ 0x56, EMV_FORMAT_ANS, "Track 1 Data", "ANS", 76 },
	{ 0x57, EMV_FORMAT_B, "Track 2 Equivalent Data", "emv_track2_equivalent_data_get_string", 0 },
	{ 0x5A, EMV_FORMAT_CN, "Application Primary Account Number (PAN)", "CN", 19 },
	{ 0x61, EMV_FORMAT_B, "Application Template", "", 0 },
	{ 0x6F, EMV_FORMAT_VAR, "File Control Information (FCI) Template", "", 0 },
	{ 0x70, EMV_FORMAT_VAR, "EMV Data Template", "", 0 },
	{ 0x71, EMV_FORMAT_VAR, "Issuer Script Template 1", "", 0 },
	{ 0x72, EMV_FORMAT_VAR, "Issuer Script Template 2", "", 0 },
	{ 0x73, EMV_FORMAT_VAR, "Directory Discretionary Template", "", 0 },
	{ 0x77, EMV_FORMAT_VAR, "Response Message Template Format 2", "", 0 },
	{ 0x80, EMV_FORMAT_VAR, "Response Message Template Format 1", "", 0 },
	{ 0x81, EMV_FORMAT_B, "Amount, Authorised (Binary)", "emv_amount_get_string", 0 },
	{ 0x82, EMV_FORMAT_B, "Application Interchange Profile (AIP)", "emv_aip_get_string_list", 0 },
	{ 0x83, EMV_FORMAT_VAR, "Command Template", "", 0 },
	{ 0x84, EMV_FORMAT_B, "Dedicated File (DF) Name", "emv_aid_get_string", 0 },
	{ 0x86, EMV_FORMAT_VAR, "Issuer Script Command", "emv_capdu_get_string", 0 },
	{ 0x87, EMV_FORMAT_B, "Application Priority Indicator", "", 0 },
	{ 0x88, EMV_FORMAT_B, "Short File Identifier (SFI)", "", 0 },
	{ 0x89, EMV_FORMAT_ANS, "Authorisation Code", "ANS", 6 },
	{ 0x8A, EMV_FORMAT_AN, "Authorisation Response Code", "emv_auth_response_code_get_string", 0 },
	{ 0x8C, EMV_FORMAT_DOL, "Card Risk Management Data Object List 1 (CDOL1)", "", 0 },
	{ 0x8D, EMV_FORMAT_DOL, "Card Risk Management Data Object List 2 (CDOL2)", "", 0 },
	{ 0x8E, EMV_FORMAT_B, "Cardholder Verification Method (CVM) List", "emv_cvm_list_get_string_list", 0 },
	{ 0x8F, EMV_FORMAT_B, "Certification Authority Public Key (CAPK) Index", "", 0 },
	{ 0x90, EMV_FORMAT_B, "Issuer Public Key Certificate", "", 0 },
	{ 0x91, EMV_FORMAT_B, "Issuer Authentication Data", "emv_issuer_auth_data_get_string_list", 0 },
	{ 0x92, EMV_FORMAT_B, "Issuer Public Key Remainder", "", 0 },
	{ 0x93, EMV_FORMAT_B, "Signed Static Application Data", "", 0 },
	{ 0x94, EMV_FORMAT_VAR, "Application File Locator (AFL)", "emv_afl_get_string_list", 0 },
	{ 0x95, EMV_FORMAT_B, "Terminal Verification Results (TVR)", "emv_tvr_get_string_list", 0 },
	{ 0x9A, EMV_FORMAT_N, "Transaction Date", "emv_date_get_string", 0 },
	{ 0x9B, EMV_FORMAT_B, "Transaction Status Information (TSI)", "emv_tsi_get_string_list", 0 },
	{ 0x9C, EMV_FORMAT_N, "Transaction Type", "emv_transaction_type_get_string", 0 },
	{ 0x9D, EMV_FORMAT_B, "Directory Definition File (DDF) Name", "", 0 },
	{ 0xA5, EMV_FORMAT_VAR, "File Control Information (FCI) Proprietary Template", "", 0 },
	{ 0x5F20, EMV_FORMAT_ANS, "Cardholder Name", "ANS", 26 },
	{ 0x5F24, EMV_FORMAT_N, "Application Expiration Date", "emv_date_get_string", 0 },
	{ 0x5F25, EMV_FORMAT_N, "Application Effective Date", "emv_date_get_string", 0 },
	{ 0x5F28, EMV_FORMAT_N, "Issuer Country Code", "emv_country_numeric_code_get_string", 0 },
	{ 0x5F2A, EMV_FORMAT_N, "Transaction Currency Code", "emv_currency_numeric_code_get_string", 0 },
	{ 0x5F2D, EMV_FORMAT_AN, "Language Preference", "emv_language_preference_get_string_list", 0 },
	{ 0x5F30, EMV_FORMAT_N, "Service Code", "N", 3 },
	{ 0x5F34, EMV_FORMAT_N, "Application Primary Account Number (PAN) Sequence Number", "", 0 },
	{ 0x5F36, EMV_FORMAT_N, "Transaction Currency Exponent", "", 0 },
	{ 0x5F50, EMV_FORMAT_ANS, "Issuer URL", "ANS", 0 },
	{ 0x5F53, EMV_FORMAT_VAR, "International Bank Account Number (IBAN)", "AN", 34 },
	{ 0x5F54, EMV_FORMAT_VAR, "Bank Identifier Code (BIC)", "AN", 11 },
	{ 0x5F55, EMV_FORMAT_A, "Issuer Country Code (alpha2 format)", "A", 2 },
	{ 0x5F56, EMV_FORMAT_A, "Issuer Country Code (alpha3 format)", "A", 3 },
	{ 0x5F57, EMV_FORMAT_N, "Account Type", "emv_account_type_get_string", 0 },
	{ 0x9F01, EMV_FORMAT_N, "Acquirer Identifier", "N", 11 },
	{ 0x9F02, EMV_FORMAT_N, "Amount, Authorised (Numeric)", "N", 12 },
	{ 0x9F03, EMV_FORMAT_N, "Amount, Other (Numeric)", "N", 12 },
	{ 0x9F04, EMV_FORMAT_B, "Amount, Other (Binary)", "emv_amount_get_string", 0 },
	{ 0x9F05, EMV_FORMAT_B, "Application Discretionary Data", "", 0 },
	{ 0x9F06, EMV_FORMAT_B, "Application Identifier (AID) - terminal", "emv_aid_get_string", 0 },
	{ 0x9F07, EMV_FORMAT_B, "Application Usage Control", "emv_app_usage_control_get_string_list", 0 },
	{ 0x9F08, EMV_FORMAT_B, "Application Version Number", "", 0 },
	{ 0x9F09, EMV_FORMAT_B, "Application Version Number - terminal", "", 0 },
	{ 0x9F0A, EMV_FORMAT_B, "Application Selection Registered Proprietary Data (ASRPD)", "emv_asrpd_get_string_list", 0 },
	{ 0x9F0B, EMV_FORMAT_ANS, "Cardholder Name Extended", "ANS", 45 },
	{ 0x9F0C, EMV_FORMAT_N, "Issuer Identification Number Extended (IINE)", "N", 8 },
	{ 0x9F0D, EMV_FORMAT_B, "Issuer Action Code (IAC) - Default", "emv_tvr_get_string_list", 0 },
	{ 0x9F0E, EMV_FORMAT_B, "Issuer Action Code (IAC) - Denial", "emv_tvr_get_string_list", 0 },
	{ 0x9F0F, EMV_FORMAT_B, "Issuer Action Code (IAC) - Online", "emv_tvr_get_string_list", 0 },
	{ 0x9F10, EMV_FORMAT_B, "Issuer Application Data", "emv_iad_get_string_list", 0 },
	{ 0x9F11, EMV_FORMAT_N, "Issuer Code Table Index", "", 0 },
	{ 0x9F12, EMV_FORMAT_ANS, "Application Preferred Name", "ANS", 16 },
	{ 0x9F13, EMV_FORMAT_B, "Last Online Application Transaction Counter (ATC) Register", "", 0 },
	{ 0x9F14, EMV_FORMAT_B, "Lower Consecutive Offline Limit", "", 0 },
	{ 0x9F15, EMV_FORMAT_N, "Merchant Category Code (MCC)", "emv_mcc_get_string", 0 },
	{ 0x9F16, EMV_FORMAT_ANS, "Merchant Identifier", "ANS", 15 },
	{ 0x9F17, EMV_FORMAT_B, "Personal Identification Number (PIN) Try Counter", "", 0 },
	{ 0x9F18, EMV_FORMAT_B, "Issuer Script Identifier", "", 0 },
	{ 0x9F19, EMV_FORMAT_N, "Token Requestor ID", "", 0 },
	{ 0x9F1A, EMV_FORMAT_N, "Terminal Country Code", "emv_country_numeric_code_get_string", 0 },
	{ 0x9F1B, EMV_FORMAT_B, "Terminal Floor Limit", "emv_amount_get_string", 0 },
	{ 0x9F1C, EMV_FORMAT_AN, "Terminal Identification", "AN", 8 },
	{ 0x9F1D, EMV_FORMAT_B, "Terminal Risk Management Data", "emv_terminal_risk_management_data_get_string_list", 0 },
	{ 0x9F1E, EMV_FORMAT_AN, "Interface Device (IFD) Serial Number", "AN", 8 },
	{ 0x9F1F, EMV_FORMAT_ANS, "Track 1 Discretionary Data", "ANS", 0 },
	{ 0x9F20, EMV_FORMAT_CN, "Track 2 Discretionary Data", "CN", 0 },
	{ 0x9F21, EMV_FORMAT_N, "Transaction Time", "emv_time_get_string", 0 },
	{ 0x9F22, EMV_FORMAT_B, "Certification Authority Public Key (CAPK) Index", "", 0 },
	{ 0x9F23, EMV_FORMAT_B, "Upper Consecutive Offline Limit", "", 0 },
	{ 0x9F24, EMV_FORMAT_AN, "Payment Account Reference (PAR)", "AN", 29 },
	{ 0x9F25, EMV_FORMAT_N, "Last 4 Digits of PAN", "N", 4 },
	{ 0x9F26, EMV_FORMAT_B, "Application Cryptogram", "", 0 },
	{ 0x9F27, EMV_FORMAT_B, "Cryptogram Information Data", "emv_cid_get_string_list", 0 },
	{ 0x9F32, EMV_FORMAT_B, "Issuer Public Key Exponent", "", 0 },
	{ 0x9F33, EMV_FORMAT_B, "Terminal Capabilities", "emv_term_caps_get_string_list", 0 },
	{ 0x9F34, EMV_FORMAT_B, "Cardholder Verification Method (CVM) Results", "emv_cvm_results_get_string_list", 0 },
	{ 0x9F35, EMV_FORMAT_N, "Terminal Type", "emv_term_type_get_string_list", 0 },
	{ 0x9F36, EMV_FORMAT_B, "Application Transaction Counter (ATC)", "", 0 },
	{ 0x9F37, EMV_FORMAT_B, "Unpredictable Number", "", 0 },
	{ 0x9F38, EMV_FORMAT_DOL, "Processing Options Data Object List (PDOL)", "", 0 },
	{ 0x9F39, EMV_FORMAT_N, "Point-of-Service (POS) Entry Mode", "emv_pos_entry_mode_get_string", 0 },
	{ 0x9F3A, EMV_FORMAT_B, "Amount, Reference Currency", "emv_amount_get_string", 0 },
	{ 0x9F3B, EMV_FORMAT_N, "Application Reference Currency", "emv_app_reference_currency_get_string_list", 0 },
	{ 0x9F3C, EMV_FORMAT_N, "Transaction Reference Currency", "emv_currency_numeric_code_get_string", 0 },
	{ 0x9F3D, EMV_FORMAT_N, "Transaction Reference Currency Exponent", "", 0 },
	{ 0x9F40, EMV_FORMAT_B, "Additional Terminal Capabilities", "emv_addl_term_caps_get_string_list", 0 },
	{ 0x9F41, EMV_FORMAT_N, "Transaction Sequence Counter", "N", 8 },
	{ 0x9F42, EMV_FORMAT_N, "Application Currency Code", "emv_currency_numeric_code_get_string", 0 },
	{ 0x9F43, EMV_FORMAT_N, "Application Reference Currency Exponent", "", 0 },
	{ 0x9F44, EMV_FORMAT_N, "Application Currency Exponent", "", 0 },
	{ 0x9F45, EMV_FORMAT_B, "Data Authentication Code", "", 0 },
	{ 0x9F46, EMV_FORMAT_B, "Integrated Circuit Card (ICC) Public Key Certificate", "", 0 },
	{ 0x9F47, EMV_FORMAT_B, "Integrated Circuit Card (ICC) Public Key Exponent", "", 0 },
	{ 0x9F48, EMV_FORMAT_B, "Integrated Circuit Card (ICC) Public Key Remainder", "", 0 },
	{ 0x9F49, EMV_FORMAT_DOL, "Dynamic Data Authentication Data Object List (DDOL)", "", 0 },
	{ 0x9F4A, EMV_FORMAT_TAG_LIST, "Static Data Authentication (SDA) Tag List", "", 0 },
	{ 0x9F4C, EMV_FORMAT_B, "Integrated Circuit Card (ICC) Dynamic Number", "", 0 },
	{ 0x9F4D, EMV_FORMAT_B, "Log Entry", "", 0 },
	{ 0x9F4E, EMV_FORMAT_ANS, "Merchant Name and Location", "ANS", 0 },
	{ 0x9F6C, EMV_FORMAT_B, "Card Transaction Qualifiers (CTQ)", "emv_ctq_get_string_list", 0 },
	{ 0xBF0C, EMV_FORMAT_VAR, "File Control Information (FCI) Issuer Discretionary Data", "", 0 },
};
static const std::map<unsigned, const Field*>& fields() { static std::map<unsigned, const Field*> f; if (f.empty()) for (auto& x : FIELDS) f[x.tag] = &x; return f; }
static const Field TTQ = { 0x9F66, EMV_FORMAT_B, "Terminal Transaction Qualifiers (TTQ)", "emv_ttq_get_string_list", 0 }, AMEX_CAPS = { 0x9F6D, EMV_FORMAT_B, "Contactless Reader Capabilities", "emv_amex_cl_reader_caps_get_string", 0 }, THIRD = { 0x9F6E, EMV_FORMAT_B, "Third Party Data", "emv_mastercard_third_party_data_get_string_list", 0 }, FFI = { 0x9F6E, EMV_FORMAT_B, "Form Factor Indicator (FFI)", "emv_visa_form_factor_indicator_get_string_list", 0 }, ENH = { 0x9F6E, EMV_FORMAT_B, "Enhanced Contactless Reader Capabilities", "emv_amex_enh_cl_reader_caps_get_string_list", 0 };
// what the field is; some tags mean different things to different kernels. v null: contents not known
static const Field* what(unsigned tag, size_t len, const uint8_t* v) {
	switch (tag) {
	case 0x9F66: return len == 4 ? &TTQ : nullptr;
	case 0x9F6D: return len == 1 ? &AMEX_CAPS : nullptr;
	case 0x9F6E: if (len > 4 && len <= 32) return &THIRD; if (len != 4 || !v) return nullptr; if (v[0] >> 5 == 1 && !v[2] && !v[3]) return &FFI;
		if ((v[0] & 0x3B) == 0x18 && (v[1] & 0x8F) == 0x80 && !(v[2] & 0x3F) && !(v[3] & 0x18) && v[3] & 7) return &ENH; return nullptr;
	}
	auto i = fields().find(tag); return i == fields().end() ? nullptr : i->second;
}
enum { CAP = 4096 };
static char TXT[CAP], REF[CAP];
static int format(const char* f, unsigned max, const Field& d, const uint8_t* v, size_t n, char* s) {
	bool packed = !strcmp(f, "N") || !strcmp(f, "CN"); if (max && n > (packed ? (max + 1) / 2 : max)) return 1;
	if (d.tag == 0x9F12) { memcpy(s, v, n); s[n] = 0; return 0; }
	const char* fn = !strcmp(f, "A") ? "emv_format_a_get_string" : !strcmp(f, "AN") ? "emv_format_an_get_string" : !strcmp(f, "ANS") ? d.tag == 0x50 ? "emv_format_ans_only_space_get_string" : "emv_format_ans_ccs_get_string" : !strcmp(f, "CN") ? "emv_format_cn_get_string" : "emv_format_n_get_string";
	return render(fn)->fn(v, n, s, CAP);
}
static bool bcd2(const uint8_t* v, size_t n, unsigned& x) { x = 0; for (size_t i = 0; i < n; ++i) { if (v[i] >> 4 > 9 || (v[i] & 15) > 9) return false; x = x * 100 + (v[i] >> 4) * 10 + (v[i] & 15); } return true; }
// 0: text in s; otherwise there is no text to show
static int value(const Field& d, const uint8_t* v, size_t n, char* s) {
	s[0] = 0; if (!*d.how || (!n && d.how[0] == 'e')) return !*d.how ? 0 : -1;
	if (d.tag == 0x84 && ((n == 14 && (!memcmp(v, "1PAY.SYS.DDF01", 14) || !memcmp(v, "2PAY.SYS.DDF01", 14))))) { memcpy(s, v, n); s[n] = 0; return 0; }
	if (!strcmp(d.how, "emv_country_numeric_code_get_string")) { unsigned x; if (n != 2) return 1; if (!bcd2(v, n, x)) return 1; for (auto& r : COUNTRIES) if (strtoul(r.num, nullptr, 10) == x) strcpy(s, r.name.c_str()); return 0; }
	if (!strcmp(d.how, "emv_currency_numeric_code_get_string")) { unsigned x; if (n != 2) return 1; if (!bcd2(v, n, x)) return 1; for (auto& r : CURRENCIES) if (strtoul(r.num, nullptr, 10) == x) strcpy(s, r.name.c_str()); return 0; }
	if (d.tag == 0x5F55 || d.tag == 0x5F56) { for (auto& r : COUNTRIES) { const char* c = d.tag == 0x5F55 ? r.a2 : r.a3; if (strlen(c) == n && !memcmp(c, v, n)) { strcpy(s, r.name.c_str()); return 0; } } return format("A", d.max, d, v, n, s); }
	if (d.how[0] != 'e') return format(d.how, d.max, d, v, n, s);
	return render(d.how)->fn(v, n, s, CAP);
}
static void classify(Mc& m, unsigned tag, size_t len, const struct emv_tlv_info_t& i, const Field* d) {
	if (!d) { if (i.tag_name) m.fail("name", "field %X of %zu bytes is named \"%s\"", tag, len, i.tag_name); if (i.format != EMV_FORMAT_B) m.fail("format", "unknown field %X has format %d", tag, i.format); m.cover("unknown field"); return; }
	if (!i.tag_name || strcmp(i.tag_name, d->name)) m.fail("name", "field %X of %zu bytes is named \"%s\" instead of \"%s\"", tag, len, i.tag_name ? i.tag_name : "", d->name);
	if (i.format != d->format) m.fail("format", "field %X has format %d instead of %d", tag, i.format, d->format); if (!i.tag_desc || !*i.tag_desc) m.fail("description", "field %X has no description", tag); m.cover("known field");
}
static void name(Mc& m, unsigned tag, size_t len) { // as it would be in a list of data objects
	struct emv_tlv_t t; memset(&t, 0, sizeof t); t.tag = tag; t.length = len; struct emv_tlv_info_t i; memset(&i, 0xA5, sizeof i); emv_tlv_get_info(&t, &i, nullptr, 0); m.step(); const Field* d = what(tag, len, nullptr); classify(m, tag, len, i, d); if (d) m.state(hmix(tag, len == 4)); }
static void shown(Mc& m, unsigned tag, const uint8_t* v, size_t n) { // v has exact bounds
	struct emv_tlv_t t; memset(&t, 0, sizeof t); t.tag = tag; t.length = n; t.value = (uint8_t*)v; struct emv_tlv_info_t i; memset(&i, 0xA5, sizeof i); memset(TXT, 0xA5, 64); TXT[CAP - 1] = 0; int r = emv_tlv_get_info(&t, &i, TXT, CAP); m.step(); const Field* d = what(tag, n, v); classify(m, tag, n, i, d); if (m.tracing) m.log("field %X %s: %d \"%s\" \"%s\"", tag, hex(v, n).c_str(), r, i.tag_name ? i.tag_name : "", TXT);
	if (!d) { if (TXT[0]) m.fail("value", "unknown field %X with %s is shown as \"%.60s\"", tag, hex(v, n).c_str(), TXT); if (r <= 0) m.fail("result", "unknown field %X gives %d", tag, r); return; }
	int e = value(*d, v, n, REF);
	if (!n) { if (TXT[0]) m.fail("value", "empty field %X is shown as \"%.60s\"", tag, TXT); return; }
	if (!e && r) m.fail("result", "field %X with %s gives %d", tag, hex(v, n).c_str(), r); if (e && !r && (TXT[0] || *d->how == 'e')) m.fail("result", "field %X with %s gives no error but \"%.60s\"", tag, hex(v, n).c_str(), TXT);
	if (!e && strcmp(TXT, REF)) m.fail("value", "field %X (%s) with %s is shown as \"%.200s\" instead of \"%.200s\"", tag, d->name, hex(v, n).c_str(), TXT, REF); if (e && TXT[0] && strcmp(TXT, REF)) m.fail("value", "field %X with %s is malformed but shown as \"%.60s\"", tag, hex(v, n).c_str(), TXT);
	if (!e) m.state(std::_Hash_bytes(TXT, strlen(TXT), tag)); m.cover(e ? "malformed value" : TXT[0] ? "value with text" : "value without text");
	struct emv_tlv_info_t j; memset(&j, 0x5A, sizeof j); emv_tlv_get_info(&t, &j, nullptr, 0); classify(m, tag, n, j, d);
}
static void show(Mc& m, unsigned tag, const Bytes& v) { Buf b(v); shown(m, tag, b.p(), b.n()); }
static const std::vector<Bytes> SAMPLES = { { 0x18, 0x01, 0x02, 0x01, 0x20, 0x02, 0x04, 0x00 }, { 0x00, 0x00, 0x03, 0xE8, 0x00, 0x00, 0x07, 0xD0, 0x42, 0x06, 0x1E, 0x03 }, { '1', 'P', 'A', 'Y', '.', 'S', 'Y', 'S', '.', 'D', 'D', 'F', '0', '1' }, { '2', 'P', 'A', 'Y', '.', 'S', 'Y', 'S', '.', 'D', 'D', 'F', '0', '1' }, { '3', 'P', 'A', 'Y', '.', 'S', 'Y', 'S', '.', 'D', 'D', 'F', '0', '1' }, { '1', 'P', 'A', 'Y', '.', 'S', 'Y', 'S', '.', 'D', 'D', 'F', '0' }, { '1', 'P', 'A', 'Y', '.', 'S', 'Y', 'S', '.', 'D', 'D', 'F', '0', '1', '0' },
	{ 0xA0, 0x00, 0x00, 0x00, 0x03, 0x10, 0x10 }, { 0xA0, 0x00, 0x00, 0x00, 0x04, 0x10, 0x10, 0x01 }, { 0x47, 0x61, 0x73, 0x90, 0x01, 0x01, 0x00, 0x10, 0xD2, 0x21, 0x22, 0x01, 0x17, 0x58, 0x92, 0x88, 0x89 }, { 0x84, 0x24, 0x00, 0x00, 0x04, 1, 2, 3, 4 }, { 0x80, 0xCA, 0x9F, 0x36, 0x00 }, { 0x00, 0xA4, 0x04, 0x00, 0x02, 0x3F, 0x00, 0x00 }, { 'e', 'n', 'n', 'l' }, { 'N', 'L' }, { 'N', 'L', 'D' }, { 'Z', 'A' }, { 'Z', 'A', 'F' }, { 'X', 'Y' }, { 'X', 'Y', 'Z' }, { 0x05, 0x28 }, { 0x07, 0x10 }, { 0x09, 0x78 }, { 0x08, 0x40 }, { 0x59, 0x99 }, { 0x08, 0x28, 0x09, 0x78 }, { '0', '0' }, { 'Z', '3' }, { 0x06, 0x01, 0x0A, 0x03, 0xA4, 0x80, 0x00 }, { 0x06, 0x0F, 0x0A, 0x01, 0x03, 0xA4, 0xA0, 0x00, 0x09, 0x02, 0x10, 0x00, 0x00, 0x00, 0x00, 0x1C, 0x21, 0xC2, 0xA2 }, { 0x01, 0x10, 0xA0, 0x00, 0x03, 0x24, 0x20, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0xFF }, { 0x12, 0x34, 0x56, 0x78, 0x9A, 0xBC, 0xDE, 0xF0, 0x00, 0x86 }, { 0x30, 0x24, 0x01, 0x01, 0x00 }, { 0x23, 0x59, 0x59 }, { 0x25, 0x12, 0x31 }, { 0x76, 0x10, 0x01, 0x07, 0xFF }, { 0x05, 0x28, 0x00, 0x01, '0', '1' }, { 0x00, 0x01, 0x04, 0xAA, 0xBB, 0xCC, 0xDD }, { 0x32, 0x00, 0x40, 0x00 }, { 0x20, 0x00, 0x00, 0x00 }, { 0xD8, 0xE0, 0x80, 0x03 }, { 0x12, 0x00, 0x03 }, { 0x41, 0x03, 0x02 }, { 'A', 'z', '0', ' ' }, { 'A', ' ', 'b', '-' }, { 0x12, 0x3F, 0xFF } };
static void setup() {
	static bool th = !strcmp(getenv("MC_TIER"), "thorough"); load_codes();
	add("tags, up to three bytes", 4096, [](Mc& m, uint64_t k) { for (unsigned t = k << 12; t < ((k + 1) << 12); ++t) { name(m, t, 3); if (th || t < 0x10000) for (size_t n : { 0u, 1u, 2u, 4u, 5u, 6u, 32u, 33u, 255u }) name(m, t, n); } });
	static std::vector<unsigned> T = all_tags(); for (auto& f : FIELDS) T.push_back(f.tag); std::sort(T.begin(), T.end()); T.erase(std::unique(T.begin(), T.end()), T.end());
	add("tags, longer", T.size(), [](Mc& m, uint64_t k) { unsigned t = T[k]; for (unsigned x : { 0x01u, 0x1Fu, 0x7Fu, 0x80u, 0x9Fu, 0xDFu, 0xFFu }) for (unsigned y : { t | x << 16, t | x << 24, t << 8 | x, t << 16 | x, t << 16 | t, t << 24 | t }) for (size_t n : { 0u, 1u, 3u, 4u, 16u }) name(m, y, n); });
	add("values, samples", T.size(), [](Mc& m, uint64_t k) { for (auto& v : SAMPLES) { show(m, T[k], v); if (fields().count(T[k]) || T[k] >= 0x9F60) for (size_t n = 0; n < v.size(); ++n) show(m, T[k], Bytes(v.begin(), v.begin() + n)); } });
	static std::vector<unsigned> K; for (auto& f : FIELDS) K.push_back(f.tag); for (unsigned t : { 0x9F66u, 0x9F6Du, 0x9F6Eu, 0x9F6Bu, 0xC1u, 0xDF01u }) K.push_back(t);
	add("values, uniform", K.size() * 32, [](Mc& m, uint64_t k) { for (unsigned x = k % 32; x < 256; x += 32) for (size_t n = 0; n <= 80; ++n) { show(m, K[k / 32], Bytes(n, x)); if (n > 1) { Bytes v(n, x); v[n - 1] = 'F'; show(m, K[k / 32], v); } } });
	add("values, long", K.size(), [](Mc& m, uint64_t k) { for (unsigned x : { 0x00, 0x12, 0x20, 0x41, 0xFF }) for (size_t n = 70; n < 520; ++n) show(m, K[k], Bytes(n, x)); });
	add("values, one byte", K.size() * 4, [](Mc& m, uint64_t k) { for (unsigned x = k % 4; x < 256; x += 4) for (size_t n = 1; n <= 8; ++n) for (unsigned bg : { 0x00, 0x30, 0x41 }) for (size_t at = 0; at < n; ++at) { Bytes v(n, bg); v[at] = x; show(m, K[k / 4], v); } });
	add("values, two bytes", K.size() * 16, [](Mc& m, uint64_t k) { Buf b(Bytes(2, 0)); for (unsigned x = k % 16; x < 256; x += 16) for (unsigned y = 0; y < 256; ++y) { b.p()[0] = x; b.p()[1] = y; shown(m, K[k / 16], b.p(), 2); } });
	add("values, letters", 27 * 27, [](Mc& m, uint64_t k) { Bytes v{ (uint8_t)('@' + k / 27), (uint8_t)('@' + k % 27) }; for (unsigned t : { 0x5F55u, 0x5F56u, 0x5F2Du, 0x50u, 0x9F12u }) { show(m, t, v); for (unsigned z = '@'; z <= 'Z'; ++z) { v.push_back(z); show(m, t, v); v.pop_back(); } } });
	add("kernel tags", 256, [](Mc& m, uint64_t x) { static const std::vector<unsigned> V = { 0x00, 0x01, 0x02, 0x04, 0x07, 0x08, 0x10, 0x18, 0x20, 0x3F, 0x40, 0x80, 0x90, 0xC0, 0xE0, 0xFF }; Buf b(Bytes(4, 0)); uint8_t* p = b.p(); for (unsigned at = 0; at < 4; ++at) for (unsigned i : V) for (unsigned j : V) for (unsigned l : V) { unsigned o = 0; uint8_t w[3] = { (uint8_t)i, (uint8_t)j, (uint8_t)l }; for (unsigned q = 0; q < 4; ++q) p[q] = q == at ? x : w[o++]; shown(m, 0x9F6E, p, 4); if (i == 0x10) shown(m, 0x9F66, p, 4); }
		for (unsigned y = 0; y < 256; ++y) { p[0] = 0xD8; p[1] = 0xE0; p[2] = x; p[3] = y; shown(m, 0x9F6E, p, 4); p[0] = x; p[1] = y; p[2] = 0; p[3] = 1; shown(m, 0x9F6E, p, 4); p[3] = 0; shown(m, 0x9F6E, p, 4); } });
}
static struct Init { Init() { setup_hook = setup; } } init_;
