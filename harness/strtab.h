// All functions that render a field as text, under one signature, and a small set of code lists
#pragma once
#include "mc.h"
#include <emv_strings.h>
#include <emv_tlv.h>
#include <emv_tags.h>
#include <emv.h>
#include <iso7816.h>
#include <iso7816_strings.h>
#include <iso7816_compact_tlv.h>
#include <sys/stat.h>
#include <unistd.h>
typedef std::vector<uint8_t> Bytes;
struct Render { const char* name; int len; unsigned maxlen; bool list; int (*fn)(const uint8_t*, size_t, char*, size_t); }; // len: field length, -1 variable, 0: single byte parameter
#define RL(n, l, mx) { #n, l, mx, true, [](const uint8_t* p, size_t k, char* s, size_t c) -> int { return n(p, k, s, c); } }
#define RS(n, l, mx) { #n, l, mx, false, [](const uint8_t* p, size_t k, char* s, size_t c) -> int { return n((const uint8_t*)p, k, s, c); } }
#define RB(n, lst) { #n, 0, 1, lst, [](const uint8_t* p, size_t, char* s, size_t c) -> int { return n(*p, s, c); } }
static const Render RENDER[] = {
	RS(emv_format_a_get_string, -1, 12), RS(emv_format_an_get_string, -1, 12), RS(emv_format_ans_only_space_get_string, -1, 12), RS(emv_format_ans_ccs_get_string, -1, 12), RS(emv_format_cn_get_string, -1, 12), RS(emv_format_n_get_string, -1, 12),
	RS(emv_amount_get_string, 4, 6), RS(emv_date_get_string, 3, 5), RS(emv_time_get_string, 3, 5), RB(emv_transaction_type_get_string, false), RS(emv_mcc_get_string, 2, 4),
	RB(emv_term_type_get_string_list, true), RL(emv_term_caps_get_string_list, 3, 5), RB(emv_pos_entry_mode_get_string, false), RL(emv_addl_term_caps_get_string_list, 5, 7),
	RS(emv_aid_get_string, -1, 18), RL(emv_asrpd_get_string_list, -1, 14), RL(emv_aip_get_string_list, 2, 4), RL(emv_afl_get_string_list, -1, 14), RL(emv_app_usage_control_get_string_list, 2, 4),
	RS(emv_track2_equivalent_data_get_string, -1, 22), RL(emv_app_reference_currency_get_string_list, -1, 10), RL(emv_language_preference_get_string_list, -1, 10), RB(emv_account_type_get_string, false),
	RL(emv_cvm_list_get_string_list, -1, 16), RL(emv_cvm_results_get_string_list, 3, 5), RL(emv_tvr_get_string_list, 5, 7), RL(emv_tsi_get_string_list, 2, 4), RB(emv_cid_get_string_list, true), RL(emv_iad_get_string_list, -1, 34),
	RL(emv_terminal_risk_management_data_get_string_list, 8, 10), RL(emv_ttq_get_string_list, 4, 6), RL(emv_ctq_get_string_list, 2, 4), RB(emv_amex_cl_reader_caps_get_string, false), RL(emv_mastercard_third_party_data_get_string_list, -1, 34), RL(emv_visa_form_factor_indicator_get_string_list, 4, 6), RL(emv_amex_enh_cl_reader_caps_get_string_list, 4, 6),
	RS(emv_auth_response_code_get_string, 2, 4), RL(emv_issuer_auth_data_get_string_list, -1, 18), RS(emv_capdu_get_string, -1, 12),
	{ "iso7816_capdu_get_string", -1, 12, false, [](const uint8_t* p, size_t k, char* s, size_t c) -> int { const char* r = iso7816_capdu_get_string(p, k, s, c); return r ? (r == s ? 0 : 98) : -1; } },
	{ "iso7816_sw1sw2_get_string", 2, 2, false, [](const uint8_t* p, size_t k, char* s, size_t c) -> int { if (k < 2) return -1; const char* r = iso7816_sw1sw2_get_string(p[0], p[1], s, c); return r ? (r == s ? 0 : 98) : -1; } },
	RB(iso7816_card_service_data_get_string_list, true), RL(iso7816_card_capabilities_get_string_list, -1, 5),
};
static const unsigned NRENDER = sizeof RENDER / sizeof *RENDER;
inline const Render* render(const char* n) { for (auto& r : RENDER) if (!strcmp(r.name, n)) return &r; fprintf(stderr, "no %s\n", n); abort(); }
// Code lists: some with names longer than any fixed size buffer and with formatting characters
static const std::string LONG_NAME(300, 'L');
struct CodeRow { const char *a2, *a3, *num; std::string name; };
static const std::vector<CodeRow> COUNTRIES = { { "NL", "NLD", "528", "Netherlands" }, { "ZA", "ZAF", "710", "South Africa" }, { "CI", "CIV", "384", "C\xC3\xB4te d'Ivoire" }, { "QL", "QLL", "901", LONG_NAME }, { "QF", "QFF", "999", "100%s %n of 5%d" }, { "QZ", "QZZ", "000", "Zero" }, { "QB", "QBB", "052", "Fifty-two" }, { "QC", "QCC", "002", "Two" } };
static const std::vector<CodeRow> CURRENCIES = { { "", "EUR", "978", "Euro" }, { "", "ZAR", "710", "Rand" }, { "", "QLL", "901", LONG_NAME }, { "", "QFF", "999", "50%s %n" }, { "", "QBB", "052", "Fifty-two" }, { "", "QCC", "002", "Two" } };
static const std::vector<CodeRow> LANGUAGES = { { "en", "eng", "", "English" }, { "nl", "nld", "", "Dutch; Flemish" }, { "", "ace", "", "Achinese" }, { "ql", "qll", "", LONG_NAME }, { "qf", "qff", "", "%s%n" } };
struct MccRow { const char* mcc; std::string name; };
static const std::vector<MccRow> MCCS = { { "0742", "Veterinary Services" }, { "5999", "Miscellaneous and Specialty Retail Stores" }, { "9999", LONG_NAME }, { "0001", "%s%n%d" }, { "8099", "Doctors" } };
inline void write_file(const std::string& p, const std::string& s) { std::string t = p + "." + std::to_string(getpid()); FILE* f = fopen(t.c_str(), "w"); if (!f) { perror(t.c_str()); abort(); } fwrite(s.data(), 1, s.size(), f); fclose(f); rename(t.c_str(), p.c_str()); }
inline std::string code_json(const char* root, const std::vector<CodeRow>& rows) { std::string j = std::string("{\"") + root + "\":["; for (size_t i = 0; i < rows.size(); ++i) { auto& r = rows[i]; j += i ? ",{" : "{"; if (*r.a2) j += std::string("\"alpha_2\":\"") + r.a2 + "\","; j += std::string("\"alpha_3\":\"") + r.a3 + "\""; if (*r.num) j += std::string(",\"numeric\":\"") + r.num + "\""; j += ",\"name\":\"" + r.name + "\"}"; } return j + "]}"; }
inline std::string mcc_json(const std::vector<MccRow>& rows) { std::string j = "["; for (size_t i = 0; i < rows.size(); ++i) j += std::string(i ? "," : "") + "{\"mcc\":\"" + rows[i].mcc + "\",\"edited_description\":\"" + rows[i].name + "\"}"; return j + "]"; }
inline void load_codes() {
	std::string d = std::string(getenv("MC_SCRATCH")) + "/codes"; mkdir(d.c_str(), 0777);
	write_file(d + "/iso_3166-1.json", code_json("3166-1", COUNTRIES)); write_file(d + "/iso_4217.json", code_json("4217", CURRENCIES)); write_file(d + "/iso_639-2.json", code_json("639-2", LANGUAGES)); write_file(d + "/mcc.json", mcc_json(MCCS));
	int r = emv_strings_init(d.c_str(), (d + "/mcc.json").c_str()); if (r) { fprintf(stderr, "code lists could not be loaded (%d)\n", r); abort(); }
}
// Tags that may have an entry: all one-byte tags and the two-byte tags EMV uses
inline std::vector<unsigned> all_tags() { std::vector<unsigned> t; for (unsigned i = 1; i < 256; ++i) if ((i & 0x1F) != 0x1F) t.push_back(i); for (unsigned h : { 0x5F, 0x7F, 0x9F, 0xBF, 0xDF, 0xFF }) for (unsigned i = 0; i < 0x80; ++i) t.push_back(h << 8 | i); return t; }
