// C28: what the tools print. emv-decode's main() is executed in-process with every command line of the
// spaces below; standard input, output and error are captured, its variables reset between executions.
#include "strtab.h"
#include "refber.h"
#include <setjmp.h>
#include <argp.h>
#include <stdio_ext.h>
#include <sys/wait.h>
#include <poll.h>
#include <fcntl.h>
#include <deque>
#include <memory>
#include <map>
#include <algorithm>
#include <isocodes_lookup.h>
#include <iso8859.h>
#include <iso8825_ber.h>
#include <emv_dol.h>
#include <emv_app.h>
extern "C" {
#include <print_helpers.h>
int decode_main(int, char**);
extern char __start_decbss[] __attribute__((weak)), __stop_decbss[] __attribute__((weak)), __start_decdata[] __attribute__((weak)), __stop_decdata[] __attribute__((weak));
void __real_exit(int) __attribute__((noreturn));
void __real_argp_error(const struct argp_state*, const char*, ...);
void __real_argp_usage(const struct argp_state*);
int __real_emv_strings_init(const char*, const char*);
}
using namespace mc;
#define ATR_WORLD_ONLY
static void atr_add(const char* n, uint64_t o, SpaceFn f, uint32_t sp = 1);
#define add atr_add
#define render render_atr
#include "c06_atr.cpp"
#undef add
#undef render
#undef setup
static void atr_add(const char* n, uint64_t o, SpaceFn f, uint32_t sp) { if (strstr(n, "values") && !strstr(n, "TD")) return; if (!strcmp(n, "value pairs") && strcmp(getenv("MC_TIER"), "thorough")) return; add((std::string("ATR ") + n).c_str(), o, f, sp); }

#define TOOL_MAIN decode_main
#define TOOL_NAME "emv-decode"
#include "inproc.h"

// --- expected output: exact text, and places where a problem must be mentioned
struct Seg { int kind; std::string s; long off = -1; }; // kind 0 exact text, 1 mention of an error with these bytes (hex) and offset, 2 anything
struct Exp { std::vector<Seg> v; bool deep = false;
	void t(const std::string& s) { if (v.empty() || v.back().kind) v.push_back({0, ""}); v.back().s += s; }
	void e(const std::string& hexbytes, long off) { v.push_back({1, hexbytes, off}); } void any() { v.push_back({2, ""}); } };
static bool mentions_error(const std::string& s) { std::string l; for (char c : s) l += tolower(c); for (const char* w : { "error", "invalid", "fail", "malformed", "truncat", "unable", "cannot", "exceed", "incomplete" }) if (l.find(w) != std::string::npos) return true; return false; }
static bool has_number(const std::string& s, long n) { std::string d = std::to_string(n); for (size_t p = s.find(d); p != std::string::npos; p = s.find(d, p + 1)) if ((!p || !isdigit(s[p - 1])) && (p + d.size() >= s.size() || !isdigit(s[p + d.size()]))) return true; return false; }
static void match(Mc& m, const std::string& what, const std::string& out, const Exp& x) {
	size_t p = 0;
	for (size_t i = 0; i < x.v.size(); ++i) { const Seg& g = x.v[i];
		if (!g.kind) { if (out.compare(p, g.s.size(), g.s)) { size_t k = 0; while (k < g.s.size() && p + k < out.size() && out[p + k] == g.s[k]) ++k; m.fail("output", "%s: printed \"%s\" where \"%s\" is expected", what.c_str(), cut(out, p + k).c_str(), cut(g.s, k).c_str()); } p += g.s.size(); continue; }
		if (x.deep && i + 1 == x.v.size()) break;
		size_t e = out.size(); if (i + 1 < x.v.size()) { e = out.find(x.v[i + 1].s, p); if (e == std::string::npos) m.fail("output", "%s: \"%s\" is missing from \"%s\"", what.c_str(), cut(x.v[i + 1].s).c_str(), cut(out, p).c_str()); }
		std::string b = out.substr(p, e - p); p = e; if (g.kind == 2) continue;
		std::string nosp; for (char c : b) if (!isspace((uint8_t)c)) nosp += toupper(c); std::string h = g.s;
		if (!mentions_error(b) || nosp.find(h) == std::string::npos || (g.off >= 0 && !has_number(b, g.off))) m.fail("damage", "%s: the invalid data %s at offset %ld is reported as \"%s\"", what.c_str(), h.c_str(), g.off, cut(b).c_str());
	}
	if (x.deep) { if (!mentions_error(out.substr(p))) m.fail("deep", "%s: output just ends", what.c_str()); return; }
	if (p != out.size()) m.fail("output", "%s: printed \"%s\" beyond what is expected", what.c_str(), cut(out, p).c_str());
}
static std::string pre(unsigned d) { return std::string(2 * d, ' '); }
static std::string f(const char* fmt, ...) { char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
static bool is_list(const char* s) { size_t n = strlen(s); return n && s[n - 1] == '\n'; }
static void list_lines(Exp& x, const char* s, unsigned d) { std::string l; for (; *s; ++s) if (*s == '\n') { if (!l.empty()) x.t(pre(d) + "- " + l + "\n"); l.clear(); } else l += *s; if (!l.empty()) x.t(pre(d) + "- " + l + "\n"); }
static void tag_info(emv_tlv_info_t& i, unsigned tag, unsigned len) { emv_tlv_t t; memset(&t, 0, sizeof t); t.tag = tag; t.length = len; emv_tlv_get_info(&t, &i, nullptr, 0); }
static void exp_dol(Exp& x, const uint8_t* b, size_t n, unsigned d) {
	x.t(pre(d) + "Data Object List:\n"); size_t p = 0;
	while (p < n) { uint64_t tag; int k = ref_tag(b + p, n - p, tag); if (k < 0 || p + k >= n) { x.e(hex(b + p, n - p), -1); x.t("\n"); return; }
		emv_tlv_info_t i; tag_info(i, tag, b[p + k]); x.t(pre(d + 1) + f("%02X", (unsigned)tag) + (i.tag_name ? std::string(" | ") + i.tag_name : "") + f(" [%u]\n", b[p + k])); p += k + 1; }
}
static void exp_tags(Exp& x, const uint8_t* b, size_t n, unsigned d) {
	x.t(pre(d) + "Tag List:\n"); size_t p = 0;
	while (p < n) { uint64_t tag; int k = ref_tag(b + p, n - p, tag); if (k < 0) { x.e(hex(b + p, n - p), -1); x.t("\n"); return; }
		emv_tlv_info_t i; tag_info(i, tag, 0); x.t(pre(d + 1) + f("%02X", (unsigned)tag) + (i.tag_name ? std::string(" | ") + i.tag_name : "") + "\n"); p += k; }
}
static const unsigned DEPTH = 64; // deeper data may be refused
// one primitive field after its "tag : [len]"
static void exp_value(Exp& x, bool emv, const RefTlv& t, const uint8_t* v, const emv_tlv_info_t& i, const char* vs, unsigned d) {
	std::string h; for (size_t k = 0; k < t.len; ++k) h += f(" %02X", v[k]); x.t(h);
	if (!emv) {
		iso8825_tlv_t tl; memset(&tl, 0, sizeof tl); tl.tag = t.tag; iso8825_oid_t o;
		if (iso8825_ber_is_string(&tl)) { x.t(" \""); if (t.len > 1000) x.any(); else x.t(std::string((const char*)v, strnlen((const char*)v, t.len))); x.t("\"\n"); }
		else if (t.tag == 6) { if (t.len && !iso8825_ber_oid_decode(v, t.len, &o)) { std::string s; for (unsigned k = 0; k < o.length; ++k) s += f("%s%u", k ? " " : "", o.value[k]); x.t(" {" + s + "}\n"); } else { x.e("", -1); x.t("\n"); } }
		else x.t("\n");
		return;
	}
	if (strlen(vs) > 20000) { x.any(); return; } // no field of a size EMV allows has so much to say
	if (*vs && !is_list(vs)) { bool q = i.format == EMV_FORMAT_A || i.format == EMV_FORMAT_AN || i.format == EMV_FORMAT_ANS; x.t(std::string(q ? " \"" : " (") + vs + (q ? "\"\n" : ")\n")); return; }
	x.t("\n"); list_lines(x, vs, d + 1);
	if (i.format == EMV_FORMAT_DOL) exp_dol(x, v, t.len, d + 1);
	if (i.format == EMV_FORMAT_TAG_LIST) exp_tags(x, v, t.len, d + 1);
}
static char vs_buf[1 << 17];
// returns how many bytes of b are good; less than n ends all output
static size_t walk(Exp& x, bool emv, bool pad, const uint8_t* b, size_t n, unsigned d, size_t base) {
	size_t p = 0;
	if (d > DEPTH) { x.any(); x.deep = true; return 0; }
	for (;;) {
		RefTlv t; long r = ref_ber(b + p, n - p, t); if (!r) return n;
		if (r < 0) {
			size_t left = n - p;
			if (pad && ((n % 8 == 0 && left < 8) || (n % 16 == 0 && left < 16))) { std::string h; for (size_t k = p; k < n; ++k) h += f(" %02X", b[k]); x.t(pre(d) + f("Padding : [%zu]", left) + h + "\n"); return n; }
			return p;
		}
		const uint8_t* v = b + p + t.off; emv_tlv_info_t i; memset(&i, 0, sizeof i); *vs_buf = 0;
		if (emv) { emv_tlv_t e; memset(&e, 0, sizeof e); e.tag = t.tag; e.length = t.len; e.value = (uint8_t*)v; e.ber.flags = b[p] & 0xE0; emv_tlv_get_info(&e, &i, vs_buf, sizeof vs_buf); }
		x.t(pre(d) + f("%02X", (unsigned)t.tag) + (emv && i.tag_name ? std::string(" | ") + i.tag_name : "") + f(" : [%u]", (unsigned)t.len));
		if (!t.cons) exp_value(x, emv, t, v, i, vs_buf, d);
		else { x.t("\n"); size_t g = walk(x, emv, pad, v, t.len, d + 1, base + p + t.off); if (x.deep) return 0; if (g < t.len) return p + t.off + g; }
		p += r;
	}
}
static Exp expect_tlv(bool emv, bool pad, const Bytes& v) { Exp x; size_t g = walk(x, emv, pad, v.data(), v.size(), 0, 0); if (g < v.size() && !x.deep) x.e(hex(v.data() + g, v.size() - g), (long)g); return x; }
static uint64_t shape(const std::string& s) { uint64_t h = s.size(); for (size_t i = 0; i < s.size(); ++i) if (i == 0 || s[i - 1] == '\n') h = hash(s.data() + i, std::min<size_t>(12, s.size() - i), h); return h; }
static void check_tlv(Mc& m, const Bytes& v, bool emv, bool pad, int via = 0) { // via: 0 hex, 1 stdin, 2 lower case hex with spaces
	if (v.empty()) { m.skip(); return; }
	Args a; if (pad) a.push_back("--ignore-padding"); a.push_back(emv ? "--tlv" : "--ber"); std::string in((const char*)v.data(), v.size());
	if (via == 1) a.push_back("-"); else if (via == 2) { std::string h = hex(v), o = " "; for (size_t i = 0; i < h.size(); ++i) { if (i && i % 2 == 0) o += "\t \n"[i / 2 % 3]; o += tolower(h[i]); if (i % 6 == 0) o += ' '; } a.push_back(o); } else a.push_back(hex(v));
	Res r = run(m, a, via == 1 ? &in : nullptr); std::string w = "emv-decode " + show(a) + (via == 1 ? " < " + hex(v.data(), std::min<size_t>(v.size(), 60)) : "");
	Exp x = expect_tlv(emv, pad, v);
	match(m, w, r.out, x); if (!r.err.empty()) m.fail("stderr", "%s: error output \"%s\"", w.c_str(), cut(r.err).c_str());
	bool bad = x.v.size() && x.v.back().kind == 1; m.cover(x.deep ? "too deep" : bad ? "damaged data" : r.out.find("Padding :") != std::string::npos ? "padding" : "valid data"); m.state(shape(r.out));
}
static void reject(Mc& m, const Args& a, const Res& r) { if (!r.out.empty() || r.err.empty()) m.fail("rejected", "emv-decode %s: must be refused with an explanation but printed \"%s\" and \"%s\"", show(a).c_str(), cut(r.out).c_str(), cut(r.err).c_str()); m.cover("refused"); m.state(hash(r.err)); }
static void accept(Mc& m, const Args& a, const Res& r, const std::string& out) { if (r.out != out || !r.err.empty() || r.status) { size_t k = 0; while (k < out.size() && k < r.out.size() && out[k] == r.out[k]) ++k; m.fail("output", "emv-decode %s: printed \"%s\" (error output \"%s\", status %d) where \"%s\" is expected", show(a).c_str(), cut(r.out, k).c_str(), cut(r.err).c_str(), r.status, cut(out, k).c_str()); } m.state(hash(out)); }

// --- ATR
static Exp expect_atr(const Bytes& v, const RefAtr& R, const iso7816_atr_info_t& i) {
	Exp x; char s[4096]; x.t("ATR: " + hex(v) + "\n"); 
	x.t(f("  TS  = 0x%02X: ", v[0]) + iso7816_atr_TS_get_string(&i) + "\n" + f("  T0  = 0x%02X: ", v[1]) + iso7816_atr_T0_get_string(&i, s, sizeof s) + "\n");
	for (int k = 1; k < 5; ++k) {
		if (k < 3 || R.ta[k] >= 0 || R.tb[k] >= 0 || R.tc[k] >= 0 || R.td[k] >= 0) x.t("  ----\n");
		auto one = [&](char c, int off, const char* (*fn)(const iso7816_atr_info_t*, size_t, char* const, size_t), bool always) { if (off >= 0) x.t(f("  T%c%d = 0x%02X: ", c, k, v[off]) + fn(&i, k, s, sizeof s) + "\n"); else if (always) x.t(f("  T%c%d absent: ", c, k) + fn(&i, k, s, sizeof s) + "\n"); };
		one('A', R.ta[k], [](const iso7816_atr_info_t* a, size_t b, char* const c, size_t d) { return iso7816_atr_TAi_get_string(a, b, c, d); }, k < 3); one('B', R.tb[k], [](const iso7816_atr_info_t* a, size_t b, char* const c, size_t d) { return iso7816_atr_TBi_get_string(a, b, c, d); }, k < 3);
		one('C', R.tc[k], [](const iso7816_atr_info_t* a, size_t b, char* const c, size_t d) { return iso7816_atr_TCi_get_string(a, b, c, d); }, k < 3); one('D', R.td[k], [](const iso7816_atr_info_t* a, size_t b, char* const c, size_t d) { return iso7816_atr_TDi_get_string(a, b, c, d); }, false);
	}
	if (R.K) {
		x.t(f("  ----\n  T1  = 0x%02X: ", R.T1) + iso7816_atr_T1_get_string(&i) + "\n"); const uint8_t* h = v.data() + R.hist;
		if (R.T1 != 0 && R.T1 != 0x80) { if (R.hist_len) x.t("  Historical bytes: " + hex(h, R.hist_len) + "\n"); else x.any(); }
		else for (size_t p = 0; p < R.hist_len; p += 1 + (h[p] & 15)) { unsigned tag = h[p] >> 4, len = h[p] & 15; const uint8_t* o = h + p + 1;
			x.t(f("  %s (0x%X): [%u] ", iso7816_compact_tlv_tag_get_string(tag), tag, len)); for (unsigned k = 0; k < len; ++k) x.t(f("%s%02X", k ? " " : "", o[k])); x.t("\n"); *s = 0;
			if (tag == 3 && len == 1 && !iso7816_card_service_data_get_string_list(o[0], s, sizeof s)) list_lines(x, s, 2);
			if (tag == 7 && !iso7816_card_capabilities_get_string_list(o, len, s, sizeof s)) list_lines(x, s, 2); }
		if (R.loose_si) x.any();
		else if (R.si >= 0) { x.t(f("  ----\n  LCS = %02X: ", R.lcs) + iso7816_lcs_get_string(R.lcs) + "\n"); if (R.sw1 || R.sw2) x.t(f("  SW  = %02X%02X: (", R.sw1, R.sw2) + iso7816_sw1sw2_get_string(R.sw1, R.sw2, s, sizeof s) + ")\n"); }
	}
	x.t(f("  ----\n  TCK = 0x%02X\n", R.tck)); return x;
}
static void judge(Mc& m, const Bytes& v) {
	if (v.empty()) { m.skip(); return; }
	Args a{ "--atr", hex(v) }; RefAtr R = ref_atr(v.data(), v.size()); Res r = run(m, a); if (!R.ok) return reject(m, a, r);
	iso7816_atr_info_t i; if (iso7816_atr_parse(v.data(), v.size(), &i)) m.fail("atr", "the library refuses ATR %s", hex(v).c_str());
	match(m, "emv-decode " + show(a), r.out, expect_atr(v, R, i)); if (!r.err.empty()) m.fail("stderr", "emv-decode %s: error output \"%s\"", show(a).c_str(), cut(r.err).c_str()); m.cover("ATR"); m.state(shape(r.out));
}
// --- single fields
struct Opt { const char *opt, *alias; unsigned min, max; const char* fn; bool list; };
static const Opt OPTS[] = {
	{ "mcc", "9F15", 2, 2, "emv_mcc_get_string", false }, { "term-type", "9F35", 1, 1, "emv_term_type_get_string_list", true }, { "term-caps", "9F33", 3, 3, "emv_term_caps_get_string_list", true }, { "addl-term-caps", "9F40", 5, 5, "emv_addl_term_caps_get_string_list", true },
	{ "cvm-list", "8E", 1, 252, "emv_cvm_list_get_string_list", true }, { "cvm-results", "9F34", 3, 3, "emv_cvm_results_get_string_list", true }, { "tvr", "95", 5, 5, "emv_tvr_get_string_list", true }, { "tsi", "9B", 2, 2, "emv_tsi_get_string_list", true },
	{ "issuer-app-data", "9F10", 1, 32, "emv_iad_get_string_list", true }, { "ttq", "9F66", 4, 4, "emv_ttq_get_string_list", true }, { "ctq", "9F6C", 2, 2, "emv_ctq_get_string_list", true }, { "amex-cl-reader-caps", "9F6D", 1, 1, "emv_amex_cl_reader_caps_get_string", false },
	{ "mastercard-third-party-data", nullptr, 5, 32, "emv_mastercard_third_party_data_get_string_list", true }, { "visa-ffi", nullptr, 4, 4, "emv_visa_form_factor_indicator_get_string_list", true }, { "amex-enh-cl-reader-caps", nullptr, 4, 4, "emv_amex_enh_cl_reader_caps_get_string_list", true },
	{ "terminal-risk-management-data", "9F1D", 8, 8, "emv_terminal_risk_management_data_get_string_list", true },
};
static const unsigned NOPT = sizeof OPTS / sizeof *OPTS;
static void check_field(Mc& m, const Opt& o, const Bytes& v, bool alias) {
	if (v.empty()) { m.skip(); return; }
	Args a{ std::string("--") + (alias && o.alias ? o.alias : o.opt), hex(v) }; Res r = run(m, a); *vs_buf = 0;
	if (v.size() < o.min || v.size() > o.max || render(o.fn)->fn(v.data(), v.size(), vs_buf, sizeof vs_buf) || (!o.list && !strcmp(o.opt, "mcc") && !*vs_buf)) return reject(m, a, r);
	if (!g_inited) m.fail("init", "emv-decode %s did not load the code lists", show(a).c_str());
	m.cover("field decoded"); accept(m, a, r, std::string(vs_buf) + (o.list ? "" : "\n"));
}
// --- codes
static void check_code(Mc& m, int kind, const std::string& s, bool alias) {
	static const char* O[3][2] = { { "--country", "--iso3166-1" }, { "--currency", "--iso4217" }, { "--language", "--iso639" } };
	Args a{ O[kind][alias], s }; Res r = run(m, a); std::string out; bool ok = false; bool num = s.size() == 3 && isdigit(s[0]) && isdigit(s[1]) && isdigit(s[2]), loose = false;
	auto set = [&](const std::string& n) { if (!ok) { out = n; ok = true; } };
	if (kind == 0) for (auto& c : COUNTRIES) { if (*c.a2 && s == c.a2) set(c.name); if (s == c.a3) set(c.name); if (num && s == c.num) set(c.name); }
	if (kind == 1) for (auto& c : CURRENCIES) { if (s == c.a3) set(c.name); if (num && s == c.num) set(c.name); }
	if (kind == 2) for (auto& c : LANGUAGES) { if (*c.a2 && s == c.a2) set(c.name); if (s == c.a3) set(c.name); }
	{ size_t k = 0, e = s.size(); while (k < e && isspace((uint8_t)s[k])) ++k; while (e > k && isspace((uint8_t)s[e - 1])) --e; if (k < e && (s[k] == '+' || s[k] == '-')) ++k; loose = k < e; for (; k < e; ++k) loose = loose && isdigit((uint8_t)s[k]); } // numbers written in other ways
	if (!ok && loose && !num) return;
	if (!g_inited) m.fail("init", "emv-decode %s did not load the code lists", show(a).c_str());
	if (ok) { m.cover("code found"); accept(m, a, r, out + "\n"); } else reject(m, a, r);
}
// --- text
static void check_text(Mc& m, unsigned cp, const Bytes& v) {
	if (v.empty()) { m.skip(); return; }
	Args a{ "--iso8859-" + std::to_string(cp), hex(v) }; Res r = run(m, a); std::string o(v.size() * 4 + 8, 0);
	if (!iso8859_is_supported(cp)) return reject(m, a, r);
	if (memchr(v.data(), 0, v.size()) || iso8859_to_utf8(cp, v.data(), v.size(), &o[0], o.size())) { m.cover("text without defined output"); return; }
	m.cover("text"); accept(m, a, r, std::string(o.c_str()) + "\n");
}
// --- hex digits
static int ref_hex(const std::string& s, Bytes& v) { // 0 fine, 1 refused, 2 either
	std::string d; bool bad = false, blank_end = !s.empty() && isspace((uint8_t)s.back());
	for (char c : s) { if (isspace((uint8_t)c)) continue; if (!isxdigit((uint8_t)c)) bad = true; d += c; }
	if (bad || d.empty() || d.size() % 2) return 1; for (size_t i = 0; i < d.size(); i += 2) v.push_back(strtoul(d.substr(i, 2).c_str(), nullptr, 16));
	return blank_end ? 2 : 0;
}
// --- real processes
static char self_exe[4096]; static std::string codes_dir;
static Res real_run(Mc& m, const Args& args, const std::string& in, bool stdin_file = false) {
	int po[2], pe[2], pi[2]; if (pipe(po) || pipe(pe) || pipe(pi)) abort(); m.log("real emv-decode %s", show(args).c_str());
	pid_t p = fork();
	if (!p) { dup2(pi[0], 0); dup2(po[1], 1); dup2(pe[1], 2); for (int i = 3; i < 64; ++i) close(i); setenv("C28_TOOL", "1", 1); std::vector<char*> av; av.push_back((char*)"emv-decode"); for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr); execv(self_exe, av.data()); _exit(126); }
	close(po[1]); close(pe[1]); close(pi[0]); Res r; size_t ip = 0; bool o = true, e = true; signal(SIGPIPE, SIG_IGN); if (in.empty()) { close(pi[1]); pi[1] = -1; }
	while (o || e) { struct pollfd q[3] = { { o ? po[0] : -1, POLLIN, 0 }, { e ? pe[0] : -1, POLLIN, 0 }, { pi[1], POLLOUT, 0 } }; if (poll(q, 3, 60000) <= 0) { kill(p, SIGKILL); break; } char b[65536];
		if (o && q[0].revents) { ssize_t n = read(po[0], b, sizeof b); if (n <= 0) o = false; else r.out.append(b, n); } if (e && q[1].revents) { ssize_t n = read(pe[0], b, sizeof b); if (n <= 0) e = false; else r.err.append(b, n); }
		if (pi[1] >= 0 && q[2].revents) { ssize_t n = write(pi[1], in.data() + ip, std::min<size_t>(in.size() - ip, 1000)); if (n > 0) ip += n; if (n <= 0 || ip == in.size()) { close(pi[1]); pi[1] = -1; } } }
	close(po[0]); close(pe[0]); if (pi[1] >= 0) close(pi[1]); int st; waitpid(p, &st, 0); r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); m.step();
	if (r.status >= 99) m.fail("crash", "emv-decode %s ended with %d: %s", show(args).c_str(), r.status, cut(r.err).c_str());
	return r;
}
#include "c28_spaces.h"
static struct Init28 { Init28() { setup_hook = setup28; } } init28_;
