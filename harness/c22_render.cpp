// C22: rendering is memory safe, terminated and stable for every field content and buffer size
#include "strtab.h"
using namespace mc;
// small is the text in a smaller buffer: a prefix, a prefix with its line ended, or some of the lines
static bool contained(const std::string& s, const std::string& f) {
	if (!f.compare(0, s.size(), s)) return true;
	if (!s.empty() && s.back() == '\n' && !f.compare(0, s.size() - 1, s, 0, s.size() - 1)) return true;
	size_t p = 0, q = 0;
	while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) return false; std::string line = s.substr(p, e - p + 1);
		for (;;) { if (q >= f.size()) return false; size_t g = f.find('\n', q); if (g == std::string::npos) return false; bool hit = f.compare(q, g - q + 1, line) == 0; q = g + 1; if (hit) break; } p = e + 1; }
	return true;
}
typedef std::function<int(char*, size_t)> Call;
static bool text(Mc& m, const Call& call, size_t cap, uint8_t fill, int& r, std::string& out, const char* name, const std::string& in) {
	Buf b(cap, fill); smear(fill ^ 0x3C); r = call(b.c(), cap); m.step(); out.clear();
	if (r != 0 || !cap) return false;
	const void* z = memchr(b.p(), 0, cap); if (!z) m.fail("unterminated", "%s(%s) into %zu bytes left unterminated text", name, in.c_str(), cap);
	out.assign(b.c()); return true;
}
static void caps(Mc& m, const char* name, const Call& call, const std::string& in, bool every) {
	std::string full, again; int r, r2;
	text(m, call, 8192, 0xA5, r, full, name, in); text(m, call, 8192, 0x5A, r2, again, name, in);
	if (r != r2 || full != again) m.fail("unstable", "%s(%s) depends on stale memory: %d \"%s\", %d \"%s\"", name, in.c_str(), r, full.c_str(), r2, again.c_str());
	m.state(hash(full, hash(name)));
	size_t L = full.size();
	auto one = [&](size_t c) { std::string a, b; int ra, rb; bool oa = text(m, call, c, 0xFF, ra, a, name, in), ob = text(m, call, c, 0x00, rb, b, name, in);
		if (oa != ob || ra != rb || a != b) m.fail("unstable", "%s(%s) into %zu bytes depends on stale memory: %d \"%s\", %d \"%s\"", name, in.c_str(), c, ra, a.c_str(), rb, b.c_str());
		if (oa && r == 0 && !contained(a, full)) m.fail("different", "%s(%s) into %zu bytes: \"%s\" is not part of \"%s\"", name, in.c_str(), c, a.c_str(), full.c_str());
		if (oa && r == 0 && c > L + 1 && a != full) m.fail("incomplete", "%s(%s) into %zu bytes: \"%s\" instead of \"%s\"", name, in.c_str(), c, a.c_str(), full.c_str()); };
	if (every) for (size_t c = 0; c <= L + 3; ++c) one(c);
	else for (size_t c : { (size_t)0, (size_t)1, (size_t)2, (size_t)3, (size_t)5, (size_t)9, (size_t)17, L / 2, L, L + 1, L + 2, L + 3 }) one(c);
	m.cover(r ? "refused" : L ? "rendered" : "empty text");
}
// base contents that reach the deep branches of the structured fields
static const std::vector<const char*> SEEDS[] = {
	{}, { "0FA501030000000000000000000000000F000102030405060708090A0B0C0D0E", "0FA600FFFFFFFF000000000000000000 0F", "FF10FFFFFFFFFFFFFF112233445566778899", "0114A5A5A5A5A5A5000102030405060708090A0B", "06010A03A40000", "06011203FFFFFF0F0102030405060708", "06013203FFFFFF", "1F22FFFFFFFFFFFF0F0102030405060708090A0B0C0D0E0F10111213141516FF", "1F4401FFFFFFFFFF000102030405060708090A0B0C0D0E0F10111213141516FF" },
	{ "05280003303000010108400000", "0999000330310001020F800000000000", "052800033030 0002800800", "0528800300020001FF", "0528000030300000", "0901001130300011" }, { "0000000A000000051F031E02410942045E0500FF", "FFFFFFFFFFFFFFFF0206030744084509" }, { "0801010010010201 180105 00", "F8" }, { "A0000000031010", "A000000333010101", "B0123456780001", "315041592E5359532E4444463031", "A0000006581010" }, { "0001FF00022A2A", "000105AABBCCDDEE00080000", "000103010203000403" }, { "0102030480FFFF00", "01020304FFFFFFFFAA", "1122334455667788 3030", "1122334455667788 4F4B", "0102030400000000 3035" }, { "00A404000731504159 2E535900", "00A4040007A000000003101000", "00B2010C00", "80A8000002830000", "80CA9F1700", "00A4000000", "00A40000023F0000", "00C0000010", "0084000000" }, { "656E6E6C" , "716C7166" }, { "9780710901" , "09780999" }, { "4111111111111111D2512201F" } };
static const char* SEEDF[] = { "", "emv_iad_get_string_list", "emv_mastercard_third_party_data_get_string_list", "emv_cvm_list_get_string_list", "emv_afl_get_string_list", "emv_aid_get_string", "emv_asrpd_get_string_list", "emv_issuer_auth_data_get_string_list", "emv_capdu_get_string", "emv_language_preference_get_string_list", "emv_app_reference_currency_get_string_list", "emv_track2_equivalent_data_get_string" };
static Bytes unhex(const char* s) { Bytes v; for (; *s && s[1]; ) { if (*s == ' ') { ++s; continue; } unsigned x; sscanf(s, "%2x", &x); v.push_back(x); s += 2; } return v; }
static void field(Mc& m, const Render& R, const Bytes& v, bool every) { if (m.tracing) m.log("%s %s", R.name, hex(v).c_str()); Buf b(v); caps(m, R.name, [&](char* s, size_t n) { return R.fn(b.p(), v.size(), s, n); }, hex(v), every);
	if (!strncmp(R.name, "emv_", 4)) R.fn(b.p(), v.size(), nullptr, 100); R.fn(b.p(), v.size(), nullptr, 0); m.step(2); }
struct Job { unsigned f; unsigned len; };
static std::vector<Job> jobs;
static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough");
	load_codes();
	for (unsigned f = 0; f < NRENDER; ++f) { unsigned lo = RENDER[f].len == 0 ? 1 : 0, hi = RENDER[f].len == 0 ? 1 : RENDER[f].maxlen; if (!strcmp(RENDER[f].name, "iso7816_sw1sw2_get_string")) lo = 2; for (unsigned n = lo; n <= hi; ++n) jobs.push_back({ f, n }); }
	static const Bytes FILL = { 0x00, 0xFF, 0x80, 0x31, 0x41, 0x99, 0x1F };
	add("uniform contents at every capacity", jobs.size(), [](Mc& m, uint64_t k) { const Job& j = jobs[k]; Bytes v(j.len, FILL[m.choose(j.len ? FILL.size() : 1)]); field(m, RENDER[j.f], v, true); });
	add("every byte at every value", jobs.size(), [th](Mc& m, uint64_t k) { const Job& j = jobs[k]; if (!j.len) return; uint8_t base = FILL[m.choose(th ? FILL.size() : 3)]; Bytes v(j.len, base); unsigned at = m.choose(j.len), x = m.choose(256); v[at] = x; field(m, RENDER[j.f], v, th && x % 16 == 15); });
	// structured contents: every truncation, extension and alteration of a seed
	static std::vector<std::pair<const Render*, Bytes>> seeds;
	for (unsigned i = 1; i < sizeof SEEDF / sizeof *SEEDF; ++i) for (auto s : SEEDS[i]) { seeds.push_back({ render(SEEDF[i]), unhex(s) }); if (!strcmp(SEEDF[i], "emv_capdu_get_string")) seeds.push_back({ render("iso7816_capdu_get_string"), unhex(s) }); }
	add("structured contents at every capacity", seeds.size(), [](Mc& m, uint64_t k) { Bytes v = seeds[k].second; unsigned n = m.choose(v.size() + 4); v.resize(n, 0x33); field(m, *seeds[k].first, v, true); });
	add("structured contents, one byte altered", seeds.size(), [](Mc& m, uint64_t k) { Bytes v = seeds[k].second; unsigned at = m.choose(v.size()); v[at] = m.choose(256); field(m, *seeds[k].first, v, false); });
	add("structured contents, truncated and altered", seeds.size(), [](Mc& m, uint64_t k) { Bytes v = seeds[k].second; unsigned at = m.choose(v.size() ? v.size() : 1); unsigned n = at + 1 + m.choose(v.size() - at); v.resize(n); static const Bytes X = { 0x00, 0x01, 0x7F, 0x80, 0xFE, 0xFF, 0x30, 0x10 }; v[at] = X[m.choose(X.size())]; field(m, *seeds[k].first, v, false); });
	add("all two-byte headers of variable fields", NRENDER * 16, [](Mc& m, uint64_t k) { const Render& R = RENDER[k / 16]; if (R.len != -1) return; Bytes v(2); v[0] = k % 16 * 16 + m.choose(16); v[1] = m.choose(256); if (!strstr(R.name, "capdu")) field(m, R, v, false); else { v.resize(4, 0); field(m, R, v, false); v.push_back(0); field(m, R, v, false); } });
	// every field shown through its tag
	static std::vector<unsigned> T = all_tags();
	add("every tag, every length, every capacity", T.size(), [](Mc& m, uint64_t k) { unsigned n = m.choose(36); Bytes v(n, FILL[m.choose(FILL.size())]); if (m.tracing) m.log("tag %X value %s", T[k], hex(v).c_str()); Buf b(v); struct emv_tlv_t t; memset(&t, 0, sizeof t); t.tag = T[k]; t.length = n; t.value = b.p(); char nm[20]; snprintf(nm, sizeof nm, "tag %X", T[k]);
		caps(m, nm, [&](char* s, size_t c) { struct emv_tlv_info_t i; memset(&i, 0xEE, sizeof i); int r = emv_tlv_get_info(&t, &i, s, c); if (r >= 0 && i.tag_name) m.state(hash(i.tag_name, strlen(i.tag_name))); return r; }, hex(v), n < 9 || n == 18 || n == 32);
		struct emv_tlv_info_t i; emv_tlv_get_info(&t, &i, nullptr, 0); emv_tlv_get_info(&t, &i, nullptr, 64); t.value = nullptr; Buf o(64); emv_tlv_get_info(&t, &i, o.c(), 64); emv_tlv_get_info(&t, &i, nullptr, 0); m.step(4); });
	static std::vector<std::pair<unsigned, Bytes>> tseeds; for (auto& s : seeds) { const char* n = s.first->name; unsigned tag = strstr(n, "iad_get") ? 0x9F10 : strstr(n, "third_party") ? 0x9F6E : strstr(n, "cvm_list") ? 0x8E : strstr(n, "emv_afl") ? 0x94 : strstr(n, "emv_aid") ? 0x84 : strstr(n, "asrpd") ? 0x9F0A : strstr(n, "issuer_auth") ? 0x91 : strstr(n, "emv_capdu") ? 0x86 : strstr(n, "language") ? 0x5F2D : strstr(n, "currency") ? 0x9F3B : strstr(n, "track2") ? 0x57 : 0; if (tag) tseeds.push_back({ tag, s.second }); }
	add("structured contents through their tag", tseeds.size(), [](Mc& m, uint64_t k) { Bytes v = tseeds[k].second; v.resize(m.choose(v.size() + 2), 0x30); Buf b(v); struct emv_tlv_t t; memset(&t, 0, sizeof t); t.tag = tseeds[k].first; t.length = v.size(); t.value = b.p(); caps(m, "emv_tlv_get_info", [&](char* s, size_t c) { struct emv_tlv_info_t i; return emv_tlv_get_info(&t, &i, s, c); }, hex(v), true); });
	// ATR items
	add("answer to reset items", 256, [](Mc& m, uint64_t k) { static const char* A[] = { "3B6500002063CB6800", "3BFF1100FF8131FE55680A010203040506070809 0A0B0C0D0E0F", "3FFF9500FF918171FE55680A0102030405060708090A0B0C0D0E0F", "3BE00000814105", "3B9F95813101F1", "3BF01100FF01" };
		unsigned w = m.choose(6); Bytes a = unhex(A[w]); unsigned at = 1 + m.choose(a.size() - 1); a[at] = k; uint8_t x = 0; for (size_t i = 1; i < a.size(); ++i) x ^= a[i]; if (m.choose(2)) a.push_back(x);
		Buf b(a); struct iso7816_atr_info_t i; memset(&i, 0xEE, sizeof i); m.step(); if (iso7816_atr_parse(b.p(), b.n(), &i)) { m.cover("not parsed"); return; }
		if (m.tracing) m.log("ATR %s", hex(a).c_str());
		if (!iso7816_atr_TS_get_string(&i)) m.fail("atr", "no text for TS"); iso7816_atr_T1_get_string(&i);
		auto wrap = [](const char* r, char* s) { return !r ? -1 : r == s ? 0 : 98; };
		caps(m, "T0", [&](char* s, size_t c) { return wrap(iso7816_atr_T0_get_string(&i, s, c), s); }, hex(a), true);
		for (size_t g = 0; g <= 5; ++g) { caps(m, "TA", [&](char* s, size_t c) { return wrap(iso7816_atr_TAi_get_string(&i, g, s, c), s); }, hex(a) + "/" + std::to_string(g), false); caps(m, "TB", [&](char* s, size_t c) { return wrap(iso7816_atr_TBi_get_string(&i, g, s, c), s); }, hex(a) + "/" + std::to_string(g), false); caps(m, "TC", [&](char* s, size_t c) { return wrap(iso7816_atr_TCi_get_string(&i, g, s, c), s); }, hex(a) + "/" + std::to_string(g), false); caps(m, "TD", [&](char* s, size_t c) { return wrap(iso7816_atr_TDi_get_string(&i, g, s, c), s); }, hex(a) + "/" + std::to_string(g), false); } });
	add("all long commands", 260, [](Mc& m, uint64_t lc) { Bytes v{ 0x00, 0xA4, 0x04, 0x00, (uint8_t)lc }; unsigned kind = m.choose(3); for (unsigned i = 0; i < lc; ++i) v.push_back(kind == 0 ? 'A' + i % 26 : kind == 1 ? 0xAB : i); if (m.choose(2)) v.push_back(0); for (auto n : { "emv_capdu_get_string", "iso7816_capdu_get_string" }) field(m, *render(n), v, kind == 1); });
	add("constant texts", 512, [](Mc& m, uint64_t k) { int e = (int)k - 256; m.step(3); if (!emv_error_get_string((emv_error_t)e) || !emv_outcome_get_string((emv_outcome_t)e)) m.fail("text", "no text for result %d", e); if (k < 256) { const char* s = iso7816_lcs_get_string(k); if (s) m.state(hash(s, strlen(s))); iso7816_compact_tlv_tag_get_string(k); } });
}
static struct Init { Init() { setup_hook = setup; } } init_;
