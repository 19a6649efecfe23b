// C21: attribution of application identifiers and issuer application data
#include "mc.h"
#include <emv_fields.h>
using namespace mc;
typedef std::vector<uint8_t> Bytes;
// Registered identifiers and product extensions, as published by the schemes
struct Reg { const char* prefix; emv_card_scheme_t s; emv_card_product_t p; };
static const emv_card_product_t UNK = EMV_CARD_PRODUCT_UNKNOWN;
static const Reg REG[] = {
	{ "A000000003", EMV_CARD_SCHEME_VISA, UNK }, { "A0000000031010", EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_CREDIT_DEBIT }, { "A0000000032010", EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_ELECTRON }, { "A0000000032020", EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_VPAY }, { "A0000000038010", EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_PLUS }, { "A000000098", EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_USA_DEBIT },
	{ "A000000004", EMV_CARD_SCHEME_MASTERCARD, UNK }, { "A0000000041010", EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_CREDIT_DEBIT }, { "A0000000043060", EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_MAESTRO }, { "A0000000046000", EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_CIRRUS }, { "A0000000042203", EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_USA_DEBIT }, { "A000000005", EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_MAESTRO_UK }, { "B012345678", EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_TEST },
	{ "A000000025", EMV_CARD_SCHEME_AMEX, EMV_CARD_PRODUCT_AMEX_CREDIT_DEBIT }, { "A000000790", EMV_CARD_SCHEME_AMEX, EMV_CARD_PRODUCT_AMEX_CHINA_CREDIT_DEBIT },
	{ "A000000152", EMV_CARD_SCHEME_DISCOVER, UNK }, { "A0000001523010", EMV_CARD_SCHEME_DISCOVER, EMV_CARD_PRODUCT_DISCOVER_CARD }, { "A0000001524010", EMV_CARD_SCHEME_DISCOVER, EMV_CARD_PRODUCT_DISCOVER_USA_DEBIT }, { "A000000324", EMV_CARD_SCHEME_DISCOVER, EMV_CARD_PRODUCT_DISCOVER_ZIP },
	{ "A000000042", EMV_CARD_SCHEME_CB, UNK }, { "A0000000421010", EMV_CARD_SCHEME_CB, EMV_CARD_PRODUCT_CB_CREDIT_DEBIT }, { "A0000000422010", EMV_CARD_SCHEME_CB, EMV_CARD_PRODUCT_CB_DEBIT },
	{ "A000000065", EMV_CARD_SCHEME_JCB, UNK },
	{ "A000000121", EMV_CARD_SCHEME_DANKORT, UNK }, { "A0000001214711", EMV_CARD_SCHEME_DANKORT, EMV_CARD_PRODUCT_DANKORT_VISADANKORT }, { "A0000001214712", EMV_CARD_SCHEME_DANKORT, EMV_CARD_PRODUCT_DANKORT_JSPEEDY },
	{ "A000000333", EMV_CARD_SCHEME_UNIONPAY, UNK }, { "A000000333010101", EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNIONPAY_DEBIT }, { "A000000333010102", EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNIONPAY_CREDIT }, { "A000000333010103", EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNIONPAY_QUASI_CREDIT }, { "A000000333010106", EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNIONPAY_ELECTRONIC_CASH }, { "A000000333010108", EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNIONPAY_USA_DEBIT },
	{ "A000000337", EMV_CARD_SCHEME_GIMUEMOA, UNK }, { "A000000337101000", EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_STANDARD }, { "A000000337101001", EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_PREPAID_ONLINE }, { "A000000337102000", EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_CLASSIC }, { "A000000337102001", EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_PREPAID_OFFLINE }, { "A000000337301000", EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_RETRAIT }, { "A000000337601001", EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_ELECTRONIC_WALLET },
	{ "A0000003591010028001", EMV_CARD_SCHEME_DK, EMV_CARD_PRODUCT_DK_GIROCARD },
	{ "A000000371", EMV_CARD_SCHEME_VERVE, UNK },
	{ "A000000384", EMV_CARD_SCHEME_EFTPOS, UNK }, { "A00000038410", EMV_CARD_SCHEME_EFTPOS, EMV_CARD_PRODUCT_EFTPOS_SAVINGS }, { "A00000038420", EMV_CARD_SCHEME_EFTPOS, EMV_CARD_PRODUCT_EFTPOS_CHEQUE },
	{ "A000000524", EMV_CARD_SCHEME_RUPAY, UNK },
	{ "A000000658", EMV_CARD_SCHEME_MIR, UNK }, { "A0000006581010", EMV_CARD_SCHEME_MIR, EMV_CARD_PRODUCT_MIR_CREDIT }, { "A0000006582010", EMV_CARD_SCHEME_MIR, EMV_CARD_PRODUCT_MIR_DEBIT },
	{ "A000000732", EMV_CARD_SCHEME_MEEZA, UNK },
};
static const unsigned NREG = sizeof REG / sizeof *REG;
static Bytes unhex(const char* s) { Bytes v; for (; *s; s += 2) { unsigned x; sscanf(s, "%2x", &x); v.push_back(x); } return v; }
static std::vector<Bytes> PX;
static const Reg* lookup(const uint8_t* a, size_t n) {
	const Reg* best = nullptr; size_t bl = 0;
	if (n < 5 || n > 16) return nullptr;
	for (unsigned i = 0; i < NREG; ++i) if (PX[i].size() <= n && PX[i].size() > bl && !memcmp(a, PX[i].data(), PX[i].size())) { best = &REG[i]; bl = PX[i].size(); }
	return best;
}
static void aid_at(Mc& m, const uint8_t* a, size_t n) {
	struct emv_aid_info_t i; memset(&i, 0xEE, sizeof i);
	int r = emv_aid_get_info(a, n, &i); m.step();
	const Reg* e = lookup(a, n);
	if (e ? r != 0 || i.scheme != e->s || i.product != e->p : r == 0 || (n && (i.scheme != EMV_CARD_SCHEME_UNKNOWN || i.product != UNK))) m.fail("aid", "identifier %s: returned %d scheme %d product %d, registered as scheme %d product %d", hex(a, n).c_str(), r, i.scheme, i.product, e ? e->s : 0, e ? e->p : 0);
	if (n && (n < 5 || n > 16) && r < 0) m.fail("aid-length", "identifier of %zu bytes: malformed field reported as internal error", n);
}
static void aid(Mc& m, const Bytes& v) { if (m.tracing) m.log("identifier %s", hex(v).c_str()); Buf b(v); aid_at(m, b.p(), b.n()); const Reg* e = lookup(v.data(), v.size()); m.state(e ? hmix(hash(e->prefix), v.size()) : 0); m.cover(e ? "attributed" : "unknown"); }

static int iad_ref(const uint8_t* d, size_t n) {
	if (!n) return EMV_IAD_FORMAT_INVALID;
	if (n == 32 && d[0] == 0x0F && (d[1] == 0xA5 || d[1] == 0xA6) && d[16] == 0x0F) return EMV_IAD_FORMAT_CCD;
	{ // key derivation index is free; cryptogram version 0001 0x0x
		bool cvn = n >= 18 && (d[1] == 0x10 || d[1] == 0x11 || d[1] == 0x14 || d[1] == 0x15);
		if (cvn && n == 18) return EMV_IAD_FORMAT_MCHIP4;
		if (cvn && (n == 20 || n == 26 || n == 28)) return EMV_IAD_FORMAT_MCHIP_ADVANCE;
	}
	if (n >= 7 && d[0] == 6 && d[3] == 3) { unsigned f = d[2] / 16; return f == 0 ? EMV_IAD_FORMAT_VSDC_0 : f == 1 ? EMV_IAD_FORMAT_VSDC_1 : f == 3 ? EMV_IAD_FORMAT_VSDC_3 : EMV_IAD_FORMAT_INVALID; }
	if (n == 32 && d[0] == 0x1F && d[8] < 16) { unsigned f = d[1] / 16; return f == 2 ? EMV_IAD_FORMAT_VSDC_2 : f == 4 ? EMV_IAD_FORMAT_VSDC_4 : EMV_IAD_FORMAT_INVALID; }
	return EMV_IAD_FORMAT_UNKNOWN;
}
static uint32_t seen;
static void iad_at(Mc& m, const uint8_t* d, size_t n) { int r = emv_iad_get_format(d, n), e = iad_ref(d, n); if (r != e) m.fail("iad", "issuer application data %s: format %d instead of %d", hex(d, n).c_str(), r, e); seen |= 1u << (r + 1); }
static void fin(Mc& m, size_t n) { for (int i = 0; i < 12; ++i) if (seen >> i & 1) m.state(hmix(n, i)); }
static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough"); (void)th;
	for (auto& r : REG) PX.push_back(unhex(r.prefix));
	add("every registration, extended, truncated, altered", NREG, [](Mc& m, uint64_t k) { Bytes v = PX[k]; switch (m.choose(4)) {
		case 0: { unsigned n = m.choose(14); uint8_t f = m.choose(3) * 0x7F; for (unsigned i = 0; i < n; ++i) v.push_back(f + i); break; }
		case 1: v.resize(m.choose(v.size() + 1)); break;
		case 2: v[m.choose(v.size())] = m.choose(256); break;
		case 3: v[m.choose(v.size())] = m.choose(256); for (int i = 0; i < 6; ++i) v.push_back(i); break; }
		aid(m, v); });
	add("every registration with every next byte", NREG, [](Mc& m, uint64_t k) { Bytes v = PX[k]; v.push_back(m.choose(256)); aid(m, v); v.insert(v.end(), 2, 0); aid(m, v); });
	add("all last two bytes of registered provider identifiers", 256, [](Mc& m, uint64_t k) { for (unsigned b = 0; b < 256; ++b) for (const char* pix : { "", "10", "1010", "2010", "010101", "1010028001" }) { Bytes v{ 0xA0, 0, 0, (uint8_t)k, (uint8_t)b }; Bytes p = unhex(pix); v.insert(v.end(), p.begin(), p.end()); aid(m, v); v[0] = 0xB0; aid(m, v); } });
	add("all two-byte extensions of every provider", 256 * 20, [](Mc& m, uint64_t k) { static std::vector<Bytes> R; if (R.empty()) { for (auto& p : PX) { Bytes r(p.begin(), p.begin() + 5); bool dup = false; for (auto& x : R) dup |= x == r; if (!dup) R.push_back(r); } }
		if (k / 256 >= R.size()) return; Bytes v = R[k / 256]; v.push_back(k % 256); v.push_back(0); Buf b(v), c(7 + 3); memcpy(c.p(), v.data(), 7); memset(c.p() + 7, 1, 3);
		for (unsigned x = 0; x < 256; ++x) { b.p()[6] = c.p()[6] = x; aid_at(m, b.p(), 7); for (unsigned y = 0; y < 12; ++y) { c.p()[7] = y; aid_at(m, c.p(), 8); } aid_at(m, c.p(), 10); } m.state(k); });
	add("identifiers of every length", 40, [](Mc& m, uint64_t n) { Bytes v = PX[m.choose(NREG)]; v.resize(n, m.choose(2) ? 0x10 : 0); aid(m, v); });
	add("two altered bytes", NREG * 5, [](Mc& m, uint64_t k) { Bytes v = PX[k / 5]; v[k % 5] ^= 1 << m.choose(8); unsigned at = m.choose(v.size()); v[at] = at < 5 ? v[at] ^ 1 << m.choose(8) : m.choose(16) * 16; aid(m, v); });
	// Issuer application data: length and the bytes that identify a format
	add("data: all first and second bytes at every length", 33 * 16, [](Mc& m, uint64_t k) { size_t n = k / 16; Buf b(n, 0x33); seen = 0; static const uint8_t B2[] = { 0x0A, 0x12, 0x22, 0x3F, 0x4F, 0xF0 }, B3[] = { 3, 2, 0x13 }, B8[] = { 0x00, 0x0F, 0x10, 0x80 }, B16[] = { 0x0F, 0x0E, 0x1F };
		for (unsigned x = k % 16 * 16; x < k % 16 * 16 + 16; ++x) for (unsigned y = 0; y < 256; ++y) { if (n > 0) b.p()[0] = x; if (n > 1) b.p()[1] = y;
			for (unsigned c = 0; c < 216; ++c) { if (c >= 1 && n < 3) break; if (n > 2) b.p()[2] = B2[c % 6]; if (n > 3) b.p()[3] = B3[c / 6 % 3]; if (n <= 8 && c >= 18) break; if (n > 8) b.p()[8] = B8[c / 18 % 4]; if (n <= 16 && c >= 72) break; if (n > 16) b.p()[16] = B16[c / 72]; iad_at(m, b.p(), n); m.step(); } }
		if (!n) iad_at(m, b.p(), 0); fin(m, n); });
	add("data: all third and fourth bytes at every length", 33 * 8, [](Mc& m, uint64_t k) { size_t n = k / 8; static const uint8_t B0[] = { 6, 0x0F, 0x1F, 5 , 0x16, 0x86, 0, 0xFF }; static const uint8_t B1[] = { 0x10, 0x15, 0xA5, 0x22, 0x44, 0x01 }; Buf b(n, 0); seen = 0; if (n > 0) b.p()[0] = B0[k % 8];
		for (auto y : B1) for (unsigned p = 0; p < 256; ++p) for (unsigned q = 0; q < 256; ++q) { if (n > 1) b.p()[1] = y; if (n > 2) b.p()[2] = p; if (n > 3) b.p()[3] = q; if (n) iad_at(m, b.p(), n); m.step(); } fin(m, n + 100); });
	add("data: all values of every other byte in every format", 32, [](Mc& m, uint64_t at) { static const char* T[] = { "0FA5", "1F22", "1F44", "0610", "06010A03", "06011203", "06013203" }; seen = 0; for (auto t : T) for (size_t n = 7; n <= 32; ++n) { Bytes v = unhex(t); v.resize(n, 0); if (n > 16) v[16] = 0x0F; if (at >= n) continue; Buf b(v); for (unsigned x = 0; x < 256; ++x) { b.p()[at] = x; iad_at(m, b.p(), n); m.step(); } for (size_t o = 0; o < n; ++o) for (unsigned x = 0; x < 8; ++x) { memcpy(b.p(), v.data(), n); b.p()[at] ^= 0x81; b.p()[o] ^= 1 << x; iad_at(m, b.p(), n); m.step(); } } fin(m, at + 200); });
	add("arguments", 1, [](Mc& m, uint64_t) { uint8_t a[16] = { 6, 1, 0x0A, 3 }; struct emv_aid_info_t i; m.step(4); if (emv_aid_get_info(nullptr, 7, &i) >= 0 || emv_aid_get_info(a, 7, nullptr) >= 0 || emv_aid_get_info(a, 0, &i) >= 0 || emv_iad_get_format(nullptr, 7) != EMV_IAD_FORMAT_INVALID || emv_iad_get_format(a, 0) != EMV_IAD_FORMAT_INVALID) m.fail("null", "missing argument accepted"); });
}
static struct Init { Init() { setup_hook = setup; } } init_;
