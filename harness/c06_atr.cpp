// C06: ATR parsing; C07: EMV acceptance. Built twice: -DEMV selects C07's judgement.
#include "mc.h"
#include "refatr.h"
#include <iso7816.h>
#include <emv.h>
#include <emv_debug.h>
using namespace mc;
typedef std::vector<uint8_t> Bytes;

#ifdef ATR_WORLD_ONLY
static void judge(Mc& m, const Bytes& v); // only the ATR spaces are wanted
#else
static void judge(Mc& m, const Bytes& v) {
	RefAtr r = ref_atr(v.data(), v.size());
	m.log("ATR %s", hex(v).c_str());
#ifdef EMV
	bool ok = ref_emv_atr(r, v.data()); int rc;
	{ Buf b(v); if (m.thorough) smear(0x3B); rc = LIB(emv_atr_parse(b.p(), b.n())); }
	m.step(); m.cover(ok ? "accepted" : r.ok ? "refused by EMV" : "not an ATR");
	m.state(hmix(hash(v.data(), v.size() > 12 ? 12 : v.size()), ok));
	if (v.empty()) { if (rc >= 0) m.fail("empty", "empty ATR not refused"); return; }
	if (rc != (ok ? 0 : EMV_OUTCOME_CARD_ERROR)) m.fail(ok ? "rejected" : "accepted", "ATR %s must be %s (%s) but emv_atr_parse() returned %d", hex(v).c_str(), ok ? "accepted" : "a card error", r.ok ? "valid ISO 7816-3" : r.why, rc);
#else
	Buf ib(sizeof(iso7816_atr_info_t), 0xE7); auto* i = (iso7816_atr_info_t*)ib.p(); int rc;
	{ Buf b(v); rc = LIB(iso7816_atr_parse(b.p(), b.n(), i)); b.seal(); }
	m.step(); m.cover(r.ok ? "valid" : r.why);
	m.state(hmix(hash(v.data(), v.size() > 14 ? 14 : v.size()), r.ok));
	if ((rc == 0) != r.ok) m.fail(r.ok ? "rejected" : "accepted", "ATR %s must be %s (%s) but iso7816_atr_parse() returned %d", hex(v).c_str(), r.ok ? "accepted" : "rejected", r.why, rc);
	if (rc) return;
#define EQ(what, got, want) do { auto g_ = (got); auto w_ = (want); if (!((double)g_ == (double)w_)) m.fail("value", "ATR %s: %s is %g, expected %g", hex(v).c_str(), what, (double)g_, (double)w_); } while (0)
#define AT(what, ptr, off) do { const uint8_t* q_ = (ptr); int o_ = (off); if (o_ < 0 ? q_ != nullptr : !q_ || q_ != i->atr + o_ || *q_ != v[o_]) m.fail("interface", "ATR %s: %s is %s", hex(v).c_str(), what, !q_ ? "absent" : o_ < 0 ? "present" : "the wrong byte"); } while (0)
	if (i->atr_len != v.size() || memcmp(i->atr, v.data(), v.size())) m.fail("copy", "ATR %s not kept", hex(v).c_str());
	EQ("TS", i->TS, r.TS); EQ("T0", i->T0, r.T0); EQ("K", i->K_count, r.K);
	for (int k = 1; k < 5; ++k) { AT("TA", i->TA[k], r.ta[k]); AT("TB", i->TB[k], r.tb[k]); AT("TC", i->TC[k], r.tc[k]); AT("TD", i->TD[k], r.td[k]); }
	EQ("T1", i->T1, r.T1);
	if (r.hist < 0) { if (i->historical_bytes_len) m.fail("historical", "ATR %s: historical bytes reported", hex(v).c_str()); }
	else { if (i->historical_bytes_len != r.hist_len || i->historical_bytes != i->atr + r.hist) m.fail("historical", "ATR %s: historical bytes are %zu at %td, expected %zu at %d", hex(v).c_str(), i->historical_bytes_len, i->historical_bytes - i->atr, r.hist_len, r.hist); }
	if (!r.loose_si) {
		if (r.si < 0) { if (i->status_indicator_bytes) m.fail("status", "ATR %s: status indicator reported", hex(v).c_str()); }
		else { if (i->status_indicator_bytes != i->atr + r.si || i->status_indicator_bytes_len != r.si_len) m.fail("status", "ATR %s: status indicator misplaced", hex(v).c_str()); }
		EQ("LCS", i->status_indicator.LCS, r.lcs); EQ("SW1", i->status_indicator.SW1, r.sw1); EQ("SW2", i->status_indicator.SW2, r.sw2);
	}
	if (r.has_tck) EQ("TCK", i->TCK, r.tck);
	EQ("Di", i->global.Di, r.Di); EQ("Fi", i->global.Fi, r.Fi); EQ("fmax", i->global.fmax, r.fmax);
	EQ("Vpp connected", i->global.Vpp_connected, r.vpp_conn);
	if (r.vpp_conn) { EQ("Vpp", i->global.Vpp, r.vpp); EQ("coarse Vpp", i->global.Vpp_course, r.vppc); EQ("Ipp", i->global.Ipp, r.ipp); }
	EQ("N", i->global.N, r.N); EQ("GT", i->global.GT, r.GT); EQ("protocol", i->global.protocol, r.proto);
	EQ("specific mode", i->global.specific_mode, r.specific);
	if (r.specific) { EQ("specific mode protocol", i->global.specific_mode_protocol, r.sproto); EQ("implicit ETU", i->global.etu_is_implicit, r.implicit); EQ("mode may change", i->global.specific_mode_may_change, r.may_change); }
	EQ("card classes", i->global.card_classes, r.classes); EQ("clock stop", i->global.clock_stop, r.clock); EQ("SPU", i->global.spu, r.spu);
	EQ("WI", i->protocol_T0.WI, r.WI); EQ("WT", i->protocol_T0.WT, r.WT);
	EQ("CGT", i->protocol_T1.CGT, r.CGT); EQ("IFSI", i->protocol_T1.IFSI, r.IFSI); EQ("CWI", i->protocol_T1.CWI, r.CWI); EQ("BWI", i->protocol_T1.BWI, r.BWI);
	EQ("CWT", i->protocol_T1.CWT, r.CWT); EQ("BWT", i->protocol_T1.BWT, r.BWT); EQ("error detection code", i->protocol_T1.error_detection_code, r.edc);
#endif
}
#endif
static void fix_tck(Bytes& v) { uint8_t x = 0; for (size_t i = 1; i < v.size(); ++i) x ^= v[i]; v.push_back(x); }
// Structure builder: y[i] presence of TAi..TDi, t[i] protocol of TDi
struct Shape { unsigned y[6] = {0}, t[6] = {0}; int n = 1; };
static const uint8_t DEF[3][5] = { { 0, 0x13, 0x00, 0x41, 0x42 }, { 0, 0x25, 0x3C, 0x42, 0x35 }, { 0, 0x00, 0x0A, 0x00, 0x00 } };
struct Built { Bytes v; int off[3][5]; int td[5]; bool tck; };
static Built render(const Shape& s, unsigned ta2) {
	Built b; memset(b.off, -1, sizeof b.off); memset(b.td, -1, sizeof b.td); b.tck = false;
	b.v = { 0x3B, (uint8_t)(s.y[1] << 4) };
	for (int i = 1; i <= 4; ++i) {
		for (int k = 0; k < 3; ++k) if (s.y[i] >> k & 1) { b.off[k][i] = (int)b.v.size(); uint8_t d = DEF[k][i]; if (k == 0 && i == 2) d = ta2; if (i >= 3 && k == 0 && s.t[i - 1] == 15) d = 0x03; b.v.push_back(d); }
		if (s.y[i] & 8) { b.td[i] = (int)b.v.size(); b.v.push_back((uint8_t)((i < 5 ? s.y[i + 1] << 4 : 0) | s.t[i])); if (s.t[i]) b.tck = true; } else break;
	}
	return b;
}
static void finish(Mc& m, Built& b, unsigned k, unsigned fin) {
	b.v[1] |= k; for (unsigned i = 0; i < k; ++i) b.v.push_back(0x51 + i);
	if (b.tck) fix_tck(b.v);
	switch (fin) {
		case 0: break;
		case 1: b.v.push_back(0x00); break;                        // a byte after the ATR
		case 2: b.v.pop_back(); break;                             // a byte missing
		case 3: if (b.tck) b.v.back() ^= 0x10; else { m.skip(); return; } break;
	}
	if (b.v.size() > 33) { m.skip(); return; }
	judge(m, b.v);
}
static const unsigned T1s[] = { 0, 1, 2, 15 }, Ti[] = { 0, 1, 15, 14 };
#ifdef ATR_WORLD_ONLY
#define setup atr_setup
#define ATR_FULL(m) (m).thorough
#else
#define ATR_FULL(m) true
#endif
static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough");
	// every presence/protocol structure
	add("structures", 16 * 16, [](Mc& m, uint64_t o) {
		Shape s; s.y[1] = o % 16; s.y[2] = o / 16;
		if (!(s.y[1] & 8)) { if (s.y[2]) { m.skip(); return; } }
		else { s.t[1] = T1s[m.choose(ATR_FULL(m) ? 4 : 2)];
			if (s.y[2] & 8) { s.t[2] = Ti[m.choose(ATR_FULL(m) ? 4 : 2)]; s.y[3] = m.choose(16);
				if (s.y[3] & 8) { s.t[3] = Ti[m.choose(ATR_FULL(m) ? 4 : 2)]; s.y[4] = m.choose(16);
					if (s.y[4] & 8) { s.t[4] = Ti[m.choose(ATR_FULL(m) ? 4 : 2)]; s.y[5] = m.choose(2) * 5; } } } }
		unsigned f = m.choose(m.thorough ? 8 : ATR_FULL(m) ? 3 : 1); unsigned k = f >= 4 ? 5 : f == 1 ? 3 : 0; unsigned fin = m.thorough ? f % 4 : f == 2 ? 3 : f;
		Built b = render(s, s.t[1] | (m.thorough && m.choose(2) ? 0x80 : 0)); finish(m, b, k, fin);
	});
	// every value of every interface byte, one at a time, in every structure of up to three groups
	add("single values", 16 * 16, [](Mc& m, uint64_t o) {
		Shape s; s.y[1] = o % 16; s.y[2] = o / 16;
		if (!(s.y[1] & 8)) { if (s.y[2]) { m.skip(); return; } }
		else { s.t[1] = m.choose(2);
			if (s.y[2] & 8) { s.t[2] = Ti[m.choose(3)]; s.y[3] = m.choose(m.thorough ? 16 : 8); if (s.y[3] & 8) { s.t[3] = Ti[m.choose(3)]; s.y[4] = m.choose(8); } } }
		Built b = render(s, s.t[1]);
		std::vector<int> cand; for (int i = 1; i <= 4; ++i) for (int k = 0; k < 3; ++k) if (b.off[k][i] >= 0) cand.push_back(b.off[k][i]);
		if (cand.empty()) { m.skip(); return; }
		int at = cand[m.choose(cand.size())]; b.v[at] = m.choose(256);
		finish(m, b, 0, 0);
	});
	// pairs of related values
	struct Pair { int k1, i1, k2, i2; }; static const Pair P[] = { {0,1,1,3}, {2,1,1,3}, {0,1,0,2}, {1,1,1,2}, {0,1,2,2}, {0,3,0,4}, {1,3,1,4}, {2,3,2,4} };
	add("value pairs", 8 * 256, [](Mc& m, uint64_t o) {
		const Pair& p = P[o % 8]; Shape s; s.y[1] = 15; s.y[2] = 8; s.y[3] = 15; s.y[4] = 7; s.t[1] = m.choose(2); s.t[2] = s.t[1] ? 1 : Ti[m.choose(3)]; s.t[3] = Ti[m.choose(3)];
		if (p.i2 == 2) s.y[2] |= 1 << p.k2; if (p.i2 < 4 && o % 8 != 5) s.y[3] &= 7;
		Built b = render(s, s.t[1]);
		if (b.off[p.k1][p.i1] < 0 || b.off[p.k2][p.i2] < 0) { m.skip(); return; }
		b.v[b.off[p.k1][p.i1]] = o / 8; b.v[b.off[p.k2][p.i2]] = m.choose(256); finish(m, b, 0, 0);
	});
	// every TD value, every T0, every TS
	add("all TD values", 256, [](Mc& m, uint64_t o) { unsigned w = m.choose(5);
		Bytes v{ 0x3B, 0x80 };
		if (w == 0) v = { (uint8_t)o, 0x00 };
		else if (w == 1) { v = { 0x3B, (uint8_t)o }; for (int i = m.choose(33); i > 0; --i) v.push_back(0x11); if (v.size() > 33) v.resize(33); }
		else { for (unsigned i = 2; i < w; ++i) v.push_back(0x81); v.push_back(o); for (int i = m.choose(6); i > 0; --i) v.push_back(0x12); v.resize(std::min<size_t>(v.size(), 32)); if (m.choose(2)) fix_tck(v); }
		judge(m, v); });
	// every truncation and every length of full ATRs
	add("truncations", 64, [](Mc& m, uint64_t o) { Shape s; s.y[1] = o & 1 ? 15 : 8; s.y[2] = o & 2 ? 15 : 8; s.y[3] = o & 4 ? 15 : 7; s.y[4] = o & 8 ? 7 : 0; s.t[1] = o >> 4 & 1; s.t[2] = o >> 5 & 1 ? 15 : 1; s.t[3] = 15;
		Built b = render(s, s.t[1]); unsigned k = m.choose(16); b.v[1] |= k; for (unsigned i = 0; i < k; ++i) b.v.push_back(0x60 + i); fix_tck(b.v); size_t n = b.v.size(); size_t want = m.choose(40);
		if (want < n) { b.v.resize(want); if (want > 2 && m.choose(2)) { b.v.pop_back(); fix_tck(b.v); } } else while (b.v.size() < want) b.v.push_back(0x80 | want);
		judge(m, b.v); });
	// historical bytes
	static const Bytes H = { 0x00, 0x31, 0x42, 0x80, 0x81, 0x82, 0x83, 0x84, 0x01 };
	add("historical bytes", 9 * 5 * 2, [](Mc& m, uint64_t o) { static const uint8_t C[] = { 0x00, 0x80, 0x10, 0x81, 0x60 }; unsigned t1 = C[o / 9 % 5]; bool tck = o >= 45; unsigned n = m.choose(m.thorough ? 7 : 6); Bytes h{ (uint8_t)t1 }; if (n) h.push_back(H[o % 9]); else if (o % 9) { m.skip(); return; }
		while (h.size() < n + 1) h.push_back(H[m.choose(H.size())]);
		Bytes v{ 0x3B, (uint8_t)((tck ? 0x80 : 0) | h.size()) }; if (tck) v.push_back(0x01 | 0x80), v.push_back(0x21), v.push_back(0x45); v.insert(v.end(), h.begin(), h.end()); if (tck) fix_tck(v); else if (m.choose(2)) { v.push_back(0x83); v.push_back(0x90); }
		judge(m, v); });
	add("long historical bytes", 16 * 2, [](Mc& m, uint64_t o) { static const uint8_t C[] = { 0x00, 0x80 }; unsigned n = o % 16; if (!n) { m.skip(); return; } Bytes h{ C[o / 16] }; unsigned objs = 0; while (h.size() < n) { unsigned l = ++objs >= 4 ? std::min<size_t>(n - h.size() - 1, 15) : m.choose(std::min<size_t>(n - h.size(), 15) + 1); unsigned tag = objs >= 4 ? 1 : m.choose(3); h.push_back((tag == 0 ? 0x80 : tag == 1 ? 0x30 : 0x70) | l); for (unsigned i = 0; i < l && h.size() < n; ++i) h.push_back(0xB0 + i); }
		Bytes v{ 0x3B, (uint8_t)n }; v.insert(v.end(), h.begin(), h.end()); judge(m, v); });
	(void)th;
#ifdef ATR_WORLD_ONLY
#elif !defined EMV
	add("arguments", 1, [](Mc& m, uint64_t) { iso7816_atr_info_t i; uint8_t a[2] = { 0x3B, 0 }; m.step(2); if (iso7816_atr_parse(nullptr, 2, &i) == 0 || iso7816_atr_parse(a, 2, nullptr) == 0) m.fail("null", "missing argument accepted"); });
#else
	add("arguments", 1, [](Mc& m, uint64_t) { uint8_t a[2] = { 0x3B, 0 }; m.step(2); if (emv_atr_parse(nullptr, 2) >= 0 || emv_atr_parse(a, 0) >= 0) m.fail("null", "missing argument accepted"); });
#endif
}
static struct Init { Init() { setup_hook = setup; } } init_;
