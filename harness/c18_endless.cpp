// C18: ultimately periodic cards - every operation ends after a bounded number of exchanges
#include "session.h"
static const Bytes AIDP = X("A000000004");
// frame-level answers; `first` is the command (header) the frame belongs to
static Bytes raw(unsigned k, const Bytes& tx, const Bytes& hdr, bool T, int& rc) {
	rc = 0; uint8_t ins = hdr.size() > 1 ? hdr[1] : 0; auto D = [&](Bytes d, uint16_t sw) { Bytes r; if (T) r.push_back(ins); r.insert(r.end(), d.begin(), d.end()); r.push_back(sw >> 8); r.push_back(sw); return r; };
	switch (k) {
		case 0: return { 0x90, 0x00 };
		case 1: return { 0x61, 0x05 };
		case 2: return { 0x6C, 0x07 };
		case 3: return D({ 0x70 }, 0x6101);
		case 4: return D(fci(X("A0000000041010"), tlv(0x50, S("X"))), 0x9000);
		case 5: return { 0x62, 0x83 };
		case 6: return { 0x6A, 0x83 };
		case 7: return D(fci(X("A0000000041010"), tlv(0x88, { 1 })), 0x9000); // also names directory file 1
		case 8: return D(tlv(0x70, entry(X("A0000000041010"), "X", 1)), 0x9000);
		case 9: return { 0x6A, 0x82 };
		case 10: return { 0x6F, 0x00 };
		case 11: return { 0x63, 0x00 };
		case 12: return D({ 0x5A, 0x00 }, 0x6C02);
		case 13: return D({}, 0x6100);
		case 14: return D(tlv(0x80, X("3900 08010200")), 0x9000);
		case 15: return D(fci(X("A0000000041010"), tlv(0x50, S("X"))), 0x6283);
		case 16: return { 0x61, 0x00 };
		case 17: return { 0x6C, 0x00 };
		case 18: return { ins };
		case 19: return { (uint8_t)~ins };
		case 20: return { 0x60 };
		case 21: return { 0x61 };
		case 22: return { 0x6C };
		case 23: return D({}, 0x9000);
		default: return { 0x62, 0x05 };
	}
}
static const unsigned NK = 25;
static const unsigned KA[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 17, 24 };  // APDU mode
static const unsigned KT[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24 };
struct Endless { // card answering prefix then period forever, at frame level
	Mc& m; bool T; std::vector<unsigned> pre, per; uint64_t n = 0, limit; bool runaway = false; Bytes hdr; emv_ttl_t ttl; uint64_t h = 0;
	Endless(Mc& mm, bool t, uint64_t lim) : m(mm), T(t), limit(lim) { memset(&ttl, 0, sizeof ttl); ttl.cardreader.mode = t ? EMV_CARDREADER_MODE_TPDU : EMV_CARDREADER_MODE_APDU; ttl.cardreader.ctx = this; ttl.cardreader.trx = trx; }
	unsigned pick(unsigned i) { return i < pre.size() ? pre[i] : per[(i - pre.size()) % per.size()]; }
	static int trx(void* c, const void* tx, size_t tn, void* rx, size_t* rn) {
		Host host; Endless& k = *(Endless*)c; Bytes t((const uint8_t*)tx, (const uint8_t*)tx + tn); if (k.n >= k.limit) { k.runaway = true; return -99; }
		if (tn >= 5 && (t[0] == 0x00 || t[0] == 0x80) && (!k.T || tn == 5)) k.hdr = t;
		int rc; Bytes r = raw(k.pick(k.n++), t, k.hdr, k.T, rc); k.m.step(); if (k.m.tracing && k.n < 40) k.m.log("> %s < %s", hex(t).c_str(), hex(r).c_str());
		if (r.size() > *rn) return -98; memcpy(rx, r.data(), r.size()); *rn = r.size(); return 0;
	}
};
static void over(Mc& m, Endless& c, const char* what) { if (c.runaway) { std::string s; for (auto k : c.pre) s += std::to_string(k) + " "; s += "| "; for (auto k : c.per) s += std::to_string(k) + " "; m.fail("endless", "%s still going after %llu exchanges (answers %s)", what, (unsigned long long)c.limit, s.c_str()); } }
static void prepare(Mc& m, Endless& c, unsigned maxpre, unsigned maxper, int first = -1) {
	const unsigned* K = c.T ? KT : KA; unsigned n = c.T ? sizeof KT / 4 : sizeof KA / 4; unsigned per = 1 + m.choose(maxper), pre = m.choose(maxpre + 1);
	for (unsigned i = 0; i < per; ++i) c.per.push_back(K[i == 0 && first >= 0 ? first : m.choose(n)]);
	for (unsigned i = 0; i < pre; ++i) c.pre.push_back(K[m.choose(n)]);
	if (per == 2 && c.per[0] == c.per[1] || pre && c.pre.back() == c.per.back()) m.skip(); // same answers as a shorter description
}
static emv_app_t* app(bool pdol) { Bytes f = fci(X("A0000000041010"), tlv(0x50, S("X")) + (pdol ? tlv(0x9F38, X("9F1A02")) : Bytes())); return LIB(emv_app_create_from_fci(f.data(), f.size())); }
static void session(Mc& m, bool T, unsigned op, unsigned maxpre, unsigned maxper, int first) {
	static const char* N[] = { "building the candidate list", "selection", "initiation", "reading" };
	Endless c(m, T, op == 3 ? 60000 : 20000); prepare(m, c, maxpre, maxper, first); if (m.skipped) return;
	alloc_reset(); emv_ctx_t ctx; emv_ctx_init(&ctx, &c.ttl); Bytes ex = X("A0000000031010"); LIB((emv_tlv_list_push(&ctx.supported_aids, 0x9F06, 5, AIDP.data(), EMV_ASI_PARTIAL_MATCH), emv_tlv_list_push(&ctx.supported_aids, 0x9F06, 7, ex.data(), EMV_ASI_EXACT_MATCH), 0));
	emv_app_list_t l = EMV_APP_LIST_INIT; int r;
	if (op == 0) r = LIB(emv_build_candidate_list(&ctx, &l));
	if (op == 1) { LIB((emv_app_list_push(&l, app(false)), emv_app_list_push(&l, app(true)), 0)); r = LIB(emv_select_application(&ctx, &l, 0)); }
	if (op == 2) { ctx.selected_app = app(true); r = LIB(emv_initiate_application_processing(&ctx, 5)); }
	if (op == 3) { Bytes a = X("08 01 FF 00 F0 01 03 00 58 FE FF 00"); LIB(emv_tlv_list_push(&ctx.icc, 0x94, a.size(), a.data(), 0)); r = LIB(emv_read_application_data(&ctx)); }
	over(m, c, N[op]); uint64_t lo = c.n; unsigned bits = 0; while (lo) { ++bits; lo >>= 1; } static const char* B[] = { "0", "1", "2-3", "4-7", "8-15", "16-31", "32-63", "64-127", "128-255", "256-511", "512-1023", "1024-2047", "2048-4095", "4096-8191", "8192-16383", "16384-32767", "32768-65535" }; m.cover(B[bits]); m.state(hmix(hmix(c.n, op * 2 + T), r));
	LIB((emv_app_list_clear(&l), emv_ctx_clear(&ctx), 0)); if (alloc_live()) m.fail("leak", "%zu allocations remain", alloc_live());
}
static void transport(Mc& m, bool T, unsigned kase, unsigned maxpre, unsigned maxper, int first) {
	static const Bytes C[] = { X("00A40400"), X("00B2010C00"), X("00A4040003010203"), X("00A404000301020300"), X("00B2010C05") }; Bytes cmd = C[kase]; if (kase == 3) { cmd = X("00A40400FF"); for (int i = 0; i < 255; ++i) cmd.push_back(i); cmd.push_back(0); }
	Endless c(m, T, 20000); prepare(m, c, maxpre, maxper, first); if (m.skipped) return;
	Buf in(cmd), out(258); size_t n = 258; uint16_t sw = 0; int r = LIB(emv_ttl_trx(&c.ttl, in.p(), in.n(), out.p(), &n, &sw)); over(m, c, "the exchange"); m.state(hmix(hmix(c.n, kase * 2 + T), r)); m.cover(r ? "error" : "completed");
}
static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough");
	for (int T = 0; T < 2; ++T) {
		unsigned n = T ? sizeof KT / 4 : sizeof KA / 4; std::string mode = T ? " T=0" : " APDU";
		add(("transport" + mode).c_str(), 5 * n, [=](Mc& m, uint64_t k) { transport(m, T, k / n, th ? 2 : T ? 1 : 2, 2, k % n); }, 2);
		add(("build" + mode).c_str(), n, [=](Mc& m, uint64_t k) { session(m, T, 0, th ? 3 : 2, 2, k); }, 2);
		add(("select" + mode).c_str(), n, [=](Mc& m, uint64_t k) { session(m, T, 1, th ? 2 : 1, 2, k); }, 2);
		add(("initiate" + mode).c_str(), n, [=](Mc& m, uint64_t k) { session(m, T, 2, th ? 2 : 1, 2, k); }, 2);
		add(("read" + mode).c_str(), n, [=](Mc& m, uint64_t k) { session(m, T, 3, th ? 2 : 1, 2, k); }, 2);
	}
	// well behaved transport, endless application level (T=0 data needs GET RESPONSE in between)
	add("endless applications", 2 * 20, [=](Mc& m, uint64_t k) {
		alloc_reset(); Card card(m, k & 1); card.limit = 20000; emv_ctx_t ctx; emv_ctx_init(&ctx, &card.ttl); Bytes ex = X("A0000000031010"), p2 = X("A000000003"); LIB((emv_tlv_list_push(&ctx.supported_aids, 0x9F06, 5, AIDP.data(), EMV_ASI_PARTIAL_MATCH), emv_tlv_list_push(&ctx.supported_aids, 0x9F06, 7, ex.data(), EMV_ASI_EXACT_MATCH), emv_tlv_list_push(&ctx.supported_aids, 0x9F06, 5, p2.data(), EMV_ASI_PARTIAL_MATCH), 0));
		unsigned pse = (k >> 1) % 4, sel = (k >> 1) / 4, per = 1 + m.choose(3); std::vector<unsigned> w; for (unsigned i = 0; i < per; ++i) w.push_back(m.choose(6)); unsigned i = 0;
		card.answer = [&](const Bytes& c) -> Ans {
			if (c[1] == 0xA4) { Bytes nm(c.begin() + 5, c.begin() + 5 + c[4]); if (nm == PSE) return pse == 0 ? A(0x6A82) : A(fci(PSE, tlv(0x88, { 1 })));
				unsigned a = w[i++ % per] ; Bytes lo = nm; if (sel) lo.push_back(c[3] & 2 ? i : 7); if (sel > 2) lo.push_back(i >> 8); switch (a) { case 0: return A(fci(lo, tlv(0x50, S("X")))); case 1: return A(fci(lo, {}), 0x6283); case 2: return A(fci(nm, {})); case 3: return A(0x6A82); case 4: return A(fci(lo, tlv(0x87, { (uint8_t)i }))); default: return A(X("6F00")); } }
			if (pse == 1) return A(0x6F00); if (pse == 2) return A(tlv(0x70, tlv(0x61, {}))); unsigned a = w[i++ % per]; return a == 0 ? A(tlv(0x70, entry(ex, "X", 1))) : a == 1 ? A(0x6283) : a == 2 ? A(0x9000) : a == 3 ? A(tlv(0x70, {})) : a == 4 ? A(X("7001")) : A(tlv(0x61, {}));
		};
		emv_app_list_t l = EMV_APP_LIST_INIT; int r = LIB(emv_build_candidate_list(&ctx, &l)); if (card.runaway) m.fail("endless", "building the candidate list still going after %u exchanges", card.limit); m.state(hmix(card.h, r)); m.cover(r ? "refused" : "completed");
		LIB((emv_app_list_clear(&l), emv_ctx_clear(&ctx), 0)); if (alloc_live()) m.fail("leak", "%zu allocations remain", alloc_live()); });
}
static struct Init { Init() { setup_hook = setup; } } init_;
