// C15: initiate application processing
#include "session.h"
static const Bytes AID = X("A0000000031010");
struct T { unsigned tag; uint8_t nat; };
static const T TAGS[] = { { 0x9F02, 6 }, { 0x9F1A, 2 }, { 0x9F06, 7 }, { 0x95, 5 }, { 0x9F39, 1 }, { 0x9F37, 4 }, { 0x9F33, 3 }, { 0x9B, 2 }, { 0x5F2A, 2 }, { 0x9F7A, 1 }, { 0x82, 2 }, { 0x9F1E, 8 } };
static const unsigned NT = 12;
static Bytes dolent(unsigned tag, uint8_t len) { Bytes o; if (tag > 0xFF) o.push_back(tag >> 8); o.push_back(tag); o.push_back(len); return o; }
static Ans gpo(unsigned k) {
	switch (k) {
		case 0: return A(tlv(0x80, X("3900 08010100")));
		case 1: return A(tlv(0x77, tlv(0x82, X("3800")) + tlv(0x94, X("08010100 10010200"))));
		case 2: return A(tlv(0x77, tlv(0x94, X("08010100")) + tlv(0x82, X("3800")) + tlv(0x9F36, X("0001"))));
		case 3: return A(tlv(0x77, tlv(0x82, X("3800"))));
		case 4: return A(tlv(0x77, tlv(0x94, X("08010100"))));
		case 5: return A(tlv(0x77, {}));
		case 6: return A(tlv(0x80, {}));
		case 7: return A(tlv(0x80, X("3900 080101")));
		case 8: return A(tlv(0x80, X("3900")));
		case 9: return A(tlv(0x80, X("3900 08010100 10010200 18010300")));
		case 10: return A(tlv(0x82, X("3800")));
		case 11: return A(tlv(0x70, tlv(0x82, X("3800")) + tlv(0x94, X("08010100"))));
		case 12: return A(0x9000);
		case 13: return A(0x6985);
		case 14: return A(0x6A81);
		case 15: return A(0x6283);
		case 16: return A(tlv(0x80, X("3900 08010100")), 0x6285);
		case 17: return Fault(-1);
		case 18: return Fault(7);
		case 19: return A(X("77 08 82 02 38 00 94 04 08 01"));
		case 20: return A(tlv(0x77, tlv(0x82, X("3800")) + X("94 05 08 01 01 00")));
		case 21: return A(tlv(0x77, tlv(0x82, X("3800")) + tlv(0x94, X("08010100"))) + X("00"));
		case 22: return A(tlv(0x77, tlv(0xA5, tlv(0x82, X("3800")) + tlv(0x94, X("08010100")))));
		case 23: return A(tlv(0x77, tlv(0x82, X("3800")) + tlv(0x82, X("1800")) + tlv(0x94, {})));
		case 24: return A(X("80 06 39 00 08"));
		case 25: return A(tlv(0x80, Bytes(2 + 252, 0x08)));
		case 26: return A(tlv(0x80, X("3900 08010100")), 0x6985);
		case 27: return A(X("77 81 0A 82 02 38 00 94 04 08 01 01 00"));
		case 28: return A(tlv(0x77, tlv(0x82, X("3800")) + tlv(0x94, X("08010100")) + tlv(0x5A, X("4111")) + tlv(0x57, X("4111D2512")) + tlv(0x9F10, Bytes(32, 6))));
		case 29: return Raw({ 0x90 });
		case 30: return A(tlv(0x80, X("3900 08010100")) + X("9000"));
		default: return A(0x6F00);
	}
}
static const unsigned NG = 32;
#ifndef MENU_ONLY
struct Opt { bool app = true, stale = false, tpdu = false; int pdol = 1; unsigned srcs = 0; uint8_t pos = 0x05; unsigned naid = 7; };
static void fill(emv_ctx_t& ctx, RCtx& x, unsigned srcs) { // bit per (tag, source) of interest
	if (srcs & 1) { push(ctx.params, x.params, 0x9F02, X("000000012345")); push(ctx.params, x.params, 0x5F2A, X("0978")); }
	if (srcs & 2) { push(ctx.config, x.config, 0x9F1A, X("0528")); push(ctx.config, x.config, 0x9F33, X("E0F8C8")); push(ctx.config, x.config, 0x9F02, X("999999999999")); }
	if (srcs & 4) { push(ctx.params, x.params, 0x95, X("0102030405")); push(ctx.config, x.config, 0x9F39, X("91")); push(ctx.params, x.params, 0x9F1A, X("0840")); }
	if (srcs & 8) { push(ctx.config, x.config, 0x9F06, X("A0000000031010")); push(ctx.config, x.config, 0x9F1E, S("TERM0001")); push(ctx.params, x.params, 0x9F37, X("DEADBEEF")); push(ctx.params, x.params, 0x9F37, X("00000000")); }
}
static void run(Mc& m, const Bytes* pdol, unsigned srcs, bool stale, bool tpdu, uint8_t pos, unsigned naid, std::function<Ans()> ans, unsigned calls = 1) {
	alloc_reset(); emv_ctx_t ctx; RCtx x; Card card(m, tpdu); emv_ctx_init(&ctx, &card.ttl); fill(ctx, x, srcs);
	Bytes id = X("A0000000031010010203040506070809"); id.resize(naid); Bytes f = fci(id, tlv(0x50, S("VISA")) + tlv(0x87, { 1 }) + (pdol ? tlv(0x9F38, *pdol) : Bytes()) + tlv(0x5F2D, S("en")));
	x.has_app = ref_fci(f, x.app); ctx.selected_app = LIB(emv_app_create_from_fci(f.data(), f.size())); if (!ctx.selected_app || !x.has_app) m.fail("refused", "application refused");
	if (stale) { push(ctx.icc, x.icc, 0x82, X("FFFF")); push(ctx.icc, x.icc, 0x94, X("F8010100")); push(ctx.terminal, x.terminal, 0x9F37, X("11223344")); push(ctx.terminal, x.terminal, 0x95, X("FFFFFFFFFF")); }
	card.answer = [&](const Bytes& c) { return c[1] == 0xA8 ? ans() : A(0x6F00); };
	if (pdol) m.log("list %s", hex(*pdol).c_str());
	try { for (unsigned k = 0; k < calls; ++k) { size_t at = card.log.size(); int r = LIB(emv_initiate_application_processing(&ctx, pos + k)); m.step(); Replay rep(m, card, at); int e = ref_initiate(rep, x, pos + k); rep.done();
		if (r != e) m.fail("outcome", "returned %d, expected %d", r, e); cmp_ctx(m, ctx, x); m.cover(e == 0 ? "success" : e == O_CARD_ERROR ? "card error" : e == O_GPO ? "conditions not satisfied" : "refused"); m.state(hlist(x.icc, hmix(card.h, e))); if (!card.log.empty()) m.state(hash(card.log[0].tx.data(), card.log[0].tx.size())); } }
	catch (Unspecified&) { m.cover("unspecified"); }
	LIB(emv_ctx_clear(&ctx)); if (alloc_live()) m.fail("leak", "%zu allocations remain", alloc_live());
}
static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough");
	add("answers", NG * 4, [](Mc& m, uint64_t k) { static const Bytes P = dolent(0x9F1A, 2) + dolent(0x9F02, 6); unsigned s = m.choose(4); run(m, k / NG & 1 ? &P : nullptr, s * 5, k / NG & 2, m.choose(2), 0x07, 7, [&] { return gpo(k % NG); }); });
	add("repeated initiation", NG, [](Mc& m, uint64_t k) { static const Bytes P = dolent(0x9F39, 1); unsigned n = 0; run(m, &P, 3, true, m.choose(2), 0x05, 7, [&] { unsigned c = n++ ? m.choose(NG) : k; return gpo(c); }, 3); });
	add("lists", NT, [=](Mc& m, uint64_t k) { // all lists of up to three entries, requested lengths around the natural one
		unsigned n = m.choose(th ? 3 : 2) + 1; Bytes d; for (unsigned i = 0; i < n; ++i) { const T& t = TAGS[i ? m.choose(NT) : k]; static const int DL[] = { 0, 1, -1, 3, -100 }; int l = (int)t.nat + DL[m.choose(i == 2 ? 2 : 5)]; d = d + dolent(t.tag, l < 0 ? 0 : l); }
		unsigned s = m.choose(16); run(m, &d, s, s & 1, false, 0x05, 5 + s % 12, [&] { return gpo(s & 2 ? 0 : 1); }); }, 3);
	add("data lengths", 260, [](Mc& m, uint64_t k) { // total requested data of every length around the encoding boundaries
		Bytes d; unsigned w = m.choose(3); if (w == 0) { if (k > 255) { m.skip(); return; } d = dolent(0x9F37, k); } else if (w == 1) { d = dolent(0x9F1E, k / 2) + dolent(0x9F02, k - k / 2); } else { d = dolent(0x9F1E, 3) + dolent(0x9A, k > 3 ? std::min<unsigned>(k - 3, 255) : 0); }
		run(m, &d, 15, false, m.choose(2), 0x05, 7, [&] { return gpo(0); }); });
	add("large data lengths", 6, [](Mc& m, uint64_t k) { static const unsigned L[] = { 256, 300, 507, 510, 512, 600 }; Bytes d; unsigned left = L[k]; while (left) { unsigned c = std::min(left, 255u); d = d + dolent(0x9F37, c); left -= c; } run(m, &d, 15, false, false, 5, 7, [&] { return gpo(0); }); });
	static const Bytes AL = { 0x9F, 0x02, 0x1A, 0x81, 0x95, 0x05, 0x00, 0xFF };
	for (unsigned n = 0; n <= (th ? 6u : 5u); ++n) add(("list strings length " + std::to_string(n)).c_str(), n ? 8 : 1, [n](Mc& m, uint64_t k) { Bytes d; if (n) d.push_back(AL[k]); while (d.size() < n) d.push_back(AL[m.choose(AL.size())]); run(m, &d, 7, false, false, 5, 7, [&] { return gpo(0); }); }, n > 1 ? 8 : 1);
	add("format 1 lengths", 255, [](Mc& m, uint64_t k) { Bytes v; for (unsigned i = 0; i < k; ++i) v.push_back(i * 3 + 1); Bytes b = tlv(0x80, v); if (b.size() > 256) { m.skip(); return; } run(m, nullptr, 0, false, m.choose(2), 5, 7, [&] { return A(b); }); });
	static const Bytes R = { 0x77, 0x80, 0x82, 0x94, 0x00, 0x02, 0x04, 0x06, 0x81 };
	for (unsigned n = 0; n <= (th ? 6u : 5u); ++n) add(("response strings length " + std::to_string(n)).c_str(), n ? 9 : 1, [n](Mc& m, uint64_t k) { Bytes d; if (n) d.push_back(R[k]); while (d.size() < n) d.push_back(R[m.choose(R.size())]); run(m, nullptr, 0, false, false, 5, 7, [&] { return A(d); }); }, n > 1 ? 9 : 1);
	add("altered responses", 3, [](Mc& m, uint64_t k) { Bytes b = gpo(k == 0 ? 0 : k == 1 ? 1 : 2).data; bool cut = m.choose(2); if (cut) b.resize(m.choose(b.size())); else { unsigned i = m.choose(b.size()); b[i] = m.choose(256); } run(m, nullptr, 0, false, false, 5, 7, [&] { return A(b); }); });
	add("every status word", 256, [](Mc& m, uint64_t k) { uint16_t sw = k << 8 | m.choose(256); if ((sw >> 8) == 0x61 || (sw >> 8) == 0x6C || !sw) { m.skip(); return; } bool d = m.choose(2); run(m, nullptr, 0, true, false, 5, 7, [&] { return d ? A(tlv(0x80, X("3900 08010100")), sw) : A(sw); }); });
	add("entry modes", 256, [](Mc& m, uint64_t k) { static const Bytes P = dolent(0x9F39, 1) + dolent(0x9F06, 16) + dolent(0x9F39, 2); run(m, &P, m.choose(2) * 2, false, false, k, 5 + k % 12, [&] { return gpo(0); }); });
	add("many fields to look through", 64, [](Mc& m, uint64_t k) { // the requested fields stand behind k others, in either source; the card's answer holds as many
		static const Bytes P = dolent(0x9F02, 6) + dolent(0x9F1A, 2) + dolent(0x9F37, 4); alloc_reset(); emv_ctx_t ctx; RCtx x; bool tpdu = m.choose(2); Card card(m, tpdu); emv_ctx_init(&ctx, &card.ttl); unsigned w = m.choose(4); auto some = [&](unsigned n, unsigned base) { Bytes b; for (unsigned i = 0; i < n; ++i) cat(b, tlv(0xDF00 + 0x40 + i % 32 + base, { (uint8_t)i })); return b; };
		for (unsigned i = 0; i < k; ++i) { push(ctx.params, x.params, 0xDF10 + i % 32, { (uint8_t)i }); push(ctx.config, x.config, 0xDF30 + i % 16, { (uint8_t)i, 1 }); }
		auto& l = w & 1 ? ctx.params : ctx.config; auto& rl = w & 1 ? x.params : x.config; push(l, rl, 0x9F37, X("DEADBEEF")); push(l, rl, 0x9F1A, X("0528")); push(l, rl, 0x9F02, X("000000012345")); push(ctx.config, x.config, 0x9F02, X("999999999999"));
		Bytes f = fci(X("A0000000031010"), tlv(0x50, S("VISA")) + some(w & 2 ? k / 2 : 0, 0) + tlv(0x9F38, P)); x.has_app = ref_fci(f, x.app); ctx.selected_app = LIB(emv_app_create_from_fci(f.data(), f.size())); if (!ctx.selected_app || !x.has_app) m.fail("refused", "application refused");
		card.answer = [&](const Bytes& c) { return c[1] != 0xA8 ? A(0x6F00) : w & 2 ? A(tlv(0x77, some(std::min<unsigned>(k, 50), 0) + tlv(0x82, X("3900")) + tlv(0x94, X("08010100")))) : gpo(0); };
		int r = LIB(emv_initiate_application_processing(&ctx, 5)); m.step(); Replay rep(m, card, 0); m.log("%u fields", (unsigned)k); int e = ref_initiate(rep, x, 5); rep.done(); if (r != e) m.fail("outcome", "returned %d, expected %d", r, e); cmp_ctx(m, ctx, x); m.cover(e ? "refused" : "success"); m.state(hlist(x.icc, hmix(card.h, e))); LIB(emv_ctx_clear(&ctx)); if (alloc_live()) m.fail("leak", "allocations remain"); });
	add("arguments", 1, [](Mc& m, uint64_t) { alloc_reset(); emv_ctx_t c; Card card(m); emv_ctx_init(&c, &card.ttl); RCtx x; push(c.icc, x.icc, 0x94, X("08010100")); push(c.terminal, x.terminal, 0x95, Bytes(5)); m.step(2);
		if (LIB(emv_initiate_application_processing(nullptr, 5)) != E_PARAM || LIB(emv_initiate_application_processing(&c, 5)) != E_PARAM) m.fail("null", "initiation without a selected application accepted"); cmp_ctx(m, c, x);
		// transaction-layer entry point: output pointers
		card.answer = [&](const Bytes&) { return gpo(m.choose(NG)); }; emv_tlv_list_t l = EMV_TLV_LIST_INIT; const emv_tlv_t *aip = (emv_tlv_t*)1, *afl = (emv_tlv_t*)1; int r = LIB(emv_tal_get_processing_options(&card.ttl, nullptr, 0, &l, &aip, &afl));
		if (r ? aip || afl || l.front : !aip || !afl || aip != emv_tlv_list_find(&l, 0x82) || afl != emv_tlv_list_find(&l, 0x94)) m.fail("pointers", "output pointers after result %d", r);
		uint8_t b[3] = { 0x83, 0, 0 }; if (emv_tal_get_processing_options(nullptr, nullptr, 0, &l, 0, 0) >= 0 || emv_tal_get_processing_options(&card.ttl, nullptr, 0, nullptr, 0, 0) >= 0 || emv_tal_get_processing_options(&card.ttl, nullptr, 3, &l, 0, 0) >= 0 || emv_tal_get_processing_options(&card.ttl, b, 1, &l, 0, 0) >= 0) m.fail("null", "invalid argument accepted");
		LIB((emv_tlv_list_clear(&l), emv_ctx_clear(&c), 0)); if (alloc_live()) m.fail("leak", "allocations remain"); });
}
static struct Init { Init() { setup_hook = setup; } } init_;
#endif
