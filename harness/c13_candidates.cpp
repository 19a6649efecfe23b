// C13: candidate list
#include "session.h"
static const Bytes V = X("A0000000031010"), MC = X("A0000000041010"), VX = X("A000000003101001"), VY = X("A000000003101002"), UN = X("A0000000651010"), V5 = X("A000000003"), M5 = X("A000000004");
static std::vector<Sup> supset(unsigned k) {
	switch (k) { case 0: return { { V, false } }; case 1: return { { V5, true }, { MC, false } }; case 2: return { { V, true } }; case 3: return { { MC, false }, { V5, true } }; case 4: return { { V, false }, { V5, true } }; case 5: return {}; case 6: return { { V, true }, { MC, true } }; default: return { { X("A000000003101001020304050607080A"), false }, { V5, true } }; }
}
static const unsigned NSUP = 8;
static Ans pse(unsigned k) {
	Bytes n = tlv(0x84, PSE);
	switch (k) {
		case 0: return A(fci(PSE, tlv(0x88, { 1 })));
		case 1: return A(0x6A82);
		case 2: return A(0x6A81);
		case 3: return A(0x6283);
		case 4: return A(fci(PSE, tlv(0x88, { 1 })), 0x6283);
		case 5: return A(0x6F00);
		case 6: return A(fci(PSE, tlv(0x5F2D, S("en"))));
		case 7: return A(fci(PSE, tlv(0x88, { 1, 2 })));
		case 8: return A(fci(PSE, tlv(0x88, {})));
		case 9: return A(fci(PSE, tlv(0x88, { 10 }) + tlv(0x5F2D, S("enfr")) + tlv(0x9F11, { 1 })));
		case 10: return Fault(-5);
		case 11: return A(0x9000);
		case 12: return A(X("6F 05 88 01 02 88"));     // directory file found before the malformed part
		case 13: return A(X("6F 08 84 09 31 32 33"));   // malformed before anything useful
		case 14: return A(fci(PSE, tlv(0x88, { 30 })));
		case 15: return A(fci(PSE, tlv(0x88, { 0 })));
		case 16: return Raw({ 0x90 });
		case 17: return A(fci(PSE, tlv(0x88, { 2 })), 0x6A82);
		case 18: return A(fci(PSE, tlv(0x88, { 31 })));
		case 19: return A(tlv(0x88, { 3 }));
		case 20: return A(tlv(0x6F, n + tlv(0xA5, tlv(0x88, { 1 }) + tlv(0xBF0C, tlv(0x9F11, { 5 }))))); 
		default: return A(0x6985);
	}
}
static const unsigned NPSE = 22;
static Ans record(unsigned k, unsigned n) {
	auto R = [](const Bytes& b) { return A(tlv(0x70, b)); };
	switch (k) {
		case 0: return A(0x6A83);
		case 1: return R(entry(V, "VISA", 1));
		case 2: return R(entry(UN, "JCB", 1) + entry(MC, "MC", 2));
		case 3: return R(entry(VX, nullptr, 0x81) + entry(V, "VISA"));
		case 4: return R({});
		case 5: return A(tlv(0x6F, entry(V, "VISA", 1)));
		case 6: return A(X("70 10 61 02 4F"));
		case 7: return R(tlv(0x61, tlv(0x50, S("VISA"))) + entry(V, "AFTER", 3));
		case 8: return R(tlv(0x61, X("4F 09 01")) + entry(MC, "MC", 2));
		case 9: return R(tlv(0x9F12, S("x")) + tlv(0x62, tlv(0x4F, V)) + entry(VY, "VY", 2));
		case 10: return A(0x6985);
		case 11: return Fault(9);
		case 12: return R(tlv(0x61, tlv(0x4F, V) + tlv(0x50, S("VISA")) + tlv(0x9F12, S("Vis\xE1")) + tlv(0x87, { 2 })));
		case 13: return A(0x9000);
		case 14: return R(entry(V, "VISA", 1) + X("61 05 4F"));
		case 15: return A(tlv(0x70, entry(V, "VISA", 15)), 0x6A83);
		case 16: return A(tlv(0x70, entry(V, "VISA", 15)), 0x6283);
		case 17: return R(entry(V5, "SHORT", 4) + entry(X("A000000003101001020304050607080A"), "LONG", 4));
		case 18: return R(entry(V, "VISA", 0x10 + n));
		default: return A(tlv(0x70, entry(MC, "MC", 3)) + X("00"));
	}
}
static const unsigned NREC = 20;
static Ans app(const Bytes& aid, bool next, unsigned k, unsigned seq) {
	auto P = [&](int p) { return tlv(0x50, S("APP")) + (p >= 0 ? tlv(0x87, { (uint8_t)p }) : Bytes()); };
	Bytes longer = aid; longer.push_back(seq); Bytes two = longer; two.push_back(0x99);
	switch (k) {
		case 0: return A(0x6A82);
		case 1: return A(fci(aid, P(1 + seq % 3)));
		case 2: return A(fci(longer, P(2)));
		case 3: return A(fci(aid, P(3)), 0x6283);
		case 4: return A(fci(longer, P(-1)), 0x6283);
		case 5: return A(0x6A81);
		case 6: return Fault(-3);
		case 7: return A(X("6F 05 84 07 A0 00 00"));
		case 8: return A(tlv(0x6F, tlv(0xA5, P(1))));
		case 9: return A(fci(two, tlv(0x87, { 0x85 })));
		case 10: return A(0x6283);
		case 11: return A(fci(aid, P(1)), 0x6985);
		case 12: return A(0x9000);
		case 13: return A(fci(aid, tlv(0x50, S("VISA")) + tlv(0x9F11, { 1 }) + tlv(0x9F12, S("Caf\xE9"))));
		case 14: return A(fci(aid, P(1)) + X("00"));
		default: return A(fci(longer, P(0x81)));
	}
}
static const unsigned NAPP = 16;
#ifndef MENU_ONLY
struct Plan { unsigned pse_n, rec_n, rec_max, app_n, app_max; int pse_fixed; };
static void run(Mc& m, unsigned sup, bool tpdu, const Plan& p, unsigned debugpre = 0) {
	alloc_reset(); emv_ctx_t ctx; RCtx x; Card card(m, tpdu); unsigned recs = 0, apps = 0;
	emv_ctx_init(&ctx, &card.ttl); support(ctx, x, supset(sup)); push(ctx.config, x.config, 0x9F1A, { 5, 0x28 });
	card.answer = [&](const Bytes& c) -> Ans {
		if (c[1] == 0xB2) { if (recs >= p.rec_max) return A(0x6A83); ++recs; return record(m.choose(p.rec_n), recs); }
		if (c[1] == 0xA4) { Bytes name(c.begin() + 5, c.begin() + 5 + c[4]); if (name == PSE) { return pse(p.pse_fixed >= 0 ? p.pse_fixed : m.choose(p.pse_n)); } if (apps >= p.app_max) return A(0x6A82); ++apps; return app(name, c[3] == 2, m.choose(p.app_n), apps); }
		return A(0x6D00);
	};
	emv_app_list_t l = EMV_APP_LIST_INIT; int r = LIB(emv_build_candidate_list(&ctx, &l));
	Replay rep(m, card, 0); std::vector<RApp> want; bool any; 
	try {
		int e = ref_build(rep, x, want, any); rep.done();
		m.log("outcome %d, %zu candidates expected", e, want.size());
		if (r != e) m.fail("outcome", "returned %d, expected %d", r, e);
		if (!any) cmp_apps(m, l, want);
		cmp_ctx(m, ctx, x); m.cover(e == 0 ? (want.size() > 1 ? "several candidates" : "one candidate") : e == O_CARD_ERROR ? "card error" : e == O_BLOCKED ? "card blocked" : "not accepted");
		if (!e) { bool req = want.size() > 1; for (auto& a : want) req |= a.conf; if (emv_app_list_selection_is_required(&l) != req) m.fail("selection", "cardholder selection requirement misreported"); }
	} catch (Unspecified&) { m.cover("unspecified"); }
	m.state(hmix(card.h, r)); LIB((emv_app_list_clear(&l), emv_ctx_clear(&ctx), 0)); if (alloc_live()) m.fail("leak", "%zu allocations remain", alloc_live());
}
static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough");
	add("directory then list", NSUP * 2, [](Mc& m, uint64_t k) { run(m, k / 2, k & 1, { NPSE, NREC, 2, 3, 3, -1 }); }, NPSE);
	add("directory records", NSUP * 2, [](Mc& m, uint64_t k) { run(m, k / 2, k & 1, { NPSE, NREC, m.thorough ? 4u : 3u, 2, 2, k & 1 ? 9 : 0 }); }, NREC);
	add("list of identifiers", NSUP * 2, [](Mc& m, uint64_t k) { run(m, k / 2, k & 1, { 1, 1, 0, NAPP, m.thorough ? 5u : 4u, 1 }); }, NAPP);
	add("long directories", NSUP, [](Mc& m, uint64_t k) { run(m, k, false, { 1, 5, m.thorough ? 8u : 6u, 1, 0, 0 }); }, 5);
	add("long selection chains", NSUP, [](Mc& m, uint64_t k) { run(m, k, false, { 1, 1, 0, 5, m.thorough ? 9u : 7u, 1 }); }, 5);
	add("every directory status word", 256, [](Mc& m, uint64_t k) { // every status word at SELECT PSE, READ RECORD, SELECT and SELECT next
		unsigned at = m.choose(4), data = m.choose(2); uint16_t sw = k << 8 | m.choose(256); if ((sw >> 8) == 0x61 || (sw >> 8) == 0x6C || !sw) { m.skip(); return; }
		alloc_reset(); emv_ctx_t ctx; RCtx x; Card card(m); emv_ctx_init(&ctx, &card.ttl); support(ctx, x, { { V5, true }, { MC, false } }); unsigned recs = 0, nexts = 0;
		card.answer = [&](const Bytes& c) -> Ans {
			if (c[1] == 0xB2) { ++recs; if (at == 1 && recs == 2) return data ? A(tlv(0x70, entry(MC, "MC", 2)), sw) : A(sw); return recs > 3 ? A(0x6A83) : record(at == 1 ? 1 : 4, recs); }
			if (c[1] == 0xC0) return A(0x6F00);
			if (c.size() == 20u) return at == 0 ? (data ? A(fci(PSE, tlv(0x88, { 1 })), sw) : A(sw)) : pse(0);
			Bytes name(c.begin() + 5, c.begin() + 5 + c[4]);
			if (c[3] == 2) { if (at == 3 && ++nexts == 1) return data ? app(name, true, 15, 7) : A(sw); return A(0x6A82); }
			if (name == V5) { if (at == 2) return data ? [&] { Ans a = app(name, false, 2, 1); a.sw = sw; return a; }() : A(sw); return app(name, false, 2, 1); }
			return app(name, false, 1, 1); };
		emv_app_list_t l = EMV_APP_LIST_INIT; int r = LIB(emv_build_candidate_list(&ctx, &l)); Replay rep(m, card, 0); std::vector<RApp> want; bool any; m.log("status %04X at step %u", sw, at);
		try { int e = ref_build(rep, x, want, any); rep.done(); if (r != e) m.fail("outcome", "returned %d, expected %d", r, e); if (!any) cmp_apps(m, l, want); m.cover(e ? "outcome" : "list"); } catch (Unspecified&) { m.cover("unspecified"); }
		m.state(hmix(hmix(sw, at), data)); LIB((emv_app_list_clear(&l), emv_ctx_clear(&ctx), 0)); if (alloc_live()) m.fail("leak", "allocations remain"); });
	add("endless directory and chain", 4, [](Mc& m, uint64_t k) { alloc_reset(); emv_ctx_t ctx; RCtx x; Card card(m, k & 1); emv_ctx_init(&ctx, &card.ttl); support(ctx, x, supset(1));
		card.answer = [&](const Bytes& c) -> Ans { if (c[1] == 0xB2) return k & 2 ? record(4, 1) : record(1, 1); if (c[1] != 0xA4) return A(0x6D00); Bytes n(c.begin() + 5, c.begin() + 5 + c[4]); if (n == PSE) return pse(0); return app(n, c[3] == 2, 2, 1); };
		emv_app_list_t l = EMV_APP_LIST_INIT; card.limit = 5000; int r = LIB(emv_build_candidate_list(&ctx, &l)); Replay rep(m, card, 0); std::vector<RApp> want; bool any; if (card.runaway) m.fail("endless", "candidate list is never completed");
		try { int e = ref_build(rep, x, want, any); rep.done(); if (r != e) m.fail("outcome", "returned %d, expected %d", r, e); if (!any) cmp_apps(m, l, want); } catch (Unspecified&) {} m.state(k); LIB((emv_app_list_clear(&l), emv_ctx_clear(&ctx), 0)); if (alloc_live()) m.fail("leak", "allocations remain"); });
	// many: directories with many records, terminals with many identifiers, cards with many applications
	auto many = [](Mc& m, const std::vector<Sup>& sup, bool tpdu, std::function<Ans(const Bytes&)> answer) {
		alloc_reset(); emv_ctx_t ctx; RCtx x; Card card(m, tpdu); emv_ctx_init(&ctx, &card.ttl); support(ctx, x, sup); card.answer = answer; card.limit = 20000; emv_app_list_t l = EMV_APP_LIST_INIT; int r = LIB(emv_build_candidate_list(&ctx, &l)); Replay rep(m, card, 0); std::vector<RApp> want; bool any; if (card.runaway) m.fail("endless", "candidate list is never completed");
		try { int e = ref_build(rep, x, want, any); rep.done(); if (r != e) m.fail("outcome", "returned %d, expected %d", r, e); if (!any) cmp_apps(m, l, want); cmp_ctx(m, ctx, x); m.cover(want.size() > 8 ? "many candidates" : "candidates"); } catch (Unspecified&) { m.cover("unspecified"); }
		m.state(hmix(card.h, r)); LIB((emv_app_list_clear(&l), emv_ctx_clear(&ctx), 0)); if (alloc_live()) m.fail("leak", "allocations remain"); };
	auto nth = [](unsigned i) { return Bytes{ 0xA0, 0, 0, 0, 3, (uint8_t)(i >> 8), (uint8_t)i }; };
	add("many identifiers", 48, [=](Mc& m, uint64_t k) { // all, one or the last of n identifiers is on the card
		unsigned n = k + 1, w = m.choose(n + 3), ex = m.choose(2); std::vector<Sup> s; for (unsigned i = 0; i < n; ++i) s.push_back({ nth(i), !ex }); m.log("%u identifiers", n);
		many(m, s, k & 1, [&](const Bytes& c) -> Ans { if (c[1] != 0xA4) return A(0x6D00); Bytes name(c.begin() + 5, c.begin() + 5 + c[4]); if (name == PSE) return A(0x6A82); unsigned i = name[5] << 8 | name[6]; if (c[3] == 2) return A(0x6A82); return w == n ? A(0x6A82) : w > n || w == i ? A(fci(name, tlv(0x50, S("APP")) + tlv(0x87, { (uint8_t)(w == n + 2 ? i % 16 : 1) }))) : A(0x6A82); }); });
	add("many directory records", 64, [=](Mc& m, uint64_t k) { // n records of e entries, supported ones at chosen places only or everywhere
		static const unsigned R[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 25, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 200, 253, 254, 255 }; unsigned n = R[k / 2], e = 1 + m.choose(3) * 3, w = m.choose(5), rec = 0;
		many(m, { { V5, true } }, k & 1, [&](const Bytes& c) -> Ans { if (c[1] == 0xA4) return pse(0); if (c[1] != 0xB2 || c[2] > n) return A(0x6A83); rec = c[2]; Bytes b; for (unsigned i = 0; i < e; ++i) { unsigned id = (rec - 1) * e + i; bool in = w == 0 || (w == 1 && id == n * e - 1) || (w == 2 && id % 5 == 0) || (w == 3 && id == n * e / 2) || (w == 4 && rec % 7 == 1); Bytes aid = nth(id); if (!in) aid[4] = 0x77; cat(b, entry(aid, "A", 1 + id % 15)); } return A(tlv(0x70, b)); }); });
	add("many applications of one identifier", 40, [=](Mc& m, uint64_t k) { static const unsigned R[] = { 1, 2, 3, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65 }; unsigned n = R[k / 2], w = m.choose(4), seq = 0; // blocked ones in between; ends in any way
		many(m, { { MC, false }, { V5, true }, { M5, true } }, k & 1, [&](const Bytes& c) -> Ans { if (c[1] != 0xA4) return A(0x6D00); Bytes name(c.begin() + 5, c.begin() + 5 + c[4]); if (name == PSE) return A(0x6A82); if (c[3] == 0) seq = 0; if (name == MC) return A(0x6A82); if (name == M5 && w != 3) return A(0x6A82); if (++seq > n) return A(w == 1 ? 0x6A81 : 0x6A82); Bytes id = name; id.push_back(seq); return A(fci(id, tlv(0x50, S("APP")) + tlv(0x87, { (uint8_t)(seq % 16) })), w == 2 && seq % 3 ? 0x6283 : 0x9000); }); });
	add("arguments", 1, [](Mc& m, uint64_t) { emv_ctx_t c; Card card(m); emv_ctx_init(&c, &card.ttl); emv_app_list_t l = EMV_APP_LIST_INIT; m.step(2); if (LIB(emv_build_candidate_list(nullptr, &l)) != E_PARAM || LIB(emv_build_candidate_list(&c, nullptr)) != E_PARAM) m.fail("null", "missing argument accepted"); });
	(void)th;
}
static struct Init { Init() { setup_hook = setup; } } init_;
#endif
