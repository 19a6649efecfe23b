// C14: application selection
#include "session.h"
static Bytes aidn(unsigned n, uint8_t last) { Bytes b = X("A0000000031010010203040506070809 0A0B"); b.resize(n); b[n - 1] = last; return b; }
static const unsigned LEN[] = { 7, 5, 16, 17 };
static Ans answer(Mc& m, const Bytes& c, unsigned k) {
	if (c[1] != 0xA4) return A(0x6F00);
	Bytes n(c.begin() + 5, c.begin() + 5 + c[4]), lo = n, sh = n, df = n, first = n; lo.push_back(1); sh.pop_back(); df.back() ^= 1; first[0] ^= 0x80;
	Bytes P = tlv(0x50, S("VISA")) + tlv(0x87, { 1 }) + tlv(0x9F38, X("9F1A 02"));
	switch (k) {
		case 0: return A(fci(n, P));
		case 1: return A(fci(lo, P));
		case 2: return A(fci(sh, P));
		case 3: return A(fci(df, P));
		case 4: return A(tlv(0x6F, tlv(0xA5, P)));
		case 5: return A(fci(n, P) + X("00"));
		case 6: { Bytes b = fci(n, P); b.pop_back(); return A(b); }
		case 7: return A(0x9000);
		case 8: return A(0x6A81);
		case 9: return A(0x6A82);
		case 10: return A(0x6283);
		case 11: return A(fci(n, P), 0x6283);
		case 12: return A(fci(n, P), 0x6985);
		case 13: return Fault(-4);
		case 14: return Fault(3);
		case 15: return A(fci(n, {}));
		case 16: return A(fci(first, P));
		case 17: return A(tlv(0x70, tlv(0x84, n)));
		case 18: return A(tlv(0x6F, tlv(0x4F, n)));
		case 19: return A(tlv(0x6F, tlv(0x84, df) + tlv(0x84, n)));
		case 20: return A(tlv(0x6F, tlv(0x84, n) + tlv(0x84, df)));
		case 21: return A(fci(n, tlv(0x9F12, S("Caf\xE9")) + tlv(0x9F11, { 1 }) + tlv(0x87, { 0x8F })));
		case 22: return Raw({});
		case 23: return Raw({ 0x6A });
		default: return A(fci(n, P), 0x6A81);
	}
}
static const unsigned NANS = 25;
struct Pre { bool selected, data; };
static emv_app_t* cand(const Bytes& aid, unsigned i, RApp& e) { Bytes in = tlv(0x4F, aid) + tlv(0x50, { 'A', 'P', 'P', (uint8_t)('0' + i) }); e = RApp(); ref_parse(in.data(), in.size(), e.f); describe(e, 0x4F, nullptr); return LIB(emv_app_create_from_pse(nullptr, in.data(), in.size())); }
static void run(Mc& m, unsigned n, unsigned lensel, Pre pre, bool tpdu, unsigned rounds, unsigned menu) {
	alloc_reset(); emv_ctx_t ctx; RCtx x; Card card(m, tpdu); emv_ctx_init(&ctx, &card.ttl); push(ctx.config, x.config, 0x9F1A, { 5, 0x28 }); push(ctx.params, x.params, 0x9F02, X("000000001000"));
	emv_app_list_t l = EMV_APP_LIST_INIT; std::vector<RApp> want;
	for (unsigned i = 0; i < n; ++i) { RApp e; emv_app_t* a = cand(aidn(LEN[(lensel + i) % 4], i), i, e); if (!a) m.fail("refused", "candidate refused"); LIB(emv_app_list_push(&l, a)); want.push_back(e); }
	if (pre.selected) { Bytes f = fci(X("A0000000659999"), tlv(0x50, S("OLD"))); x.has_app = ref_fci(f, x.app); ctx.selected_app = LIB(emv_app_create_from_fci(f.data(), f.size())); }
	if (pre.data) { push(ctx.icc, x.icc, 0x94, X("08010100")); push(ctx.terminal, x.terminal, 0x95, X("0000000000")); }
	card.answer = [&](const Bytes& c) { return answer(m, c, m.choose(menu)); };
	try { for (unsigned k = 0; k < rounds; ++k) {
		static const unsigned IDX[] = { 0, 1, 2, 3, 0xFFFFFFFF, 0x80000000 }; unsigned idx = IDX[m.choose(6)]; size_t at = card.log.size(); m.log("select index %u of %zu", idx, want.size());
		int r = LIB(emv_select_application(&ctx, &l, idx)); Replay rep(m, card, at); int e = ref_select(rep, x, want, idx); rep.done();
		if (r != e) m.fail("outcome", "returned %d, expected %d", r, e); cmp_apps(m, l, want); cmp_ctx(m, ctx, x); m.step();
		m.cover(e == 0 ? "selected" : e == O_AGAIN ? "try again" : e == O_NOT_ACCEPTED ? "not accepted" : e == O_BLOCKED ? "blocked" : e == O_CARD_ERROR ? "card error" : "invalid index"); m.state(hmix(hmix(card.h, e), want.size() * 8 + n));
	} } catch (Unspecified&) { m.cover("unspecified"); }
	LIB((emv_app_list_clear(&l), emv_ctx_clear(&ctx), 0)); if (alloc_live()) m.fail("leak", "%zu allocations remain", alloc_live());
}
static void setup() {
	add("one selection", 5 * 4 * 4 * 2, [](Mc& m, uint64_t k) { run(m, k % 5, k / 5 % 4, { !!(k / 20 & 1), !!(k / 20 & 2) }, k / 80, 1, NANS); });
	add("two selections", 4 * 2 * 2, [](Mc& m, uint64_t k) { run(m, k % 4 + 1, k / 4 % 2 * 2, { true, true }, k / 8, 2, NANS); }, 6);
	add("selection sequences", 4 * 2, [](Mc& m, uint64_t k) { run(m, k % 4 + 1, 0, { false, false }, k / 4, m.thorough ? 5 : 4, m.thorough ? 10 : 6); }, 6);
	add("long candidate lists", 60, [](Mc& m, uint64_t k) { // every place of lists of up to 63 candidates, and just past the end
		unsigned n = k + 4, at = m.choose(n + 2); bool good = m.choose(2); alloc_reset(); emv_ctx_t ctx; RCtx x; Card card(m, k & 1); emv_ctx_init(&ctx, &card.ttl); emv_app_list_t l = EMV_APP_LIST_INIT; std::vector<RApp> want;
		for (unsigned i = 0; i < n; ++i) { RApp e; LIB(emv_app_list_push(&l, cand(aidn(7, i), i, e))); want.push_back(e); } card.answer = [&](const Bytes& c) { return answer(m, c, good ? 0 : 9); };
		unsigned idx[2] = { at, at ? at - 1 : 0 }; try { for (unsigned i : idx) { size_t from = card.log.size(); m.log("select index %u of %zu", i, want.size()); int r = LIB(emv_select_application(&ctx, &l, i)); Replay rep(m, card, from); int e = ref_select(rep, x, want, i); rep.done(); if (r != e) m.fail("outcome", "returned %d, expected %d", r, e); cmp_apps(m, l, want); cmp_ctx(m, ctx, x); m.step(); m.state(hmix(hmix(n, i), e)); m.cover(e == 0 ? "selected" : e == O_AGAIN ? "try again" : "invalid index"); } } catch (Unspecified&) { m.cover("unspecified"); }
		LIB((emv_app_list_clear(&l), emv_ctx_clear(&ctx), 0)); if (alloc_live()) m.fail("leak", "allocations remain"); });
	add("every status word", 256, [](Mc& m, uint64_t k) { uint16_t sw = k << 8 | m.choose(256); bool data = m.choose(2), more = m.choose(2); if ((sw >> 8) == 0x61 || (sw >> 8) == 0x6C || !sw) { m.skip(); return; }
		alloc_reset(); emv_ctx_t ctx; RCtx x; Card card(m); emv_ctx_init(&ctx, &card.ttl); emv_app_list_t l = EMV_APP_LIST_INIT; std::vector<RApp> want;
		for (unsigned i = 0; i < (more ? 2u : 1u); ++i) { RApp e; LIB(emv_app_list_push(&l, cand(aidn(7, i), i, e))); want.push_back(e); }
		card.answer = [&](const Bytes& c) { if (c[1] != 0xA4) return A(0x6F00); Ans a = data ? answer(m, c, 0) : A(0x9000); a.sw = sw; return a; };
		int r = LIB(emv_select_application(&ctx, &l, 0)); Replay rep(m, card, 0); m.log("status %04X", sw);
		try { int e = ref_select(rep, x, want, 0); rep.done(); if (r != e) m.fail("outcome", "returned %d, expected %d", r, e); cmp_apps(m, l, want); cmp_ctx(m, ctx, x); m.cover("status"); } catch (Unspecified&) { m.cover("unspecified"); }
		m.state(hmix(hmix(sw, data), more)); LIB((emv_app_list_clear(&l), emv_ctx_clear(&ctx), 0)); if (alloc_live()) m.fail("leak", "allocations remain"); });
	add("altered confirmation", 2, [](Mc& m, uint64_t k) { // every single-byte alteration and truncation of the card's confirmation
		alloc_reset(); emv_ctx_t ctx; RCtx x; Card card(m); emv_ctx_init(&ctx, &card.ttl); emv_app_list_t l = EMV_APP_LIST_INIT; std::vector<RApp> want; RApp e0; Bytes id = aidn(7, 0x10); LIB(emv_app_list_push(&l, cand(id, 0, e0))); want.push_back(e0);
		Bytes f = fci(id, tlv(0x50, S("VISA")) + tlv(0x87, { 1 })); if (k) f.resize(m.choose(f.size())); else { unsigned i = m.choose(f.size()); f[i] = m.choose(256); }
		card.answer = [&](const Bytes& c) { return c[1] == 0xA4 ? A(f) : A(0x6F00); }; int r = LIB(emv_select_application(&ctx, &l, 0)); Replay rep(m, card, 0); m.log("confirmation %s", hex(f).c_str());
		try { int e = ref_select(rep, x, want, 0); rep.done(); if (r != e) m.fail("outcome", "returned %d, expected %d", r, e); cmp_apps(m, l, want); cmp_ctx(m, ctx, x); m.cover(e ? "refused" : "confirmed"); } catch (Unspecified&) { m.cover("unspecified"); }
		m.state(hash(f.data(), f.size())); LIB((emv_app_list_clear(&l), emv_ctx_clear(&ctx), 0)); if (alloc_live()) m.fail("leak", "allocations remain"); });
	add("arguments", 1, [](Mc& m, uint64_t) { emv_ctx_t c; Card card(m); emv_ctx_init(&c, &card.ttl); emv_app_list_t l = EMV_APP_LIST_INIT; m.step(3); if (LIB(emv_select_application(nullptr, &l, 0)) != E_PARAM || LIB(emv_select_application(&c, nullptr, 0)) != E_PARAM || LIB(emv_select_application(&c, &l, 0)) != E_PARAM) m.fail("null", "missing argument accepted");
		emv_app_t* a = (emv_app_t*)1; Bytes id = aidn(7, 1); for (unsigned n : { 0u, 4u, 17u }) { Bytes b = n ? aidn(n, 1) : Bytes(1); a = nullptr; if (emv_tal_select_app(&card.ttl, b.data(), n, &a) >= 0 || a) m.fail("length", "identifier of %u bytes selected", n); }
		if (emv_tal_select_app(nullptr, id.data(), 7, &a) >= 0 || emv_tal_select_app(&card.ttl, nullptr, 7, &a) >= 0 || emv_tal_select_app(&card.ttl, id.data(), 7, nullptr) >= 0) m.fail("null", "missing argument accepted"); });
}
static struct Init { Init() { setup_hook = setup; } } init_;
