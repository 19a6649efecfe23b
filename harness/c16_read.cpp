// C16: reading application data
#include "session.h"
static Ans rec(unsigned k, unsigned i) { // i: position among the records read so far
	static const Bytes PART[4] = { tlv(0x5F24, X("251231")), tlv(0x5A, X("4111111111111111")), tlv(0x8C, X("9F0206")), tlv(0x8D, X("8A02")) };
	Bytes all; for (auto& p : PART) all = all + p;
	auto R = [](const Bytes& b) { return A(tlv(0x70, b)); };
	switch (k) {
		case 0: return R(i == 0 ? all : tlv(0x9F00 + 0x44 + i % 8, { (uint8_t)i }));
		case 1: return R(PART[i % 4]);
		case 2: return R(PART[0] + PART[1]);
		case 3: return R(PART[2] + PART[3]);
		case 4: return R({});
		case 5: return R(tlv(0x5F24, X("251231")) + tlv(0x5F24, X("251231")));
		case 6: return A(all);
		case 7: return A(tlv(0x70, all) + X("00"));
		case 8: return A(tlv(0x70, all) + X("0000"));
		case 9: return A(tlv(0x70, all) + tlv(0x70, tlv(0x9F10, X("01"))));
		case 10: { Bytes b = tlv(0x70, all); b.pop_back(); return A(b); }
		case 11: return R(X("5A 09 41"));
		case 12: return A(0x9000);
		case 13: return A(0x6A83);
		case 14: return Fault(-2);
		case 15: return A(tlv(0x70, all), 0x6283);
		case 16: return R(tlv(0x57, X("4111D")) + tlv(0xA5, tlv(0x9F0D, X("0102030405"))));
		case 17: return A({ 0x70 });
		case 18: return R(all + tlv(0x9F10, Bytes(160, 7)) + tlv(0x9F4C, X("0102030405060708")));
		case 19: return A(tlv(0x6F, all));
		case 20: { Bytes b = { 0x70, 0x82, 0x00, (uint8_t)all.size() }; return A(b + all); }
		case 21: { Bytes b = { 0x70, 0x80 }; return A(b + all + X("0000")); }
		case 22: return Raw({ 0x90 });
		case 23: return R(Bytes(tlv(0x9F20, Bytes(247, 1))));
		case 24: return A(X("70 81"));
		case 25: return A({ 0x71, 0x00 });
		default: return R(PART[3] + PART[2] + PART[1]);
	}
}
static const unsigned NR = 27;
#ifndef MENU_ONLY
static void run(Mc& m, const Bytes* afl, bool tpdu, unsigned menu, unsigned maxsteps, int fixed = -1, unsigned calls = 1) {
	alloc_reset(); emv_ctx_t ctx; RCtx x; Card card(m, tpdu); unsigned n = 0; emv_ctx_init(&ctx, &card.ttl); push(ctx.config, x.config, 0x9F1A, X("0528"));
	push(ctx.icc, x.icc, 0x50, S("VISA")); push(ctx.icc, x.icc, 0x82, X("3900")); if (afl) push(ctx.icc, x.icc, 0x94, *afl); push(ctx.icc, x.icc, 0x94, X("F0010100"));
	if (!afl) { emv_tlv_list_clear(&ctx.icc); x.icc.clear(); }
	card.answer = [&](const Bytes& c) { unsigned i = n++; return rec(fixed >= 0 && (i || maxsteps == 0) ? fixed : i < maxsteps ? m.choose(menu) : 0, i); };
	m.log("locator %s", afl ? hex(*afl).c_str() : "none");
	try { for (unsigned k = 0; k < calls; ++k) { size_t at = card.log.size(); int r = LIB(emv_read_application_data(&ctx)); m.step(); Replay rep(m, card, at); int e = ref_read(rep, x); if (rep.ordered) rep.done();
		if (r != e) m.fail("outcome", "returned %d, expected %d", r, e); cmp_ctx(m, ctx, x); m.cover(e ? rep.ordered ? "card error" : "invalid locator" : "success"); m.state(hlist(x.icc, hmix(card.h, e))); } }
	catch (Unspecified&) { m.cover("unspecified"); }
	LIB(emv_ctx_clear(&ctx)); if (alloc_live()) m.fail("leak", "%zu allocations remain", alloc_live());
}
static Bytes E4(uint8_t s, uint8_t f, uint8_t l, uint8_t o) { return { s, f, l, o }; }
static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough");
	static const Bytes AFL[] = { E4(0x08, 1, 1, 0), E4(0x08, 1, 2, 1), E4(0x08, 2, 4, 3), E4(0x50, 1, 1, 0) + E4(0x58, 1, 1, 0), E4(0x10, 1, 1, 0) + E4(0x18, 5, 6, 2), E4(0x58, 1, 2, 1), E4(0xF0, 255, 255, 1), E4(0x08, 1, 1, 0) + E4(0x08, 1, 1, 0), E4(0x58, 1, 1, 0) + E4(0x08, 1, 1, 1) + E4(0xF0, 9, 9, 0) };
	add("record contents", 9 * 2, [](Mc& m, uint64_t k) { run(m, &AFL[k / 2], k & 1, NR, m.thorough ? 4 : 3); }, NR);
	add("repeated reading", 9, [](Mc& m, uint64_t k) { run(m, &AFL[k], false, 6, 4, -1, 2); });
	static const uint8_t S8[] = { 0x00, 0x08, 0x09, 0x0C, 0x50, 0x58, 0xF0, 0xF8, 0xFF }, N8[] = { 0, 1, 2, 3, 127, 128, 254, 255 }, O8[] = { 0, 1, 2, 3, 255 };
	add("locator entries", 9 * 8, [=](Mc& m, uint64_t k) { Bytes a = E4(S8[k % 9], N8[k / 9], N8[m.choose(8)], O8[m.choose(5)]); unsigned w = m.choose(4); if (w == 1) a = E4(0x08, 1, 1, 0) + a; if (w == 2) a = a + E4(0x10, 7, 7, 1); if (w == 3) a = a + E4(0x10, 7, 6, 0); run(m, &a, false, 1, 0); });
	if (th) add("locator pairs", 9 * 8 * 8, [=](Mc& m, uint64_t k) { static const uint8_t n[] = { 0, 1, 2, 255 }; Bytes a = E4(S8[k % 9], N8[k / 9 % 8], N8[k / 72], O8[m.choose(5)]) + E4(S8[m.choose(9)], n[m.choose(4)], n[m.choose(4)], O8[m.choose(5)]); run(m, &a, false, 1, 0); });
	add("record ranges", 255, [](Mc& m, uint64_t k) { unsigned f = k + 1, l = f + m.choose(3); if (m.choose(2)) l = 255; if (l > 255) { m.skip(); return; } Bytes a = E4(m.choose(2) ? 0xF0 : 0x08, f, l, 0); run(m, &a, m.choose(2), 1, 0); });
	add("locator lengths", 256, [](Mc& m, uint64_t k) { Bytes a; for (unsigned i = 0; i < k; ++i) a.push_back(i % 4 == 0 ? 0x58 : i % 4 == 3 ? 0 : i / 4 + 1); run(m, &a, false, 1, 0, m.choose(2) ? 25 : 0); });
	add("no locator", 1, [](Mc& m, uint64_t) { run(m, nullptr, false, NR, 1); });
	static const Bytes AL = { 0x70, 0x5A, 0x00, 0x01, 0x02, 0x03, 0x81, 0x80, 0x9F };
	for (unsigned n = 0; n <= (th ? 6u : 5u); ++n) add(("record strings length " + std::to_string(n)).c_str(), (n ? 9 : 1) * 2, [n](Mc& m, uint64_t k) { // arbitrary second record after a complete first one, file 1 or 30
		Bytes d; if (n) d.push_back(AL[k / 2]); while (d.size() < n) d.push_back(AL[m.choose(AL.size())]); alloc_reset(); emv_ctx_t ctx; RCtx x; Card card(m); emv_ctx_init(&ctx, &card.ttl); push(ctx.icc, x.icc, 0x94, k & 1 ? E4(0xF0, 1, 2, 0) : E4(0x08, 1, 2, 0)); unsigned c = 0; card.answer = [&](const Bytes&) { return c++ ? A(d) : rec(18, 0); };
		int r = LIB(emv_read_application_data(&ctx)); Replay rep(m, card, 0); int e = ref_read(rep, x); rep.done(); m.log("record %s", hex(d).c_str()); if (r != e) m.fail("outcome", "record %s: returned %d, expected %d", hex(d).c_str(), r, e); cmp_ctx(m, ctx, x); m.step(); m.state(hash(d.data(), d.size())); m.cover(e ? "card error" : "success"); LIB(emv_ctx_clear(&ctx)); if (alloc_live()) m.fail("leak", "allocations remain"); }, n > 1 ? 9 : 1);
	add("altered records", 2, [](Mc& m, uint64_t k) { Bytes b = rec(0, 0).data; if (m.choose(2)) b.resize(m.choose(b.size())); else { unsigned i = m.choose(b.size()); b[i] = m.choose(256); } alloc_reset(); emv_ctx_t ctx; RCtx x; Card card(m); emv_ctx_init(&ctx, &card.ttl); push(ctx.icc, x.icc, 0x94, k ? E4(0x58, 1, 1, 0) : E4(0x08, 1, 1, 0)); card.answer = [&](const Bytes&) { return A(b); };
		int r = LIB(emv_read_application_data(&ctx)); Replay rep(m, card, 0); int e = ref_read(rep, x); rep.done(); m.log("record %s", hex(b).c_str()); if (r != e) m.fail("outcome", "record %s: returned %d, expected %d", hex(b).c_str(), r, e); cmp_ctx(m, ctx, x); m.step(); m.state(hash(b.data(), b.size())); m.cover(e ? "card error" : "success"); LIB(emv_ctx_clear(&ctx)); if (alloc_live()) m.fail("leak", "allocations remain"); }, 2);
	add("every status word", 256, [](Mc& m, uint64_t k) { uint16_t sw = k << 8 | m.choose(256); if ((sw >> 8) == 0x61 || (sw >> 8) == 0x6C || !sw) { m.skip(); return; } bool data = m.choose(2), sfi = m.choose(2); unsigned at = m.choose(2), n = 0; alloc_reset(); emv_ctx_t ctx; RCtx x; Card card(m); emv_ctx_init(&ctx, &card.ttl); push(ctx.icc, x.icc, 0x94, E4(sfi ? 0x58 : 0x08, 1, 2, 0));
		card.answer = [&](const Bytes&) { unsigned i = n++; Ans a = i == at && !data ? A(sw) : rec(0, i); if (i == at) a.sw = sw; return a; }; int r = LIB(emv_read_application_data(&ctx)); Replay rep(m, card, 0); m.log("status %04X", sw);
		try { int e = ref_read(rep, x); rep.done(); if (r != e) m.fail("outcome", "status %04X: returned %d, expected %d", sw, r, e); cmp_ctx(m, ctx, x); } catch (Unspecified&) {} m.step(); m.state(hmix(hmix(sw, at), data * 2 + sfi)); LIB(emv_ctx_clear(&ctx)); if (alloc_live()) m.fail("leak", "allocations remain"); });
	// many fields: n fields spread over the records; one pair of them may share its tag
	add("many fields", 64, [](Mc& m, uint64_t k) { unsigned n = k + 1, per = 1 + m.choose(3) * 6, i = m.choose(n + 1), j = i < n ? m.choose(n - i) + i : 0; if (n > 40 && i < n && i % 3 && j % 5 && j - i > 3 && j != n - 1) { m.skip(); return; } bool dup = i < n && j != i; if (i < n && !dup) { m.skip(); return; }
		auto tagof = [](unsigned q) { return q == 0 ? 0x5F24u : q == 1 ? 0x5Au : q == 2 ? 0x8Cu : q == 3 ? 0x8Du : 0xDF00u + 0x10 + q; }; // the mandatory ones come first or last
		bool last = m.choose(2); std::vector<Bytes> f; for (unsigned q = 0; q < n; ++q) { unsigned id = dup && q == j ? i : q; if (last) id = n - 1 - id; f.push_back(tlv(tagof(id), { (uint8_t)q })); }
		unsigned recs = (n + per - 1) / per; Bytes a = E4(0x08, 1, recs, 1); alloc_reset(); emv_ctx_t ctx; RCtx x; Card card(m, k & 1); emv_ctx_init(&ctx, &card.ttl); push(ctx.icc, x.icc, 0x50, S("VISA")); push(ctx.icc, x.icc, 0x94, a);
		card.answer = [&](const Bytes& c) { Bytes b; for (unsigned q = (c[2] - 1) * per; q < c[2] * per && q < n; ++q) cat(b, f[q]); return A(tlv(0x70, b)); }; m.log("%u fields, %u per record, duplicates %u and %u", n, per, i, j);
		int r = LIB(emv_read_application_data(&ctx)); m.step(); Replay rep(m, card, 0); int e = ref_read(rep, x); rep.done(); if (r != e) m.fail("outcome", "returned %d, expected %d", r, e); cmp_ctx(m, ctx, x); m.cover(e ? "card error" : "success"); m.state(hlist(x.icc, hmix(hmix(n, i), j))); LIB(emv_ctx_clear(&ctx)); if (alloc_live()) m.fail("leak", "allocations remain"); }, 4);
	add("arguments", 1, [](Mc& m, uint64_t) { m.step(); if (LIB(emv_read_application_data(nullptr)) != E_PARAM) m.fail("null", "missing context accepted"); Card card(m); emv_tlv_list_t l = EMV_TLV_LIST_INIT; uint8_t a[4] = { 8, 1, 1, 0 }; if (emv_tal_read_afl_records(nullptr, a, 4, &l) >= 0 || emv_tal_read_afl_records(&card.ttl, nullptr, 4, &l) >= 0 || emv_tal_read_afl_records(&card.ttl, a, 0, &l) >= 0 || emv_tal_read_afl_records(&card.ttl, a, 4, nullptr) >= 0 || l.front) m.fail("null", "missing argument accepted"); });
}
static struct Init { Init() { setup_hook = setup; } } init_;
#endif
