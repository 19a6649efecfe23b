// C17: histories of session calls against cooperating and failing cards
#include "session.h"
static const Bytes AIDA = X("A0000000031010"), AIDB = X("A0000000041010");
static const char* OP[] = { "build", "build without directory", "build, first exchange fails", "build, second exchange fails", "build, nothing offered", "select 0", "select 0, not found", "select 0, exchange fails", "select 1", "select 9",
	"initiate", "initiate, format 2", "initiate, conditions not satisfied", "initiate, exchange fails", "read", "read, second exchange fails", "read, field missing", "add parameter", "add configuration", "reset", "clear", "init", "drop candidates", "build onto candidates", "initiate, malformed", "select 0, malformed", "add terminal data", "add card data", "build, other applications listed" };
enum { NOP = 29 };
static bool adds(unsigned o) { return o == 17 || o == 18 || o == 26 || o == 27; }
struct World {
	Mc& m; Card card; emv_ctx_t ctx; RCtx x; emv_app_list_t apps; std::vector<RApp> want; bool up = true, list_any = false; unsigned op = 0, n = 0, added = 0;
	World(Mc& mm, bool tpdu) : m(mm), card(mm, tpdu) { memset(&ctx, 0xC3, sizeof ctx); memset(&apps, 0, sizeof apps); if (LIB(emv_ctx_init(&ctx, &card.ttl))) m.fail("init", "initialisation refused"); sup(); card.answer = [this](const Bytes& c) { return answer(c); }; }
	void sup() { support(ctx, x, { { AIDA, false }, { X("A000000004"), true } }); }
	Ans answer(const Bytes& c) {
		unsigned i = n++; if ((op == 2 || op == 7 || op == 13) || (op == 3 || op == 15) && i == 1) return Fault(-5);
		if (c.size() < 5 || (c[1] == 0xA4 && c.size() < 5u + c[4])) return A(0x6700);
		if (c[1] == 0xA4) {
			Bytes name(c.begin() + 5, c.begin() + 5 + c[4]); bool next = c[3] & 2;
			if (op == 4 || op == 6) return A(0x6A82);
			if (op == 25) return A(fci(name, {}) + X("6F"));
			if (name == PSE) return op == 1 ? A(0x6A82) : A(fci(PSE, tlv(0x88, { 1 }) + tlv(0x5F2D, S("en"))));
			if (name == AIDA && !next) return A(fci(AIDA, tlv(0x50, S("VISA")) + tlv(0x87, { 2 }) + tlv(0x9F38, X("9F3901 9F0206 9F1A02 9F0607"))));
			if (name.size() >= 5 && std::equal(name.begin(), name.end(), AIDB.begin()) && !next) return A(fci(AIDB, tlv(0x50, S("MC")) + tlv(0x87, { 1 })));
			return A(0x6A82);
		}
		if (c[1] == 0xB2 && c[3] == 0x0C) return op == 28 && c[2] == 1 ? A(tlv(0x70, entry(X("A0000000651010"), "JCB", 1))) : c[2] == 1 ? A(tlv(0x70, entry(AIDA, "VISA", 2) + entry(AIDB, "MC", 1))) : A(0x6A83);
		if (c[1] == 0xA8) return op == 12 ? A(0x6985) : op == 24 ? A(tlv(0x77, tlv(0x82, X("3900")) + X("9405"))) : op == 11 ? A(tlv(0x77, tlv(0x94, X("10010200")) + tlv(0x82, X("1980")))) : A(tlv(0x80, X("3900 10010200")));
		if (c[1] == 0xB2 && c[3] == 0x14) { Bytes a = tlv(0x5F24, X("251231")) + tlv(0x5A, X("4111111111111111")), b = tlv(0x8C, X("9F0206")) + (op == 16 ? Bytes() : tlv(0x8D, X("8A02"))); return A(tlv(0x70, c[2] == 1 ? a : b)); }
		return A(0x6D00);
	}
	// returns false if the operation is not meaningful here (another history covers it)
	bool step(unsigned o) {
		op = o; n = 0; m.log("-- %s", OP[o]); size_t at = card.log.size(); int r = 0, e = 0; Replay rep(m, card, at); m.step();
		switch (o) {
			case 0: case 1: case 2: case 3: case 4: case 23: case 28:
				if (o == 23 && want.empty() && !list_any) return false;
				if (o != 23) LIB((emv_app_list_clear(&apps), 0));
				r = LIB(emv_build_candidate_list(&ctx, &apps));
				if (o == 23) { LIB((emv_app_list_clear(&apps), 0)); want.clear(); list_any = false; check(); return true; } // only safety is asserted
				if (!up) { LIB((emv_app_list_clear(&apps), 0)); want.clear(); refused(r, at); return true; }
				{ bool any = false; e = ref_build(rep, x, want, any); if (any) { LIB((emv_app_list_clear(&apps), 0)); want.clear(); } } break;
			case 5: case 6: case 7: case 8: case 9: case 25: { unsigned idx = o == 8 ? 1 : o == 9 ? 9 : 0; r = LIB(emv_select_application(&ctx, &apps, idx));
				if (!up) { LIB((emv_app_list_clear(&apps), 0)); want.clear(); refused(r, at); return true; }
				e = ref_select(rep, x, want, idx); break; }
			case 10: case 11: case 12: case 13: case 24: r = LIB(emv_initiate_application_processing(&ctx, 0x05 + n)); if (!up) { refused(r, at); return true; } e = ref_initiate(rep, x, 0x05); break;
			case 14: case 15: case 16: r = LIB(emv_read_application_data(&ctx)); if (!up) { refused(r, at); return true; } e = ref_read(rep, x); break;
			case 17: push(ctx.params, x.params, 0x9F02, { 0, 0, 0, 0, 0, (uint8_t)++added }); break;
			case 18: push(ctx.config, x.config, added & 1 ? 0x9F1A : 0x9F33, { (uint8_t)++added, 7 }); break;
			case 19: r = LIB(emv_ctx_reset(&ctx)); fresh(); break;
			case 20: r = LIB(emv_ctx_clear(&ctx)); fresh(); x.config.clear(); x.aids.clear(); up = false; break;
			case 21: if (up) return false; r = LIB(emv_ctx_init(&ctx, &card.ttl)); if (!r) { up = true; x.config.clear(); fresh(); x.aids.clear(); sup(); } break;
			case 26: push(ctx.terminal, x.terminal, 0x9F37, { 1, 2, 3, (uint8_t)++added }); break;
			case 27: push(ctx.icc, x.icc, 0x9F7C, { (uint8_t)++added }); break;
			case 22: if (want.empty()) return false; LIB((emv_app_list_clear(&apps), 0)); want.clear(); break;
		}
		if (rep.ordered) rep.done(); if (r != e) m.fail("outcome", "%s: returned %d, expected %d", OP[o], r, e);
		m.cover(e ? "refused or failed" : "succeeded"); check(); return true;
	}
	void fresh() { x.params.clear(); x.icc.clear(); x.terminal.clear(); x.terminal_any = false; x.has_app = x.moved = false; x.app = RApp(); }
	void refused(int r, size_t at) { if (!r) m.fail("accepted", "%s succeeded on a session that was cleared", OP[op]); if (card.log.size() != at) m.fail("sent", "a command was sent by a session that was cleared"); m.cover("no session"); check(); }
	void check() { cmp_apps(m, apps, want); if (!up && !x.config.empty()) { } cmp_ctx(m, ctx, x);
		uint64_t h = hlist(x.config, hlist(x.params, hlist(x.icc, hlist(x.terminal, want.size() * 8 + up + 2 * x.has_app + 4 * x.moved)))); for (auto& a : want) h = hash(a.aid.data(), a.aid.size(), h); m.state(h); }
	void finish() { // whatever happened: reset, and one complete normal transaction
		static const unsigned T[] = { 19, 0, 5, 10, 14 }; if (!up) { if (!x.config.empty()) { LIB((emv_tlv_list_clear(&ctx.config), 0)); x.config.clear(); } LIB((emv_tlv_list_clear(&ctx.params), 0)); x.params.clear(); step(21); }
		for (unsigned o : T) { step(o); } if (!x.moved || !find(x.icc, 0x8D)) m.fail("internal", "reference transaction incomplete");
		LIB((emv_app_list_clear(&apps), emv_ctx_clear(&ctx), 0)); if (alloc_live()) m.fail("leak", "%zu allocations remain", alloc_live()); }
};
#ifndef C17_WORLD_ONLY
static void history(Mc& m, bool tpdu, const std::vector<unsigned>& pre, unsigned depth, int first = -1) {
	alloc_reset(); World w(m, tpdu); for (unsigned o : pre) w.step(o);
	for (unsigned i = 0; i < depth; ++i) { unsigned o = i == 0 && first >= 0 ? first : m.choose(NOP);
		if (!w.up && adds(o)) { m.skip(); break; } // fields added between clear and init are the caller's to release
		if (!w.step(o)) { m.skip(); break; } }
	w.finish();
}
static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough"); unsigned d = th ? 5 : 4;
	static const std::vector<std::vector<unsigned>> PRE = { {}, { 0, 5 }, { 0, 5, 10 }, { 18, 17, 0, 5, 10, 14 }, { 0, 8, 11, 14, 19 }, { 0, 5, 10, 14, 20 }, { 1, 8, 10, 15 } };
	for (unsigned p = 0; p < PRE.size(); ++p) add(("after prefix " + std::to_string(p)).c_str(), NOP, [=](Mc& m, uint64_t k) { history(m, false, PRE[p], p == 0 ? d : d - 1, k); }, NOP);
	add("T=0 after prefix 1", NOP, [=](Mc& m, uint64_t k) { history(m, true, PRE[1], d - 1, k); }, NOP);
	// long histories: three complete transactions with up to two (three) deviations
	add("deviations", 16 * (NOP + 1), [=](Mc& m, uint64_t k) { unsigned at = k / (NOP + 1), i = 0; m.budget = th ? 2 : 1; alloc_reset(); World w(m, false); static const unsigned T[] = { 17, 0, 5, 10, 14, 19, 17, 0, 8, 11, 14, 19, 1, 5, 10, 14 }; bool ok = true;
		for (unsigned o : T) { unsigned dv = i < at ? 0 : i == at ? k % (NOP + 1) + 1 : m.deviate(NOP + 2); ++i; if (dv == NOP + 1) continue; if (dv) { if (!w.up && adds(dv - 1) || !w.step(dv - 1)) { m.skip(); ok = false; break; } } if (!w.up && adds(o)) continue; w.step(o); }
		w.finish(); }, NOP + 2);
	add("arguments", 1, [](Mc& m, uint64_t) { m.step(6); Card c(m); emv_ctx_t x; memset(&x, 0, sizeof x); if (emv_ctx_init(nullptr, &c.ttl) != E_PARAM || emv_ctx_init(&x, nullptr) != E_PARAM || emv_ctx_reset(nullptr) != E_PARAM || emv_ctx_clear(nullptr) != E_PARAM || emv_build_candidate_list(nullptr, nullptr) != E_PARAM || emv_build_candidate_list(&x, nullptr) != E_PARAM) m.fail("null", "missing argument accepted"); });
}
static struct Init { Init() { setup_hook = setup; } } init_;
#endif
