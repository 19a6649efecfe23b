// C19: every single and every pair of failing allocations / reader calls of complete transactions
#include "session.h"
#include <string>
static const Bytes AIDA = X("A0000000031010"), AIDB = X("A0000000041010"), AIDC = X("A0000000043060"), AIDD = X("A0000000651010");
static const unsigned NV = 6;
struct World {
	Mc& m; unsigned v; Card card; emv_ctx_t ctx; emv_app_list_t apps; uint64_t exch = 0; int64_t fx1 = -1, fx2 = -1; bool xfail = false; int xrc = -1;
	World(Mc& mm, unsigned variant) : m(mm), v(variant), card(mm, variant & 1) { memset(&apps, 0, sizeof apps); emv_ctx_init(&ctx, &card.ttl); card.answer = [this](const Bytes& c) { return answer(c); }; wrap(); }
	static int trx(void* c, const void* tx, size_t n, void* rx, size_t* rn) { World& w = *(World*)c; int64_t i = w.exch++; if (i == w.fx1 || i == w.fx2) { w.xfail = true; w.card.hdr.clear(); w.m.log("exchange %lld fails", (long long)i); return w.xrc; } return Card::trx(&w.card, tx, n, rx, rn); }
	void wrap() { card.ttl.cardreader.ctx = this; card.ttl.cardreader.trx = trx; }
	Ans answer(const Bytes& c) {
		if (c[1] == 0xA4) {
			Bytes name(c.begin() + 5, c.begin() + 5 + c[4]); bool next = c[3] & 2;
			if (name == PSE) return v / 2 == 1 ? A(0x6A82) : A(fci(PSE, tlv(0x88, { 1 }) + tlv(0x5F2D, S("en")) + tlv(0x9F11, { 1 })));
			if (name == AIDA) return next ? A(0x6A82) : A(fci(AIDA, tlv(0x50, S("VISA")) + tlv(0x87, { 2 }) + tlv(0x9F38, X("9F3901 9F0206 9F1A02 9F0607 9505 9F3501"))));
			if (name == AIDB && !next) return A(fci(AIDB, tlv(0x50, S("MC")) + tlv(0x87, { 1 })));
			if (name.size() == 5 && name[4] == 4) return !next ? A(fci(AIDB, tlv(0x50, S("MC")) + tlv(0x87, { 1 }))) : nexts++ ? A(0x6A82) : A(fci(AIDC, tlv(0x50, S("MAESTRO")) + tlv(0x87, { 3 })));
			return A(0x6A82);
		}
		if (c[1] == 0xB2 && c[3] == 0x0C) return c[2] == 1 ? A(tlv(0x70, entry(AIDA, "VISA", 2) + entry(X("A0000000999999"), "OTHER") + entry(AIDB, "MC", 1))) : c[2] == 2 ? A(tlv(0x70, entry(AIDC, "MAESTRO", 3))) : A(0x6A83);
		if (c[1] == 0xA8) return v / 2 == 2 ? A(tlv(0x77, tlv(0x94, X("10010200")) + tlv(0x82, X("1980")) + tlv(0x9F36, X("0001")))) : A(tlv(0x80, X("3900 10010200")));
		if (c[1] == 0xB2 && c[3] == 0x14) { Bytes a = tlv(0x5F24, X("251231")) + tlv(0x5A, X("4111111111111111")), b = tlv(0x8C, X("9F0206")) + tlv(0x8D, X("8A02")) + tlv(0xA5, tlv(0x9F10, X("06010A03A00000"))); return A(tlv(0x70, c[2] == 1 ? a : b)); }
		return A(0x6D00);
	}
	unsigned nexts = 0;
};
static std::vector<F> grab(const emv_tlv_list_t& l) { std::vector<F> o; for (auto* t = l.front; t; t = t->next) o.push_back({ t->tag, Bytes(t->value, t->value + t->length) }); return o; }
static std::vector<Bytes> aids(const emv_app_list_t& l) { std::vector<Bytes> o; for (auto* a = l.front; a; a = a->next) o.push_back(Bytes(a->aid->value, a->aid->value + a->aid->length)); return o; }
static bool same(const std::vector<F>& a, const std::vector<F>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i].tag != b[i].tag || a[i].v != b[i].v) return false; return true; }
struct Snap { std::vector<std::vector<F>> cf; std::vector<F> config, params, icc, terminal, app; std::vector<Bytes> cand; size_t naids; bool sel; };
static Snap snap(World& w) { Snap s; s.config = grab(w.ctx.config); s.params = grab(w.ctx.params); s.icc = grab(w.ctx.icc); s.terminal = grab(w.ctx.terminal); s.cand = aids(w.apps); for (auto* a = w.apps.front; a; a = a->next) s.cf.push_back(grab(a->tlv_list)); s.naids = grab(w.ctx.supported_aids).size(); s.sel = w.ctx.selected_app; if (s.sel) s.app = grab(w.ctx.selected_app->tlv_list); return s; }
static bool equal(const Snap& a, const Snap& b, bool cand) { return same(a.config, b.config) && same(a.params, b.params) && same(a.icc, b.icc) && same(a.terminal, b.terminal) && same(a.app, b.app) && a.sel == b.sel && a.naids == b.naids && (!cand || a.cand == b.cand && a.cf.size() == b.cf.size() && [&] { for (size_t i = 0; i < a.cf.size(); ++i) if (!same(a.cf[i], b.cf[i])) return false; return true; }()); }
static const char* STEP[] = { "push configuration", "push parameter", "push identifier", "push identifier", "push identifier", "build", "select", "initiate", "read" };
enum { NSTEP = 9 };
static int step(World& w, unsigned s) {
	w.nexts = 0; w.m.step(); static const uint8_t cc[] = { 5, 0x28 }, amt[] = { 0, 0, 0, 0, 0x12, 0x34 }, part[] = { 0xA0, 0, 0, 0, 4 };
	switch (s) {
		case 0: return LIB(emv_tlv_list_push(&w.ctx.config, 0x9F1A, 2, cc, 0));
		case 1: return LIB(emv_tlv_list_push(&w.ctx.params, 0x9F02, 6, amt, 0));
		case 2: return LIB(emv_tlv_list_push(&w.ctx.supported_aids, 0x9F06, 7, AIDA.data(), EMV_ASI_EXACT_MATCH));
		case 3: return LIB(emv_tlv_list_push(&w.ctx.supported_aids, 0x9F06, 5, part, EMV_ASI_PARTIAL_MATCH));
		case 4: return LIB(emv_tlv_list_push(&w.ctx.supported_aids, 0x9F06, 7, AIDD.data(), EMV_ASI_EXACT_MATCH));
		case 5: LIB((emv_app_list_clear(&w.apps), 0)); return LIB(emv_build_candidate_list(&w.ctx, &w.apps));
		case 6: return LIB(emv_select_application(&w.ctx, &w.apps, w.v / 2 == 2 ? 0 : 1)); // MC has priority 1, VISA 2
		case 7: return LIB(emv_initiate_application_processing(&w.ctx, 0x05));
		default: return LIB(emv_read_application_data(&w.ctx));
	}
}
struct Nominal { std::vector<Snap> after; uint64_t allocs, exch; };
static Nominal& nominal(Mc& m, unsigned v) { // fault-free history, once per variant and process
	static Nominal n[NV]; static bool have[NV]; if (have[v]) return n[v];
	alloc_reset(); { World w(m, v); for (unsigned s = 0; s < NSTEP; ++s) { int r = step(w, s); if (r) m.fail("nominal", "%s: returned %d without any failure", STEP[s], r); n[v].after.push_back(snap(w)); } n[v].allocs = alloc_calls(); n[v].exch = w.exch; LIB((emv_app_list_clear(&w.apps), emv_ctx_clear(&w.ctx), 0)); }
	have[v] = true; return n[v];
}
static bool known(const char* key) { const char* k = getenv("MC_KNOWN"); return k && strstr(k, key); }
static void run(Mc& m, unsigned v, int64_t a1, int64_t a2, int64_t x1, int64_t x2, int xrc, bool retry) {
	for (unsigned o = 0; o < NV; ++o) nominal(m, o); Nominal& N = nominal(m, v); alloc_reset(); World w(m, v); alloc_fail_at(a1, a2); w.fx1 = x1; w.fx2 = x2; w.xrc = xrc; uint64_t failed = 0; bool clean = true;
	for (unsigned s = 0; s < NSTEP; ++s) {
		w.xfail = false; int r = step(w, s); bool hit = alloc_failed() > failed || w.xfail; bool xf = w.xfail; failed = alloc_failed(); Snap now = snap(w);
		if (!hit) { if (r || !equal(now, N.after[s], true)) m.fail("unaffected", "%s: returned %d or left a different state although nothing failed in it", STEP[s], r); continue; }
		m.log("failure during %s: returned %d", STEP[s], r);
		if (!r && !xf && s == 5) { // candidate list built although an allocation failed: complete?
			bool all = true, sub = true; auto has = [](const std::vector<Bytes>& l, const Bytes& a) { for (auto& x : l) if (x == a) return true; return false; };
			for (auto& a : N.after[s].cand) all &= has(now.cand, a); for (auto& a : now.cand) sub &= has(N.after[s].cand, a);
			if (!equal(now, N.after[s], false) || !sub) m.fail("damaged", "build: context changed or unknown candidates although an allocation failed");
			for (size_t i = 0; i < now.cf.size(); ++i) { bool ok = false; for (unsigned o = 0; o < NV; ++o) for (auto& f : nominal(m, o).after[5].cf) ok |= same(f, now.cf[i]); if (!ok) m.fail("incomplete", "build: candidate %s lacks data although success was reported", hex(now.cand[i]).c_str()); }
			if (all) { m.cover("completed another way"); clean = false; break; } // e.g. through the list of identifiers instead of the directory
			if (known("build-omits-application") && now.cand.size() < N.after[s].cand.size()) { m.cover("known: application left out"); clean = false; break; }
			m.fail("build-omits-application", "candidate list built successfully although an allocation failed: %zu of %zu applications", now.cand.size(), N.after[s].cand.size());
		}
		if (!r) m.fail("success", "%s reported success although %s", STEP[s], xf ? "the card reader failed" : "an allocation failed");
		if (xf && r != O_CARD_ERROR) m.fail("outcome", "%s: card reader failure reported as %d", STEP[s], r);
		m.cover(STEP[s]); m.cover(xf ? "reader failure reported" : "allocation failure reported");
		// what may not be affected
		const Snap& before = N.after[s ? s - 1 : 0]; if (s && (!same(now.config, before.config) || !same(now.params, before.params) || now.naids != before.naids)) m.fail("damaged", "%s: configuration or parameters changed by a failure", STEP[s]);
		if (s == 8 && !same(now.icc, before.icc)) m.fail("damaged", "read: card data changed by a failed attempt");
		if (s == 6 && (now.sel || !now.icc.empty())) m.fail("damaged", "select: application selected although selection failed");
		if (s == 7 && !now.icc.empty()) m.fail("damaged", "initiate: card data present although initiation failed");
		if (retry && (s < 5 || s == 8 || s == 7 && now.sel)) { // the failed operation can be repeated
			uint64_t f0 = alloc_failed(); w.xfail = false; r = step(w, s); Snap again = snap(w); bool hit2 = alloc_failed() > f0 || w.xfail; failed = alloc_failed();
			if (!hit2) { if (r || !equal(again, N.after[s], true)) m.fail("retry", "%s: repeating it after a failure returned %d or left a different state", STEP[s], r); m.cover("repeated"); continue; }
			if (!r) m.fail("success", "%s reported success although a second failure occurred", STEP[s]);
		}
		clean = false; break;
	}
	m.state(hmix(hmix(hmix(v, a1), hmix(a2, x1)), hmix(x2, retry)));
	// reset and use again, with everything working
	alloc_fail_at(-1, -1); w.fx1 = w.fx2 = -1; LIB((emv_ctx_reset(&w.ctx), emv_tlv_list_clear(&w.ctx.config), emv_tlv_list_clear(&w.ctx.supported_aids), emv_app_list_clear(&w.apps), 0));
	for (unsigned s = 0; s < NSTEP; ++s) { int r = step(w, s); if (r || !equal(snap(w), N.after[s], true)) m.fail("reuse", "after a failure and reset, %s returned %d or left a different state", STEP[s], r); }
	LIB((emv_app_list_clear(&w.apps), emv_ctx_clear(&w.ctx), 0)); if (alloc_live()) m.fail("leak", "%zu allocations remain", alloc_live());
}
static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough");
	add("one allocation", NV, [](Mc& m, uint64_t v) { Nominal& n = nominal(m, v); m.cover("transaction"); int64_t a = m.choose(n.allocs); bool r = m.choose(2); run(m, v, a, -1, -1, -1, 0, r); });
	add("one reader call", NV, [](Mc& m, uint64_t v) { Nominal& n = nominal(m, v); int64_t x = m.choose(n.exch); int rc = m.choose(2) ? 3 : -1; bool r = m.choose(2); run(m, v, -1, -1, x, -1, rc, r); });
	for (unsigned v = 0; v < NV; ++v) add(("pairs variant " + std::to_string(v)).c_str(), 512, [v](Mc& m, uint64_t k) { Nominal& n = nominal(m, v); if (k >= n.allocs + n.exch) { m.skip(); return; } // first failure k, second any later one of the history that follows
		bool ax = k >= n.allocs; int64_t a1 = ax ? -1 : k, x1 = ax ? (int64_t)(k - n.allocs) : -1; bool kind = m.choose(2); int64_t span = kind ? n.exch + 12 : n.allocs + 40; int64_t s = m.choose(span); run(m, v, a1 >= 0 ? a1 : kind ? -1 : s, a1 >= 0 && !kind ? s : -1, x1 >= 0 ? x1 : kind ? s : -1, x1 >= 0 && kind ? s : -1, -1, true); });
	// building blocks: parsing and description with every allocation failing
	add("parsing", 3, [](Mc& m, uint64_t k) {
		static const Bytes IN[] = { tlv(0x70, tlv(0x5A, X("4111")) + tlv(0xA5, tlv(0x9F10, X("01")) + tlv(0x57, {})) + tlv(0x5F24, X("251231"))), tlv(0x5A, X("4111")), fci(AIDA, tlv(0x50, S("VISA")) + tlv(0x9F12, S("V")) + tlv(0x9F11, { 1 }) + tlv(0x87, { 1 })) };
		uint64_t total; { alloc_reset(); emv_tlv_list_t l = EMV_TLV_LIST_INIT; LIB(emv_tlv_parse(IN[k].data(), IN[k].size(), &l)); total = alloc_calls(); LIB((emv_tlv_list_clear(&l), 0)); }
		unsigned a = m.choose(total); std::vector<F> ref, got; ref_parse(IN[k].data(), IN[k].size(), ref); alloc_reset(); emv_tlv_list_t l = EMV_TLV_LIST_INIT; alloc_fail_at(a); int r = LIB(emv_tlv_parse(IN[k].data(), IN[k].size(), &l)); m.step();
		if (alloc_failed() != 1) m.fail("internal", "allocation %u did not happen", a); if (r >= 0) m.fail("success", "parsing returned %d although an allocation failed", r); got = grab(l); if (got.size() >= ref.size() || !same(got, std::vector<F>(ref.begin(), ref.begin() + got.size()))) m.fail("prefix", "list does not hold a prefix of the fields");
		LIB((emv_tlv_list_clear(&l), 0)); if (alloc_live()) m.fail("leak", "allocations remain");
		if (k == 2) { alloc_reset(); emv_app_t* x = LIB(emv_app_create_from_fci(IN[2].data(), IN[2].size())); uint64_t n = alloc_calls(); LIB(emv_app_free(x)); alloc_reset(); alloc_fail_at(m.choose(n)); x = LIB(emv_app_create_from_fci(IN[2].data(), IN[2].size())); if (x) m.fail("success", "application created although an allocation failed"); if (alloc_live()) m.fail("leak", "allocations remain");
			Bytes e = tlv(0x4F, AIDA) + tlv(0x50, S("V")) + tlv(0x87, { 1 }); alloc_reset(); x = LIB(emv_app_create_from_pse(nullptr, e.data(), e.size())); n = alloc_calls(); LIB(emv_app_free(x)); alloc_reset(); alloc_fail_at(m.choose(n)); x = LIB(emv_app_create_from_pse(nullptr, e.data(), e.size())); if (x) m.fail("success", "application created although an allocation failed"); if (alloc_live()) m.fail("leak", "allocations remain"); }
		m.state(hmix(a, k)); m.cover("parse failure"); });
}
static struct Init { Init() { setup_hook = setup; } } init_;
