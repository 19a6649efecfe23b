// C33: the steps of the terminal application layer, each used by itself
#include "session.h"
#define MENU_ONLY
namespace cand {
#include "c13_candidates.cpp"
}
namespace init {
#include "c15_initiate.cpp"
}
namespace rd {
#include "c16_read.cpp"
}
typedef std::vector<int> Codes; // acceptable results
static void judge(Mc& m, const char* what, int r, const Codes& ok) { for (int c : ok) if (c == r) { m.cover(r < 0 ? "terminate" : r ? "continue" : "success"); return; } std::string s; for (int c : ok) s += " " + std::to_string(c); m.fail("result", "%s: returned %d, expected%s", what, r, s.c_str()); }
struct L { emv_tlv_list_t l; std::vector<F> f; L() { memset(&l, 0, sizeof l); } }; // a list of fields and what it has to hold
static void supported(emv_tlv_list_t& l, const std::vector<Sup>& s) { memset(&l, 0, sizeof l); for (auto& a : s) LIB(emv_tlv_list_push(&l, EMV_TAG_9F06_AID, a.aid.size(), a.aid.data(), a.partial ? EMV_ASI_PARTIAL_MATCH : EMV_ASI_EXACT_MATCH)); }
// --- references
static Codes ref_pse_step(Replay& c, const std::vector<Sup>& aids, std::vector<RApp>& list, bool& reading) {
	reading = false; Resp r = c.cmd(c_select(PSE)); if (!r.ok) return { EMV_TAL_ERROR_TTL_FAILURE };
	if (r.sw == 0x6A81) return { EMV_TAL_ERROR_CARD_BLOCKED };
	if (r.sw == 0x6A82) return { EMV_TAL_RESULT_PSE_NOT_FOUND };
	if (r.sw == 0x6283) return { EMV_TAL_RESULT_PSE_BLOCKED };
	if (r.sw != 0x9000) return { EMV_TAL_RESULT_PSE_SELECT_FAILED };
	std::vector<F> fci; bool sound = ref_parse(r.data.data(), r.data.size(), fci); const F* sfi = find(fci, 0x88);
	if (!sfi) return sound ? Codes{ EMV_TAL_RESULT_PSE_SFI_NOT_FOUND } : Codes{ EMV_TAL_RESULT_PSE_SFI_NOT_FOUND, EMV_TAL_RESULT_PSE_FCI_PARSE_FAILED };
	if (sfi->v.size() != 1) return { EMV_TAL_RESULT_PSE_SFI_INVALID };
	if (sfi->v[0] < 1 || sfi->v[0] > 30) throw Unspecified();
	reading = true;
	for (unsigned n = 1; n <= 255; ++n) {
		r = c.cmd(c_record(sfi->v[0], n)); if (!r.ok) return { EMV_TAL_ERROR_TTL_FAILURE };
		if (r.sw == 0x6A83) break;
		if (r.sw != 0x9000) continue;
		RefTlv t; long k = ref_ber(r.data.data(), r.data.size(), t); if (k <= 0 || t.tag != 0x70) continue;
		const uint8_t* b = r.data.data() + t.off; size_t p = 0;
		for (;;) { RefTlv e; k = ref_ber(b + p, t.len - p, e); if (k <= 0) break; if (e.tag == 0x61) { RApp a; if (ref_parse(b + p + e.off, e.len, a.f) && describe(a, 0x4F, &fci) && matches(a.aid, aids)) { odd_aid(a.aid); list.push_back(a); } } p += k; }
	}
	return { 0 };
}
static Codes ref_find(Replay& c, const std::vector<Sup>& aids, std::vector<RApp>& list) {
	for (auto& s : aids) { bool next = false;
		for (unsigned count = 0; count <= 255;) {
			Resp q = c.cmd(c_select(s.aid, next)); if (!q.ok) return { EMV_TAL_ERROR_TTL_FAILURE };
			if (!next && q.sw == 0x6A81) return { EMV_TAL_ERROR_CARD_BLOCKED };
			if (q.sw != 0x9000 && q.sw != 0x6283) break;
			RApp a; if (!ref_fci(q.data, a)) break;
			if (a.aid.size() < s.aid.size() || !std::equal(s.aid.begin(), s.aid.end(), a.aid.begin())) throw Unspecified();
			if (a.aid.size() == s.aid.size()) { if (q.sw == 0x9000) list.push_back(a); break; }
			if (!s.partial) break;
			odd_aid(a.aid); if (q.sw == 0x9000) list.push_back(a); next = true; ++count;
		}
	}
	return { 0 };
}
static Codes ref_one(Replay& c, const Bytes& aid, RApp& a) {
	Resp r = c.cmd(c_select(aid)); if (!r.ok) return { EMV_TAL_ERROR_TTL_FAILURE };
	switch (r.sw) { case 0x9000: break; case 0x6A81: return { EMV_TAL_ERROR_CARD_BLOCKED }; case 0x6A82: return { EMV_TAL_RESULT_APP_NOT_FOUND }; case 0x6283: return { EMV_TAL_RESULT_APP_BLOCKED }; default: return { EMV_TAL_RESULT_APP_SELECTION_FAILED }; }
	if (!ref_fci(r.data, a)) return { EMV_TAL_RESULT_APP_FCI_PARSE_FAILED };
	if (a.aid != aid) return { EMV_TAL_RESULT_APP_SELECTION_FAILED };
	return { 0 };
}
static Codes ref_gpo(Replay& c, const Bytes& data, std::vector<F>& out) {
	Resp r = c.cmd(c_gpo(data)); if (!r.ok) return { EMV_TAL_ERROR_TTL_FAILURE };
	if (r.sw == 0x6985) return { EMV_TAL_RESULT_GPO_CONDITIONS_NOT_SATISFIED };
	if (r.sw != 0x9000) return { EMV_TAL_ERROR_GPO_FAILED };
	RefTlv t; long k = ref_ber(r.data.data(), r.data.size(), t); if (k <= 0) return { EMV_TAL_ERROR_GPO_PARSE_FAILED };
	std::vector<F> g; const uint8_t* v = r.data.data() + t.off;
	if (t.tag == 0x80) { if (t.len < 6 || (t.len - 2) % 4) return { EMV_TAL_ERROR_GPO_PARSE_FAILED }; g = { { 0x82, Bytes(v, v + 2) }, { 0x94, Bytes(v + 2, v + t.len) } }; }
	else if (t.tag == 0x77) { if (!ref_parse(v, t.len, g)) return { EMV_TAL_ERROR_GPO_PARSE_FAILED }; }
	else return { EMV_TAL_ERROR_GPO_PARSE_FAILED, EMV_TAL_ERROR_GPO_FIELD_NOT_FOUND };
	if (!find(g, 0x82) || !find(g, 0x94)) return { EMV_TAL_ERROR_GPO_FIELD_NOT_FOUND };
	if ((size_t)k != r.data.size()) throw Unspecified();
	out = g; return { 0 };
}
static Codes ref_records(Replay& c, const Bytes& a, std::vector<F>& out, bool& partial) {
	partial = false; if (a.size() % 4 || a.size() > 252) return { EMV_TAL_ERROR_AFL_INVALID };
	bool sound = ref_afl_ok(a), inside = false, outside = false; if (!sound) c.ordered = false;
	auto end = [&](int e) { partial = true; return sound ? Codes{ e } : Codes{ e, EMV_TAL_ERROR_AFL_INVALID }; };
	for (size_t i = 0; i < a.size(); i += 4) {
		if (!ref_afl_ok(Bytes(a.begin() + i, a.begin() + i + 4))) { partial = true; return { EMV_TAL_ERROR_AFL_INVALID }; }
		for (unsigned n = a[i + 1]; n <= a[i + 2]; ++n) {
			if (!sound && c.i >= c.c.log.size()) { partial = true; return { EMV_TAL_ERROR_AFL_INVALID }; } // noticed before reading
			uint8_t sfi = a[i] >> 3; Resp r = c.cmd(c_record(sfi, n)); if (!r.ok) return end(EMV_TAL_ERROR_TTL_FAILURE); if (r.sw != 0x9000) return end(EMV_TAL_ERROR_READ_RECORD_FAILED);
			if (r.data.empty() || r.data[0] != 0x70) { if (sfi <= 10) return end(EMV_TAL_ERROR_READ_RECORD_INVALID); (n < a[i + 1] + a[i + 3] ? inside : outside) = true; continue; }
			if (sfi <= 10) { RefTlv t; long k = ref_ber(r.data.data(), r.data.size(), t); if (k <= 0 || (size_t)k != r.data.size()) return end(EMV_TAL_ERROR_READ_RECORD_INVALID); }
			if (!ref_parse(r.data.data(), r.data.size(), out)) return end(EMV_TAL_ERROR_READ_RECORD_PARSE_FAILED);
		} }
	return inside ? Codes{ EMV_TAL_RESULT_ODA_RECORD_INVALID } : outside ? Codes{ 0, EMV_TAL_RESULT_ODA_RECORD_INVALID } : Codes{ 0 };
}
// --- steps
static void clean(Mc& m) { if (alloc_live()) m.fail("leak", "%zu allocations remain", alloc_live()); }
static RApp given(emv_app_list_t& l, const Bytes& aid) { RApp a; Bytes f = fci(aid, tlv(0x50, S("GIVEN")) + tlv(0x87, { 1 })); ref_fci(f, a); emv_app_t* p = LIB(emv_app_create_from_fci(f.data(), f.size())); LIB(emv_app_list_push(&l, p)); return a; }
static void directory(Mc& m, const std::vector<Sup>& sups, bool tpdu, bool pre, std::function<Ans()> dir, std::function<Ans(unsigned)> rec) {
	alloc_reset(); Card card(m, tpdu); card.limit = 20000; unsigned n = 0; emv_tlv_list_t s; supported(s, sups); emv_app_list_t l; memset(&l, 0, sizeof l); std::vector<RApp> want; if (pre) want.push_back(given(l, cand::MC));
	card.answer = [&](const Bytes& c) { return c[1] == 0xB2 ? rec(++n) : c[1] == 0xA4 ? dir() : A(0x6D00); };
	int r = LIB(emv_tal_read_pse(&card.ttl, &s, &l)); m.step(); Replay rep(m, card, 0);
	try { bool reading; Codes e = ref_pse_step(rep, sups, want, reading); rep.done(); judge(m, "reading the directory", r, e); if (!r) cmp_apps(m, l, want); if (r > 0 && !pre) cmp_apps(m, l, {}); } catch (Unspecified&) { m.cover("unspecified"); }
	m.state(hmix(card.h, r)); LIB((emv_app_list_clear(&l), emv_tlv_list_clear(&s), 0)); clean(m);
}
static void lookup(Mc& m, const std::vector<Sup>& sups, bool tpdu, bool pre, std::function<Ans(const Bytes&, bool, unsigned)> app) {
	alloc_reset(); Card card(m, tpdu); card.limit = 20000; unsigned n = 0; emv_tlv_list_t s; supported(s, sups); emv_app_list_t l; memset(&l, 0, sizeof l); std::vector<RApp> want; if (pre) want.push_back(given(l, cand::MC));
	card.answer = [&](const Bytes& c) { return c[1] == 0xA4 ? app(Bytes(c.begin() + 5, c.begin() + 5 + c[4]), c[3] == 2, ++n) : A(0x6D00); };
	int r = LIB(emv_tal_find_supported_apps(&card.ttl, &s, &l)); m.step(); Replay rep(m, card, 0);
	try { Codes e = ref_find(rep, sups, want); rep.done(); judge(m, "looking for applications", r, e); if (!r) cmp_apps(m, l, want); } catch (Unspecified&) { m.cover("unspecified"); }
	m.state(hmix(card.h, r)); LIB((emv_app_list_clear(&l), emv_tlv_list_clear(&s), 0)); clean(m);
}
static void directory(Mc& m, unsigned sup, bool tpdu, bool pre, std::function<Ans()> dir, std::function<Ans(unsigned)> rec) { directory(m, cand::supset(sup), tpdu, pre, dir, rec); }
static void lookup(Mc& m, unsigned sup, bool tpdu, bool pre, std::function<Ans(const Bytes&, bool, unsigned)> app) { lookup(m, cand::supset(sup), tpdu, pre, app); }
static void select(Mc& m, const Bytes& aid, bool tpdu, std::function<Ans()> ans) {
	alloc_reset(); Card card(m, tpdu); card.answer = [&](const Bytes& c) { return c[1] == 0xA4 ? ans() : A(0x6D00); }; emv_app_t* a = (emv_app_t*)0x10; Buf id(aid);
	int r = LIB(emv_tal_select_app(&card.ttl, id.p(), id.n(), &a)); m.step(); Replay rep(m, card, 0);
	try { RApp w; Codes e = ref_one(rep, aid, w); rep.done(); judge(m, "selection", r, e); if (r && a) m.fail("output", "refused (%d) but an application is given", r); if (!r && !a) m.fail("output", "selected but no application is given"); if (a) { cmp_app(m, a, w, false, "selected"); if (a->next) m.fail("output", "selected application is linked"); } } catch (Unspecified&) { m.cover("unspecified"); }
	m.state(hmix(card.h, r)); if (a && a != (emv_app_t*)0x10) LIB(emv_app_free(a)); clean(m);
}
static void options(Mc& m, const Bytes* data, bool tpdu, bool pre, unsigned want, std::function<Ans()> ans, L* shared = nullptr, int* result = nullptr) {
	if (!shared) alloc_reset(); Card card(m, tpdu); card.answer = [&](const Bytes& c) { return c[1] == 0xA8 ? ans() : A(0x6D00); }; L own; L& l = shared ? *shared : own; if (pre) { push(l.l, l.f, 0x82, X("FFFF")); push(l.l, l.f, 0x94, X("0102")); push(l.l, l.f, 0x50, S("VISA")); }
	Buf d(data ? *data : Bytes()); const emv_tlv_t *aip = (emv_tlv_t*)0x10, *afl = (emv_tlv_t*)0x10; size_t at = l.f.size();
	int r = LIB(emv_tal_get_processing_options(&card.ttl, data ? d.p() : nullptr, data ? d.n() : 0, &l.l, want & 1 ? &aip : nullptr, want & 2 ? &afl : nullptr)); m.step(); Replay rep(m, card, 0);
	try { std::vector<F> g; Codes e = ref_gpo(rep, data ? *data : X("8300"), g); rep.done(); judge(m, "processing options", r, e); l.f.insert(l.f.end(), g.begin(), g.end()); cmp_list(m, l.l, l.f, "fields");
		auto ptr = [&](const emv_tlv_t* p, unsigned tag, const char* what) { if (r) { if (p) m.fail("output", "refused but %s is given", what); return; } const emv_tlv_t* q = l.l.front; for (size_t i = 0; i < at; ++i) q = q->next; while (q->tag != tag) q = q->next; if (p != q) m.fail("output", "%s does not identify the field just received", what); };
		if (want & 1) ptr(aip, 0x82, "the interchange profile"); if (want & 2) ptr(afl, 0x94, "the file locator"); } catch (Unspecified&) { m.cover("unspecified"); l.f.clear(); for (auto* t = l.l.front; t; t = t->next) l.f.push_back({ t->tag, Bytes(t->value, t->value + t->length) }); }
	if (want & 1 && aip == (emv_tlv_t*)0x10 || want & 2 && afl == (emv_tlv_t*)0x10) m.fail("output", "outputs were not set");
	m.state(hmix(card.h, r)); if (result) *result = r; if (!shared) { LIB(emv_tlv_list_clear(&l.l)); clean(m); }
}
static void records(Mc& m, const Bytes& afl, bool tpdu, bool pre, std::function<Ans(unsigned)> ans, L* shared = nullptr) {
	if (!shared) alloc_reset(); Card card(m, tpdu); unsigned n = 0; card.answer = [&](const Bytes& c) { return c[1] == 0xB2 ? ans(n++) : A(0x6D00); }; L own; L& l = shared ? *shared : own; if (pre) { push(l.l, l.f, 0x5A, X("99")); push(l.l, l.f, 0x94, X("F8010100")); }
	Buf a(afl); m.log("locator %s", hex(afl).c_str()); int r = LIB(emv_tal_read_afl_records(&card.ttl, a.p(), a.n(), &l.l)); m.step(); Replay rep(m, card, 0);
	try { bool partial; std::vector<F> w = l.f; Codes e = ref_records(rep, afl, w, partial); if (rep.ordered) rep.done(); judge(m, "reading records", r, e); if (r >= 0) { cmp_list(m, l.l, w, "fields"); l.f = w; }
		else { const emv_tlv_t* t = l.l.front; for (size_t i = 0; i < l.f.size(); ++i, t = t->next) if (!t || t->tag != l.f[i].tag || Bytes(t->value, t->value + t->length) != l.f[i].v) m.fail("fields", "a failure changed the fields that were on the list"); } } catch (Unspecified&) { m.cover("unspecified"); }
	l.f.clear(); for (auto* t = l.l.front; t; t = t->next) l.f.push_back({ t->tag, Bytes(t->value, t->value + t->length) });
	m.state(hmix(card.h, r)); if (!shared) { LIB(emv_tlv_list_clear(&l.l)); clean(m); }
}
static const Bytes E4(uint8_t s, uint8_t f, uint8_t l, uint8_t o) { return { s, f, l, o }; }
static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough");
	add("directory", cand::NPSE * cand::NSUP * 4, [=](Mc& m, uint64_t k) { unsigned d = k % cand::NPSE, s = k / cand::NPSE % cand::NSUP, v = k / cand::NPSE / cand::NSUP; directory(m, s, v & 1, v & 2, [&] { return cand::pse(d); }, [&](unsigned n) { return n > (th ? 3 : 2) ? A(0x6A83) : cand::record(m.choose(cand::NREC), n); }); }, cand::NREC);
	add("directory status", 65536 / 64, [](Mc& m, uint64_t k) { for (unsigned i = 0; i < 64; ++i) { uint16_t sw = k * 64 + i; if (sw >> 8 == 0x61 || sw >> 8 == 0x6C) continue; unsigned v = m.tracing ? 0 : 0; for (v = 0; v < 3; ++v) directory(m, 1, false, false, [&] { return v == 0 ? A(sw) : v == 1 ? A(fci(PSE, tlv(0x88, { 1 })), sw) : cand::pse(0); }, [&](unsigned n) { return n == 1 && v == 2 ? A(sw) : n <= 2 ? A(tlv(0x70, entry(cand::V, "VISA", 1))) : A(0x6A83); }); } });
	add("applications", cand::NAPP * cand::NSUP * 4, [=](Mc& m, uint64_t k) { unsigned f = k % cand::NAPP, s = k / cand::NAPP % cand::NSUP, v = k / cand::NAPP / cand::NSUP; lookup(m, s, v & 1, v & 2, [&](const Bytes& a, bool next, unsigned n) { return n > (th ? 5 : 4) ? A(0x6A82) : cand::app(a, next, n == 1 ? f : m.choose(cand::NAPP), n); }); }, cand::NAPP);
	add("applications status", 65536 / 64, [](Mc& m, uint64_t k) { for (unsigned i = 0; i < 64; ++i) { uint16_t sw = k * 64 + i; if (sw >> 8 == 0x61 || sw >> 8 == 0x6C) continue; for (unsigned v = 0; v < 4; ++v) lookup(m, 3, false, false, [&](const Bytes& a, bool next, unsigned n) { Bytes b = a; if (v & 2 && b.size() == 5) b.push_back(n); return n == 1 + (v & 1) ? (v & 2 ? A(fci(b, tlv(0x87, { 1 })), sw) : A(sw)) : n < 4 ? A(fci(b, tlv(0x87, { 2 }))) : A(0x6A82); }); } });
	add("selection", 12 * 2 * cand::NAPP, [](Mc& m, uint64_t k) { Bytes id = X("A0000000031010010203040506070809"); id.resize(5 + k % 12); unsigned w = k / 12; select(m, id, w & 1, [&] { unsigned seq = 1 + m.choose(3); Bytes other = id; if (m.choose(2)) other[m.choose(other.size())] ^= 1; if (m.choose(2)) other.pop_back(); return cand::app(other, false, w / 2, seq); }); });
	add("selection status", 65536 / 64, [](Mc& m, uint64_t k) { for (unsigned i = 0; i < 64; ++i) { uint16_t sw = k * 64 + i; if (sw >> 8 == 0x61 || sw >> 8 == 0x6C) continue; for (unsigned v = 0; v < 4; ++v) select(m, cand::V, v & 2 ? sw >> 8 != 0x90 && sw >> 8 != 0x62 ? false : true : false, [&] { return v & 1 ? A(fci(cand::V, tlv(0x50, S("VISA"))), sw) : A(sw); }); } });
	add("options", init::NG * 16, [](Mc& m, uint64_t k) { unsigned g = k % init::NG, v = k / init::NG; Bytes d = X("8304 01020304"); options(m, m.choose(2) ? &d : nullptr, v & 1, v & 2, v >> 2, [&] { return init::gpo(g); }); });
	add("options data", 256, [](Mc& m, uint64_t k) { if (k < 2) { m.skip(); return; } Bytes d(k); for (size_t i = 0; i < k; ++i) d[i] = i * 3 + 0x83; for (unsigned t = 0; t < 2; ++t) options(m, &d, t, true, 3, [&] { return init::gpo(k % 3); }); });
	add("options status", 65536 / 64, [](Mc& m, uint64_t k) { for (unsigned i = 0; i < 64; ++i) { uint16_t sw = k * 64 + i; if (sw >> 8 == 0x61 || sw >> 8 == 0x6C) continue; for (unsigned v = 0; v < 2; ++v) options(m, nullptr, false, v, 3, [&] { return v ? A(tlv(0x80, X("3900 08010100")), sw) : A(sw); }); } });
	add("options lengths", 254, [](Mc& m, uint64_t k) { for (unsigned t = 0; t < 2; ++t) options(m, nullptr, t, false, 3, [&] { Bytes b(k); for (size_t i = 0; i < k; ++i) b[i] = i * 5 + 1; return A(tlv(0x80, b)); }); });
	static const uint8_t OCT[] = { 0x00, 0x80, 0x77, 0x82, 0x94, 0x01, 0x02, 0x04, 0x06, 0x81, 0xA5, 0x9F };
	add("options strings", 12 * 12, [=](Mc& m, uint64_t k) { Bytes b = { OCT[k % 12], OCT[k / 12] }; unsigned n = m.choose(th ? 6 : 5); for (unsigned i = 0; i < n; ++i) b.push_back(OCT[m.choose(12)]); if (n > 3 && b[0] != 0x77 && b[0] != 0x80) { m.skip(); return; } options(m, nullptr, false, false, 3, [&] { return A(b); }); }, th ? 6 : 5);
	static const Bytes AFL[] = { E4(0x08, 1, 1, 0), E4(0x08, 1, 2, 1), E4(0x50, 1, 1, 0) + E4(0x58, 1, 1, 0), E4(0x58, 1, 3, 2), E4(0x58, 1, 2, 1), E4(0xF0, 255, 255, 1), E4(0x58, 1, 2, 0) + E4(0x08, 1, 1, 1), E4(0x58, 1, 1, 1) + E4(0x60, 1, 1, 0) + E4(0x08, 9, 9, 0), E4(0x08, 1, 1, 0) + E4(0x08, 2, 1, 0), E4(0x58, 2, 2, 1) + E4(0x00, 1, 1, 0) };
	add("records", 10 * 4, [=](Mc& m, uint64_t k) { unsigned v = k / 10; records(m, AFL[k % 10], v & 1, v & 2, [&](unsigned i) { return i < (th ? 4 : 3) ? rd::rec(m.choose(rd::NR), i) : rd::rec(0, i); }); }, rd::NR);
	static const uint8_t S8[] = { 0x00, 0x08, 0x09, 0x0C, 0x50, 0x58, 0xF0, 0xF8, 0xFF }, N8[] = { 0, 1, 2, 3, 127, 128, 254, 255 }, O8[] = { 0, 1, 2, 3, 255 };
	add("locator entries", 9 * 8 * 8, [=](Mc& m, uint64_t k) { Bytes a = E4(S8[k % 9], N8[k / 9 % 8], N8[k / 72], O8[m.choose(5)]); unsigned w = m.choose(5); if (w == 1) a = E4(0x08, 1, 1, 0) + a; if (w == 2) a = a + E4(0x58, 7, 7, 1); if (w == 3) a = a + E4(0x10, 7, 6, 0); if (w == 4) a = E4(0x58, 1, 1, 1) + a; unsigned bad = m.choose(3); records(m, a, false, false, [&](unsigned i) { return i < 2 && bad == i + 1 ? A({ 0x71, 0x00 }) : rd::rec(1, i); }); });
	add("locator lengths", 300, [](Mc& m, uint64_t k) { Bytes a; for (unsigned i = 0; i < k; ++i) a.push_back(i % 4 == 0 ? 0x58 : i % 4 == 3 ? 0 : i / 4 + 1); if (k) for (unsigned t = 0; t < 2; ++t) records(m, a, t, t, [&](unsigned i) { return i % 7 == 3 && t ? A({ 0x71, 0x00 }) : rd::rec(0, i); }); });
	add("record status", 65536 / 64, [](Mc& m, uint64_t k) { for (unsigned i = 0; i < 64; ++i) { uint16_t sw = k * 64 + i; if (sw >> 8 == 0x61 || sw >> 8 == 0x6C) continue; for (unsigned v = 0; v < 4; ++v) records(m, E4(v & 2 ? 0x58 : 0x08, 1, 2, 1), false, false, [&](unsigned j) { return j == (v & 1) ? A(tlv(0x70, tlv(0x5A, X("41"))), sw) : rd::rec(0, j); }); } });
	add("options, then records", init::NG * 2, [=](Mc& m, uint64_t k) { alloc_reset(); L l; int r; unsigned g = k % init::NG; options(m, nullptr, k / init::NG, m.choose(2), 3, [&] { return init::gpo(g); }, &l, &r); const F* a = nullptr; for (auto& f : l.f) if (f.tag == 0x94) a = &f; if (a && !a->v.empty()) { Bytes v = a->v; unsigned again = 1 + m.choose(2); for (unsigned i = 0; i < again; ++i) records(m, v, k / init::NG, false, [&](unsigned n) { return n < 2 ? rd::rec(m.choose(th ? rd::NR : 8), n) : rd::rec(0, n); }, &l); } LIB(emv_tlv_list_clear(&l.l)); clean(m); });
	// many
	auto nth = [](unsigned i) { return Bytes{ 0xA0, 0, 0, 0, 3, (uint8_t)(i >> 8), (uint8_t)i }; };
	add("long directory", 64, [=](Mc& m, uint64_t k) { static const unsigned R[] = { 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 25, 30, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 200, 253, 254, 255 }; unsigned n = R[k / 2], e = 1 + m.choose(3) * 3, w = m.choose(5);
		directory(m, { { cand::V5, true } }, k & 1, false, [] { return cand::pse(0); }, [&](unsigned r) { if (r > n) return A(0x6A83); Bytes b; for (unsigned i = 0; i < e; ++i) { unsigned id = (r - 1) * e + i; bool in = w == 0 || (w == 1 && id == n * e - 1) || (w == 2 && id % 5 == 0) || (w == 3 && id == n * e / 2) || (w == 4 && r % 7 == 1); Bytes a = nth(id); if (!in) a[4] = 0x77; cat(b, entry(a, "A", 1 + id % 15)); } return A(tlv(0x70, b)); }); });
	add("long selection chain", 64, [=](Mc& m, uint64_t k) { unsigned n = k + 1, w = m.choose(4); unsigned seq = 0; lookup(m, { { cand::MC, false }, { cand::V5, true }, { cand::M5, true } }, k & 1, m.choose(2), [&](const Bytes& a, bool next, unsigned) { if (!next) seq = 0; if (a == cand::MC || (a == cand::M5 && w != 3)) return A(0x6A82); if (++seq > n) return A(w == 1 ? 0x6A81 : 0x6A82); Bytes id = a; id.push_back(seq); return A(fci(id, tlv(0x50, S("APP")) + tlv(0x87, { (uint8_t)(seq % 16) })), w == 2 && seq % 3 ? 0x6283 : 0x9000); }); });
	add("very long selection chain", 4, [=](Mc& m, uint64_t k) { static const unsigned N[] = { 100, 200, 254, 255 }; unsigned n = N[k], seq = 0; lookup(m, { { cand::V5, true }, { cand::MC, false } }, m.choose(2), false, [&](const Bytes& a, bool next, unsigned) { if (a == cand::MC) return A(fci(a, tlv(0x50, S("MC")))); if (++seq > n) return A(0x6A82); Bytes id = a; id.push_back(seq); return A(fci(id, tlv(0x50, S("APP")))); }); });
	add("many identifiers", 48, [=](Mc& m, uint64_t k) { unsigned n = k + 1, w = m.choose(n + 2), ex = m.choose(2); std::vector<Sup> s; for (unsigned i = 0; i < n; ++i) s.push_back({ nth(i), !ex }); lookup(m, s, k & 1, false, [&](const Bytes& a, bool next, unsigned) { unsigned i = a[5] << 8 | a[6]; return !next && (w > n || w == i) ? A(fci(a, tlv(0x50, S("APP")))) : A(0x6A82); }); });
	add("arguments", 1, [](Mc& m, uint64_t) { const int E = EMV_TAL_ERROR_INVALID_PARAMETER; alloc_reset(); Card c(m); emv_tlv_list_t s, l; memset(&s, 0, sizeof s); memset(&l, 0, sizeof l); emv_app_list_t a; memset(&a, 0, sizeof a); emv_app_t* p = nullptr; uint8_t id[17] = { 0xA0, 0, 0, 0, 3, 0x10, 0x10 }, d[256] = { 0x83 }; const emv_tlv_t* q;
		auto must = [&](const char* w, int r) { m.step(); if (r != E) m.fail("argument", "%s: returned %d", w, r); if (!c.log.empty()) m.fail("argument", "%s: a command was sent", w); };
		must("directory without reader", LIB(emv_tal_read_pse(nullptr, &s, &a))); must("directory without list", LIB(emv_tal_read_pse(&c.ttl, &s, nullptr)));
		must("applications without reader", LIB(emv_tal_find_supported_apps(nullptr, &s, &a))); must("applications without identifiers", LIB(emv_tal_find_supported_apps(&c.ttl, nullptr, &a))); must("applications without list", LIB(emv_tal_find_supported_apps(&c.ttl, &s, nullptr)));
		must("selection without reader", LIB(emv_tal_select_app(nullptr, id, 7, &p))); must("selection without name", LIB(emv_tal_select_app(&c.ttl, nullptr, 7, &p))); must("selection without output", LIB(emv_tal_select_app(&c.ttl, id, 7, nullptr))); for (unsigned n : { 0u, 1u, 4u, 17u }) must("selection, length of name", LIB(emv_tal_select_app(&c.ttl, id, n, &p)));
		must("options without reader", LIB(emv_tal_get_processing_options(nullptr, nullptr, 0, &l, &q, &q))); must("options without list", LIB(emv_tal_get_processing_options(&c.ttl, nullptr, 0, nullptr, &q, &q))); for (unsigned n : { 0u, 1u, 256u }) must("options, length of data", LIB(emv_tal_get_processing_options(&c.ttl, d, n, &l, &q, &q))); for (unsigned n : { 1u, 2u, 255u }) must("options, length without data", LIB(emv_tal_get_processing_options(&c.ttl, nullptr, n, &l, &q, &q)));
		must("records without reader", LIB(emv_tal_read_afl_records(nullptr, (const uint8_t*)"\x08\x01\x01\x00", 4, &l))); must("records without locator", LIB(emv_tal_read_afl_records(&c.ttl, nullptr, 4, &l))); must("records, empty locator", LIB(emv_tal_read_afl_records(&c.ttl, id, 0, &l))); must("records without list", LIB(emv_tal_read_afl_records(&c.ttl, (const uint8_t*)"\x08\x01\x01\x00", 4, nullptr))); clean(m); });
}
static struct Init { Init() { setup_hook = setup; } } init_;
