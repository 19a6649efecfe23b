// Simulated card + independent reference of the EMV session functions. The library runs against the card
// (whose answers are explored choices); the recorded dialogue is then replayed through the reference, which
// states command by command what had to be sent and what the context has to hold afterwards.
#pragma once
#include "mc.h"
#include "refapp.h"
#include "refdol.h"
#include "refttl.h"
#include <emv.h>
#include <emv_app.h>
#include <emv_fields.h>
#include <emv_tags.h>
#include <emv_tal.h>
#include <emv_tlv.h>
#include <emv_ttl.h>
#include <functional>
#include <memory>
using namespace mc;

struct Ans { Bytes data; uint16_t sw = 0x9000; int rc = 0; bool raw = false; };
static Ans A(uint16_t sw) { Ans a; a.sw = sw; return a; }
static Ans A(const Bytes& d, uint16_t sw = 0x9000) { Ans a; a.data = d; a.sw = sw; return a; }
static Ans Fault(int rc) { Ans a; a.rc = rc; return a; }
static Ans Raw(const Bytes& d) { Ans a; a.data = d; a.raw = true; return a; } // response frame verbatim (APDU mode)

struct Frame { Bytes tx, rx; int rc; };
struct Card {
	Mc& m; bool tpdu = false; std::function<Ans(const Bytes&)> answer; // answers complete commands
	std::vector<Frame> log; unsigned limit = 100000; bool runaway = false; uint64_t h = 0;
	Bytes hdr; Ans pending; bool have_pending = false; // T=0 adapter
	emv_ttl_t ttl;
	explicit Card(Mc& mm, bool t = false) : m(mm), tpdu(t) { memset(&ttl, 0, sizeof ttl); ttl.cardreader.mode = t ? EMV_CARDREADER_MODE_TPDU : EMV_CARDREADER_MODE_APDU; ttl.cardreader.ctx = this; ttl.cardreader.trx = trx; }
	Card(const Card&) = delete;
	static Bytes frame(const Ans& a, int ins) { if (a.raw) return a.data; Bytes r; if (ins >= 0 && !a.data.empty()) r.push_back(ins); r.insert(r.end(), a.data.begin(), a.data.end()); r.push_back(a.sw >> 8); r.push_back(a.sw); return r; }
	Bytes respond(const Bytes& tx, int& rc) {
		rc = 0;
		if (!tpdu) { Ans a = answer(tx); rc = a.rc; return rc ? Bytes() : frame(a, -1); }
		if (hdr.empty()) {
			if (tx.size() != 5) { rc = -77; return {}; }
			if (tx[1] == 0xC0) { if (!have_pending) return { 0x6F, 0x00 }; have_pending = false; Ans a = pending; return frame(a, 0xC0); }
			have_pending = false;
			if (tx[1] == 0xB2) { Ans a = answer(tx); rc = a.rc; return rc ? Bytes() : frame(a, tx[1]); }
			if (!tx[4]) { Ans a = answer(tx); rc = a.rc; return rc ? Bytes() : frame(a, tx[1]); }
			hdr = tx; return { tx[1] }; // ACK: send data
		}
		Bytes c = hdr; hdr.clear(); c.insert(c.end(), tx.begin(), tx.end()); c.push_back(0);
		Ans a = answer(c); rc = a.rc; if (rc) return {};
		if (a.raw) return a.data;
		if (a.data.empty()) return { (uint8_t)(a.sw >> 8), (uint8_t)a.sw };
		pending = a; have_pending = true;
		if (a.sw == 0x9000) return { 0x61, (uint8_t)a.data.size() };
		pending.sw = 0x9000; return { (uint8_t)(a.sw >> 8), (uint8_t)a.sw }; // warning first, data on GET RESPONSE
	}
	static int trx(void* c, const void* tx, size_t n, void* rx, size_t* rn) {
		Host host; Card& k = *(Card*)c; Frame f; f.tx.assign((const uint8_t*)tx, (const uint8_t*)tx + n); f.rc = 0;
		if (k.log.size() >= k.limit) { k.runaway = true; f.rc = -99; k.log.push_back(f); return -99; }
		f.rx = k.respond(f.tx, f.rc); memset(rx, 0xEE, *rn);
		if (f.rx.size() > *rn) { f.rx.clear(); f.rc = -98; }
		if (!f.rx.empty()) memcpy(rx, f.rx.data(), f.rx.size());
		if (!f.rc) *rn = f.rx.size();
		k.m.step(); k.h = hmix(hash(f.rx.data(), f.rx.size(), k.h), f.rc);
		if (k.m.tracing) { k.m.log("> %s", hex(f.tx).c_str()); if (f.rc) k.m.log("< reader error %d", f.rc); else k.m.log("< %s", hex(f.rx).c_str()); }
		k.log.push_back(f); return f.rc;
	}
};
struct Unspecified {}; // reference: behaviour not prescribed from here on
struct Resp { bool ok; Bytes data; uint16_t sw; };
struct Replay { // reference side of the dialogue
	Mc& m; Card& c; size_t i; bool ordered = true;
	Replay(Mc& mm, Card& cc, size_t start) : m(mm), c(cc), i(start) {}
	Resp cmd(const Bytes& capdu) {
		RefTtl t(capdu, 258, c.tpdu);
		while (t.st == SENDING) {
			if (i >= c.log.size()) m.fail("not_sent", "%s was not sent", hex(t.tx).c_str());
			if (c.log[i].tx != t.tx) m.fail("sent", "sent %s, expected %s", hex(c.log[i].tx).c_str(), hex(t.tx).c_str());
			if (c.log[i].rc) { ++i; return { false, {}, 0 }; }
			t.response(c.log[i].rx); ++i;
		}
		if (t.st == ANY) throw Unspecified();
		if (t.st != OK) return { false, {}, 0 };
		return { true, t.data, t.sw };
	}
	void done() { if (i != c.log.size()) m.fail("surplus", "%s was sent after the operation was decided", hex(c.log[i].tx).c_str()); }
};
static Bytes c_select(const Bytes& name, bool next = false) { Bytes c = { 0x00, 0xA4, 0x04, (uint8_t)(next ? 2 : 0), (uint8_t)name.size() }; cat(c, name); c.push_back(0); return c; }
static Bytes c_record(uint8_t sfi, uint8_t n) { return { 0x00, 0xB2, n, (uint8_t)(sfi << 3 | 4), 0x00 }; }
static Bytes c_gpo(const Bytes& d) { Bytes c = { 0x80, 0xA8, 0x00, 0x00, (uint8_t)d.size() }; cat(c, d); c.push_back(0); return c; }
static const Bytes PSE = S("1PAY.SYS.DDF01");

struct RApp { std::vector<F> f; Bytes aid; std::string name; uint8_t pri = 0; bool conf = false; };
static bool describe(RApp& a, unsigned aidtag, const std::vector<F>* pse) {
	const F* x = find(a.f, aidtag); if (!x || !ref_name(a.f, aidtag, pse, a.name)) return false; a.aid = x->v;
	const F* p = find(a.f, 0x87); if (p && !p->v.empty()) { a.pri = p->v[0] & 15; a.conf = p->v[0] & 0x80; } return true;
}
static bool ref_fci(const Bytes& d, RApp& a) { RefTlv t; long r = ref_ber(d.data(), d.size(), t); if (r <= 0 || (size_t)r != d.size() || t.tag != 0x6F) return false; return ref_parse(d.data() + t.off, t.len, a.f) && describe(a, 0x84, nullptr); }
struct Sup { Bytes aid; bool partial; };
static bool matches(const Bytes& aid, const std::vector<Sup>& s) { for (auto& x : s) if (x.partial ? x.aid.size() <= aid.size() && std::equal(x.aid.begin(), x.aid.end(), aid.begin()) : x.aid == aid) return true; return false; }
struct RCtx {
	std::vector<F> config, params, icc, terminal; std::vector<Sup> aids; bool has_app = false, moved = false, terminal_any = false, ttl = true; RApp app;
};
static const int O_CARD_ERROR = EMV_OUTCOME_CARD_ERROR, O_BLOCKED = EMV_OUTCOME_CARD_BLOCKED, O_NOT_ACCEPTED = EMV_OUTCOME_NOT_ACCEPTED, O_AGAIN = EMV_OUTCOME_TRY_AGAIN, O_GPO = EMV_OUTCOME_GPO_NOT_ACCEPTED, E_PARAM = EMV_ERROR_INVALID_PARAMETER;

static void ref_order(std::vector<RApp>& l) { std::vector<RApp> o; for (unsigned p = 1; p <= 16; ++p) for (auto& x : l) if ((p & 15) == x.pri) o.push_back(x); l = o; }
static void odd_aid(const Bytes& a) { if (a.size() < 5 || a.size() > 16) throw Unspecified(); }
// EMV Book 1, 12.3.2; returns outcome or 0; list is meaningful for 0 and NOT_ACCEPTED
static int ref_pse(Replay& c, const RCtx& x, std::vector<RApp>& list) {
	Resp r = c.cmd(c_select(PSE)); if (!r.ok) return O_CARD_ERROR;
	if (r.sw == 0x6A81) return O_BLOCKED;
	if (r.sw != 0x9000) return 0;
	std::vector<F> fci; ref_parse(r.data.data(), r.data.size(), fci);
	const F* sfi = find(fci, 0x88); if (!sfi || sfi->v.size() != 1) return 0;
	if (sfi->v[0] < 1 || sfi->v[0] > 30) throw Unspecified();
	for (unsigned n = 1; n <= 255; ++n) {
		r = c.cmd(c_record(sfi->v[0], n)); if (!r.ok) return O_CARD_ERROR;
		if (r.sw == 0x6A83) break;
		if (r.sw != 0x9000) continue;
		RefTlv t; long k = ref_ber(r.data.data(), r.data.size(), t); if (k <= 0 || t.tag != 0x70) continue;
		const uint8_t* b = r.data.data() + t.off; size_t p = 0;
		for (;;) { RefTlv e; k = ref_ber(b + p, t.len - p, e); if (k <= 0) break; if (e.tag == 0x61) { RApp a; if (ref_parse(b + p + e.off, e.len, a.f) && describe(a, 0x4F, &fci)) { if (matches(a.aid, x.aids)) { odd_aid(a.aid); list.push_back(a); } } } p += k; }
	}
	return 0;
}
static int ref_build(Replay& c, const RCtx& x, std::vector<RApp>& list, bool& list_any) {
	list.clear(); list_any = false; int r = ref_pse(c, x, list); if (r) { list.clear(); return r; }
	if (list.empty()) for (auto& s : x.aids) { // EMV Book 1, 12.3.3
		bool next = false; unsigned count = 0;
		for (;;) {
			if (count > 255) break; // a card that never runs out of applications
			Resp q = c.cmd(c_select(s.aid, next)); if (!q.ok) { list_any = true; return O_CARD_ERROR; }
			if (!next && q.sw == 0x6A81) { list_any = true; return O_BLOCKED; }
			if (q.sw != 0x9000 && q.sw != 0x6283) break;
			RApp a; if (!ref_fci(q.data, a)) break;
			if (a.aid.size() < s.aid.size() || !std::equal(s.aid.begin(), s.aid.end(), a.aid.begin())) throw Unspecified(); // answer to a different question
			if (a.aid.size() == s.aid.size()) { if (q.sw == 0x9000) list.push_back(a); break; }
			if (!s.partial) break;
			odd_aid(a.aid); if (q.sw == 0x9000) list.push_back(a);
			next = true; ++count;
		}
	}
	if (list.empty()) return O_NOT_ACCEPTED;
	ref_order(list); return 0;
}
static int ref_select(Replay& c, RCtx& x, std::vector<RApp>& list, unsigned index) {
	x.has_app = x.moved = false; x.app = RApp(); x.icc.clear(); x.terminal.clear(); x.terminal_any = false;
	if (index >= list.size()) return E_PARAM;
	Bytes aid = list[index].aid; list.erase(list.begin() + index); int again = list.empty() ? O_NOT_ACCEPTED : O_AGAIN;
	if (aid.size() < 5) throw Unspecified();
	if (aid.size() > 16) return again;
	Resp r = c.cmd(c_select(aid)); if (!r.ok) return O_CARD_ERROR;
	if (r.sw == 0x6A81) return O_BLOCKED;
	RApp a; if (r.sw != 0x9000 || !ref_fci(r.data, a) || a.aid != aid) return again;
	x.app = a; x.has_app = true; return 0;
}
static int ref_initiate(Replay& c, RCtx& x, uint8_t pos) {
	if (!x.has_app || x.moved) return E_PARAM;
	x.icc.clear(); x.terminal = { { 0x9F39, { pos } }, { 0x9F06, x.app.aid }, { 0x9B, Bytes(2, 0) }, { 0x95, Bytes(5, 0) } }; x.terminal_any = true; // on failure: not prescribed
	Bytes cmd = { 0x83, 0x00 };
	if (const F* p = find(x.app.f, 0x9F38)) {
		if (p->v.empty()) throw Unspecified();
		std::vector<Entry> es; if (!ref_list(p->v, es)) return O_CARD_ERROR;
		auto conv = [](const std::vector<F>& l) { std::vector<Fld> o; for (auto& f : l) o.push_back({ f.tag, f.v }); return o; };
		Bytes d = expect(es, { conv(x.params), conv(x.config), conv(x.terminal) });
		if (d.size() > 252) return O_CARD_ERROR;
		cmd = { 0x83 }; if (d.size() > 127) cmd.push_back(0x81); cmd.push_back(d.size()); cat(cmd, d);
	}
	Resp r = c.cmd(c_gpo(cmd)); if (!r.ok) return O_CARD_ERROR;
	if (r.sw == 0x6985) return O_GPO;
	if (r.sw != 0x9000) return O_CARD_ERROR;
	RefTlv t; long k = ref_ber(r.data.data(), r.data.size(), t); if (k <= 0) return O_CARD_ERROR;
	std::vector<F> g; const uint8_t* v = r.data.data() + t.off;
	if (t.tag == 0x80) { if (t.len < 6 || (t.len - 2) % 4) return O_CARD_ERROR; g = { { 0x82, Bytes(v, v + 2) }, { 0x94, Bytes(v + 2, v + t.len) } }; }
	else if (t.tag == 0x77) { if (!ref_parse(v, t.len, g)) return O_CARD_ERROR; }
	else return O_CARD_ERROR;
	if (!find(g, 0x82) || !find(g, 0x94)) return O_CARD_ERROR;
	if ((size_t)k != r.data.size()) throw Unspecified(); // bytes after the template
	x.icc = x.app.f; x.icc.insert(x.icc.end(), g.begin(), g.end()); x.moved = true; x.terminal_any = false;
	return 0;
}
static bool ref_afl_ok(const Bytes& a) { if (a.empty() || a.size() % 4 || a.size() > 252) return false; for (size_t i = 0; i < a.size(); i += 4) { if (a[i] & 7) return false; unsigned s = a[i] >> 3; if (!s || s == 31 || !a[i + 1] || a[i + 2] < a[i + 1] || a[i + 3] > a[i + 2] - a[i + 1] + 1) return false; } return true; }
static int ref_read(Replay& c, RCtx& x) {
	const F* afl = find(x.icc, 0x94); if (!afl) return O_CARD_ERROR;
	if (!ref_afl_ok(afl->v)) { c.ordered = false; return O_CARD_ERROR; } // how much is read before the malformed entry is noticed is not prescribed
	std::vector<F> rec; Bytes a = afl->v;
	for (size_t i = 0; i < a.size(); i += 4) for (unsigned n = a[i + 1]; n <= a[i + 2]; ++n) {
		uint8_t sfi = a[i] >> 3; Resp r = c.cmd(c_record(sfi, n)); if (!r.ok || r.sw != 0x9000) return O_CARD_ERROR;
		if (r.data.empty() || r.data[0] != 0x70) { if (sfi <= 10) return O_CARD_ERROR; continue; }
		if (sfi <= 10) { RefTlv t; long k = ref_ber(r.data.data(), r.data.size(), t); if (k <= 0 || (size_t)k != r.data.size()) return O_CARD_ERROR; }
		if (!ref_parse(r.data.data(), r.data.size(), rec)) return O_CARD_ERROR;
	}
	for (size_t i = 0; i < rec.size(); ++i) for (size_t j = 0; j < i; ++j) if (rec[i].tag == rec[j].tag) return O_CARD_ERROR;
	for (unsigned t : { 0x5F24, 0x5A, 0x8C, 0x8D }) if (!find(rec, t)) return O_CARD_ERROR;
	x.icc.insert(x.icc.end(), rec.begin(), rec.end()); return 0;
}
// --- comparison of library objects with the reference
static void cmp_list(Mc& m, const emv_tlv_list_t& l, const std::vector<F>& e, const char* what) {
	size_t i = 0; const emv_tlv_t* last = nullptr;
	for (auto* t = l.front; t; last = t, t = t->next, ++i) {
		if (i >= e.size()) m.fail(what, "%s holds unexpected field %X", what, t->tag);
		if (t->tag != e[i].tag || t->length != e[i].v.size() || (t->length && memcmp(t->value, e[i].v.data(), t->length))) m.fail(what, "%s: field %zu is %X (%s), expected %X (%s)", what, i, t->tag, t->length < 600 ? hex(t->value, t->length).c_str() : "?", e[i].tag, hex(e[i].v).c_str());
	}
	if (i != e.size()) m.fail(what, "%s holds %zu fields, field %X (%s) is missing", what, i, e[i].tag, hex(e[i].v).c_str());
	if (l.back != last) m.fail(what, "%s: tail does not identify the last field", what);
}
static void cmp_app(Mc& m, const emv_app_t* a, const RApp& e, bool moved, const char* what) {
	if (strcmp(a->display_name, e.name.c_str())) m.fail(what, "%s: application name is '%s', expected '%s'", what, a->display_name, e.name.c_str());
	if (a->priority != e.pri || a->confirmation_required != e.conf) m.fail(what, "%s: priority/confirmation of %s", what, hex(e.aid).c_str());
	if (moved) { if (a->tlv_list.front) m.fail(what, "%s: application data was not moved", what); return; }
	if (!a->aid || a->aid->length != e.aid.size() || memcmp(a->aid->value, e.aid.data(), e.aid.size())) m.fail(what, "%s: application identifier is %s, expected %s", what, a->aid && a->aid->length < 300 ? hex(a->aid->value, a->aid->length).c_str() : "?", hex(e.aid).c_str());
	cmp_list(m, a->tlv_list, e.f, what);
}
static void cmp_apps(Mc& m, const emv_app_list_t& l, const std::vector<RApp>& e) {
	size_t i = 0; const emv_app_t* last = nullptr;
	for (auto* a = l.front; a; last = a, a = a->next, ++i) { if (i >= e.size()) m.fail("candidates", "unexpected candidate %s", hex(a->aid->value, a->aid->length).c_str()); cmp_app(m, a, e[i], false, "candidates"); }
	if (i != e.size()) m.fail("candidates", "candidate %s is missing", hex(e[i].aid).c_str());
	if (l.back != last) m.fail("candidates", "tail does not identify the last candidate");
}
static void cmp_ctx(Mc& m, const emv_ctx_t& c, const RCtx& x) {
	cmp_list(m, c.config, x.config, "config"); cmp_list(m, c.params, x.params, "params"); cmp_list(m, c.icc, x.icc, "icc"); if (!x.terminal_any) cmp_list(m, c.terminal, x.terminal, "terminal");
	size_t i = 0; for (auto* t = c.supported_aids.front; t; t = t->next, ++i) if (i >= x.aids.size() || t->length != x.aids[i].aid.size() || memcmp(t->value, x.aids[i].aid.data(), t->length) || (t->flags == EMV_ASI_PARTIAL_MATCH) != x.aids[i].partial) m.fail("supported", "supported identifiers changed");
	if (i != x.aids.size()) m.fail("supported", "supported identifiers changed");
	if (!!c.selected_app != x.has_app) m.fail("selected", x.has_app ? "no application is selected" : "an application remains selected");
	if (x.has_app) cmp_app(m, c.selected_app, x.app, x.moved, "selected");
}
static void push(emv_tlv_list_t& l, std::vector<F>& r, unsigned tag, const Bytes& v, uint8_t flags = 0) { LIB(emv_tlv_list_push(&l, tag, v.size(), v.data(), flags)); r.push_back({ tag, v }); }
static void support(emv_ctx_t& c, RCtx& x, const std::vector<Sup>& s) { for (auto& a : s) { LIB(emv_tlv_list_push(&c.supported_aids, EMV_TAG_9F06_AID, a.aid.size(), a.aid.data(), a.partial ? EMV_ASI_PARTIAL_MATCH : EMV_ASI_EXACT_MATCH)); x.aids.push_back(a); } }
static uint64_t hlist(const std::vector<F>& l, uint64_t h) { for (auto& f : l) h = hash(f.v.data(), f.v.size(), hmix(h, f.tag)); return h; }
// field helpers for card contents
static Bytes X(const char* s) { Bytes o; unsigned n = 0, v = 0; for (; *s; ++s) { if (*s == ' ') continue; v = v * 16 + (*s <= '9' ? *s - '0' : (*s | 32) - 'a' + 10); if (++n % 2 == 0) { o.push_back(v); v = 0; } } return o; }
static Bytes operator+(const Bytes& a, const Bytes& b) { Bytes o = a; cat(o, b); return o; }
static Bytes fci(const Bytes& name, const Bytes& prop) { return tlv(0x6F, tlv(0x84, name) + (prop.empty() ? Bytes() : tlv(0xA5, prop))); }
static Bytes entry(const Bytes& aid, const char* label, int pri = -1) { return tlv(0x61, tlv(0x4F, aid) + (label ? tlv(0x50, S(label)) : Bytes()) + (pri >= 0 ? tlv(0x87, { (uint8_t)pri }) : Bytes())); }
