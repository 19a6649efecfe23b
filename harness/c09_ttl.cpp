// C09 (APDU mode) and C10 (TPDU / T=0 mode, -DTPDU): emv_ttl_trx() in lockstep with a reference terminal.
// The card/reader is the explored environment: every response is a choice.
#include "mc.h"
#include <emv_ttl.h>
#include <emv_debug.h>
using namespace mc;
typedef std::vector<uint8_t> Bytes;
#ifdef TPDU
static const bool T = true;
#else
static const bool T = false;
#endif
static const size_t FULL = T ? 259 : 258; // largest legal response frame

#include "refttl.h"
struct Model : RefTtl { Model(const Bytes& c, size_t cap_) : RefTtl(c, cap_, ::T) {} };

struct Env { Mc* m; Model* mod; unsigned depth, maxdepth; int menu; bool over; uint64_t h; };
static uint8_t pat(size_t i) { return (uint8_t)(0x30 + i % 64); }
static Bytes answer(Mc& m, Env& e, int& rc) {
	rc = 0; uint8_t ins = e.mod->hdr.empty() ? 0 : e.mod->hdr[1]; size_t seq = e.mod->data.size();
	auto D = [&](size_t n, uint8_t a, uint8_t b) { Bytes r; if (T) r.push_back(ins); for (size_t i = 0; i < n; ++i) r.push_back(pat(seq + i)); r.push_back(a); r.push_back(b); return r; };
	if (e.menu == 1) { // deep: only answers that keep a dialogue going
		switch (m.choose(T ? 10 : 7)) {
			case 0: return { 0x90, 0x00 }; case 1: return { 0x61, 0x05 }; case 2: return { 0x6C, 0x04 }; case 3: return D(2, 0x61, 0x03); case 4: return D(3, 0x90, 0x00); case 5: return { 0x62, 0x83 }; case 6: return { 0x63, 0x10 };
			case 7: return { ins }; case 8: return { (uint8_t)~ins }; default: return D(1, 0x62, 0x03);
		}
	}
	unsigned k = m.choose(T ? 30 : 24);
	switch (k) {
		case 0: return { 0x90, 0x00 };
		case 1: return { 0x69, 0x85 };
		case 2: return { 0x62, 0x83 };
		case 3: return { 0x62, 0x02 };
		case 4: return { 0x63, 0x10 };
		case 5: return { 0x61, 0x00 };
		case 6: return { 0x61, 0x07 };
		case 7: return { 0x6C, 0x00 };
		case 8: return { 0x6C, 0x09 };
		case 9: return D(1, 0x90, 0x00);
		case 10: return D(4, 0x61, 0x02);
		case 11: return D(2, 0x62, 0x83);
		case 12: return D(256, 0x90, 0x00);
		case 13: return D(256, 0x61, 0x10);
		case 14: return D(255, 0x6A, 0x82);
		case 15: return {};
		case 16: rc = -7; return {};
		case 17: rc = 5; return {};
		case 18: return { 0x62, 0x80 };
		case 19: return { 0x62, 0x81 };
		case 20: return { 0x62, 0x01 };
		case 21: return { 0x60 };
		case 22: return { 0x90 };
		case 23: return D(3, 0x6C, 0x05);
		case 24: return { ins };
		case 25: return { (uint8_t)~ins };
		case 26: { Bytes r = D(2, 0x90, 0x00); r[0] ^= 0xFF; return r; }
		case 27: { Bytes r = D(2, 0x61, 0x02); r[0] ^= 0x01; return r; }
		case 28: return D(0, 0x90, 0x00);
		default: { Bytes r = D(0, 0x90, 0x00); r[0] ^= 0x01; return r; }
	}
}
static int trx(void* c, const void* tx, size_t tx_len, void* rx, size_t* rx_len) {
	Host host; Env& e = *(Env*)c; Mc& m = *e.m; Model& mod = *e.mod; m.step();
	m.log("> %s", hex(tx, std::min<size_t>(tx_len, 24)).c_str());
	if (mod.st == OK || mod.st == ERR) { if (mod.kase && mod.cap >= 2) m.defer("surplus", "a command was sent after the exchange was over"); }
	else if (mod.st == SENDING && (tx_len != mod.tx.size() || memcmp(tx, mod.tx.data(), tx_len))) m.defer("sent", "sent %s, expected %s", hex(tx, tx_len).c_str(), hex(mod.tx).c_str());
	if (++e.depth > e.maxdepth || (mod.st != SENDING && mod.cap >= 2)) { mod.st = mod.st == ANY ? ANY : ERR; m.log("< reader error"); return -9; }
	int rc; Bytes r = answer(m, e, rc);
	if (*rx_len < FULL) m.defer("capacity", "reader was offered only %zu bytes for a response of up to %zu", *rx_len, FULL);
	memset(rx, 0xEE, *rx_len); // whatever the buffer holds beyond the response is stale
	if (r.size() > *rx_len) return -8;
	if (!r.empty()) memcpy(rx, r.data(), r.size());
	if (!rc) *rx_len = r.size();
	m.log("< %s%s", rc ? "error " : "", hex(r.data(), std::min<size_t>(r.size(), 24)).c_str());
	if (rc) mod.st = ERR; else mod.response(r);
	e.h = hmix(hmix(hash(r.data(), r.size(), e.h), mod.st), mod.doff);
	return rc;
}
static void run(Mc& m, const Bytes& c, size_t cap, unsigned maxdepth, int menu) {
	alloc_reset();
	Model mod(c, cap); Env e = { &m, &mod, 0, maxdepth, menu, false, hash(c.data(), c.size()) };
	emv_ttl_t ttl; memset(&ttl, 0, sizeof ttl); ttl.cardreader.mode = T ? EMV_CARDREADER_MODE_TPDU : EMV_CARDREADER_MODE_APDU; ttl.cardreader.ctx = &e; ttl.cardreader.trx = trx;
	Buf cb(c), rb(cap, 0xC3); size_t len = cap; uint16_t sw = 0x1234;
	m.log("command %s capacity %zu", hex(c.data(), std::min<size_t>(c.size(), 24)).c_str(), cap);
	int r = LIB(emv_ttl_trx(&ttl, cb.p(), cb.n(), rb.p(), &len, &sw));
	m.check_deferred();
	if (memcmp(cb.p(), c.data(), c.size())) m.fail("command", "command buffer was modified");
	m.state(hmix(e.h, mod.st)); m.cover(mod.st == OK ? "completed" : mod.st == ERR ? "error" : mod.st == ANY ? "unspecified" : "open");
	if (mod.st == ANY) { if (!r && (len > cap || len < 2)) m.fail("length", "delivered length %zu", len); return; }
	if (mod.st == SENDING) m.fail("incomplete", "returned %d although %s had to be sent", r, hex(mod.tx).c_str());
	if ((r == 0) != (mod.st == OK)) m.fail("result", "returned %d, expected %s", r, mod.st == OK ? "success" : "an error");
	if (r) return;
	Bytes want = mod.data; want.push_back(mod.sw >> 8); want.push_back(mod.sw);
	if (sw != mod.sw) m.fail("status", "status %04X delivered, expected %04X", sw, mod.sw);
	if (len != want.size() || memcmp(rb.p(), want.data(), len)) m.fail("response", "delivered %s, expected %s", len <= cap ? hex(rb.p(), len).c_str() : "?", hex(want).c_str());
}
static Bytes cmd(unsigned kind, unsigned lc) {
	Bytes c = { 0x00, 0xA4, 0x04, 0x02 };
	if (kind == 1) return c;
	if (kind == 2) { c = { 0x00, 0xB2, 0x01, 0x0C, (uint8_t)lc }; return c; }
	c[0] = 0x80; c[1] = 0xA8; c.push_back(lc); for (unsigned i = 0; i < lc; ++i) c.push_back(i == 1 ? 0x5A : 0x81 + i); if (kind == 4) c.push_back(0x20); return c;
}
static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough");
	struct K { unsigned kind, lc; }; static const K k[] = { {1,0}, {2,0}, {2,5}, {3,1}, {3,3}, {4,1}, {4,2}, {4,3} };
	add("all answers", 8, [](Mc& m, uint64_t o) { const K& x = k[o % 8]; (void)o; run(m, cmd(x.kind, x.lc), 600, m.thorough ? 6 : 5, 0); }, 30);
	static const size_t CAP[] = { 1, 2, 3, 4, 5, 6, 7, 257, 258, 259, 512, 513, 514 };
	add("capacities", 8 * 13, [](Mc& m, uint64_t o) { const K& x = k[o % 8]; run(m, cmd(x.kind, x.lc), CAP[o / 8], 3, 0); });
	add("long dialogues", 4 * 2, [](Mc& m, uint64_t o) { const K& x = k[4 + o % 4]; run(m, o & 4 ? cmd(2, 0) : cmd(x.kind, x.lc), 600, m.thorough ? 9 : 7, 1); }, 10);
	if (T) add("byte-wise transfer", 4 * 256, [](Mc& m, uint64_t o) { // ACK single, then ACK all, at every point of every length
		unsigned lc = o / 4; if (!lc) { m.skip(); return; } unsigned kind = 3 + (o & 1); bool all = o & 2;
		if (!all && lc > 40 && lc != 255) { m.skip(); return; }
		Bytes c = cmd(kind, lc); unsigned singles = all ? m.choose(lc + 1) : lc; Model mod(c, 258);
		struct X { Mc* m; Model* mod; unsigned singles, n; bool all; } x = { &m, &mod, singles, 0, all };
		emv_ttl_t ttl; memset(&ttl, 0, sizeof ttl); ttl.cardreader.mode = EMV_CARDREADER_MODE_TPDU; ttl.cardreader.ctx = &x;
		ttl.cardreader.trx = [](void* p, const void* tx, size_t n, void* rx, size_t* rn) -> int { Host h; X& x = *(X*)p; x.m->step();
			if (x.mod->st != SENDING || n != x.mod->tx.size() || memcmp(tx, x.mod->tx.data(), n)) { x.m->defer("sent", "sent %s, expected %s", hex(tx, n).c_str(), hex(x.mod->tx).c_str()); return -9; }
			Bytes r; if (x.n < x.singles) r = { 0x57 }; else if (x.n == x.singles && x.mod->open) r = { 0xA8 }; else r = { 0x90, 0x00 }; ++x.n;
			memcpy(rx, r.data(), r.size()); *rn = r.size(); x.mod->response(r); return 0; };
		Buf cb(c), rb(258); size_t len = 258; uint16_t sw; int r = LIB(emv_ttl_trx(&ttl, cb.p(), cb.n(), rb.p(), &len, &sw)); m.check_deferred();
		m.log("%u single bytes of %u then %s", singles, lc, all ? "the rest" : "status"); m.state(hmix(hmix(lc, singles), kind)); m.cover("byte-wise");
		if (mod.st != OK || r || sw != 0x9000 || len != 2) m.fail("bytewise", "Lc %u, %u single bytes: returned %d with status %04X", lc, singles, r, sw); });
	add("all status words", 256 * 4, [](Mc& m, uint64_t o) { // each status word as the only answer, followed by data on GET RESPONSE
		struct X { Mc* m; Model* mod; uint8_t a, b; unsigned n; bool data; } x; unsigned kind = o % 4 + 1; Bytes c = cmd(kind, 2); Model mod(c, 300); bool wd = m.choose(2); x = { &m, &mod, (uint8_t)(o / 4), 0, 0, wd };
		x.b = m.choose(256); if (!x.a && !x.b) { m.skip(); return; }
		emv_ttl_t ttl; memset(&ttl, 0, sizeof ttl); ttl.cardreader.mode = T ? EMV_CARDREADER_MODE_TPDU : EMV_CARDREADER_MODE_APDU; ttl.cardreader.ctx = &x;
		ttl.cardreader.trx = [](void* p, const void* tx, size_t n, void* rx, size_t* rn) -> int { Host h; X& x = *(X*)p; x.m->step();
			if (x.mod->st == ANY) return -9;
			if (x.mod->st != SENDING || n != x.mod->tx.size() || memcmp(tx, x.mod->tx.data(), n)) { x.m->defer("sent", "sent %s, expected %s", hex(tx, n).c_str(), hex(x.mod->tx).c_str()); return -9; }
			Bytes r; uint8_t ins = T ? x.mod->hdr[1] : 0;
			if (x.n == 0) { if (x.data) { if (T) r.push_back(ins); r.push_back(0x77); } r.push_back(x.a); r.push_back(x.b); } else { if (T) r.push_back(ins); r.push_back(0x88); r.push_back(0x90); r.push_back(0x00); }
			++x.n; memcpy(rx, r.data(), r.size()); *rn = r.size(); x.mod->response(r); return 0; };
		Buf cb(c), rb(300); size_t len = 300; uint16_t sw = 0; int r = LIB(emv_ttl_trx(&ttl, cb.p(), cb.n(), rb.p(), &len, &sw)); m.check_deferred();
		m.log("case %u answered with %02X%02X", kind, x.a, x.b); m.state(hmix(hmix(x.a << 8 | x.b, kind), wd));
		if (mod.st == ANY) return; Bytes want = mod.data; want.push_back(mod.sw >> 8); want.push_back(mod.sw);
		if ((r == 0) != (mod.st == OK)) m.fail("result", "case %u, status %02X%02X: returned %d", kind, x.a, x.b, r);
		if (!r && (sw != mod.sw || len != want.size() || memcmp(rb.p(), want.data(), len))) m.fail("response", "case %u, status %02X%02X: delivered %s, expected %s", kind, x.a, x.b, hex(rb.p(), len).c_str(), hex(want).c_str()); });
	add("long chains", 4 * 48, [](Mc& m, uint64_t o) { // the response arrives in many parts; between two parts the card may ask for the command again or announce more without data
		static const unsigned N[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 24, 25, 28, 29, 30, 31, 32, 33, 34, 35, 40, 48, 50, 63, 64, 65, 66, 80, 100, 127, 128, 129, 200, 254, 255, 256 };
		struct X { Mc* m; Model* mod; unsigned n, parts, part, gap, gapat, gaps, last, late; bool done; } x; memset(&x, 0, sizeof x); unsigned kind = o % 4; x.parts = N[o / 4]; static const unsigned P[] = { 1, 2, 16 }; x.part = P[m.choose(3)];
		x.gap = m.choose(4); if (x.gap) { x.gapat = m.choose(3) * (x.parts / 2); x.gaps = m.choose(3) + 1; } x.last = m.choose(3); size_t total = x.parts * x.part; size_t cap = 2 + total - (m.choose(3) == 1 ? 1 : 0);
		Bytes c = kind == 0 ? cmd(2, 0) : kind == 1 ? cmd(4, 2) : kind == 2 ? cmd(4, 200) : cmd(2, 7); Model mod(c, cap); x.m = &m; x.mod = &mod;
		emv_ttl_t ttl; memset(&ttl, 0, sizeof ttl); ttl.cardreader.mode = T ? EMV_CARDREADER_MODE_TPDU : EMV_CARDREADER_MODE_APDU; ttl.cardreader.ctx = &x;
		ttl.cardreader.trx = [](void* p, const void* tx, size_t n, void* rx, size_t* rn) -> int { Host h; X& x = *(X*)p; x.m->step();
			if (x.mod->st == ANY) return -9;
			if (x.mod->st != SENDING || n != x.mod->tx.size() || memcmp(tx, x.mod->tx.data(), n)) { x.m->defer("sent", "part %u: sent %s, expected %s", x.n, hex(tx, n).c_str(), x.mod->st == SENDING ? hex(x.mod->tx).c_str() : "nothing"); return -9; }
			Bytes r; if (T && x.mod->open) r = { x.mod->hdr[1] };
			else if (x.gap && x.gaps && x.n == x.gapat) { --x.gaps; r = x.gap == 1 ? Bytes{ 0x61, (uint8_t)x.part } : x.gap == 2 ? Bytes{ 0x6C, (uint8_t)x.part } : x.gaps & 1 ? Bytes{ 0x61, 0x05 } : Bytes{ 0x6C, 0x01 }; }
			else { if (T) r.push_back(x.mod->hdr[1]); for (unsigned i = 0; i < x.part; ++i) r.push_back(pat(x.n * x.part + i)); ++x.n; if (x.n < x.parts) { r.push_back(0x61); r.push_back(x.part); } else if (x.last == 0) { r.push_back(0x90); r.push_back(0x00); } else if (x.last == 1) { r.push_back(0x62); r.push_back(0x83); } else { r.push_back(0x6A); r.push_back(0x82); } }
			memset(rx, 0xEE, *rn); memcpy(rx, r.data(), r.size()); *rn = r.size(); x.mod->response(r); return 0; };
		Buf cb(c), rb(cap); size_t len = cap; uint16_t sw = 0; int r = LIB(emv_ttl_trx(&ttl, cb.p(), cb.n(), rb.p(), &len, &sw)); m.check_deferred(); m.log("%u parts of %u bytes, %u %u", x.parts, x.part, x.gap, x.gapat); m.state(hmix(hmix(hash(c.data(), c.size()), x.parts), hmix(x.part, x.gap * 8 + x.last))); m.cover(mod.st == OK ? "long chain" : mod.st == ERR ? "chain exceeds the buffer" : "unspecified");
		if (mod.st == ANY) return; if (mod.st == SENDING) m.fail("incomplete", "%u parts of %u bytes: returned %d after %u", x.parts, x.part, r, x.n); if ((r == 0) != (mod.st == OK)) m.fail("result", "%u parts of %u bytes: returned %d", x.parts, x.part, r); if (r) return; Bytes want = mod.data; want.push_back(mod.sw >> 8); want.push_back(mod.sw);
		if (sw != mod.sw || len != want.size() || memcmp(rb.p(), want.data(), len)) m.fail("response", "%u parts of %u bytes: delivered %zu bytes and status %04X, expected %zu and %04X", x.parts, x.part, len, sw, want.size(), mod.sw); });
	add("malformed commands", 300, [](Mc& m, uint64_t n) { // every command length with every relevant Lc
		static const int L[] = { 0, 1, 2, -7, -6, -5, -4, 255 }; int l = L[m.choose(8)]; int lc = l < 0 ? (int)n + l : l; if (lc < 0 || lc > 255) { m.skip(); return; }
		Bytes c; for (unsigned i = 0; i < n; ++i) c.push_back(i == 1 ? 0xA8 : i == 4 ? lc : i < 4 ? 0 : 0x40); if (n == 0) { Buf rb(258); size_t len = 258; uint16_t sw; emv_ttl_t ttl; memset(&ttl, 0, sizeof ttl); uint8_t z = 0; if (LIB(emv_ttl_trx(&ttl, &z, 0, rb.p(), &len, &sw)) == 0) m.fail("empty", "empty command accepted"); return; }
		run(m, c, 258, 1, 1); });
	add("arguments", 1, [](Mc& m, uint64_t) { emv_ttl_t ttl; memset(&ttl, 0, sizeof ttl); Bytes c = cmd(2, 0); uint8_t r[258]; size_t n = 258, z = 0; uint16_t sw; m.step(7);
		if (!emv_ttl_trx(nullptr, c.data(), 5, r, &n, &sw) || !emv_ttl_trx(&ttl, nullptr, 5, r, &n, &sw) || !emv_ttl_trx(&ttl, c.data(), 5, nullptr, &n, &sw) || !emv_ttl_trx(&ttl, c.data(), 5, r, nullptr, &sw) || !emv_ttl_trx(&ttl, c.data(), 5, r, &z, &sw) || !emv_ttl_trx(&ttl, c.data(), 5, r, &n, nullptr)) m.fail("null", "missing argument accepted");
		if (!emv_ttl_trx(&ttl, c.data(), 5, r, &n, &sw)) m.fail("mode", "reader without a mode accepted"); });
	(void)th;
}
static struct Init { Init() { setup_hook = setup; } } init_;
