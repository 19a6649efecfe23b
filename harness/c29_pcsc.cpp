// C29: the PC/SC layer against every behaviour of the PC/SC service, bounded
#include "mc.h"
#include <map>
#include <set>
#include <algorithm>
#include <winscard.h>
#include <reader.h>
#include "pcsc.h"
#include <functional>
using namespace mc;
#ifdef PCSC_WORLD_ONLY
namespace svc { // only the service is wanted
#endif
typedef std::vector<uint8_t> Bytes;
static Bytes X(const char* s) { Bytes r; int hi = -1; for (; *s; ++s) { int v = *s >= '0' && *s <= '9' ? *s - '0' : *s >= 'A' && *s <= 'F' ? *s - 'A' + 10 : -1; if (v < 0) continue; if (hi < 0) hi = v; else { r.push_back(hi << 4 | v); hi = -1; } } return r; }
static Bytes operator+(Bytes a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static std::string hx(const Bytes& b) { return hex(b.data(), b.size()); }
struct Card { bool present = true; DWORD protocol = SCARD_PROTOCOL_T0; Bytes atr; Bytes uid; bool uid_error = false; };
struct Reader { std::string name; Bytes features; std::map<uint32_t, Bytes> control; std::set<uint32_t> refuse; Card card; DWORD state = 0x12; };
enum { GETFEATURES = 0x42000000 + 3400 };
// --- the service
struct Conn { size_t reader; bool direct; DWORD protocol; };
struct Delivered { bool list = false, pin = false, disp = false, tlv = false, asked_pin = false, asked_disp = false, asked_tlv = false, fault = false; Bytes flist, bpin, bdisp, btlv; };
struct Service {
	Mc& m; std::vector<Reader> rd; std::map<SCARDHANDLE, Conn> open; std::set<SCARDHANDLE> gone; bool ctx = false; SCARDCONTEXT hctx = 0x11223344; SCARDHANDLE next = 0x5EED0001; int released = 0;
	std::vector<Delivered> del; bool faults = false; unsigned injected = 0; std::set<SCARDHANDLE> stuck; // disconnection was refused
	int shrink = 0; int no_alloc = -1, no_alloc2 = -1; bool many = false; // the reader list changes between two calls
	unsigned listed = 0; unsigned transmits = 0; Bytes last_tx, reply = { 0x90, 0 }; bool reply_error = false; std::vector<DWORD> ev; bool timeout = false; DWORD waited = 0; unsigned waits = 0; uint64_t monitored = 0; std::function<bool(const Bytes&, Bytes&)> card; // answers commands; false: the exchange fails
	explicit Service(Mc& mm) : m(mm) {}
	// 0: normally; 1: refused, outputs untouched; 2: refused, outputs zero; 3: refused, needs more room
	unsigned fault(unsigned kinds, const char* where) { if (!faults) return 0; unsigned k = m.deviate(1 + kinds); if (k) { ++injected; m.log("  %s refused (%u)", where, k); } return k; }
	Conn* conn(SCARDHANDLE h, const char* who) { auto it = open.find(h); if (it != open.end()) return &it->second; if (h) m.defer("handle", "%s on a connection that is not open (%lx)", who, (unsigned long)h); return nullptr; }
	void context(SCARDCONTEXT c, const char* who) { if (!ctx || c != hctx) m.defer("context", "%s without the context that was established", who); }
};
static Service* S; static FILE* sink;
struct Up { FILE* o = stderr; Up() { stderr = sink; } ~Up() { stderr = o; } };
#define CALL(e) ([&] { Up q_; smear(0xB7); return LIB(e); }())
static void put(Mc& m, const char* what, void* p, DWORD room, const Bytes& b) { if (room) memset(p, 0xD5, room); if (!b.empty()) memcpy(p, b.data(), b.size()); }
extern "C" {
extern const SCARD_IO_REQUEST g_rgSCardT0Pci, g_rgSCardT1Pci, g_rgSCardRawPci; const SCARD_IO_REQUEST g_rgSCardT0Pci = { SCARD_PROTOCOL_T0, sizeof(SCARD_IO_REQUEST) }, g_rgSCardT1Pci = { SCARD_PROTOCOL_T1, sizeof(SCARD_IO_REQUEST) }, g_rgSCardRawPci = { SCARD_PROTOCOL_RAW, sizeof(SCARD_IO_REQUEST) };
const char* pcsc_stringify_error(const LONG) { return "service error"; }
LONG SCardEstablishContext(DWORD scope, LPCVOID, LPCVOID, LPSCARDCONTEXT p) { Host h; if (S->ctx) S->m.defer("context", "established twice"); unsigned f = S->fault(2, "SCardEstablishContext"); if (f) { if (f == 2) *p = 0; return SCARD_E_NO_SERVICE; } S->ctx = true; *p = S->hctx; return SCARD_S_SUCCESS; }
LONG SCardReleaseContext(SCARDCONTEXT c) { Host h; if (!S->ctx) { if (c) S->m.defer("context", "released a context that is not established"); return SCARD_E_INVALID_HANDLE; } S->context(c, "SCardReleaseContext"); if (S->fault(1, "SCardReleaseContext")) { S->ctx = false; return SCARD_F_COMM_ERROR; } S->ctx = false; ++S->released; return SCARD_S_SUCCESS; }
LONG SCardListReaders(SCARDCONTEXT c, LPCSTR, LPSTR out, LPDWORD n) {
	Host h; S->context(c, "SCardListReaders"); unsigned f = S->fault(3, "SCardListReaders"); bool second = S->listed++ > 0; size_t count = S->rd.size();
	if (f) { if (f == 2) *n = 0; else if (f == 3) *n += 77; return f == 3 ? SCARD_E_INSUFFICIENT_BUFFER : SCARD_E_NO_READERS_AVAILABLE; }
	if (second && S->shrink < 0) count -= std::min<size_t>(count, -S->shrink); if (!second && S->shrink > 0) count -= std::min<size_t>(count, S->shrink);
	std::string s; for (size_t i = 0; i < count; ++i) s += S->rd[i].name + '\0'; s += '\0'; DWORD room = *n; *n = s.size(); if (!out) return SCARD_S_SUCCESS; if (room < s.size()) return SCARD_E_INSUFFICIENT_BUFFER;
	memset(out, 'Z', room); memcpy(out, s.data(), s.size()); return SCARD_S_SUCCESS;
}
LONG SCardConnect(SCARDCONTEXT c, LPCSTR name, DWORD share, DWORD prot, LPSCARDHANDLE ph, LPDWORD pp) {
	Host h; S->context(c, "SCardConnect"); size_t i = 0; while (i < S->rd.size() && S->rd[i].name != name) ++i; if (i == S->rd.size()) { S->m.defer("reader", "connects to reader %s", name); return SCARD_E_UNKNOWN_READER; }
	bool direct = share == SCARD_SHARE_DIRECT; unsigned f = S->fault(2, "SCardConnect"); if (f) { S->del[i].fault = true; if (f == 2) { *ph = 0; *pp = 0; } return SCARD_E_SHARING_VIOLATION; }
	if (!direct) { if (share != SCARD_SHARE_EXCLUSIVE && share != SCARD_SHARE_SHARED) return SCARD_E_INVALID_VALUE; if (!S->rd[i].card.present) { *ph = 0; return SCARD_E_NO_SMARTCARD; } if (!(prot & S->rd[i].card.protocol)) return SCARD_E_PROTO_MISMATCH; }
	for (auto& o : S->open) if (o.second.reader == i) { if (!S->stuck.count(o.first)) S->m.defer("connection", "reader %zu is connected to while a connection is open", i); ++S->injected; S->del[i].fault = true; *ph = 0; return SCARD_E_SHARING_VIOLATION; }
	*ph = S->next; S->next += 0x10; S->open[*ph] = Conn{ i, direct, direct ? 0 : S->rd[i].card.protocol }; *pp = S->open[*ph].protocol; return SCARD_S_SUCCESS;
}
LONG SCardDisconnect(SCARDHANDLE c, DWORD) { Host h; Conn* k = S->conn(c, "SCardDisconnect"); if (!k) return SCARD_E_INVALID_HANDLE; if (S->fault(1, "SCardDisconnect")) { S->stuck.insert(c); return SCARD_F_COMM_ERROR; } S->open.erase(c); S->stuck.erase(c); return SCARD_S_SUCCESS; }
LONG SCardControl(SCARDHANDLE c, DWORD code, LPCVOID, DWORD, LPVOID out, DWORD room, LPDWORD n) {
	Host h; Conn* k = S->conn(c, "SCardControl"); if (!k) return SCARD_E_INVALID_HANDLE; Reader& r = S->rd[k->reader]; Delivered& d = S->del[k->reader];
	bool list = code == GETFEATURES; auto it = r.control.find(code); if (!list && it == r.control.end()) { d.fault = true; S->m.defer("control", "control code %lX was not supplied by the reader", (unsigned long)code); *n = 0; return SCARD_E_UNSUPPORTED_FEATURE; }
	const Bytes& b = list ? r.features : it->second; unsigned f = S->fault(4, "SCardControl"); if (!f && r.refuse.count(code)) f = 2; if (!f && b.size() > room) f = 3;
	if (f) { d.fault = true; if (f == 2) *n = 0; else if (f == 3) *n = std::max<DWORD>(b.size(), room + 40); else if (f == 4) *n = 20000; return f >= 3 ? SCARD_E_INSUFFICIENT_BUFFER : SCARD_E_NOT_TRANSACTED; }
	put(S->m, "control", out, room, b); *n = b.size(); 
	if (list) { d.list = true; d.flist = b; } else { unsigned tag = 0; for (size_t i = 0; i + 6 <= d.flist.size(); i += 6) if ((uint32_t)(d.flist[i + 2] << 24 | d.flist[i + 3] << 16 | d.flist[i + 4] << 8 | d.flist[i + 5]) == code) tag = d.flist[i]; if (tag == 0x0A) d.pin = true, d.bpin = b; else if (tag == 0x11) d.disp = true, d.bdisp = b; else if (tag == 0x12) d.tlv = true, d.btlv = b; }
	return SCARD_S_SUCCESS;
}
LONG SCardStatus(SCARDHANDLE c, LPSTR, LPDWORD, LPDWORD st, LPDWORD pr, LPBYTE atr, LPDWORD n) {
	Host h; Conn* k = S->conn(c, "SCardStatus"); if (!k) return SCARD_E_INVALID_HANDLE; Card& cd = S->rd[k->reader].card; unsigned f = S->fault(3, "SCardStatus"); if (f) { if (f == 2) { if (n) *n = 0; if (pr) *pr = 0; } else if (f == 3) { if (n) *n += 3; } return f == 3 ? SCARD_E_INSUFFICIENT_BUFFER : SCARD_W_REMOVED_CARD; }
	if (st) *st = 0x34; if (pr) *pr = k->protocol; if (n && atr) { if (cd.atr.size() > *n) { *n = cd.atr.size(); return SCARD_E_INSUFFICIENT_BUFFER; } put(S->m, "atr", atr, *n, cd.atr); *n = cd.atr.size(); } return SCARD_S_SUCCESS;
}
LONG SCardTransmit(SCARDHANDLE c, const SCARD_IO_REQUEST* pci, LPCBYTE tx, DWORD txn, SCARD_IO_REQUEST*, LPBYTE rx, LPDWORD rxn) {
	Host h; ++S->transmits; Conn* k = S->conn(c, "SCardTransmit"); if (!k) return SCARD_E_INVALID_HANDLE; Card& cd = S->rd[k->reader].card;
	if (pci->dwProtocol != k->protocol) S->m.defer("protocol", "transmits with protocol %lu, active is %lu", pci->dwProtocol, (unsigned long)k->protocol);
	Bytes t(tx, tx + txn); static const Bytes GETUID = X("FFCA000000"); bool uid = t == GETUID; S->last_tx = t; unsigned f = S->fault(3, "SCardTransmit"); if (S->card && !uid && !f && !S->card(t, S->reply)) f = 1; const Bytes& b = uid ? cd.uid : S->reply; if (!f && (uid ? cd.uid_error : S->reply_error)) f = 1; if (!f && b.size() > *rxn) f = 3;
	if (f) { if (f == 2) *rxn = 0; else if (f == 3) *rxn = std::max<DWORD>(b.size(), *rxn + 1); return f == 3 ? SCARD_E_INSUFFICIENT_BUFFER : SCARD_E_NOT_TRANSACTED; }
	put(S->m, "reply", rx, *rxn, b); *rxn = b.size(); return SCARD_S_SUCCESS;
}
LONG SCardGetStatusChange(SCARDCONTEXT c, DWORD tmo, SCARD_READERSTATE* s, DWORD n) {
	Host h; S->context(c, "SCardGetStatusChange"); S->waited = tmo; ++S->waits; S->monitored = 0; if (S->fault(1, "SCardGetStatusChange")) return SCARD_E_READER_UNAVAILABLE;
	bool change = false; std::vector<DWORD> e; for (DWORD i = 0; i < n; ++i) { size_t j = 0; while (j < S->rd.size() && S->rd[j].name != s[i].szReader) ++j; if (j == S->rd.size()) { S->m.defer("reader", "asks for the state of reader %s", s[i].szReader); return SCARD_E_UNKNOWN_READER; } if (s[i].dwCurrentState & SCARD_STATE_IGNORE) { e.push_back(SCARD_STATE_IGNORE); continue; } S->monitored |= 1ull << j; DWORD v = S->rd[j].state; e.push_back(v); change |= s[i].dwCurrentState == SCARD_STATE_UNAWARE || !(s[i].dwCurrentState & v); }
	for (DWORD i = 0; i < n; ++i) s[i].dwEventState = e[i]; if (S->timeout || (!change && tmo != INFINITE)) { return SCARD_E_TIMEOUT; } return SCARD_S_SUCCESS;
}
}
static Bytes feat(unsigned tag, uint32_t code, unsigned len = 4) { return { (uint8_t)tag, (uint8_t)len, (uint8_t)(code >> 24), (uint8_t)(code >> 16), (uint8_t)(code >> 8), (uint8_t)code }; }
#ifdef PCSC_WORLD_ONLY
}
#else
// --- oracle
static const uint16_t AUTO = 0xFFFF;
static bool well(const Bytes& l) { if (l.size() % 6) return false; for (size_t i = 0; i < l.size(); i += 6) if (l[i + 1] != 4) return false; return true; }
static bool lists(const Bytes& l, unsigned f) { for (size_t i = 0; i + 6 <= l.size(); i += 6) if (l[i] == f) return true; return false; }
static void judge_features(Mc& m, Service& s, pcsc_reader_ctx_t r, size_t i) {
	Delivered& d = s.del[i]; bool ok = d.list && well(d.flist); if (d.list && !ok) m.cover("malformed feature list");
	for (unsigned f = 0; f <= 0x101; f = f == 0x20 ? 0xFD : f + 1) { bool got = pcsc_reader_has_feature(r, f), want = ok && f < 256 && lists(d.flist, f); m.step(); if (got != want) m.fail("feature", "reader %zu: feature %X %s", i, f, got ? "reported although not (validly) supplied" : "not reported"); }
	if (!d.fault && !d.list) m.fail("asked", "reader %zu was not asked for its features", i);
	if (!d.fault) { // nothing was refused: everything offered must have been asked for
		if (ok && ((lists(d.flist, 0x0A) && !d.pin) || (lists(d.flist, 0x0A) && d.bpin.size() == 4 ? lists(d.flist, 0x11) && !d.disp : false))) m.fail("asked", "reader %zu: properties offered were not requested", i);
		if (ok && lists(d.flist, 0x12) && !d.tlv && (!d.pin || d.bpin.size() == 4) && (!d.disp || d.bdisp.size() == 4)) m.fail("asked", "reader %zu: properties offered were not requested", i);
		if (ok && lists(d.flist, 0x11) && !d.disp && !lists(d.flist, 0x0A)) m.fail("asked", "reader %zu: display properties were not requested", i);
	}
}
static void judge_property(Mc& m, Service& s, pcsc_reader_ctx_t r, size_t i, unsigned prop, size_t room) {
	Delivered& d = s.del[i]; std::vector<Bytes> want; bool damaged = false, stray = false; 
	if (d.tlv) { size_t o = 0; while (o < d.btlv.size()) { if (o + 1 == d.btlv.size()) { stray = true; break; } size_t l = d.btlv[o + 1]; if (o + 2 + l > d.btlv.size()) { damaged = true; break; } if (d.btlv[o] == prop) want.push_back(Bytes(d.btlv.begin() + o + 2, d.btlv.begin() + o + 2 + l)); o += 2 + l; } }
	bool listed = !want.empty(); Bytes fb; bool has = false; if (d.pin && d.bpin.size() == 4 && prop == 1) { has = true; fb = Bytes(d.bpin.begin(), d.bpin.begin() + 2); } if (d.disp && d.bdisp.size() == 4 && (prop == 4 || prop == 5)) { has = true; fb = Bytes(d.bdisp.begin() + (prop - 4) * 2, d.bdisp.begin() + (prop - 4) * 2 + 2); } if (!listed && has) want.push_back(fb);
	Buf v(room, 0x6B); size_t n = room; int res = CALL(pcsc_reader_get_property(r, prop, v.p(), &n)); m.step();
	if (res == 0) { if (n > room) m.fail("property", "property %X: %zu bytes reported in a buffer of %zu", prop, n, room); Bytes got(v.p(), v.p() + n); for (auto& w : want) if (w == got) { m.cover(listed ? "property" : "property from structure"); return; } m.fail("property", "property %X is %s", prop, hx(got).c_str()); }
	bool fits = !want.empty(); for (auto& w : want) fits &= w.size() <= room;
	if (res > 0) { if (listed || (has && !damaged && !stray)) m.fail("property", "property %X supplied but not found", prop); if (damaged) m.fail("malformed", "malformed property reply %s: property %X merely not found", hx(d.btlv).c_str(), prop); m.cover("property absent"); return; }
	if (!damaged && !stray && fits) m.fail("property", "property %X refused (%d) in %zu bytes", prop, res, room);
	if (listed && fits) m.fail("property", "property %X, before the damage, refused", prop);
	if (want.empty() && !damaged && !stray) m.fail("property", "property %X not supplied: %d", prop, res); m.cover("property refused");
}
static void judge_reader(Mc& m, Service& s, pcsc_ctx_t ctx, size_t i, bool deep) {
	pcsc_reader_ctx_t r = pcsc_get_reader(ctx, i); if (!r) m.fail("reader", "no reader %zu", i); const char* nm = pcsc_reader_get_name(r); if (!nm || s.rd[i].name != nm) m.fail("name", "reader %zu is called %s", i, nm ? nm : "(null)");
	judge_features(m, s, r, i); if (!deep) { for (unsigned p : { 1u, 4u, 5u, 6u, 11u }) judge_property(m, s, r, i, p, 8); return; }
	for (unsigned p : { 0u, 1u, 2u, 4u, 5u, 6u, 7u, 11u, 12u, 255u, 256u, 257u }) for (size_t room : { 0, 1, 2, 3, 4, 6, 256 }) judge_property(m, s, r, i, p, room ? room : 0);
}
static void no_direct(Mc& m, Service& s) { for (auto& o : s.open) if (!s.stuck.count(o.first)) m.fail("connection", "connection to reader %zu left open", o.second.reader); }
// initialise; nullptr when refused
static pcsc_ctx_t start(Mc& m, Service& s) {
	S = &s; s.del.assign(s.rd.size(), Delivered()); alloc_reset(); if (s.no_alloc >= 0) alloc_fail_at(s.no_alloc, s.no_alloc2); pcsc_ctx_t c = (pcsc_ctx_t)0x1234; int r = CALL(pcsc_init(&c)); m.step(); m.check_deferred();
	if (r) { if (r > 0) m.fail("result", "initialisation returned %d", r); if (c) m.fail("result", "refused but a context is left"); LIB((pcsc_release(&c), 0)); if (alloc_live()) m.fail("leak", "refused initialisation leaves allocations"); if (s.ctx) m.fail("leak", "refused initialisation leaves the service context established"); no_direct(m, s); m.cover("initialisation refused"); return nullptr; }
	if (!s.ctx) m.fail("context", "no context established"); no_direct(m, s); return c;
}
static void stop(Mc& m, Service& s, pcsc_ctx_t c) { CALL((pcsc_release(&c), 0)); m.step(); m.check_deferred(); if (c) m.fail("release", "context pointer left after release"); if (alloc_live()) m.fail("leak", "%zu allocations left after release", alloc_live()); if (s.ctx) m.fail("release", "service context not released"); LIB((pcsc_release(&c), 0)); }
static void count(Mc& m, Service& s, pcsc_ctx_t c, size_t want) { if (pcsc_get_reader_count(c) != want) m.fail("count", "%zu readers instead of %zu", pcsc_get_reader_count(c), want); for (size_t i = want; i < want + 3; ++i) if (pcsc_get_reader(c, i)) m.fail("reader", "reader %zu of %zu", i, want); if (pcsc_get_reader(c, (size_t)-1)) m.fail("reader", "reader -1"); }
// --- building blocks
static uint32_t code_of(unsigned tag) { return 0x42330000u + (tag << 8) + 0x9A; }
static const Bytes PIN = X("10040207"), DISP = X("14000300"), PROPS = X("0102 1002 0601 04 0B02 E6 08 0701 0C");
static Reader reader(const char* name) { Reader r; r.name = name; r.features = feat(6, 0x42330001) + feat(0x0A, code_of(0x0A)) + feat(0x11, code_of(0x11)) + feat(0x12, code_of(0x12)); r.control = { { 0x42330001, {} }, { code_of(0x0A), PIN }, { code_of(0x11), DISP }, { code_of(0x12), PROPS } }; r.card.atr = X("3B6500002063CB6600"); return r; }
static const char* NAMES[] = { "Reader A 00 00", "B", "Reader A 00 01", "CCC CCC" };
// --- cards
struct Kind { const char* name; Card card; int type; }; // type: 1 contact, 2 contactless, -1 refused
static std::vector<Kind> KINDS;
static const Bytes CL = X("3B8F8001804F0CA000000306030001000000006A"), CLS = X("3B8180018080"), CL0 = X("3B80800101");
static Bytes contactless(unsigned n) { Bytes b = { 0x3B, (uint8_t)(0x80 | n), 0x80, 0x01 }; for (unsigned i = 0; i <= n; ++i) b.push_back(0x40 + i); return b; }
static void kinds() {
	auto add_ = [](const char* n, Bytes atr, Bytes uid, int type, DWORD p = SCARD_PROTOCOL_T1, bool err = false) { Card c; c.atr = atr; c.uid = uid; c.uid_error = err; c.protocol = p; KINDS.push_back({ n, c, type }); };
	add_("contact, T=0", X("3B6500002063CB6600"), X("6D00"), 1, SCARD_PROTOCOL_T0);
	add_("contactless", CL, X("040102030405069000"), 2);
	add_("identifier refused", CL, X("6D00"), -1);
	add_("absent", {}, {}, -1); KINDS.back().card.present = false;
	add_("no identifier supported", CL, X("6A81"), 1);
	add_("identifier fails", CL, {}, -1, SCARD_PROTOCOL_T1, true);
	add_("identifier too long", CL, X("000102030405060708090A9000"), -1);
	add_("identifier empty", CL, X("9000"), 2);
	add_("identifier of ten", CL, X("000102030405060708099000"), 2);
	add_("identifier of four", CL, X("010203049000"), 2, SCARD_PROTOCOL_T0);
	add_("answer of one byte", CL, X("90"), -1);
	add_("no answer", CL, {}, -1);
	add_("warning", CL, X("010203046282"), -1);
	add_("other 6A", CL, X("6A82"), -1);
	add_("other 90", CL, X("9001"), -1);
	add_("other 81", CL, X("6B81"), -1);
	add_("empty answer to reset", {}, X("6D00"), 1); 
	for (unsigned n = 0; n <= 15; ++n) add_("contactless, historical bytes", contactless(n), X("010203049000"), 2);
	for (unsigned n = 0; n <= 15; ++n) { Bytes a = contactless(n); a.pop_back(); add_("one byte short", a, X("010203049000"), 1); a = contactless(n); a.push_back(1); add_("one byte long", a, X("010203049000"), 1); }
	for (int i = 0; i < 4; ++i) { Bytes a = CL; a[i] ^= i == 1 ? 0x80 : i == 0 ? 0x04 : 0x10; add_("not the form", a, X("010203049000"), 1); }
	add_("longest", Bytes(33, 0x3B), X("6D00"), 1); Bytes a(33, 0); a[0] = 0x3F; add_("inverse", a, X("6D00"), 1, SCARD_PROTOCOL_T0);
}
// --- history of one or two readers
struct RState { bool up = false, lost = false, sure = true; size_t kind = 0; int type = 0; };
struct Hist {
	Mc& m; Service& s; pcsc_ctx_t c; std::vector<RState> st; Hist(Mc& mm, Service& ss, pcsc_ctx_t cc) : m(mm), s(ss), c(cc), st(ss.rd.size()) {}
	pcsc_reader_ctx_t rd(size_t i) { return pcsc_get_reader(c, i); }
	bool openc(size_t i) { for (auto& o : s.open) if (o.second.reader == i) return true; return false; }
	bool connect(size_t i, size_t k) { RState& x = st[i]; if (x.up) return false;
		s.rd[i].card = KINDS[k].card; unsigned f = s.injected; m.log("-- connect %zu, %s", i, KINDS[k].name); int r = CALL(pcsc_reader_connect(rd(i))); m.step(); m.check_deferred(); bool flt = s.injected != f; int want = flt ? -1 : KINDS[k].type; m.log("   = %d", r);
		if (r >= 0) { if (r != 1 && r != 2) m.fail("type", "card type %d", r); if (r != KINDS[k].type) m.fail("type", "%s: card type %d", KINDS[k].name, r); if (!openc(i)) m.fail("connection", "connected but no connection is open"); if (flt) m.fail("error", "a service error was not reported"); x.up = true; x.kind = k; x.type = r; x.sure = true; m.cover(r == 1 ? "contact" : "contactless"); }
		else { if (want != -1) m.fail("type", "%s: connection refused (%d)", KINDS[k].name, r); for (auto& o : s.open) if (o.second.reader == i && !s.stuck.count(o.first)) m.fail("connection", "refused (%s) but a connection is left open", KINDS[k].name); x.up = false; x.sure = !openc(i); m.cover("connection refused"); }
		return true; }
	void disconnect(size_t i) { RState& x = st[i]; m.log("-- disconnect %zu", i); int r = CALL(pcsc_reader_disconnect(rd(i))); m.step(); m.check_deferred(); if (x.up) { bool still = openc(i); if (r == 0 && still) m.fail("connection", "disconnected but the connection is open"); if (r && !still) m.fail("error", "disconnection succeeded but returned %d", r); if (!r) { x = RState(); m.cover("disconnected"); } else m.cover("disconnection refused"); } else if (r == 0 && x.sure) m.fail("error", "disconnected although not connected"); }
	void atr(size_t i) { RState& x = st[i]; Buf b(PCSC_MAX_ATR_SIZE, 0x77); size_t n = 0xFFFF; int r = CALL(pcsc_reader_get_atr(rd(i), b.p(), &n)); m.step(); m.check_deferred(); if (!x.sure) return; const Bytes& a = x.up ? KINDS[x.kind].card.atr : Bytes(); bool want = x.up && x.type == 1 && !a.empty(); if (want ? r != 0 : r <= 0) m.fail("atr", "answer to reset: %d (%s, type %d)", r, x.up ? "connected" : "not connected", x.type); if (want && (n != a.size() || memcmp(b.p(), a.data(), n))) m.fail("atr", "answer to reset %s instead of %s", hex(b.p(), std::min<size_t>(n, 33)).c_str(), hx(a).c_str()); }
	void trx(size_t i, const Bytes& tx, const Bytes& reply, size_t room, bool err) { RState& x = st[i]; s.reply = reply; s.reply_error = err; s.last_tx.clear(); unsigned f = s.injected, t = s.transmits; Buf a(tx), b(room, 0x44); size_t n = room; int r = CALL(pcsc_reader_trx(rd(i), a.p(), a.n(), b.p(), &n)); m.step(); m.check_deferred(); if (!x.sure) return;
		if (!x.up) { if (r >= 0) m.fail("transmit", "exchange without a connection succeeded"); if (s.transmits != t) m.fail("transmit", "exchange without a connection"); return; }
		if (s.transmits != t + 1 || s.last_tx != tx) m.fail("transmit", "%u exchanges for %s: %s", s.transmits - t, hx(tx).c_str(), hx(s.last_tx).c_str());
		bool bad = err || reply.size() > room || s.injected != f; if (bad ? r >= 0 : r != 0) m.fail("transmit", "exchange returned %d (%s)", r, bad ? "failed" : "succeeded"); if (!r && (n != reply.size() || (n && memcmp(b.p(), reply.data(), n)))) m.fail("response", "response differs from the card's"); m.cover(bad ? "exchange refused" : "exchange"); }
	void state(size_t i, DWORD v) { s.rd[i].state = v; unsigned f = s.injected; unsigned got = 0x5A5A; int r = CALL(pcsc_reader_get_state(rd(i), &got)); m.step(); m.check_deferred(); if (s.injected != f ? r >= 0 : r != 0 || got != (unsigned)v) m.fail("state", "state %X instead of %lX (%d)", got, (unsigned long)v, r); }
	void wait(size_t in, unsigned long tmo, const std::vector<DWORD>& v) { for (size_t i = 0; i < v.size(); ++i) s.rd[i].state = v[i]; unsigned f = s.injected; size_t idx = in; s.waits = 0; int r = CALL(pcsc_wait_for_card(c, tmo, &idx)); m.step(); m.check_deferred(); bool any = in == PCSC_READER_ANY, present = false, change = false; for (size_t i = 0; i < v.size(); ++i) if (any || in == i) { present |= !!(v[i] & SCARD_STATE_PRESENT); }
		if (s.waits && s.waited != tmo) m.fail("wait", "waits %lu instead of %lu ms", (unsigned long)s.waited, tmo);
		if (s.injected != f) { if (r >= 0) m.fail("wait", "service error not reported (%d)", r); return; }
		if (s.timeout || !present) { if (r <= 0) m.fail("wait", "no card but %d", r); m.cover("no card"); return; }
		if (r != 0) m.fail("wait", "card present but %d", r); if (idx >= v.size() || !(v[idx] & SCARD_STATE_PRESENT) || !(any || idx == in)) m.fail("wait", "card reported in reader %zu", idx); m.cover("card detected"); }
	~Hist() {}
};
static void smallstate(Mc& m, Service& s, Hist& h) { uint64_t x = 5; for (auto& r : h.st) x = hmix(x, r.up | r.sure << 1 | r.kind << 2 | r.type << 12); x = hmix(x, s.open.size() * 8 + s.stuck.size()); m.state(x); }
static void setup() {
	static bool th = !strcmp(getenv("MC_TIER"), "thorough"); sink = fopen("/dev/null", "w"); kinds();
	// initialisation with up to three refused calls anywhere
	add("initialisation", 5 * 5, [](Mc& m, uint64_t k) { Service s(m); size_t n = k % 5; for (size_t i = 0; i < n; ++i) { s.rd.push_back(reader(NAMES[i])); if (i == 1) s.rd[i].features = feat(0x11, code_of(0x11)) + feat(7, 5); if (i == 2) s.rd[i].features = {}; } s.shrink = (int)(k / 5) - 2; s.faults = true; m.budget = th ? 3 : 2; pcsc_ctx_t c = start(m, s); bool changed = s.shrink && n; if (!c) { if (!s.injected && !changed) m.fail("result", "initialisation refused without cause"); return; }
		size_t left = s.shrink < 0 ? n - std::min<size_t>(n, -s.shrink) : n; count(m, s, c, left); for (size_t i = 0; i < left; ++i) judge_reader(m, s, c, i, false); m.state(hmix(k, s.injected)); stop(m, s, c); m.cover("initialised"); }, 4);
	// feature lists
	static const unsigned TAGS[] = { 6, 7, 0x0A, 0x11, 0x12, 0, 0xFF }; static const unsigned LENS[] = { 4, 0, 3, 5, 255 };
	add("feature lists", 7 * 5, [](Mc& m, uint64_t k) { Service s(m); s.rd.push_back(reader("R")); s.rd.push_back(reader("S")); Reader& r = s.rd[0]; r.features = feat(TAGS[k % 7], code_of(TAGS[k % 7]), LENS[k / 7]); unsigned more = m.choose(th ? 4 : 3); for (unsigned i = 0; i < more; ++i) { unsigned t = TAGS[m.choose(7)], l = LENS[m.choose(i ? 2 : 5)]; r.features = r.features + feat(t, code_of(t), l); } unsigned cut = m.choose(6); r.features.resize(r.features.size() - cut); for (unsigned t : TAGS) if (!r.control.count(code_of(t))) r.control[code_of(t)] = {}; bool again[256] = {}; for (size_t i = 0; i < r.features.size(); i += 6) { if (again[r.features[i]]) { m.skip(); return; } again[r.features[i]] = true; } pcsc_ctx_t c = start(m, s); if (!c) m.fail("result", "initialisation refused"); count(m, s, c, 2); judge_reader(m, s, c, 0, false); judge_reader(m, s, c, 1, false); m.state(hash(r.features.data(), r.features.size())); stop(m, s, c); });
	add("longest feature lists", 46, [](Mc& m, uint64_t n) { Service s(m); s.rd.push_back(reader("R")); Reader& r = s.rd[0]; r.features.clear(); for (unsigned i = 0; i < n; ++i) r.features = r.features + feat(0x20 + i, 0x99000000 + i); for (unsigned j = 0; j < 4; ++j) { Bytes keep = r.features; if (j == 1 && n) r.features[n * 6 - 6] = 0x12, r.features = Bytes(r.features.begin(), r.features.end() - 6) + feat(0x12, code_of(0x12)); if (j == 2 && n) r.features[n * 6 - 5] = 6; if (j == 3) r.features.push_back(1); Service t(m); t.rd = s.rd; pcsc_ctx_t c = start(m, t); if (!c) m.fail("result", "initialisation refused"); judge_reader(m, t, c, 0, false); stop(m, t, c); r.features = keep; } });
	// structures and property strings
	add("structure lengths", 7 * 7, [](Mc& m, uint64_t k) { for (int t = 0; t < 3; ++t) { Service s(m); s.rd.push_back(reader("R")); Reader& r = s.rd[0]; Bytes a = X("A1B2C3D4E5F6"), b = X("0A1B2C3D4E5F"); a.resize(k % 7); b.resize(k / 7); r.control[code_of(0x0A)] = a; r.control[code_of(0x11)] = b; if (t) r.control[code_of(0x12)] = t == 1 ? Bytes() : X("0400 0501 77"); pcsc_ctx_t c = start(m, s); if (!c) m.fail("result", "initialisation refused"); judge_reader(m, s, c, 0, true); stop(m, s, c); } });
	static const unsigned PB[] = { 0, 1, 2, 3, 4, 5, 0x0B, 0x7F, 0x80, 0xFF };
	static const unsigned depth = th ? 6 : 5;
	add("property strings", 10 * 11, [](Mc& m, uint64_t k) { Service s(m); s.rd.push_back(reader("R")); Reader& r = s.rd[0]; Bytes p; unsigned n = 0; if (k % 11 == 10) { if (k / 11 > 1) { m.skip(); return; } n = k / 11; } else { p = { (uint8_t)PB[k / 11], (uint8_t)PB[k % 11] }; n = m.choose(depth - 1); } for (unsigned i = 0; i < n; ++i) p.push_back(PB[m.choose(10)]); r.control[code_of(0x12)] = p; if (m.choose(2)) r.features = feat(0x12, code_of(0x12)); pcsc_ctx_t c = start(m, s); if (!c) m.fail("result", "initialisation refused"); judge_features(m, s, pcsc_get_reader(c, 0), 0); for (unsigned q : { 1u, 4u, 5u, 0x0Bu, 255u, 0u }) for (size_t room : { 0, 1, 2, 4 }) judge_property(m, s, pcsc_get_reader(c, 0), 0, q, room); m.state(hash(p.data(), p.size())); stop(m, s, c); }, depth - 1);
	add("long property strings", 268, [](Mc& m, uint64_t n) { for (int j = 0; j < 5; ++j) { Service s(m); s.rd.push_back(reader("R")); Bytes p; if (j == 0) p = Bytes(n, 0); if (j == 1) { p = { 9, (uint8_t)std::min<uint64_t>(255, n) }; p.resize(2 + n, 0x31); } if (j == 2) { for (unsigned i = 0; i < n; i += 4) p = p + Bytes{ (uint8_t)(0x20 + i / 4), 2, 7, 8 }; p = p + X("0B02 E608"); } if (j == 3) { p = { 0x0B, (uint8_t)n }; p.resize(264, 0x0B); } if (j == 4) { p = Bytes(n, 0x0B); } s.rd[0].control[code_of(0x12)] = p; pcsc_ctx_t c = start(m, s); if (!c) m.fail("result", "initialisation refused"); for (unsigned q : { 0u, 1u, 4u, 9u, 0x0Bu, 0x31u, 255u }) for (size_t room : { 0, 4, 255, 256 }) judge_property(m, s, pcsc_get_reader(c, 0), 0, q, room); stop(m, s, c); } });
	// states
	add("states", 256, [](Mc& m, uint64_t k) { Service s(m); s.rd = { reader("R"), reader("S") }; pcsc_ctx_t c = start(m, s); Hist h(m, s, c); for (unsigned lo = 0; lo < 256; ++lo) h.state(lo & 1, k << 8 | lo); h.state(0, 0xFFFF0022u + (k << 16)); h.state(1, k << 24); stop(m, s, c); });
	static const DWORD EV[] = { 0x12, 0x22, 0x00040122, 0x0A, 0x06, 0x222, 0x10 };
	add("waiting", 7 * 7 * 4, [](Mc& m, uint64_t k) { Service s(m); size_t n = k % 4; for (size_t i = 0; i < n + 1; ++i) s.rd.push_back(reader(NAMES[i])); std::vector<DWORD> v = { EV[k / 4 % 7] }; if (n) v.push_back(EV[k / 28 % 7]); else if (k / 28) { m.skip(); return; } for (size_t i = 2; i <= n; ++i) v.push_back(EV[m.choose(7)]); pcsc_ctx_t c = start(m, s); s.faults = true; m.budget = 1; Hist h(m, s, c); h.wait(PCSC_READER_ANY, 5000, v); for (size_t i = 0; i < v.size() + 2; ++i) h.wait(i, i * 1000, v); std::reverse(v.begin(), v.end()); h.wait(PCSC_READER_ANY, 0xFFFF, v); s.timeout = true; h.wait(PCSC_READER_ANY, 1, v); h.wait(0, 1, v); s.timeout = false; h.wait(0, 7, v); for (auto& x : v) m.state(x); s.faults = false; stop(m, s, c); });
	// many readers at once
	add("many readers", 40 * 3, [](Mc& m, uint64_t k) { size_t n = 1 + k / 3; unsigned lay = k % 3; Service s(m); std::vector<std::string> names; for (size_t i = 0; i < n; ++i) { std::string q = lay == 0 ? "Reader " + std::to_string(i) : lay == 1 ? std::string(1 + i * 3, 'A' + i % 26) + std::to_string(i) : "Manufacturer of Readers, Model 9000 with a long name [CCID Interface] (" + std::to_string(n - i) + ") 00 00"; Reader r = reader(q.c_str()); if (i % 3 == 1) r.features = feat(0x11, code_of(0x11)) + feat(7, 5); if (i % 5 == 2) r.features = {}; if (i % 4 == 3) r.control[code_of(0x12)] = Bytes{ 0x0B, 4, (uint8_t)i, 1, 2, 3 }; s.rd.push_back(r); }
		pcsc_ctx_t c = start(m, s); if (!c) m.fail("result", "initialisation refused"); count(m, s, c, n); for (size_t i = 0; i < n; ++i) judge_reader(m, s, c, i, false); Hist h(m, s, c); std::vector<DWORD> v(n, 0x12); h.wait(PCSC_READER_ANY, 9, v); h.wait(n - 1, 9, v);
		for (size_t i = 0; i < n; ++i) { v.assign(n, i % 2 ? 0x12 : 0x06); v[i] = 0x22; h.wait(PCSC_READER_ANY, 5, v); h.wait(i, 5, v); h.wait(i ? i - 1 : n, 5, v); h.state(i, 0x22 + (i << 16)); h.connect(i, i % 2); } for (size_t i = 0; i < n; ++i) { h.atr(i); h.trx(i, Bytes{ 0, 0xB2, (uint8_t)i, 4, 0 }, Bytes{ (uint8_t)i, 0x90, 0 }, 16, false); } for (size_t i = n; i--;) h.disconnect(i); for (size_t i = 0; i < n; ++i) h.atr(i); m.state(k); stop(m, s, c); m.cover("many readers"); });
	// cards
	add("cards", KINDS.size() * 2, [](Mc& m, uint64_t k) { Service s(m); s.rd = { reader("R"), reader("S") }; pcsc_ctx_t c = start(m, s); Hist h(m, s, c); size_t i = k & 1; s.faults = true; m.budget = th ? 3 : 2; for (int round = 0; round < 2; ++round) { h.atr(i); h.connect(i, k / 2); h.atr(i); h.atr(!i); h.trx(i, X("00A4040000"), X("6A82"), 258, false); h.disconnect(i); h.atr(i); h.trx(i, X("00B2010C00"), X("9000"), 258, false); if (h.st[i].up) break; } smallstate(m, s, h); s.faults = false; stop(m, s, c); }, 3);
	// exchanges of every size
	add("exchanges", 262, [](Mc& m, uint64_t n) { for (int p = 0; p < 2; ++p) { Service s(m); s.rd = { reader("R") }; pcsc_ctx_t c = start(m, s); Hist h(m, s, c); KINDS[0].card.protocol = p ? SCARD_PROTOCOL_T1 : SCARD_PROTOCOL_T0; h.connect(0, 0); Bytes tx(n ? n : 1), rx(n); for (size_t i = 0; i < n; ++i) { tx[i] = i * 7 + 1; rx[i] = i * 5 + 3; } for (size_t room : { (size_t)1, n ? n - 1 : 0, n, n + 1, (size_t)258, (size_t)65538 }) for (bool e : { false, true }) h.trx(0, tx, rx, room, e); KINDS[0].card.protocol = SCARD_PROTOCOL_T0; h.disconnect(0); stop(m, s, c); } });
	// histories over two readers
	enum { NH = 16 };
	add("histories", NH * NH, [](Mc& m, uint64_t k) { Service s(m); s.rd = { reader("Reader 1"), reader("Reader 10") }; pcsc_ctx_t c = start(m, s); Hist h(m, s, c); s.faults = true; m.budget = th ? 2 : 1; unsigned n = th ? 5 : 4; for (unsigned d = 0; d < n; ++d) { unsigned o = d == 0 ? k / NH : d == 1 ? k % NH : m.choose(NH); size_t i = o & 1; if (o / 2 < 4) { if (!h.connect(i, o / 2)) { m.skip(); break; } } else switch (o / 2) { case 4: h.disconnect(i); break; case 5: h.trx(i, i ? X("00B2010C00") : X("0084000008"), X("0102 9000"), 16, false); break; case 6: h.wait(i ? PCSC_READER_ANY : 0, 10, { 0x12, 0x22 }); break; default: h.state(i, 0x22 + d); } for (size_t j = 0; j < 2; ++j) { h.atr(j); } smallstate(m, s, h); } s.faults = false; for (size_t j = 0; j < 2; ++j) if (h.st[j].up) { h.disconnect(j); if (h.st[j].up) m.fail("connection", "disconnection refused although the service agreed"); } for (size_t j = 0; j < 2; ++j) h.trx(j, X("00"), X("9000"), 4, false); stop(m, s, c); }, NH);
	// null and empty arguments
	add("allocation failures", 5, [](Mc& m, uint64_t n) { Service s(m); for (size_t i = 0; i < n; ++i) s.rd.push_back(reader(NAMES[i % 4])); s.no_alloc = m.choose(th ? 10 : 8); s.no_alloc2 = s.no_alloc + 1 + m.choose(3); s.faults = true; m.budget = 1; pcsc_ctx_t c = start(m, s); bool hit = alloc_failed(); if (!c && !hit && !s.injected) m.fail("result", "initialisation refused without cause");
		if (c) { if (hit) m.cover("initialised despite a failed allocation"); alloc_fail_at(-1, -1); s.faults = false; count(m, s, c, n); for (size_t i = 0; i < n; ++i) judge_reader(m, s, c, i, false); stop(m, s, c); } else if (hit) m.cover("allocation failure reported");
		Service t(m); t.rd = s.rd; c = start(m, t); if (!c) m.fail("result", "initialisation refused after an earlier failure"); count(m, t, c, n); for (size_t i = 0; i < n; ++i) judge_reader(m, t, c, i, false); stop(m, t, c); });
	add("arguments", 1, [](Mc& m, uint64_t) { Service s(m); s.rd = { reader("R") }; S = &s; alloc_reset(); if (CALL(pcsc_init(nullptr)) >= 0) m.fail("argument", "init"); pcsc_ctx_t z = nullptr; LIB((pcsc_release(nullptr), pcsc_release(&z), 0)); if (pcsc_get_reader_count(nullptr) || pcsc_get_reader(nullptr, 0) || pcsc_reader_get_name(nullptr) || pcsc_reader_has_feature(nullptr, 6)) m.fail("argument", "null context"); pcsc_ctx_t c = start(m, s); pcsc_reader_ctx_t r = pcsc_get_reader(c, 0); uint8_t b[40]; size_t n = 40; unsigned u; size_t i = 0;
		int bad[] = { pcsc_reader_get_property(nullptr, 1, b, &n), pcsc_reader_get_property(r, 1, nullptr, &n), pcsc_reader_get_property(r, 1, b, nullptr), pcsc_reader_get_state(nullptr, &u), pcsc_reader_get_state(r, nullptr), pcsc_wait_for_card(nullptr, 1, &i), pcsc_wait_for_card(c, 1, nullptr), pcsc_reader_connect(nullptr), pcsc_reader_disconnect(nullptr), pcsc_reader_get_atr(nullptr, b, &n), pcsc_reader_get_atr(r, nullptr, &n), pcsc_reader_get_atr(r, b, nullptr), pcsc_reader_trx(nullptr, b, 1, b, &n), pcsc_reader_trx(r, nullptr, 1, b, &n), pcsc_reader_trx(r, b, 0, b, &n), pcsc_reader_trx(r, b, 1, nullptr, &n), pcsc_reader_trx(r, b, 1, b, nullptr) }; for (int x : bad) if (x >= 0) m.fail("argument", "missing argument accepted"); if (s.transmits) m.fail("argument", "transmitted"); stop(m, s, c); });
}
static struct Init { Init() { setup_hook = setup; } } init_;
#endif
