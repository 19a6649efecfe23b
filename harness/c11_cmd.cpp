// C11: command encoding of SELECT (first/next), READ RECORD, GET PROCESSING OPTIONS
#include "mc.h"
#include <emv_ttl.h>
using namespace mc;
typedef std::vector<uint8_t> Bytes;
struct Card { Mc* m; Bytes want; Bytes data; uint16_t sw; int mode; int rc; unsigned n; };
static int trx(void* c, const void* tx, size_t n, void* rx, size_t* rn) {
	Host h; Card& k = *(Card*)c; k.m->step(); ++k.n;
	k.m->log("> %s", hex(tx, std::min<size_t>(n, 40)).c_str());
	if (k.rc) return k.rc;
	Bytes r;
	if (k.mode == 1) { // whole APDU
		if (n != k.want.size() || memcmp(tx, k.want.data(), n)) k.m->defer("sent", "sent %s, expected %s", hex(tx, n).c_str(), hex(k.want).c_str());
		r = k.data; r.push_back(k.sw >> 8); r.push_back(k.sw);
	} else { // T=0: header, data, [61 xx, GET RESPONSE], data
		bool c4 = k.want.size() > 5; Bytes hdr(k.want.begin(), k.want.begin() + 5);
		if (k.n == 1) { if (n != 5 || memcmp(tx, hdr.data(), 5)) k.m->defer("sent", "sent header %s, expected %s", hex(tx, n).c_str(), hex(hdr).c_str());
			if (c4) r = { hdr[1] }; else { if (!k.data.empty()) { r.push_back(hdr[1]); r.insert(r.end(), k.data.begin(), k.data.end()); } r.push_back(k.sw >> 8); r.push_back(k.sw); } }
		else if (k.n == 2) { if (n != k.want.size() - 6 || memcmp(tx, &k.want[5], n)) k.m->defer("sent", "sent data %s, expected command %s", hex(tx, n).c_str(), hex(k.want).c_str());
			if (k.data.empty()) r = { (uint8_t)(k.sw >> 8), (uint8_t)k.sw }; else r = { 0x61, (uint8_t)k.data.size() }; }
		else { Bytes g{ 0, 0xC0, 0, 0, (uint8_t)k.data.size() }; if (n != 5 || memcmp(tx, g.data(), 5)) k.m->defer("sent", "sent %s, expected GET RESPONSE", hex(tx, n).c_str()); r = { 0xC0 }; r.insert(r.end(), k.data.begin(), k.data.end()); r.push_back(k.sw >> 8); r.push_back(k.sw); }
	}
	if (r.size() > *rn) { k.m->defer("capacity", "response of %zu bytes does not fit", r.size()); return -8; }
	memcpy(rx, r.data(), r.size()); *rn = r.size(); return 0;
}
// fn(ttl, out, out_len, sw)
template<class F> static void call(Mc& m, F fn, const Bytes& want, bool valid, bool open_ok = false) {
	alloc_reset(); Card k; k.m = &m; k.want = want; k.n = 0; k.rc = 0; k.mode = 1 + m.choose(2);
	static const unsigned DL[] = { 0, 1, 2, 255, 256 }; static const uint16_t SW[] = { 0x9000, 0x6A82, 0x6985, 0x6283, 0x6A83 };
	unsigned f = m.choose(8); unsigned dl = f < 5 ? DL[f] : f == 5 ? 3 : 0; k.sw = f < 5 ? SW[m.choose(5)] : 0x9000; if (f == 6) k.rc = -4; if (f == 7) k.rc = 7;
	if (k.sw == 0x6283 && dl == 0) { k.sw = 0x6A81; }
	for (unsigned i = 0; i < dl; ++i) k.data.push_back(i * 3 + 1);
	emv_ttl_t ttl; memset(&ttl, 0, sizeof ttl); ttl.cardreader.mode = k.mode == 1 ? EMV_CARDREADER_MODE_APDU : EMV_CARDREADER_MODE_TPDU; ttl.cardreader.ctx = &k; ttl.cardreader.trx = trx;
	static const size_t CAP[] = { 256, 257, 300, 255, 1 }; size_t cap = CAP[m.choose(f == 4 ? 5 : f == 0 ? 4 : 1)];
	Buf out(cap, 0x99); size_t len = cap; uint16_t sw = 0xBEEF;
	int r = LIB(fn(&ttl, out.p(), &len, &sw)); m.check_deferred();
	m.state(hmix(hmix(hash(want.data(), std::min<size_t>(want.size(), 12)), dl), k.sw)); m.cover(!valid ? "refused" : k.rc ? "reader failure" : cap < 256 ? "small buffer" : "exchanged");
	if (!valid) { if (r == 0) m.fail("accepted", "arguments that the command cannot carry were accepted"); if (k.n) m.fail("sent", "a command was sent for invalid arguments"); return; }
	if (k.rc) { if (!r) m.fail("failure", "reader failure reported as success"); return; }
	if (cap < 256) { if (r == 0 && (len > cap || len != dl)) m.fail("overrun", "%zu bytes reported in a buffer of %zu", len, cap); if (r == 0 && memcmp(out.p(), k.data.data(), dl)) m.fail("data", "wrong data"); return; }
	if (r) m.fail("result", "returned %d", r);
	if (k.n == 0) m.fail("sent", "nothing was sent");
	if (sw != k.sw || len != dl || memcmp(out.p(), k.data.data(), dl)) m.fail("data", "card returned %u bytes, status %04X; delivered %zu bytes, status %04X", dl, k.sw, len, sw);
}
static void setup() {
	for (int next = 0; next < 2; ++next) add(next ? "select next" : "select", 20, [next](Mc& m, uint64_t n) { // name lengths 0..19, contents
		Bytes name; unsigned c = m.choose(3); for (unsigned i = 0; i < n; ++i) name.push_back(c == 0 ? 0xA0 + i : c == 1 ? 0x00 : 0xFF);
		Bytes want{ 0, 0xA4, 4, (uint8_t)(next ? 2 : 0), (uint8_t)n }; want.insert(want.end(), name.begin(), name.end()); want.push_back(0);
		Buf nb(name); call(m, [&](emv_ttl_t* t, uint8_t* o, size_t* l, uint16_t* s) { return next ? emv_ttl_select_by_df_name_next(t, nb.p(), n, o, l, s) : emv_ttl_select_by_df_name(t, nb.p(), n, o, l, s); }, want, n >= 5 && n <= 16); });
	add("select long names", 4, [](Mc& m, uint64_t k) { static const unsigned N[] = { 255, 256, 261, 272 }; unsigned n = N[k]; Buf nb(n, 0x41); Bytes want{ 0, 0xA4, 4, 0, 0 }; bool nx = m.choose(2); call(m, [&](emv_ttl_t* t, uint8_t* o, size_t* l, uint16_t* s) { return nx ? emv_ttl_select_by_df_name_next(t, nb.p(), n, o, l, s) : emv_ttl_select_by_df_name(t, nb.p(), n, o, l, s); }, want, false); });
	add("read record", 256, [](Mc& m, uint64_t sfi) { unsigned rec = m.choose(256); bool ok = sfi >= 1 && sfi <= 30; Bytes want{ 0, 0xB2, (uint8_t)rec, (uint8_t)(sfi << 3 | 4), 0 };
		call(m, [&](emv_ttl_t* t, uint8_t* o, size_t* l, uint16_t* s) { return emv_ttl_read_record(t, sfi, rec, o, l, s); }, want, ok); });
	add("get processing options", 264, [](Mc& m, uint64_t n) { bool null = n == 0 || n == 263; Bytes d; for (unsigned i = 0; i < n; ++i) d.push_back(i == 0 ? (m.choose(2) ? 0x83 : 0x84) : i == 1 ? n - 2 : i * 5);
		bool ok = null || (n >= 2 && n <= 255 && d[0] == 0x83); Bytes body = null ? Bytes{ 0x83, 0 } : d; Bytes want{ 0x80, 0xA8, 0, 0, (uint8_t)body.size() }; want.insert(want.end(), body.begin(), body.end()); want.push_back(0);
		Buf b(d); call(m, [&](emv_ttl_t* t, uint8_t* o, size_t* l, uint16_t* s) { return emv_ttl_get_processing_options(t, null ? nullptr : b.p(), null ? 0 : n, o, l, s); }, want, ok); });
	add("arguments", 1, [](Mc& m, uint64_t) { emv_ttl_t t; memset(&t, 0, sizeof t); uint8_t nm[8] = {0}, o[300]; size_t l = 300, z = 0; uint16_t s; m.step(16);
		for (auto f : { emv_ttl_select_by_df_name, emv_ttl_select_by_df_name_next }) if (!f(nullptr, nm, 8, o, &l, &s) || !f(&t, nullptr, 8, o, &l, &s) || !f(&t, nm, 8, nullptr, &l, &s) || !f(&t, nm, 8, o, nullptr, &s) || !f(&t, nm, 8, o, &z, &s) || !f(&t, nm, 8, o, &l, nullptr)) m.fail("null", "SELECT accepted a missing argument");
		if (!emv_ttl_read_record(nullptr, 1, 1, o, &l, &s) || !emv_ttl_read_record(&t, 1, 1, nullptr, &l, &s) || !emv_ttl_read_record(&t, 1, 1, o, nullptr, &s) || !emv_ttl_read_record(&t, 1, 1, o, &z, &s) || !emv_ttl_read_record(&t, 1, 1, o, &l, nullptr)) m.fail("null", "READ RECORD accepted a missing argument");
		if (!emv_ttl_get_processing_options(nullptr, nullptr, 0, o, &l, &s) || !emv_ttl_get_processing_options(&t, nullptr, 0, nullptr, &l, &s) || !emv_ttl_get_processing_options(&t, nullptr, 0, o, nullptr, &s) || !emv_ttl_get_processing_options(&t, nullptr, 0, o, &z, &s) || !emv_ttl_get_processing_options(&t, nullptr, 0, o, &l, nullptr)) m.fail("null", "GET PROCESSING OPTIONS accepted a missing argument"); });
}
static struct Init { Init() { setup_hook = setup; } } init_;
