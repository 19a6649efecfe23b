// C04: data object lists
#include "mc.h"
#include "refdol.h"
#include <emv_dol.h>
#include <emv_tlv.h>
using namespace mc;
typedef std::vector<uint8_t> Bytes;
// decode + iterate + computed length for any byte string
static void check_decode(Mc& m, const Bytes& d) {
	Buf in(d); m.log("list %s", hex(d).c_str());
	std::vector<Entry> es; bool ok = ref_list(d, es);
	emv_dol_itr_t it; if (emv_dol_itr_init(in.p(), in.n(), &it)) m.fail("init", "iterator init failed");
	size_t p = 0; uint64_t h = ok;
	for (;;) {
		Entry e; int x = ref_entry(d.data() + p, d.size() - p, e);
		emv_dol_entry_t g; memset(&g, 0xA5, sizeof g); int r = emv_dol_itr_next(&it, &g); m.step();
		if ((x < 0) != (r < 0) || (x >= 0 && x != r)) m.fail("iterate", "%s at %zu: returned %d, expected %d", hex(d).c_str(), p, r, x);
		if (x <= 0) break;
		if (g.tag != e.tag || g.length != e.len) m.fail("entry", "%s at %zu: entry %X/%u", hex(d).c_str(), p, g.tag, g.length);
		h = hmix(h, e.tag); h = hmix(h, e.len); p += x;
	}
	Entry e; int x = ref_entry(d.data(), d.size(), e); emv_dol_entry_t g; int r = emv_dol_decode(in.p(), in.n(), &g);
	if ((x < 0) != (r < 0) || (x >= 0 && x != r) || (x > 0 && (g.tag != e.tag || g.length != e.len))) m.fail("decode", "%s: returned %d, expected %d", hex(d).c_str(), r, x);
	long tot = 0; for (auto& q : es) tot += q.len;
	r = emv_dol_compute_data_length(in.p(), in.n()); m.step(2);
	if (d.empty() ? r > 0 : ok ? r != tot : r >= 0) m.fail("length", "%s: computed length %d, expected %ld", hex(d).c_str(), r, ok ? tot : -1);
	m.state(h); m.cover(ok ? (es.size() > 1 ? "valid list, several entries" : "valid list") : "malformed list");
}
static void check_build(Mc& m, const Bytes& d, const std::vector<std::vector<Fld>>& src, int capdelta, bool garbage) {
	std::vector<Entry> es; bool ok = ref_list(d, es);
	Bytes x = expect(es, src);
	long cap = (long)x.size() + capdelta; if (cap < 0) return;
	m.log("build %s cap %ld", hex(d).c_str(), cap);
	alloc_reset();
	emv_tlv_list_t l[3] = { EMV_TLV_LIST_INIT, EMV_TLV_LIST_INIT, EMV_TLV_LIST_INIT }; const emv_tlv_list_t* s[3];
	for (size_t i = 0; i < src.size(); ++i) { for (auto& f : src[i]) if (LIB(emv_tlv_list_push(&l[i], f.tag, f.v.size(), f.v.data(), 0))) m.fail("push", "push failed"); s[i] = &l[i]; }
	Buf in(d), out((size_t)cap, 0xEE); size_t n = cap;
	int r = LIB(emv_dol_build_data(in.p(), in.n(), s, src.size(), out.p(), &n)); m.step();
	if (cap == 0 || d.empty()) { if (r == 0 && n != 0) m.fail("empty", "empty request produced %zu bytes", n); }
	else if (ok && capdelta >= 0) {
		if (r != 0) m.fail("build", "%s: building into %ld bytes returned %d", hex(d).c_str(), cap, r);
		if (n != x.size() || memcmp(out.p(), x.data(), n)) m.fail("data", "%s: built %s, expected %s", hex(d).c_str(), hex(out.p(), n < 600 ? n : 0).c_str(), hex(x).c_str());
		int cl = emv_dol_compute_data_length(in.p(), in.n()); if (cl != (int)n) m.fail("length", "%s: computed length %d but built %zu", hex(d).c_str(), cl, n);
		for (long i = n; i < cap; ++i) if (out.p()[i] != 0xEE) m.fail("overrun", "%s: wrote past the built data", hex(d).c_str());
		m.cover("built");
	} else if (ok) { if (r <= 0) m.fail("small", "%s: output too small by %d returned %d", hex(d).c_str(), -capdelta, r); m.cover("output too small"); }
	else { if (r == 0) m.fail("malformed", "%s: malformed list built", hex(d).c_str()); m.cover("malformed"); }
	for (size_t i = 0; i < src.size(); ++i) LIB((emv_tlv_list_clear(&l[i]), 0));
	m.state(hmix(hash(x.data(), x.size()), r == 0 ? 1 : 2));
	if (alloc_live()) m.fail("leak", "allocation leaked");
}
static const std::vector<unsigned> TG = { 0x9F02, 0x9F37, 0x9A, 0x95, 0x9F1A, 0x9F1E, 0xDF8101 };
static Bytes enc(unsigned t, unsigned len) { Bytes o; if (t > 0xFFFF) o.push_back(t >> 16); if (t > 0xFF) o.push_back(t >> 8); o.push_back(t); o.push_back(len); return o; }
static Bytes val(unsigned n, unsigned salt) { Bytes v; for (unsigned i = 0; i < n; ++i) v.push_back(0x11 * (i + 1) + salt * 0x40 + 1); return v; }

static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough");
	static const Bytes A = { 0x00, 0x01, 0x04, 0x1F, 0x5A, 0x5F, 0x7F, 0x80, 0x81, 0x9F, 0xDF, 0xFF };
	for (unsigned n = 0; n <= (th ? 7u : 6u); ++n) add(("list strings length " + std::to_string(n)).c_str(), n ? 12 : 1, [n](Mc& m, uint64_t k) { Bytes v; if (n) v.push_back(A[k]); while (v.size() < n) v.push_back(A[m.choose(A.size())]); check_decode(m, v); });
	add("list strings all octets length 3", 256, [](Mc& m, uint64_t k) { check_decode(m, { (uint8_t)k, (uint8_t)m.choose(256), (uint8_t)m.choose(256) }); });
	add("long lists", 64, [](Mc& m, uint64_t k) { Bytes v; for (unsigned i = 0; i < k; ++i) { Bytes e = enc(TG[i % TG.size()], 255); v.insert(v.end(), e.begin(), e.end()); } unsigned c = m.choose(3); if (c < v.size()) v.resize(v.size() - c); check_decode(m, v); });
	// one entry: every tag kind, every value length 0..7 against every requested length 0..9, source placement, capacity
	add("one entry", TG.size() * 8, [](Mc& m, uint64_t k) {
		unsigned t = TG[k % TG.size()], vl = k / TG.size(); unsigned el = m.choose(10);
		unsigned place = m.choose(8); // which of three sources hold it
		std::vector<std::vector<Fld>> src(3);
		for (int i = 0; i < 3; ++i) { src[i].push_back({ 0x5F34, { (uint8_t)(i + 1) } }); if (place >> i & 1) { src[i].push_back({ t, val(vl + (i ? 1 : 0), i) }); if (m.choose(2)) src[i].push_back({ t, val(vl, 3) }); } }
		check_build(m, enc(t, el), src, (int)m.choose(4) - 1, false);
	});
	// requested lengths up to 255 against value lengths up to 300
	add("long fields", 3, [](Mc& m, uint64_t k) {
		static const unsigned LV[] = { 0, 1, 127, 128, 254, 255, 256, 300 }, LE[] = { 0, 1, 127, 128, 254, 255 };
		unsigned t = TG[k]; std::vector<std::vector<Fld>> src(1); src[0].push_back({ t, val(LV[m.choose(8)], 0) });
		check_build(m, enc(t, LE[m.choose(6)]), src, (int)m.choose(3) - 1, false);
	});
	// every terminal/numeric tag (and every other two-byte tag near it) is padded on its own side
	add("format of every tag", 0x10000 / 64, [](Mc& m, uint64_t k) {
		unsigned t = k * 64 + m.choose(64); m.step();
		bool g = emv_tlv_is_terminal_format_n(t);
		if (g != term_n(t)) m.fail("format_n", "tag %X terminal numeric=%d", t, g);
		m.state(hmix(t, g));
	});
	// several entries
	unsigned ne = th ? 4 : 3;
	add("several entries", TG.size() * 5, [ne](Mc& m, uint64_t k) {
		unsigned cnt = 2 + m.choose(ne - 1); Bytes d; std::vector<std::vector<Fld>> src(2);
		static const unsigned VL[] = { 6, 4, 3, 5, 2, 8, 1 };
		for (unsigned i = 0; i < cnt; ++i) {
			unsigned ti = i == 0 ? k % TG.size() : m.choose(cnt > 3 ? 4 : TG.size());
			int dl = i == 0 ? (int)(k / TG.size()) - 2 : (int)m.choose(3) - 1;
			int el = (int)VL[ti] + dl; if (el < 0) el = 0;
			Bytes e = enc(TG[ti], el); d.insert(d.end(), e.begin(), e.end());
		}
		unsigned pm = m.choose(4);
		for (size_t i = 0; i < TG.size(); ++i) { if (pm == 1 ? i % 2 : pm != 2) src[pm == 3 ? 1 : 0].push_back({ TG[i], val(VL[i], 0) }); src[1].push_back({ TG[i], val(VL[i], 2) }); if (pm == 2 && i % 3 == 0) src[1].pop_back(); }
		unsigned trunc = m.choose(3); if (trunc) d.resize(d.size() - trunc);
		check_build(m, d, src, (int)m.choose(3) - 1, false);
	});
	add("long sources", 66, [](Mc& m, uint64_t k) { // the requested fields stand behind k others in one of up to five sources
		unsigned ns = 1 + m.choose(3), w = m.choose(ns), vl = 1 + m.choose(4); std::vector<std::vector<Fld>> src(ns); Bytes d; for (unsigned s = 0; s < ns; ++s) for (unsigned i = 0; i < k; ++i) src[s].push_back({ 0xDF10 + i, { (uint8_t)i, (uint8_t)s } }); src[w].push_back({ 0x9F02, val(vl, 0) }); src[w].push_back({ 0x9F10, val(vl, 1) }); src[ns - 1].push_back({ 0x9F10, val(vl, 2) });
		for (unsigned t : { 0x9F02u, 0x9F10u, 0xDF10u + (unsigned)k / 2, 0xDF10u + (unsigned)k - 1 }) { if (t < 0xDF10 && t > 0xA000) continue; Bytes e = enc(t, 3); d.insert(d.end(), e.begin(), e.end()); } check_build(m, d, src, (int)m.choose(3) - 1, false); });
	add("many sources", 12, [](Mc& m, uint64_t k) { unsigned ns = 1 + k % 3, at = m.choose(ns + 1); std::vector<std::vector<Fld>> src(ns); if (at < ns) src[at].push_back({ 0x9F1A, val(2, at) }); Bytes d; for (unsigned i = 0; i < 1 + k / 3 * 10; ++i) { Bytes e = enc(i % 2 ? 0x9F1A : 0x9F02, i % 5); d.insert(d.end(), e.begin(), e.end()); } check_build(m, d, src, (int)m.choose(3) - 1, false); });
	add("invalid arguments", 1, [](Mc& m, uint64_t) {
		emv_tlv_list_t l = EMV_TLV_LIST_INIT; const emv_tlv_list_t* s[2] = { &l, nullptr }; uint8_t d[2] = { 0x9A, 3 }, o[8]; size_t n = 8, z = 0; emv_dol_entry_t e; emv_dol_itr_t it; m.step(10);
		if (emv_dol_build_data(nullptr, 2, s, 1, o, &n) >= 0 || emv_dol_build_data(d, 2, nullptr, 1, o, &n) >= 0 || emv_dol_build_data(d, 2, s, 2, o, &n) >= 0 || emv_dol_build_data(d, 2, s, 1, nullptr, &n) >= 0 || emv_dol_build_data(d, 2, s, 1, o, nullptr) >= 0 || emv_dol_build_data(d, 2, s, 0, o, &n) >= 0) m.fail("args", "missing argument accepted");
		if (emv_dol_build_data(d, 2, s, 1, o, &z) == 0) m.fail("args", "zero capacity accepted");
		if (emv_dol_decode(nullptr, 1, &e) >= 0 || emv_dol_decode(d, 2, nullptr) >= 0 || emv_dol_itr_init(nullptr, 1, &it) >= 0 || emv_dol_itr_next(nullptr, &e) >= 0 || emv_dol_compute_data_length(nullptr, 2) >= 0) m.fail("args", "missing argument accepted");
	});
}
static struct Init { Init() { setup_hook = setup; } } init_;
