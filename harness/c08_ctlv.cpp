// C08: COMPACT-TLV iteration
#include "mc.h"
#include <iso7816_compact_tlv.h>
using namespace mc;
typedef std::vector<uint8_t> Bytes;
static void check(Mc& m, const Bytes& v) {
	m.log("iterate %s", hex(v).c_str());
	Buf b(v); iso7816_compact_tlv_itr_t it; memset(&it, 0xEE, sizeof it);
	int r = iso7816_compact_tlv_itr_init(b.p(), b.n(), &it); m.step();
	if (v.empty()) { if (r == 0) { iso7816_compact_tlv_t t; if (iso7816_compact_tlv_itr_next(&it, &t) > 0) m.fail("empty", "object found in no data"); } iso7816_compact_tlv_t t; if (iso7816_compact_tlv_decode(b.p(), 0, &t) > 0) m.fail("empty", "object decoded from no data"); return; }
	if (r) m.fail("init", "iterator over %s could not be initialised (%d)", hex(v).c_str(), r);
	size_t p = 0; uint64_t h = 0;
	for (;;) {
		iso7816_compact_tlv_t t, d; memset(&t, 0xEE, sizeof t); memset(&d, 0xEE, sizeof d);
		int rd = iso7816_compact_tlv_decode(b.p() + p, v.size() - p, &d);
		r = iso7816_compact_tlv_itr_next(&it, &t); m.step(2);
		if (p == v.size()) { if (r != 0 || rd != 0) m.fail("end", "%s: end of data reported as %d/%d", hex(v).c_str(), r, rd); if (iso7816_compact_tlv_itr_next(&it, &t) != 0) m.fail("end", "end of data not stable"); m.cover("complete"); break; }
		unsigned len = v[p] & 15;
		if (p + 1 + len > v.size()) { if (r >= 0 || rd >= 0) m.fail("overrun", "%s: object at %zu runs past the end but was returned as %d/%d", hex(v).c_str(), p, r, rd); m.cover("truncated"); h = hmix(h, 1); break; }
		for (auto* x : { &t, &d }) if (x->tag != v[p] >> 4 || x->length != len || x->value != b.p() + p + 1) m.fail("object", "%s: object at %zu decoded as tag %X length %u", hex(v).c_str(), p, x->tag, x->length);
		if (r != (int)len + 1 || rd != r) m.fail("consumed", "%s: object at %zu consumed %d/%d bytes", hex(v).c_str(), p, r, rd);
		h = hmix(h, v[p]); p += len + 1;
	}
	m.state(h);
}
static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough");
	static const Bytes A = { 0x00, 0x01, 0x12, 0x83, 0x24, 0x3F, 0xF0, 0x71, 0x56, 0xFF };
	for (unsigned n = 0; n <= (th ? 8u : 6u); ++n) add(("strings length " + std::to_string(n)).c_str(), n ? A.size() : 1, [n](Mc& m, uint64_t k) { Bytes v; if (n) v.push_back(A[k]); while (v.size() < n) v.push_back(A[m.choose(A.size())]); check(m, v); });
	add("all headers at all remaining lengths", 256, [](Mc& m, uint64_t k) { Bytes v; unsigned pre = m.choose(3); if (pre) v.push_back(0x30 | (pre - 1)); for (unsigned i = 1; i < pre; ++i) v.push_back(0xFF); v.push_back(k); unsigned n = m.choose(20); for (unsigned i = 0; i < n; ++i) v.push_back(0x60 + i); check(m, v); });
	add("all pairs", 256, [](Mc& m, uint64_t k) { Bytes v{ (uint8_t)k, (uint8_t)m.choose(256) }; check(m, v); if (k % 16 < 4) { v.insert(v.begin() + 1, k % 16, 0xAA); check(m, v); } });
	add("long buffers", 16, [](Mc& m, uint64_t k) { Bytes v; unsigned n = 200 + m.choose(20); while (v.size() < n) { v.push_back(0x10 * (v.size() % 16) + k); v.insert(v.end(), k, 0x11); } if (m.choose(2)) v.pop_back(); check(m, v); });
	add("tag names", 16, [](Mc& m, uint64_t k) { const char* s = iso7816_compact_tlv_tag_get_string(k); m.step(); static const char* N[16] = { 0, "Country code", "Issuer identification number", "Card service data", "Initial access data", "Card issuer data", "Pre-issuing data", "Card capabilities", "Status indicator", 0, 0, 0, 0, 0, 0, "Application identifier (AID)" };
		if (!s || strcmp(s, N[k] ? N[k] : "Unknown")) m.fail("name", "tag %u named %s", (unsigned)k, s); });
	add("arguments", 1, [](Mc& m, uint64_t) { uint8_t a[2] = { 0x31, 0 }; iso7816_compact_tlv_itr_t it; iso7816_compact_tlv_t t; m.step(6); if (!iso7816_compact_tlv_itr_init(nullptr, 2, &it) || !iso7816_compact_tlv_itr_init(a, 2, nullptr) || iso7816_compact_tlv_itr_next(nullptr, &t) >= 0 || iso7816_compact_tlv_decode(nullptr, 2, &t) >= 0 || iso7816_compact_tlv_decode(a, 2, nullptr) >= 0) m.fail("null", "missing argument accepted"); iso7816_compact_tlv_itr_init(a, 2, &it); if (iso7816_compact_tlv_itr_next(&it, nullptr) >= 0) m.fail("null", "missing output accepted"); });
}
static struct Init { Init() { setup_hook = setup; } } init_;
