// C01: BER decoding is exact for every byte string
#include "mc.h"
#include "refber.h"
#include <iso8825_ber.h>
using namespace mc;
typedef std::vector<uint8_t> Bytes;

static void check_bytes(Mc& m, const Bytes& v) {
	Buf in(v);
	m.log("bytes %s", hex(v).c_str());
	// tag
	{
		unsigned tag = 0xDEADBEEF; uint64_t rt = 0;
		int e = ref_tag(v.data(), v.size(), rt);
		int r = iso8825_ber_tag_decode(in.p(), in.n(), &tag);
		if ((e < 0) != (r < 0) || (e >= 0 && e != r) || (e > 0 && tag != rt))
			m.fail("tag", "tag of %s: got r=%d tag=%X, expected r=%d tag=%llX", hex(v).c_str(), r, tag, e, (unsigned long long)rt);
	}
	// element
	RefTlv t; long e = ref_ber(v.data(), v.size(), t);
	iso8825_tlv_t tlv; memset(&tlv, 0xA5, sizeof tlv);
	int r = iso8825_ber_decode(in.p(), in.n(), &tlv);
	m.step(2);
	if ((e < 0) != (r < 0) || (e >= 0 && e != r)) m.fail("consumed", "element of %s: got %d, expected %ld", hex(v).c_str(), r, e);
	if (e > 0) {
		if (tlv.tag != t.tag || tlv.length != t.len || tlv.value != in.p() + t.off) m.fail("element", "element of %s: got tag %X length %u value at %ld, expected tag %llX length %llu value at %zu", hex(v).c_str(), tlv.tag, tlv.length, (long)(tlv.value - in.p()), (unsigned long long)t.tag, (unsigned long long)t.len, t.off);
		if (iso8825_ber_get_class(&tlv) != t.cls || iso8825_ber_is_constructed(&tlv) != t.cons) m.fail("class", "class/constructed of %s", hex(v).c_str());
	}
	m.cover(e < 0 ? "malformed" : e == 0 ? "end of data" : t.cons ? "constructed" : "primitive");
	// iteration
	iso8825_ber_itr_t itr; memset(&itr, 0xA5, sizeof itr);
	r = iso8825_ber_itr_init(in.p(), in.n(), &itr);
	if (r) m.fail("itr_init", "iterator init failed on %s", hex(v).c_str());
	size_t p = 0; uint64_t h = 0; unsigned cnt = 0;
	for (;;) {
		RefTlv x; long ex = ref_ber(v.data() + p, v.size() - p, x);
		memset(&tlv, 0xA5, sizeof tlv);
		r = iso8825_ber_itr_next(&itr, &tlv); m.step();
		if ((ex < 0) != (r < 0) || (ex >= 0 && ex != r)) m.fail("itr", "iterating %s: at offset %zu got %d, expected %ld", hex(v).c_str(), p, r, ex);
		if (ex <= 0) { h = hmix(h, ex); break; }
		if (tlv.tag != x.tag || tlv.length != x.len || tlv.value != in.p() + p + x.off || iso8825_ber_get_class(&tlv) != x.cls || iso8825_ber_is_constructed(&tlv) != x.cons)
			m.fail("itr_element", "iterating %s: wrong element at offset %zu", hex(v).c_str(), p);
		h = hmix(h, x.tag); h = hmix(h, x.len); h = hmix(h, x.off); ++cnt;
		p += ex;
	}
	if (cnt >= 2) m.cover("several elements");
	// after the end (or an error) the iterator stays put
	memset(&tlv, 0xA5, sizeof tlv);
	int r2 = iso8825_ber_itr_next(&itr, &tlv);
	if ((r2 < 0) != (r < 0) || (r2 > 0)) m.fail("itr_end", "iterator advanced past the end of %s", hex(v).c_str());
	m.state(hmix(h, v.size()));
}

static void strings(Mc& m, const std::vector<uint8_t>& alpha, unsigned n, uint64_t outer, unsigned outer_syms) {
	Bytes v;
	for (unsigned i = 0; i < outer_syms && i < n; ++i) { v.push_back(alpha[outer % alpha.size()]); outer /= alpha.size(); }
	while (v.size() < n) v.push_back(alpha[m.choose(alpha.size())]);
	check_bytes(m, v);
}

// Structured generator: element with chosen tag form, length form, nesting
static const std::vector<Bytes> PT = { {0x5A}, {0x9F, 0x02}, {0xDF, 0x81, 0x01}, {0x1F, 0x81, 0x82, 0x03}, {0x00}, {0x02} };
static const std::vector<Bytes> CT = { {0x70}, {0xBF, 0x0C}, {0x3F, 0x81, 0x82, 0x03} };
static void put_len(Bytes& o, size_t n, unsigned form) { // 0 short/auto, 1 81, 2 82, 3 83, 4 84
	if (form == 0 && n < 0x80) { o.push_back(n); return; }
	unsigned c = form ? form : (n < 0x100 ? 1 : 2);
	o.push_back(0x80 + c);
	while (c--) o.push_back((n >> (8 * c)) & 0xFF);
}
static Bytes gen(Mc& m, int depth) {
	Bytes o;
	bool cons = depth > 0 && m.choose(2);
	if (!cons) {
		Bytes t = m.pick(PT);
		size_t n = m.choose(3);
		if (t.size() == 1 && t[0] == 0) n = 0; // end-of-contents look-alike
		o = t; put_len(o, n, m.choose(2) ? 1 + m.choose(4) : 0);
		for (size_t i = 0; i < n; ++i) o.push_back(i ? 0x00 : 0x80);
		return o;
	}
	Bytes body; unsigned k = m.choose(3);
	for (unsigned i = 0; i < k; ++i) { Bytes c = gen(m, depth - 1); body.insert(body.end(), c.begin(), c.end()); }
	o = m.pick(CT);
	if (m.choose(2)) { o.push_back(0x80); o.insert(o.end(), body.begin(), body.end()); o.push_back(0); o.push_back(0); }
	else { put_len(o, body.size(), m.choose(2) ? 2 : 0); o.insert(o.end(), body.begin(), body.end()); }
	return o;
}
static void pass(Mc& m, const Bytes& v) { check_bytes(m, v); }

static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough");
	static const std::vector<uint8_t> A = { 0x00, 0x01, 0x02, 0x1F, 0x30, 0x3F, 0x5F, 0x7F, 0x80, 0x81, 0x82, 0x84, 0x85, 0x9F, 0xFF };
	static const std::vector<uint8_t> B = { 0x00, 0x30, 0x80, 0x01, 0x1F, 0x81 };
	static const std::vector<uint8_t> I = { 0x00, 0x30, 0x80, 0x01 };
	unsigned maxA = th ? 7 : 5, maxB = th ? 10 : 8, maxI = th ? 14 : 11;
	for (unsigned n = 0; n <= maxA; ++n) { uint64_t o = n >= 2 ? A.size() * A.size() : n ? A.size() : 1; add(("structural alphabet, length " + std::to_string(n)).c_str(), o, [n](Mc& m, uint64_t k) { strings(m, A, n, k, 2); }); }
	for (unsigned n = 6; n <= maxB; ++n) add(("nesting alphabet, length " + std::to_string(n)).c_str(), 216, [n](Mc& m, uint64_t k) { strings(m, B, n, k, 3); });
	for (unsigned n = 9; n <= maxI; ++n) add(("indefinite alphabet, length " + std::to_string(n)).c_str(), 64, [n](Mc& m, uint64_t k) { strings(m, I, n, k, 3); });
	static std::vector<uint8_t> F; for (int i = 0; i < 256; ++i) F.push_back(i);
	add("all octets, length 2", 256, [](Mc& m, uint64_t k) { strings(m, F, 2, k, 1); });
	add("all octets, length 3", 256, [](Mc& m, uint64_t k) { strings(m, F, 3, k, 1); });
	if (th) add("all octets, length 4 (tag,length free; rest structural)", 256, [](Mc& m, uint64_t k) { Bytes v{ (uint8_t)k, (uint8_t)m.choose(256), A[m.choose(A.size())], A[m.choose(A.size())], A[m.choose(A.size())] }; check_bytes(m, v); });
	// generated elements, then: complete; truncated at every offset; followed by a second element
	add("generated elements", 4, [](Mc& m, uint64_t k) {
		Bytes v = gen(m, m.thorough ? 2 : 1);
		if (k == 0) pass(m, v);
		else if (k == 1) { size_t c = m.choose(v.size()); v.resize(c); pass(m, v); }
		else if (k == 2) { v.push_back(0x5A); v.push_back(0x01); v.push_back(0x7E); pass(m, v); }
		else { Bytes w{ 0x30, 0x80 }; w.insert(w.end(), v.begin(), v.end()); w.push_back(0); w.push_back(0); if (m.choose(2)) { w.push_back(0x5A); w.push_back(0); } pass(m, w); }
	});
	// deep indefinite nesting, optional loss of each EOC octet
	add("deep nesting", 12, [](Mc& m, uint64_t d) {
		Bytes v; for (uint64_t i = 0; i <= d; ++i) { v.push_back(0x30); v.push_back(0x80); }
		if (m.choose(2)) { v.push_back(0x02); v.push_back(0x01); v.push_back(0x00); }
		for (uint64_t i = 0; i <= d; ++i) { v.push_back(0); v.push_back(0); }
		size_t cut = m.choose(v.size() + 1); v.resize(cut);
		if (m.choose(2)) { v.push_back(0x9F); v.push_back(0x02); v.push_back(0x00); }
		check_bytes(m, v);
	});
	// hostile nesting: deeper than any stack allows
	add("very deep nesting", 6, [](Mc& m, uint64_t k) {
		static const size_t D[] = { 30, 1000, 20000, 100000, 300000, 600000 }; size_t d = D[k]; unsigned what = m.choose(6), def = m.choose(2);
		Bytes v; for (size_t i = 0; i < d; ++i) { v.push_back(i % 3 ? 0x30 : 0xE1); v.push_back(0x80); }
		if (def) { v.push_back(0x31); v.push_back(0x04); v.push_back(0); v.push_back(0x80); v.push_back(0x30); v.push_back(0x80); } // definite: its contents do not matter here
		for (size_t i = 0; i < d; ++i) { v.push_back(0); v.push_back(0); }
		size_t full = v.size(); bool ok = true;
		switch (what) { case 1: v.pop_back(); ok = false; break; case 2: v.resize(full - 2); ok = false; break; case 3: v.push_back(0x5A); v.push_back(0); break; case 4: v.resize(2 * d); ok = false; break; case 5: v[full - 1] = 1; ok = false; break; }
		Buf in(v); iso8825_tlv_t t; memset(&t, 0xA5, sizeof t); m.log("%zu levels, kind %u", d, what); m.step(2);
		int r = iso8825_ber_decode(in.p(), in.n(), &t);
		if (ok ? (r != (int)full || t.length != full - 4 || t.value != in.p() + 2 || t.tag != 0xE1 || !iso8825_ber_is_constructed(&t)) : r >= 0) m.fail("very_deep", "%zu nested fields of indefinite length, kind %u: got %d, value of %u bytes", d, what, r, t.length);
		if (d > 20000) { m.state(hmix(d, what)); return; }
		iso8825_ber_itr_t it; if (iso8825_ber_itr_init(in.p(), in.n(), &it)) m.fail("very_deep", "iterator");
		for (unsigned lvl = 0; lvl < 25 && ok; ++lvl) { r = iso8825_ber_itr_next(&it, &t); if (r <= 0 || t.length != 4 * (d - lvl) + (def ? 6 : 0) - 4) m.fail("very_deep", "level %u of %zu", lvl, d); if (iso8825_ber_itr_init(t.value, t.length, &it)) m.fail("very_deep", "iterator"); }
		m.state(hmix(d, what));
	});
	// long values at every length boundary, exact, one short, one over
	static const std::vector<uint32_t> L = { 0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 511, 4095, 65534, 65535, 65536, 65537 };
	add("length boundaries", L.size(), [](Mc& m, uint64_t k) {
		size_t n = L[k]; Bytes v = m.pick(PT);
		bool c = m.choose(2); if (c) v = m.pick(CT);
		unsigned f = m.choose(5); if (f && (n >> (8 * f))) return;
		if (!f && n > 65535) return;
		put_len(v, n, f);
		size_t have = n; switch (m.choose(4)) { case 1: if (n) --have; break; case 2: have += 3; break; case 3: have = n / 2; break; }
		v.resize(v.size() + have, 0x11); check_bytes(m, v);
	});
	// huge declared lengths
	add("huge declared lengths", 256, [](Mc& m, uint64_t k) {
		static const uint8_t S[] = { 0x00, 0x01, 0x7F, 0x80, 0xFE, 0xFF };
		Bytes v{ 0x5A, 0x84, (uint8_t)k, S[m.choose(6)], S[m.choose(6)], S[m.choose(6)] }; v.resize(v.size() + m.choose(4), 0); check_bytes(m, v);
	});
	// string classification of all universal (and other) tags
	add("string types", 1, [](Mc& m, uint64_t) {
		static const bool S[32] = { 0,0,0,0,0,0,0,1, 0,0,0,0,1,0,0,0, 0,0,1,1,1,1,1,1, 1,1,1,1,1,0,1,0 };
		uint32_t t = m.choose(0x400); iso8825_tlv_t tlv; memset(&tlv, 0, sizeof tlv); tlv.tag = t;
		bool e = t < 32 && S[t]; m.step();
		if (iso8825_ber_is_string(&tlv) != e) m.fail("is_string", "tag %X string=%d expected %d", t, !e, e);
		if (iso8825_ber_is_string(nullptr)) m.fail("is_string", "NULL is a string");
	});
	add("null arguments", 1, [](Mc& m, uint64_t) {
		uint8_t b[2] = { 0x5A, 0 }; iso8825_tlv_t t; iso8825_ber_itr_t i; unsigned tag; m.step(7);
		if (iso8825_ber_decode(nullptr, 2, &t) >= 0 || iso8825_ber_decode(b, 2, nullptr) >= 0 || iso8825_ber_tag_decode(nullptr, 1, &tag) >= 0 || iso8825_ber_tag_decode(b, 1, nullptr) >= 0 || iso8825_ber_itr_init(nullptr, 0, &i) >= 0 || iso8825_ber_itr_init(b, 2, nullptr) >= 0 || iso8825_ber_itr_next(nullptr, &t) >= 0)
			m.fail("null", "a missing argument was accepted");
	});
}
static struct Init { Init() { setup_hook = setup; } } init_;
