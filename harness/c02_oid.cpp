// C02: object identifier decoding
#include "mc.h"
#include <iso8825_ber.h>
using namespace mc;
typedef std::vector<uint8_t> Bytes;
enum { MAXARC = sizeof(((iso8825_oid_t*)0)->value) / sizeof(uint32_t) };

// reference: -1 error; arcs otherwise
static bool ref_oid(const Bytes& v, std::vector<uint64_t>& arcs) {
	std::vector<unsigned __int128> sub; unsigned __int128 cur = 0; bool open = false;
	for (uint8_t b : v) {
		cur = (cur << 7) | (b & 0x7F); open = b & 0x80;
		if (cur > ((unsigned __int128)1 << 100)) cur = (unsigned __int128)1 << 100; // saturate
		if (!open) { sub.push_back(cur); cur = 0; }
	}
	if (v.empty() || open) return false;
	for (auto s : sub) if (s > 0xFFFFFFFFu) return false;
	uint64_t f = (uint64_t)sub[0];
	uint64_t a = f / 40 > 2 ? 2 : f / 40;
	arcs = { a, f - 40 * a };
	for (size_t i = 1; i < sub.size(); ++i) arcs.push_back((uint64_t)sub[i]);
	return arcs.size() <= MAXARC;
}
static void check(Mc& m, const Bytes& v) {
	m.log("encoding %s", hex(v).c_str());
	std::vector<uint64_t> arcs; bool ok = ref_oid(v, arcs);
	Buf in(v), out(sizeof(iso8825_oid_t), 0xA5);
	iso8825_oid_t* o = (iso8825_oid_t*)out.p();
	int r = iso8825_ber_oid_decode(in.p(), in.n(), o); m.step();
	if (ok != (r == 0) || r > 0) m.fail("result", "%s: returned %d, expected %s", hex(v).c_str(), r, ok ? "success" : "error");
	if (ok) {
		if (o->length != arcs.size()) m.fail("length", "%s: %u arcs, expected %zu", hex(v).c_str(), o->length, arcs.size());
		for (size_t i = 0; i < arcs.size(); ++i) if (o->value[i] != arcs[i]) m.fail("arc", "%s: arc %zu is %u, expected %llu", hex(v).c_str(), i, o->value[i], (unsigned long long)arcs[i]);
	}
	uint64_t h = ok; for (auto a : arcs) h = hmix(h, a);
	m.state(h); m.cover(ok ? (arcs[0] == 2 && arcs[1] >= 48 ? "joint with large second arc" : "decoded") : "rejected");
}
static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough");
	static const Bytes A = { 0x00, 0x01, 0x27, 0x28, 0x4F, 0x50, 0x7F, 0x81, 0x88, 0x8F, 0x90, 0xFF };
	unsigned mx = th ? 7 : 6;
	for (unsigned n = 0; n <= mx; ++n) add(("structural alphabet length " + std::to_string(n)).c_str(), n ? 12 : 1, [n](Mc& m, uint64_t k) { Bytes v; if (n) v.push_back(A[k]); while (v.size() < n) v.push_back(A[m.choose(A.size())]); check(m, v); });
	add("all octets length 1..2", 256, [](Mc& m, uint64_t k) { Bytes v{ (uint8_t)k }; unsigned c = m.choose(257); if (c) v.push_back(c - 1); check(m, v); });
	add("all octets length 3", 256, [](Mc& m, uint64_t k) { Bytes v{ (uint8_t)k, (uint8_t)m.choose(256), (uint8_t)m.choose(256) }; check(m, v); });
	// arc counts around the capacity of the result, arcs of every size, long tails
	add("arc counts and sizes", 64, [](Mc& m, uint64_t n) {
		static const Bytes arc[] = { {0x01}, {0x81, 0x00}, {0x8F, 0xFF, 0xFF, 0xFF, 0x7F}, {0x90, 0x80, 0x80, 0x80, 0x00}, {0x83, 0xFF, 0xFF, 0x7F} };
		Bytes v{ 0x2A }; unsigned big = m.choose(5), where = m.choose(n ? n : 1);
		for (unsigned i = 0; i < n; ++i) { const Bytes& a = arc[i == where ? big : 0]; v.insert(v.end(), a.begin(), a.end()); }
		if (m.choose(2)) v.push_back(0x81); // unfinished last arc
		check(m, v);
	});
	add("first subidentifier", 256, [](Mc& m, uint64_t k) { static const uint8_t S[] = { 0x80, 0x81, 0x8F, 0xFF }; Bytes v; unsigned c = m.choose(5); for (unsigned i = 0; i < c; ++i) v.push_back(S[m.choose(4)]); v.push_back(k & 0x7F); if (k & 0x80) v.push_back(0x05); check(m, v); });
	add("runs of one octet", 256, [](Mc& m, uint64_t k) { Bytes v(m.choose(128), (uint8_t)k); if (m.choose(2)) v.push_back(0); check(m, v); });
	add("null arguments", 1, [](Mc& m, uint64_t) { uint8_t b = 1; iso8825_oid_t o; m.step(2); if (iso8825_ber_oid_decode(nullptr, 1, &o) >= 0 || iso8825_ber_oid_decode(&b, 1, nullptr) >= 0) m.fail("null", "missing argument accepted"); });
}
static struct Init { Init() { setup_hook = setup; } } init_;
