// C20: application file locator and cardholder verification method list decoding
#include "mc.h"
#include <emv_fields.h>
using namespace mc;
typedef std::vector<uint8_t> Bytes;
static bool afl_ok(const uint8_t* e) {
	if (e[0] % 8) return false;                       // three low bits are zero
	unsigned sfi = e[0] / 8; if (sfi < 1 || sfi > 30) return false;
	if (!e[1] || e[2] < e[1]) return false;
	return e[3] <= 1 + e[2] - e[1];
}
static void afl(Mc& m, const Bytes& v) {
	if (m.tracing) m.log("locator %s", hex(v).c_str());
	Buf b(v); struct emv_afl_itr_t it; memset(&it, 0xEE, sizeof it);
	int r = emv_afl_itr_init(b.p(), b.n(), &it); m.step();
	bool ok = !v.empty() && v.size() % 4 == 0 && v.size() <= 252;
	if (ok != (r == 0)) m.fail("afl-length", "locator of %zu bytes: initialisation returned %d", v.size(), r);
	if (!v.empty() && r < 0) m.fail("afl-length", "locator of %zu bytes: malformed data reported as internal error %d", v.size(), r);
	m.state(hmix(v.size(), r == 0));
	if (!ok) { m.cover("locator refused"); return; }
	uint64_t h = 1;
	for (size_t p = 0;; p += 4) {
		struct emv_afl_entry_t e; memset(&e, 0xEE, sizeof e);
		r = emv_afl_itr_next(&it, &e); m.step();
		if (p == v.size()) { if (r != 0) m.fail("afl-end", "%s: end of data reported as %d", hex(v).c_str(), r); if (emv_afl_itr_next(&it, &e) != 0) m.fail("afl-end", "end of data not stable"); m.cover("locator complete"); break; }
		const uint8_t* q = &v[p];
		if (!afl_ok(q)) { if (r >= 0) m.fail("afl-entry", "%s: malformed entry at %zu returned %d", hex(v).c_str(), p, r);
			if (emv_afl_itr_next(&it, &e) >= 0) m.fail("afl-skip", "%s: error at %zu does not persist", hex(v).c_str(), p);
			m.cover("entry refused"); h = hmix(h, 7); break; }
		if (r != 4) m.fail("afl-entry", "%s: entry at %zu returned %d", hex(v).c_str(), p, r);
		if (e.sfi != q[0] / 8 || e.first_record != q[1] || e.last_record != q[2] || e.oda_record_count != q[3]) m.fail("afl-value", "%s: entry at %zu decoded as file %u records %u to %u, %u authenticated", hex(v).c_str(), p, e.sfi, e.first_record, e.last_record, e.oda_record_count);
		h = hmix(h, q[0]); h = hmix(h, q[1] | q[2] << 8 | q[3] << 16);
	}
	m.state(h);
}
static void cvm(Mc& m, const Bytes& v) {
	if (m.tracing) m.log("verification method list %s", hex(v).c_str());
	Buf b(v); struct emv_cvmlist_itr_t it; struct emv_cvmlist_amounts_t a; memset(&it, 0xEE, sizeof it); memset(&a, 0xEE, sizeof a);
	int r = emv_cvmlist_itr_init(b.p(), b.n(), &a, &it); m.step();
	bool ok = v.size() >= 10 && v.size() % 2 == 0 && v.size() <= 252;
	if (ok != (r == 0)) m.fail("cvm-length", "list of %zu bytes: initialisation returned %d", v.size(), r);
	if (!v.empty() && r < 0) m.fail("cvm-length", "list of %zu bytes: malformed data reported as internal error %d", v.size(), r);
	m.state(hmix(v.size() + 1000, r == 0));
	if (!ok) { m.cover("list refused"); return; }
	uint32_t X = (uint32_t)v[0] * 16777216u + v[1] * 65536u + v[2] * 256u + v[3], Y = (uint32_t)v[4] * 16777216u + v[5] * 65536u + v[6] * 256u + v[7];
	if (a.X != X || a.Y != Y) m.fail("cvm-amount", "%s: amounts decoded as %u and %u", hex(v).c_str(), a.X, a.Y);
	uint64_t h = hmix(hmix(2, X), Y);
	for (size_t p = 8;; p += 2) {
		struct emv_cv_rule_t e; memset(&e, 0xEE, sizeof e);
		r = emv_cvmlist_itr_next(&it, &e); m.step();
		if (p == v.size()) { if (r != 0) m.fail("cvm-end", "%s: end of data reported as %d", hex(v).c_str(), r); if (emv_cvmlist_itr_next(&it, &e) != 0) m.fail("cvm-end", "end of data not stable"); m.cover("list complete"); break; }
		if (r != 2) m.fail("cvm-rule", "%s: rule at %zu returned %d", hex(v).c_str(), p, r);
		if (e.cvm != v[p] || e.cvm_cond != v[p + 1]) m.fail("cvm-rule", "%s: rule at %zu decoded as %02X %02X", hex(v).c_str(), p, e.cvm, e.cvm_cond);
		h = hmix(h, v[p] << 8 | v[p + 1]);
	}
	m.state(h);
}
// all values of the last two bytes of one entry, at a position given by the prefix
static void afl_block(Mc& m, const Bytes& pre, uint8_t b0, uint8_t b1) {
	Bytes v = pre; v.insert(v.end(), { b0, b1, 0, 0 }); uint8_t* q = &v[v.size() - 4];
	Buf b(v); uint64_t n = 0; uint8_t* bq = b.p() + v.size() - 4;
	for (unsigned l = 0; l < 256; ++l) for (unsigned o = 0; o < 256; ++o) {
		q[2] = bq[2] = l; q[3] = bq[3] = o; n += 2;
		struct emv_afl_itr_t it; struct emv_afl_entry_t e;
		int r = emv_afl_itr_init(b.p(), b.n(), &it);
		for (size_t p = 0; !r && p < pre.size(); p += 4) r = emv_afl_itr_next(&it, &e) == 4 ? 0 : 99;
		memset(&e, 0xEE, sizeof e);
		if (!r) r = emv_afl_itr_next(&it, &e);
		bool ok = afl_ok(q);
		if (ok ? r != 4 || e.sfi != b0 / 8 || e.first_record != b1 || e.last_record != l || e.oda_record_count != o : r >= 0) { afl(m, v); m.fail("afl-entry", "%s: returned %d", hex(v).c_str(), r); }
		if (ok && emv_afl_itr_next(&it, &e) != 0) m.fail("afl-end", "%s: end not recognised", hex(v).c_str());
	}
	m.step(n); m.state(hmix(b0, b1));
}
static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough");
	// any record range with any number of authenticated records
	static const Bytes SF = [] { Bytes x; for (int i = 0; i < 256; ++i) x.push_back(i); return x; }();
	add("all record ranges and authenticated counts", SF.size() * 256, [](Mc& m, uint64_t k) { afl_block(m, {}, SF[k / 256], k % 256); });
	add("all file bytes at boundary ranges", 256, [](Mc& m, uint64_t k) { static const Bytes B = { 0, 1, 2, 3, 0x7F, 0x80, 0xFE, 0xFF }; Bytes v{ (uint8_t)k }; for (int i = 0; i < 3; ++i) v.push_back(B[m.choose(B.size())]); afl(m, v); });
	add("pairs of entries", 256, [](Mc& m, uint64_t k) { static const Bytes B = { 0, 1, 2, 0xFF }; static const Bytes S = { 0x00, 0x08, 0x09, 0x10, 0x0C, 0x80, 0xF0, 0xF8 };
		Bytes v{ S[k / 32] , B[k / 8 % 4], B[k / 2 % 4], (uint8_t)(k % 2 + (k / 2 % 4 == 3)), S[m.choose(8)] }; for (int i = 0; i < 3; ++i) v.push_back(B[m.choose(4)]); unsigned cut = m.choose(3); while (cut--) v.pop_back(); afl(m, v); });
	add("locator of every length, one entry altered", 300, [](Mc& m, uint64_t n) { Bytes v; for (unsigned i = 0; i < n; ++i) v.push_back(i % 4 == 0 ? 8 * (1 + i / 4 % 30) : i % 4 == 3 ? i / 4 % 3 : i % 4 == 1 ? 1 + i / 4 : 2 + i / 4 + i / 8);
		for (size_t i = 2; i < v.size(); i += 4) if (v[i] < v[i - 1] + 1) v[i] = v[i - 1] + 1;
		unsigned at = m.choose((n + 3) / 4 + 1); if (at) switch (m.choose(n % 4 || n > 252 ? 1 : 6)) { case 0: v[(at - 1) * 4] |= 1; break; case 1: v[(at - 1) * 4] = 0; break; case 2: v[(at - 1) * 4] = 0xF8; break; case 3: v[(at - 1) * 4 + 1] = 0; break; case 4: v[(at - 1) * 4 + 2] = v[(at - 1) * 4 + 1] - 1; break; case 5: v[(at - 1) * 4 + 3] = 2 + v[(at - 1) * 4 + 2] - v[(at - 1) * 4 + 1]; break; }
		afl(m, v); });
	static const Bytes A = { 0x00, 0x01, 0x08, 0x10, 0x80, 0xF8, 0xFF };
	for (unsigned n = 0; n <= (th ? 8u : 6u); ++n) add(("locator strings of length " + std::to_string(n)).c_str(), n ? A.size() : 1, [n](Mc& m, uint64_t k) { Bytes v; if (n) v.push_back(A[k]); while (v.size() < n) v.push_back(A[m.choose(A.size())]); afl(m, v); });
	add("list of every length", 300, [](Mc& m, uint64_t n) { Bytes v; unsigned pat = m.choose(3); for (unsigned i = 0; i < n; ++i) v.push_back(pat == 0 ? i + 1 : pat == 1 ? 0 : 255 - i); cvm(m, v); });
	add("amount bytes", 8, [](Mc& m, uint64_t at) { Bytes v{ 0, 0, 0, 0, 0, 0, 0, 0, 0x1F, 0x03 }; unsigned pat = m.choose(4); for (int i = 0; i < 8; ++i) v[i] = pat == 0 ? 0 : pat == 1 ? 0xFF : pat == 2 ? 0x80 + i : 0x11 * i; v[at] = m.choose(256); cvm(m, v); });
	add("amount corner values", 625, [](Mc& m, uint64_t k) { static const Bytes B = { 0, 1, 0x7F, 0x80, 0xFF }; Bytes v; for (int i = 0; i < 4; ++i, k /= 5) v.push_back(B[k % 5]); for (int i = 0; i < 4; ++i) v.push_back(B[m.choose(5)]); v.push_back(0x42); v.push_back(0x03); cvm(m, v); });
	add("all rules at each of three positions", 256, [](Mc& m, uint64_t k) { unsigned c = m.choose(256); for (unsigned at = 0; at < 3; ++at) { Bytes v{ 0, 0, 0, 1, 0, 0, 0, 2, 0x42, 0x01, 0x5E, 0x03, 0x1F, 0x00 }; v[8 + 2 * at] = k; v[9 + 2 * at] = c; cvm(m, v); } });
	static const Bytes R = { 0x00, 0x01, 0x1F, 0x3F, 0x40, 0x80, 0xFF };
	for (unsigned n = 2; n <= (th ? 6u : 5u); ++n) add(("rule strings of length " + std::to_string(n)).c_str(), R.size(), [n](Mc& m, uint64_t k) { Bytes v{ 0, 0, 0x12, 0x34, 0, 0, 0, 5, R[k] }; while (v.size() < 8 + n) v.push_back(R[m.choose(R.size())]); cvm(m, v); });
	add("arguments", 1, [](Mc& m, uint64_t) { uint8_t a[12] = { 8, 1, 1 }; struct emv_afl_itr_t ai; struct emv_afl_entry_t ae; struct emv_cvmlist_itr_t ci; struct emv_cvmlist_amounts_t ca; struct emv_cv_rule_t cr; m.step(12);
		if (emv_afl_itr_init(nullptr, 4, &ai) >= 0 || emv_afl_itr_init(a, 4, nullptr) >= 0 || emv_afl_itr_next(nullptr, &ae) >= 0 || emv_cvmlist_itr_init(nullptr, 10, &ca, &ci) >= 0 || emv_cvmlist_itr_init(a, 10, nullptr, &ci) >= 0 || emv_cvmlist_itr_init(a, 10, &ca, nullptr) >= 0 || emv_cvmlist_itr_next(nullptr, &cr) >= 0) m.fail("null", "missing argument accepted");
		emv_afl_itr_init(a, 4, &ai); emv_cvmlist_itr_init(a, 10, &ca, &ci); if (emv_afl_itr_next(&ai, nullptr) >= 0 || emv_cvmlist_itr_next(&ci, nullptr) >= 0) m.fail("null", "missing output accepted");
		if (emv_afl_itr_next(&ai, &ae) != 4 || emv_cvmlist_itr_next(&ci, &cr) != 2) m.fail("null", "refused call consumed data"); });
}
static struct Init { Init() { setup_hook = setup; } } init_;
