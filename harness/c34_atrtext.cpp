// C34: what is said about an answer to reset. The texts of every interface byte, derived from an independent
// reading of the answer (refatr.h), for every structure and value of the spaces of C06 and every size of buffer.
#define ATR_WORLD_ONLY
#include "c06_atr.cpp"
#include <string>
#include <cmath>
#include <algorithm>
static std::string fmt(const char* s, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char* s, ...) { char b[400]; va_list a; va_start(a, s); vsnprintf(b, sizeof b, s, a); va_end(a); return b; }
static std::string yi(const RefAtr& r, unsigned i) { if (i > 4) return ""; std::string o = fmt("Y%u=", i), sep; auto one = [&](const char* n, int off) { if (off >= 0) { o += sep + n + std::to_string(i); sep = ","; } }; one("TA", r.ta[i]); one("TB", r.tb[i]); one("TC", r.tc[i]); one("TD", r.td[i]); return o; }
typedef std::vector<std::string> Texts; // the acceptable ones; empty: no text
static unsigned proto_of(const RefAtr& r, const Bytes& v, unsigned i) { return r.td[i - 1] >= 0 ? v[r.td[i - 1]] & 15 : 16; }
static bool first_of(const RefAtr& r, const Bytes& v, const int (&off)[5], unsigned i, unsigned T) { for (unsigned k = 3; k < i; ++k) if (off[k] >= 0 && proto_of(r, v, k) == T) return false; return true; }
static Texts want_ta(const RefAtr& r, const Bytes& v, unsigned i) {
	if (i == 1) return { fmt("Fi=%u; Di=%u; %g cycles/ETU @ max %.1fMHz; max %lu bit/s", r.Fi, r.Di, (double)r.Fi / r.Di, r.fmax, (unsigned long)floor(r.fmax * 1000000.0 * r.Di / r.Fi + 1e-9)) };
	if (i == 2) return { r.ta[2] < 0 ? "Negotiable mode" : fmt("Specific mode (%s); ETU%s; protocol T=%u", r.may_change ? "mutable" : "immutable", r.implicit ? " is implicit" : "=Fi/Di", r.sproto) };
	if (r.ta[i] < 0) return { "Unimplemented" };
	unsigned T = proto_of(r, v, i); std::string t = "Unimplemented";
	if (T == 15) { static const char* C[] = { "Not supported", "State L", "State H", "No preference" }; t = std::string("Clock stop: ") + C[r.clock] + "; Class: "; std::string sep; static const char* N[] = { "A (5V)", "B (3V)", "C (1.8V)" }; for (unsigned k = 0; k < 3; ++k) if (r.classes >> k & 1) { t += sep + N[k]; sep = ", "; } }
	if (T == 1) t = fmt("IFSI=%u", r.IFSI);
	if (first_of(r, v, r.ta, i, T)) return { t }; return { t, "Unimplemented" };
}
static Texts want_tb(const RefAtr& r, const Bytes& v, unsigned i) {
	bool up = r.tb[1] >= 0 && r.vpp_conn;
	if (i == 1) return { up ? fmt("Vpp is connected; Vpp=%umV; Ipp=%umA", r.vppc, r.ipp) : "Vpp is not connected" };
	if (i == 2) return { up && r.tb[2] >= 0 ? fmt("Vpp=%umV", r.vpp) : "Vpp is not connected" };
	if (r.tb[i] < 0) return { "Unimplemented" };
	unsigned T = proto_of(r, v, i); std::string t = "Unimplemented";
	if (T == 15) { static const char* S[] = { "SPU not used", "Standard usage of SPU", "Proprietary usage of SPU" }; t = S[r.spu]; }
	if (T == 1) t = fmt("CWT=%lu; BWT=%lu", (unsigned long)r.CWT, (unsigned long)r.BWT);
	if (first_of(r, v, r.tb, i, T)) return { t }; return { t, "Unimplemented" };
}
static Texts want_tc(const RefAtr& r, const Bytes& v, unsigned i) {
	if (i == 1) return { fmt("N=%u; GT=%u", r.N, r.GT) };
	if (i == 2) return { fmt("WI=%u; WT=%lu", r.WI, (unsigned long)r.WT) };
	if (r.tc[i] < 0 || proto_of(r, v, i) != 1) return { "Unimplemented" };
	std::string t = r.edc ? "Cyclic Redundancy Check (CRC)" : "Longitudinal Redundancy Check (LRC)";
	if (first_of(r, v, r.tc, i, 1)) return { t }; return { t, "Unimplemented" };
}
static Texts want_td(const RefAtr& r, const Bytes& v, unsigned i) { if (r.td[i] < 0) return {}; unsigned T = v[r.td[i]] & 15; return { yi(r, i + 1) + (T == 15 ? "; Global (T=15)" : fmt("; Protocol T=%u", T)) }; }
static bool all_sizes;
typedef const char* (*TextFn)(const iso7816_atr_info_t*, size_t, char*, size_t);
static const char* t0_(const iso7816_atr_info_t* a, size_t, char* s, size_t n) { return iso7816_atr_T0_get_string(a, s, n); }
static void text(Mc& m, const Bytes& v, const iso7816_atr_info_t* i, const char* name, unsigned k, TextFn fn, const Texts& want) {
	std::string full; { static char b[300]; memset(b, 0x5E, 300); const char* q = LIB(fn(i, k, b, 300)); m.step();
		if (want.empty()) { if (q) m.fail("absent", "ATR %s: %s%u is absent but described as %s", hex(v).c_str(), name, k, q); return; }
		if (!q) m.fail("text", "ATR %s: %s%u is not described", hex(v).c_str(), name, k); size_t n = strnlen(q, 300); if (n == 300) m.fail("text", "ATR %s: text of %s%u is not terminated", hex(v).c_str(), name, k); full.assign(q, n);
		if (std::find(want.begin(), want.end(), full) == want.end()) m.fail("text", "ATR %s: %s%u is described as \"%s\", expected \"%s\"", hex(v).c_str(), name, k, full.c_str(), want[0].c_str()); }
	size_t L = full.size(); std::vector<size_t> sizes; if (all_sizes) for (size_t z = 1; z <= L + 2; ++z) sizes.push_back(z); else return;
	for (size_t z : sizes) { Buf b(z, 0x5E); const char* q = LIB(fn(i, k, (char*)b.p(), z)); m.step(); if (!q) m.fail("room", "ATR %s: %s%u is not described in %zu bytes", hex(v).c_str(), name, k, z); if (q != (char*)b.p()) { if (full != q) m.fail("room", "ATR %s: %s%u in %zu bytes is another text", hex(v).c_str(), name, k, z); continue; }
		size_t n = strnlen(q, z); if (n == z) m.fail("room", "ATR %s: text of %s%u in %zu bytes is not terminated", hex(v).c_str(), name, k, z); if (full.compare(0, n, q, n) || (z > L && n != L)) m.fail("room", "ATR %s: text of %s%u in %zu bytes is \"%s\" instead of the beginning of \"%s\"", hex(v).c_str(), name, k, z, q, full.c_str()); }
}
static const char* t1_text(uint8_t t) { return t == 0 ? "COMPACT-TLV followed by mandatory status indicator" : t == 0x10 ? "DIR data reference" : t == 0x80 ? "COMPACT-TLV including optional status indicator" : t > 0x80 && t <= 0x8F ? "RFU" : "Proprietary"; }
static void judge(Mc& m, const Bytes& v) {
	RefAtr r = ref_atr(v.data(), v.size()); m.log("ATR %s", hex(v).c_str()); if (!r.ok) { m.skip(); return; }
	Buf ib(sizeof(iso7816_atr_info_t), 0xE7); auto* i = (iso7816_atr_info_t*)ib.p(); int rc; { Buf b(v); rc = LIB(iso7816_atr_parse(b.p(), b.n(), i)); } m.step(); if (rc) { m.skip(); return; } // C06
	const char* q = LIB(iso7816_atr_TS_get_string(i)); if (!q || std::string(q) != (v[0] == 0x3B ? "Direct convention" : "Inverse convention")) m.fail("text", "ATR %s: TS is described as %s", hex(v).c_str(), q ? q : "nothing");
	q = LIB(iso7816_atr_T1_get_string(i)); if (r.K ? !q || std::string(q) != t1_text(r.T1) : q != nullptr) m.fail("text", "ATR %s: T1 is described as \"%s\"", hex(v).c_str(), q ? q : "nothing");
	text(m, v, i, "T", 0, t0_, { yi(r, 1) + fmt("; K=%u", r.K) });
	for (unsigned k = 1; k <= 4; ++k) { text(m, v, i, "TA", k, iso7816_atr_TAi_get_string, want_ta(r, v, k)); text(m, v, i, "TB", k, iso7816_atr_TBi_get_string, want_tb(r, v, k)); text(m, v, i, "TC", k, iso7816_atr_TCi_get_string, want_tc(r, v, k)); text(m, v, i, "TD", k, iso7816_atr_TDi_get_string, want_td(r, v, k)); }
	for (unsigned k : { 0u, 5u, 6u, 256u }) { char s[300]; if (LIB(iso7816_atr_TAi_get_string(i, k, s, sizeof s)) || LIB(iso7816_atr_TBi_get_string(i, k, s, sizeof s)) || LIB(iso7816_atr_TCi_get_string(i, k, s, sizeof s)) || LIB(iso7816_atr_TDi_get_string(i, k, s, sizeof s))) m.fail("absent", "there is no interface byte %u", k); }
	uint64_t h = 1; for (unsigned k = 1; k <= 4; ++k) h = hmix(hmix(h, (r.ta[k] >= 0 ? v[r.ta[k]] + 1 : 0) * 1000 + (r.tb[k] >= 0 ? v[r.tb[k]] + 1 : 0)), (r.tc[k] >= 0 ? v[r.tc[k]] + 1 : 0) * 1000 + (r.td[k] >= 0 ? v[r.td[k]] + 1 : 0)); m.state(hmix(h, r.T1)); m.cover(r.specific ? "specific mode" : "negotiable mode"); if (r.vpp_conn && r.tb[1] >= 0) m.cover("programming voltage"); for (unsigned k = 3; k <= 4; ++k) if (r.ta[k] >= 0 || r.tb[k] >= 0) m.cover(proto_of(r, v, k) == 15 ? "global parameters" : proto_of(r, v, k) == 1 ? "T=1 parameters" : "other parameters");
}
#undef setup
static void setup34() {
	atr_setup();
	add("buffer sizes", 16 * 16, [](Mc& m, uint64_t o) { Shape s; s.y[1] = o % 16; s.y[2] = o / 16; if (!(s.y[1] & 8)) { if (s.y[2]) { m.skip(); return; } } else { s.t[1] = m.choose(2); if (s.y[2] & 8) { s.t[2] = s.t[1] && m.choose(2) ? 1 : 15; s.y[3] = m.choose(16); if (s.y[3] & 8) { s.t[3] = m.choose(2) ? 1 : 15; s.y[4] = m.choose(8); } } } Built b = render(s, s.t[1]); all_sizes = true; struct Off { ~Off() { all_sizes = false; } } off; finish(m, b, m.choose(2) ? 15 : 0, 0); });
	add("buffer sizes of values", 256, [](Mc& m, uint64_t x) { Shape s; s.y[1] = 15; s.y[2] = 15; s.y[3] = 15; s.y[4] = 7; s.t[1] = m.choose(2); s.t[2] = s.t[1] ? 1 : 15; s.t[3] = 15; Built b = render(s, s.t[1]); unsigned k = m.choose(3), i = 1 + m.choose(4); b.v[b.off[k][i]] = x; all_sizes = true; struct Off { ~Off() { all_sizes = false; } } off; finish(m, b, 0, 0); });
	add("historical categories", 256, [](Mc& m, uint64_t x) { unsigned n = 1 + m.choose(15); unsigned ts = m.choose(2); Bytes v{ (uint8_t)(ts ? 0x3F : 0x3B), (uint8_t)n }; Bytes h{ (uint8_t)x }; while (h.size() < n) h.push_back(0x00); v.insert(v.end(), h.begin(), h.end()); judge(m, v); });
	add("both conventions", 256, [](Mc& m, uint64_t x) { unsigned at = m.choose(3); Bytes v{ (uint8_t)(m.choose(2) ? 0x3F : 0x3B), (uint8_t)(at == 0 ? 0x10 : at == 1 ? 0x70 : 0x80) }; if (at == 0) v.push_back(x); if (at == 1) { v.push_back(x); v.push_back(m.choose(2) ? 0x25 : 0x79); v.push_back(m.choose(256)); } if (at == 2) { v.push_back(0x10 | m.choose(2)); v.push_back(x); if (v[2] & 1) fix_tck(v); } judge(m, v); });
	add("arguments", 1, [](Mc& m, uint64_t) { char s[64]; m.step(7); if (iso7816_atr_TS_get_string(nullptr) || iso7816_atr_T0_get_string(nullptr, s, 64) || iso7816_atr_TAi_get_string(nullptr, 1, s, 64) || iso7816_atr_TBi_get_string(nullptr, 1, s, 64) || iso7816_atr_TCi_get_string(nullptr, 1, s, 64) || iso7816_atr_TDi_get_string(nullptr, 1, s, 64) || iso7816_atr_T1_get_string(nullptr)) m.fail("argument", "a missing answer to reset is described"); });
}
static struct Init34 { Init34() { setup_hook = setup34; } } init34_;
