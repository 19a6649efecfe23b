// Independent reference of ISO 7816-3 ATR decoding (written from the standard's tables)
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <map>
struct RefAtr {
	bool ok = false, loose_si = false; const char* why = "";
	uint8_t TS = 0, T0 = 0; int ta[5], tb[5], tc[5], td[5]; // offset of each byte, -1 when absent
	unsigned K = 0; uint8_t T1 = 0; int hist = -1; size_t hist_len = 0; int si = -1; size_t si_len = 0;
	bool has_tck = false; uint8_t tck = 0; uint8_t lcs = 0, sw1 = 0, sw2 = 0;
	unsigned Di = 1, Fi = 372; double fmax = 5; bool vpp_conn = true; unsigned vpp = 5000, vppc = 5000, ipp = 50;
	unsigned N = 0, GT = 12, proto = 0; bool specific = false; unsigned sproto = 0; bool implicit = false, may_change = false;
	unsigned classes = 1, clock = 0, spu = 0, WI = 10, IFSI = 32, CWI = 13, BWI = 4; unsigned CGT = 12; uint64_t WT = 0, CWT = 0, BWT = 0; int edc = 0;
};
inline RefAtr ref_atr(const uint8_t* a, size_t n) {
	RefAtr r; auto bad = [&](const char* w) { r.ok = false; r.why = w; return r; };
	for (int i = 0; i < 5; ++i) r.ta[i] = r.tb[i] = r.tc[i] = r.td[i] = -1;
	if (n < 2 || n > 33) return bad("length");
	r.TS = a[0]; if (a[0] != 0x3B && a[0] != 0x3F) return bad("TS");
	r.T0 = a[1]; r.K = a[1] & 15;
	// structure
	size_t p = 2; unsigned y = a[1] >> 4; bool need_tck = false; int T[6] = { 0, 0, 0, 0, 0, 0 }; // T[i]: protocol announced by TD(i-1), governs TA(i)..
	for (int i = 1; i <= 4 && y; ++i) {
		if (y & 1) r.ta[i] = (int)p++;
		if (y & 2) r.tb[i] = (int)p++;
		if (y & 4) r.tc[i] = (int)p++;
		if (y & 8) { r.td[i] = (int)p++; if (p > n) return bad("truncated interface bytes"); unsigned t = a[r.td[i]] & 15; y = a[r.td[i]] >> 4; T[i + 1] = t;
			if (i == 1 ? t > 1 : (t != 0 && t != 1 && t != 15)) return bad("protocol");
			if (t) need_tck = true;
			if (i == 4 && y) return bad("more interface bytes than can be represented");
		} else y = 0;
	}
	if (p > n) return bad("truncated interface bytes");
	// values
	if (r.ta[1] >= 0) {
		static const std::map<unsigned, unsigned> D = { {1,1},{2,2},{3,4},{4,8},{5,16},{6,32},{7,64},{8,12},{9,20} };
		static const std::map<unsigned, std::pair<unsigned, double>> F = { {0,{372,4}},{1,{372,5}},{2,{558,6}},{3,{744,8}},{4,{1116,12}},{5,{1488,16}},{6,{1860,20}},{9,{512,5}},{10,{768,7.5}},{11,{1024,10}},{12,{1536,15}},{13,{2048,20}} };
		auto d = D.find(a[r.ta[1]] & 15); auto f = F.find(a[r.ta[1]] >> 4); if (d == D.end() || f == F.end()) return bad("TA1"); r.Di = d->second; r.Fi = f->second.first; r.fmax = f->second.second;
	}
	if (r.tb[1] >= 0) { uint8_t v = a[r.tb[1]]; if (!v) r.vpp_conn = false; else { unsigned pi = v & 31, ii = v >> 5 & 3; if (pi < 5 || pi > 25 || ii == 3) return bad("TB1"); r.vppc = r.vpp = pi * 1000; r.ipp = ii == 0 ? 25 : ii == 1 ? 50 : 100; } }
	if (r.tc[1] >= 0) r.N = a[r.tc[1]];
	if (r.td[1] >= 0) r.proto = a[r.td[1]] & 15;
	if (r.ta[2] >= 0) { uint8_t v = a[r.ta[2]]; r.specific = true; r.sproto = v & 15; r.implicit = v & 0x10; r.may_change = !(v & 0x80); }
	if (r.tb[2] >= 0) { uint8_t v = a[r.tb[2]]; if (!r.vpp_conn || v < 50 || v > 250) return bad("TB2"); r.vpp = v * 100; }
	if (r.tc[2] >= 0) { r.WI = a[r.tc[2]]; if (!r.WI) return bad("TC2"); }
	bool ta15 = false, ta1 = false, tb15 = false, tb1 = false, tc1 = false;
	for (int i = 3; i <= 4; ++i) {
		if (r.ta[i] >= 0) { uint8_t v = a[r.ta[i]];
			if (T[i] == 15 && !ta15) { ta15 = true; if ((v & 63) < 1 || (v & 63) > 7) return bad("TA T=15"); r.classes = v & 63; r.clock = v >> 6; }
			if (T[i] == 1 && !ta1) { ta1 = true; if (v == 0 || v == 255) return bad("TA T=1"); r.IFSI = v; } }
		if (r.tb[i] >= 0) { uint8_t v = a[r.tb[i]];
			if (T[i] == 15 && !tb15) { tb15 = true; r.spu = v == 0 ? 0 : v & 0x80 ? 2 : 1; }
			if (T[i] == 1 && !tb1) { tb1 = true; if (v >> 4 > 9) return bad("TB T=1"); r.CWI = v & 15; r.BWI = v >> 4; } }
		if (r.tc[i] >= 0 && T[i] == 1 && !tc1) { tc1 = true; r.edc = a[r.tc[i]] & 1; }
	}
	if (r.N == 255) { r.GT = r.proto == 1 ? 11 : 12; r.CGT = 11; } else r.GT = r.CGT = 12 + r.N;
	r.WT = 960ull * r.WI * r.Di; r.CWT = 11 + (1ull << r.CWI); r.BWT = 11 + (1ull << r.BWI) * 960 * 372 * r.Di / r.Fi;
	// historical bytes
	if (p + r.K > n) return bad("truncated historical bytes");
	if (r.K) {
		r.T1 = a[p]; r.hist = (int)p + 1; r.hist_len = r.K - 1; size_t end = p + r.K;
		if (r.T1 == 0) { if (r.K < 4) return bad("status indicator missing"); r.hist_len -= 3; r.si = r.hist + (int)r.hist_len; r.si_len = 3; }
		if (r.T1 == 0 || r.T1 == 0x80) {
			size_t q = r.hist, e = q + r.hist_len;
			while (q < e) { unsigned tag = a[q] >> 4, len = a[q] & 15; if (q + 1 + len > e) return bad("historical bytes"); if (tag == 8) { if (r.T1 == 0) r.loose_si = true; else { r.si = (int)q + 1; r.si_len = len; } } q += 1 + len; }
		}
		p = end;
	}
	if (need_tck) { if (p >= n) return bad("TCK missing"); uint8_t x = 0; for (size_t i = 1; i <= p; ++i) x ^= a[i]; if (x) return bad("TCK wrong"); r.has_tck = true; r.tck = a[p]; }
	if (r.si >= 0) { const uint8_t* s = a + r.si; if (r.si_len == 1) r.lcs = s[0]; if (r.si_len == 2) { r.sw1 = s[0]; r.sw2 = s[1]; } if (r.si_len == 3) { r.lcs = s[0]; r.sw1 = s[1]; r.sw2 = s[2]; } }
	r.ok = true; return r;
}
// EMV Level 1 Contact Interface v1.0, 8.3 acceptance (on top of ISO 7816-3 validity)
inline bool ref_emv_atr(const RefAtr& r, const uint8_t* a) {
	if (!r.ok) return false;
	unsigned t1 = r.td[1] >= 0 ? a[r.td[1]] & 15 : 0;
	if (r.ta[2] >= 0) { uint8_t v = a[r.ta[2]]; if ((v & 15) != t1 || (v & 0x10)) return false; if (r.ta[1] >= 0 && (a[r.ta[1]] < 0x11 || a[r.ta[1]] > 0x13)) return false; }
	else if (r.ta[1] >= 0 && (a[r.ta[1]] >> 4 == 0 || (a[r.ta[1]] & 15) < 3)) return false;
	if (r.tc[1] >= 0 && a[r.tc[1]] != 0 && a[r.tc[1]] != 255) return false;
	if (r.tc[2] >= 0 && (t1 != 0 || a[r.tc[2]] != 0x0A)) return false;
	if (r.td[2] >= 0) { unsigned t2 = a[r.td[2]] & 15; if (t1 == 0 && t2 != 15) return false; if (t1 == 1 && t2 != 1) return false; }
	else if (t1 == 1) return false;
	if (t1 == 1) { // T=1 parameters
		if (r.ta[3] >= 0 && a[r.ta[3]] < 0x10) return false;
		if (r.tb[3] < 0) return false;
		unsigned bwi = a[r.tb[3]] >> 4, cwi = a[r.tb[3]] & 15; if (bwi > 4 || cwi > 5) return false;
		int N = r.N == 255 ? -1 : (int)r.N; if (r.N == 0) cwi = 1; if ((1 << cwi) < N + 1) return false;
		if (r.tc[3] >= 0 && a[r.tc[3]] != 0) return false;
	}
	return true;
}
