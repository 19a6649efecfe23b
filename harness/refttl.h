// Independent reference terminal for one C-APDU: what has to be sent, and what has to be delivered,
// given the card/reader's answers (APDU mode, or T=0 TPDU mode).
#pragma once
#include <cstdint>
#include <vector>
typedef std::vector<uint8_t> Bytes;
enum St { SENDING, OK, ERR, ANY };        // ANY: behaviour not prescribed, only safety is judged
struct RefTtl {
	bool T; int kase; Bytes capdu; size_t cap;
	Bytes hdr; Bytes tx; size_t doff = 5, dend = 5; bool open = false; // outgoing data phase
	Bytes data; uint16_t sw = 0; bool have_sw = false; St st = SENDING;
	static int classify(const Bytes& c) { if (c.size() < 4) return 0; if (c.size() == 4) return 1; if (c.size() == 5) return 2; if (!c[4]) return 0; if (c.size() == 5u + c[4]) return 3; if (c.size() == 6u + c[4]) return 4; return 0; }
	RefTtl(const Bytes& c, size_t cap_, bool tpdu) : T(tpdu), capdu(c), cap(cap_) {
		kase = classify(c);
		if (!kase || cap < 2) { st = ERR; return; }
		if (!T) { tx = c; return; }
		hdr.assign(c.begin(), c.begin() + 4); hdr.push_back(kase == 1 ? 0 : c[4]); tx = hdr;
		if (kase >= 3) { open = true; dend = 5 + c[4]; }
	}
	void get_response(uint8_t le) { hdr = { 0x00, 0xC0, 0x00, 0x00, le }; tx = hdr; open = false; }
	void response(const Bytes& r) { // card/reader answered
		if (st != SENDING) return;
		if (r.empty()) { st = ERR; return; }
		if (kase == 1) { if (r.size() != 2) { st = ERR; return; } sw = r[0] << 8 | r[1]; st = OK; return; }
		if (r.size() == 1) {
			if (!T) { st = ERR; return; }
			uint8_t ins = hdr[1];
			if (r[0] == ins && open) { tx.assign(capdu.begin() + doff, capdu.begin() + dend); doff = dend; open = false; return; }
			if (r[0] == (uint8_t)~ins && open) { tx = { capdu[doff++] }; if (doff == dend) open = false; return; }
			st = ERR; return;
		}
		uint8_t s1 = r[r.size() - 2], s2 = r[r.size() - 1]; Bytes d(r.begin(), r.end() - 2);
		if ((s1 == 0x61 || s1 == 0x6C) && kase == 3) { st = ERR; return; }
		if (T && !d.empty()) { if (d[0] != hdr[1]) { st = ERR; return; } d.erase(d.begin()); if (d.empty() && kase == 3) { st = ANY; return; } if (d.empty() && kase == 4 && (s1 == 0x62 || s1 == 0x63) && !have_sw) { st = ANY; return; } }
		if (!d.empty()) {
			if (kase == 3) { st = ERR; return; }
			if (s1 == 0x6C) { st = ANY; return; } // aborted, yet with data
			if (data.size() + d.size() + 2 > cap) { st = ERR; return; }
			data.insert(data.end(), d.begin(), d.end());
		}
		if (s1 == 0x61) { get_response(s2); return; }
		if (s1 == 0x6C) {
			if (T) { hdr[4] = s2; tx = hdr; open = false; return; }
			if (tx.size() > 5) { tx.back() = s2; return; }
			tx.resize(4); tx.push_back(s2); return;
		}
		bool first = !have_sw; if (first) { have_sw = true; sw = s1 << 8 | s2; }
		if (first && kase == 4 && d.empty() && (s1 == 0x62 || s1 == 0x63)) { get_response(s1 == 0x62 && s2 >= 2 && s2 <= 0x80 ? s2 : 0); return; }
		st = OK;
	}
};

