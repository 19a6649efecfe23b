// Independent statement of how an application is described by its data fields (EMV Book 1, 12.2)
#pragma once
#include "mc.h"
#include "refber.h"
#include "ref8859.h"
#include <string>
#include <vector>
#include <cctype>
typedef std::vector<uint8_t> Bytes;
using mc::hex;
static Bytes S(const char* s) { return Bytes(s, s + strlen(s)); }
static Bytes tlv(unsigned tag, const Bytes& v) { Bytes o; if (tag > 0xFF) o.push_back(tag >> 8); o.push_back(tag); if (v.size() > 127) o.push_back(0x81); o.push_back(v.size()); o.insert(o.end(), v.begin(), v.end()); return o; }
static void cat(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
struct F { unsigned tag; Bytes v; };
static bool ref_parse(const uint8_t* b, size_t n, std::vector<F>& out) {
	size_t p = 0; for (;;) { RefTlv t; long r = ref_ber(b + p, n - p, t); if (r < 0) return false; if (!r) return true;
		if (t.cons) { if (!ref_parse(b + p + t.off, t.len, out)) return false; } else out.push_back({ (unsigned)t.tag, Bytes(b + p + t.off, b + p + t.off + t.len) }); p += r; }
}
static const F* find(const std::vector<F>& l, unsigned t) { for (auto& f : l) if (f.tag == t) return &f; return nullptr; }
static void put(std::string& s, unsigned c) { if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } }
static bool ref_name(const std::vector<F>& f, unsigned aidtag, const std::vector<F>* pse, std::string& out) {
	const F* ct = find(pse ? *pse : f, 0x9F11); const F* pn = find(f, 0x9F12);
	if (ct && ct->v.size() == 1 && ct->v[0] >= 1 && ct->v[0] <= 15 && ct->v[0] != 12 && pn) {
		out.clear(); unsigned n = 0;
		for (uint8_t c : pn->v) { if (c < 0x20 || (c > 0x7E && c < 0xA0)) continue; if (n++ == 16) break; unsigned u = c < 0x80 ? c : ref8859[ct->v[0]][c - 0xA0]; std::string x; if (u) put(x, u); if (out.size() + x.size() > 32) break; out += x; }
		if (!out.empty()) return true;
	}
	const F* l = find(f, 0x50);
	if (l) { out.clear(); for (uint8_t c : l->v) if (((c | 0x20) >= 'a' && (c | 0x20) <= 'z') || (c >= '0' && c <= '9') || c == ' ') { if (out.size() < 32) out += (char)c; } if (!out.empty()) return true; }
	const F* a = find(f, aidtag); if (!a || a->v.empty()) return false; // nothing to display
	out = hex(a->v); for (char& c : out) c = toupper(c); out.resize(std::min<size_t>(32, out.size())); return true;
}
