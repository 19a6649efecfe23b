// Independent statement of data object list decoding and building (EMV Book 3, 5.4)
#pragma once
#include "refber.h"
#include <vector>
typedef std::vector<uint8_t> Bytes;
struct Fld { unsigned tag; Bytes v; };
// EMV 4.4 Book 3 Annex A: data elements with source terminal and format n
static const unsigned TERM_N[] = { 0x9A, 0x9C, 0x5F2A, 0x5F36, 0x5F57, 0x9F01, 0x9F02, 0x9F03, 0x9F15, 0x9F1A, 0x9F21, 0x9F35, 0x9F39, 0x9F3C, 0x9F3D, 0x9F41 };
static bool term_n(unsigned t) { for (unsigned x : TERM_N) if (x == t) return true; return false; }

struct Entry { uint64_t tag; unsigned len; };
static int ref_entry(const uint8_t* b, size_t n, Entry& e) {
	if (!n) return 0;
	int k = ref_tag(b, n, e.tag);
	if (k < 0 || (size_t)k >= n) return -1;
	e.len = b[k];
	return k + 1;
}
static bool ref_list(const Bytes& d, std::vector<Entry>& out) {
	size_t p = 0;
	for (;;) { Entry e; int r = ref_entry(d.data() + p, d.size() - p, e); if (r < 0) return false; if (!r) return true; out.push_back(e); p += r; }
}
static Bytes expect(const std::vector<Entry>& es, const std::vector<std::vector<Fld>>& src) {
	Bytes o;
	for (auto& e : es) {
		const Fld* f = nullptr;
		for (auto& s : src) { for (auto& x : s) if (x.tag == e.tag) { f = &x; break; } if (f) break; }
		Bytes v; if (f) v = f->v;
		if (v.size() > e.len) { if (term_n(e.tag)) v.erase(v.begin(), v.begin() + (v.size() - e.len)); else v.resize(e.len); }
		while (v.size() < e.len) v.insert(f && term_n(e.tag) ? v.begin() : v.end(), 0);
		o.insert(o.end(), v.begin(), v.end());
	}
	return o;
}
