// C24: character set conversion
#include "mc.h"
#include "ref8859.h"
#include <iso8859.h>
using namespace mc;
typedef std::vector<uint8_t> Bytes;
#ifdef SIMPLE
static bool supported(unsigned cp) { return cp == 1; }
static bool may_refuse(uint8_t b) { return b && (b < 0x20 || (b > 0x7E && b < 0xA0)); }
#else
static bool supported(unsigned cp) { return cp >= 1 && cp <= 15 && cp != 12; }
static bool may_refuse(uint8_t) { return false; }
#endif
static bool valid_page(unsigned cp) { return cp >= 1 && cp <= 15 && cp != 12; }
static unsigned uni(unsigned cp, uint8_t b) { return b < 0xA0 ? b : ref8859[cp][b - 0xA0]; }
static void put(std::string& s, unsigned u) { if (u < 0x80) s += (char)u; else if (u < 0x800) { s += (char)(0xC0 | u >> 6); s += (char)(0x80 | (u & 63)); } else { s += (char)(0xE0 | u >> 12); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); } }
static void convert(Mc& m, unsigned cp, const Bytes& v, size_t cap, uint8_t fill) {
	Buf in(v), out(cap, fill); m.step();
	int r = LIB(iso8859_to_utf8(cp, in.p(), v.size(), out.c(), cap)); if (m.tracing) m.log("page %u bytes %s into %zu -> %d", cp, hex(v).c_str(), cap, r);
	if (alloc_live()) m.fail("leak", "page %u bytes %s: memory not released", cp, hex(v).c_str());
	if (!supported(cp)) { if (r == 0) m.fail("unsupported", "page %u is not supported, yet bytes %s were converted", cp, hex(v).c_str()); m.cover("unsupported page"); return; }
	if (v.empty() || !cap) { if (r == 0) m.fail("nothing", "page %u: conversion of %zu bytes into %zu bytes reported as done", cp, v.size(), cap); return; }
	std::string e; std::vector<size_t> ends{ 0 }; bool gap = false, odd = false;
	bool end = false; for (uint8_t b : v) { if (!b) end = true; unsigned u = uni(cp, b); if (b && !u) { gap = true; continue; } if (may_refuse(b)) odd = true; if (!end) { put(e, u); ends.push_back(e.size()); } }
	if (r == 0) { if (!memchr(out.p(), 0, cap)) m.fail("unterminated", "page %u bytes %s into %zu bytes: not terminated", cp, hex(v).c_str(), cap); }
	if (r) { bool nul = memchr(v.data(), 0, v.size()); if (cap > (nul ? 3 * v.size() + 1 : e.size()) && !gap && !odd) m.fail("refused", "page %u bytes %s into %zu bytes refused with %d", cp, hex(v).c_str(), cap, r); m.cover("refused"); return; }
	std::string got = out.c(); m.state(hash(got, cp));
	if (cap > e.size()) { if (got != e) m.fail("text", "page %u bytes %s converted to %s instead of %s", cp, hex(v).c_str(), hex(got.data(), got.size()).c_str(), hex(e.data(), e.size()).c_str()); m.cover("converted"); return; }
	bool cut = false; for (auto x : ends) if (x == got.size() && !e.compare(0, x, got)) cut = true;
	if (!cut) m.fail("cut", "page %u bytes %s into %zu bytes gave %s, which is not a number of whole characters of %s", cp, hex(v).c_str(), cap, hex(got.data(), got.size()).c_str(), hex(e.data(), e.size()).c_str());
	m.cover("cut");
}
static size_t width(unsigned cp, const Bytes& v) { size_t n = 0; for (uint8_t b : v) { if (!b) break; unsigned u = uni(valid_page(cp) ? cp : 1, b); n += !u ? 0 : u < 0x80 ? 1 : u < 0x800 ? 2 : 3; } return n; }
static void caps(Mc& m, unsigned cp, const Bytes& v) { size_t w = width(cp, v); for (size_t c = 0; c <= w + 2; ++c) convert(m, cp, v, c, c & 1 ? 0xFF : 0x00); convert(m, cp, v, w + 40, 0xA5); }
// one byte of every kind a page has, first and last
static Bytes kinds(unsigned cp) { Bytes k{ 0x00, 0x01, 0x0A, 0x20, 0x41, 0x7E, 0x7F, 0x80, 0x9F, 0xA0, 0xFF }; if (!valid_page(cp)) return k; int two = 0, three = 0, none = 0; for (unsigned b = 0xA1; b < 0xFF; ++b) { unsigned u = uni(cp, b); int& n = !u ? none : u < 0x800 ? two : three; if (n++ < 2) k.push_back(b); } return k; }
static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough");
	add("every byte of every page at every capacity", 17 * 256, [](Mc& m, uint64_t k) { caps(m, k / 256, { (uint8_t)(k % 256) }); });
	add("every pair of bytes", 16 * 256, [th](Mc& m, uint64_t k) { unsigned cp = k / 256; uint8_t a = k % 256; Bytes second; if (th) for (unsigned b = 0; b < 256; ++b) second.push_back(b); else second = kinds(cp); for (uint8_t b : second) { Bytes v{ a, b }, w{ b, a }; if (th || a >= 0xA0) caps(m, cp, v); else { convert(m, cp, v, width(cp, v) + 1, 0xFF); if (width(cp, v)) convert(m, cp, v, width(cp, v), 0xFF); } if (!th) { size_t n = width(cp, w); convert(m, cp, w, n + 1, 0xFF); if (n) convert(m, cp, w, n, 0xFF); } } });
	static std::vector<Bytes> K; for (unsigned cp = 0; cp < 17; ++cp) K.push_back(kinds(cp));
	static std::vector<std::pair<unsigned, uint8_t>> first; for (unsigned cp = 0; cp < 16; ++cp) for (uint8_t b : K[cp]) first.push_back({ cp, b });
	add("strings of every kind of byte at every capacity", first.size(), [th](Mc& m, uint64_t k) { unsigned cp = first[k].first; Bytes v{ first[k].second }; unsigned n = 2 + (th ? m.choose(2) : 0); for (unsigned i = 0; i < n; ++i) v.push_back(m.pick(K[cp])); caps(m, cp, v); });
	add("long strings", 16 * 70, [](Mc& m, uint64_t k) { unsigned cp = k / 70, n = k % 70; unsigned mode = m.choose(3); Bytes v; if (n == 69) n = 1000; for (unsigned b = mode == 1 ? 0xA1 : mode == 2 ? 0xC0 : 0x20; v.size() < n; ++b) { uint8_t c = b; if ((c >= 0x7F && c < 0xA0) || c < 0x20 || (valid_page(cp) && !uni(cp, c))) continue; v.push_back(c); }
		size_t w = width(cp, v); if (n < 70) caps(m, cp, v); else for (size_t c : { (size_t)1, (size_t)2, (size_t)255, (size_t)256, (size_t)257, w - 2, w - 1, w, w + 1, w + 2, w + 500 }) convert(m, cp, v, c, 0xA5); });
	add("pages", 300, [](Mc& m, uint64_t k) { unsigned cp = k < 260 ? k : k < 270 ? 0xFFFFFFFFu - (k - 260) : k < 280 ? 0x80000000u + (k - 270) : 0x10000u * (k - 279) + 1; m.step(); if (iso8859_is_supported(cp) != supported(cp)) m.fail("pages", "page %u reported as %ssupported", cp, supported(cp) ? "un" : ""); convert(m, cp, { 0x41, 0x7A, (uint8_t)(supported(cp) && uni(cp, 0xE4) ? 0xE4 : 0x30) }, 20, 0xFF); if (k >= 16 || k == 12 || !k) for (unsigned b = 0; b < 256; b += 5) convert(m, cp, { (uint8_t)b }, 8, 0xFF); });
	add("nothing to convert", 16, [](Mc& m, uint64_t cp) { Buf o(8); uint8_t x = 'A'; m.step(4); if (!iso8859_to_utf8(cp, nullptr, 1, o.c(), 8) || !iso8859_to_utf8(cp, &x, 0, o.c(), 8) || !iso8859_to_utf8(cp, &x, 1, nullptr, 8) || !iso8859_to_utf8(cp, &x, 1, o.c(), 0)) m.fail("nothing", "page %llu: missing input or output accepted", (unsigned long long)cp); });
	// conversions do not influence each other
	add("sequences of conversions", 16 * 16, [](Mc& m, uint64_t k) { unsigned a = k / 16, b = k % 16, c = m.choose(16); for (unsigned cp : { a, b, c, a }) { Bytes v{ 0x41, (uint8_t)(valid_page(cp) && uni(cp, 0xE4) ? 0xE4 : 0x42), 0xFF, 0x43 }; if (valid_page(cp) && !uni(cp, 0xFF)) v[2] = 0x20; convert(m, cp, v, 3, 0x55); convert(m, cp, v, 20, 0x55); } });
}
static struct Init { Init() { setup_hook = setup; } } init_;
