// C05: field format conversions
#include "mc.h"
#include <emv_tlv.h>
#include <emv_strings.h>
using namespace mc;
typedef std::vector<uint8_t> Bytes;

static bool A_(uint8_t c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
static bool N_(uint8_t c) { return c >= '0' && c <= '9'; }
typedef int (*StrFn)(const uint8_t*, size_t, char*, size_t);

// call into a buffer of exactly cap bytes and check termination
static int call(Mc& m, const char* name, StrFn fn, const Bytes& v, size_t cap, std::string& out) {
	Buf in(v), o(cap, 0xEE); int r = fn(in.p(), in.n(), o.c(), cap); m.step();
	if (r == 0) {
		if (cap == 0) { out.clear(); return r; }
		size_t n = strnlen(o.c(), cap);
		if (n == cap) m.fail("unterminated", "%s(%s) into %zu bytes: not terminated", name, hex(v).c_str(), cap);
		out.assign(o.c(), n);
	}
	return r;
}
static std::vector<size_t> caps(size_t n) { // every capacity around a text of n characters; for a long one the small, the round and the close ones
	std::vector<size_t> c; if (n < 64) { for (size_t i = 0; i <= n + 3; ++i) c.push_back(i); return c; }
	for (size_t i : { 0, 1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513 }) if (i < n - 2) c.push_back(i); for (size_t i = n - 2; i <= n + 3; ++i) c.push_back(i); return c;
}
// all-or-nothing formats: success iff every byte is allowed and the text fits
static void strict(Mc& m, const char* name, StrFn fn, bool valid, const std::string& text, const Bytes& v) {
	for (size_t cap : caps(text.size())) {
		std::string g; int r = call(m, name, fn, v, cap, g);
		bool fits = cap >= text.size() + 1;
		if (valid && fits && (r != 0 || g != text)) m.fail("text", "%s(%s) into %zu bytes: returned %d \"%s\", expected \"%s\"", name, hex(v).c_str(), cap, r, g.c_str(), text.c_str());
		if (cap && !valid && r == 0) m.fail("invalid", "%s(%s) accepted invalid data as \"%s\"", name, hex(v).c_str(), g.c_str());
		if (cap && valid && !fits && r == 0) m.fail("truncated", "%s(%s) into %zu bytes: claimed success with \"%s\" instead of \"%s\"", name, hex(v).c_str(), cap, g.c_str(), text.c_str());
	}
	m.state(hash(text, hmix(valid, (uint64_t)(uintptr_t)name[11])));
}
// filtering formats: truncated to the buffer
static void filter(Mc& m, const char* name, StrFn fn, const std::string& text, const Bytes& v) {
	for (size_t cap : caps(text.size())) {
		std::string g; int r = call(m, name, fn, v, cap, g);
		if (cap == 0 || v.empty()) { if (cap == 0 && r == 0) m.fail("zero", "%s accepted an empty buffer", name); continue; }
		std::string e = text.substr(0, cap - 1);
		if (r != 0 || g != e) m.fail("text", "%s(%s) into %zu bytes: returned %d \"%s\", expected \"%s\"", name, hex(v).c_str(), cap, r, g.c_str(), e.c_str());
	}
	m.state(hash(text));
}
static void check_text(Mc& m, const Bytes& v) {
	m.log("bytes %s", hex(v).c_str());
	std::string raw(v.begin(), v.end()), nc, al, hx;
	bool a = true, an = true, sp = true, cc = true, del = false;
	for (uint8_t c : v) { a &= A_(c); an &= A_(c) || N_(c); sp &= A_(c) || N_(c) || c == ' '; cc &= c >= 0x20 && c < 0x80; del |= c == 0x7F; if ((c >= 0x20 && c <= 0x7E) || c >= 0xA0) nc += c; if (A_(c) || N_(c) || c == ' ') al += c; char b[3]; snprintf(b, 3, "%02X", c); hx += b; }
	bool e = !v.empty();
	strict(m, "emv_format_a_get_string", emv_format_a_get_string, a && e, raw, v);
	strict(m, "emv_format_an_get_string", emv_format_an_get_string, an && e, raw, v);
	strict(m, "emv_format_ans_only_space_get_string", emv_format_ans_only_space_get_string, sp && e, raw, v);
	if (!del) strict(m, "emv_format_ans_ccs_get_string", emv_format_ans_ccs_get_string, cc && e, raw, v);
	filter(m, "emv_format_ans_to_non_control_str", emv_format_ans_to_non_control_str, nc, v);
	filter(m, "emv_format_ans_to_alnum_space_str", emv_format_ans_to_alnum_space_str, al, v);
	filter(m, "emv_format_b_to_str", emv_format_b_to_str, hx, v);
	m.cover(a && e ? "alphabetic" : an && e ? "alphanumeric" : sp && e ? "with spaces" : cc ? "common characters" : "other bytes");
}
static void check_digits(Mc& m, const Bytes& v) { // n and cn
	m.log("bcd %s", hex(v).c_str());
	std::string cn; bool ok = !v.empty(), pad = false, after = false; std::string n; bool nok = !v.empty();
	for (uint8_t b : v) for (int k = 4; k >= 0; k -= 4) {
		uint8_t d = b >> k & 15;
		if (d > 9) nok = false; else n += '0' + d;
		if (pad) { if (d != 15) after = true; continue; }
		if (d <= 9) cn += '0' + d; else if (d == 15) pad = true; else { ok = false; pad = true; }
	}
	// cn; after the first padding digit only padding is meaningful
	for (size_t cap : caps(v.size() * 2)) {
		std::string g; int r = call(m, "emv_format_cn_get_string", emv_format_cn_get_string, v, cap, g);
		if (!cap) continue;
		if (!ok && r == 0) m.fail("cn", "cn %s accepted as \"%s\"", hex(v).c_str(), g.c_str());
		if (ok && r == 0 && g != cn) m.fail("cn", "cn %s rendered \"%s\", expected \"%s\"", hex(v).c_str(), g.c_str(), cn.c_str());
		if (ok && !after && r != 0 && cap >= v.size() * 2 + 1) m.fail("cn", "cn %s rejected (%d)", hex(v).c_str(), r);
	}
	size_t z = n.find_first_not_of('0'); std::string nt = n.empty() ? "" : z == std::string::npos ? "0" : n.substr(z);
	strict(m, "emv_format_n_get_string", emv_format_n_get_string, nok, nt, v);
	// n to integer
	unsigned __int128 x = 0; if (nok) for (char c : n) { x = x * 10 + (c - '0'); if (x > ((unsigned __int128)1 << 100)) x = (unsigned __int128)1 << 100; }
	Buf in(v); uint32_t u = 0xDEADBEEF; int r = emv_format_n_to_uint(in.p(), in.n(), &u); m.step();
	if (nok && x <= 0xFFFFFFFFu) { if (r || u != (uint32_t)x) m.fail("n_to_uint", "n %s converted to %u (returned %d)", hex(v).c_str(), u, r); }
	else if (r == 0) m.fail("n_to_uint", "n %s converted to %u although it is %s", hex(v).c_str(), u, nok ? "larger than 32 bits" : "not numeric");
	m.cover(!nok ? "not numeric" : x > 0xFFFFFFFFu ? "beyond 32 bits" : "numeric");
}
static void check_uint(Mc& m, uint32_t x) {
	m.log("integer %u", x);
	for (size_t n = 0; n <= 7; ++n) {
		Buf o(n, 0xEE); const uint8_t* r = emv_uint_to_format_n(x, o.p(), n); m.step(2);
		if (n == 0) { if (r) m.fail("zero", "empty output accepted"); continue; }
		if (r != o.p()) m.fail("ret", "emv_uint_to_format_n did not return its buffer");
		uint64_t y = x; for (size_t i = n; i-- > 0; y /= 100) if (o.p()[i] != ((y / 10 % 10) << 4 | y % 10)) m.fail("uint_to_n", "%u as n(%zu) is %s", x, n, hex(o.p(), n).c_str());
		uint64_t lim = 1; for (size_t i = 0; i < n; ++i) lim *= 100;
		uint32_t back; int q = emv_format_n_to_uint(o.p(), n, &back); if (x < lim && (q || back != x)) m.fail("roundtrip", "%u does not round trip through n(%zu): %u", x, n, back);
		Buf b(n, 0xEE); r = emv_uint_to_format_b(x, b.p(), n); if (r != b.p()) m.fail("ret", "emv_uint_to_format_b did not return its buffer");
		for (size_t i = 0; i < n; ++i) { size_t k = n - 1 - i; uint8_t e = k < 4 ? x >> (8 * k) : 0; if (b.p()[i] != e) m.fail("uint_to_b", "%u as b(%zu) is %s", x, n, hex(b.p(), n).c_str()); }
		q = emv_format_b_to_uint(b.p(), n, &back);
		if (n > 4 ? false : q || back != (n == 4 ? x : x & ((1u << (8 * n)) - 1))) m.fail("b_to_uint", "b %s converted to %u (returned %d)", hex(b.p(), n).c_str(), back, q);
		if (n > 4 && q == 0 && back != x) m.fail("b_to_uint", "b %s converted to %u", hex(b.p(), n).c_str(), back);
		m.step(2);
		if (n <= 4) { char t[16]; snprintf(t, sizeof t, "%u", n == 4 ? x : x & ((1u << (8 * n)) - 1)); strict(m, "emv_amount_get_string", emv_amount_get_string, true, t, Bytes(b.p(), b.p() + n)); }
	}
	m.state(x);
}
static void check_datetime(Mc& m, const Bytes& v) {
	m.log("date/time %s", hex(v).c_str());
	bool ok = v.size() == 3; std::string d; for (uint8_t b : v) { if ((b >> 4) > 9 || (b & 15) > 9) ok = false; d += '0' + (b >> 4); d += '0' + (b & 15); }
	std::string ds, ts; if (v.size() == 3) { ds = "20" + d.substr(0, 2) + "-" + d.substr(2, 2) + "-" + d.substr(4, 2); ts = d.substr(0, 2) + ":" + d.substr(2, 2) + ":" + d.substr(4, 2); }
	strict(m, "emv_date_get_string", emv_date_get_string, ok, ds, v);
	strict(m, "emv_time_get_string", emv_time_get_string, ok, ts, v);
}
static void check_pack(Mc& m, const std::string& s, size_t n) {
	m.log("pack \"%s\" into %zu", s.c_str(), n);
	bool alld = true; for (char c : s) alld &= N_(c);
	for (int k = 0; k < 2; ++k) {
		Buf in(s.c_str(), s.size() + 1), o(n, 0xEE);
		int r = k ? emv_str_to_format_n(in.c(), o.p(), n) : emv_str_to_format_cn(in.c(), o.p(), n); m.step();
		if (n == 0) { if (r == 0) m.fail("zero", "empty output accepted"); continue; }
		std::string used = s.size() <= 2 * n ? s : k ? s.substr(s.size() - 2 * n) : s.substr(0, 2 * n);
		bool usedd = true; for (char c : used) usedd &= N_(c);
		if (!usedd) { if (r == 0) m.fail("pack", "\"%s\" packed although it is not numeric", s.c_str()); m.cover("pack rejected"); continue; }
		if (!alld && r != 0) continue; // the invalid digit lies outside of what fits
		if (r != 0) m.fail("pack", "packing \"%s\" as %s(%zu) failed with %d", s.c_str(), k ? "n" : "cn", n, r);
		Bytes e(n); for (size_t i = 0; i < 2 * n; ++i) { uint8_t d; if (k) { size_t padn = 2 * n - used.size(); d = i < padn ? 0 : used[i - padn] - '0'; } else d = i < used.size() ? used[i] - '0' : 15; e[i / 2] |= d << (i % 2 ? 0 : 4); }
		if (memcmp(e.data(), o.p(), n)) m.fail("pack", "\"%s\" as %s(%zu) is %s, expected %s", s.c_str(), k ? "n" : "cn", n, hex(o.p(), n).c_str(), hex(e).c_str());
		m.state(hash(e.data(), n)); m.cover("packed");
	}
}
static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough");
	static const Bytes CH = { 'A', 'z', '0', '9', ' ', '/', ':', '@', '[', '`', '{', '~', 0x00, 0x1F, 0x80, 0x9F, 0xA0, 0xFF };
	add("text: all octets length 0..2", 256, [](Mc& m, uint64_t k) { unsigned c = m.choose(258); if (c == 257) { if (k == 0) check_text(m, {}); } else if (c == 256) check_text(m, { (uint8_t)k }); else check_text(m, { (uint8_t)k, (uint8_t)c }); });
	for (unsigned n = 3; n <= (th ? 5u : 4u); ++n) add(("text: classes length " + std::to_string(n)).c_str(), 18, [n](Mc& m, uint64_t k) { Bytes v{ CH[k] }; while (v.size() < n) v.push_back(CH[m.choose(CH.size())]); check_text(m, v); });
	add("text: long", 40, [](Mc& m, uint64_t n) { Bytes v(n, CH[m.choose(CH.size())]); if (n) v[m.choose(n)] = CH[m.choose(CH.size())]; check_text(m, v); });
	add("digits: all octets length 1..2", 256, [](Mc& m, uint64_t k) { unsigned c = m.choose(257); if (c == 256) check_digits(m, { (uint8_t)k }); else check_digits(m, { (uint8_t)k, (uint8_t)c }); });
	static const Bytes DG = { 0x00, 0x01, 0x09, 0x10, 0x42, 0x49, 0x67, 0x95, 0x99, 0x0A, 0x9F, 0xF9, 0xFF, 0xA0 };
	for (unsigned n = 3; n <= (th ? 6u : 5u); ++n) add(("digits: classes length " + std::to_string(n)).c_str(), 14, [n](Mc& m, uint64_t k) { Bytes v{ DG[k] }; while (v.size() < n) v.push_back(DG[m.choose(DG.size())]); check_digits(m, v); });
	add("digits: around 2^32 and 2^64", 12, [](Mc& m, uint64_t k) {
		static const uint64_t B[] = { 0xFFFFFFFFull, 0x100000000ull, 9999999999ull, 0x1FFFFFFFFull, 0xFFFFFFFFFFFFFFFFull, 0xFFFFFFFFFFull, 100000000ull, 4294967295ull, 999999999999ull, 10000000000ull, 0x8000000000000000ull, 1ull };
		uint64_t x = B[k] + (int)m.choose(7) - 3; unsigned n = 5 + m.choose(8); char t[64]; snprintf(t, sizeof t, "%0*llu", (int)(2 * n), (unsigned long long)x); std::string s = t; if (s.size() > 2 * n) return; Bytes v; for (size_t i = 0; i < s.size(); i += 2) v.push_back((s[i] - '0') << 4 | (s[i + 1] - '0')); check_digits(m, v);
	});
	add("integers", 33, [](Mc& m, uint64_t k) { static const int D[] = { -2, -1, 0, 1, 2 }; uint32_t x = k == 32 ? 0u : 1u << k; check_uint(m, x + D[m.choose(5)]); });
	add("integers: decimal boundaries", 11, [](Mc& m, uint64_t k) { uint64_t p = 1; for (unsigned i = 0; i < k; ++i) p *= 10; p *= 1 + m.choose(9); check_uint(m, (uint32_t)(p - 1 + m.choose(3))); });
	add("integers: small", 64, [](Mc& m, uint64_t k) { check_uint(m, k * 256 + m.choose(256)); });
	add("dates and times", 256, [](Mc& m, uint64_t k) { static const uint8_t S[] = { 0x00, 0x01, 0x12, 0x23, 0x31, 0x59, 0x99, 0x0A, 0xA0, 0x9F, 0xFF }; unsigned p = m.choose(3); Bytes v{ S[m.choose(11)], S[m.choose(11)], S[m.choose(11)] }; v[p] = k; check_datetime(m, v); });
	add("dates and times: other lengths", 8, [](Mc& m, uint64_t k) { check_datetime(m, Bytes(k, m.choose(2) ? 0x12 : 0xFF)); });
	static const char DC[] = "0159A/:";
	for (unsigned n = 0; n <= (th ? 8u : 6u); ++n) add(("pack: length " + std::to_string(n)).c_str(), n ? 7 : 1, [n](Mc& m, uint64_t k) { std::string s; if (n) s += DC[k]; while (s.size() < n) s += DC[m.choose(7)]; check_pack(m, s, m.choose(6)); });
	static const size_t LEN[] = { 40, 41, 50, 63, 64, 65, 80, 96, 99, 100, 101, 120, 126, 127, 128, 129, 150, 199, 200, 201, 250, 254, 255, 256, 257, 300, 400, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097 };
	add("text: very long", sizeof LEN / sizeof *LEN, [](Mc& m, uint64_t k) { size_t n = LEN[k]; Bytes v(n); unsigned w = m.choose(4); for (size_t i = 0; i < n; ++i) v[i] = w == 0 ? 'A' + i % 26 : w == 1 ? '0' + i % 10 : w == 2 ? "ab 12 Z"[i % 7] : 0x20 + i % 0x5F; unsigned at = m.choose(5); if (at) { size_t i = at == 1 ? 0 : at == 2 ? n / 2 : at == 3 ? n - 1 : n - 8; v[i] = CH[m.choose(CH.size())]; } check_text(m, v); });
	add("digits: very long", sizeof LEN / sizeof *LEN, [](Mc& m, uint64_t k) { size_t n = LEN[k]; unsigned w = m.choose(4); Bytes v(n); for (size_t i = 0; i < n; ++i) v[i] = w == 0 ? (i % 10) << 4 | (i + 1) % 10 : w == 1 ? 0 : w == 2 ? (i < n / 2 ? 0x12 : 0xFF) : (i < n - 2 ? 0 : 0x99); unsigned at = m.choose(4); if (at) v[at == 1 ? 0 : at == 2 ? n / 2 : n - 1] = DG[m.choose(DG.size())]; check_digits(m, v); });
	add("pack: long", 80, [](Mc& m, uint64_t k) { std::string s; static const unsigned N[] = { 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513 }; unsigned n = k < 68 ? k : N[k - 68]; for (unsigned i = 0; i < n; ++i) s += '0' + i * 7 % 10; if (n && m.choose(2)) s[m.choose(2) ? 0 : n - 1] = 'A'; unsigned w = m.choose(8); size_t c = w == 0 ? n / 2 : w == 1 ? (n + 1) / 2 : w == 2 ? n / 2 + 1 : w == 3 ? (n > 3 ? n / 2 - 1 : 0) : w == 4 ? n : w == 5 ? 6 : w == 6 ? 300 : 1; check_pack(m, s, c); });
	add("missing arguments", 1, [](Mc& m, uint64_t) {
		uint8_t b[4] = { 0x12, 0x34, 0x56, 0x78 }; char s[32]; uint32_t u; m.step(10);
		StrFn F[] = { emv_format_a_get_string, emv_format_an_get_string, emv_format_ans_only_space_get_string, emv_format_ans_ccs_get_string, emv_format_cn_get_string, emv_format_n_get_string, emv_format_ans_to_non_control_str, emv_format_ans_to_alnum_space_str, emv_format_b_to_str };
		for (auto f : F) if (f(nullptr, 3, s, 32) >= 0 || f(b, 0, s, 32) >= 0) m.fail("args", "missing input accepted");
		for (auto f : { emv_amount_get_string, emv_date_get_string, emv_time_get_string }) { if (f(nullptr, 3, s, 32) >= 0 || f(b, 0, s, 32) >= 0) m.fail("args", "missing input accepted"); if (f(b, 3, nullptr, 0) != 0) m.fail("args", "unwanted text refused"); }
		if (emv_format_n_to_uint(nullptr, 1, &u) >= 0 || emv_format_n_to_uint(b, 1, nullptr) >= 0 || emv_format_b_to_uint(nullptr, 1, &u) >= 0 || emv_format_b_to_uint(b, 1, nullptr) >= 0 || emv_str_to_format_n(nullptr, b, 1) >= 0 || emv_str_to_format_n("1", nullptr, 1) >= 0 || emv_str_to_format_cn(nullptr, b, 1) >= 0 || emv_uint_to_format_n(1, nullptr, 1) || emv_uint_to_format_b(1, nullptr, 1)) m.fail("args", "missing argument accepted");
	});
}
static struct Init { Init() { setup_hook = setup; } } init_;
