// the spaces of C28
#include "tlv_spaces.h"
struct Cmd { Args a; std::string in; int want; std::string out; }; // want: 0 output, 1 refused with status, 2 something printed and success, 3 refused
static std::vector<Cmd> CMDS;
static void setup28() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough"); load_codes(); codes_dir = std::string(getenv("MC_SCRATCH")) + "/codes";
	ssize_t n = readlink("/proc/self/exe", self_exe, sizeof self_exe - 1); self_exe[n > 0 ? n : 0] = 0;
	cookie_io_functions_t o = { nullptr, w_out, nullptr, nullptr }, e = { nullptr, w_err, nullptr, nullptr }; f_out = fopencookie(nullptr, "w", o); f_err = fopencookie(nullptr, "w", e); setvbuf(f_out, nullptr, _IOFBF, 65536); setvbuf(f_err, nullptr, _IOFBF, 65536);
	snap.resize(__stop_decdata - __start_decdata); raw_copy(snap.data(), __start_decdata, snap.size());
	add_tlv_spaces(th);
	// BER strings and identifiers
	// lists
	for (unsigned k = 1; k <= (th ? 7u : 6u); ++k) add(("lists of length " + std::to_string(k)).c_str(), k >= 2 ? 64 : 8, [k](Mc& m, uint64_t x) { static const Bytes A = { 0x9F, 0x02, 0x06, 0x5A, 0x5F, 0x81, 0x1F, 0x00 }; Bytes v{ A[x % 8] }; if (k >= 2) v.push_back(A[x / 8]); while (v.size() < k) v.push_back(A[m.choose(k > 4 && !m.thorough ? 5 : 8)]);
		bool dol = m.choose(2); Args a{ dol ? "--dol" : "--tag-list", hex(v) }; Res r = run(m, a); Exp e; if (dol) exp_dol(e, v.data(), v.size(), 0); else exp_tags(e, v.data(), v.size(), 0); match(m, show(a), r.out, e); if (!r.err.empty()) m.fail("stderr", "%s: error output %s", show(a).c_str(), cut(r.err).c_str()); m.cover(e.v.size() > 1 ? "damaged list" : "list"); m.state(shape(r.out)); });
	add("lists of every tag", 64, [](Mc& m, uint64_t x) { static const std::vector<unsigned> T = all_tags(); std::vector<unsigned> mine; for (size_t i = x; i < T.size(); i += 64) mine.push_back(T[i]); unsigned tag = m.pick(mine); unsigned how = m.choose(5); bool dol = how < 4; static const uint8_t L[] = { 0, 4, 5, 255 }; Bytes one; if (tag > 255) one.push_back(tag >> 8); one.push_back(tag); if (dol) one.push_back(L[how]); Bytes v = one; if (m.choose(2)) { app28(v, dol ? Bytes{ 0x9F, 0x37, 0x04 } : Bytes{ 0x9F, 0x37 }); app28(v, one); }
		Args a{ dol ? "--dol" : "--tag-list", hex(v) }; Res r = run(m, a); Exp e; if (dol) exp_dol(e, v.data(), v.size(), 0); else exp_tags(e, v.data(), v.size(), 0); match(m, show(a), r.out, e); });
	// ATR and status
	atr_setup();
	add("ATR interface byte values", 256, [](Mc& m, uint64_t x) { Shape s; s.y[1] = 15; s.y[2] = 15; s.y[3] = 15; s.y[4] = 7; s.t[1] = m.choose(2); s.t[2] = m.choose(2) ? 1 : 15; s.t[3] = m.choose(2) ? 1 : 15; Built b = render_atr(s, s.t[1]); unsigned k = m.choose(3), i = 1 + m.choose(4); b.v[b.off[k][i]] = x; finish(m, b, m.choose(2) ? 3 : 0, 0); });
	add("ATR historical objects", 16, [](Mc& m, uint64_t x) { static const std::vector<Bytes> V = { {}, { 0x00 }, { 0xFF }, { 0x80, 0x31 }, { 0x80, 0x31, 0xE0 }, { 1, 2, 3, 4 } }; Bytes h{ (uint8_t)(m.choose(2) ? 0x80 : 0x00) }; Bytes val = m.pick(V); h.push_back(x << 4 | val.size()); app28(h, val); if (m.choose(2)) { Bytes w = m.pick(V); h.push_back((m.choose(2) ? 0x70 : 0x30) | w.size()); app28(h, w); } if (!h[0]) app28(h, m.choose(2) ? Bytes{ 0x05, 0x90, 0x00 } : Bytes{ 0x03, 0x00, 0x00 }); Bytes v{ 0x3B, (uint8_t)h.size() }; app28(v, h); judge(m, v); });
	add("status words", 256, [](Mc& m, uint64_t x) { uint8_t b[2] = { (uint8_t)x, (uint8_t)m.choose(256) }; Args a{ "--sw1sw2", hex(b, 2) }; Res r = run(m, a); const char* s = iso7816_sw1sw2_get_string(b[0], b[1], vs_buf, 4096); if (!s) return reject(m, a, r); accept(m, a, r, f("SW1SW2: %02X%02X (", b[0], b[1]) + s + ")\n"); });
	add("status words of other sizes", 6, [](Mc& m, uint64_t x) { Bytes v(x, 0x90); if (x == 2 || !x) { m.skip(); return; } Args a{ "--sw1sw2", hex(v) }; reject(m, a, run(m, a)); });
	// single fields
	add("fields of every size", NOPT * 41, [](Mc& m, uint64_t x) { const Opt& o = OPTS[x % NOPT]; size_t n = x / NOPT; static const Bytes F = { 0x00, 0xFF, 0x41, 0x05, 0x99, 0x80 }; Bytes v(n, m.pick(F)); if (n) switch (m.choose(4)) { case 1: v[0] = 0x06; break; case 2: v[n - 1] ^= 0x1F; break; case 3: v[n / 2] ^= 0x21; } check_field(m, o, v, m.choose(2)); });
	add("field byte values", NOPT * 256, [](Mc& m, uint64_t x) { const Opt& o = OPTS[x % NOPT]; unsigned n = o.min == o.max ? o.min : m.pick(std::vector<unsigned>{ std::max(o.min, 4u), std::min(o.max, 18u), 32u }); Bytes v(n, m.choose(2) ? 0x00 : 0x33); v[m.choose(n)] = x / NOPT; check_field(m, o, v, false); });
	add("field pairs of byte values", 256, [](Mc& m, uint64_t x) { static const unsigned W[] = { 0, 7, 10 }; const Opt& o = OPTS[W[m.choose(3)]]; Bytes v(2); v[0] = x; v[1] = m.choose(256); check_field(m, o, v, false); });
	add("merchant categories", 100, [](Mc& m, uint64_t x) { unsigned y = m.choose(100); Bytes v{ (uint8_t)(x / 10 << 4 | x % 10), (uint8_t)(y / 10 << 4 | y % 10) }; check_field(m, OPTS[0], v, m.choose(2)); });
	add("verification method lists", 126, [](Mc& m, uint64_t x) { size_t n = 8 + 2 * x; if (n > 252) { m.skip(); return; } Bytes v(n, 0); unsigned k = m.choose(3); if (k) v[3] = 0x64; for (size_t i = 8; i < n; ++i) v[i] = i % 2 ? (k == 2 ? 0x06 + i / 2 % 4 : i / 2 % 10) : (k == 1 ? 0x5F : 0x40 + i / 2 % 0x20); if (m.choose(2)) v.pop_back(); if (m.choose(2)) check_field(m, OPTS[4], v, false); else { Bytes t{ 0x8E, 0x82, (uint8_t)(v.size() >> 8), (uint8_t)v.size() }; app28(t, v); check_tlv(m, t, true, false); } });
	// codes
	add("codes", 3 * 40, [](Mc& m, uint64_t x) { static const char* A = "NLDZACIVQFRUEnlguace5287109"; int kind = x % 3; size_t na = strlen(A); if (x / 3 >= na) { m.skip(); return; } std::string s(1, A[x / 3]); unsigned n = m.choose(3); while (s.size() < n + 1) s += A[m.choose(na)]; check_code(m, kind, s, n == 0); });
	add("codes of other forms", 3, [](Mc& m, uint64_t x) { static const std::vector<std::string> S = { "", "N", "NLDX", "528 ", "0528", "NLDNLD", "  ", "---x", "x", "%s", "%n%n", "\xC3\xA9", "NL ", " NL", "5a8", "99a", "EUR ", "eu", "EURO", "Netherlands", "english", "-" }; std::string s = m.pick(S); if (s[0] == '-' && s.size() > 1) { m.skip(); return; } check_code(m, x, s, m.choose(2)); });
	// text
	add("text bytes", 16 * 256, [](Mc& m, uint64_t x) { unsigned cp = x % 16; if (!cp || cp == 12) { m.skip(); return; } Bytes v{ (uint8_t)(x / 16) }; unsigned k = m.choose(4); if (k == 1) v = { 'A', v[0] }; if (k == 2) v = { v[0], 'z', v[0] }; if (k == 3) v.resize(10, v[0]); check_text(m, cp, v); });
	add("text lengths", 16 * 60, [](Mc& m, uint64_t x) { unsigned cp = x % 16; if (!cp || cp == 12) { m.skip(); return; } static const unsigned N[] = { 1, 2, 3, 10, 100, 255, 500, 680, 681, 682, 683, 684, 685, 700, 1000, 1021, 1022, 1023, 1024, 1025, 1026, 1300, 1364, 1365, 1366, 1367, 2000, 2040, 2044, 2045, 2046, 2047, 2048, 2049, 2050, 2051, 3000, 4095, 4096, 4097, 5000, 6000, 8191, 8192, 10000 }; if (x / 16 >= sizeof N / sizeof *N) { m.skip(); return; } static const uint8_t C[] = { 'A', 0xE1, 0xA0, 0xA4 }; check_text(m, cp, Bytes(N[x / 16], C[m.choose(4)])); });
	// how data is written
	for (unsigned k = 0; k <= (th ? 6u : 5u); ++k) add(("hex strings of length " + std::to_string(k)).c_str(), k ? 11 : 1, [k](Mc& m, uint64_t x) { static const char A[] = { '0', '5', 'a', 'F', 'g', ' ', '\t', 'x', '-', '\n', (char)0xC3 }; std::string s; if (k) s += A[x]; while (s.size() < k) s += A[m.choose(11)]; if (s == "-" || s[0] == '-') { m.skip(); return; }
		Args a{ "--tag-list", s }; Res r = run(m, a); Bytes v; int w = ref_hex(s, v); if (w == 1 || (w == 2 && r.out.empty())) return reject(m, a, r); Exp e; exp_tags(e, v.data(), v.size(), 0); match(m, show(a), r.out, e); m.cover("hex digits"); });
	add("hex digits everywhere", 256, [](Mc& m, uint64_t x) { if (!x) { m.skip(); return; } static const char* D = "82029F3800"; std::string s = D; unsigned at = m.choose(s.size()); bool ins = m.choose(2); if (ins) s.insert(at, 1, (char)x); else s[at] = (char)x; if (s[0] == '-') { m.skip(); return; } Args a{ "--tag-list", s }; Res r = run(m, a); Bytes v; int w = ref_hex(s, v); if (w == 1) return reject(m, a, r); Exp e; exp_tags(e, v.data(), v.size(), 0); match(m, show(a), r.out, e); });
	add("standard input", 24, [](Mc& m, uint64_t x) { static const unsigned N[] = { 0, 1, 2, 3, 9, 100, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 12288, 20000, 65535, 65536, 65537 }; if (x >= 19) { m.skip(); return; } std::string in; while (in.size() < N[x]) { unsigned i = in.size(); in += (char)(i % 3 == 0 ? 0x9F : i % 3 == 1 ? i / 3 % 128 : 4); } bool inerr = m.choose(2); static const std::vector<size_t> CH = { 0, 1, 7, 4096, 4095 }; size_t ch = m.pick(CH); if (ch == 1 && in.size() > 9000) { m.skip(); return; }
		Args a{ "--dol", "-" }; Res r = run(m, a, &in, ch, inerr); if (in.empty() || inerr) return reject(m, a, r); Exp e; exp_dol(e, (const uint8_t*)in.data(), in.size(), 0); match(m, "emv-decode --dol - (" + std::to_string(in.size()) + " bytes)", r.out, e); m.cover("standard input"); m.state(in.size()); });
	// command lines
	auto C = [](Args a, int want, std::string out = "", std::string in = "") { CMDS.push_back({ a, in, want, out }); };
	std::string tl = "Tag List:\n  82 | Application Interchange Profile (AIP)\n", SW = std::string("SW1SW2: 9000 (") + iso7816_sw1sw2_get_string(0x90, 0, vs_buf, 4096) + ")\n";
	C({ "--tag-list", "82" }, 0, tl); C({ "82", "--tag-list" }, 0, tl); C({ "--tag-list", "--", "82" }, 0, tl); C({ "--tag-list", "-" }, 0, tl, "\x82"); C({ "-", "--tag-list" }, 0, tl, "\x82"); C({ "--ignore-padding", "--tag-list", "82" }, 0, tl); C({ "--tag", "82" }, 0, tl); C({ "--sw1sw2", "90 00" }, 0, SW); C({ "9000", "--sw1sw2" }, 0, SW);
	C({ "--country", "NL" }, 0, "Netherlands\n"); C({ "NL", "--country" }, 0, "Netherlands\n"); C({ "--iso4217", "EUR" }, 0, "Euro\n"); C({ "EUR", "--currency" }, 0, "Euro\n"); C({ "--language", "en" }, 0, "English\n"); C({ "--country", "528" }, 0, "Netherlands\n"); C({ "--mcc", "5999" }, 0, MCCS[1].name + "\n"); C({ "--9F15", "0742" }, 0, MCCS[0].name + "\n"); C({ "--tlv", "5F28020528" }, 2); C({ "--iso8859-1", "41C4" }, 0, "A\xC3\x84\n"); C({ "--iso8859-15", "A4" }, 0, "\xE2\x82\xAC\n"); C({ "--iso8859-5", "B0" }, 0, "\xD0\x90\n"); C({ "--iso8859-11", "A1" }, 0, "\xE0\xB8\x81\n");
	C({}, 4); C({ "82" }, 4); C({ "--version" }, 0, std::string(emv_lib_version_string()) + "\n"); C({ "--version", "--tlv", "82" }, 0, std::string(emv_lib_version_string()) + "\n"); C({ "--iso8859-x" }, 2); C({ "--iso8859-x", "41" }, 2);
	for (auto& o : { "--tlv", "--atr", "--country", "--cvm-list" }) C({ o }, 1);
	C({ "--tlv", "82", "83" }, 1); C({ "--tag-list", "82", "82" }, 1); C({ "82", "--tag-list", "83" }, 1); C({ "--country", "NL", "ZA" }, 1); C({ "--tag-list", "-", "82" }, 1, "", "\x82"); C({ "--tlv", "--ber", "8200" }, 1); C({ "--tlv", "--tlv", "8200" }, 1); C({ "--country", "--currency", "EUR" }, 1); C({ "--atr", "8200", "--tlv" }, 1); C({ "--tlv", "8" }, 1); C({ "--tlv", "" }, 1); C({ "--tlv", "820" }, 1); C({ "--tlv", "82zz" }, 1); C({ "--tlv", "-" }, 1); C({ "--iso8859-12", "41" }, 5); C({ "--iso8859-16", "41" }, 5); C({ "--nonsense", "82" }, 5); C({ "--t", "82" }, 5); C({ "-z", "82" }, 5); C({ "--tlv=5", "82" }, 5); C({ "--isocodes-path" }, 5);
	C({ "--mcc", "9998" }, 3); C({ "--country", "XX" }, 3); C({ "--country", "NLDX" }, 3); C({ "--sw1sw2", "90" }, 3); C({ "--atr", "00" }, 3); C({ "--atr", "3C00" }, 3); C({ "--tvr", "00" }, 3);
	add("command lines", CMDS.size(), [](Mc& m, uint64_t x) { const Cmd& c = CMDS[x]; if (c.want == 5) { m.skip(); return; } Res r = run(m, c.a, &c.in); std::string w = show(c.a);
		if (c.want == 0) accept(m, c.a, r, c.out); if (c.want == 1 || c.want == 3) reject(m, c.a, r); if (c.want == 1 && !r.status) m.fail("status", "emv-decode %s: refused but status 0", w.c_str()); if ((c.want == 2 || c.want == 4) && (r.out.empty() || (c.want == 2 && r.status))) m.fail("output", "emv-decode %s: status %d and printed \"%s\"", w.c_str(), r.status, cut(r.out).c_str()); });
	add("real processes", CMDS.size(), [](Mc& m, uint64_t x) { const Cmd& c = CMDS[x]; Args a = c.a; if (!a.empty()) { a.insert(a.begin(), "--isocodes-path=" + codes_dir); a.insert(a.begin(), "--mcc-json=" + codes_dir + "/mcc.json"); } Res r = real_run(m, a, c.in); std::string w = show(c.a);
		if (c.want == 0) accept(m, a, r, c.out); if (c.want == 1 || c.want == 3 || c.want == 5) reject(m, a, r); if ((c.want == 1 || c.want == 5) && !r.status) m.fail("status", "emv-decode %s: refused but status 0", w.c_str()); if ((c.want == 2 || c.want == 4) && (r.out.empty() || (c.want == 2 && r.status))) m.fail("output", "emv-decode %s: status %d and printed \"%s\"", w.c_str(), r.status, cut(r.out).c_str()); m.cover("real process"); });
	add("real processes: data", ELEMS.size() * 2, [](Mc& m, uint64_t x) { Bytes v = wrap28(0, x % 2 * 2, ELEMS[x / 2]); if (m.choose(2)) app28(v, { 0x9F }); Args a{ "--mcc-json", codes_dir + "/mcc.json", "--isocodes-path", codes_dir, "--tlv", "-" }; Res r = real_run(m, a, std::string((const char*)v.data(), v.size())); match(m, "emv-decode --tlv - < " + hex(v), r.out, expect_tlv(true, false, v)); if (!r.err.empty()) m.fail("stderr", "emv-decode --tlv: error output %s", cut(r.err).c_str()); });
	add("real processes: nesting", 3, [](Mc& m, uint64_t x) { static const unsigned D[] = { 1000, 20000, 400000 }; std::string s; for (unsigned i = 0; i < D[x]; ++i) s += std::string("\x70\x80", 2); s += std::string(2 * D[x], 0); bool emv = m.choose(2); Args a{ "--mcc-json", codes_dir + "/mcc.json", "--isocodes-path", codes_dir, emv ? "--tlv" : "--ber", "-" }; Res r = real_run(m, a, s); if (!mentions_error(r.out + r.err)) m.fail("deep", "%u nested templates: output just ends", D[x]); });
	add("missing code lists", 4, [](Mc& m, uint64_t x) { Args a{ x & 1 ? "--isocodes-path=/nonexistent" : "--isocodes-path=" + codes_dir, x & 2 ? "--mcc-json=/nonexistent" : "--mcc-json=" + codes_dir + "/mcc.json" }; unsigned k = m.choose(3); if (k == 0) { a.push_back("--tag-list"); a.push_back("82"); } if (k == 1) { a.push_back("--country"); a.push_back("NL"); } if (k == 2) { a.push_back("--mcc"); a.push_back("5999"); } Res r = real_run(m, a, ""); std::string want = k == 0 ? "Tag List:\n  82 | Application Interchange Profile (AIP)\n" : k == 1 ? (x & 1 ? "" : "Netherlands\n") : x & 2 ? "" : MCCS[1].name + "\n"; if ((r.out != want && !(k && x && r.out.empty())) || (x && r.err.empty()) || (!x && !r.err.empty())) m.fail("lists", "emv-decode %s printed \"%s\" and \"%s\"", show(a).c_str(), cut(r.out).c_str(), cut(r.err).c_str()); });
	// printing functions of the other tool
	auto capture = [](Mc& m, const std::function<void()>& fn) { FILE *so, *se; swap_streams(so, se); smear(0x41); fn(); fflush(f_out); fflush(f_err); stdout = so; stderr = se; m.step(); std::string o; o.swap(g_out); return o; };
	static auto cap = capture;
	add("printed field lists", ELEMS.size() * ELEMS.size(), [](Mc& m, uint64_t x) { emv_tlv_list_t l = EMV_TLV_LIST_INIT; Exp e, one; unsigned extra = m.choose(3); std::vector<Bytes> els{ ELEMS[x % ELEMS.size()], ELEMS[x / ELEMS.size()] }; if (extra == 1) els.push_back(wrap28(0, 0, ELEMS[x % ELEMS.size()])); if (extra == 2) els.push_back(wrap28(1, 0, { 0x9F, 0x26, 0x01 }));
		for (auto& b : els) { RefTlv t; ref_ber(b.data(), b.size(), t); const uint8_t* v = b.data() + t.off; emv_tlv_list_push(&l, t.tag, t.len, t.len ? v : nullptr, 0); emv_tlv_info_t i; emv_tlv_t* p = l.back; p->ber.flags = b[0] & 0xE0; *vs_buf = 0; emv_tlv_get_info(p, &i, vs_buf, sizeof vs_buf);
			for (Exp* q : { &e, &one }) { if (q == &one && &b != &els[0]) continue; unsigned d = q == &e ? 1 : 0; q->t(pre(d) + f("%02X", (unsigned)t.tag) + (i.tag_name ? std::string(" | ") + i.tag_name : "") + f(" : [%u]", (unsigned)t.len)); if (t.cons) { q->t("\n"); size_t g = walk(*q, true, false, v, t.len, d + 1, 0); if (g < t.len) { q->e(hex(v + g, t.len - g), g); q->t("\n"); } } else exp_value(*q, true, t, v, i, vs_buf, d); } }
		std::string o = cap(m, [&] { print_emv_tlv_list(&l); }), p = cap(m, [&] { print_emv_tlv(l.front); }); match(m, "printed field list", o, e); match(m, "printed field", p, one); emv_tlv_list_clear(&l); m.state(shape(o)); });
	add("printed applications", 32, [](Mc& m, uint64_t x) { emv_app_t a; memset(&a, 0, sizeof a); Bytes id(5 + x % 12, 0xA0); emv_tlv_t t; memset(&t, 0, sizeof t); t.tag = 0x84; t.length = id.size(); t.value = id.data(); a.aid = &t; static const std::vector<std::string> N = { "VISA", "A", "%s%n 100%", "ABCDEFGHIJKLMNOPQRSTUVWXYZ012345", "Caf\xC3\xA9" }; std::string n = m.pick(N); strcpy(a.display_name, n.c_str()); a.priority = m.choose(16); a.confirmation_required = m.choose(2); std::string o = cap(m, [&] { print_emv_app(&a); }); std::string w = "Application: " + hex(id) + ", " + n + (a.priority ? f(", Priority %u", a.priority) : "") + (a.confirmation_required ? ", Cardholder confirmation required" : "") + "\n"; if (o != w) m.fail("application", "printed \"%s\", expected \"%s\"", cut(o).c_str(), cut(w).c_str()); });
	add("printed exchanges", 256, [](Mc& m, uint64_t x) { static const std::vector<Bytes> HEAD = { { 0x00, 0xA4, 0x04, 0x00, 0x02, 0x31, 0x32, 0x00 }, { 0x80, 0xA8, 0x00, 0x00, 0x02, 0x83, 0x00, 0x00 }, { 0x00, 0xB2, 0x01, 0x0C, 0x00 }, { 0x00 }, { 0x00, 0xA4 }, { 0x80, 0xAE, 0x80, 0x00 }, {} }; Bytes c = m.pick(HEAD); unsigned at = m.choose(5); if (at < c.size()) c[at] = x; else if (!c.empty() && x > 8) { m.skip(); return; } else if (x < c.size()) c.resize(x);
		std::string o, w; { Buf b(c); o = cap(m, [&] { print_capdu(c.empty() ? nullptr : b.p(), b.n()); }); } w = hex(c); if (c.empty()) w = "(null)"; else if (!emv_capdu_get_string(c.data(), c.size(), vs_buf, sizeof vs_buf)) w += std::string(" (") + vs_buf + ")"; if (o != w + "\n") m.fail("command", "printed \"%s\", expected \"%s\"", cut(o).c_str(), cut(w).c_str());
		Bytes r; unsigned k = m.choose(4); r.resize(k, 0x6F); if (k > 1) { static const uint8_t S[] = { 0x90, 0x61, 0x6A, 0x63, 0x62, 0x00, 0xFF }; r[k - 2] = S[m.choose(7)]; r[k - 1] = x; } { Buf b(r); o = cap(m, [&] { print_rapdu(r.empty() ? nullptr : b.p(), b.n()); }); } w = hex(r); if (r.empty()) w = "(null)"; if (k > 1) { const char* s = iso7816_sw1sw2_get_string(r[k - 2], r[k - 1], vs_buf, 4096); if (s && *s) w += std::string(" (") + s + ")"; } if (o != w + "\n") m.fail("response", "printed \"%s\", expected \"%s\"", cut(o).c_str(), cut(w).c_str()); m.state(hash(w)); });
	add("printed debug events", 6 * 7 * 9, [](Mc& m, uint64_t x) { static const unsigned SRC[] = { 1, 2, 4, 8, 0, 0x33 }; static const char* SN[] = { "TTL", "TAL", "EMV", "APP", "???", "???" }; static const char* LN[] = { "????", "ERROR", "INFO", "CARD", "TRACE", "????", "????" }; unsigned s = x % 6, l = x / 6 % 7, t = x / 42; static const std::vector<Bytes> D = { { 0x70, 0x03, 0x5A, 0x01, 0x11 }, { 0x00, 0xB2, 0x01, 0x0C, 0x00 }, { 0x90, 0x00 }, { 0x6F }, { 0x9F } }; Bytes d = m.pick(D); bool verbose = m.choose(2); static const std::vector<std::string> MSG = { "message", "%s%n%d", std::string(1500, 'x') }; std::string msg = m.pick(MSG);
		iso7816_atr_info_t ai; Bytes atr{ 0x3B, 0x00 }; iso7816_atr_parse(atr.data(), 2, &ai); const void* p = t == EMV_DEBUG_TYPE_ATR ? (void*)&ai : d.data(); size_t n = t == EMV_DEBUG_TYPE_ATR ? sizeof ai : d.size(); unsigned ts = m.choose(2) ? 7 : 4294967295u;
		std::string o = cap(m, [&] { (verbose ? print_emv_debug_verbose : print_emv_debug)(ts, (emv_debug_source_t)SRC[s], (emv_debug_level_t)l, (emv_debug_type_t)t, msg.c_str(), p, n); }); Exp e; e.t(verbose ? f("[%010u,%s,%s] ", ts, SN[s], LN[l]) : f("[%s] ", SN[s]));
		switch (t) { case EMV_DEBUG_TYPE_MSG: e.t(msg + "\n"); break; case EMV_DEBUG_TYPE_ATR: { Exp a = expect_atr(atr, ref_atr(atr.data(), 2), ai); e.t(a.v[0].s); break; } case EMV_DEBUG_TYPE_TLV: { e.t(msg + ": " + hex(d) + "\n"); size_t g = walk(e, true, false, d.data(), d.size(), 1, 0); if (g < d.size()) e.e(hex(d.data() + g, d.size() - g), g); break; }
			case EMV_DEBUG_TYPE_CAPDU: e.t(msg + ": " + hex(d) + (emv_capdu_get_string(d.data(), d.size(), vs_buf, sizeof vs_buf) ? "" : std::string(" (") + vs_buf + ")") + "\n"); break; case EMV_DEBUG_TYPE_RAPDU: { const char* q = d.size() < 2 ? nullptr : iso7816_sw1sw2_get_string(d[d.size() - 2], d.back(), vs_buf, 4096); e.t(msg + ": " + hex(d) + (q && *q ? std::string(" (") + q + ")" : "") + "\n"); break; } default: e.t(msg + ": " + hex(d) + "\n"); }
		match(m, "debug event", o, e); m.state(hash(o)); });
}
