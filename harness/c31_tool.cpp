// C31: emv-tool's main() executed in-process against a stubbed PC/SC service, a simulated card and a user.
// Every dialogue is replayed through the independent reference of the session.
#include "session.h"
#include <setjmp.h>
#include <poll.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <argp.h>
#include <stdio_ext.h>
#include <time.h>
#include <deque>
#include <algorithm>
extern "C" {
#include <print_helpers.h>
int tool_main(int, char**);
extern char __start_decbss[] __attribute__((weak)), __stop_decbss[] __attribute__((weak)), __start_decdata[] __attribute__((weak)), __stop_decdata[] __attribute__((weak));
void __real_exit(int) __attribute__((noreturn));
void __real_argp_error(const struct argp_state*, const char*, ...);
void __real_argp_usage(const struct argp_state*);
int __real_emv_strings_init(const char*, const char*);
time_t __real_time(time_t*);
}
#define PCSC_WORLD_ONLY
#include "c29_pcsc.cpp"
#define TOOL_MAIN tool_main
#define TOOL_NAME "emv-tool"
#include "inproc.h"
static time_t g_now; struct Event { bool verbose; unsigned src, level, type; }; static std::vector<Event> g_ev; static bool g_wrapped = true;
extern "C" {
time_t __wrap_time(time_t* p) { if (!in_tool) return __real_time(p); if (p) *p = g_now; return g_now; }
void __real_print_emv_debug(unsigned, emv_debug_source_t, emv_debug_level_t, emv_debug_type_t, const char*, const void*, size_t);
void __real_print_emv_debug_verbose(unsigned, emv_debug_source_t, emv_debug_level_t, emv_debug_type_t, const char*, const void*, size_t);
void __wrap_print_emv_debug(unsigned t, emv_debug_source_t s, emv_debug_level_t l, emv_debug_type_t y, const char* msg, const void* b, size_t n) { { Host h; g_ev.push_back({ false, (unsigned)s, (unsigned)l, (unsigned)y }); } if (!g_wrapped) __real_print_emv_debug(t, s, l, y, msg, b, n); }
void __wrap_print_emv_debug_verbose(unsigned t, emv_debug_source_t s, emv_debug_level_t l, emv_debug_type_t y, const char* msg, const void* b, size_t n) { { Host h; g_ev.push_back({ true, (unsigned)s, (unsigned)l, (unsigned)y }); } if (!g_wrapped) __real_print_emv_debug_verbose(t, s, l, y, msg, b, n); }
}
// --- reference
static Bytes bcd(uint64_t v, unsigned n) { Bytes b(n); for (unsigned i = n; i--;) { b[i] = v % 10; v /= 10; b[i] |= v % 10 << 4; v /= 10; } return b; }
static Bytes big(uint32_t v) { return { (uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v }; }
static uint8_t b2(int v) { return v / 10 % 10 * 16 + v % 10; }
struct Txn { uint8_t type = 0; uint32_t amount = 1, other = 0; };
static void ref_terminal(RCtx& x, const Txn& t) { // the terminal that the tool is
	x.config = { { 0x9F01, X("000123456789") }, { 0x9F1A, X("0528") }, { 0x9F1B, X("000003E8") }, { 0x9F16, S("0987654321     ") }, { 0x9F1C, S("TID12345") }, { 0x9F1E, S("12345678") }, { 0x9F4E, S("ACME Peanuts") }, { 0x9F33, X("20F8C8") }, { 0x9F35, X("22") }, { 0x9F40, X("FA00F0A3FF") } };
	struct tm c; gmtime_r(&g_now, &c);
	x.params = { { 0x9F41, X("00000042") }, { 0x9A, { b2(c.tm_year), b2(c.tm_mon + 1), b2(c.tm_mday) } }, { 0x9F21, { b2(c.tm_hour), b2(c.tm_min), b2(c.tm_sec) } }, { 0x5F2A, X("0978") }, { 0x5F36, X("02") }, { 0x9C, { t.type } }, { 0x9F02, bcd(t.amount, 6) }, { 0x81, big(t.amount) }, { 0x9F03, bcd(t.other, 6) }, { 0x9F04, big(t.other) } };
	x.aids = { { X("A00000000310"), true }, { X("A0000000032010"), false }, { X("A0000000032020"), false }, { X("A00000000410"), true }, { X("A00000000430"), true } };
}
static std::string capture(const std::function<void()>& fn) { FILE *so, *se; std::string keep; keep.swap(g_out); swap_streams(so, se); fn(); fflush(f_out); stdout = so; stderr = se; std::string o; o.swap(g_out); return o; }
static std::string list_text(const std::vector<F>& l) { emv_tlv_list_t t = EMV_TLV_LIST_INIT; for (auto& q : l) emv_tlv_list_push(&t, q.tag, q.v.size(), q.v.empty() ? nullptr : q.v.data(), 0); std::string s = capture([&] { print_emv_tlv_list(&t); }); emv_tlv_list_clear(&t); return s; }
static std::string app_text(const RApp& a) { return "Application: " + hex(a.aid) + ", " + a.name + (a.pri ? ", Priority " + std::to_string(a.pri) : "") + (a.conf ? ", Cardholder confirmation required" : "") + "\n"; }
static const char* outcome_text(int r) { return r == O_CARD_ERROR ? "Card error" : r == O_BLOCKED ? "Card blocked" : r == O_NOT_ACCEPTED || r == O_GPO ? "Not accepted" : r == O_AGAIN ? "Try again" : "?"; }
static unsigned count(const std::string& s, const std::string& w) { unsigned n = 0; for (size_t p = 0; (p = s.find(w, p)) != std::string::npos; p += w.size()) ++n; return n; }
// --- one execution
struct World {
	Mc& m; svc::Service svc; Card card; std::vector<std::string> lines; std::string input; std::function<std::string(unsigned)> user; // "": the input ends
	std::vector<std::string> want; unsigned outcomes = 0; bool loose = false; bool ended = false; Res r;
	explicit World(Mc& mm) : m(mm), svc(mm), card(mm) {
		svc::Reader d; d.name = "Reader A"; d.state = 0x22; d.card.atr = X("3B6500002063CB6600"); svc.rd = { d }; svc.reply = {};
		svc.card = [this](const Bytes& c, Bytes& out) { Frame f; f.tx = c; f.rc = 0; if (card.log.size() >= 3000) { card.runaway = true; return false; } f.rx = card.respond(c, f.rc); m.step(); m.log("> %s", hex(c).c_str()); if (f.rc) m.log("< failed"); else m.log("< %s", hex(f.rx).c_str()); card.log.push_back(f); out = f.rx; return !f.rc; };
	}
	void go(Args a) {
		svc::S = &svc; svc.del.assign(svc.rd.size(), svc::Delivered()); alloc_reset(); g_ev.clear(); input.clear(); lines.clear();
		g_more = [this] { if (ended) return; std::string l = user ? user(lines.size()) : ""; m.log("user: %s", l.empty() ? "(end of input)" : cut(l).c_str()); if (l.empty()) { ended = true; return; } lines.push_back(l); input += l; };
		r = run(m, a, &input); g_more = nullptr; m.check_deferred();
		m.log("status %d, out: %s err: %s", r.status, cut(r.out.substr(r.out.size() > 400 ? r.out.size() - 400 : 0)).c_str(), cut(r.err).c_str()); if (r.status == -1000) m.fail("endless", "emv-tool %s: goes on for ever after the end of its input", show(a).c_str());
		if (card.runaway) m.fail("endless", "emv-tool %s: never stops sending commands", show(a).c_str());
		if (svc.ctx) m.fail("release", "emv-tool %s: the service context is not released", show(a).c_str());
		if (alloc_live()) m.fail("leak", "emv-tool %s: %zu allocations remain", show(a).c_str(), alloc_live());
	}
	void token(const std::string& s) { want.push_back(s); }
	void outcome(int e) { if (e == E_PARAM) throw Unspecified(); ++outcomes; token(std::string("OUTCOME: ") + outcome_text(e) + "\n"); m.cover(outcome_text(e)); }
	// the whole session, as it had to be
	void reference(const Txn& t) {
		RCtx x; ref_terminal(x, t); Replay rep(m, card, 0); std::vector<RApp> list; size_t k = 0; bool any = false; unsigned prompts = 0;
		token(list_text(x.config)); { std::string a; std::vector<F> l; for (auto& s : x.aids) l.push_back({ 0x9F06, s.aid }); token(list_text(l)); } token(list_text(x.params));
		size_t at = want.size(); bool ok = false; std::vector<std::string> sel;
		try {
			int e = ref_build(rep, x, list, any); if (e) { outcome(e); rep.done(); goto out; }
			for (auto& a : list) token(app_text(a));
			{ bool req = list.size() > 1 || (list.size() == 1 && list[0].conf); if (list.size() > 1) { } 
			for (;;) { unsigned idx = 0;
				if (req) { bool chosen = false; while (!chosen) { ++prompts; for (size_t i = 0; i < list.size(); ++i) token(std::to_string(i + 1) + " - " + list[i].name + "\n"); if (k == lines.size()) break; const std::string& l = lines[k++]; unsigned no = 0; chosen = l.size() >= 2 && l.size() <= 3 && l[0] != '0'; for (size_t i = 0; i + 1 < l.size(); ++i) { chosen &= l[i] >= '0' && l[i] <= '9'; no = no * 10 + (l[i] - '0'); } chosen = chosen && no >= 1 && no <= list.size(); if (chosen) idx = no - 1; else m.cover("selection refused"); }
					if (!chosen) { if (!ended) m.fail("selection", "the user was not asked for a choice"); rep.done(); m.cover("no selection"); goto out; } }
				e = ref_select(rep, x, list, idx); if (e) { outcome(e); if (e == O_AGAIN) continue; rep.done(); goto out; }
				e = ref_initiate(rep, x, 0x05); if (e) { outcome(e); if (e == O_GPO && !list.empty()) continue; rep.done(); goto out; }
				break; } }
			e = ref_read(rep, x); if (e) { outcome(e); if (rep.ordered) rep.done(); goto out; }
			rep.done(); token(list_text(x.icc)); if (!x.terminal_any) token(list_text(x.terminal)); ok = true;
		} catch (Unspecified&) { m.cover("not prescribed"); return; }
	out:
		if (k != lines.size()) m.fail("selection", "\"%s\" was read although no choice was outstanding", cut(lines[k]).c_str());
		size_t p = 0; for (auto& w : want) { size_t q = r.out.find(w, p); if (q == std::string::npos) m.fail("output", "\"%s\" is missing from \"%s\"", cut(w).c_str(), cut(r.out, p).c_str()); p = q + w.size(); }
		unsigned rows = 0, apps = 0; for (size_t i = 0; i < want.size(); ++i) { rows += count(want[i], " : ["); apps += count(want[i], "Application: "); }
		if (count(r.out, " : [") != rows) m.fail("output", "%u fields are shown instead of %u: \"%s\"", count(r.out, " : ["), rows, cut(r.out).c_str());
		if (count(r.out, "OUTCOME: ") + count(r.out, "ERROR: ") != outcomes) m.fail("output", "outcomes: \"%s\"", cut(r.out, r.out.find("Terminal config")).c_str());
		if (count(r.out, "Application: ") != apps) m.fail("output", "candidates: \"%s\"", cut(r.out).c_str());
		if (count(r.out, " - ") && prompts == 0 && !count(r.out, "- ")) m.fail("output", "a choice was offered");
		if (ok) { m.cover("transaction completed"); } m.state(hmix(card.h, hash(r.out.data(), r.out.size())));
	}
};
static Args args_of(const Txn& t) { char b[3][40]; sprintf(b[0], "--txn-type=%02X", t.type); sprintf(b[1], "--txn-amount=%u", t.amount); sprintf(b[2], "--txn-amount-other=%u", t.other); return { b[0], b[1], b[2] }; }
// --- cards
static const Bytes VISA = X("A0000000031010"), MC = X("A0000000041010"), MAES = X("A0000000043060"), ELEC = X("A0000000032010"), OTHER = X("A0000000651010");
static const Bytes PDOL = X("9F0206 9F0306 8104 9F0404 9C01 9A03 9F2103 5F2A02 5F3601 9F4104 9F1A02 9F3303 9F3501 9F4005 9F1E08 9F1C08 9F160F 9F4E0C 9F0106 9F1B04 9F3901 9F0607 9505 9B02");
struct Profile { const char* name; std::vector<std::pair<Bytes, int>> apps; bool pse; Bytes pdol; bool fmt2 = false; };
static std::vector<Profile> PROF;
static Ans prof_answer(const Profile& p, const Bytes& c) {
	if (c.size() < 5 || (c[1] == 0xA4 && c.size() < 5u + c[4])) return A(0x6700);
	if (c[1] == 0xA4) { Bytes name(c.begin() + 5, c.begin() + 5 + c[4]); bool next = c[3] & 2; if (name == PSE) return p.pse ? A(fci(PSE, tlv(0x88, { 1 }) + tlv(0x5F2D, S("en")))) : A(0x6A82);
		for (auto& a : p.apps) if (name.size() <= a.first.size() && std::equal(name.begin(), name.end(), a.first.begin()) && !next) return A(fci(a.first, tlv(0x50, S("APP") + Bytes{ (uint8_t)('A' + (&a - &p.apps[0])) }) + (a.second < 0 ? Bytes() : tlv(0x87, { (uint8_t)a.second })) + (p.pdol.empty() ? Bytes() : tlv(0x9F38, p.pdol))));
		return A(0x6A82); }
	if (c[1] == 0xB2 && c[3] == 0x0C) { if (c[2] != 1) return A(0x6A83); Bytes e; unsigned i = 0; for (auto& a : p.apps) cat(e, entry(a.first, (std::string("APP") + char('A' + i++)).c_str(), a.second)); return A(tlv(0x70, e)); }
	if (c[1] == 0xA8) return p.fmt2 ? A(tlv(0x77, tlv(0x94, X("10010200")) + tlv(0x82, X("1980")))) : A(tlv(0x80, X("3900 10010200")));
	if (c[1] == 0xB2 && c[3] == 0x14) { Bytes a = tlv(0x5F24, X("251231")) + tlv(0x5A, X("4111111111111111")), b = tlv(0x8C, X("9F0206")) + tlv(0x8D, X("8A02")) + tlv(0x5F20, S("A%sB")); return A(tlv(0x70, c[2] == 1 ? a : b)); }
	return A(0x6D00);
}
static Bytes cat2(Bytes a, const Bytes& b) { cat(a, b); return a; }
static std::string menu(Mc& m, unsigned napps) { static const std::vector<std::string> S = { "1\n", "2\n", "3\n", "", "0\n", "9\n", "x\n", "\n", "-1\n", "10000000002\n", "4294967297\n", "100002\n" }; return m.pick(S); }
// a real process: what the argument parser of the C library does by itself ends there (no command line given to it may reach the service)
static Res child(Mc& m, const Args& args) {
	int po[2], pe[2]; if (pipe(po) || pipe(pe)) abort(); m.log("real " TOOL_NAME " %s", show(args).c_str()); static char self[4096]; if (!*self && readlink("/proc/self/exe", self, sizeof self - 1) < 0) abort();
	pid_t p = fork();
	if (!p) { int n = open("/dev/null", O_RDONLY); dup2(n, 0); dup2(po[1], 1); dup2(pe[1], 2); for (int i = 3; i < 64; ++i) close(i); setenv("C28_TOOL", "1", 1); std::vector<char*> av; av.push_back((char*)TOOL_NAME); for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr); execv(self, av.data()); _exit(126); }
	close(po[1]); close(pe[1]); Res r; bool o = true, e = true;
	while (o || e) { struct pollfd q[2] = { { o ? po[0] : -1, POLLIN, 0 }, { e ? pe[0] : -1, POLLIN, 0 } }; if (poll(q, 2, 60000) <= 0) { kill(p, SIGKILL); break; } char b[65536]; for (int i = 0; i < 2; ++i) if (q[i].revents) { ssize_t n = read(i ? pe[0] : po[0], b, sizeof b); if (n <= 0) (i ? e : o) = false; else (i ? r.err : r.out).append(b, n); } }
	close(po[0]); close(pe[0]); int st; waitpid(p, &st, 0); r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); m.step(); return r;
}
static void setup31() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough"); static bool TH; TH = th; svc::sink = fopen("/dev/null", "w"); g_now = 1709251199; setenv("TZ", "UTC", 1); tzset();
	cookie_io_functions_t o = { nullptr, w_out, nullptr, nullptr }, e = { nullptr, w_err, nullptr, nullptr }; f_out = fopencookie(nullptr, "w", o); f_err = fopencookie(nullptr, "w", e); setvbuf(f_out, nullptr, _IOFBF, 65536); setvbuf(f_err, nullptr, _IOFBF, 65536);
	snap.resize(__stop_decdata - __start_decdata); raw_copy(snap.data(), __start_decdata, snap.size());
	PROF = { { "directory, two", { { VISA, 2 }, { MC, 1 } }, true, PDOL }, { "directory, one", { { VISA, 1 } }, true, {} }, { "confirmation", { { VISA, 0x81 } }, true, PDOL, true }, { "no directory, two", { { VISA, -1 }, { MC, -1 } }, false, {} }, { "no directory, one", { { ELEC, 1 } }, false, PDOL }, { "three", { { VISA, 3 }, { MAES, 0x82 }, { MC, 1 } }, true, {}, true }, { "none", { { OTHER, 1 } }, true, {} }, { "one known", { { OTHER, 1 }, { MC, 1 } }, true, PDOL } };
	// sessions: any answers of the user, and up to one (two) unexpected answers of the card
	add("sessions", PROF.size() * 16, [](Mc& m, uint64_t x) { const Profile& p = PROF[x % PROF.size()]; unsigned at = x / PROF.size(); World w(m); unsigned n = 0; m.budget = TH ? 1 : 0; bool first = false;
		w.card.answer = [&](const Bytes& c) { unsigned k = n++, d = k == at ? (first = true, m.choose(11)) : k > at ? m.deviate(11) : 0; switch (d) { case 1: return Fault(-5); case 2: return A(0x6A82); case 3: return A(0x6A81); case 4: return A(0x6985); case 5: { Ans a = prof_answer(p, c); a.sw = 0x6283; return a; } case 6: return A(X("6F028400")); case 7: return A(Bytes()); case 8: { Ans a = prof_answer(p, c); if (!a.data.empty()) a.data.pop_back(); return a; } case 9: return Raw({}); case 10: return A(Bytes(200, 0x41)); } return prof_answer(p, c); };
		unsigned asks = 0; w.user = [&](unsigned i) -> std::string { static const std::vector<std::string> few = { "1\n", "2\n", "" }; return i >= 3 ? "" : TH && i == 2 ? m.pick(few) : menu(m, 0); }; Txn t; w.go(args_of(t)); if (!first && at) { m.skip(); return; } w.reference(t); }, 8);
	// cards that refuse the applications one after the other, and long dialogues with the user
	add("refusals", 3 * 3 * 3 * 4, [](Mc& m, uint64_t x) { unsigned how[3] = { (unsigned)(x % 3), (unsigned)(x / 3 % 3), (unsigned)(x / 9 % 3) }; Profile p = PROF[x / 27 == 0 ? 5 : x / 27 == 1 ? 0 : x / 27 == 2 ? 3 : 2]; World w(m); int cur = -1; w.card.answer = [&](const Bytes& c) { Ans a = prof_answer(p, c); if (c[1] == 0xA4) { Bytes name(c.begin() + 5, c.begin() + 5 + c[4]); cur = -1; for (size_t i = 0; i < p.apps.size() && i < 3; ++i) if (p.apps[i].first == name) cur = i; if (cur >= 0 && how[cur] == 1) return A(0x6A82); } if (c[1] == 0xA8 && cur >= 0 && how[cur] == 2) return A(0x6985); return a; };
		static const std::vector<std::string> L = { "1\n", "2\n", "3\n", "x\n", "" }; w.user = [&](unsigned i) -> std::string { return i >= (TH ? 7u : 6u) ? "" : m.pick(L); }; Txn t; w.go(args_of(t)); w.reference(t); });
	// long lists of candidates
	add("many candidates", 26 * 28, [](Mc& m, uint64_t x) { unsigned n = 1 + x / 28, no = x % 28; if (no > n + 1) { m.skip(); return; } Profile p = PROF[0]; p.apps.clear(); unsigned order = m.choose(3); for (unsigned i = 0; i < n; ++i) p.apps.push_back({ cat2(i % 2 ? VISA : MC, { (uint8_t)i }), order == 0 ? -1 : order == 1 ? 1 + (int)i % 15 : 15 - (int)i % 15 }); World w(m); bool refuse = m.choose(2); unsigned gpo = 0; bool two = m.choose(2);
		w.card.answer = [&](const Bytes& c) { if (c[1] == 0xA8 && !gpo++ && refuse) return A(0x6985); if (c[1] == 0xB2 && c[3] == 0x0C) { unsigned per = two ? 5 : 10, from = (c[2] - 1) * per; if (from >= n) return A(0x6A83); Bytes e; for (unsigned i = from; i < n && i < from + per; ++i) cat(e, entry(p.apps[i].first, (std::string("APP") + char('A' + i)).c_str(), p.apps[i].second)); return A(tlv(0x70, e)); } return prof_answer(p, c); };
		w.user = [&](unsigned i) -> std::string { return i == 0 ? std::to_string(no) + "\n" : i == 1 ? std::to_string(n > 1 ? n - 1 : 1) + "\n" : i == 2 ? "1\n" : ""; }; Txn t; w.go(args_of(t)); w.reference(t); m.cover("many candidates"); });
	// what the user types
	add("choices", 256, [](Mc& m, uint64_t x) { World w(m); w.card.answer = [&](const Bytes& c) { return prof_answer(PROF[5], c); }; unsigned len = 1 + m.choose(5); std::string s; for (unsigned i = 0; i < len; ++i) s += i == len - 1 && m.choose(2) ? (char)(x ? x : 1) : "x91"[i % 3]; if (s.find('\n') != std::string::npos || s.find_first_of("0123456789") == 0 || s.find_first_of(" \t\v\f\r+") == 0) { m.skip(); return; } s += m.choose(2) ? "2" : ""; s += '\n'; w.user = [&](unsigned i) -> std::string { return i == 0 ? s : i == 1 ? "3\n" : ""; }; Txn t; w.go(args_of(t)); w.reference(t); m.cover("text"); });
	add("large numbers", 24, [](Mc& m, uint64_t x) { World w(m); w.card.answer = [&](const Bytes& c) { return prof_answer(PROF[5], c); }; static const char* P[] = { "1", "4", "9", "10", "42949672", "429496729", "-", "99999999999999999999" }; std::string s = P[x % 8]; s += std::to_string(x / 8 + 1); for (unsigned i = m.choose(8); i; --i) s += '0'; if (m.choose(2)) s += "002"; s += '\n'; w.user = [&](unsigned i) -> std::string { return i == 0 ? s : i == 1 ? "1\n" : ""; }; Txn t; w.go(args_of(t)); w.reference(t); });
	// transaction parameters
	add("amounts", 40, [](Mc& m, uint64_t x) { static const std::vector<uint64_t> V = { 0, 1, 5, 9, 10, 11, 99, 100, 101, 255, 256, 999, 1000, 65535, 65536, 99999, 100000, 999999, 1000000, 9999999, 10000000, 16777216, 99999999, 100000000, 123456789, 999999999, 1000000000, 2147483647, 2147483648u, 4294967294u, 4294967295u, 4294967296, 4294967297, 8589934593, 99999999999, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull }; if (x >= V.size()) { m.skip(); return; } uint64_t v = V[x], u = m.pick(V); unsigned k = m.choose(3); static const uint8_t T[] = { 0x00, 0x09, 0x30 }; Txn t; t.type = T[k]; t.amount = v; t.other = u; World w(m); w.card.answer = [&](const Bytes& c) { return prof_answer(PROF[4], c); }; char b[4][60]; sprintf(b[0], "--txn-type=%02X", t.type); sprintf(b[1], "--txn-amount=%llu", (unsigned long long)v); sprintf(b[2], "--txn-amount-other=%llu", (unsigned long long)u); w.go({ b[0], b[1], b[2] });
		bool bad = v > 0xFFFFFFFF || u > 0xFFFFFFFF || (!v && k != 2) || (k == 1 && !u); if (!bad) return w.reference(t); m.cover("amount refused"); if (w.r.err.empty() || !w.card.log.empty()) m.fail("refused", "emv-tool %s %s %s: accepted", b[0], b[1], b[2]); });
	add("transaction types", 11 * 11, [](Mc& m, uint64_t x) { static const char A[] = "0139aAF -+."; unsigned len = m.choose(4); std::string s; if (len > 0) s += A[x % 11]; else if (x) { m.skip(); return; } if (len > 1) s += A[x / 11]; else if (x / 11) { m.skip(); return; } if (len > 2) s += A[m.choose(11)]; bool ok = len == 2 && isdigit(s[0]) && isdigit(s[1]); Txn t; t.amount = 7; t.other = 8; if (ok) t.type = (s[0] - '0') * 16 + s[1] - '0'; World w(m); w.card.answer = [&](const Bytes& c) { return prof_answer(PROF[4], c); }; w.go({ "--txn-type=" + s, "--txn-amount=7", "--txn-amount-other=8" }); if (ok) return w.reference(t); m.cover("type refused"); if (w.r.err.empty() || !w.card.log.empty() || !w.r.status) m.fail("refused", "emv-tool --txn-type='%s': accepted", s.c_str()); });
	add("all transaction types", 100, [](Mc& m, uint64_t x) { Txn t; t.type = b2(x); t.amount = 7; t.other = 8; World w(m); w.card.answer = [&](const Bytes& c) { return prof_answer(PROF[4], c); }; w.go(args_of(t)); w.reference(t); });
	add("malformed amounts", 32, [](Mc& m, uint64_t x) { static const char* V[] = { "", "a", "1a", "a1", "1.00", "1,0", "-1", "-5", "-18446744073709551615", "-18446744069414584321", "+5", "0x10", "99999999999999999999", "18446744073709551616", "1 ", "1\n", " ", "--1", "1e3", "\xC2\xB2", "1-", " 5", "\t7" }; if (x >= sizeof V / sizeof *V) { m.skip(); return; } bool other = m.choose(2); std::string a = std::string(other ? "--txn-amount-other=" : "--txn-amount=") + V[x]; World w(m); w.card.answer = [&](const Bytes& c) { return prof_answer(PROF[4], c); }; w.go({ a, other ? "--txn-amount=5" : "--txn-amount-other=5" }); m.cover("amount refused"); if (w.r.err.empty() || !w.card.log.empty() || !w.r.status) m.fail("refused", "emv-tool %s: accepted", cut(a).c_str()); });
	add("moments", 64 + 366 + 136 + 60, [](Mc& m, uint64_t x) { static const time_t V[] = { 0, 59, 3599, 86399, 86400, 951782399, 951782400, 951868799, 951868800, 1000000000, 1078012799, 1230767999, 1230768000, 1704067199, 1704067200, 1709164800, 1709251199, 1709251200, 1735689599, 2147483647, 2147483648, 4102444799, 4102444800, 4107542399 }; if (x < 64 && x >= sizeof V / sizeof *V) { m.skip(); return; } time_t keep = g_now; if (x < 64) { g_now = V[x]; if (m.choose(2)) g_now += 43200; } else if (x < 64 + 366) { x -= 64; g_now = 1704067200 + x * 86400 + x % 24 * 3600 + x * 7 % 60 * 60 + x * 11 % 60; } else if (x < 64 + 366 + 136) { struct tm y = {}; y.tm_year = 70 + (x - 430); y.tm_mon = m.choose(2) ? 11 : 0; y.tm_mday = y.tm_mon ? 31 : 1; y.tm_hour = 23; y.tm_min = 59; y.tm_sec = 59; g_now = timegm(&y); } else { x -= 566; g_now = 1704067200 + x % 24 * 3600 + x * 60 + x; } World w(m); w.card.answer = [&](const Bytes& c) { return prof_answer(PROF[4], c); }; Txn t; w.go(args_of(t)); w.reference(t); g_now = keep; });
	add("command lines", 8 * 6 * 4, [](Mc& m, uint64_t x) { unsigned mask = x % 8, ord = x / 8 % 6, fault = x / 48; static const unsigned O[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } }; static const uint8_t T[] = { 0x00, 0x09, 0x20, 0x30 }; Txn t; t.type = mask & 1 ? T[m.choose(4)] : 0; t.amount = mask & 2 ? 7 : 0; t.other = mask & 4 ? 1234567 : 0; char b[3][20]; sprintf(b[0], "%02X", t.type); sprintf(b[1], "%u", t.amount); sprintf(b[2], "%u", t.other); static const char* N[] = { "--txn-type", "--txn-amount", "--txn-amount-other" };
		Args a; unsigned given = 0; for (unsigned i : O[ord]) if (mask >> i & 1) { ++given; if (m.choose(2)) a.push_back(std::string(N[i]) + "=" + b[i]); else { a.push_back(N[i]); a.push_back(b[i]); } } bool bad = (!t.amount && t.type != 0x30) || (t.type == 0x09 && !t.other);
		if (fault == 1 || fault == 2) { if (fault == 1) a.push_back(N[m.choose(3)]); else a.insert(a.begin() + (m.choose(2) ? a.size() : 0), "5"); Res r = child(m, a); if (!r.status || r.status >= 99 || r.err.empty() || r.out.find("ICC data") != std::string::npos) m.fail("refused", "emv-tool %s: ended with %d: %s", show(a).c_str(), r.status, cut(r.err).c_str()); m.cover("command line refused"); return; } if (fault == 3) { a.push_back("--debug-verbose"); a.push_back("--debug-level"); a.push_back("NONE"); a.push_back("--debug-source"); a.push_back("EMV"); } if (a.empty()) bad = true;
		World w(m); w.card.answer = [&](const Bytes& c) { return prof_answer(PROF[4], c); }; w.go(a); if (!bad) { m.cover("command line accepted"); if (fault == 3 && !g_ev.empty()) m.fail("debug", "events although none were asked for"); return w.reference(t); } m.cover("command line refused"); if ((w.r.err.empty() && !a.empty()) || !w.card.log.empty() || !w.r.status) m.fail("refused", "emv-tool %s: accepted", show(a).c_str()); });
	add("command lines of the parser", 12, [](Mc& m, uint64_t x) { static const char* V[] = { "--frob", "-z", "--txn-typ", "--help", "-?", "--usage", "--version", "--frob=1", "--debug-verbose=1", "--txn", "-V", "--debug" }; Args a{ V[x] }; bool after = m.choose(2); if (after) a.insert(a.begin(), "--txn-amount=5"); Res r = child(m, a); bool help = x >= 3 && x <= 6 && (x != 6 || r.status == 0); if (r.status >= 99 || r.out.find("ICC data") != std::string::npos) m.fail("refused", "emv-tool %s: ended with %d: %s", show(a).c_str(), r.status, cut(r.err).c_str());
		if (help) { if (r.status || (r.out.empty() && r.err.empty())) m.fail("help", "emv-tool %s: status %d", show(a).c_str(), r.status); if (x == 3 || x == 4) for (const char* o : { "--txn-type", "--txn-amount", "--txn-amount-other", "--debug-verbose", "--debug-source", "--debug-level" }) if ((r.out + r.err).find(o) == std::string::npos) m.fail("help", "emv-tool %s does not mention %s: %s", show(a).c_str(), o, cut(r.out).c_str()); m.cover("help"); return; }
		if (!r.status || r.err.empty()) m.fail("refused", "emv-tool %s: ended with %d", show(a).c_str(), r.status); m.cover("command line refused"); });
	// debugging
	add("debugging", 32 * 7, [](Mc& m, uint64_t x) { unsigned mask = x % 32, lv = x / 32; static const char* SN[] = { "TTL", "TAL", "EMV", "APP", "ALL" }; static const char* LN[] = { "NONE", "ERROR", "INFO", "CARD", "TRACE", "ALL", nullptr }; unsigned style = m.choose(3); bool verbose = m.choose(2); unsigned prof = m.choose(2) ? 0 : 4, bad = m.choose(2); std::string s; auto low = [&](std::string q) { if (style == 1) for (auto& c : q) c = tolower(c); return q; }; std::vector<unsigned> ord; for (unsigned i = 0; i < 5; ++i) if (mask >> i & 1) ord.push_back(i); if (style == 2) std::reverse(ord.begin(), ord.end()); for (unsigned i : ord) s += (s.empty() ? "" : ",") + low(SN[i]);
		auto one = [&](World& w, Args a) { w.card.answer = [&, bad](const Bytes& c) { Ans q = prof_answer(PROF[prof], c); if (bad && c[1] == 0xB2 && c[3] == 0x14) q.data.pop_back(); return q; }; w.user = [&](unsigned i) -> std::string { return i ? "" : "1\n"; }; for (auto& z : args_of(Txn())) a.push_back(z); w.go(a); };
		World all(m); one(all, { "--debug-source=TTL,TAL,EMV,APP", "--debug-level=TRACE" }); std::vector<Event> ev = g_ev; all.reference(Txn()); unsigned seen = 0; for (auto& q : ev) seen |= q.src; if (seen != 15 && (seen | 2) != 15) m.fail("debug", "no events from sources %X", 15 & ~seen);
		Args a; if (mask) a.push_back("--debug-source=" + s); if (LN[lv]) a.push_back(std::string("--debug-level=") + low(LN[lv])); if (verbose) a.push_back("--debug-verbose"); World w(m); one(w, a); unsigned eff = !mask || mask >> 4 ? 15 : mask, el = lv == 6 ? 2 : lv == 5 ? 4 : lv; std::vector<Event> want; for (auto& q : ev) if ((q.src & eff) && q.level <= el) want.push_back(q);
		bool same = want.size() == g_ev.size(); for (size_t i = 0; same && i < want.size(); ++i) same = want[i].src == g_ev[i].src && want[i].level == g_ev[i].level && want[i].type == g_ev[i].type && g_ev[i].verbose == verbose; if (!same) m.fail("debug", "emv-tool %s: %zu events of the %zu that were asked for are shown", show(a).c_str(), g_ev.size(), want.size()); w.reference(Txn()); m.cover("debug events"); m.state(hmix(want.size(), mask * 100 + lv * 2 + verbose)); });
	add("debug arguments", 20, [](Mc& m, uint64_t x) { static const char* V[] = { "--debug-source=XYZ", "--debug-source=TTL,XYZ", "--debug-source=TTLX", "--debug-source=TT", "--debug-level=XYZ", "--debug-level=", "--debug-level=5", "--debug-level=INF", "--debug-level=INFOX", "--debug-source=EMV TTL" }; if (x >= sizeof V / sizeof *V) { m.skip(); return; } World w(m); w.card.answer = [&](const Bytes& c) { return prof_answer(PROF[4], c); }; w.go({ V[x], "--txn-amount=5" }); if (w.r.err.empty() || !w.card.log.empty() || !w.r.status) m.fail("refused", "emv-tool %s: accepted", V[x]); });
	add("printed debugging", PROF.size() * 2, [](Mc& m, uint64_t x) { g_wrapped = false; World w(m); const Profile& p = PROF[x % PROF.size()]; w.card.answer = [&](const Bytes& c) { Ans a = prof_answer(p, c); if (m.deviate(2)) a.data.push_back(0x9F); return a; }; m.budget = 2; w.user = [&](unsigned i) -> std::string { return i ? "" : "1\n"; }; Args a = args_of(Txn()); a.push_back("--debug-level=ALL"); if (x / PROF.size()) a.push_back("--debug-verbose"); w.go(a); g_wrapped = true; if (count(w.r.out, "TTL") < 2) m.fail("debug", "no debug output"); m.state(hash(w.r.out.data(), w.r.out.size())); });
	// readers
	add("readers", 4 * 4, [](Mc& m, uint64_t x) { World w(m); w.svc.rd.clear(); unsigned n = x % 4; static const char* N[] = { "Reader A", "Z", "Reader B 100%s" }; static const DWORD EV[] = { 0x12, 0x22, 0x0C, 0x222, 0x422, 0x00 }; static const char* ST[] = { "No card", "Card present", "Status unavailable", "Unresponsive card", "Unpowered card", "Unknown" }; std::vector<unsigned> st; int found = -1;
		for (unsigned i = 0; i < n; ++i) { svc::Reader d; d.name = N[i]; d.card.atr = X("3B6500002063CB6600"); unsigned s = m.choose(6); st.push_back(s); d.state = EV[s]; if ((EV[s] & 0x20) && found < 0) found = i; unsigned fs = i == 0 ? x / 4 : 0; if (fs == 1) d.features = svc::feat(6, 0x42330001); if (fs == 2) d.features = svc::feat(6, 0x42330001) + svc::feat(7, 0x42330007) + svc::feat(8, 0x42330008) + svc::feat(9, 0x42330009); if (fs == 3) d.features = svc::feat(8, 0x42330008) + svc::feat(0x30, 1); w.svc.rd.push_back(d); }
		w.card.answer = [&](const Bytes& c) { return prof_answer(PROF[4], c); }; Txn t; w.go(args_of(t)); const std::string& o = w.r.out; size_t p = 0; for (unsigned i = 0; i < n; ++i) { std::string h = "Reader " + std::to_string(i) + ": " + N[i] + "\n"; p = o.find(h, p); if (p == std::string::npos) m.fail("readers", "reader %u is not listed: %s", i, cut(o).c_str()); size_t e = o.find("State: ", p); std::string para = o.substr(p, e - p); if (e == std::string::npos || o.compare(e + 7, strlen(ST[st[i]]), ST[st[i]])) m.fail("readers", "state %X is shown as %s", (unsigned)EV[st[i]], cut(o.substr(e, 40)).c_str()); unsigned fs = i == 0 ? x / 4 : 0; static const char* FN[] = { "PIN verification", "PIN modification", "MCT direct", "MCT universal" }; for (unsigned k = 0; k < 4; ++k) if ((para.find(FN[k]) != std::string::npos) != (fs == 2 || (fs == 1 && k == 0) || (fs == 3 && k == 2))) m.fail("readers", "feature %s: %s", FN[k], cut(para).c_str()); p = e; }
		if (found < 0 || (w.svc.timeout)) { if (!w.card.log.empty()) m.fail("readers", "a command was sent without a card"); m.cover("no card"); return; } if (w.svc.rd[found].state & 0x200) { } if (o.find("Reader " + std::to_string(found) + ": " + N[found], p) == std::string::npos) m.fail("readers", "the reader that holds the card is not named: %s", cut(o, p).c_str()); w.reference(t); });
	add("many readers", 24 * 25, [](Mc& m, uint64_t x) { unsigned n = 1 + x / 25, at = x % 25; if (at > n) { m.skip(); return; } World w(m); w.svc.rd.clear(); auto name = [&](unsigned i) { return "Model " + std::string(1 + i, 'a' + i % 26) + " " + std::to_string(n - i); }; for (unsigned i = 0; i < n; ++i) { svc::Reader d; d.name = name(i); d.card.atr = X("3B6500002063CB6600"); d.state = i == at ? 0x22 : i % 3 ? 0x12 : 0x0C; d.features = svc::feat(i % 2 ? 6 : 8, 0x42330001); w.svc.rd.push_back(d); }
		w.card.answer = [&](const Bytes& c) { return prof_answer(PROF[4], c); }; Txn t; w.go(args_of(t)); const std::string& o = w.r.out; size_t p = 0; for (unsigned i = 0; i < n; ++i) { std::string h = "Reader " + std::to_string(i) + ": " + name(i) + "\n"; p = o.find(h, p); if (p == std::string::npos) m.fail("readers", "reader %u of %u is not listed: %s", i, n, cut(o).c_str()); size_t e = o.find("State: ", p); std::string para = o.substr(p, e - p), st = i == at ? "Card present" : i % 3 ? "No card" : "Status unavailable"; if (e == std::string::npos || o.compare(e + 7, st.size(), st)) m.fail("readers", "the state of reader %u of %u is wrong: %s", i, n, cut(o, p).c_str()); if ((para.find("PIN verification") != std::string::npos) != (i % 2 == 1) || (para.find("MCT direct") != std::string::npos) != (i % 2 == 0)) m.fail("readers", "the features of reader %u of %u are wrong: %s", i, n, cut(o, p).c_str()); p = e; }
		if (at == n) { if (!w.card.log.empty()) m.fail("readers", "a command was sent without a card"); m.cover("no card"); return; } if (o.find("Reader " + std::to_string(at) + ": " + name(at), p) == std::string::npos) m.fail("readers", "the reader that holds the card is not named: %s", cut(o, p).c_str()); w.reference(t); m.cover("many readers"); });
	add("reader properties", 3 * 3 * 3, [](Mc& m, uint64_t x) { unsigned lay = x % 3, chr = x / 3 % 3, pin = x / 9; unsigned usb = m.choose(3); bool strct = m.choose(2); Bytes pr; if (lay == 1) cat(pr, X("01020000")); if (lay == 2) cat(pr, X("01021402")); if (chr == 1) cat(pr, X("040215000502 0300")); if (chr == 2) cat(pr, X("040215000502 0000")); if (pin == 1) cat(pr, X("060104070108")); if (pin == 2) cat(pr, X("060105")); if (usb == 1) cat(pr, X("0B02E6080C023734")); if (usb == 2) cat(pr, X("0B02E608")); World w(m); svc::Reader d = w.svc.rd[0]; if (strct && (lay || chr)) { pr.clear(); if (pin || usb) { m.skip(); return; } if (lay) { d.features = svc::feat(0x0A, 0x4233AA01); d.control[0x4233AA01] = lay == 1 ? X("00000000") : X("14020000"); } if (chr) { d.features = d.features + svc::feat(0x11, 0x4233AA02); d.control[0x4233AA02] = chr == 1 ? X("15000300") : X("15000000"); } } else if (strct) { m.skip(); return; } else { d.features = svc::feat(0x12, 0x4233AA03); d.control[0x4233AA03] = pr; }
		w.svc.rd = { d }; w.card.answer = [&](const Bytes& c) { return prof_answer(PROF[4], c); }; Txn t; w.go(args_of(t)); size_t b = w.r.out.find("Reader 0"), e = w.r.out.find("State:"); std::string para = b == std::string::npos || e == std::string::npos ? "" : w.r.out.substr(b, e - b); auto must = [&](bool want, const char* s) { if ((para.find(s) != std::string::npos) != want) m.fail("properties", "\"%s\" is %s: %s", s, want ? "missing" : "shown", cut(para).c_str()); };
		must(lay == 1, "No LCD"); must(lay == 2, "LCD 20 x 2"); must(chr == 1, "LCD 21 x 3"); must(lay || chr, "LCD"); must(pin == 1, "PIN size 4-8"); must(pin == 2, "PIN size 5+"); must(pin != 0, "PIN size"); must(usb == 1, "08e6:3437"); w.reference(t); m.cover("properties"); m.state(hash(para.data(), para.size())); });
	// cards of other kinds
	add("other cards", 12, [](Mc& m, uint64_t x) { World w(m); svc::Card& c = w.svc.rd[0].card; int want = 0; Txn t; switch (x) { case 0: c.atr = X("3B8F8001804F0CA000000306030001000000006A"); c.uid = X("040102039000"); want = 1; break; case 1: c.present = false; want = 1; break; case 2: c.atr = X("3B"); want = 1; break; case 3: c.atr = X("3A6500002063CB6600"); want = 1; break; case 4: c.atr = X("3F650000B0B1B2B3B4"); break; case 5: c.atr = X("3BE000008131204C"); c.protocol = SCARD_PROTOCOL_T1; want = 2; break; case 6: c.atr = {}; want = 1; break; case 7: w.svc.timeout = true; want = 1; break; case 8: w.svc.rd.clear(); want = 1; break; case 9: w.svc.rd[0].state = 0x12; w.svc.timeout = true; want = 1; break; case 10: c.atr = X("3B8F8001804F0CA000000306030001000000006A"); c.uid = X("6F00"); want = 1; break; case 11: c.atr = X("3B6500002063CB66"); want = 1; break; }
		w.card.answer = [&](const Bytes& c2) { return prof_answer(PROF[4], c2); }; w.go(args_of(t)); if (want == 0) return w.reference(t); if (want == 1 && !w.card.log.empty()) m.fail("card", "case %u: commands were sent", (unsigned)x); if (want == 1 && w.r.out.find("ICC data") != std::string::npos) m.fail("card", "case %u", (unsigned)x); m.cover("no session"); });
	// refused service calls anywhere
	add("service failures", 3 * 3, [](Mc& m, uint64_t x) { World w(m); const Profile& p = PROF[x % 3]; for (unsigned i = 0; i < x / 3; ++i) { svc::Reader d = w.svc.rd[0]; d.name = i ? "Y" : "Z"; d.features = svc::feat(6, 1) + svc::feat(0x12, 0x4233AA03); d.control[0x4233AA03] = X("0102140206010407010B"); w.svc.rd.push_back(d); } w.svc.faults = true; m.budget = TH ? 3 : 2; w.card.answer = [&](const Bytes& c) { return prof_answer(p, c); }; w.user = [&](unsigned i) -> std::string { return i > 3 ? "" : "1\n"; }; Txn t; w.go(args_of(t)); if (!w.svc.injected) return w.reference(t); bool done = w.r.out.find("Terminal data") != std::string::npos; if (!done && w.r.out.find("OUTCOME") == std::string::npos && w.r.out.find("ERROR") == std::string::npos) { std::string l; for (char c : w.r.out + w.r.err) l += tolower(c); bool told = false; for (const char* k : { "fail", "error", "no card", "no pc/sc", "unknown", "unable" }) told |= l.find(k) != std::string::npos; if (!told) m.fail("service", "a service failure ended the tool without a word: %s", cut(w.r.out).c_str()); } m.cover("service failure"); m.state(hmix(hash(w.r.out.data(), w.r.out.size()), w.svc.injected)); }, 4);
	// texts of outcomes
	add("outcomes", 512, [](Mc& m, uint64_t k) { int e = (int)k - 256; m.step(2); std::string o = emv_outcome_get_string((emv_outcome_t)e), r = emv_error_get_string((emv_error_t)e); bool known = e == O_CARD_ERROR || e == O_BLOCKED || e == O_NOT_ACCEPTED || e == O_AGAIN || e == O_GPO; if (known ? o != outcome_text(e) : o == "Card error" || o == "Card blocked" || o == "Not accepted" || o == "Try again") m.fail("outcome", "outcome %d is called %s", e, o.c_str()); bool ke = e == EMV_ERROR_INTERNAL || e == EMV_ERROR_INVALID_PARAMETER; if (ke != (r != emv_error_get_string((emv_error_t)99)) || (ke && emv_error_get_string((emv_error_t)EMV_ERROR_INTERNAL) == std::string(emv_error_get_string((emv_error_t)EMV_ERROR_INVALID_PARAMETER)))) m.fail("error", "error %d is called %s", e, r.c_str()); m.state(hash(o.data(), o.size())); });
}
static struct Init31 { Init31() { setup_hook = setup31; } } init31_;
