// C27: debug events: delivery, and freedom from side effects
#define C17_WORLD_ONLY
#include "c17_history.cpp"
#include <emv_debug.h>
#include <emv.h>
extern "C" void shim_emit(int source, int kind, const char* text, unsigned n, const void* buf, size_t len); extern "C" size_t shim_atr_size(void);
struct Event { int who; int source, level, type; std::string text; const void* buf; size_t len; uint64_t h; };
static std::vector<Event> events; static bool deep, altered; static void (*inside)(const Event&);
static void seen(int who, enum emv_debug_source_t s, enum emv_debug_level_t l, enum emv_debug_type_t t, const char* str, const void* buf, size_t len) {
	Host host; Event e{ who, (int)s, (int)l, (int)t, str, buf, len, 0 }; if (buf && len) e.h = hash(buf, len); events.push_back(e); if (inside) { std::string was = str; inside(e); if (was != str || buf && len && hash(buf, len) != e.h) altered = true; }
}
// the clocks, while the harness holds them
static bool held; static struct timespec fake; static unsigned stamp;
extern "C" int __real_timespec_get(struct timespec*, int); extern "C" int __real_clock_gettime(clockid_t, struct timespec*); extern "C" int __real_gettimeofday(struct timeval*, void*);
extern "C" int __wrap_timespec_get(struct timespec* t, int b) { if (!held) return __real_timespec_get(t, b); *t = fake; return b; }
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec* t) { if (!held) return __real_clock_gettime(c, t); *t = fake; return 0; }
extern "C" int __wrap_gettimeofday(struct timeval* t, void* z) { if (!held) return __real_gettimeofday(t, z); t->tv_sec = fake.tv_sec; t->tv_usec = fake.tv_nsec / 1000; return 0; }
static void first(unsigned at, enum emv_debug_source_t s, enum emv_debug_level_t l, enum emv_debug_type_t t, const char* str, const void* buf, size_t len) { stamp = at; seen(1, s, l, t, str, buf, len); }
static void second(unsigned, enum emv_debug_source_t s, enum emv_debug_level_t l, enum emv_debug_type_t t, const char* str, const void* buf, size_t len) { seen(2, s, l, t, str, buf, len); }
static const emv_debug_func_t FUNC[] = { nullptr, first, second };
struct Config { unsigned mask; int level; int func; };
static void configure(Mc& m, const Config& c) { int r = emv_debug_init(c.mask, (emv_debug_level_t)c.level, FUNC[c.func]); m.step(); if (r) m.fail("init", "configuration refused with %d", r); m.log("configure: sources %X, level %d, observer %d", c.mask, c.level, c.func); }
struct Kind { const char* name; int level, type; bool data; const char* fixed; };
static const Kind KIND[] = { { "error", EMV_DEBUG_ERROR, EMV_DEBUG_TYPE_MSG, false, 0 }, { "info", EMV_DEBUG_INFO, EMV_DEBUG_TYPE_MSG, false, 0 }, { "info with data", EMV_DEBUG_INFO, EMV_DEBUG_TYPE_DATA, true, 0 }, { "info with TLV", EMV_DEBUG_INFO, EMV_DEBUG_TYPE_TLV, true, 0 }, { "APDU message", EMV_DEBUG_CARD, EMV_DEBUG_TYPE_MSG, false, 0 }, { "C-APDU", EMV_DEBUG_CARD, EMV_DEBUG_TYPE_CAPDU, true, "C-APDU" }, { "R-APDU", EMV_DEBUG_CARD, EMV_DEBUG_TYPE_RAPDU, true, "R-APDU" }, { "C-TPDU", EMV_DEBUG_CARD, EMV_DEBUG_TYPE_CTPDU, true, "C-TPDU" }, { "R-TPDU", EMV_DEBUG_CARD, EMV_DEBUG_TYPE_RTPDU, true, "R-TPDU" }, { "trace with data", EMV_DEBUG_TRACE, EMV_DEBUG_TYPE_DATA, true, 0 }, { "trace", EMV_DEBUG_TRACE, EMV_DEBUG_TYPE_MSG, false, 0 }, { "info, formatted", EMV_DEBUG_INFO, EMV_DEBUG_TYPE_MSG, false, 0 }, { "trace, formatted", EMV_DEBUG_TRACE, EMV_DEBUG_TYPE_DATA, true, 0 }, { "ATR", EMV_DEBUG_CARD, EMV_DEBUG_TYPE_ATR, true, "ATR" } };
enum { NKIND = sizeof KIND / sizeof *KIND };
static const int SOURCES[] = { EMV_DEBUG_SOURCE_TTL, EMV_DEBUG_SOURCE_TAL, EMV_DEBUG_SOURCE_EMV, EMV_DEBUG_SOURCE_APP };
static std::string message(int kind, const std::string& text, unsigned n, const void* buf, size_t len) { if (KIND[kind].fixed) return KIND[kind].fixed; if (kind < 11) return text; std::vector<char> b(text.size() * 2 + 300); if (kind == 11) snprintf(b.data(), b.size(), "%u%s%02X%5d|%-6s|%zu%%", n, text.c_str(), n & 0xFF, -(int)(n & 0xFFF), text.c_str(), len); else snprintf(b.data(), b.size(), "%s=%u %p %d", text.c_str(), n, buf, n); return b.data(); }
static bool wanted(const Config& c, int source, int level) { return c.func && c.mask & source && level <= c.level; }
static void judge(Mc& m, const Event& e, const Config& c, int source, int kind, const std::string& full, const void* buf, size_t len, uint64_t h) {
	const Kind& k = KIND[kind]; bool data = k.data; if (e.who != c.func) m.fail("observer", "%s reached a previous observer", k.name); if (e.source != source || e.level != k.level || e.type != k.type) m.fail("event", "%s of source %X arrived as source %X level %d type %d", k.name, source, e.source, e.level, e.type);
	if (data ? e.buf != buf || e.len != len || e.h != h : e.buf || e.len) m.fail("data", "%s: data altered", k.name);
	if (kind == 10) { size_t p = e.text.find("]: "); if (p == std::string::npos || (full.size() < 900 ? e.text.substr(p + 3) != full : full.compare(0, e.text.size() - p - 3, e.text, p + 3))) m.fail("text", "%s: \"%.80s\" instead of \"%.80s\"", k.name, e.text.c_str(), full.c_str()); return; }
	if (full.size() < 1024 ? e.text != full : e.text.size() < 1023 || full.compare(0, e.text.size(), e.text)) m.fail("text", "%s of %zu characters arrived as %zu characters \"%.80s\"", k.name, full.size(), e.text.size(), e.text.c_str());
}
static void emit(Mc& m, const Config& c, int source, int kind, const std::string& text, unsigned n, const Buf& b) {
	events.clear(); size_t len = kind == 13 ? shim_atr_size() : b.n(); shim_emit(source, kind, text.c_str(), n, b.p(), len); m.step(); bool w = wanted(c, source, KIND[kind].level);
	if (events.size() != w) m.fail("delivery", "%s of source %X with sources %X, level %d and observer %d was delivered %zu times", KIND[kind].name, source, c.mask, c.level, c.func, events.size());
	if (w) judge(m, events[0], c, source, kind, message(kind, text, n, b.p(), len), b.p(), len, len ? hash(b.p(), len) : 0); m.cover(w ? "delivered" : "filtered"); m.state(hmix(hmix(c.mask, c.level * 4 + c.func), source * 16 + kind));
}
static std::string words(size_t n) { std::string s; while (s.size() < n) s += char('a' + s.size() % 23), s += s.size() % 7 ? '%' : ' '; s.resize(n); return s; }
static Buf& atr_like() { static Buf b(shim_atr_size(), 0x3B); return b; }
static void everything(Mc& m, const Config& c) { Buf small(Bytes{ 0x9F, 0x36, 0x02, 0x00, 0x01 }), none(Bytes{}); for (int s : SOURCES) for (int k = 0; k < NKIND; ++k) { emit(m, c, s, k, "message %s %n", 42, k == 13 ? atr_like() : small); if (k != 13) emit(m, c, s, k, "", 0, none); } }
static const unsigned MASKS[] = { 0, 1, 2, 4, 8, 3, 5, 6, 9, 10, 12, 7, 11, 13, 14, 15, 0xF0, 0xFF, 0xFE, 0x100, 0xFFFFFF00, 0xFFFFFFFF, 0x80000001 };
static std::vector<Config> menu() { std::vector<Config> v; for (unsigned mask : { 0u, 1u, 6u, 8u, 0xFFu }) for (int l : { 0, 1, 2, 3, 5 }) for (int f = 0; f < 3; ++f) { if (f != 1 && l != 5 && l != 2) continue; v.push_back({ mask, l, f }); } return v; }
// --- observers that act
static Mc* nm; static Config ncfg, nnext; static int nkind, nsource, ndepth;
static Buf& nbuf() { static Buf b(Bytes{ 1, 2, 3 }); return b; }
static void again(const Event&) { if (ndepth++) return; shim_emit(nsource, nkind, "from inside", 7, nkind == 13 ? atr_like().p() : nbuf().p(), nkind == 13 ? atr_like().n() : 3); }
static void change(const Event&) { if (ndepth++) return; emv_debug_init(nnext.mask, (emv_debug_level_t)nnext.level, FUNC[nnext.func]); }
// --- whole sessions
static const std::vector<Config> SESSION = { { 0xFF, 5, 0 }, { 0xFF, 5, 1 }, { 0xFF, 4, 1 }, { 0xFF, 3, 1 }, { 0xFF, 2, 1 }, { 0xFF, 1, 1 }, { 0xFF, 0, 1 }, { 1, 5, 1 }, { 2, 5, 1 }, { 4, 5, 1 }, { 8, 5, 1 }, { 0, 5, 1 }, { 6, 2, 2 } };
struct Trace { uint64_t h; std::vector<Event> ev; size_t frames; };
static void compare(Mc& m, const Trace& base, const Trace& full, const Trace& t, const Config& c) {
	if (t.h != base.h) m.fail("influence", "the session went differently with sources %X, level %d, observer %d than without debugging", c.mask, c.level, c.func);
	size_t j = 0; for (auto& e : full.ev) { if (!wanted(c, e.source, e.level)) continue; if (j >= t.ev.size()) m.fail("events", "event \"%.80s\" missing with sources %X and level %d", e.text.c_str(), c.mask, c.level); auto& g = t.ev[j++]; bool ptr = e.text.find("0x") != std::string::npos; if (g.source != e.source || g.level != e.level || g.type != e.type || g.len != e.len || (!ptr && g.text != e.text) || (e.type != EMV_DEBUG_TYPE_ATR && g.h != e.h)) m.fail("events", "event \"%.80s\" arrived as \"%.80s\" with sources %X and level %d", e.text.c_str(), g.text.c_str(), c.mask, c.level); }
	if (j != t.ev.size()) m.fail("events", "event \"%.80s\" does not belong with sources %X and level %d", t.ev[j].text.c_str(), c.mask, c.level);
}
static void frames(Mc& m, const Trace& t, const std::vector<Frame>& log) { // exchanges reported are the exchanges made
	size_t i = 0; for (auto& e : t.ev) { if (e.type == EMV_DEBUG_TYPE_CTPDU) { while (i < log.size() && (log[i].tx.size() != e.len || hash(log[i].tx.data(), e.len) != e.h)) ++i; if (i == log.size()) m.fail("frame", "a request was reported that was not sent"); } else if (e.type == EMV_DEBUG_TYPE_RTPDU) { if (i >= log.size() || log[i].rx.size() != e.len || (e.len && hash(log[i].rx.data(), e.len) != e.h)) m.fail("frame", "a response was reported that was not received"); } }
	m.cover("exchanges reported");
}
static uint64_t hfields(const emv_tlv_list_t& l, uint64_t h) { for (auto* t = l.front; t; t = t->next) h = hash(t->value, t->length, hmix(h, hmix(t->tag, t->length))); return hmix(h, 77); }
static uint64_t hsession(const emv_ctx_t& c, const emv_app_list_t& a, uint64_t h) { h = hfields(c.config, hfields(c.params, hfields(c.icc, hfields(c.terminal, h)))); for (auto* p = a.front; p; p = p->next) h = hfields(p->tlv_list, hash(p->display_name, strnlen(p->display_name, sizeof p->display_name), h)); if (c.selected_app) h = hfields(c.selected_app->tlv_list, h); return hmix(h, !!c.selected_app); }
static uint64_t hlog(const std::vector<Frame>& l, uint64_t h) { for (auto& f : l) h = hash(f.rx.data(), f.rx.size(), hash(f.tx.data(), f.tx.size(), hmix(h, f.rc))); return h; }
static Trace session(Mc& m, const Config& c, bool tpdu, const std::vector<unsigned>& ops) { // every call also compared with the reference of the session
	configure(m, c); events.clear(); alloc_reset(); World w(m, tpdu); uint64_t h = 0; for (unsigned o : ops) { if (!w.up && adds(o)) continue; w.step(o); h = hsession(w.ctx, w.apps, h); } w.finish(); Trace t{ hlog(w.card.log, h), events, w.card.log.size() }; if (tpdu) frames(m, t, w.card.log); configure(m, { 0, 0, 0 }); return t; }
static void sessions(Mc& m, bool tpdu, const std::vector<unsigned>& ops) { std::vector<Trace> t; for (auto& c : SESSION) { t.push_back(session(m, c, tpdu, ops)); if (t.size() > 1) compare(m, t[0], t[1], t.back(), c); } if (!t[0].ev.empty()) m.fail("delivery", "events without an observer"); }
// --- sessions with one damaged answer: only comparison between configurations
struct Damage { int at; unsigned how; };
static Damage dmg; static unsigned exch;
static int damaged(void* c, const void* tx, size_t n, void* rx, size_t* rn) {
	size_t room = *rn; int r = Card::trx(c, tx, n, rx, rn); if ((int)exch++ != dmg.at || r) return r; uint8_t* p = (uint8_t*)rx; size_t l = *rn, h = dmg.how; // no more room than the library offered
	if (h < 40) { size_t cut = h; if (cut >= l) cut = l; *rn = l - cut; } else if (h < 80) { size_t k = h - 40; if (k < l) p[k] ^= 0xFF; } else if (h < 120) { size_t k = h - 80; if (k < l) p[k] = 0; } else if (h < 160) { size_t k = h - 120; if (k < l) p[k] += 1; } else if (h == 160) { for (size_t i = l; i < room; ++i) p[i] = 0x90; *rn = room; } else if (h == 161) { p[0] = 0x6A; p[1] = 0x81; *rn = 2; } else if (h == 162) { p[0] = 0x62; p[1] = 0x83; *rn = 2; } else if (h == 163) { p[0] = 0x90; p[1] = 0; *rn = 2; } else if (h == 164) *rn = 0; else if (h == 165) return -7; else return 3;
	return 0;
}
enum { NHOW = 167 };
static Trace transaction(Mc& m, const Config& c, bool tpdu, unsigned variant) {
	configure(m, c); events.clear(); alloc_reset(); exch = 0; World w(m, tpdu); w.card.ttl.cardreader.trx = damaged; uint64_t h = 0; auto did = [&](int r) { h = hmix(hsession(w.ctx, w.apps, h), r); m.step(); };
	w.op = variant & 1; w.n = 0; did(LIB(emv_build_candidate_list(&w.ctx, &w.apps))); w.op = 5; did(LIB(emv_select_application(&w.ctx, &w.apps, variant & 1 ? 1 : 0))); w.op = variant & 2 ? 11 : 10; did(LIB(emv_initiate_application_processing(&w.ctx, 5))); w.op = 14; did(LIB(emv_read_application_data(&w.ctx)));
	Trace t{ hlog(w.card.log, h), events, w.card.log.size() }; LIB((emv_app_list_clear(&w.apps), emv_ctx_clear(&w.ctx), 0)); configure(m, { 0, 0, 0 }); return t;
}
static const std::vector<Bytes> ATRS = { X("3B00"), X("3B6500002063CB6600"), X("3B6800000073C84000009000"), X("3BF71100014096504300111F00"), X("3BFE1800008031FE45803181FE45"), X("3B82800131C3"), X("3B"), X("3F6500"), X("00"), X("3BE00000FF81314FE40001"), X("3B2080"), X("3B8F8001804F0CA000000306030001000000006A"), X("3B80"), X("3B9000") };
static void setup() {
	static bool th = !strcmp(getenv("MC_TIER"), "thorough"); nbuf(); atr_like(); // statics live below everything else in the arena
	add("filters", 256 + sizeof MASKS / sizeof *MASKS, [](Mc& m, uint64_t k) { unsigned mask = k < 256 ? k : MASKS[k - 256]; for (int l = 0; l <= 5; ++l) for (int f = 0; f < 3; ++f) { Config c{ mask, l, f }; configure(m, c); everything(m, c); } });
	static std::vector<Config> M = menu();
	add("reconfiguration", M.size(), [](Mc& m, uint64_t k) { configure(m, M[k]); everything(m, M[k]); for (unsigned i = 0; i < (th ? 3u : 2u); ++i) { const Config& c = m.pick(M); configure(m, c); everything(m, c); } }, M.size());
	// time stamps count microseconds, modulo 2^32, from any origin
	static const time_t SECS[] = { 0, 1, 2, 59, 2147, 2148, 4293, 4294, 4295, 8589, 8590, 86400, 999999999, 1000000000, 1700000000, 2147483647, 2147483648, 4294967295, 4294967296, 9999999999 }; static const long NANOS[] = { 0, 1, 999, 1000, 1001, 1999, 2000, 65535999, 65536000, 294967295, 294967296, 499999999, 500000000, 999998999, 999999000, 999999999 };
	add("time stamps", sizeof SECS / sizeof *SECS * NKIND, [](Mc& m, uint64_t k) { Config c{ 0xFF, 5, 1 }; configure(m, c); int kind = k % NKIND; auto at = [&](time_t s, long n) { const Buf& b = kind == 13 ? atr_like() : nbuf(); fake.tv_sec = s; fake.tv_nsec = n; stamp = 0; held = true; shim_emit(1, kind, "x", 1, b.p(), b.n()); held = false; m.step(); return stamp; };
		time_t s = SECS[k / NKIND]; unsigned zero = at(1000, 0); for (long n : NANOS) { unsigned got = at(s, n), want = (unsigned)((unsigned long long)(s - 1000) * 1000000 + n / 1000); if (got - zero != want) m.fail("time", "an event at %lld.%09ld s is stamped %u microseconds after one at 1000 s instead of %u", (long long)s, n, got - zero, want); m.state(hmix(s, n)); } m.cover("time stamps"); });
	add("message lengths", NKIND, [](Mc& m, uint64_t k) { Config c{ 0xFF, 5, 1 }; configure(m, c); for (size_t n = 0; n < 2300; n = n < 1100 || th ? n + 1 : n + 37) emit(m, c, SOURCES[n % 4], k, words(n), n, k == 13 ? atr_like() : nbuf()); });
	add("data lengths", 300, [](Mc& m, uint64_t n) { Config c{ 0xFF, 5, 2 }; configure(m, c); Buf b(Bytes(n * 13 % 4001, n)); for (int k = 0; k < 13; ++k) emit(m, c, SOURCES[n % 4], k, "data", n, b); });
	add("numbers", 256, [](Mc& m, uint64_t x) { Config c{ 0xFF, 5, 1 }; configure(m, c); for (unsigned n : { (unsigned)x, (unsigned)x << 8, (unsigned)x << 24, 0xFFFFFFFFu - (unsigned)x }) for (int k : { 11, 12 }) emit(m, c, EMV_DEBUG_SOURCE_APP, k, words(x), n, nbuf()); });
	add("events from an observer", NKIND * NKIND, [](Mc& m, uint64_t k) { for (auto& c : M) for (int s : { 1, 8 }) { configure(m, c); events.clear(); nkind = k / NKIND; nsource = 1; ndepth = 0; inside = again; int outer = k % NKIND; const Buf& b = outer == 13 ? atr_like() : nbuf(); shim_emit(s, outer, "from outside", 9, b.p(), b.n()); inside = nullptr; m.step(); if (altered) { altered = false; m.fail("message", "an event within the observer changed the message being observed"); } bool w = wanted(c, s, KIND[outer].level), v = w && wanted(c, nsource, KIND[nkind].level); if (events.size() != w + v) m.fail("delivery", "%zu events instead of %d", events.size(), w + v); if (w) judge(m, events[0], c, s, outer, message(outer, "from outside", 9, b.p(), b.n()), b.p(), b.n(), hash(b.p(), b.n())); if (v) { const Buf& x = nkind == 13 ? atr_like() : nbuf(); judge(m, events[1], c, nsource, nkind, message(nkind, "from inside", 7, x.p(), x.n()), x.p(), x.n(), hash(x.p(), x.n())); } m.cover(v ? "event within event" : "none"); } });
	add("reconfiguration from an observer", M.size() * M.size(), [](Mc& m, uint64_t k) { Config a = M[k / M.size()]; nnext = M[k % M.size()]; configure(m, a); events.clear(); ndepth = 0; inside = change; shim_emit(1, 1, "x", 0, nullptr, 0); inside = nullptr; bool w = wanted(a, 1, EMV_DEBUG_INFO); if (events.size() != w) m.fail("delivery", "%zu events instead of %d", events.size(), w); everything(m, w ? nnext : a); m.cover("reconfigured from observer"); });
	for (int tp = 0; tp < 2; ++tp) {
		add(tp ? "sessions, T=0" : "sessions", NOP * 4, [tp](Mc& m, uint64_t k) { static const std::vector<unsigned> PRE[4] = { {}, { 0, 5 }, { 18, 17, 0, 5, 10 }, { 0, 8, 11, 14 } }; std::vector<unsigned> ops = PRE[k % 4]; ops.push_back(k / 4); unsigned more = th ? 2 : 1; for (unsigned i = 0; i < more; ++i) ops.push_back(m.choose(NOP)); sessions(m, tp, ops); }, NOP);
		add(tp ? "damaged answers, T=0" : "damaged answers", NHOW * 4, [tp](Mc& m, uint64_t k) { dmg.at = m.choose(tp ? 24 : 8); dmg.how = k / 4; unsigned v = k % 4; std::vector<Trace> t; for (auto& c : SESSION) { t.push_back(transaction(m, c, tp, v)); if (t.size() > 1) compare(m, t[0], t[1], t.back(), c); } m.state(t[0].h); m.cover("damaged"); });
	}
	add("answers to reset", ATRS.size(), [](Mc& m, uint64_t k) { std::vector<Bytes> v; for (size_t n = 0; n <= ATRS[k].size(); ++n) v.push_back(Bytes(ATRS[k].begin(), ATRS[k].begin() + n)); for (size_t i = 0; i < ATRS[k].size(); ++i) for (unsigned x = 0; x < 256; x += th ? 1 : 3) { v.push_back(ATRS[k]); v.back()[i] = x; } for (auto& a : v) { Buf b(a); int base = 0; std::vector<Event> all; for (size_t i = 0; i < SESSION.size(); ++i) { auto& c = SESSION[i]; configure(m, c); events.clear(); int r = emv_atr_parse(b.p(), b.n()); m.step(); Trace t{ (uint64_t)r, events, 0 }; if (!i) base = r; if (i == 1) all = events; if (i) compare(m, Trace{ (uint64_t)base, {}, 0 }, Trace{ (uint64_t)base, all, 0 }, t, c); } m.cover(base ? "refused" : "accepted"); m.state(hmix(hash(a.data(), a.size()), base)); } configure(m, { 0, 0, 0 }); });
}
static struct Init { Init() { setup_hook = setup; } } init_;
