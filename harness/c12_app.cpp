// C12: EMV applications: description from directory/selection data, AID matching, application lists
#include "mc.h"
#include "refapp.h"
#include <emv_app.h>
#include <emv_tags.h>
#include <emv_fields.h>
using namespace mc;
typedef std::vector<uint8_t> Bytes;
static void judge(Mc& m, emv_app_t* a, bool valid, const std::vector<F>& f, unsigned aidtag, const std::vector<F>* pse, const Bytes& in) {
	m.step(); std::string name; const F* aid = valid ? find(f, aidtag) : nullptr;
	bool ok = aid && ref_name(f, aidtag, pse, name);
	bool open = ok && (aid->v.size() < 5 || aid->v.size() > 16); // identifier length out of range: may be refused
	if (!a) { if (ok && !open) m.fail("refused", "application data %s was refused", hex(in).c_str()); m.cover(open ? "odd identifier refused" : "refused"); m.state(hmix(1, open)); return; }
	if (!ok) m.fail("accepted", "application data %s was accepted", hex(in).c_str());
	if (!a->aid || a->aid->tag != aidtag || a->aid->length != aid->v.size() || (a->aid->length && memcmp(a->aid->value, aid->v.data(), a->aid->length))) m.fail("aid", "wrong application identifier for %s", hex(in).c_str());
	if (!memchr(a->display_name, 0, sizeof a->display_name)) m.fail("name", "display name is not terminated");
	if (name != a->display_name) m.fail("name", "display name of %s is '%s', expected '%s'", hex(in).c_str(), a->display_name, name.c_str());
	const F* p = find(f, 0x87); uint8_t pi = p && !p->v.empty() ? p->v[0] : 0;
	if (a->priority != (pi & 0x0F)) m.fail("priority", "priority of %s is %u", hex(in).c_str(), a->priority);
	if (a->confirmation_required != !!(pi & 0x80)) m.fail("confirmation", "confirmation flag of %s is %d", hex(in).c_str(), a->confirmation_required);
	size_t i = 0; for (auto* t = a->tlv_list.front; t; t = t->next, ++i) if (i >= f.size() || t->tag != f[i].tag || t->length != f[i].v.size() || (t->length && memcmp(t->value, f[i].v.data(), t->length))) m.fail("fields", "field %zu of %s was not kept", i, hex(in).c_str());
	if (i != f.size()) m.fail("fields", "%zu fields kept of %s", i, hex(in).c_str());
	if (a->next) m.fail("next", "new application is linked");
	m.state(hash(name, hmix(pi & 0x8F, f.size()))); m.cover("accepted");
	if (LIB(emv_app_free(a))) m.fail("free", "application could not be freed");
}
static void from_pse(Mc& m, const Bytes& in, const std::vector<F>* pse) {
	alloc_reset(); m.log("directory entry %s%s", hex(in).c_str(), pse ? (pse->empty() ? " (directory without code table)" : " (directory with code table)") : "");
	emv_tlv_list_t l = EMV_TLV_LIST_INIT; if (pse) for (auto& f : *pse) LIB(emv_tlv_list_push(&l, f.tag, f.v.size(), f.v.data(), 0));
	std::vector<F> f; bool v = ref_parse(in.data(), in.size(), f); emv_app_t* a; { Buf b(in); a = LIB(emv_app_create_from_pse(pse ? &l : nullptr, b.p(), b.n())); }
	judge(m, a, v, f, 0x4F, pse, in); LIB((emv_tlv_list_clear(&l), 0)); if (alloc_live()) m.fail("leak", "%zu allocations remain", alloc_live());
}
static void from_fci(Mc& m, const Bytes& in) {
	alloc_reset(); m.log("selection data %s", hex(in).c_str()); RefTlv t; long r = ref_ber(in.data(), in.size(), t); std::vector<F> f;
	bool v = r > 0 && (size_t)r == in.size() && t.tag == 0x6F && ref_parse(in.data() + t.off, t.len, f); emv_app_t* a; { Buf b(in); a = LIB(emv_app_create_from_fci(b.p(), b.n())); }
	judge(m, a, v, f, 0x84, nullptr, in); if (alloc_live()) m.fail("leak", "%zu allocations remain", alloc_live());
}
static const Bytes AID = { 0xA0, 0x00, 0x00, 0x00, 0x03, 0x10, 0x10, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0B, 0x0C };
static Bytes aid(unsigned n) { return Bytes(AID.begin(), AID.begin() + n); }
static std::vector<Bytes> names() { std::vector<Bytes> v; v.push_back({}); v.push_back(S("VISA Debit 1")); v.push_back(S("\x01\x1F\x7F\x80\x9F")); v.push_back(S("Caf\xE9")); v.push_back(S("\xA4\xA5\xD2\xFD\xAE")); v.push_back(Bytes(16, 0xA4)); v.push_back(Bytes(20, 0xE1)); v.push_back(S("ABCDEFGHIJKLMNO\xA1QRST")); v.push_back(S("A\x0A" "B\x9F" "C")); v.push_back({ 'A', 0, 'B' }); v.push_back(S("0123456789ABCDE\xA4")); return v; }
static std::vector<Bytes> labels() { std::vector<Bytes> v; v.push_back({}); v.push_back(S("VISA DEBIT")); v.push_back(S("+-*/.")); v.push_back(S("Cr.ed+it 0")); v.push_back(S("@A[Z`a{z/0:9 \x7F\x80\xE1")); v.push_back(S("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnop")); v.push_back({ 'X', 0, 'Y' }); return v; }
// --- lists
struct E { uint8_t pri; bool conf; unsigned id; };
static emv_app_t* mk(Mc& m, const E& e) {
	Bytes in = tlv(0x4F, { 0xA0, 0, 0, 0, 3, (uint8_t)(e.id >> 8), (uint8_t)e.id }); cat(in, tlv(0x50, S("APP"))); if (e.pri || e.conf) cat(in, tlv(0x87, { (uint8_t)(e.pri | (e.conf ? 0x80 : 0)) }));
	emv_app_t* a = LIB(emv_app_create_from_pse(nullptr, in.data(), in.size())); if (!a) m.fail("refused", "application refused"); return a;
}
static unsigned ident(const emv_app_t* a) { return a->aid->value[5] << 8 | a->aid->value[6]; }
static void compare(Mc& m, const emv_app_list_t& l, const std::vector<E>& e, const char* what) {
	size_t i = 0; const emv_app_t* last = nullptr;
	for (auto* a = l.front; a; a = a->next, ++i) { if (i >= e.size()) m.fail("extra", "after %s the list holds more than %zu applications", what, e.size()); if (ident(a) != e[i].id) m.fail("order", "after %s position %zu holds application %u, expected %u", what, i, ident(a), e[i].id); last = a; }
	if (i != e.size()) m.fail("lost", "after %s the list holds %zu applications, expected %zu", what, i, e.size());
	if (l.back != last) m.fail("tail", "after %s the tail does not identify the last application", what);
	if (emv_app_list_is_empty(&l) != e.empty()) m.fail("empty", "emptiness misreported");
	bool req = e.size() > 1; for (auto& x : e) req |= x.conf; if (emv_app_list_selection_is_required(&l) != req) m.fail("selection", "cardholder selection required: %d for %zu applications", !req, e.size());
}
static void ref_sort(std::vector<E>& e) { std::vector<E> o; for (unsigned p = 1; p <= 16; ++p) for (auto& x : e) if ((p & 15) == x.pri) o.push_back(x); e = o; }
static void finish(Mc& m, emv_app_list_t& l) { LIB((emv_app_list_clear(&l), 0)); if (l.front || l.back) m.fail("clear", "cleared list is not empty"); if (alloc_live()) m.fail("leak", "%zu allocations remain", alloc_live()); }
static void histories(Mc& m, unsigned first, unsigned depth) {
	static const E K[] = { { 0, false }, { 1, false }, { 2, true }, { 15, false } };
	alloc_reset(); emv_app_list_t l = EMV_APP_LIST_INIT; std::vector<E> e; unsigned id = 0;
	for (unsigned d = 0; d < depth; ++d) {
		unsigned op = d ? m.choose(12) : first; const char* what = "";
		if (op < 4) { E x = K[op]; x.id = ++id; emv_app_t* a = mk(m, x); if (LIB(emv_app_list_push(&l, a))) m.fail("push", "push failed"); e.push_back(x); what = "push"; m.log("push priority %u%s", x.pri, x.conf ? " confirm" : ""); }
		else if (op == 4 || op < 9) {
			unsigned i = op - 5; bool pop = op == 4; if (pop) i = 0; emv_app_t* a = LIB(pop ? emv_app_list_pop(&l) : emv_app_list_remove_index(&l, i)); what = pop ? "pop" : "remove"; m.log(pop ? "pop" : "remove %u", i);
			if (i >= e.size()) { if (a) m.fail("remove", "removed an application that is not there"); if (i > 0) m.cover("index past end"); }
			else { if (!a || ident(a) != e[i].id) m.fail("remove", "%s returned the wrong application", what); if (a->next) m.fail("remove", "removed application still linked"); m.cover(i + 1 == e.size() ? "removed last" : "removed other"); e.erase(e.begin() + i); if (LIB(emv_app_free(a))) m.fail("free", "removed application could not be freed"); }
		}
		else if (op == 9) { if (LIB(emv_app_list_sort_priority(&l))) m.fail("sort", "sorting failed"); ref_sort(e); what = "sort"; m.log("sort"); }
		else if (op == 10) { LIB((emv_app_list_clear(&l), 0)); e.clear(); what = "clear"; m.log("clear"); }
		else { if (e.size() < 2) { m.skip(); break; } if (LIB(emv_app_free(l.front)) <= 0) m.fail("unsafe_free", "application in a list was freed"); what = "refused free"; m.log("free front"); }
		m.step(); m.cover(what); compare(m, l, e, what); uint64_t h = 5; for (auto& x : e) h = hmix(h, x.pri); m.state(h);
	}
	finish(m, l);
}
static void sorted(Mc& m, unsigned n, unsigned alphabet, unsigned first) {
	static const uint8_t P5[] = { 0, 1, 2, 3, 15 }; alloc_reset(); emv_app_list_t l = EMV_APP_LIST_INIT; std::vector<E> e; uint64_t h = 6;
	for (unsigned i = 0; i < n; ++i) { unsigned c = i ? m.choose(alphabet) : first; E x = { alphabet == 16 ? (uint8_t)c : P5[c], false, i + 1 }; LIB(emv_app_list_push(&l, mk(m, x))); e.push_back(x); h = hmix(h, x.pri); m.log("push priority %u", x.pri); }
	ref_sort(e); if (LIB(emv_app_list_sort_priority(&l))) m.fail("sort", "sorting failed"); m.step(); m.state(h); compare(m, l, e, "sort");
	E x = { 0, true, 77 }; LIB(emv_app_list_push(&l, mk(m, x))); e.push_back(x); compare(m, l, e, "sort and push"); finish(m, l);
}
static void sort_and_take(Mc& m, const std::vector<uint8_t>& pri) { // a long list: order, then every removal
	alloc_reset(); emv_app_list_t l = EMV_APP_LIST_INIT; std::vector<E> e; uint64_t h = 7;
	for (size_t i = 0; i < pri.size(); ++i) { E x = { pri[i], false, (unsigned)i + 1 }; LIB(emv_app_list_push(&l, mk(m, x))); e.push_back(x); h = hmix(h, x.pri); } m.log("%zu applications", pri.size());
	compare(m, l, e, "push"); ref_sort(e); if (LIB(emv_app_list_sort_priority(&l))) m.fail("sort", "sorting failed"); m.step(); m.state(h); compare(m, l, e, "sort");
	unsigned at = m.choose(5); size_t i = at == 0 ? 0 : at == 1 ? e.size() - 1 : at == 2 ? e.size() / 2 : at == 3 ? e.size() * 3 / 4 : e.size(); emv_app_t* a = LIB(emv_app_list_remove_index(&l, i)); m.step(); m.cover("long list");
	if (i >= e.size()) { if (a) m.fail("remove", "removed an application that is not there"); } else { if (!a || ident(a) != e[i].id || a->next) m.fail("remove", "removing %zu of %zu returned the wrong application", i, e.size()); e.erase(e.begin() + i); if (LIB(emv_app_free(a))) m.fail("free", "removed application could not be freed"); }
	compare(m, l, e, "remove"); if (LIB(emv_app_list_sort_priority(&l))) m.fail("sort", "sorting failed"); compare(m, l, e, "sorting again"); finish(m, l);
}
static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough");
	static const std::vector<Bytes> N = names(), Lb = labels(), CT = { { 1 }, { 5 }, { 7 }, { 15 }, { 0 }, { 12 }, { 16 }, { 255 }, {}, { 1, 1 } };
	static const unsigned AL[] = { 7, 5, 16, 17, 18, 4, 1, 0 };
	auto build = [](Mc& m, unsigned aidtag, unsigned ai, bool small) {
		Bytes a, o; if (ai < 8) a = tlv(aidtag, aid(AL[ai]));
		unsigned l = m.choose(Lb.size() + 1), n = m.choose(N.size() + 1), p = m.choose(small ? 3 : 5), c = m.choose(CT.size() + 1), ord = m.choose(2);
		Bytes f[4]; if (l) f[0] = tlv(0x50, Lb[l - 1]); if (n) f[1] = tlv(0x9F12, N[n - 1]); if (p) f[2] = tlv(0x87, p == 1 ? Bytes{ 0x01 } : p == 2 ? Bytes{} : p == 3 ? Bytes{ 0x82, 0x05 } : Bytes{ 0xFF }); if (c) f[3] = tlv(0x9F11, CT[c - 1]);
		if (ord) { for (int i = 3; i >= 0; --i) cat(o, f[i]); return std::make_pair(o, a); } for (auto& x : f) cat(o, x); return std::make_pair(a, o);
	};
	add("directory entries", 9 * 4, [=](Mc& m, uint64_t k) {
		auto x = build(m, 0x4F, k % 9, true); Bytes in = x.first; cat(in, x.second); static const std::vector<F> none, latin = { { 0x9F11, { 1 } } }, odd = { { 0x5F2D, S("en") }, { 0x9F11, { 15 } }, { 0x9F11, { 5 } } };
		const std::vector<F>* P[] = { nullptr, &none, &latin, &odd }; from_pse(m, in, P[k / 9]);
	});
	add("selection data", 9, [=](Mc& m, uint64_t k) { auto x = build(m, 0x84, k, false); Bytes in, in2; bool nested = m.choose(2); auto wrap = [&](const Bytes& b) { return b.size() > 2 && b[0] == 0x84 ? b : nested && !b.empty() ? tlv(0xA5, b) : b; }; cat(in2, wrap(x.first)); cat(in2, wrap(x.second)); in = tlv(0x6F, in2); from_fci(m, in); });
	add("all priority indicators", 256, [](Mc& m, uint64_t k) { unsigned len = m.choose(3) + 1; Bytes v(len, 0x5A); v[0] = k; if (m.choose(2)) { Bytes in = tlv(0x4F, aid(7)); cat(in, tlv(0x50, S("APP"))); cat(in, tlv(0x87, v)); from_pse(m, in, nullptr); } else { Bytes b = tlv(0x84, aid(7)), p = tlv(0x50, S("APP")); cat(p, tlv(0x87, v)); cat(b, tlv(0xA5, p)); from_fci(m, tlv(0x6F, b)); } });
	add("every character of every code table", 17, [](Mc& m, uint64_t k) { uint8_t c = m.choose(256); bool lab = m.choose(2); Bytes in = tlv(0x4F, aid(7)); cat(in, tlv(0x9F12, { c })); if (lab) cat(in, tlv(0x50, S("LABEL"))); std::vector<F> p = { { 0x9F11, { (uint8_t)k } } }; from_pse(m, in, &p); });
	add("every label character", 256, [](Mc& m, uint64_t k) { Bytes in = tlv(0x4F, aid(7)); unsigned w = m.choose(3); cat(in, tlv(0x50, w == 0 ? Bytes{ (uint8_t)k } : w == 1 ? Bytes{ 'a', (uint8_t)k, 'Z' } : Bytes{ (uint8_t)k, ' ', (uint8_t)k })); from_pse(m, in, nullptr); });
	add("name and label lengths", 40, [](Mc& m, uint64_t k) { unsigned l = m.choose(40); uint8_t c = m.choose(2) ? 0xA4 : 'n', ct = m.choose(2) ? 15 : 1; Bytes in = tlv(0x4F, aid(7)); cat(in, tlv(0x9F12, Bytes(k, c))); cat(in, tlv(0x50, Bytes(l, 'L'))); std::vector<F> p = { { 0x9F11, { ct } } }; from_pse(m, in, &p); });
	add("malformed", 2, [](Mc& m, uint64_t k) { // every truncation, extension and single altered byte of a complete description
		Bytes p = tlv(0x50, S("VISA")); cat(p, tlv(0x87, { 0x81 })); cat(p, tlv(0x9F11, { 1 })); cat(p, tlv(0x9F12, S("Vis\xE1")));
		Bytes in; if (k) { in = tlv(0x4F, aid(7)); cat(in, p); } else { Bytes b = tlv(0x84, aid(7)); cat(b, tlv(0xA5, p)); in = tlv(0x6F, b); }
		unsigned w = m.choose(3); if (w == 0) in.resize(m.choose(in.size())); else if (w == 1) { in.push_back(m.choose(256)); if (m.choose(2)) in.push_back(0); } else { unsigned i = m.choose(in.size()); in[i] = m.choose(256); }
		if (k) from_pse(m, in, nullptr); else from_fci(m, in);
	}, 3);
	static const Bytes A = { 0x00, 0x02, 0x07, 0x4F, 0x50, 0x84, 0x6F, 0xA5, 0x87, 0x9F, 0x11, 0x12 };
	for (unsigned n = 0; n <= (th ? 5u : 4u); ++n) add(("short strings length " + std::to_string(n)).c_str(), n ? 12 : 1, [n](Mc& m, uint64_t k) { Bytes v; if (n) v.push_back(A[k]); while (v.size() < n) v.push_back(A[m.choose(A.size())]); if (m.choose(2)) from_pse(m, v, nullptr); else from_fci(m, v); });
	// --- matching: all identifiers of up to 4 octets over {0,1} against all lists of up to two such entries
	add("identifier matching", 30, [](Mc& m, uint64_t k) {
		auto id = [](unsigned n) { Bytes b; unsigned len = 1; n += 0; while (n >= (1u << len)) { n -= 1u << len; ++len; } for (unsigned i = 0; i < len; ++i) b.push_back(n >> i & 1); return b; };
		alloc_reset(); Bytes app = id(k); Bytes in = tlv(0x4F, app); cat(in, tlv(0x50, S("A"))); emv_app_t* a = LIB(emv_app_create_from_pse(nullptr, in.data(), in.size())); if (!a) { m.skip(); return; }
		emv_tlv_list_t l = EMV_TLV_LIST_INIT; unsigned n = m.choose(3); bool want = false;
		for (unsigned i = 0; i < n; ++i) { Bytes t = id(m.choose(30)); bool ex = m.choose(2); LIB(emv_tlv_list_push(&l, EMV_TAG_9F06_AID, t.size(), t.data(), ex ? EMV_ASI_EXACT_MATCH : EMV_ASI_PARTIAL_MATCH)); want |= ex ? t == app : t.size() <= app.size() && std::equal(t.begin(), t.end(), app.begin()); m.log("terminal %s %s", hex(t).c_str(), ex ? "exact" : "partial"); }
		bool got = LIB(emv_app_is_supported(a, &l)); m.step(); m.log("application %s", hex(app).c_str()); m.cover(want ? "supported" : "not supported"); m.state(hmix(hash(app.data(), app.size(), 9), n * 2 + want));
		if (got != want) m.fail("match", "application %s reported as %ssupported", hex(app).c_str(), got ? "" : "not ");
		if (emv_app_is_supported(nullptr, &l)) m.fail("match", "no application reported as supported");
		if (emv_app_is_supported(a, nullptr)) m.fail("match", "supported without terminal identifiers");
		LIB((emv_tlv_list_clear(&l), emv_app_free(a), 0)); if (alloc_live()) m.fail("leak", "allocations remain");
	}, 3);
	add("identifier matching, full length", 17, [](Mc& m, uint64_t k) { // app identifier of k octets against entries of every length differing in at most one octet
		if (k < 1) return; alloc_reset(); unsigned n = m.choose(16) + 1; unsigned d = m.choose(n + 1); bool ex = m.choose(2); Bytes t = aid(n); if (d) t[d - 1] ^= 0x01; Bytes app = aid(k);
		Bytes in = tlv(0x4F, app); emv_app_t* a = LIB(emv_app_create_from_pse(nullptr, in.data(), in.size())); if (!a) { m.skip(); return; }
		emv_tlv_list_t l = EMV_TLV_LIST_INIT; LIB(emv_tlv_list_push(&l, EMV_TAG_9F06_AID, n, t.data(), ex ? EMV_ASI_EXACT_MATCH : EMV_ASI_PARTIAL_MATCH)); bool want = ex ? t == app : n <= k && std::equal(t.begin(), t.end(), app.begin());
		if (LIB(emv_app_is_supported(a, &l)) != want) m.fail("match", "%s against %s %s", hex(app).c_str(), hex(t).c_str(), ex ? "exact" : "partial"); m.step(); m.state(hmix(hmix(k, n), d * 2 + ex)); LIB((emv_tlv_list_clear(&l), emv_app_free(a), 0)); if (alloc_live()) m.fail("leak", "allocations remain");
	});
	for (unsigned d = 1; d <= (th ? 7u : 6u); ++d) add(("list histories depth " + std::to_string(d)).c_str(), 12, [d](Mc& m, uint64_t k) { histories(m, k, d); }, 12);
	for (unsigned n = 0; n <= (th ? 8u : 6u); ++n) add(("sorting " + std::to_string(n) + " applications").c_str(), n ? 5 : 1, [n](Mc& m, uint64_t k) { sorted(m, n, 5, k); }, 5);
	for (unsigned n = 2; n <= (th ? 4u : 3u); ++n) add(("sorting all priorities " + std::to_string(n)).c_str(), 16, [n](Mc& m, uint64_t k) { sorted(m, n, 16, k); });
	add("sorting long lists, regular priorities", 58, [](Mc& m, uint64_t k) { unsigned n = 7 + k, step = m.choose(16), off = m.choose(16), div = 1 + m.choose(3) * 3; std::vector<uint8_t> p; for (unsigned i = 0; i < n; ++i) p.push_back((i / div * step + off) & 15); sort_and_take(m, p); });
	add("sorting long lists, one exception", 58, [](Mc& m, uint64_t k) { static const uint8_t P[][2] = { { 0, 1 }, { 1, 0 }, { 2, 1 }, { 1, 2 }, { 15, 0 }, { 8, 7 } }; unsigned n = 7 + k, c = m.choose(6), at = m.choose(n); std::vector<uint8_t> p(n, P[c][0]); p[at] = P[c][1]; sort_and_take(m, p); });
	add("sorting very long lists", 4, [](Mc& m, uint64_t k) { static const unsigned N[] = { 128, 255, 256, 300 }; unsigned n = N[k], step = m.choose(4) * 5 + 1; std::vector<uint8_t> p; for (unsigned i = 0; i < n; ++i) p.push_back(i * step & 15); sort_and_take(m, p); });
	add("identifier matching, long lists", 64, [](Mc& m, uint64_t k) { // the one entry that matches stands at any place in a list of any length
		alloc_reset(); unsigned n = k + 1, at = m.choose(n + 1); bool ex = m.choose(2); Bytes app = aid(7), in = tlv(0x4F, app); cat(in, tlv(0x50, S("A"))); emv_app_t* a = LIB(emv_app_create_from_pse(nullptr, in.data(), in.size())); if (!a) m.fail("refused", "application refused");
		emv_tlv_list_t l = EMV_TLV_LIST_INIT; for (unsigned i = 0; i < n; ++i) { Bytes t = i == at ? (ex ? app : aid(5)) : Bytes{ 0xA0, 0, 0, 0, (uint8_t)(0x40 + i), 0x10, 0x10 }; LIB(emv_tlv_list_push(&l, EMV_TAG_9F06_AID, t.size(), t.data(), ex ? EMV_ASI_EXACT_MATCH : EMV_ASI_PARTIAL_MATCH)); }
		bool got = LIB(emv_app_is_supported(a, &l)); m.step(); m.state(hmix(n * 100 + at, ex)); m.cover(at < n ? "supported" : "not supported"); m.log("match at %u of %u", at, n); if (got != (at < n)) m.fail("match", "match at place %u of %u: reported as %ssupported", at, n, got ? "" : "not ");
		LIB((emv_tlv_list_clear(&l), emv_app_free(a), 0)); if (alloc_live()) m.fail("leak", "allocations remain"); });
	add("invalid arguments", 1, [](Mc& m, uint64_t) {
		alloc_reset(); E x = { 1, true, 1 }; emv_app_t* a = mk(m, x); emv_app_list_t bad = { a, nullptr }, bad2 = { nullptr, a }, ok = EMV_APP_LIST_INIT; m.step(10);
		for (emv_app_list_t* l : { (emv_app_list_t*)nullptr, &bad, &bad2 }) if (!emv_app_list_is_empty(l) || emv_app_list_push(l, a) == 0 || emv_app_list_pop(l) || emv_app_list_remove_index(l, 0) || emv_app_list_sort_priority(l) == 0 || emv_app_list_selection_is_required(l)) m.fail("invalid", "operation on an invalid list did not fail");
		if (emv_app_free(nullptr) == 0 || emv_app_list_push(&ok, nullptr) == 0 || ok.front) m.fail("null", "missing application accepted"); emv_app_list_clear(&bad); if (bad.front) m.fail("clear", "invalid list not reset"); LIB(emv_app_free(a)); if (alloc_live()) m.fail("leak", "allocations remain");
	});
}
static struct Init { Init() { setup_hook = setup; } } init_;
