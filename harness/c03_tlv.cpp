// C03: EMV field lists and parsing
#include "mc.h"
#include "refber.h"
#include <emv_tlv.h>
using namespace mc;
typedef std::vector<uint8_t> Bytes;
struct F { unsigned tag; Bytes v; uint8_t flags; bool operator==(const F& o) const { return tag == o.tag && v == o.v && flags == o.flags; } };
typedef std::vector<F> L;

static std::string show(const L& l) { std::string s = "["; char b[32]; for (auto& f : l) { snprintf(b, sizeof b, "%X:", f.tag); s += b + hex(f.v) + " "; } return s + "]"; }
static void compare(Mc& m, const emv_tlv_list_t& l, const L& e, const char* what) {
	size_t i = 0; const emv_tlv_t* last = nullptr;
	for (const emv_tlv_t* t = l.front; t; t = t->next, ++i) {
		if (i >= e.size()) m.fail("extra", "%s: list holds more than %s", what, show(e).c_str());
		if (t->tag != e[i].tag || t->length != e[i].v.size() || t->flags != e[i].flags || (t->length && memcmp(t->value, e[i].v.data(), t->length)))
			m.fail("content", "%s: element %zu is %X:%s flags %02X, expected list %s", what, i, t->tag, t->length < 1000 ? hex(t->value, t->length).c_str() : "?", t->flags, show(e).c_str());
		last = t;
	}
	if (i != e.size()) m.fail("lost", "%s: list holds %zu fields, expected %s", what, i, show(e).c_str());
	if (l.back != last) m.fail("tail", "%s: list tail does not identify its last field", what);
	if (emv_tlv_list_is_empty(&l) != e.empty()) m.fail("empty", "%s: emptiness misreported", what);
}

// --- histories of list operations on two lists
static void histories(Mc& m, uint64_t outer, unsigned depth) {
	static const unsigned T[3] = { 0x9F02, 0x5A, 0x9F0201 };
	alloc_reset();
	emv_tlv_list_t l[2] = { EMV_TLV_LIST_INIT, EMV_TLV_LIST_INIT }; L e[2];
	std::vector<emv_tlv_t*> held; std::vector<F> heldv;
	uint8_t seq = 0;
	for (unsigned d = 0; d < depth; ++d) {
		enum { NOP = 7 };
		unsigned op = d == 0 ? outer % 14 : m.choose(14);
		unsigned w = op / NOP; op %= NOP;
		switch (op) {
			case 0: case 1: case 2: { // push
				Bytes v(op == 1 ? 0 : op == 2 ? 3 : 1, ++seq);
				Buf b(v);
				int r = LIB(emv_tlv_list_push(&l[w], T[op], v.size(), b.p(), seq));
				b.seal(); // list must own a copy
				if (r) m.fail("push", "push failed with %d", r);
				e[w].push_back({ T[op], v, seq }); m.log("push L%u %X", w, T[op]); m.cover("push"); break;
			}
			case 3: { // pop, then either free or hold
				emv_tlv_t* t = LIB(emv_tlv_list_pop(&l[w])); m.log("pop L%u", w);
				if (e[w].empty()) { if (t) m.fail("pop", "pop from empty list returned a field"); m.cover("pop empty"); break; }
				if (!t) m.fail("pop", "pop returned nothing");
				F f = e[w].front(); e[w].erase(e[w].begin());
				if (t->tag != f.tag || t->length != f.v.size() || t->flags != f.flags || memcmp(t->value, f.v.data(), f.v.size())) m.fail("pop", "pop returned the wrong field");
				if (t->next) m.fail("pop", "popped field still linked");
				int r = LIB(emv_tlv_free(t)); if (r) m.fail("free", "popped field could not be freed (%d)", r);
				m.cover("pop"); break;
			}
			case 4: { // append other list
				int r = LIB(emv_tlv_list_append(&l[w], &l[1 - w])); m.log("append L%u += L%u", w, 1 - w);
				if (r) m.fail("append", "append failed with %d", r);
				m.cover(e[w].empty() ? (e[1 - w].empty() ? "append empty+empty" : "append empty+full") : (e[1 - w].empty() ? "append full+empty" : "append full+full"));
				e[w].insert(e[w].end(), e[1 - w].begin(), e[1 - w].end()); e[1 - w].clear(); break;
			}
			case 5: LIB((emv_tlv_list_clear(&l[w]), 0)); e[w].clear(); m.log("clear L%u", w); m.cover("clear"); break;
			case 6: { // try to free the first field while it is followed by another one
				if (e[w].size() < 2) { d = depth; m.skip(); break; }
				emv_tlv_t* t = l[w].front; int r = LIB(emv_tlv_free(t)); m.log("free L%u.front", w);
				if (r <= 0) m.fail("unsafe_free", "field in the middle of a list was freed (%d)", r); m.cover("refused free"); break;
			}
		}
		m.step();
		for (int k = 0; k < 2; ++k) {
			compare(m, l[k], e[k], k ? "second list" : "first list");
			for (unsigned t : T) {
				const F* f = nullptr; for (auto& x : e[k]) if (x.tag == t) { f = &x; break; }
				emv_tlv_t* g = emv_tlv_list_find(&l[k], t); const emv_tlv_t* gc = emv_tlv_list_find_const(&l[k], t);
				if (!f != !g || g != gc) m.fail("find", "find(%X) in %s returned %s", t, show(e[k]).c_str(), g ? "a field" : "nothing");
				if (f && (g->flags != f->flags || g->length != f->v.size())) m.fail("find", "find(%X) in %s did not return the first such field", t, show(e[k]).c_str());
			}
			if (emv_tlv_list_find(&l[k], 0x9F03) || emv_tlv_list_find_const(&l[k], 0x9F03)) m.fail("find", "found a field that is not there");
			bool dup = false; for (size_t i = 0; i < e[k].size(); ++i) for (size_t j = 0; j < i; ++j) dup |= e[k][i].tag == e[k][j].tag;
			if (emv_tlv_list_has_duplicate(&l[k]) != dup) m.fail("duplicate", "has_duplicate(%s) is %d", show(e[k]).c_str(), !dup);
		}
		uint64_t h = 0; for (int k = 0; k < 2; ++k) { for (auto& f : e[k]) h = hmix(h, f.tag); h = hmix(h, 77); } m.state(h);
	}
	LIB((emv_tlv_list_clear(&l[0]), emv_tlv_list_clear(&l[1]), 0));
	if (alloc_live()) m.fail("leak", "%zu allocations remain after clearing both lists", alloc_live());
}

// --- parsing
static bool ref_parse(const uint8_t* b, size_t n, L& out) {
	size_t p = 0;
	for (;;) {
		RefTlv t; long r = ref_ber(b + p, n - p, t);
		if (r < 0) return false;
		if (r == 0) return true;
		if (t.cons) { if (!ref_parse(b + p + t.off, t.len, out)) return false; }
		else out.push_back({ (unsigned)t.tag, Bytes(b + p + t.off, b + p + t.off + t.len), 0 });
		p += r;
	}
}
static void check_parse(Mc& m, const Bytes& v, bool preloaded) {
	alloc_reset(); m.log("parse %s%s", hex(v).c_str(), preloaded ? " onto a non-empty list" : "");
	emv_tlv_list_t l = EMV_TLV_LIST_INIT; L e;
	if (preloaded) { Bytes x{ 0x77 }; LIB(emv_tlv_list_push(&l, 0x4F, 1, x.data(), 9)); e.push_back({ 0x4F, x, 9 }); }
	size_t pre = e.size();
	bool ok = ref_parse(v.data(), v.size(), e);
	int r; { Buf in(v); r = LIB(emv_tlv_parse(in.p(), in.n(), &l)); in.seal(); m.step();
	if (ok != (r == 0)) m.fail("parse", "parsing %s returned %d", hex(v).c_str(), r);
	if (!ok) { // fields before the malformed part, or none of them
		size_t n = 0; for (auto* t = l.front; t; t = t->next) ++n;
		if (n > e.size() || n < pre) m.fail("parse_error", "parsing malformed %s left %zu fields", hex(v).c_str(), n);
		e.resize(n);
	}
	compare(m, l, e, "parsed list"); }
	uint64_t h = ok; for (auto& f : e) { h = hmix(h, f.tag); h = hmix(h, f.v.size()); } m.state(h);
	m.cover(!ok ? "malformed" : e.size() - pre == 0 ? "no field" : e.size() - pre == 1 ? "one field" : "several fields");
	LIB((emv_tlv_list_clear(&l), 0));
	if (alloc_live()) m.fail("leak", "%zu allocations remain after clearing the list", alloc_live());
}
static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough");
	for (unsigned d = 1; d <= (th ? 7u : 6u); ++d) add(("operation histories depth " + std::to_string(d)).c_str(), 14, [d](Mc& m, uint64_t k) { if (d == 1) histories(m, k, 1); else { histories(m, k, d); } });
	static const Bytes A = { 0x00, 0x01, 0x02, 0x70, 0x5A, 0x9F, 0x80, 0x81, 0x7F, 0xFF };
	for (unsigned n = 0; n <= (th ? 7u : 6u); ++n) add(("strings length " + std::to_string(n)).c_str(), n ? 10 : 1, [n](Mc& m, uint64_t k) { Bytes v; if (n) v.push_back(A[k]); while (v.size() < n) v.push_back(A[m.choose(A.size())]); check_parse(m, v, false); });
	add("all octets length 3", 256, [](Mc& m, uint64_t k) { Bytes v{ (uint8_t)k, (uint8_t)m.choose(256), 0x01 }; check_parse(m, v, true); });
	// templates nested in templates, up to 3 children, definite/indefinite
	add("nested templates", 30, [](Mc& m, uint64_t k) {
		bool pre = k & 1; unsigned cut = k / 2 % 3, first = k / 6; bool top = true;
		std::function<Bytes(int)> gen = [&](int d) {
			Bytes o; unsigned k = top ? first : m.choose(d ? 5 : 3); top = false;
			if (k == 0) return Bytes{ 0x5A, 0x01, 0x11 };
			if (k == 1) return Bytes{ 0x9F, 0x02, 0x00 };
			if (k == 2) return Bytes{ 0x9F, 0x81, 0x02, 0x81, 0x02, 0x33, 0x44 };
			Bytes body; unsigned c = m.choose(3); for (unsigned i = 0; i < c; ++i) { Bytes x = gen(d - 1); body.insert(body.end(), x.begin(), x.end()); }
			if (k == 3) { o = { 0x70, (uint8_t)body.size() }; o.insert(o.end(), body.begin(), body.end()); }
			else { o = { 0x70, 0x80 }; o.insert(o.end(), body.begin(), body.end()); o.push_back(0); o.push_back(0); }
			return o;
		};
		Bytes v; unsigned c = m.choose(2) + 1; for (unsigned i = 0; i < c; ++i) { Bytes x = gen(m.thorough || i == 0 ? 2 : 1); v.insert(v.end(), x.begin(), x.end()); }
		if (cut && v.size() >= cut) v.resize(v.size() - cut);
		check_parse(m, v, pre);
	});
	// nesting of any depth: as usual while sensible (EMV nests three levels), never a crash
	add("deep nesting", 14, [](Mc& m, uint64_t k) { static const size_t D[] = { 3, 10, 20, 30, 32, 33, 48, 63, 64, 100, 1000, 5000, 20000, 60000 }; size_t d = D[k]; bool indef = m.choose(2);
		Bytes v; if (indef) { for (size_t i = 0; i < d; ++i) { v.push_back(0x70); v.push_back(0x80); } v.push_back(0x5A); v.push_back(1); v.push_back(0x11); for (size_t i = 0; i < d; ++i) { v.push_back(0); v.push_back(0); } }
		else { std::vector<Bytes> h; size_t n = 3; for (size_t i = 0; i < d; ++i) { Bytes x{ 0x70 }; if (n < 128) x.push_back(n); else { x.push_back(0x84); for (int s = 24; s >= 0; s -= 8) x.push_back(n >> s); } n += x.size(); h.push_back(x); } for (size_t i = d; i--;) v.insert(v.end(), h[i].begin(), h[i].end()); v.push_back(0x5A); v.push_back(1); v.push_back(0x11); }
		alloc_reset(); m.log("%zu levels%s", d, indef ? " of indefinite length" : ""); struct emv_tlv_list_t l = EMV_TLV_LIST_INIT; int r; { Buf in(v); r = LIB(emv_tlv_parse(in.p(), in.n(), &l)); m.step(); }
		bool got = l.front && l.front == l.back && l.front->tag == 0x5A && l.front->length == 1 && l.front->value[0] == 0x11;
		if (r == 0 ? !got : (d <= 64 || (l.front && !got))) m.fail("deep", "%zu nested templates gave %d and %s", d, r, l.front ? "a list" : "no list");
		LIB((emv_tlv_list_clear(&l), 0)); if (alloc_live()) m.fail("leak", "deep nesting leaked"); m.cover(r ? "nested too deeply" : "nested deeply"); m.state(hmix(d, indef)); });
	add("long values", 5, [](Mc& m, uint64_t k) { static const unsigned N[] = { 127, 128, 255, 256, 4000 }; unsigned n = N[k]; Bytes v{ 0x9F, 0x10 }; if (n < 128) v.push_back(n); else if (n < 256) { v.push_back(0x81); v.push_back(n); } else { v.push_back(0x82); v.push_back(n >> 8); v.push_back(n & 255); } for (unsigned i = 0; i < n; ++i) v.push_back(i * 7); if (m.choose(2)) v.pop_back(); check_parse(m, v, m.choose(2)); });
	add("every flag", 256, [](Mc& m, uint64_t k) { alloc_reset(); emv_tlv_list_t l = EMV_TLV_LIST_INIT, o = EMV_TLV_LIST_INIT; L e; Bytes v{ (uint8_t)m.choose(3), 2 }; if (LIB(emv_tlv_list_push(&o, 0x5A, 2, v.data(), k))) m.fail("push", "push failed"); e.push_back({ 0x5A, v, (uint8_t)k }); m.log("flags %02X", (unsigned)k); compare(m, o, e, "after push"); if (LIB(emv_tlv_list_append(&l, &o))) m.fail("append", "append failed"); compare(m, l, e, "after append");
		const emv_tlv_t* t = emv_tlv_list_find(&l, 0x5A); if (!t || t->flags != k) m.fail("flags", "flags were lost"); emv_tlv_t* p = LIB(emv_tlv_list_pop(&l)); m.step(4); if (!p || p->flags != k) m.fail("flags", "flags were lost"); LIB(emv_tlv_free(p)); m.state(k); if (alloc_live()) m.fail("leak", "allocations remain"); });
	add("value lengths", 700, [](Mc& m, uint64_t k) { static const size_t X[] = { 1000, 1023, 1024, 1025, 2047, 2048, 4000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 100000, 131072, 1000000 }; size_t n = k < 600 ? k : 0; if (k >= 600) { if (k - 600 >= sizeof X / sizeof *X) { m.skip(); return; } n = X[k - 600]; }
		alloc_reset(); emv_tlv_list_t l = EMV_TLV_LIST_INIT; L e; Bytes v(n); for (size_t i = 0; i < n; ++i) v[i] = i * 7 + (i >> 8); unsigned w = m.choose(3); m.log("%zu bytes", n); Buf b(v); if (LIB(emv_tlv_list_push(&l, 0xDF8101 & 0xFFFFFF, n, b.p(), 5))) m.fail("push", "push of %zu bytes failed", n); b.seal(); size_t first = alloc_live(); e.push_back({ 0xDF8101, v, 5 }); compare(m, l, e, "after push"); if (w) { if (LIB(emv_tlv_list_push(&l, 0x5A, 1, (const uint8_t*)"x", 0))) m.fail("push", "push failed"); e.push_back({ 0x5A, { 'x' }, 0 }); compare(m, l, e, "after push"); } (void)first; m.step(2); m.state(hmix(n, w));
		if (w == 2) { emv_tlv_t* t = LIB(emv_tlv_list_pop(&l)); if (!t || t->length != n || (n && memcmp(t->value, v.data(), n))) m.fail("pop", "popped field differs"); if (LIB(emv_tlv_free(t))) m.fail("free", "popped field could not be freed"); } LIB((emv_tlv_list_clear(&l), 0)); if (alloc_live()) m.fail("leak", "%zu allocations remain after a value of %zu bytes", alloc_live(), n); });
	add("long lists", 66, [](Mc& m, uint64_t k) { // n fields with distinct tags, except for one pair at chosen places: what is found, what is a duplicate, what parsing gives
		unsigned n = k + 1, i = m.choose(n + 1), j = i < n ? i + m.choose(n - i) : 0; if (n > 48 && n != 64 && n != 65 && i < n && j != n - 1 && i) { m.skip(); return; } bool dup = i < n && j != i; if (i < n && !dup) { m.skip(); return; } unsigned how = m.choose(3);
		alloc_reset(); emv_tlv_list_t l = EMV_TLV_LIST_INIT, o = EMV_TLV_LIST_INIT; L e; Bytes enc; for (unsigned q = 0; q < n; ++q) { unsigned t = 0xDF10 + (dup && q == j ? i : q); e.push_back({ t, { (uint8_t)q }, (uint8_t)(how == 2 ? 0 : q) }); enc.insert(enc.end(), { 0xDF, (uint8_t)t, 1, (uint8_t)q }); }
		m.log("%u fields, %u and %u alike", n, i, j);
		if (how == 2) { Buf b(enc); if (LIB(emv_tlv_parse(b.p(), b.n(), &l))) m.fail("parse", "parsing %u fields failed", n); b.seal(); }
		else for (unsigned q = 0; q < n; ++q) if (LIB(emv_tlv_list_push(how == 1 && q >= n / 2 ? &o : &l, e[q].tag, 1, e[q].v.data(), q))) m.fail("push", "push failed"); if (how == 1 && LIB(emv_tlv_list_append(&l, &o))) m.fail("append", "append failed");
		compare(m, l, e, "long list"); if (emv_tlv_list_has_duplicate(&l) != dup) m.fail("duplicate", "has_duplicate() is %d: %u fields, %u and %u alike", !dup, n, i, j);
		for (unsigned q = 0; q < n; ++q) { const emv_tlv_t* t = emv_tlv_list_find_const(&l, 0xDF10 + q); if (t != emv_tlv_list_find(&l, 0xDF10 + q)) m.fail("find", "the two ways to find field %u disagree", q); unsigned at = q; bool there = !(dup && q == j); if (there ? !t || t->value[0] != at : !!t) m.fail("find", "field %u of %u: found %s", q, n, t ? "another one" : "nothing"); } m.step(n); m.state(hmix(hmix(n, i), hmix(j, how))); m.cover(dup ? "duplicate" : "distinct");
		for (unsigned q = 0; q < n / 2; ++q) { emv_tlv_t* t = LIB(emv_tlv_list_pop(&l)); if (!t || t->value[0] != q) m.fail("pop", "pop %u returned the wrong field", q); LIB(emv_tlv_free(t)); } e.erase(e.begin(), e.begin() + n / 2); compare(m, l, e, "after pops"); LIB((emv_tlv_list_clear(&l), 0)); if (alloc_live()) m.fail("leak", "allocations remain"); }, 2);
	add("invalid arguments", 1, [](Mc& m, uint64_t) {
		alloc_reset(); emv_tlv_t x; memset(&x, 0, sizeof x); emv_tlv_list_t bad = { &x, nullptr }, bad2 = { nullptr, &x }, ok = EMV_TLV_LIST_INIT; uint8_t b[3] = { 0x5A, 1, 2 }; m.step(12);
		if (emv_tlv_free(nullptr) == 0) m.fail("null", "freeing nothing reported success");
		for (emv_tlv_list_t* l : { (emv_tlv_list_t*)nullptr, &bad, &bad2 }) {
			if (!emv_tlv_list_is_empty(l)) m.fail("invalid", "invalid list not reported empty");
			if (LIB(emv_tlv_list_push(l, 1, 1, b, 0)) == 0 || emv_tlv_list_pop(l) || emv_tlv_list_find(l, 0) || emv_tlv_list_find_const(l, 0) || emv_tlv_list_append(&ok, l) == 0 || emv_tlv_list_append(l, &ok) == 0 || emv_tlv_list_has_duplicate(l)) m.fail("invalid", "operation on an invalid list did not fail");
		}
		if (emv_tlv_parse(nullptr, 3, &ok) == 0 || LIB(emv_tlv_parse(b, 3, nullptr)) == 0) m.fail("null", "parse accepted a missing argument");
		if (alloc_live()) m.fail("leak", "failed operation leaked");
	});
}
static struct Init { Init() { setup_hook = setup; } } init_;
