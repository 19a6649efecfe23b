// C25: code list lookups
#include "strtab.h"
#include <isocodes_lookup.h>
#include <mcc_lookup.h>
#include <map>
#include <set>
#include <algorithm>
using namespace mc;
// What a list says: name per alpha-2, alpha-3 and numeric code
struct Table { std::map<std::string, std::string> a2, a3; std::map<unsigned, std::string> num; };
static Table table(const std::vector<CodeRow>& rows) { Table t; for (auto& r : rows) { if (*r.a2) t.a2.emplace(r.a2, r.name); t.a3.emplace(r.a3, r.name); if (*r.num) t.num.emplace(strtoul(r.num, nullptr, 10), r.name); } return t; }
// Reader for the installed lists: {"key":[{"k":"v",...},...]}
struct Reader { std::string s; size_t p = 0; void ws() { while (p < s.size() && isspace((unsigned char)s[p])) ++p; } bool eat(char c) { ws(); if (p < s.size() && s[p] == c) { ++p; return true; } return false; } std::string str() { std::string o; if (!eat('"')) { fprintf(stderr, "unexpected code list syntax\n"); abort(); } while (s[p] != '"') { if (s[p] == '\\') { ++p; if (s[p] != '"' && s[p] != '\\' && s[p] != '/') { fprintf(stderr, "unexpected escape in code list\n"); abort(); } } o += s[p++]; } ++p; return o; } };
static bool slurp(const std::string& f, std::string& s) { FILE* h = fopen(f.c_str(), "r"); if (!h) return false; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return true; }
static bool installed(const char* f, const char* root, Table& t, std::vector<std::string>& names) {
	Reader r; if (!slurp(std::string("/usr/share/iso-codes/json/") + f, r.s)) return false;
	r.eat('{'); if (r.str() != root) abort(); r.eat(':'); r.eat('[');
	do { std::map<std::string, std::string> e; r.eat('{'); do { std::string k = r.str(); r.eat(':'); e[k] = r.str(); } while (r.eat(',')); r.eat('}'); if (e.count("alpha_2")) t.a2.emplace(e["alpha_2"], e["name"]); t.a3.emplace(e["alpha_3"], e["name"]); if (e.count("numeric")) t.num.emplace(strtoul(e["numeric"].c_str(), nullptr, 10), e["name"]); names.push_back(e["name"]); } while (r.eat(','));
	return r.eat(']') && r.eat('}');
}
// the three lists: countries, currencies, languages
static const char* A2(int list, const char* c) { return list == 0 ? isocodes_lookup_country_by_alpha2(c) : list == 2 ? isocodes_lookup_language_by_alpha2(c) : nullptr; }
static const char* A3(int list, const char* c) { return list == 0 ? isocodes_lookup_country_by_alpha3(c) : list == 1 ? isocodes_lookup_currency_by_alpha3(c) : isocodes_lookup_language_by_alpha3(c); }
static const char* NUM(int list, unsigned n) { return list == 0 ? isocodes_lookup_country_by_numeric(n) : list == 1 ? isocodes_lookup_currency_by_numeric(n) : nullptr; }
static const char* WHAT[] = { "country", "currency", "language" };
template<class K> static const std::string* get(const std::map<K, std::string>& m, const K& k) { auto i = m.find(k); return i == m.end() ? nullptr : &i->second; }
static std::string show(const char* s) { return s ? "\"" + std::string(s).substr(0, 60) + "\"" : "nothing"; }
// the answer must be that of one of the lists that may be in force
static void answer(Mc& m, const char* got, const std::vector<const std::string*>& may, const std::string& what) {
	m.step(); for (auto w : may) if (w ? got && *w == got : !got) return;
	m.fail("answer", "%s is %s%s", what.c_str(), show(got).c_str(), may.size() == 1 ? (" instead of " + show(may[0] ? may[0]->c_str() : nullptr)).c_str() : ", which none of the lists loaded says");
}
static const Table NONE;
static std::vector<CodeRow> ROWS[3][2]; static Table REAL[3]; static Table LISTS[3][4]; // 0 none, 1 A, 2 B, 3 installed
static bool have_real;
typedef unsigned Mask; // which of the lists may be in force
static std::vector<std::string> K2, K3; static std::vector<unsigned> KN;
static void answers(Mc& m, const Mask in[3]) {
	for (int l = 0; l < 3; ++l) { std::vector<const Table*> t; for (int i = 0; i < 4; ++i) if (in[l] >> i & 1) t.push_back(&LISTS[l][i]); std::vector<const std::string*> may;
		if (l != 1) for (auto& k : K2) { may.clear(); for (auto x : t) may.push_back(get(x->a2, k)); answer(m, A2(l, k.c_str()), may, std::string(WHAT[l]) + " " + k); }
		for (auto& k : K3) { may.clear(); for (auto x : t) may.push_back(get(x->a3, k)); answer(m, A3(l, k.c_str()), may, std::string(WHAT[l]) + " " + k); }
		if (l != 2) for (auto k : KN) { may.clear(); for (auto x : t) may.push_back(get(x->num, k)); answer(m, NUM(l, k), may, std::string(WHAT[l]) + " " + std::to_string(k)); } }
}
struct Quiet { FILE* saved; static FILE* null; Quiet() { if (!null) null = fopen("/dev/null", "w"); saved = stderr; stderr = null; } ~Quiet() { stderr = saved; } };
FILE* Quiet::null;
// --- directories of lists
struct Dir { std::string path, name; int bad; int list[3]; bool missing; }; // bad: file that is unusable, -1 none; list: the list each file has or fails to have
static std::vector<Dir> dirs;
static const char *FILES[] = { "iso_3166-1.json", "iso_4217.json", "iso_639-2.json" }, *ROOT[] = { "3166-1", "4217", "639-2" };
static std::string element(const CodeRow& r, const char* drop, const char* key, const char* value) { std::string j = "{"; auto add = [&](const char* k, const std::string& v) { if (drop && !strcmp(drop, k)) return; if (j.size() > 1) j += ","; j += std::string("\"") + k + "\":" + (key && !strcmp(key, k) ? value : "\"" + v + "\""); }; if (*r.a2) add("alpha_2", r.a2); add("alpha_3", r.a3); add("name", r.name); if (*r.num) add("numeric", r.num); return j + "}"; }
struct Flaw { const char* name; int kind; const char *drop, *key, *value; };
static const std::vector<Flaw> FLAWS = { { "missing", 1, 0, 0, 0 }, { "empty", 2, 0, 0, 0 }, { "not JSON", 3, 0, 0, 0 }, { "other root", 4, 0, 0, 0 }, { "root not an array", 5, 0, 0, 0 }, { "no entries", 6, 0, 0, 0 }, { "entry is text", 7, 0, 0, "\"x\"" }, { "entry is null", 7, 0, 0, "null" }, { "entry is an array", 7, 0, 0, "[]" }, { "entry is a number", 7, 0, 0, "5" }, { "entry without members", 7, 0, 0, "{}" }, { "cut short", 8, 0, 0, 0 }, { "root is text", 9, 0, 0, 0 },
	{ "no name", 0, "name", 0, 0 }, { "no alpha-3 code", 0, "alpha_3", 0, 0 }, { "no alpha-2 code", 0, "alpha_2", 0, 0 }, { "no numeric code", 0, "numeric", 0, 0 }, { "null name", 0, 0, "name", "null" }, { "numeric code with letters", 0, 0, "numeric", "\"5A8\"" }, { "long numeric code", 0, 0, "numeric", "\"0528\"" }, { "short numeric code", 0, 0, "numeric", "\"52\"" }, { "empty numeric code", 0, 0, "numeric", "\"\"" }, { "huge numeric code", 0, 0, "numeric", "\"99999999999999999999999\"" }, { "negative numeric code", 0, 0, "numeric", "\"-12\"" }, { "numeric code with spaces", 0, 0, "numeric", "\" 52\"" } };
static std::string list_json(int l, int which, const Flaw* f, bool last) {
	auto& rows = ROWS[l][which]; std::string root = ROOT[l];
	if (f) switch (f->kind) { case 2: return ""; case 3: return "{\"" + root + "\":[}"; case 4: root = "other"; break; case 5: return "{\"" + root + "\":{\"a\":\"b\"}}"; case 6: return "{\"" + root + "\":[]}"; case 9: return "\"" + root + "\""; }
	std::string j = "{\"" + root + "\":["; for (size_t i = 0; i < rows.size(); ++i) { bool here = f && (last ? i + 1 == rows.size() : i == 0); if (i) j += ","; j += here && f->kind == 7 ? std::string(f->value) : element(rows[i], here ? f->drop : nullptr, here ? f->key : nullptr, here ? f->value : nullptr); }
	j += "]}"; if (f && f->kind == 8) j.resize(j.size() * 2 / 3); return j;
}
static int new_dir(const std::string& name) { dirs.push_back({ std::string(getenv("MC_SCRATCH")) + "/d" + std::to_string(dirs.size()), name, -1, { 1, 1, 1 }, false }); mkdir(dirs.back().path.c_str(), 0777); return dirs.size() - 1; }
static void fill(Dir& d, int skip) { for (int l = 0; l < 3; ++l) if (l != skip) write_file(d.path + "/" + FILES[l], list_json(l, d.list[l] - 1, nullptr, false)); }
static void init(Mc& m, const Dir& d, Mask in[3], unsigned slash) {
	std::string p = d.path; for (unsigned i = 0; i < slash; ++i) p += "/"; int r; { Quiet q; r = d.path.empty() ? isocodes_init(nullptr) : isocodes_init(p.c_str()); } m.step(); if (m.tracing) m.log("initialise with %s: %d", d.name.c_str(), r);
	if (d.bad < 0) { if (r) m.fail("refused", "lists of %s refused with %d", d.name.c_str(), r); for (int l = 0; l < 3; ++l) in[l] = 1u << d.list[l]; m.cover("lists loaded"); }
	else { if (!r) m.fail("accepted", "lists of %s accepted", d.name.c_str()); if (d.missing && r < 0) m.fail("missing", "lists of %s: missing list reported as %d", d.name.c_str(), r); for (int l = 0; l < 3; ++l) in[l] |= 1 | 1u << d.list[l]; m.cover(d.missing ? "missing list" : "malformed list"); }
}
// --- merchant categories
static std::vector<MccRow> MROWS[2]; static std::map<unsigned, std::string> MLIST[3];
struct MFile { std::string path, name; bool bad, missing; int list; };
static std::vector<MFile> mfiles; static std::vector<unsigned> MK;
static void mfile(const std::string& name, const std::string& text, bool bad, int list, bool missing = false) { std::string p = std::string(getenv("MC_SCRATCH")) + "/m" + std::to_string(mfiles.size()) + ".json"; if (!missing) write_file(p, text); mfiles.push_back({ p, name, bad, missing, list }); }
static void minit(Mc& m, const MFile& f, Mask& in) { int r; { Quiet q; r = mcc_init(f.path.c_str()); } m.step(); if (m.tracing) m.log("initialise categories with %s: %d", f.name.c_str(), r);
	if (!f.bad) { if (r) m.fail("refused", "categories of %s refused with %d", f.name.c_str(), r); in = 1u << f.list; m.cover("categories loaded"); } else { if (!r) m.fail("accepted", "categories of %s accepted", f.name.c_str()); if (f.missing && r < 0) m.fail("missing", "missing categories reported as %d", r); in |= 1 | 1u << f.list; m.cover("categories refused"); } }
static void manswers(Mc& m, Mask in) { for (unsigned k : MK) { std::vector<const std::string*> may; for (int i = 0; i < 3; ++i) if (in >> i & 1) may.push_back(get(MLIST[i], k)); answer(m, mcc_lookup(k), may, "category " + std::to_string(k)); } }
static std::string through(unsigned tag, const Bytes& v, int& r) { Buf b(v), o(400, 0xA5); struct emv_tlv_t t; memset(&t, 0, sizeof t); t.tag = tag; t.length = v.size(); t.value = b.p(); struct emv_tlv_info_t i; o.p()[0] = 0; r = emv_tlv_get_info(&t, &i, o.c(), o.n()); return r ? "" : o.c(); }
static std::vector<unsigned> near_numbers() { std::vector<unsigned> v; for (unsigned i = 0; i < 20000; ++i) v.push_back(i); for (unsigned i : { 65535u, 65536u, 65536u + 528u, 0x7FFFFFFFu, 0x80000000u, 0x80000000u + 528u, 0xFFFFFFFFu, 0xFFFFFFFFu - 471u }) v.push_back(i); return v; }
static void with_real(Mc& m) { static bool loaded; if (!loaded) { Mask in[3]; dirs[0].path.clear(); init(m, dirs[0], in, 0); loaded = true; } }
static void setup() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough");
	std::vector<std::string> names; have_real = installed(FILES[0], ROOT[0], LISTS[0][3], names) && installed(FILES[1], ROOT[1], LISTS[1][3], names) && installed(FILES[2], ROOT[2], LISTS[2][3], names);
	ROWS[0][0] = COUNTRIES; ROWS[1][0] = CURRENCIES; ROWS[2][0] = LANGUAGES;
	ROWS[0][1] = { { "ZA", "ZAF", "711", "Suid-Afrika" }, { "DE", "DEU", "276", "Deutschland" }, { "QA", "NLD", "528", "Holland" }, { "QX", "QXX", "998", "X" } }; for (int i = 0; i < 40; ++i) { static char c[40][3][4]; snprintf(c[i][0], 4, "X%c", 'A' + i % 26); snprintf(c[i][1], 4, "X%c%c", 'A' + i % 26, i < 26 ? 'Y' : 'Z'); snprintf(c[i][2], 4, "%03d", 600 + i); if (i < 26) ROWS[0][1].push_back({ c[i][0], c[i][1], c[i][2], "Land " + std::to_string(i) }); ROWS[1][1].push_back({ "", c[i][1], c[i][2], "Money " + std::to_string(i) }); ROWS[2][1].push_back({ i < 26 ? c[i][0] : "", c[i][1], "", "Language " + std::to_string(i) }); }
	ROWS[1][1].push_back({ "", "EUR", "978", "Ecu" }); ROWS[1][1].push_back({ "", "DEM", "276", "Mark" }); ROWS[2][1].push_back({ "de", "deu", "", "Deutsch" }); ROWS[2][1].push_back({ "en", "ace", "", "Not English" });
	for (int l = 0; l < 3; ++l) for (int w = 0; w < 2; ++w) LISTS[l][1 + w] = table(ROWS[l][w]);
	for (int l = 0; l < 3; ++l) for (int w = 1; w < 3; ++w) { for (auto& e : LISTS[l][w].a2) K2.push_back(e.first); for (auto& e : LISTS[l][w].a3) K3.push_back(e.first); for (auto& e : LISTS[l][w].num) KN.push_back(e.first); }
	for (auto s : { "", "nl", "Nl", "N", "NLD", "US", "us", "zz", "EN", "n", "N L" }) K2.push_back(s); for (auto s : { "", "nld", "NL", "NLDX", "USA", "usa", "USD", "fra", "ENG", "EURO", "eur" }) K3.push_back(s); for (unsigned n : { 1u, 840u, 999u, 1000u, 528u + 1000u, 0xFFFFFFFFu, 65536u + 528u }) KN.push_back(n);
	auto uniq = [](auto& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }; uniq(K2); uniq(K3); uniq(KN);
	int i0 = new_dir("the installed lists"); for (int l = 0; l < 3; ++l) dirs[i0].list[l] = 3;
	int a = new_dir("A"); fill(dirs[a], -1); int b = new_dir("B"); for (int l = 0; l < 3; ++l) dirs[b].list[l] = 2; fill(dirs[b], -1); int c = new_dir("A, B, A"); dirs[c].list[1] = 2; fill(dirs[c], -1);
	static std::vector<unsigned> small{ (unsigned)a, (unsigned)b, (unsigned)c };
	for (int l = 0; l < 3; ++l) for (auto& f : FLAWS) for (int last = 0; last < 2; ++last) { if (last && f.kind && f.kind != 7) continue; if (l == 2 && (std::string(f.name).find("numeric") != std::string::npos || (f.drop && !strcmp(f.drop, "alpha_2")))) continue; if (l == 1 && f.drop && !strcmp(f.drop, "alpha_2")) continue;
		int d = new_dir(std::string("B with list of ") + (l == 0 ? "countries" : l == 1 ? "currencies" : "languages") + ": " + f.name + (last ? " (last)" : "")); Dir& D = dirs[d]; for (int i = 0; i < 3; ++i) D.list[i] = 2; D.bad = l; D.missing = f.kind == 1; fill(D, l); if (f.kind != 1) write_file(D.path + "/" + FILES[l], list_json(l, 1, &f, last)); if (f.kind == 1 || f.kind == 6 || (f.key && !strcmp(f.value, "\"5A8\"") && last)) small.push_back(d); }
	int none = new_dir("no such directory"); rmdir(dirs[none].path.c_str()); dirs[none].bad = 0; dirs[none].missing = true;
	// before anything is loaded there are no names, and no surprises
	for (int l = 0; l < 3; ++l) for (auto& k : K2) if (A2(l, k.c_str())) setup_failed("names before initialisation"); for (int l = 0; l < 3; ++l) { for (auto& k : K3) if (A3(l, k.c_str())) setup_failed("names before initialisation"); for (auto k : KN) if (NUM(l, k)) setup_failed("names before initialisation"); } if (mcc_lookup(5999)) setup_failed("categories before initialisation");
	static std::vector<unsigned> N = near_numbers();
	if (have_real) {
		add("installed lists, numeric codes", N.size() / 100 + 1, [](Mc& m, uint64_t k) { with_real(m); for (size_t i = k * 100; i < N.size() && i < k * 100 + 100; ++i) for (int l = 0; l < 2; ++l) { const std::string* w = get(LISTS[l][3].num, N[i]); answer(m, NUM(l, N[i]), { w }, std::string("installed ") + WHAT[l] + " " + std::to_string(N[i])); m.cover(w ? "known code" : "unknown code"); if (w) m.state(hash(*w, l)); } });
		add("installed lists, alphabetic codes", 256, [th](Mc& m, uint64_t x) { with_real(m); if (!x) return; for (unsigned y = 0; y < 256; ++y) for (int l = 0; l < 3; ++l) { char s[5] = { (char)x, (char)y, 0, 0, 0 }; if (l != 1) { const std::string* w = get(LISTS[l][3].a2, std::string(s)); answer(m, A2(l, s), { w }, std::string("installed ") + WHAT[l] + " " + s); if (w) m.state(hash(*w, l + 4)); answer(m, A3(l, s), { nullptr }, std::string("installed ") + WHAT[l] + " " + s); }
			if (!y) continue; bool letters = isalpha(x) && isalpha(y); for (unsigned z = letters || th ? 1 : 250; z < 256; ++z) { if (!th && !isalpha(z) && z % 16) continue; s[2] = z; const std::string* w = get(LISTS[l][3].a3, std::string(s)); answer(m, A3(l, s), { w }, std::string("installed ") + WHAT[l] + " " + s); if (w) m.state(hash(*w, l + 8)); if (w) { if (l != 1) answer(m, A2(l, s), { nullptr }, std::string("installed ") + WHAT[l] + " " + s); s[3] = 'A'; answer(m, A3(l, s), { nullptr }, std::string("installed ") + WHAT[l] + " " + s); s[3] = 0; } } } });
		add("installed lists, through fields", 256, [](Mc& m, uint64_t x) { with_real(m); for (unsigned y = 0; y < 256; ++y) { Bytes v{ (uint8_t)x, (uint8_t)y }; int r; bool digits = (x & 15) < 10 && x >> 4 < 10 && (y & 15) < 10 && y >> 4 < 10; unsigned n = (x >> 4) * 1000 + (x & 15) * 100 + (y >> 4) * 10 + (y & 15);
				auto say = [&](unsigned tag, const std::string* w) { std::string got = through(tag, v, r); m.step(); if (w ? got != w->substr(0, 398) : !got.empty() && got.compare(0, v.size() * 2, hex(v)) && got != std::string(v.begin(), v.end())) m.fail("field", "field %X with %s is shown as \"%s\" instead of \"%s\"", tag, hex(v).c_str(), got.c_str(), w ? w->c_str() : ""); };
				if (digits) { for (unsigned t : { 0x5F28u, 0x9F1Au }) say(t, get(LISTS[0][3].num, n)); for (unsigned t : { 0x5F2Au, 0x9F42u, 0x9F3Cu }) say(t, get(LISTS[1][3].num, n)); } else for (unsigned t : { 0x5F28u, 0x5F2Au }) say(t, nullptr);
				if (isalpha(x) && isalpha(y)) { std::string s(v.begin(), v.end()); say(0x5F55, get(LISTS[0][3].a2, s)); for (unsigned z = 'A'; z <= 'Z'; ++z) { v.push_back(z); say(0x5F56, get(LISTS[0][3].a3, s + (char)z)); v.pop_back(); } } } });
	}
	static unsigned menu = dirs.size();
	add("histories of initialisation", menu, [](Mc& m, uint64_t k) { Mask in[3] = { 0xF, 0xF, 0xF }; init(m, dirs[1], in, 1); answers(m, in); init(m, dirs[k], in, 0); answers(m, in); unsigned n = m.choose(menu + 1); if (n < menu) { init(m, dirs[n], in, n % 3); answers(m, in); } init(m, dirs[2], in, 1); answers(m, in); if (n == menu) { init(m, dirs[2], in, 0); answers(m, in); init(m, dirs[0].path.empty() || !have_real ? dirs[1] : dirs[0], in, 0); answers(m, in); } m.state(hmix(hmix(in[0], in[1]), k * 1000 + n)); });
	add("long histories of initialisation", small.size(), [th](Mc& m, uint64_t k) { Mask in[3] = { 0xF, 0xF, 0xF }; init(m, dirs[2], in, 0); init(m, dirs[small[k]], in, 0); answers(m, in); unsigned n = th ? 3 : 2; for (unsigned i = 0; i < n; ++i) { init(m, dirs[m.pick(small)], in, 0); answers(m, in); } m.state(hmix(hmix(in[0], in[1]), in[2])); });
	// the very code that was looked up last before lists are loaded again
	add("one code across initialisation", 7, [](Mc& m, uint64_t f) { int l = f == 0 || f == 1 || f == 2 ? 0 : f < 5 ? 1 : 2, kind = f == 0 || f == 5 ? 0 : f == 2 || f == 4 ? 2 : 1; Mask in[3] = { 0xF, 0xF, 0xF };
		unsigned i = m.choose(kind == 0 ? K2.size() : kind == 1 ? K3.size() : KN.size()), before = 1 + m.choose(2); const Dir& d = dirs[m.choose(2) ? m.pick(small) : 3 - before]; init(m, dirs[before], in, 0);
		auto ask = [&] { std::vector<const std::string*> may; for (int t = 0; t < 4; ++t) if (in[l] >> t & 1) may.push_back(kind == 0 ? get(LISTS[l][t].a2, K2[i]) : kind == 1 ? get(LISTS[l][t].a3, K3[i]) : get(LISTS[l][t].num, KN[i])); const char* got = kind == 0 ? A2(l, K2[i].c_str()) : kind == 1 ? A3(l, K3[i].c_str()) : NUM(l, KN[i]); answer(m, got, may, std::string(WHAT[l]) + " " + (kind == 0 ? K2[i] : kind == 1 ? K3[i] : std::to_string(KN[i]))); };
		ask(); ask(); init(m, d, in, 0); ask(); ask(); m.state(hmix(hmix(in[l], i), f)); });
	// merchant categories
	MROWS[0] = MCCS; MROWS[1] = { { "0743", "Veterinarians" }, { "5999", "Other Shops" }, { "1234", "Numbers" }, { "7", "Seven" } }; for (int i = 0; i < 30; ++i) { static char c[30][5]; snprintf(c[i], 5, "%d", 4000 + i * 7); MROWS[1].push_back({ c[i], "Category " + std::to_string(i) }); }
	for (int w = 0; w < 2; ++w) for (auto& r : MROWS[w]) { MLIST[1 + w].emplace(strtoul(r.mcc, nullptr, 10), r.name); MK.push_back(strtoul(r.mcc, nullptr, 10)); } for (unsigned n : { 0u, 2u, 59u, 599u, 742u + 65536u, 59990u, 10000u, 0xFFFFFFFFu, 0xFFFFFFFBu, 0x80000000u, 6000u }) MK.push_back(n); uniq(MK);
	mfile("A", mcc_json(MROWS[0]), false, 1); mfile("B", mcc_json(MROWS[1]), false, 2); mfile("a missing file", "", true, 2, true);
	std::string B = mcc_json(MROWS[1]); mfile("an empty file", "", true, 2); mfile("no JSON", "[}", true, 2); mfile("a cut file", B.substr(0, B.size() / 2), true, 2); mfile("an object", "{\"mcc\":\"5999\",\"edited_description\":\"x\"}", true, 2); mfile("text", "\"x\"", true, 2); mfile("an empty list", "[]", true, 2);
	static const char* BAD[] = { "{}", "\"x\"", "null", "5", "[]", "{\"edited_description\":\"x\"}", "{\"mcc\":\"5998\"}", "{\"mcc\":\"0\",\"edited_description\":\"x\"}", "{\"mcc\":\"-5\",\"edited_description\":\"x\"}", "{\"mcc\":\"abc\",\"edited_description\":\"x\"}", "{\"mcc\":\"\",\"edited_description\":\"x\"}", "{\"mcc\":null,\"edited_description\":\"x\"}", "{\"mcc\":\"5998\",\"edited_description\":null}", "{\"mcc\":\"59x8\",\"edited_description\":\"x\"}", "{\"mcc\":\"4294973294\",\"edited_description\":\"x\"}", "{\"mcc\":\"59980\",\"edited_description\":\"x\"}", "{\"mcc\":\"99999999999999999999999\",\"edited_description\":\"x\"}" };
	for (auto x : BAD) for (int last = 0; last < 2; ++last) { std::string j = B; if (last) { j.pop_back(); j += std::string(",") + x + "]"; } else j = std::string("[") + x + "," + j.substr(1); mfile(std::string(x) + (last ? " last" : " first"), j, true, 2); }
	MK.push_back(5998);
	static unsigned mm = mfiles.size();
	add("histories of category initialisation", mm * 3, [th](Mc& m, uint64_t k) { Mask in = 7; minit(m, mfiles[k % 3], in); manswers(m, in); minit(m, mfiles[k / 3], in); manswers(m, in); for (unsigned i = 0; i < (th ? 2u : 1u); ++i) { minit(m, mfiles[m.choose(mm)], in); manswers(m, in); } minit(m, mfiles[0], in); manswers(m, in); m.state(in); });
	add("one category across initialisation", MK.size(), [](Mc& m, uint64_t k) { Mask in = 7; auto ask = [&] { std::vector<const std::string*> may; for (int i = 0; i < 3; ++i) if (in >> i & 1) may.push_back(get(MLIST[i], MK[k])); answer(m, mcc_lookup(MK[k]), may, "category " + std::to_string(MK[k])); }; minit(m, mfiles[m.choose(2)], in); ask(); minit(m, mfiles[m.choose(mm)], in); ask(); ask(); m.state(in); });
	add("all categories", 100, [](Mc& m, uint64_t k) { Mask in = 7; unsigned f = m.choose(2); minit(m, mfiles[f], in); for (unsigned n = k * 100; n < k * 100 + 100; ++n) { const std::string* w = get(MLIST[1 + f], n); answer(m, mcc_lookup(n), { w }, "category " + std::to_string(n)); unsigned d = n; Bytes v(2); v[0] = d / 1000 << 4 | d / 100 % 10; v[1] = d / 10 % 10 << 4 | d % 10; int r; std::string got = through(0x9F15, v, r); m.step(); if (got != (w ? w->substr(0, 399) : "")) m.fail("field", "category field %s is shown as \"%s\" instead of \"%s\"", hex(v).c_str(), got.c_str(), w ? w->c_str() : ""); } });
	add("initialisation of everything", menu * 4, [](Mc& m, uint64_t k) { const Dir& d = dirs[k / 4]; const MFile& f = mfiles[k % 4]; Mask in[3] = { 0xF, 0xF, 0xF }, mi = 7; init(m, dirs[1], in, 0); minit(m, mfiles[0], mi); int r; { Quiet q; r = emv_strings_init(d.path.empty() ? nullptr : d.path.c_str(), f.path.c_str()); } m.step();
		if ((r == 0) != (d.bad < 0 && !f.bad)) m.fail(r ? "refused" : "accepted", "initialisation with %s and categories of %s returned %d", d.name.c_str(), f.name.c_str(), r);
		for (int l = 0; l < 3; ++l) in[l] = r == 0 || (d.bad < 0 && f.bad && false) ? 1u << d.list[l] : in[l] | 1 | 1u << d.list[l]; mi = r == 0 ? 1u << f.list : mi | 1 | 1u << f.list; answers(m, in); manswers(m, mi); });
}
static struct Init { Init() { setup_hook = setup; } } init_;
