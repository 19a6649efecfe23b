// C32: the viewer. Its main window (and main()) executed in-process without a display; every history of text edits,
// option changes, selections and elapsed update delays, and what the window then shows against an independent reference.
#include <QtWidgets/QtWidgets>
#include "emv-viewer-mainwindow.h"
#undef emit
#include "strtab.h"
#include "refber.h"
#include <emv_dol.h>
#include <algorithm>
#include <memory>
using namespace mc;
int viewer_main(int, char**);
extern "C" int __real_emv_strings_init(const char*, const char*);
static bool in_main; static std::string init_args;
extern "C" int __wrap_emv_strings_init(const char* a, const char* b) { if (!in_main) return __real_emv_strings_init(a, b); init_args = std::string(a ? a : "(none)") + " " + (b ? b : "(none)"); return 0; }
static std::function<void()> in_exec;
extern "C" int __wrap__ZN12QApplication4execEv() { if (in_exec) in_exec(); return 0; }
static std::string U(const QString& s) { return s.toUtf8().constData(); }
static std::string cut(const std::string& s) { std::string o; for (size_t i = 0; i < s.size() && i < 300; ++i) { char c = s[i]; if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char t[5]; snprintf(t, 5, "\\x%02X", (uint8_t)c); o += t; } else o += c; } return o; }
// --- the application of this process
static QString conf_dir; static QApplication* app;
static unsigned warned;
static void quiet(QtMsgType t, const QMessageLogContext&, const QString& s) { if (t == QtFatalMsg) { fprintf(stderr, "%s\n", U(s).c_str()); abort(); } ++warned; }
static void want_app() { if (app) return; static int n = 1; static char a0[] = "emv-viewer", *av[] = { a0, nullptr }; app = new QApplication(n, av); app->setOrganizationName("OpenEMV"); app->setApplicationName("emv-viewer"); }
static void init_process() { static bool done; if (done) return; done = true; std::string d = std::string(getenv("MC_SCRATCH")) + "/conf" + std::to_string(getpid()); mkdir(d.c_str(), 0777); setenv("HOME", d.c_str(), 1); setenv("XDG_CONFIG_HOME", d.c_str(), 1); setenv("XDG_RUNTIME_DIR", d.c_str(), 1); setenv("QT_QPA_PLATFORM", "minimal", 1); setenv("QT_LOGGING_RULES", "*=false", 1); conf_dir = QString::fromStdString(d); qInstallMessageHandler(quiet); QSettings::setPath(QSettings::NativeFormat, QSettings::UserScope, conf_dir); }
static void forget_settings() { QSettings s("OpenEMV", "emv-viewer"); s.clear(); s.sync(); }
// --- what has to be shown
struct Row { QString simple, decoded, tag, desc; size_t off = 0, len = 0; bool cons = false, padding = false; QString raw; QStringList lists; std::vector<QStringList> entries; std::vector<Row> kids; bool vague = false; };
struct Ref { std::vector<Row> rows; size_t good = 0; std::vector<std::pair<size_t, size_t>> tags, pads; bool deep = false; };
static const unsigned DEPTH = 60; // fields nested this deep must be shown; the viewer may refuse more
static QString hx(const uint8_t* b, size_t n) { QString s; for (size_t i = 0; i < n; ++i) s += QString::asprintf(i ? " %02X" : "%02X", b[i]); return s; }
static char vs_buf[1 << 17];
static void tag_info(emv_tlv_info_t& i, unsigned tag, unsigned len) { emv_tlv_t t; memset(&t, 0, sizeof t); t.tag = tag; t.length = len; emv_tlv_get_info(&t, &i, nullptr, 0); }
static size_t walk(Ref& f, std::vector<Row>& out, bool pad, const uint8_t* b, size_t n, size_t base, unsigned d) {
	size_t p = 0; if (d > DEPTH) { f.deep = true; return 0; }
	for (;;) {
		RefTlv t; long r = ref_ber(b + p, n - p, t); if (!r) return n;
		if (r < 0) { size_t left = n - p; if (!pad || !((n % 8 == 0 && left < 8) || (n % 16 == 0 && left < 16))) return p; Row w; w.padding = true; w.off = base + p; w.len = left; w.simple = w.decoded = QString::asprintf("Padding : [%zu] ", left) + hx(b + p, left); f.pads.push_back({ w.off, left }); out.push_back(w); return n; }
		out.emplace_back(); Row w; const uint8_t* v = b + p + t.off; emv_tlv_info_t i; memset(&i, 0, sizeof i); *vs_buf = 0; emv_tlv_t e; memset(&e, 0, sizeof e); e.tag = t.tag; e.length = t.len; e.value = (uint8_t*)v; e.ber.flags = b[p] & 0xE0; emv_tlv_get_info(&e, &i, vs_buf, sizeof vs_buf);
		w.off = base + p; w.len = r; w.cons = t.cons; w.tag = i.tag_name ? i.tag_name : ""; w.desc = i.tag_desc ? i.tag_desc : ""; uint64_t x; f.tags.push_back({ w.off, (size_t)ref_tag(b + p, n - p, x) });
		w.simple = QString::asprintf("%02X : [%zu]", (unsigned)t.tag, (size_t)t.len); w.decoded = QString::asprintf("%02X", (unsigned)t.tag); size_t k = strlen(vs_buf); bool list = k && vs_buf[k - 1] == '\n'; w.vague = k > 20000;
		if (i.tag_name) { w.decoded += QString(" | ") + i.tag_name; bool q = i.format == EMV_FORMAT_A || i.format == EMV_FORMAT_AN || i.format == EMV_FORMAT_ANS; if (k && !list) w.decoded += QString(q ? " : \"" : " : ") + vs_buf + (q ? "\"" : ""); }
		if (!t.cons) { w.simple += " " + hx(v, t.len); w.raw = QString::asprintf("[%zu] ", (size_t)t.len) + hx(v, t.len);
			if (list) { w.lists << QString::fromUtf8(vs_buf).trimmed(); w.entries.emplace_back(); }
			else if (i.format == EMV_FORMAT_DOL || i.format == EMV_FORMAT_TAG_LIST) { bool dol = i.format == EMV_FORMAT_DOL; w.lists << (dol ? "Data Object List:" : "Tag List:"); QStringList l; for (size_t q = 0; q < t.len;) { uint64_t g; int z = ref_tag(v + q, t.len - q, g); if (z <= 0) break; q += z; emv_tlv_info_t j; if (dol) { if (q == t.len) break; unsigned ln = v[q++]; tag_info(j, g, ln); l << QString::asprintf("%02X", (unsigned)g) + (j.tag_name ? QString(" | ") + j.tag_name : "") + QString::asprintf(" [%u]", ln); } else { tag_info(j, g, 0); l << QString::asprintf("%02X", (unsigned)g) + (j.tag_name ? QString(" | ") + j.tag_name : ""); } } w.entries.push_back(l); } }
		if (t.cons) { size_t at = out.size() - 1; size_t g = walk(f, w.kids, pad, v, t.len, base + p + t.off, d + 1); out[at] = w; if (f.deep) return 0; if (g < t.len) return p + t.off + g; } else out.back() = w;
		p += r;
	}
}
static bool space(QChar c) { unsigned u = c.unicode(); return (u >= 9 && u <= 13) || u == 32 || u == 0x85 || u == 0xA0 || u == 0x1680 || (u >= 0x2000 && u <= 0x200A) || u == 0x2028 || u == 0x2029 || u == 0x202F || u == 0x205F || u == 0x3000; }
static int digit(QChar c) { unsigned u = c.unicode(); return u >= '0' && u <= '9' ? u - '0' : u >= 'A' && u <= 'F' ? u - 'A' + 10 : u >= 'a' && u <= 'f' ? u - 'a' + 10 : -1; }
static Bytes bytes_of(const QString& s) { Bytes b; int hi = -1; for (QChar c : s) { if (space(c)) continue; int d = digit(c); if (d < 0) break; if (hi < 0) hi = d; else { b.push_back(hi * 16 + d); hi = -1; } } return b; }
// --- the window
struct Sig { quint32 fg = 1, bg = 1; int w = 0; bool operator==(const Sig& o) const { return fg == o.fg && bg == o.bg && w == o.w; } bool operator!=(const Sig& o) const { return !(*this == o); } };
static Sig sig_of(const QTextCharFormat& f) { Sig s; if (f.hasProperty(QTextFormat::ForegroundBrush)) s.fg = f.foreground().color().rgba(); if (f.hasProperty(QTextFormat::BackgroundBrush)) s.bg = f.background().color().rgba(); s.w = f.fontWeight(); return s; }
static struct { Sig valid, invalid, alien, tag, pad; quint32 sel; bool known = false; } LOOK;
struct Win {
	Mc& m; std::unique_ptr<EmvViewerMainWindow> w; EmvViewerMainWindow* given = nullptr; QPlainTextEdit *edit, *info; QTreeWidget* tree; QCheckBox *tags, *pad, *dec; QPersistentModelIndex picked; bool ever = false, unsure = false; size_t sel_off = 0, sel_len = 0; std::string what;
	explicit Win(Mc& mm, QString text = QString(), int st = -1, EmvViewerMainWindow* g = nullptr) : m(mm), given(g) { open(text, st); }
	~Win() { if (w) QCoreApplication::processEvents(); } // what is delayed until the window is idle takes place while it exists
	void open(QString text, int st) {
		if (!given) { want_app(); w.reset(new EmvViewerMainWindow(nullptr, text, st)); } QWidget* x = given ? given : w.get();
		edit = x->findChild<QPlainTextEdit*>("dataEdit"); info = x->findChild<QPlainTextEdit*>("descriptionText"); tree = x->findChild<QTreeWidget*>("treeView"); tags = x->findChild<QCheckBox*>("tagsCheckBox"); pad = x->findChild<QCheckBox*>("paddingCheckBox"); dec = x->findChild<QCheckBox*>("decodeCheckBox"); if (!edit || !info || !tree || !tags || !pad || !dec) m.fail("window", "a part of the window is missing"); ever = false; picked = QPersistentModelIndex();
	}
	void settle() { // the delayed update takes place
		QWidget* x = given ? given : w.get(); QCoreApplication::sendPostedEvents(); QCoreApplication::processEvents();
		for (int k = 0; k < 5; ++k) { bool any = false; for (QTimer* t : x->findChildren<QTimer*>()) if (t->isActive() && t->isSingleShot()) { any = true; QTimerEvent e(t->timerId()); QCoreApplication::sendEvent(t, &e); } if (!any) break; } QCoreApplication::processEvents(); m.step();
	}
	void text(const QString& s) { m.log("text \"%s\"", cut(U(s)).c_str()); edit->setPlainText(s); m.step(); }
	void set(QCheckBox* b, bool on) { if (b->isChecked() != on) toggle(b); }
	void toggle(QCheckBox* b) { m.log("click %s", U(b->objectName()).c_str()); b->click(); m.step(); }
	void press(QTreeWidgetItem* it, const Row* r) { m.log("press \"%s\"", cut(U(it->text(0))).c_str()); Q_EMIT tree->itemPressed(it, 0); m.step(); if (!r) return; ever = true; sel_off = r->off * 2; sel_len = r->len * 2; QModelIndex ix; std::vector<int> path; for (QTreeWidgetItem* q = it; q; q = q->parent()) path.push_back(q->parent() ? q->parent()->indexOfChild(q) : tree->indexOfTopLevelItem(q)); for (size_t i = path.size(); i--;) ix = tree->model()->index(path[i], 0, ix); picked = ix; }
	[[noreturn]] void bad(const char* key, const std::string& s) { m.fail(key, "%s\"%s\"%s%s%s: %s", what.c_str(), cut(U(edit->toPlainText())).c_str(), tags->isChecked() ? " tags" : "", pad->isChecked() ? " padding" : "", dec->isChecked() ? " decode" : "", s.c_str()); }
	// rows
	size_t rows(const std::vector<Row>& v, QTreeWidgetItem* p, int first, bool all) {
		int k = first; for (auto& r : v) { QTreeWidgetItem* it = k < p->childCount() ? p->child(k) : nullptr; ++k; if (!it) bad("tree", "the row for offset " + std::to_string(r.off) + " is missing"); bool d = dec->isChecked(); QString want = d ? r.decoded : r.simple; if (!(r.vague && d) && it->text(0) != want) bad("tree", "\"" + cut(U(it->text(0))) + "\" is shown instead of \"" + cut(U(want)) + "\""); if (it->isHidden()) bad("tree", "hidden row");
			int n = it->childCount(); if (r.cons) { if (!it->isExpanded() && n) bad("tree", "collapsed"); size_t q = rows(r.kids, it, 0, all); if ((int)q != n) bad("tree", "surplus rows below \"" + cut(U(it->text(0))) + "\""); continue; }
			if (r.padding) { if (n) bad("tree", "rows below padding"); continue; }
			if (n < 1 || it->child(0)->text(0) != r.raw) bad("tree", "the bytes are shown as \"" + (n ? cut(U(it->child(0)->text(0))) : "") + "\" instead of \"" + cut(U(r.raw)) + "\""); if (r.vague) continue;
			if (n != 1 + r.lists.size()) bad("tree", "there are " + std::to_string(n) + " rows below \"" + cut(U(it->text(0))) + "\""); for (int i = 0; i < n; ++i) if (it->child(i)->isHidden() == d) bad("tree", std::string("a detail is ") + (d ? "hidden" : "shown"));
			for (int i = 0; i < r.lists.size(); ++i) { QTreeWidgetItem* c = it->child(1 + i); if (c->text(0) != r.lists[i]) bad("tree", "\"" + cut(U(c->text(0))) + "\" is shown instead of \"" + cut(U(r.lists[i])) + "\""); if (c->childCount() != r.entries[i].size()) bad("tree", std::to_string(c->childCount()) + " entries are shown instead of " + std::to_string(r.entries[i].size())); for (int j = 0; j < c->childCount(); ++j) if (c->child(j)->text(0) != r.entries[i][j]) bad("tree", "entry \"" + cut(U(c->child(j)->text(0))) + "\" is shown instead of \"" + cut(U(r.entries[i][j])) + "\""); if (c->childCount() && !c->isExpanded()) bad("tree", "collapsed"); } }
		return k;
	}
	Ref ref() { Ref f; QString t = edit->toPlainText(); static Bytes b; b = bytes_of(t); f.good = walk(f, f.rows, pad->isChecked(), b.data(), b.size(), 0, 0); return f; }
	// everything, when no update is outstanding
	void judge(const Ref& f, bool pending = false) {
		QString t = edit->toPlainText(), all; for (QChar c : t) if (!space(c)) all += c; m.step();
		if (f.deep) { m.cover("too deep"); return; }
		QTreeWidgetItem* root = tree->invisibleRootItem(); int k = 0; bool left = (int)f.good * 2 < all.size(); if (pending) goto marks; k = rows(f.rows, root, 0, true);
		if (left) { QTreeWidgetItem* it = k < root->childCount() ? root->child(k) : nullptr; ++k; QString want = "Remaining invalid data: " + all.mid(f.good * 2); if (!it || it->text(0) != want) bad("remaining", "\"" + (it ? cut(U(it->text(0))) : "") + "\" is shown instead of \"" + cut(U(want)) + "\""); }
		if (k != root->childCount()) bad("tree", "surplus row \"" + cut(U(root->child(k)->text(0))) + "\"");
	marks:
		bool live = ever && picked.isValid(); size_t g = 0, lit = 0; const unsigned char TAG = 1, PADD = 2, SELD = 4; std::vector<unsigned char> is(f.good * 2 + 2, 0); for (auto& x : f.tags) for (size_t i = 2 * x.first; i < 2 * (x.first + x.second); ++i) if (i < is.size()) is[i] |= TAG; for (auto& x : f.pads) for (size_t i = 2 * x.first; i < 2 * (x.first + x.second); ++i) if (i < is.size()) is[i] |= PADD; (void)SELD;
		for (QTextBlock b = edit->document()->begin(); b != edit->document()->end(); b = b.next()) {
			QString s = b.text(); std::vector<Sig> at(s.size(), sig_of(QTextCharFormat())); for (auto& r : b.layout()->formats()) { Sig q = sig_of(r.format); for (int i = r.start; i < r.start + r.length && i < s.size(); ++i) if (i >= 0) at[i] = q; }
			for (int i = 0; i < s.size(); ++i) { QChar c = s[i]; if (space(c)) continue; size_t at_g = g++; bool hexd = digit(c) >= 0; Sig got = at[i]; bool sel = live && at_g >= sel_off && at_g < sel_off + sel_len && hexd; bool lights = LOOK.known && got.bg == LOOK.sel; lit += lights;
				if (!LOOK.known) continue; auto where = [&] { return "character " + std::to_string(at_g) + " '" + U(QString(c)) + "'"; };
				if (pending || unsure) { if (lights) continue; } else if (sel != lights) bad("selection", where() + (sel ? " belongs to the selected field but is not marked" : " is marked but does not belong to a selected field"));
				bool good = at_g < f.good * 2; unsigned char z = good ? is[at_g] : 0; if (lights) { got.bg = LOOK.valid.bg; if ((z & TAG) && tags->isChecked()) { if (got.w != LOOK.tag.w) bad("highlight", where() + " belongs to a tag but does not look like one"); continue; } }
				if (z & PADD) { if (got != LOOK.pad && got != LOOK.valid) bad("highlight", where() + " is padding but does not look like it"); continue; }
				const Sig& want = !hexd ? LOOK.alien : !good ? LOOK.invalid : (z & TAG) && tags->isChecked() ? LOOK.tag : LOOK.valid; const char* nm = !hexd ? "no hexadecimal digit" : !good ? "invalid" : (z & TAG) && tags->isChecked() ? "part of a tag" : "part of a valid field";
				if (got != want) bad("highlight", where() + " is " + nm + " but does not look like it"); }
		}
		if ((size_t)all.size() != g) bad("text", "the text is taken apart differently");
		m.cover(!all.size() ? "empty" : left ? "invalid data" : f.pads.size() ? "padding" : "valid data"); if (lit) m.cover("selection");
		uint64_t h = hmix(f.good, tags->isChecked() * 4 + pad->isChecked() * 2 + dec->isChecked()); for (auto& x : f.tags) h = hmix(hmix(h, x.first), x.second); for (auto& r : f.rows) h = hash(U(r.tag), h); m.state(hmix(h, live ? sel_off * 1000 + sel_len : 0));
	}
	void check() { settle(); judge(ref()); }
	// every row with its reference, in order
	void collect(const std::vector<Row>& v, QTreeWidgetItem* p, std::vector<std::pair<QTreeWidgetItem*, const Row*>>& out) { for (size_t i = 0; i < v.size() && (int)i < p->childCount(); ++i) { QTreeWidgetItem* c = p->child(i); out.push_back({ c, &v[i] }); if (v[i].cons) collect(v[i].kids, c, out); } }
	static std::string flat(const QString& s) { return U(s.simplified()); }
	void check_info(const Row* r) { std::string t = flat(info->toPlainText()); bool legal = t.find("Leon Lynch") != std::string::npos || t.find("Copyright") != std::string::npos; if (!r) { if (!legal) bad("description", "\"" + cut(t) + "\" is described although no field is selected"); return; } std::string want = r->tag.isEmpty() ? "" : flat(r->tag + " " + r->desc); if (t != want) bad("description", "\"" + cut(t) + "\" instead of \"" + cut(want) + "\""); }
	void press_all(size_t few = 0) { Ref f = ref(); if (f.deep) return; std::vector<std::pair<QTreeWidgetItem*, const Row*>> all; collect(f.rows, tree->invisibleRootItem(), all); for (size_t i = all.size(); i--;) { if (few && i >= few && i + few < all.size()) continue; press(all[i].first, all[i].second); judge(f); check_info(all[i].second); } }
};
static void look(Mc& m) { // what the six kinds of characters look like
	if (LOOK.known) return; init_process(); want_app(); forget_settings(); Win w(m); auto sig = [&](const char* t, int i) { w.text(t); w.settle(); Sig s = sig_of(QTextCharFormat()); for (auto& r : w.edit->document()->begin().layout()->formats()) if (i >= r.start && i < r.start + r.length) s = sig_of(r.format); return s; };
	w.set(w.dec, false); w.set(w.tags, false); w.set(w.pad, false); LOOK.valid = sig("5001AA", 4); LOOK.invalid = sig("50", 0); LOOK.alien = sig("G", 0); w.toggle(w.tags); LOOK.tag = sig("5001AA", 0); w.toggle(w.pad); LOOK.pad = sig("50014180FFFFFFFF", 7); w.toggle(w.tags); w.toggle(w.pad); w.text("5001AA"); w.settle(); if (w.tree->topLevelItemCount() < 1) m.fail("tree", "no row for 5001AA"); w.press(w.tree->topLevelItem(0), nullptr); w.settle(); { Sig s = sig_of(QTextCharFormat()); for (auto& r : w.edit->document()->begin().layout()->formats()) if (r.start <= 4 && r.start + r.length > 4) s = sig_of(r.format); LOOK.sel = s.bg; }
	const Sig* a[] = { &LOOK.valid, &LOOK.invalid, &LOOK.alien, &LOOK.tag }; for (auto p : a) { for (auto q : a) if (p != q && *p == *q) m.fail("highlight", "characters of different kinds look the same"); if (p->bg == LOOK.sel) m.fail("selection", "the selected field cannot be told from others"); } if (LOOK.pad == LOOK.invalid || LOOK.pad == LOOK.alien) m.fail("highlight", "padding looks invalid"); LOOK.known = true;
}
static std::unique_ptr<Win> the_win;
static Win& pooled(Mc& m) { // for executions that start with a complete new text: one window for all of an item
	static uint64_t item; look(m); if (!the_win || item != m.item) { the_win.reset(); the_win.reset(new Win(m)); item = m.item; } return *the_win;
}
static QString hexq(const Bytes& v) { return QString::fromStdString(hex(v)); }
static void check_tlv(Mc& m, const Bytes& v, bool emv, bool pad, int via = 0) {
	Win& w = pooled(m); w.set(w.dec, emv); w.set(w.pad, pad); QString h = hexq(v); if (via == 2) { QString o = " "; for (int i = 0; i < h.size(); ++i) { if (i && i % 2 == 0) o += "\t \n"[i / 2 % 3]; o += h[i].toLower(); if (i % 6 == 0) o += ' '; } h = o; }
	w.text(h); if (v.size() <= 12) w.set(w.tags, true); w.check(); if (v.size() <= (m.thorough ? 60 : 30) && via != 1) w.press_all(); else if (v.size() > 120 && v.size() < 10000 && via != 1) w.press_all(2);
}
#include "tlv_spaces.h"
#include "c32_spaces.h"
