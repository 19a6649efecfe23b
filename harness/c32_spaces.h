// the spaces of C32
static std::vector<QString> T32; // texts
static void drop_app() { the_win.reset(); QCoreApplication::processEvents(); delete app; app = nullptr; }
// one action of the user (or the delayed update); false when it does not apply
enum { A_SETTLE, A_TAGS, A_PAD, A_DEC, A_UNDO, A_REDO, A_TEXT, A_CLEAR, A_INS0, A_INSM, A_INSE, A_LINE, A_ALIEN, A_DEL0, A_DELM, A_DELE, A_ROW0, A_ROW1, A_ROW2, A_ROWN, A_END };
static bool act(Mc& m, Win& w, unsigned a, bool& pending) {
	QTextDocument* d = w.edit->document(); int n = d->characterCount() - 1; bool was = pending; QString before = w.edit->toPlainText(); QTextCursor c(d);
	auto edit = [&](const char* name, int at, const char* s) { m.log("%s", name); c.setPosition(at < 0 ? n : at); c.insertText(s); };
	auto del = [&](const char* name, int at) { if (!n) return false; m.log("%s", name); c.setPosition(at); c.deleteChar(); return true; };
	switch (a) {
	case A_SETTLE: if (!was) return false; m.log("the update takes place"); w.settle(); pending = false; break;
	case A_TAGS: w.toggle(w.tags); break; case A_PAD: w.toggle(w.pad); pending = true; break; case A_DEC: w.toggle(w.dec); break;
	case A_UNDO: if (!d->isUndoAvailable()) return false; m.log("undo"); w.edit->undo(); break; case A_REDO: if (!d->isRedoAvailable()) return false; m.log("redo"); w.edit->redo(); break;
	case A_TEXT: w.text("7003500141 9F2601AA"); pending = true; break; case A_CLEAR: if (!n) return false; m.log("clear"); c.select(QTextCursor::Document); c.removeSelectedText(); break;
	case A_INS0: edit("insert 5000 at the start", 0, "5000"); break; case A_INSM: edit("insert 1 in the middle", n / 2, "1"); break; case A_INSE: edit("append 80", -1, "80"); break; case A_LINE: edit("break the line in the middle", n / 2, "\n"); break; case A_ALIEN: edit("append Z", -1, "Z"); break;
	case A_DEL0: if (!del("delete the first character", 0)) return false; break; case A_DELM: if (!del("delete a character in the middle", n / 2)) return false; break; case A_DELE: if (!del("delete the last character", n - 1)) return false; break;
	default: { // press a row of the tree
		Ref f; std::vector<std::pair<QTreeWidgetItem*, const Row*>> all; QTreeWidgetItem* root = w.tree->invisibleRootItem(); if (!was) { f = w.ref(); w.collect(f.rows, root, all); } std::vector<QTreeWidgetItem*> flat; for (QTreeWidgetItemIterator it(w.tree); *it; ++it) flat.push_back(*it);
		size_t k = a == A_ROWN ? flat.size() - 1 : a - A_ROW0; if (flat.empty() || k >= flat.size() || (a == A_ROWN && k < 3)) return false; const Row* r = nullptr; for (auto& x : all) if (x.first == flat[k]) r = x.second; QPersistentModelIndex old = w.picked; bool ever = w.ever; w.press(flat[k], r); if (was) { w.ever = false; } else if (r) { w.judge(f); w.check_info(r); } else { w.check_info(nullptr); w.picked = old; w.ever = ever; w.unsure = true; }
		if (r) w.unsure = false; return true; }
	}
	if (w.edit->toPlainText() != before) pending = true; m.step(); return true;
}
static void history(Mc& m, Win& w, const QString& start, unsigned opts, unsigned first, unsigned depth) {
	bool pending = false; w.what = ""; w.set(w.tags, opts & 1); w.set(w.pad, opts & 2); w.set(w.dec, opts & 4); w.text(start); w.settle(); w.unsure = false; w.judge(w.ref());
	for (unsigned i = 0; i < depth; ++i) { unsigned a = i ? m.choose(A_END + 1) : first; if (a == A_END) break; if (!act(m, w, a, pending)) { m.skip(); return; } if (pending) w.judge(w.ref(), true); else w.judge(w.ref()); }
	w.settle(); w.unsure = w.unsure && !pending; w.judge(w.ref());
}
static void settings32(Mc& m, unsigned a, unsigned b) { // options, kept from one start to the next
	look(m); the_win.reset(); forget_settings(); for (unsigned k = 0; k < 3; ++k) { unsigned had = k == 0 ? 0 : k == 1 ? a : b; Win w(m); w.what = "start " + std::to_string(k + 1) + " after options " + std::to_string(a) + ", " + std::to_string(b) + ": "; unsigned got = w.tags->isChecked() + 2 * w.pad->isChecked() + 4 * w.dec->isChecked(); m.log("options %u", got); if (k && got != had) w.bad("settings", "the options are " + std::to_string(got) + " instead of " + std::to_string(had)); w.text("7003500141 9F2601AA 500141 80FFFFFF"); w.check(); unsigned want = k == 0 ? a : b; w.set(w.tags, want & 1); w.set(w.pad, want & 2); w.set(w.dec, want & 4); w.check(); m.log("close"); w.w->close(); m.step(); m.cover("settings"); }
	forget_settings();
}
static void given32(Mc& m, const QString& t, int st, unsigned stored) { // text and decoding that a start demands
	look(m); the_win.reset(); forget_settings(); { Win w(m); w.set(w.tags, stored & 1); w.set(w.pad, stored & 2); w.set(w.dec, stored & 4); w.w->close(); } Win w(m, t, st); w.what = "given text, decoding " + std::to_string(st) + ", stored options " + std::to_string(stored) + ": "; if (w.edit->toPlainText() != t) w.bad("given", "the text given is not shown"); if (st >= 0 && w.dec->isChecked() != (st != 0)) w.bad("given", "decoding is not what was demanded"); if (st < 0 && w.dec->isChecked() != !!(stored & 4)) w.bad("given", "decoding is not what was stored"); if (w.tags->isChecked() != !!(stored & 1) || w.pad->isChecked() != !!(stored & 2)) w.bad("given", "the options are not what was stored"); w.check(); w.check_info(nullptr); w.press_all(); m.cover("given text"); forget_settings();
}
static void main32(Mc& m, std::vector<std::string> args, const QString& text, int dec, const std::string& init) { // the program
	look(m); drop_app(); forget_settings(); std::vector<std::string> a{ "emv-viewer" }; a.insert(a.end(), args.begin(), args.end()); std::string line; for (auto& x : a) line += x + " "; std::vector<char*> av; for (auto& x : a) av.push_back(&x[0]); int n = av.size(); av.push_back(nullptr); m.log("%s", line.c_str()); bool ran = false; in_main = true; init_args.clear(); bool boom = false;
	in_exec = [&] { ran = true; try { EmvViewerMainWindow* x = nullptr; for (QWidget* q : QApplication::topLevelWidgets()) if (auto* y = qobject_cast<EmvViewerMainWindow*>(q)) x = y; if (!x) m.fail("main", "%s: no window", line.c_str()); if (!x->isVisible()) m.fail("main", "%s: the window is not shown", line.c_str()); Win w(m, QString(), -1, x); w.what = line + ": "; if (w.edit->toPlainText() != text) w.bad("main", "the text is not what was given"); if (w.dec->isChecked() != (dec > 0)) w.bad("main", "decoding is not what was demanded"); w.check(); w.press_all(); QCoreApplication::processEvents(); } catch (Abort&) { boom = true; } };
	int r = viewer_main(n, av.data()); in_exec = nullptr; in_main = false; if (boom) throw Abort(); if (!ran || r) m.fail("main", "%s: the program did not run", line.c_str()); if (init_args != init) m.fail("main", "%s: code lists \"%s\" instead of \"%s\"", line.c_str(), init_args.c_str(), init.c_str()); m.cover("program"); m.step(); want_app();
}
static void setup32() {
	bool th = !strcmp(getenv("MC_TIER"), "thorough"); static bool TH; TH = th; load_codes(); tlv_lite = !th;
	T32 = { "", "500141", "7003500141", "9F3803 9F3704", "5001418000000000", "95058000000000\n82023900", "7009 5001 41 8E0C", "50 01 4", "e1 80 50 00 00 00 9f 26 00", "9F1A020528 5F2D046E6C656E", "7080 500141", "0" };
	add("every character", 1024, [](Mc& m, uint64_t x) { unsigned u = x * 64 + m.choose(64); if ((u >= 0xD800 && u < 0xE000) || u == 0xFDD0 || u == 0xFDD1 || u == 0) { m.skip(); return; } QString t = "5001AA82020000"; static const int at[] = { 0, 1, 4, 5, 13, 14 }; unsigned p = m.choose(6); t.insert(at[p], QChar(u)); Win& w = pooled(m); w.set(w.dec, false); w.set(w.pad, false); w.set(w.tags, true); w.what = "U+" + std::to_string(u) + ": "; w.text(t); w.check(); });
	add("characters beyond the basic plane", 256, [](Mc& m, uint64_t x) { unsigned u = 0x10000 + x * 4096 + m.choose(16) * 257; uint hi = QChar::highSurrogate(u), lo = QChar::lowSurrogate(u); QString t = "5001AA82020000"; static const int at[] = { 0, 1, 4, 5, 13, 14 }; int p = at[m.choose(6)]; unsigned z = m.choose(3); if (z != 1) t.insert(p, QChar(lo)); if (z != 2) t.insert(p, QChar(hi)); Win& w = pooled(m); w.set(w.dec, false); w.set(w.pad, false); w.set(w.tags, true); w.what = ""; w.text(t); w.check(); });
	add("texts of pieces", 100, [](Mc& m, uint64_t x) { static const char* const P[] = { "5", "0", "00", "01", "e1", "9F", "G", " ", "\n", "\t\r\n" }; QString t = P[x % 10]; t += P[x / 10]; unsigned n = m.thorough ? 6 : 4; for (unsigned i = 2; i < n; ++i) { unsigned k = m.choose(11); if (k == 10) break; t += P[k]; } Win& w = pooled(m); w.set(w.dec, true); w.set(w.pad, m.thorough ? m.choose(2) : false); w.set(w.tags, true); w.what = ""; w.text(t); w.check(); if (m.thorough) w.press_all(); });
	add("texts laid out in lines", 4096, [](Mc& m, uint64_t x) { static const char D[] = "70095001418E001F0080FF00"; QString t; for (int i = 0; i < 24; ++i) { t += D[i]; if (i < 12 ? x >> i & 1 : i < 15 && m.choose(2)) t += i % 4 == 3 ? "\n" : i % 4 == 1 ? "\r\n \t" : i % 4 == 2 ? "\n\n" : "  "; } bool pad = m.choose(2); Win& w = pooled(m); w.set(w.dec, m.thorough ? m.choose(2) : x & 1); w.set(w.pad, pad); w.set(w.tags, true); w.what = ""; w.text(t); w.check(); if (!(x & 0x10)) w.press_all(); });
	add("histories", T32.size() * A_END * (th ? 8 : 2), [](Mc& m, uint64_t x) { unsigned t = x % T32.size(); x /= T32.size(); unsigned a = x % A_END, o = x / A_END; history(m, pooled(m), T32[t], m.thorough ? o : o * 7, a, m.thorough ? 4 : 3); });
	add("histories of a new window", T32.size() * A_END, [](Mc& m, uint64_t x) { look(m); the_win.reset(); forget_settings(); unsigned t = x % T32.size(); Win w(m, T32[t], (int)m.choose(3) - 1); bool p = !w.edit->toPlainText().isEmpty(); if (!act(m, w, x / T32.size(), p)) { m.skip(); return; } unsigned a = m.choose(A_END + 1); if (a < A_END && !act(m, w, a, p)) { m.skip(); return; } w.settle(); w.unsure = w.unsure && !p; w.judge(w.ref()); });
	add("deep histories", A_END * A_END, [](Mc& m, uint64_t x) { static const unsigned few[] = { A_SETTLE, A_PAD, A_UNDO, A_REDO, A_INSM, A_DELM, A_ROW0, A_ROW1, A_END }; bool p = false; Win& w = pooled(m); w.what = ""; w.set(w.tags, true); w.set(w.pad, true); w.set(w.dec, true); w.text(T32[2]); w.settle(); w.unsure = false; if (!act(m, w, x % A_END, p) || !act(m, w, x / A_END, p)) { m.skip(); return; } for (unsigned i = 0; i < (m.thorough ? 4u : 3u); ++i) { unsigned a = few[m.choose(9)]; if (a == A_END) break; if (!act(m, w, a, p)) { m.skip(); return; } w.judge(w.ref(), p); } w.settle(); w.unsure = w.unsure && !p; w.judge(w.ref()); });
	add("tags", 8, [](Mc& m, uint64_t x) { unsigned k = m.choose(m.thorough ? 3 : 2); Bytes v; uint8_t b = x << 5; if (k == 0) { unsigned n = m.choose(31); v = { (uint8_t)(b | n) }; } else if (k == 1) { v = { (uint8_t)(b | 0x1F), (uint8_t)m.choose(128) }; } else { uint8_t y = 0x80 | m.choose(128); v = { (uint8_t)(b | 0x1F), y, (uint8_t)m.choose(128) }; } v.push_back(0); check_tlv(m, v, m.choose(2), false); }, 3);
	add("settings", 64, [](Mc& m, uint64_t x) { settings32(m, x & 7, x >> 3); });
	add("given text", T32.size() * 8, [](Mc& m, uint64_t x) { given32(m, T32[x % T32.size()], (int)m.choose(3) - 1, x / T32.size()); });
	add("program", 5 * 5 * 3 * 3, [](Mc& m, uint64_t x) { static const char* const D[] = { "", "500141", "70 03 50 01 41", "5001G", "5F2D046E6C656E" }; const char *b = D[x % 5], *t = D[x / 5 % 5]; unsigned iso = x / 25 % 3, mcc = x / 75; std::vector<std::vector<std::string>> parts; auto put = [&](const char* opt, const std::string& v, bool eq) { if (eq) parts.push_back({ std::string("--") + opt + "=" + v }); else parts.push_back({ std::string("--") + opt, v }); };
		bool eq = m.choose(2); if (*b) put("ber", b, eq); if (*t) put("tlv", t, !eq); if (iso) put("isocodes-path", iso == 1 ? "/nowhere/iso codes" : "", eq); if (mcc) put("mcc-json", mcc == 1 ? "/nowhere/mcc.json" : "", !eq); if (m.choose(2)) std::reverse(parts.begin(), parts.end()); std::vector<std::string> args; for (auto& p : parts) args.insert(args.end(), p.begin(), p.end());
		main32(m, args, *t ? t : b, *t ? 1 : *b ? 0 : -1, std::string(iso == 1 ? "/nowhere/iso codes" : "(none)") + " " + (mcc == 1 ? "/nowhere/mcc.json" : "(none)")); });
	add_tlv_spaces(th);
}
static struct Init32 { Init32() { setup_hook = setup32; } } init32_;
