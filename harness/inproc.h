#pragma once
#include <functional>
// --- a process that lives inside this one
static std::string g_out, g_err; static const std::string* g_in; static size_t g_inpos, g_chunk; static bool g_inerr, in_tool; static jmp_buf g_jb; static int g_status;
static FILE *f_out, *f_err; static std::string* sink_out = &g_out;
static std::vector<char> snap;
static ssize_t w_err(void*, const char* b, size_t n) { g_err.append(b, n); return n; }
static std::function<void()> g_more; static unsigned g_eofs; // supplies further input when it is wanted; times the tool was told that the input ended
static ssize_t w_out(void*, const char* b, size_t n) { g_out.append(b, n); if (in_tool && g_more && g_out.size() > 4000000) { g_status = -1000; g_out.clear(); longjmp(g_jb, 1); } return n; } // a dialogue without end
static ssize_t r_in(void*, char* b, size_t n) {
	if (g_more && g_inpos == g_in->size()) { Host h; g_more(); }
	if (g_inpos == g_in->size() && in_tool && ++g_eofs > 50) { g_status = -1000; longjmp(g_jb, 1); }
	if (g_inerr && g_inpos == g_in->size()) { errno = EIO; return -1; }
	size_t k = std::min(n, g_in->size() - g_inpos); if (g_chunk && k > g_chunk) k = g_chunk; memcpy(b, g_in->data() + g_inpos, k); g_inpos += k; return k; }
extern "C" void __wrap_exit(int c) { if (!in_tool) __real_exit(c); g_status = c; longjmp(g_jb, 1); }
extern "C" void __wrap_argp_error(const struct argp_state* s, const char* fmt, ...) { char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (!in_tool) { __real_argp_error(s, "%s", b); return; } fprintf(stderr, "%s\n", b); g_status = 64; longjmp(g_jb, 1); }
extern "C" void __wrap_argp_usage(const struct argp_state* s) { if (!in_tool) { __real_argp_usage(s); return; } fprintf(stderr, "usage\n"); g_status = 64; longjmp(g_jb, 1); }
static bool g_inited; // the code lists are loaded once; the tool must still ask for them
extern "C" int __wrap_emv_strings_init(const char* a, const char* b) { if (!in_tool) return __real_emv_strings_init(a, b); g_inited = true; return 0; }
// when started with C28_TOOL set, this program simply is the tool (so that real processes can be run)
__attribute__((constructor)) static void be_the_tool(int argc, char** argv, char**) { if (getenv("C28_TOOL")) __real_exit(TOOL_MAIN(argc, argv)); }
__attribute__((no_sanitize("address"), noinline)) static void raw_copy(char* d, const char* s, size_t n) { for (size_t i = 0; i < n; ++i) { d[i] = s ? s[i] : 0; __asm__ volatile("" ::: "memory"); } }
struct Res { std::string out, err; int status; };
static FILE* swap_streams(FILE*& o, FILE*& e) { o = stdout; e = stderr; stdout = f_out; stderr = f_err; g_out.clear(); g_err.clear(); return nullptr; }
typedef std::vector<std::string> Args;
static std::string show(const Args& a) { std::string s; for (auto& x : a) s += (s.empty() ? "" : " ") + (x.size() > 300 ? x.substr(0, 300) + "..." : x); return s; }
static Res run(Mc& m, const Args& args, const std::string* in = nullptr, size_t chunk = 0, bool inerr = false) {
	m.log(TOOL_NAME " %s", show(args).c_str());
	struct Held { std::deque<std::unique_ptr<Buf>> q; ~Held() { while (!q.empty()) q.pop_back(); } } h; std::vector<char*> av;
	static const std::string prog = TOOL_NAME, none;
	auto put = [&](const std::string& s) { h.q.emplace_back(new Buf(s.c_str(), s.size() + 1)); av.push_back(h.q.back()->c()); };
	put(prog); for (auto& a : args) put(a); int argc = (int)av.size(); av.push_back(nullptr);
	raw_copy(__start_decdata, snap.data(), snap.size()); if (__start_decbss) raw_copy(__start_decbss, nullptr, __stop_decbss - __start_decbss);
	g_in = in ? in : &none; g_inpos = 0; g_eofs = 0; g_chunk = chunk; g_inerr = inerr;
	static FILE* eof_in; if (!eof_in) { cookie_io_functions_t io = { r_in, nullptr, nullptr, nullptr }; eof_in = fopencookie(nullptr, "r", io); }
	clearerr(eof_in); __fpurge(eof_in);
	FILE *so, *se, *si = stdin; swap_streams(so, se); stdin = eof_in; g_inited = false; smear(0x41);
	static Res r; in_tool = true;
	if (!setjmp(g_jb)) g_status = LIB(TOOL_MAIN(argc, av.data()));
	in_tool = false; fflush(f_out); fflush(f_err); stdout = so; stderr = se; stdin = si; m.step();
	r.out.swap(g_out); r.err.swap(g_err); r.status = g_status; return r;
}
static std::string cut(const std::string& s, size_t at = 0) { std::string o; size_t b = at > 60 ? at - 60 : 0; for (size_t i = b; i < s.size() && i < b + 400; ++i) { char c = s[i]; if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char t[5]; snprintf(t, 5, "\\x%02X", (uint8_t)c); o += t; } else o += c; } return o; }

