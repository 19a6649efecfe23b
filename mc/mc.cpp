#include "mc.h"
#include <sanitizer/allocator_interface.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <errno.h>
#include <alloca.h>
#include <algorithm>
#include <map>

namespace mc {
void (*setup_hook)() = nullptr;

enum { MAXPATH = 1 << 16, MAXCOVER = 400, MAXW = 16, MAXSAMPLE = 6 };
enum { ST_RUN = 0, ST_DONE = 1, ST_FAIL = 2 };
struct Cover { char name[56]; uint64_t n; };
struct Worker {
	volatile uint64_t execs, steps, items, skipped;
	volatile uint32_t space; volatile uint64_t outer;
	volatile uint32_t len; uint32_t path[MAXPATH]; uint32_t radix[MAXPATH];
	volatile int status;
	char key[128]; char msg[8192];
	Cover cover[MAXCOVER];
	char sample[MAXSAMPLE][3000]; int nsample;
	uint64_t maxdepth;
};
struct Space { std::string name; uint64_t outer; SpaceFn fn; uint32_t split; };
static std::vector<Space>& spaces() { static std::vector<Space> s; return s; }
static Worker* W;            // this worker
static uint64_t* bitmap; static const uint64_t BITS = 1ull << 28;
static uint64_t* space_execs; // per space counters (shared)
static std::vector<uint32_t> path, radix_; static size_t pos; static size_t fixed_;
static std::string tracebuf; static bool replaying;
static bool deferred; static char dkey[128], dmsg[8192];
static bool g_nondet;

void add(const char* name, uint64_t outer, SpaceFn fn, uint32_t split) { std::string n = name; for (auto& c : n) if (c == ' ') c = '_'; if (split < 1) split = 1; spaces().push_back({n, outer * split, fn, split}); }
static bool dead; static uint32_t first_fixed; static bool have_first;

uint32_t Mc::choose(uint32_t n) {
	if (n <= 1) return 0;
	uint32_t c;
	if (have_first && pos == 0 && path.empty()) { c = first_fixed; if (c >= n) { dead = true; c = 0; } path.push_back(c); radix_.push_back(n); }
	if (pos < path.size()) {
		c = path[pos];
		if (c >= n || (radix_[pos] && radix_[pos] != n)) {
			g_nondet = true;
			defer("nondeterministic", "the same choices led to a different history (choice %zu had %u alternatives, now %u)", pos, radix_[pos], n);
			if (c >= n) c = n - 1;
		}
		radix_[pos] = n;
	} else {
		c = 0; path.push_back(0); radix_.push_back(n);
	}
	if (W && pos < MAXPATH) { W->path[pos] = c; W->radix[pos] = n; W->len = (uint32_t)pos + 1; }
	++pos;
	return c;
}
static void vset(char* d, size_t n, const char* fmt, va_list ap) { vsnprintf(d, n, fmt, ap); }
void Mc::fail(const char* key, const char* fmt, ...) {
	if (!deferred) { deferred = true; snprintf(dkey, sizeof dkey, "%s", key); va_list ap; va_start(ap, fmt); vset(dmsg, sizeof dmsg, fmt, ap); va_end(ap); }
	throw Abort();
}
void Mc::defer(const char* key, const char* fmt, ...) {
	if (deferred) return;
	deferred = true; snprintf(dkey, sizeof dkey, "%s", key);
	va_list ap; va_start(ap, fmt); vset(dmsg, sizeof dmsg, fmt, ap); va_end(ap);
}
void Mc::check_deferred() { if (deferred) throw Abort(); }
void Mc::state(uint64_t h) {
	if (!bitmap) return;
	h *= 0x9E3779B97F4A7C15ull; h ^= h >> 32;
	uint64_t b = h & (BITS - 1);
	if (!(bitmap[b >> 6] >> (b & 63) & 1)) __atomic_fetch_or(&bitmap[b >> 6], 1ull << (b & 63), __ATOMIC_RELAXED);
}
void Mc::step(uint64_t n) { if (W) W->steps += n; }
void Mc::cover(const char* label) {
	if (!W) return;
	static std::map<const char*, int> idx; // by pointer first
	auto it = idx.find(label);
	int i;
	if (it != idx.end()) i = it->second;
	else {
		for (i = 0; i < MAXCOVER - 1 && W->cover[i].name[0] && strncmp(W->cover[i].name, label, 55); ++i) {}
		if (!W->cover[i].name[0]) snprintf(W->cover[i].name, sizeof W->cover[i].name, "%s", label);
		idx[label] = i;
	}
	W->cover[i].n++;
}
void Mc::log(const char* fmt, ...) {
	if (!tracing) return;
	char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (replaying) { fflush(stdout); std::string s = std::string("  ") + b + "\n"; for (size_t o = 0; o < s.size();) { ssize_t k = write(1, s.data() + o, s.size() - o); if (k <= 0) break; o += k; } } // not by stdout: a harness may have replaced it
	else if (tracebuf.size() < 4000) { tracebuf += b; tracebuf += "; "; }
}
std::string hex(const void* p, size_t n) {
	static const char d[] = "0123456789ABCDEF"; std::string s; const uint8_t* b = (const uint8_t*)p;
	for (size_t i = 0; i < n; ++i) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
	return s;
}

// --- Buf: stack-like arena with poisoned gaps
static uint8_t* arena; static const size_t ARENA = 64 << 20; static size_t top_, base_; // base_: end of buffers made during setup
static void arena_init() {
	if (arena) return;
	arena = (uint8_t*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	ASAN_POISON_MEMORY_REGION(arena, 1 << 20); top_ = 0;
}
static size_t poisoned_ = 1 << 20;
static size_t live_bufs_;
Buf::Buf(size_t n, uint8_t fill) {
	arena_init(); mark_ = top_; n_ = n;
	size_t need = 32 + ((n + 7) & ~(size_t)7) + 256;
	if (top_ + need > ARENA) abort();
	while (top_ + need > poisoned_) { size_t k = std::min<size_t>(1 << 20, ARENA - poisoned_); ASAN_POISON_MEMORY_REGION(arena + poisoned_, k); poisoned_ += k; if (!k) abort(); }
	p_ = arena + top_ + 32;
	ASAN_UNPOISON_MEMORY_REGION(p_, n);
	memset(p_, fill, n);
	top_ += need; ++live_bufs_;
}
Buf::Buf(const void* s, size_t n) : Buf(n) { if (n) memcpy(p_, s, n); }
Buf::~Buf() {
	ASAN_POISON_MEMORY_REGION(p_, (n_ + 7) & ~(size_t)7);
	if (--live_bufs_ == 0) top_ = base_;
}

// --- allocations
static int in_lib; static uint64_t a_calls, a_failed; static int64_t f1 = -1, f2 = -1;
// open addressing table of live pointers
static const size_t TAB = 1 << 14; static uint16_t touched[TAB]; static size_t ntouched; static void* tab[TAB]; static size_t live_n; static void* const TOMB = (void*)1;
static size_t tombs;
static size_t slot(void* p) { uint64_t h = (uint64_t)p >> 4; h *= 0x9E3779B97F4A7C15ull; return h >> 50; }
static void tab_add(void* p) {
	if (!p) return;
	size_t i = slot(p); size_t n = 0;
	while (tab[i] && tab[i] != TOMB) { i = (i + 1) & (TAB - 1); if (++n >= TAB) return; }
	if (!tab[i]) touched[ntouched++] = i;
	tab[i] = p; ++live_n;
}
static bool tab_del(void* p) {
	if (!p || !live_n) return false;
	size_t i = slot(p); size_t n = 0;
	while (tab[i]) { if (tab[i] == p) { tab[i] = TOMB; ++tombs; --live_n; return true; } i = (i + 1) & (TAB - 1); if (++n >= TAB) break; }
	return false;
}
Lib::Lib() { ++in_lib; }
Lib::~Lib() { --in_lib; }
Host::Host() { saved = in_lib; in_lib = 0; }
Host::~Host() { in_lib = saved; }
void alloc_reset() { for (size_t i = 0; i < ntouched; ++i) tab[touched[i]] = nullptr; ntouched = 0; live_n = 0; tombs = 0; a_calls = a_failed = 0; f1 = f2 = -1; in_lib = 0; }
size_t alloc_live() { return live_n; }
uint64_t alloc_calls() { return a_calls; }
uint64_t alloc_failed() { return a_failed; }
void alloc_fail_at(int64_t a, int64_t b) { f1 = a; f2 = b; }
static bool inject() {
	if (!in_lib) return false;
	int64_t k = (int64_t)a_calls++;
	if (k == f1 || k == f2) { ++a_failed; return true; }
	return false;
}
__attribute__((noinline)) void smear(uint8_t pattern) {
	volatile uint8_t* b = (volatile uint8_t*)alloca(24576);
	memset((void*)b, pattern, 24576);
	__asm__ volatile("" :: "r"(b) : "memory");
}
} // namespace mc

extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*); char* __real_strdup(const char*);
void* __wrap_malloc(size_t n) { if (mc::inject()) { errno = ENOMEM; return nullptr; } void* p = __real_malloc(n); if (mc::in_lib) mc::tab_add(p); return p; }
void* __wrap_calloc(size_t a, size_t n) { if (mc::inject()) { errno = ENOMEM; return nullptr; } void* p = __real_calloc(a, n); if (mc::in_lib) mc::tab_add(p); return p; }
void* __wrap_realloc(void* o, size_t n) {
	if (mc::inject()) { errno = ENOMEM; return nullptr; }
	bool had = mc::tab_del(o); void* p = __real_realloc(o, n);
	if (mc::in_lib || had) mc::tab_add(p);
	return p;
}
char* __wrap_strdup(const char* s) { if (mc::inject()) { errno = ENOMEM; return nullptr; } char* p = __real_strdup(s); if (mc::in_lib) mc::tab_add(p); return p; }
void __wrap_free(void* p) { mc::tab_del(p); __real_free(p); }
}

namespace mc {
static uint64_t now_ms() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000ull + t.tv_nsec / 1000000; }

static bool run_once(Mc& m, Space& s, uint64_t outer) { // returns true if violated
	dead = false; pos = 0; deferred = false; m.budget = 0; m.skipped = false; top_ = base_; live_bufs_ = 0;
	if (W) W->len = 0;
	try { s.fn(m, outer / s.split); } catch (Abort&) {}
	if (in_lib) in_lib = 0;
	return deferred && !dead;
}
// explores one outer item completely; returns true on violation
static bool run_item(Mc& m, uint32_t si, uint64_t outer) {
	Space& s = spaces()[si];
	++m.item; path.clear(); radix_.clear(); have_first = s.split > 1; first_fixed = (uint32_t)(outer % s.split);
	if (W) { W->space = si; W->outer = outer; }
	for (;;) {
		m.tracing = replaying || (W && W->nsample < MAXSAMPLE && (W->execs == 3 || W->execs == 50 || W->execs == 1000 || W->execs == 20000 || W->execs == 200000));
		tracebuf.clear();
		bool bad = run_once(m, s, outer);
		if (m.tracing && W && !replaying && !tracebuf.empty()) { snprintf(W->sample[W->nsample++], 3000, "%s[%llu]: %s", s.name.c_str(), (unsigned long long)outer, tracebuf.c_str()); }
		bool stop = dead || (have_first && pos == 0 && first_fixed); if (stop) m.skipped = true;
		if (W) { W->execs++; if (m.skipped) W->skipped++; if (pos > W->maxdepth) W->maxdepth = pos; __atomic_fetch_add(&space_execs[si], 1, __ATOMIC_RELAXED); }
		if (bad) return true;
		if (stop) return false;
		if (path.size() > pos) { // shorter history than the prefix that was replayed
			deferred = true; snprintf(dkey, sizeof dkey, "nondeterministic"); snprintf(dmsg, sizeof dmsg, "the same choices led to a shorter history"); return true;
		}
		while (!path.empty() && path.back() + 1 >= radix_.back()) { path.pop_back(); radix_.pop_back(); }
		if (path.size() <= (have_first ? 1 : 0)) return false;
		path.back()++;
	}
}
static void record_fail() { if (!W) return; snprintf(W->key, sizeof W->key, "%s", dkey); snprintf(W->msg, sizeof W->msg, "%s", dmsg); W->status = ST_FAIL; }

static std::string jstr(const std::string& s) {
	std::string o = "\""; char b[8];
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
	return o + "\"";
}

int main_(int argc, char** argv) {
	int nw = 8; bool thorough = false; std::string replay; int only_worker = -1; std::string stderr_prefix; std::string only_space;
	uint64_t hang_ms = 30000; std::string mode = "case";
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "--thorough") thorough = true;
		else if (a == "--workers") nw = atoi(argv[++i]);
		else if (a == "--replay") replay = argv[++i];
		else if (a == "--mode") mode = argv[++i];
		else if (a == "--worker") only_worker = atoi(argv[++i]);
		else if (a == "--stderr") stderr_prefix = argv[++i];
		else if (a == "--hang-ms") hang_ms = strtoull(argv[++i], 0, 0);
		else if (a == "--space") only_space = argv[++i];
		else if (a == "--list") { alarm(300); if (setup_hook) setup_hook(); for (auto& s : spaces()) printf("%s %llu\n", s.name.c_str(), (unsigned long long)s.outer); return 0; }
	}
	if (nw > MAXW) nw = MAXW;
	Mc m; m.thorough = thorough;
	setenv("MC_TIER", thorough ? "thorough" : "quick", 1);
	alarm(300); if (setup_hook) setup_hook(); alarm(0);
	arena_init(); base_ = top_;
	if (!only_space.empty()) { auto& v = spaces(); v.erase(std::remove_if(v.begin(), v.end(), [&](const Space& s) { return s.name.find(only_space) == std::string::npos; }), v.end()); }

	if (!replay.empty()) { // replay file: "<space> <outer> <n> c0 r0 c1 r1 ..."
		FILE* f = fopen(replay.c_str(), "r"); if (!f) return 3;
		char line[64]; char name[256]; unsigned long long outer; unsigned n; std::vector<uint32_t> p, r;
		for (;;) { // skip comment lines
			int c = fgetc(f); if (c == '#') { while ((c = fgetc(f)) != '\n' && c != EOF) {} } else { ungetc(c, f); break; }
		}
		(void)line;
		if (fscanf(f, "%255s %llu %u", name, &outer, &n) != 3) return 3;
		for (unsigned i = 0; i < n; ++i) { unsigned a, b; if (fscanf(f, "%u %u", &a, &b) != 2) return 3; p.push_back(a); r.push_back(b); }
		fclose(f); if (!strcmp(name, "setup")) { printf("held\n"); return 0; } // a failure before exploration: setup_hook has not failed now
		uint32_t si = 0; for (; si < spaces().size(); ++si) if (spaces()[si].name == name) break;
		if (si == spaces().size()) { fprintf(stderr, "no such space %s\n", name); return 3; }
		if (mode == "case") {
			replaying = true; m.tracing = true; path = p; radix_.assign(p.size(), 0);
			printf("replaying space=%s item=%llu choices=%u\n", name, outer, n); fflush(stdout);
			bool bad = run_once(m, spaces()[si], outer);
			if (bad) { printf("VIOLATED [%s] %s\n", dkey, dmsg); return 1; }
			printf("held\n"); return 0;
		}
		if (mode == "item") { // whole item from its beginning
			bool bad = run_item(m, si, outer);
			if (bad) { printf("VIOLATED [%s] %s\n", dkey, dmsg); return 1; }
			printf("held\n"); return 0;
		}
		return 3;
	}

	Worker* ws = (Worker*)mmap(nullptr, sizeof(Worker) * MAXW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	bitmap = (uint64_t*)mmap(nullptr, BITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	space_execs = (uint64_t*)mmap(nullptr, 8 * (spaces().size() + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::vector<pid_t> pids(nw, 0);
	uint64_t t0 = now_ms();
	for (int w = 0; w < nw; ++w) {
		if (only_worker >= 0 && w != only_worker) { ws[w].status = ST_DONE; continue; }
		pid_t p = fork();
		if (p == 0) {
			W = &ws[w];
			if (!stderr_prefix.empty()) { int fd = open((stderr_prefix + std::to_string(w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); }
			int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
			for (uint32_t si = 0; si < spaces().size(); ++si)
				for (uint64_t o = 0; o < spaces()[si].outer; ++o) {
					if ((o + si) % nw != (uint64_t)w) continue;
					W->items++;
					if (run_item(m, si, o)) { record_fail(); _exit(0); }
				}
			W->status = ST_DONE; _exit(0);
		}
		pids[w] = p;
	}
	std::vector<uint64_t> last(nw, 0), idle(nw, 0); // idle: milliseconds this process has watched a worker without progress (not time it was itself stopped)
	int bad = -1; std::string kind;
	int left = 0; for (auto p : pids) if (p) ++left;
	while (left > 0) {
		usleep(20000);
		for (int w = 0; w < nw; ++w) {
			if (!pids[w]) continue;
			int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
			if (r == pids[w]) {
				pids[w] = 0; --left;
				if (ws[w].status != ST_DONE && bad < 0) { bad = w; kind = ws[w].status == ST_FAIL ? "assertion" : "crash"; }
				continue;
			}
			if (ws[w].execs != last[w]) { last[w] = ws[w].execs; idle[w] = 0; }
			else if ((idle[w] += 20) > hang_ms && bad < 0) { bad = w; kind = "hang"; }
		}
		if (bad >= 0) { for (auto& p : pids) if (p) { kill(p, SIGKILL); waitpid(p, nullptr, 0); p = 0; --left; } break; }
	}
	// report
	uint64_t ex = 0, st = 0, sk = 0, md = 0; std::map<std::string, uint64_t> cov; 
	for (int w = 0; w < nw; ++w) { ex += ws[w].execs; st += ws[w].steps; sk += ws[w].skipped; md = std::max(md, ws[w].maxdepth); for (int i = 0; i < MAXCOVER && ws[w].cover[i].name[0]; ++i) cov[ws[w].cover[i].name] += ws[w].cover[i].n; }
	uint64_t distinct = 0; for (uint64_t i = 0; i < BITS / 64; ++i) distinct += __builtin_popcountll(bitmap[i]);
	printf("{\"executions\": %llu, \"steps\": %llu, \"duplicates\": %llu, \"distinct\": %llu, \"max_choices\": %llu, \"ms\": %llu,\n", (unsigned long long)ex, (unsigned long long)st, (unsigned long long)sk, (unsigned long long)distinct, (unsigned long long)md, (unsigned long long)(now_ms() - t0));
	printf("\"spaces\": {"); for (size_t i = 0; i < spaces().size(); ++i) printf("%s%s: %llu", i ? ", " : "", jstr(spaces()[i].name).c_str(), (unsigned long long)space_execs[i]); printf("},\n");
	printf("\"cover\": {"); { bool f = true; for (auto& c : cov) { printf("%s%s: %llu", f ? "" : ", ", jstr(c.first).c_str(), (unsigned long long)c.second); f = false; } } printf("},\n");
	printf("\"samples\": ["); { bool f = true; int k = 0; for (int w = 0; w < nw && k < 8; ++w) for (int i = 0; i < ws[w].nsample && k < 8; ++i, ++k) { printf("%s%s", f ? "" : ",\n", jstr(ws[w].sample[i]).c_str()); f = false; } } printf("],\n");
	if (bad >= 0) {
		Worker& b = ws[bad];
		printf("\"violation\": {\"kind\": %s, \"key\": %s, \"msg\": %s, \"worker\": %d, \"space\": %s, \"outer\": %llu, \"path\": [", jstr(kind).c_str(), jstr(b.key).c_str(), jstr(b.msg).c_str(), bad, jstr(spaces()[b.space].name).c_str(), (unsigned long long)b.outer);
		for (uint32_t i = 0; i < b.len && i < MAXPATH; ++i) printf("%s%u,%u", i ? "," : "", b.path[i], b.radix[i]);
		printf("]}\n}\n");
		return 1;
	}
	printf("\"violation\": null}\n");
	return 0;
}
void setup_failed(const char* fmt, ...) { va_list a; va_start(a, fmt); fprintf(stderr, "SETUP: "); vfprintf(stderr, fmt, a); fprintf(stderr, "\n"); va_end(a); fflush(stderr); _exit(98); }
} // namespace mc

int main(int argc, char** argv) { return mc::main_(argc, argv); }
