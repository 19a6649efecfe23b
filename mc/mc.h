// Stateless exhaustive explorer: every execution of a registered space is a sequence of
// choose() answers; the engine enumerates all of them, in order, and runs the real code on each.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <sanitizer/asan_interface.h>

namespace mc {

struct Abort {}; // thrown by fail() from harness code (never from inside a library callback)

class Mc {
public:
	// Nondeterministic choice in [0,n). Every value is explored.
	uint32_t choose(uint32_t n);
	// Choice that costs one unit of the deviation budget unless 0
	uint32_t deviate(uint32_t n) { if (budget <= 0) return 0; uint32_t c = choose(n); if (c) --budget; return c; }
	template<class T> const T& pick(const std::vector<T>& v) { return v[choose((uint32_t)v.size())]; }
	// Property violated; does not return.
	[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
	// Same, usable inside callbacks called from C code: recorded, raised at end of the execution.
	void defer(const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
	void check_deferred();
	void state(uint64_t h);                  // a distinct state reached
	void step(uint64_t n = 1);               // transitions executed on the implementation
	void cover(const char* label);           // named coverage counter
	void log(const char* fmt, ...) __attribute__((format(printf, 2, 3))); // trace of this execution
	bool tracing = false;
	bool thorough = false;
	int budget = 0;
	void skip() { skipped = true; }          // this execution is a duplicate of another one
	bool skipped = false;
	uint64_t item = 0;                       // changes with every outer item (and replay): what a harness keeps must not outlive one
};

typedef std::function<void(Mc&, uint64_t)> SpaceFn;
// Register a space: outer items [0,outer) are spread over the workers, inner choices are explored depth first.
// split > 1: the alternatives of the first choose() (at most split many) are spread over the workers as well.
void add(const char* name, uint64_t outer, SpaceFn fn, uint32_t split = 1);

inline uint64_t hash(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
	const uint8_t* b = (const uint8_t*)p;
	for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; h ^= h >> 29; }
	return h;
}
inline uint64_t hash(const std::string& s, uint64_t h = 0xcbf29ce484222325ull) { return hash(s.data(), s.size(), h); }
inline uint64_t hmix(uint64_t h, uint64_t v) { return hash(&v, sizeof v, h); }

std::string hex(const void* p, size_t n);
inline std::string hex(const std::vector<uint8_t>& v) { return hex(v.data(), v.size()); }

// Buffer whose end (and start) are exact for AddressSanitizer; contents preset to a poison pattern.
class Buf {
public:
	explicit Buf(size_t n, uint8_t fill = 0xA5);
	Buf(const void* p, size_t n);
	explicit Buf(const std::vector<uint8_t>& v) : Buf(v.data(), v.size()) {}
	~Buf();
	Buf(const Buf&) = delete;
	Buf& operator=(const Buf&) = delete;
	uint8_t* p() const { return p_; }
	char* c() const { return (char*)p_; }
	size_t n() const { return n_; }
	void seal() { ASAN_POISON_MEMORY_REGION(p_, n_); }     // library must not touch it any more
	void unseal() { ASAN_UNPOISON_MEMORY_REGION(p_, n_); }
private:
	uint8_t* p_; size_t n_, mark_;
};

// --- allocation accounting and fault injection for library code
// All allocations made while inside the library (between enter/leave) are tracked.
struct Lib { Lib(); ~Lib(); };               // RAII: inside library code
struct Host { Host(); ~Host(); int saved; }; // RAII: callback from library back into the harness
void alloc_reset();                          // forget all tracked allocations, disarm faults
size_t alloc_live();                         // tracked allocations not yet freed
uint64_t alloc_calls();                      // allocations requested by library since reset
void alloc_fail_at(int64_t nth, int64_t second = -1); // fail the nth (0-based) allocation request, and another
uint64_t alloc_failed();                     // number of injected failures

void smear(uint8_t pattern);                 // overwrite dead stack below the current frame

int main_(int argc, char** argv);
extern void (*setup_hook)();
[[noreturn]] void setup_failed(const char* fmt, ...); // the property does not hold already before the exploration
} // namespace mc

// Call library code with allocation tracking and a defined pattern on dead stack
#define LIB(expr) ([&]{ mc::Lib lib_guard_; return (expr); }())
