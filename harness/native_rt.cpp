// native replay of one counterexample
#include "verif.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <new>
extern "C" int __asan_address_is_poisoned(void const volatile *);
extern "C" void irvc_entry();
struct V { std::string name, kind, val; };
static std::vector<V> vals; static size_t pos; static long live; static int fillp = 0;
static V next(const char *name, char kind) {
	if(pos >= vals.size()) { fprintf(stderr, "REPLAY: out of values at %s\n", name); exit(78); }
	V v = vals[pos++];
	if(v.kind[0] != kind) { fprintf(stderr, "REPLAY: mismatch want %s/%c got %s/%s\n", name, kind, v.name.c_str(), v.kind.c_str()); exit(78); }
	return v;
}
extern "C" {
uint64_t v_nd(const char *n, int bits) { uint64_t v = strtoull(next(n, 'u').val.c_str(), 0, 10); if(bits < 64) v &= (1ULL << bits) - 1; return v; }
long double v_real(const char *n) { return strtold(next(n, 'r').val.c_str(), 0); }
void v_assume(bool c) { if(not c) { fprintf(stderr, "REPLAY: assumption not met\n"); exit(79); } }
void v_assert(bool c, const char *l) { if(not c) { fprintf(stderr, "REPLAY: ASSERTION FAILED: %s\n", l); fflush(stderr); _Exit(77); } }
void *v_bytes(size_t n, const char *name) { V v = next(name, 'b'); if(n > (256u << 20)) { fprintf(stderr, "REPLAY: object too large\n"); exit(78); } char *p = (char *)malloc(n ? n : 1); if(n == 0) { free(p); p = (char *)malloc(1); } memset(p, 0, n); for(size_t i = 0; i < n and 2 * i + 1 < v.val.size(); i++) p[i] = (char)strtoul(v.val.substr(2 * i, 2).c_str(), 0, 16); return p; }
void *v_words(size_t n, const char *name) { return v_bytes(n, name); }
uint64_t v_choose(uint64_t, const char *n) { return strtoull(next(n, 'c').val.c_str(), 0, 10); }
void v_cover(const char *) {}
int v_engine() { return 0; }
void v_cfg(const char *, long) {}
uint64_t v_concrete(uint64_t x) { return x; }
void v_note(const char *n, uint64_t x) { fprintf(stderr, "REPLAY: note %s=%llu\n", n, (unsigned long long)x); }
void v_print(const char *n, uint64_t x) { v_note(n, x); }
int v_freed(const void *p) { return __asan_address_is_poisoned(p); }
size_t v_objsize(const void *) { return 0; }
uint64_t v_uf(const char *n, uint64_t, uint64_t) { return strtoull(next(n, 'u').val.c_str(), 0, 10); }
void v_stop() { fprintf(stderr, "REPLAY: stopped\n"); _Exit(0); }
void v_abort_ok(int) {}
uint64_t v_live_heap() { return live; }
void v_assumed(const char *) {}
void v_havoc(void *p, size_t n, const char *name) { V v = next(name, 'b'); for(size_t i = 0; i < n; i++) ((char *)p)[i] = 2 * i + 1 < v.val.size() ? (char)strtoul(v.val.substr(2 * i, 2).c_str(), 0, 16) : 0; }
int rand() { return (int)strtoull(next("rand", 'u').val.c_str(), 0, 10); }
}
void *operator new(size_t n) { live++; void *p = malloc(n ? n : 1); memset(p, fillp, n); return p; }
void *operator new[](size_t n) { live++; void *p = malloc(n ? n : 1); memset(p, fillp, n); return p; }
void operator delete(void *p) noexcept { if(p) live--; free(p); }
void operator delete[](void *p) noexcept { if(p) live--; free(p); }
void operator delete(void *p, size_t) noexcept { if(p) live--; free(p); }
void operator delete[](void *p, size_t) noexcept { if(p) live--; free(p); }
int main(int argc, char **argv) {
	FILE *f = fopen(argv[1], "r"); if(not f) return 80;
	if(argc > 2) fillp = atoi(argv[2]);
	char *line = 0; size_t cap = 0; ssize_t n;
	while((n = getline(&line, &cap, f)) > 0) {
		std::string s(line, n); while(not s.empty() and s.back() == '\n') s.pop_back();
		size_t a = s.find('\t'), b = s.find('\t', a + 1);
		if(a == std::string::npos or b == std::string::npos) continue;
		vals.push_back({s.substr(0, a), s.substr(a + 1, b - a - 1), s.substr(b + 1)});
	}
	live = 0;
	irvc_entry();
	fprintf(stderr, "REPLAY: completed without failure\n");
	_Exit(0);
}
