// Linked into the shared library the bindings are checked with: counts the live allocations of the library, fills fresh
// memory with 0xcd and freed memory with 0xdd (so that what a binding reads after releasing it is not what it was).
#include <cstdlib>
#include <cstring>
#include <new>
#include <mutex>
#include <malloc.h>
#include <cstdint>

extern "C" {
void * __real_malloc(size_t);
void __real_free(void *);
void * __real_realloc(void *, size_t);
}

namespace {
const size_t N = 1 << 20;
uintptr_t table[N];          // 0 = empty, 1 = deleted
long live = 0, total = 0;
std::mutex & mutex() { static char buf[sizeof(std::mutex)] alignas(std::mutex); static std::mutex * m = new (buf) std::mutex; return *m; }

size_t slot(uintptr_t p) { return (size_t)((p >> 4) * 0x9e3779b97f4a7c15ull >> 44) & (N - 1); }

void add(void * q) {
	if (!q) return;
	std::lock_guard<std::mutex> l(mutex());
	uintptr_t p = (uintptr_t)q;
	size_t i = slot(p);
	while (table[i] > 1) i = (i + 1) & (N - 1);
	table[i] = p;
	live++; total++;
}

bool drop(void * q) {
	std::lock_guard<std::mutex> l(mutex());
	uintptr_t p = (uintptr_t)q;
	for (size_t i = slot(p), k = 0; table[i] && k < N; i = (i + 1) & (N - 1), k++) {
		if (table[i] == p) {
			size_t next = (i + 1) & (N - 1);
			table[i] = table[next] ? 1 : 0;
			live--;
			return true;
		}
	}
	return false;
}

void * get(size_t n) {
	void * p = __real_malloc(n ? n : 1);
	if (p) { memset(p, 0xcd, n); add(p); }
	return p;
}

void put(void * p) {
	if (!p) return;
	if (drop(p)) memset(p, 0xdd, malloc_usable_size(p));
	__real_free(p);
}
}

extern "C" {
void * __wrap_malloc(size_t n) { return get(n); }
void __wrap_free(void * p) { put(p); }
void * __wrap_realloc(void * p, size_t n) { bool d = p && drop(p); void * q = __real_realloc(p, n); if (q) add(q); else if (d) add(p); return q; }
__attribute__((visibility("default"))) long verif_live() { std::lock_guard<std::mutex> l(mutex()); return live; }
__attribute__((visibility("default"))) long verif_total() { std::lock_guard<std::mutex> l(mutex()); return total; }
}

void * operator new(size_t n) { void * p = get(n); if (!p) throw std::bad_alloc(); return p; }
void * operator new[](size_t n) { void * p = get(n); if (!p) throw std::bad_alloc(); return p; }
void * operator new(size_t n, const std::nothrow_t &) noexcept { return get(n); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n); }
void operator delete(void * p) noexcept { put(p); }
void operator delete[](void * p) noexcept { put(p); }
void operator delete(void * p, size_t) noexcept { put(p); }
void operator delete[](void * p, size_t) noexcept { put(p); }
