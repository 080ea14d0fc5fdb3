#include "alloc.h"
#include <cstdio>
#include <cstdlib>
#include <new>

namespace sim {
bool inLibrary = false;
bool (*allocFails)(size_t) = nullptr;

namespace {
// Blocks held by the library: open addressing, in static memory, keyed by address.
constexpr size_t CAP = 1 << 19;
struct Slot { uintptr_t p; size_t n : 63; size_t array : 1; };
Slot table[CAP];
uint64_t blocks = 0, bytes = 0, used = 0;
size_t slot(uintptr_t p) { uint64_t h = p * 0x9e3779b97f4a7c15ull; return (h >> 40) & (CAP - 1); }
void add(void* q, size_t n, bool array) {
	if (used > CAP * 3 / 4) return;
	uintptr_t p = (uintptr_t)q;
	for (size_t i = slot(p);; i = (i + 1) & (CAP - 1)) if (table[i].p <= 1) { if (!table[i].p) used++; table[i] = {p, n, array}; blocks++; bytes += n; return; }
}
void remove(void* q, bool array) {
	if (!blocks) return;
	uintptr_t p = (uintptr_t)q;
	for (size_t i = slot(p); table[i].p; i = (i + 1) & (CAP - 1)) if (table[i].p == p) {
		if (table[i].array != array) { fprintf(stderr, "alloc-dealloc-mismatch: %s for a block of %s\n", array ? "delete[]" : "delete", table[i].array ? "new[]" : "new"); abort(); }
		blocks--; bytes -= table[i].n; table[i] = {1, 0, 0}; return;
	}
}
void* get(size_t n, size_t align, bool nothrow, bool array) {
	if (inLibrary) {
		bool fail = false;
		if (allocFails) { inLibrary = false; fail = allocFails(n); inLibrary = true; }
		if (fail) { if (nothrow) return nullptr; throw std::bad_alloc(); }
	}
	void* p = align ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
	if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
	if (inLibrary) add(p, n, array);
	return p;
}
void put(void* p, bool array) { if (!p) return; remove(p, array); free(p); }
}  // namespace

Holding libraryHolds() { return {blocks, bytes}; }
}  // namespace sim

void* operator new(size_t n) { return sim::get(n, 0, false, false); }
void* operator new[](size_t n) { return sim::get(n, 0, false, true); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::get(n, 0, true, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::get(n, 0, true, true); }
void* operator new(size_t n, std::align_val_t a) { return sim::get(n, (size_t)a, false, false); }
void* operator new[](size_t n, std::align_val_t a) { return sim::get(n, (size_t)a, false, true); }
void operator delete(void* p) noexcept { sim::put(p, false); }
void operator delete[](void* p) noexcept { sim::put(p, true); }
void operator delete(void* p, size_t) noexcept { sim::put(p, false); }
void operator delete[](void* p, size_t) noexcept { sim::put(p, true); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::put(p, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::put(p, true); }
void operator delete(void* p, std::align_val_t) noexcept { sim::put(p, false); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::put(p, true); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim::put(p, false); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim::put(p, true); }
