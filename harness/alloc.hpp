// Every operator new of the process goes through here: it can be counted, and made to fail.
#pragma once
#include <cstdlib>
#include <new>
#include <cstddef>
#include <cstdint>

namespace mem {
struct Head { size_t n; uint32_t tracked; uint32_t magic; };
static_assert(sizeof(Head) == 16, "keeps the alignment of malloc");
inline bool tracking = false;                 // count blocks allocated now
inline long long bytes = 0, blocks = 0;       // counted and not yet freed
inline bool armed = false;                    // large requests may fail
inline size_t minBytes = 512;                 // what counts as large
inline long seen = 0, failAt = -1, failed = 0;// large requests since arming; the one that fails
inline bool persistent = false;               // and all later ones too
inline void* get(size_t n) {
    if (n > (size_t)1 << 33) throw std::bad_alloc();         // no test machine has this much to give
    if (armed && n >= minBytes) { long k = seen++; if (failAt >= 0 && (k == failAt || (persistent && k > failAt))) { failed++; throw std::bad_alloc(); } }
    Head* h = (Head*)std::malloc(n + sizeof(Head)); if (!h) throw std::bad_alloc();
    h->n = n; h->magic = 0x5eed; h->tracked = tracking; if (tracking) { bytes += (long long)n; blocks++; }
    return h + 1;
}
inline void put(void* p) noexcept {
    if (!p) return; Head* h = (Head*)p - 1; if (h->tracked) { bytes -= (long long)h->n; blocks--; } std::free(h);
}
// large requests fail (the at-th one, or it and all later ones) while an Arm lives; at < 0 only counts them
struct Arm { Arm(long at, bool persist = false, size_t least = 512) { seen = 0; failed = 0; failAt = at; persistent = persist; minBytes = least; armed = true; } ~Arm() { armed = false; } };
struct Track { bool old; explicit Track(bool on = true) : old(tracking) { tracking = on; } ~Track() { tracking = old; } };
}
void* operator new(size_t n) { return mem::get(n); }
void* operator new[](size_t n) { return mem::get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return mem::get(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return mem::get(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { mem::put(p); }
void operator delete[](void* p) noexcept { mem::put(p); }
void operator delete(void* p, size_t) noexcept { mem::put(p); }
void operator delete[](void* p, size_t) noexcept { mem::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { mem::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mem::put(p); }
