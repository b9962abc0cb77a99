#include "heap_shim.hh"
#include <atomic>
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
}
namespace {
std::atomic<bool> g_on{ false };
std::atomic_flag g_lock = ATOMIC_FLAG_INIT;
long g_blocks = 0, g_bytes = 0, g_peak = 0;
thread_local int t_paused = 0;
constexpr size_t N = 1u << 20;
struct Slot { uintptr_t p; size_t n; };
Slot g_tab[N];       // 0: free, 1: removed
struct Guard { Guard() { while (g_lock.test_and_set(std::memory_order_acquire)); } ~Guard() { g_lock.clear(std::memory_order_release); } };
size_t at(uintptr_t p) { return (p >> 4) * 0x9E3779B97F4A7C15ull >> 44; }
void added(void* q, size_t n)
{
    if (!q || !g_on || t_paused) return;
    const auto p = reinterpret_cast<uintptr_t>(q);
    Guard g;
    for (size_t i = at(p);; i = (i + 1) % N)
        if (g_tab[i].p < 2) { g_tab[i] = { p, n }; break; }
    ++g_blocks; g_bytes += n;
    if (g_bytes > g_peak) g_peak = g_bytes;
}
void removed(void* q)
{
    if (!q || !g_on) return;
    const auto p = reinterpret_cast<uintptr_t>(q);
    Guard g;
    for (size_t i = at(p); g_tab[i].p; i = (i + 1) % N)
        if (g_tab[i].p == p) {
            --g_blocks; g_bytes -= g_tab[i].n;
            g_tab[i].p = g_tab[(i + 1) % N].p ? 1 : 0;
            return;
        }
}
}
namespace heap {
void on() { g_on = true; }
long blocks() { Guard g; return g_blocks; }
long bytes() { Guard g; return g_bytes; }
long peak() { Guard g; const long p = g_peak; g_peak = g_bytes; return p; }
void pause(int n) { t_paused += n; }
Pause::Pause() { ++t_paused; }
Pause::~Pause() { --t_paused; }
}
extern "C" {
void* malloc(size_t n) { void* p = __libc_malloc(n); added(p, n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); added(p, a * b); return p; }
void free(void* p) { removed(p); __libc_free(p); }
void* realloc(void* p, size_t n)
{
    removed(p);
    void* q = __libc_realloc(p, n);
    added(q, n);
    return q;
}
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); added(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** out, size_t a, size_t n)
{
    void* p = memalign(a, n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
}
