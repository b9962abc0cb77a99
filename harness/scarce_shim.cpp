#include "scarce_shim.hh"
#include <atomic>
#include <cerrno>
#include <cstdlib>
#include <dlfcn.h>
#include <new>
#include <pthread.h>
namespace {
std::atomic<bool> g_calling{ false };
std::atomic<long> g_allocs{ 0 }, g_starts{ 0 }, g_refused{ 0 };
struct Plan { long at = 0, len = 0; size_t min = 1; } g_mem, g_thr;
thread_local int t_paused = 0;
bool hit(const Plan& p, std::atomic<long>& n)
{
    const long k = ++n;
    if (p.at <= 0 || k < p.at || (p.len >= 0 && k >= p.at + p.len)) return false;
    ++g_refused;
    return true;
}
void* take(size_t n, size_t align)
{
    if (g_calling && !t_paused && n >= g_mem.min && hit(g_mem, g_allocs)) return nullptr;
    if (!align) return malloc(n ? n : 1);
    void* p = nullptr;
    return posix_memalign(&p, align, n ? n : 1) ? nullptr : p;
}
void* need(size_t n, size_t align = 0)
{
    void* p = take(n, align);
    if (!p) throw std::bad_alloc();
    return p;
}
}
namespace scarce {
void memory(long at, long len, size_t min) { g_mem = { at, len, min }; g_allocs = 0; }
void threads(long at, long len) { g_thr = { at, len, 1 }; g_starts = 0; }
void calling(bool on) { g_calling = on; }
void pause(int n) { t_paused += n; }
long allocs() { return g_allocs; }
long starts() { return g_starts; }
long refused() { return g_refused; }
}
void* operator new(size_t n) { return need(n); }
void* operator new[](size_t n) { return need(n); }
void* operator new(size_t n, std::align_val_t a) { return need(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return need(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n, 0); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return take(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return take(n, (size_t)a); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x)
{
    static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
    if (g_calling && !t_paused && hit(g_thr, g_starts)) return EAGAIN;
    return real(t, a, f, x);
}
