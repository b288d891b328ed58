// Blocks allocated inside library calls and not yet freed (address-sanitizer builds).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));

namespace heap {
static const int CAP = 1 << 16;
static const void *tab[CAP];
static size_t len[CAP];
static int inside = 0;
static long live = 0, bytes = 0, allocs = 0;
inline int find(const void *p)
{
    int h = (int)((((uintptr_t)p) >> 4) * 0x9E3779B97F4A7C15ull >> 48) & (CAP - 1);
    while (tab[h] && tab[h] != p) h = (h + 1) & (CAP - 1);
    return h;
}
inline void on_malloc(const volatile void *p, size_t n)
{
    if (!inside || !p) return;
    if (live > CAP / 2) return;
    int h = find((const void *)p);
    tab[h] = (const void *)p;
    len[h] = n;
    live++;
    allocs++;
    bytes += (long)n;
}
inline void on_free(const volatile void *p)
{
    if (!p) return;
    int h = find((const void *)p);
    if (!tab[h]) return;
    live--;
    bytes -= (long)len[h];
    // removal with backward shift
    int i = h, j = h;
    for (;;) {
        tab[i] = nullptr;
        for (;;) {
            j = (j + 1) & (CAP - 1);
            if (!tab[j]) return;
            int k = (int)((((uintptr_t)tab[j]) >> 4) * 0x9E3779B97F4A7C15ull >> 48) & (CAP - 1);
            if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
            break;
        }
        tab[i] = tab[j];
        len[i] = len[j];
        i = j;
    }
}
inline void install()
{
    static bool done = false;
    if (!done) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    done = true;
}
struct In {
    In() { inside++; }
    ~In() { inside--; }
};
}  // namespace heap
#define LIB(expr) ([&] { heap::In in_; return expr; }())
