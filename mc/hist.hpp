// Histories: operations with operands, settings, and the result of an operation in a process that did nothing else.
#pragma once
#include "ops.hpp"
#include <malloc.h>

struct Settings { double radial = 1e-16, angular = 1e-16, bessel = 1e-16; int order = LIBGRPP_CART_ORDER_DIRAC; };
inline void apply(const Settings &s)
{
    libgrpp_set_radial_tolerance(s.radial);
    libgrpp_set_angular_screening_tolerance(s.angular);
    libgrpp_set_modified_bessel_tolerance(s.bessel);
    libgrpp_set_cartesian_order(s.order);
}

inline VD flat(const Blocks &b)
{
    VD r;
    for (auto &x : b) r.insert(r.end(), x.begin(), x.end());
    return r;
}

// f() in a forked child; ok = false if the child did not live to return it
template <class F> inline VD in_child(F f, bool &ok)
{
    const size_t cap = 1 << 20;
    double *m = (double *)mmap(0, cap * sizeof(double), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        VD r = f();
        if (r.size() + 2 > cap) _exit(1);
        std::copy(r.begin(), r.end(), m + 2);
        m[0] = (double)r.size();
        m[1] = 42;
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    ok = m[1] == 42;
    VD r;
    if (ok) r.assign(m + 2, m + 2 + (size_t)m[0]);
    munmap(m, cap * sizeof(double));
    return r;
}

// what the heap contains must not matter: filled differently in different runs
inline void perturb_heap(int byte) { mallopt(M_PERTURB, byte); }
