// Glue between the real library (public interface only) and the reference model.
#pragma once
#include "mc.hpp"
#include "ref.hpp"
extern "C" {
#include "libgrpp.h"
}
#include <memory>

typedef std::vector<double> VD;
typedef std::vector<int> VI;

struct P3 {
    double v[3];
    P3(double x = 0, double y = 0, double z = 0) : v{x, y, z} {}
    operator double *() { return v; }
    operator const double *() const { return v; }
};
inline P3 operator+(P3 a, P3 b) { return P3(a.v[0] + b.v[0], a.v[1] + b.v[1], a.v[2] + b.v[2]); }
inline P3 operator*(double s, P3 a) { return P3(s * a.v[0], s * a.v[1], s * a.v[2]); }

struct Geo { P3 a, b, c; const char *name; };

// relative positions of bra, ket and operator: coinciding, on axes (both directions), in planes, general, near, far
inline std::vector<Geo> geos()
{
    return {
        {P3(0, 0, 0), P3(0, 0, 0), P3(0, 0, 0), "all at origin"},
        {P3(0.4, -0.3, 0.9), P3(0.4, -0.3, 0.9), P3(0.4, -0.3, 0.9), "all at one point"},
        {P3(0, 0, 0), P3(0, 0, 0), P3(0, 0, 1.1), "A=B, C on +z"},
        {P3(0, 0, 0), P3(-1.2, 0, 0), P3(0, 0, 0), "A=C, B on -x"},
        {P3(0, 1.3, 0), P3(0, 0, 0), P3(0, 0, 0), "B=C, A on +y"},
        {P3(0, 0, 1.0), P3(0, 0, -1.4), P3(0, 0, 0), "C between A and B on z"},
        {P3(0.9, 0, 0), P3(0, -0.8, 0), P3(0, 0, 0), "A on +x, B on -y"},
        {P3(0.7, 0.6, -0.5), P3(-0.4, 0.9, 0.8), P3(0.1, -0.2, 0.3), "general"},
        {P3(0.2, -0.7, 0.4), P3(0.2, -0.7, 0.4), P3(-0.5, 0.3, 0.8), "A=B, C general"},
        {P3(-1.1, 0.4, 0.9), P3(0.6, 0.5, -0.2), P3(-1.1, 0.4, 0.9), "A=C, B general"},
        {P3(1.9, -2.6, 1.4), P3(-2.1, 1.2, 2.7), P3(0.3, 0.2, -0.1), "far"},
        {P3(1e-3, 0, 0), P3(0, -2e-3, 1e-3), P3(0, 0, 0), "nearly coincident"},
        {P3(0, 0, 3.5), P3(0, 0, 3.5), P3(0, 0, 0), "A=B far on z"},
    };
}

struct Contr { VD c, a; const char *name; };

inline std::string fmt(const VD &v)
{
    std::string s = "{";
    char b[40];
    for (size_t i = 0; i < v.size(); i++) { snprintf(b, sizeof b, "%s%g", i ? "," : "", v[i]); s += b; }
    return s + "}";
}
inline std::string fmt(P3 p)
{
    char b[100];
    snprintf(b, sizeof b, "(%g,%g,%g)", p.v[0], p.v[1], p.v[2]);
    return b;
}

struct Sh {
    libgrpp_shell_t *s = nullptr;
    ref::Shell r;
    Sh(P3 o, int L, VD c, VD a)
    {
        s = libgrpp_new_shell(o, L, (int)a.size(), c.data(), a.data());
        std::vector<std::array<int, 3>> list;
        for (int i = 0; i < s->cart_size; i++) list.push_back({s->cart_list[3 * i], s->cart_list[3 * i + 1], s->cart_list[3 * i + 2]});
        r = ref::make_shell(o, L, c, a, list);
    }
    ~Sh() { libgrpp_delete_shell(s); }
    Sh(const Sh &) = delete;
};

struct Pt {
    libgrpp_potential_t *p = nullptr;
    ref::Pot r;
    Pt(int L, int J, VI n, VD c, VD a)
    {
        p = libgrpp_new_potential(L, J, (int)n.size(), n.data(), c.data(), a.data());
        for (size_t i = 0; i < n.size(); i++) r.push_back({n[i], c[i], a[i]});
    }
    ~Pt() { libgrpp_delete_potential(p); }
    Pt(const Pt &) = delete;
};

inline double maxabs(const VD &v)
{
    double m = 0;
    for (double x : v) m = std::max(m, std::fabs(x));
    return m;
}

inline void warm_tables()
{
    for (int n = 2; n <= 160; n++) ref::gauss_legendre(n);
    for (int n = 2; n <= 15; n++) ref::gauss_hermite(n);
    for (int l = 0; l <= 10; l++) ref::harm(l);
}

// sqrt(<a|a><b|b>) for every element of a matrix block, times eps
inline VD norm_tol(const ref::Shell &A, const ref::Shell &B, double eps, double floor_ = 0)
{
    auto diag = [](const ref::Shell &s) {
        VD m = ref::overlap(s, s), d(s.nf);
        for (int i = 0; i < s.nf; i++) d[i] = std::sqrt(std::fabs(m[i * s.nf + i]));
        return d;
    };
    VD a = diag(A), b = diag(B), t;
    for (double x : a)
        for (double y : b) t.push_back(eps * x * y + floor_);
    return t;
}

// contraction alphabet shared by the value checks
inline std::vector<Contr> contrs(int n = 5)
{
    std::vector<Contr> v = {{{1.0}, {0.8}, "plain"},
                            {{0.6, -0.5}, {1.7, 0.3}, "two"},
                            {{1.0}, {0.06}, "diffuse"},
                            {{1.0}, {60.0}, "tight"},
                            {{0.2, 0.5, -0.4}, {40.0, 2.0, 0.15}, "three"}};
    v.resize(n);
    return v;
}

struct PotSpec { VI n; VD c, a; const char *name; };

inline std::vector<PotSpec> pots()
{
    return {
        {{2}, {1.0}, {0.9}, "n2"},
        {{1}, {-1.3}, {0.7}, "n1"},
        {{0}, {0.8}, {1.1}, "n0"},
        {{2}, {30.0}, {45.0}, "n2 tight"},
        {{1}, {20.0}, {90.0}, "n1 tight"},
        {{0}, {5.0}, {30.0}, "n0 tight"},
        {{2}, {0.05}, {0.04}, "n2 diffuse"},
        {{1}, {0.1}, {0.05}, "n1 diffuse"},
        {{0}, {0.1}, {0.05}, "n0 diffuse"},
        {{2, 1, 0}, {2.0, -3.0, 0.5}, {1.3, 6.0, 2.2}, "mixed"},
        {{0, 2, 2, 1}, {-0.7, 12.0, -5.0, 0.3}, {0.6, 3.0, 0.25, 14.0}, "four"},
        {{1, 1}, {0.0, 1.0}, {2.0, 0.8}, "with zero term"},
    };
}

inline double potscale(const PotSpec &u, const ref::Shell &A, const ref::Shell &B, int extra = 0)
{
    // bound on the size of the integrals relative to the norms: r^(n-2) counts as (exponent)^((2-n)/2)
    double p = 0, s = 0;
    for (auto &x : A.p) p = std::max(p, x.a);
    for (auto &x : B.p) p = std::max(p, x.a);
    for (size_t i = 0; i < u.n.size(); i++) s += std::fabs(u.c[i]) * std::pow(1 + p + u.a[i], 0.5 * (2 - u.n[i]));
    return s;
}
