// Every integral and gradient of the public interface as one uniform operation.
#pragma once
#include "grpp.hpp"
#include <functional>

enum Kind { K_OVERLAP, K_KINETIC, K_MOMENTUM, K_TYPE1, K_TYPE2, K_SO, K_OC, K_FULL, K_NUC_POINT, K_NUC_NUM, K_NUC_BALL, K_NUC_GAUSS, K_NUC_FERMI,
            K_NUC_BUBBLE, K_OVERLAP_G, K_TYPE1_G, K_TYPE2_G, K_SO_G, K_OC_G, K_FULL_G, K_ALL };

inline const char *kname(int k)
{
    static const char *n[] = {"overlap", "kinetic", "momentum", "type 1", "type 2", "spin-orbit", "outercore", "full", "point nucleus",
                              "point nucleus (numerical)", "ball nucleus", "Gaussian nucleus", "Fermi nucleus", "bubble nucleus", "overlap gradient",
                              "type 1 gradient", "type 2 gradient", "spin-orbit gradient", "outercore gradient", "full gradient"};
    return n[k];
}

// blocks of the result; what each block is: component of a vector (1) or pseudovector (2) operator, derivative
struct BlockInfo { int vec, comp, der; };
inline std::vector<BlockInfo> blocks(int k)
{
    std::vector<BlockInfo> r;
    switch (k) {
        case K_MOMENTUM: for (int i = 0; i < 3; i++) r.push_back({1, i, -1}); break;
        case K_SO: for (int i = 0; i < 3; i++) r.push_back({2, i, -1}); break;
        case K_OC: case K_FULL: r.push_back({0, -1, -1}); for (int i = 0; i < 3; i++) r.push_back({2, i, -1}); break;
        case K_OVERLAP_G: case K_TYPE1_G: case K_TYPE2_G: for (int d = 0; d < 3; d++) r.push_back({0, -1, d}); break;
        case K_SO_G: for (int i = 0; i < 3; i++) for (int d = 0; d < 3; d++) r.push_back({2, i, d}); break;
        case K_OC_G: case K_FULL_G:
            for (int d = 0; d < 3; d++) r.push_back({0, -1, d});
            for (int i = 0; i < 3; i++) for (int d = 0; d < 3; d++) r.push_back({2, i, d});
            break;
        default: r.push_back({0, -1, -1});
    }
    return r;
}
inline bool antisym(const BlockInfo &b) { return b.vec != 0; }
inline bool is_gradient(int k) { return k >= K_OVERLAP_G; }
inline bool is_numerical(int k) { return k >= K_NUC_NUM && k <= K_NUC_BUBBLE; }
inline bool uses_pot(int k) { return k == K_TYPE1 || k == K_TYPE2 || k == K_SO || k == K_TYPE1_G || k == K_TYPE2_G || k == K_SO_G; }
inline bool uses_oc(int k) { return k == K_OC || k == K_OC_G; }
inline bool uses_full(int k) { return k == K_FULL || k == K_FULL_G; }
inline bool uses_centre(int k) { return !(k <= K_MOMENTUM || k == K_OVERLAP_G); }
inline bool needs_init(int k) { return (k >= K_TYPE1 && k <= K_NUC_BUBBLE) || k >= K_TYPE1_G; }

struct Args {
    libgrpp_shell_t *A = nullptr, *B = nullptr;
    double *C = nullptr, *point = nullptr;
    libgrpp_potential_t *pot = nullptr;
    int noc = 0;
    libgrpp_potential_t **ocp = nullptr;
    libgrpp_shell_t **ocs = nullptr;
    libgrpp_grpp_t *g = nullptr;
    int Z = 1;
    double *nuc = nullptr;
};

// out: one buffer per block
inline void evaluate(int k, const Args &a, double **o)
{
    static const int nucid[] = {LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE, LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE_NUMERICAL, LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL,
                                LIBGRPP_NUCLEAR_MODEL_GAUSSIAN, LIBGRPP_NUCLEAR_MODEL_FERMI, LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE};
    switch (k) {
        case K_OVERLAP: libgrpp_overlap_integrals(a.A, a.B, o[0]); break;
        case K_KINETIC: libgrpp_kinetic_energy_integrals(a.A, a.B, o[0]); break;
        case K_MOMENTUM: libgrpp_momentum_integrals(a.A, a.B, o[0], o[1], o[2]); break;
        case K_TYPE1: libgrpp_type1_integrals(a.A, a.B, a.C, a.pot, o[0]); break;
        case K_TYPE2: libgrpp_type2_integrals(a.A, a.B, a.C, a.pot, o[0]); break;
        case K_SO: libgrpp_spin_orbit_integrals(a.A, a.B, a.C, a.pot, o[0], o[1], o[2]); break;
        case K_OC: libgrpp_outercore_potential_integrals(a.A, a.B, a.C, a.noc, a.ocp, a.ocs, o[0], o[1], o[2], o[3]); break;
        case K_FULL: libgrpp_full_grpp_integrals(a.A, a.B, a.g, a.C, o[0], o[1], o[2], o[3]); break;
        case K_NUC_POINT: case K_NUC_NUM: case K_NUC_BALL: case K_NUC_GAUSS: case K_NUC_FERMI: case K_NUC_BUBBLE:
            libgrpp_nuclear_attraction_integrals(a.A, a.B, a.C, a.Z, nucid[k - K_NUC_POINT], a.nuc, o[0]);
            break;
        case K_OVERLAP_G: libgrpp_overlap_integrals_gradient(a.A, a.B, a.point, o); break;
        case K_TYPE1_G: libgrpp_type1_integrals_gradient(a.A, a.B, a.C, a.pot, a.point, o); break;
        case K_TYPE2_G: libgrpp_type2_integrals_gradient(a.A, a.B, a.C, a.pot, a.point, o); break;
        case K_SO_G: libgrpp_spin_orbit_integrals_gradient(a.A, a.B, a.C, a.pot, a.point, o, o + 3, o + 6); break;
        case K_OC_G:
            libgrpp_outercore_potential_integrals_gradient(a.A, a.B, a.C, a.noc, a.ocp, a.ocs, a.point, o, o + 3, o + 6, o + 9);
            break;
        case K_FULL_G: libgrpp_full_grpp_integrals_gradient(a.A, a.B, a.g, a.C, a.point, o, o + 3, o + 6, o + 9); break;
    }
}

typedef std::vector<VD> Blocks;
inline Blocks evaluate(int k, const Args &a, double fill = 7.0)
{
    size_t n = (size_t)libgrpp_get_shell_size(a.A) * libgrpp_get_shell_size(a.B), nb = blocks(k).size();
    Blocks r(nb, VD(n, fill));
    std::vector<double *> p;
    for (auto &x : r) p.push_back(x.data());
    evaluate(k, a, p.data());
    return r;
}

// a complete set of operands for every kind
struct Scene {
    P3 a, b, c, pt;
    int la, lb, l;
    VD ca, aa, cb, ab;
    PotSpec u;
    std::vector<OcSpec> oc;
    VD nuc;
    int Z = 3;
};
struct Live {
    libgrpp_shell_t *A, *B;
    libgrpp_potential_t *pot;
    Oc oc;
    Full full;
    P3 C, P;
    VD nuc;
    int Z;
    Live(const Scene &s) : oc(s.oc), C(s.c), P(s.pt), nuc(s.nuc), Z(s.Z)
    {
        P3 a = s.a, b = s.b;
        VD ca = s.ca, aa = s.aa, cb = s.cb, ab = s.ab, uc = s.u.c, ua = s.u.a;
        VI un = s.u.n;
        A = libgrpp_new_shell(a, s.la, (int)aa.size(), ca.data(), aa.data());
        B = libgrpp_new_shell(b, s.lb, (int)ab.size(), cb.data(), ab.data());
        pot = libgrpp_new_potential(s.l, 0, (int)un.size(), un.data(), uc.data(), ua.data());
        full.set_local(s.u);
        full.add_arep(0, s.u);
        if (s.l > 0) full.add_arep(s.l, s.u);
        if (s.l > 0) full.add_esop(s.l, s.u);
        for (auto &o : s.oc) full.add_oc(o);
        nuc.resize(10, 0.0);
    }
    ~Live()
    {
        libgrpp_delete_shell(A);
        libgrpp_delete_shell(B);
        libgrpp_delete_potential(pot);
    }
    Live(const Live &) = delete;
    Args args()
    {
        Args x;
        x.A = A;
        x.B = B;
        x.C = C;
        x.point = P;
        x.pot = pot;
        x.noc = (int)oc.u.size();
        x.ocp = oc.u.data();
        x.ocs = oc.s.data();
        x.g = full.g;
        x.Z = Z;
        x.nuc = nuc.data();
        return x;
    }
};
inline Blocks evaluate(int k, const Scene &s)
{
    Live v(s);
    return evaluate(k, v.args());
}
inline ref::Shell rshell(P3 o, int L, const VD &c, const VD &a) { return ref::make_shell(o, L, c, a); }

// rough size of the integrals of a kind relative to the norms, for tolerances
inline double ksize(int k, const Scene &s)
{
    double p = 1, u = 0.1;
    for (double x : s.aa) p = std::max(p, x);
    for (double x : s.ab) p = std::max(p, x);
    auto pot = [&](const PotSpec &q) {
        double v = 0;
        for (size_t i = 0; i < q.n.size(); i++) v += std::fabs(q.c[i]) * std::pow(1 + p + q.a[i], 0.5 * (2 - q.n[i]));
        return v;
    };
    double z = 1;
    if (uses_pot(k) || uses_full(k)) u += pot(s.u);
    if (uses_full(k)) u *= 3;
    if (uses_oc(k) || uses_full(k))
        for (auto &o : s.oc) u += 5 * pot(o.u);
    if (k >= K_NUC_POINT && k <= K_NUC_BUBBLE) u = std::abs(s.Z) * std::sqrt(p);
    if (k == K_OVERLAP || k == K_OVERLAP_G) u = 1;
    if (k == K_KINETIC) u = p * (2 * s.lb + 3);
    if (k == K_MOMENTUM) u = std::sqrt(p * (2 * s.lb + 3));
    if (is_gradient(k)) z *= std::sqrt(p * (2 * std::max(s.la, s.lb) + 3));
    if (k == K_SO || k == K_SO_G) z *= 1 + s.l;
    return u * z;
}
inline VD ktol(int k, const Scene &s, double eps)
{
    return norm_tol(rshell(s.a, s.la, s.ca, s.aa), rshell(s.b, s.lb, s.cb, s.ab), eps * ksize(k, s));
}
