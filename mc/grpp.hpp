// Outercore lists and full operators: library objects together with their reference descriptions.
#pragma once
#include "lib.hpp"

struct OcSpec { int l, j2; PotSpec u; VD c, a; };

inline std::vector<std::pair<const char *, std::vector<OcSpec>>> oclists()
{
    PotSpec u0{{2}, {1.3}, {0.9}, ""}, u1{{1, 2}, {-2.0, 0.7}, {1.4, 3.0}, ""}, u2{{0, 2, 1}, {0.5, -4.0, 1.0}, {2.2, 0.6, 5.0}, ""},
        u3{{2, 2}, {-3.0, 20.0}, {0.3, 11.0}, ""}, uz{{}, {}, {}, ""};
    VD c1 = {1.0}, a1 = {0.7}, c2 = {0.6, -0.5}, a2 = {2.4, 0.5}, c3 = {0.2, 0.7, -0.3}, a3 = {9.0, 1.6, 0.35};
    return {
        {"empty", {}},
        {"s", {{0, 1, u0, c1, a1}}},
        {"p1/2", {{1, 1, u1, c2, a2}}},
        {"p3/2", {{1, 3, u2, c2, a2}}},
        {"p1/2 p3/2", {{1, 1, u1, c2, a2}, {1, 3, u0, c3, a3}}},
        {"2s", {{0, 1, u1, c2, a2}, {0, 1, u3, c3, a3}}},
        {"3s", {{0, 1, u0, c1, a1}, {0, 1, u2, c3, a3}, {0, 1, u3, c2, a2}}},
        {"2 x p3/2", {{1, 3, u1, c1, a1}, {1, 3, u3, c3, a3}}},
        {"d3/2 d5/2", {{2, 3, u2, c2, a2}, {2, 5, u0, c3, a3}}},
        {"2 x d3/2, d5/2", {{2, 3, u0, c2, a2}, {2, 5, u1, c1, a1}, {2, 3, u3, c1, a1}}},
        {"f5/2", {{3, 5, u1, c2, a2}}},
        {"f7/2", {{3, 7, u3, c1, a1}}},
        {"s p p d d", {{0, 1, u3, c3, a3}, {1, 1, u0, c2, a2}, {1, 3, u1, c2, a2}, {2, 3, u2, c1, a1}, {2, 5, u0, c1, a1}}},
        {"p with empty potential", {{1, 1, uz, c1, a1}, {1, 3, u0, c1, a1}}},
        {"2 x p1/2, the first with an empty potential", {{1, 1, uz, c3, a3}, {1, 1, u1, c2, a2}}},
        {"3 x d5/2, all but the first with empty potentials", {{2, 5, u0, c2, a2}, {2, 5, uz, c1, a1}, {2, 5, uz, c3, a3}}},
    };
}

struct Oc {
    std::vector<libgrpp_potential_t *> u;
    std::vector<libgrpp_shell_t *> s;
    std::vector<ref::OC> r;
    Oc(const std::vector<OcSpec> &v, bool elsewhere = false)
    {
        int k = 0;
        for (auto o : v) {
            P3 z(0, 0, 0);
            if (elsewhere) z = P3(5.0 + k, -3.0, 7.0);       // the pseudospinors belong to the operator's centre wherever they were made
            u.push_back(libgrpp_new_potential(o.l, o.j2, (int)o.u.n.size(), o.u.n.data(), o.u.c.data(), o.u.a.data()));
            s.push_back(libgrpp_new_shell(z, o.l, (int)o.a.size(), o.c.data(), o.a.data()));
            ref::OC x;
            x.l = o.l;
            x.j2 = o.j2;
            for (size_t i = 0; i < o.u.n.size(); i++) x.U.push_back({o.u.n[i], o.u.c[i], o.u.a[i]});
            x.c = o.c;
            x.a = o.a;
            r.push_back(x);
            k++;
        }
    }
    ~Oc()
    {
        for (auto p : u) libgrpp_delete_potential(p);
        for (auto p : s) libgrpp_delete_shell(p);
    }
    Oc(const Oc &) = delete;
    double size() const
    {
        double t = 1e-3;
        for (auto &o : r)
            for (auto &p : o.U) t += std::fabs(p.d) * (1 + std::pow(10.0, 0.5 * (2 - p.n)));
        return t * (1 + t * 0.1);
    }
};

// a full operator: library object (which owns its parts) and reference parts
struct Full {
    libgrpp_grpp_t *g;
    bool local = false;
    ref::Pot U;
    std::vector<std::pair<int, ref::Pot>> arep, esop;
    std::vector<ref::OC> oc;
    double size = 1e-3;
    Full() { g = libgrpp_new_grpp(); }
    ~Full() { libgrpp_delete_grpp(g); }
    Full(const Full &) = delete;
    static libgrpp_potential_t *pot(int L, int J, PotSpec u) { return libgrpp_new_potential(L, J, (int)u.n.size(), u.n.data(), u.c.data(), u.a.data()); }
    ref::Pot rp(const PotSpec &u)
    {
        ref::Pot r;
        for (size_t i = 0; i < u.n.size(); i++) {
            r.push_back({u.n[i], u.c[i], u.a[i]});
            size += std::fabs(u.c[i]) * (1 + std::pow(10.0, 0.5 * (2 - u.n[i])));
        }
        return r;
    }
    void set_local(PotSpec u) { local = true; U = rp(u); libgrpp_grpp_set_local_potential(g, pot(0, 0, u)); }
    void add_arep(int l, PotSpec u) { arep.push_back({l, rp(u)}); libgrpp_grpp_add_averaged_potential(g, pot(l, 0, u)); }
    void add_esop(int l, PotSpec u) { esop.push_back({l, rp(u)}); libgrpp_grpp_add_spin_orbit_potential(g, pot(l, 0, u)); }
    void add_oc(OcSpec o)
    {
        ref::OC x{o.l, o.j2, rp(o.u), o.c, o.a};
        oc.push_back(x);
        libgrpp_grpp_add_outercore_potential(g, pot(o.l, o.j2, o.u), libgrpp_new_shell(P3(1, 2, 3), o.l, (int)o.a.size(), o.c.data(), o.a.data()));
    }
    // res[0] scalar, res[1..3] spin-orbit
    void eval(const ref::Shell &A, const ref::Shell &B, const double *C, ref::Mat res[4]) const
    {
        ref::outercore(A, B, C, oc, res);
        if (local) ref::axpy(1.0, ref::type1(A, B, C, U), res[0]);
        for (auto &p : arep) ref::axpy(1.0, ref::type2(A, B, C, p.first, p.second), res[0]);
        for (auto &p : esop) {
            ref::Mat s, so[3];
            ref::semilocal(A, B, C, p.first, p.second, s, so);
            for (int x = 0; x < 3; x++) ref::axpy(2.0 / (2 * p.first + 1), so[x], res[1 + x]);
        }
    }
};
