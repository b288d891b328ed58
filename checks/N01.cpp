// N01: overlap, kinetic energy, momentum against the definition (exact Gauss-Hermite products).
#include "lib.hpp"

static std::vector<Contr> contractions()
{
    return {{{1.0}, {0.8}, "s1"},
            {{1.0}, {0.06}, "diffuse"},
            {{1.0}, {150.0}, "tight"},
            {{0.6, -0.5}, {1.7, 0.3}, "two"},
            {{0.2, 0.5, -0.4}, {40.0, 2.0, 0.15}, "three"}};
}

static void values(mc::Ctx &c)
{
    auto gs = geos();
    auto cs = contractions();
    int g = c.choose((int)gs.size(), "geometry"), ka = c.choose((int)cs.size(), "bra contraction"),
        kb = c.choose((int)cs.size(), "ket contraction");
    int lmax = mc::thorough ? 10 : 6;
    int part = c.choose(mc::thorough ? 3 : 1, "angular momenta block");
    c.desc("A=%s B=%s bra %s ket %s", fmt(gs[g].a).c_str(), fmt(gs[g].b).c_str(), cs[ka].name, cs[kb].name);
    c.go();
    libgrpp_init();
    for (int la = 0; la <= lmax; la++)
        for (int lb = 0; lb <= lmax; lb++) {
            if (mc::thorough && (la * 11 + lb) % 3 != part) continue;
            c.state("L=%d,%d", la, lb);
            Sh A(gs[g].a, la, cs[ka].c, cs[ka].a), B(gs[g].b, lb, cs[kb].c, cs[kb].a);
            size_t n = A.r.nf * B.r.nf;
            VD s(n, 7.0), t(n, 7.0), p[3];
            VD tol = norm_tol(A.r, B.r, 1e-12);
            libgrpp_overlap_integrals(A.s, B.s, s.data());
            VD w = ref::overlap(A.r, B.r);
            c.near("overlap", s.data(), w.data(), n, 0, tol.data());
            double amin = 1e9;
            for (double a : cs[kb].a) amin = std::min(amin, a);
            double amax = 0;
            for (double a : cs[kb].a) amax = std::max(amax, a);
            VD tk = norm_tol(A.r, B.r, 2e-12 * amax * (2 * lb + 3)), tp = norm_tol(A.r, B.r, 2e-12 * std::sqrt(amax * (2 * lb + 3)));
            libgrpp_kinetic_energy_integrals(A.s, B.s, t.data());
            w = ref::kinetic(A.r, B.r);
            c.near("kinetic", t.data(), w.data(), n, 0, tk.data());
            for (auto &q : p) q.assign(n, 7.0);
            libgrpp_momentum_integrals(A.s, B.s, p[0].data(), p[1].data(), p[2].data());
            for (int x = 0; x < 3; x++) {
                w = ref::momentum(A.r, B.r, x);
                c.near(x == 0 ? "momentum x" : x == 1 ? "momentum y" : "momentum z", p[x].data(), w.data(), n, 0, tp.data());
            }
            c.call(3);
        }
}

// every pair of angular momenta up to the documented maximum, one geometry and contraction each
static void high(mc::Ctx &c)
{
    int la = c.choose(11, "L bra"), lb = c.choose(11, "L ket");
    c.desc("L=%d,%d", la, lb);
    c.go();
    libgrpp_init();
    P3 o[2][2] = {{P3(0.3, -0.4, 0.5), P3(-0.2, 0.6, 0.1)}, {P3(0, 0, 0.7), P3(0, 0, 0.7)}};
    for (auto &g : o) {
        c.state("A=%s", fmt(g[0]).c_str());
        Sh A(g[0], la, {1.0}, {0.9}), B(g[1], lb, {0.7, 0.4}, {1.1, 0.35});
        size_t n = A.r.nf * B.r.nf;
        VD s(n, 7.0), t(n, 7.0), p[3];
        VD tol = norm_tol(A.r, B.r, 1e-11), tk = norm_tol(A.r, B.r, 1e-10);
        libgrpp_overlap_integrals(A.s, B.s, s.data());
        VD w = ref::overlap(A.r, B.r);
        c.near("overlap", s.data(), w.data(), n, 0, tol.data());
        libgrpp_kinetic_energy_integrals(A.s, B.s, t.data());
        w = ref::kinetic(A.r, B.r);
        c.near("kinetic", t.data(), w.data(), n, 0, tk.data());
        for (auto &q : p) q.assign(n, 7.0);
        libgrpp_momentum_integrals(A.s, B.s, p[0].data(), p[1].data(), p[2].data());
        for (int x = 0; x < 3; x++) {
            w = ref::momentum(A.r, B.r, x);
            c.near("momentum", p[x].data(), w.data(), n, 0, tk.data());
        }
        c.call(3);
    }
}

int main(int argc, char **argv)
{
    mc::warmup = warm_tables;
    mc::prefork = libgrpp_init;
    return mc::drive(argc, argv, {{"values", values, 200}, {"all angular momenta", high, 60}});
}
