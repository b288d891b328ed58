// N03 / N04: semilocal scalar and spin-orbit integrals against quadrature of the definition.
#include "lib.hpp"

static const double AMP = 1.5e-15;
static const bool SO =
#ifdef CHECK_SO
    true;
#else
    false;
#endif

// cost of the library's evaluation at three distinct centres, in seconds (measured)
static double cost(int la, int lb, int l)
{
    auto b5 = [](int n) { double r = 1; for (int i = 1; i <= 5; i++) r *= (n + i) / (double)i; return r; };
    return 9e-9 * b5(la) * b5(lb) * (2 * l + 1) * (l + la + 1) * (l + la + 1) * (l + lb + 1) * (l + lb + 1) * (SO ? 4 : 1);
}

// The algorithm expands (r-A)^L in powers of r and of A-C: rounding is amplified by (R sqrt(a))^L for each shell. Centres
// closer than 1e-7 are treated as coinciding.
static double amplification(const ref::Shell &A, const ref::Shell &B, const double *C)
{
    double f = 1, close = 0;
    for (auto *s : {&A, &B}) {
        double R = 0, a = 0;
        for (int x = 0; x < 3; x++) R += (s->o[x] - C[x]) * (s->o[x] - C[x]);
        for (auto &p : s->p) a = std::max(a, p.a);
        R = std::sqrt(R);
        f *= std::pow(1 + R * std::sqrt(a), s->deg);
        if (R < 1e-7) close += 4 * R * std::sqrt(1 + a) * (1 + s->deg);
    }
    return f * AMP + close;
}

static void one(mc::Ctx &c, Sh &A, Sh &B, P3 C, int l, const PotSpec &u, double eps)
{
    Pt U(l, 0, u.n, u.c, u.a);
    size_t n = A.r.nf * B.r.nf;
    VD m[3];
    for (auto &x : m) x.assign(n, 7.0);
    VD tol = norm_tol(A.r, B.r, ((SO ? 10 : 3) * eps + amplification(A.r, B.r, C)) * potscale(u, A.r, B.r));
    ref::Mat w, so[3];
    ref::semilocal(A.r, B.r, C, l, U.r, w, SO ? so : nullptr);
    c.call();
    if (SO) {
        libgrpp_spin_orbit_integrals(A.s, B.s, C, U.p, m[0].data(), m[1].data(), m[2].data());
        for (auto &x : tol) x *= 1 + l;
        c.near("spin-orbit x", m[0].data(), so[0].data(), n, 0, tol.data());
        c.near("spin-orbit y", m[1].data(), so[1].data(), n, 0, tol.data());
        c.near("spin-orbit z", m[2].data(), so[2].data(), n, 0, tol.data());
    } else {
        libgrpp_type2_integrals(A.s, B.s, C, U.p, m[0].data());
        c.near("type 2", m[0].data(), w.data(), n, 0, tol.data());
    }
}

static void values(mc::Ctx &c)
{
    auto gs = geos();
    auto cs = contrs(mc::thorough ? 5 : 4);
    auto us = pots();
    int g = c.choose((int)gs.size(), "geometry"), ka = c.choose((int)cs.size(), "bra"), kb = c.choose((int)cs.size(), "ket");
    int q = c.choose((int)us.size(), "potential");
    int lmax = mc::thorough ? 4 : 2;
    c.desc("%s: A=%s B=%s C=%s bra %s ket %s potential %s", gs[g].name, fmt(gs[g].a).c_str(), fmt(gs[g].b).c_str(), fmt(gs[g].c).c_str(),
           cs[ka].name, cs[kb].name, us[q].name);
    c.go();
    libgrpp_init();
    for (int la = 0; la <= lmax; la++)
        for (int lb = 0; lb <= lmax; lb++) {
            Sh A(gs[g].a, la, cs[ka].c, cs[ka].a), B(gs[g].b, lb, cs[kb].c, cs[kb].a);
            for (int l = 0; l <= (mc::thorough ? 4 : 3); l++) {
                if (!mc::thorough && (la + 2 * lb + l) % 3 != (q + ka) % 3) continue;    // a third of the grid, all of it over (q, ka)
                if (cost(la, lb, l) > (mc::thorough ? 0.1 : 0.03)) continue;
                c.state("L=%d,%d l=%d", la, lb, l);
                one(c, A, B, gs[g].c, l, us[q], 1e-11);
            }
        }
}

// all l up to the documented maximum with basis functions up to L=10, as far as the library's own cost allows
static void angular(mc::Ctx &c)
{
    auto gs = geos();
    std::vector<int> gi = mc::thorough ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11} : std::vector<int>{0, 2, 3, 5, 7, 9};
    int l = c.choose(11, "l"), la = c.choose(11, "L bra"), g = gi[c.choose((int)gi.size(), "geometry")];
    c.desc("l=%d L=%d %s", l, la, gs[g].name);
    c.go();
    libgrpp_init();
    for (int lb = 0; lb <= 10; lb++) {
        double k = cost(la, lb, l);
        bool ac = gs[g].a.v[0] == gs[g].c.v[0] && gs[g].a.v[1] == gs[g].c.v[1] && gs[g].a.v[2] == gs[g].c.v[2];
        bool bc = gs[g].b.v[0] == gs[g].c.v[0] && gs[g].b.v[1] == gs[g].c.v[1] && gs[g].b.v[2] == gs[g].c.v[2];
        if (ac && bc) k = 0;
        else if (ac || bc) k /= 100;
        if (k > (mc::thorough ? 5 : 0.06)) continue;
        if (!mc::thorough && (la + lb + l + g) % 2) continue;
        c.state("L'=%d", lb);
        // wide and tight functions: with the tight ones the high harmonics weigh as much as the low ones
        for (double e : {1.0, 4.5}) {
            if (!mc::thorough && e == 1.0 && (la + lb + l + g) % 4) continue;
            Sh A(gs[g].a, la, {1.0}, {0.9 * e}), B(gs[g].b, lb, {1.0}, {0.6 * e});
            one(c, A, B, gs[g].c, l, PotSpec{{2}, {1.0}, {0.7}, ""}, 1e-13);
            if (mc::thorough) one(c, A, B, gs[g].c, l, PotSpec{{1, 0}, {1.0, 0.5}, {0.7, 0.9}, ""}, 1e-13);
        }
    }
}

// the highest harmonics (l + L) that can be reached at three distinct centres, one shell at a time
static void harmonics(mc::Ctx &c)
{
    int l = 10 - c.choose(11, "l"), la = 10 - c.choose(11, "L"), lb = c.choose(2, "other L"), swap = c.choose(2, "side");
    c.desc("l=%d L=%d,%d", l, swap ? lb : la, swap ? la : lb);
    if (cost(la, lb, l) > (mc::thorough ? 60 : 2.2) || (!mc::thorough && lb)) return;
    c.go();
    libgrpp_init();
    Sh A(P3(0.9, 0.2, 0.5), la, {1.0}, {2.7}), B(P3(-0.4, 0.7, 0.3), lb, {1.0}, {1.3});
    one(c, swap ? B : A, swap ? A : B, P3(0, 0, 0), l, PotSpec{{2}, {1.0}, {1.0}, ""}, 1e-13);
}

// argument sweep of the radial integrals (k r grows with exponent and distance)
static void sweep(mc::Ctx &c)
{
    VD ds = {0, 1e-8, 1e-5, 1e-3, 0.02, 0.1, 0.25, 0.5, 0.75, 1.0, 1.3, 1.6, 2.0, 2.4, 2.9, 3.4, 4.0, 4.8, 5.7, 6.8, 8.0};
    std::vector<std::array<int, 2>> ls = {{0, 0}, {1, 0}, {1, 1}, {2, 1}, {0, 3}, {2, 2}, {3, 3}};
    int id = c.choose((int)ds.size(), "distance"), il = c.choose((int)ls.size(), "L"), same = c.choose(3, "arrangement");
    c.desc("distance %g, arrangement %d, L=%d,%d", ds[id], same, ls[il][0], ls[il][1]);
    c.go();
    libgrpp_init();
    P3 a = ds[id] * P3(0.36, -0.48, 0.8), b = same == 0 ? a : same == 1 ? P3(0, 0, 0) : ds[id] * P3(-0.6, 0, 0.8);
    for (double e : {0.08, 0.7, 9.0, 300.0})
        for (double z : {0.03, 2.0, 200.0})
            for (int l : {0, 1, 2, 3}) {
                if ((il + l) % 2) continue;
                c.state("exponent %g z=%g l=%d", e, z, l);
                Sh A(a, ls[il][0], {1.0}, {e}), B(b, ls[il][1], {1.0}, {e * 1.3});
                PotSpec u = {{l == 0 ? 0 : l == 1 ? 1 : 2}, {1.0}, {z}, ""};
                one(c, A, B, P3(0, 0, 0), l, u, 1e-10);
            }
}

// tight functions very close to the potential: powers of a small distance times a huge radial integral
static void close(mc::Ctx &c)
{
    int l = c.choose(3, "l"), la = c.choose(5, "L bra"), lb = c.choose(5, "L ket"), n = c.choose(3, "n");
    c.desc("l=%d L=%d,%d n=%d", l, la, lb, n);
    if (cost(la, lb, l) > (mc::thorough ? 10 : 0.2)) return;
    c.go();
    libgrpp_init();
    for (double e : {9.0, 300.0, 3000.0})
        for (double d : {1e-3, 5e-3, 2e-2}) {
            c.state("exponent %g distance %g", e, d);
            P3 a = d * P3(0.36, -0.48, 0.8), b = d * P3(-0.6, 0, 0.8);
            Sh A(a, la, {1.0}, {e}), B(b, lb, {1.0}, {e * 1.3});
            one(c, A, B, P3(0, 0, 0), l, PotSpec{{n}, {1.0}, {0.03}, ""}, 1e-11);
        }
}

static void trivial(mc::Ctx &c)
{
    int la = c.choose(4, "L bra"), lb = c.choose(4, "L ket"), k = c.choose(3, "kind"), l = c.choose(4, "l");
    auto gs = geos();
    c.desc("L=%d,%d l=%d kind %d (no terms, zero coefficients, l with the wrong parity or beyond the shells at one centre)", la, lb, l, k);
    c.go();
    libgrpp_init();
    for (auto &g : gs) {
        c.state("%s", g.name);
        Sh A(g.a, la, {1.0, 0.4}, {0.9, 0.2}), B(g.b, lb, {1.0}, {0.7});
        if (k == 2) { Sh B1(g.a, lb, {1.0}, {0.7}); one(c, A, B1, g.a, l, PotSpec{{2, 1}, {1, 1}, {0.5, 0.6}, ""}, 1e-11); continue; }
        Pt U(l, 0, k == 0 ? VI{} : VI{2, 1, 0}, k == 0 ? VD{} : VD{0, 0, 0}, k == 0 ? VD{} : VD{0.5, 0.6, 0.7});
        size_t n = A.r.nf * B.r.nf;
        VD m[3], z(n, 0.0);
        for (auto &x : m) x.assign(n, 7.0);
        c.call();
        if (SO) libgrpp_spin_orbit_integrals(A.s, B.s, g.c, U.p, m[0].data(), m[1].data(), m[2].data());
        else libgrpp_type2_integrals(A.s, B.s, g.c, U.p, m[0].data());
        for (int x = 0; x < (SO ? 3 : 1); x++) c.near("integrals of nothing", m[x].data(), z.data(), n, 1e-300);
    }
}

int main(int argc, char **argv)
{
    mc::warmup = warm_tables;
    mc::prefork = libgrpp_init;
    return mc::drive(argc, argv, {{"values", values, 300}, {"all l", angular, 200}, {"highest harmonics", harmonics, 200}, {"argument sweep", sweep, 200}, {"close centres", close, 200}, {"trivial", trivial, 60}});
}
