// N02: type-1 (radially local) integrals against direct quadrature of the definition.
#include "lib.hpp"

static const double EPS = 3e-11;
// The recursions lose digits by cancellation for high angular momenta far from the centre (r^-2 terms most of all).
// What the library delivers: 3e-11 of the norms (r^-2: 6e-9) up to L+L'=6, an order of magnitude less for each further
// unit, and less in proportion to the argument T = p |P-C|^2 of the Boys function.
static double loss(const PotSpec &u, const Sh &A, const Sh &B, P3 C)
{
    double T = 0;
    for (auto &x : A.r.p)
        for (auto &y : B.r.p) {
            double t = 0, p = x.a + y.a;
            for (int k = 0; k < 3; k++) {
                double d = (x.a * A.r.o[k] + y.a * B.r.o[k]) / p - C.v[k];
                t += d * d;
            }
            T = std::max(T, p * t);
        }
    double up = std::pow(10.0, std::max(0, A.r.deg + B.r.deg - 6)), f = 1 + T / 50;
    for (int n : u.n)
        if (n == 0) return 200 * f * up;
    return f * up;
}

static void one(mc::Ctx &c, Sh &A, Sh &B, P3 C, const PotSpec &u, double eps)
{
    Pt U(0, 0, u.n, u.c, u.a);
    size_t n = A.r.nf * B.r.nf;
    VD m(n, 7.0);
    libgrpp_type1_integrals(A.s, B.s, C, U.p, m.data());
    c.call();
    VD w = ref::type1(A.r, B.r, C, U.r);
    VD tol = norm_tol(A.r, B.r, eps * loss(u, A, B, C) * potscale(u, A.r, B.r));
    c.near("type 1", m.data(), w.data(), n, 0, tol.data());
}

static void values(mc::Ctx &c)
{
    auto gs = geos();
    auto cs = contrs(5);
    auto us = pots();
    int g = c.choose((int)gs.size(), "geometry"), ka = c.choose((int)cs.size(), "bra"), kb = c.choose((int)cs.size(), "ket");
    int q = c.choose((int)us.size(), "potential");
    int lmax = mc::thorough ? 5 : 3;
    c.desc("%s: A=%s B=%s C=%s bra %s ket %s potential %s", gs[g].name, fmt(gs[g].a).c_str(), fmt(gs[g].b).c_str(), fmt(gs[g].c).c_str(),
           cs[ka].name, cs[kb].name, us[q].name);
    c.go();
    libgrpp_init();
    for (int la = 0; la <= lmax; la++)
        for (int lb = 0; lb <= lmax; lb++) {
            c.state("L=%d,%d", la, lb);
            Sh A(gs[g].a, la, cs[ka].c, cs[ka].a), B(gs[g].b, lb, cs[kb].c, cs[kb].a);
            one(c, A, B, gs[g].c, us[q], EPS);
        }
}

// every pair of angular momenta up to the documented maximum
static void high(mc::Ctx &c)
{
    int la = c.choose(11, "L bra"), lb = c.choose(11, "L ket");
    int lite = !mc::thorough && la + lb > 12;
    c.desc("L=%d,%d", la, lb);
    c.go();
    libgrpp_init();
    Sh A(P3(0.3, -0.4, 0.5), la, {1.0}, {0.9}), B(P3(-0.2, 0.6, 0.1), lb, {1.0}, {0.7});
    Sh B2(P3(0.3, -0.4, 0.5), lb, {1.0}, {0.7});
    std::vector<PotSpec> us = {{{2, 1, 0}, {1.0, 0.7, -0.6}, {0.5, 1.2, 0.8}, "mixed"}};
    for (auto &u : us) {
        c.state("%s", u.name);
        one(c, A, B, P3(0.1, 0.2, -0.3), u, 1e-9);
        if (!lite) one(c, A, B2, P3(0.3, -0.4, 0.5), u, 1e-9);
        if (mc::thorough) one(c, A, B2, P3(0, 0, 1.5), u, 1e-9);
    }
}

// argument sweep of the Boys-like functions: T = q R^2 from 0 to several hundreds
static void sweep(mc::Ctx &c)
{
    VD ds = {0, 1e-7, 1e-4, 1e-2, 0.03, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0, 1.1, 1.25, 1.4, 1.55, 1.7, 1.85, 2.0, 2.2, 2.4, 2.6, 2.8, 3.0, 3.3, 3.6, 3.9,
             4.2, 4.5, 4.8, 5.1, 5.5, 5.9, 6.3, 6.7, 7.2, 7.7, 8.2, 8.8, 9.5, 10.5, 11.5, 13, 15, 18};
    std::vector<std::array<int, 2>> ls = {{0, 0}, {1, 0}, {1, 1}, {2, 1}, {0, 4}, {3, 3}, {5, 4}};
    if (mc::thorough) { ls.push_back({6, 6}); ls.push_back({8, 7}); }
    VD es = {0.3, 1.0, 4.0};
    int id = c.choose((int)ds.size(), "distance"), il = c.choose((int)ls.size(), "L");
    c.desc("A=B, distance %g, L=%d,%d", ds[id], ls[il][0], ls[il][1]);
    c.go();
    libgrpp_init();
    P3 a = ds[id] * P3(0.36, -0.48, 0.8);
    for (double e : es)
        for (int n = 0; n <= 2; n++)
            for (double z : {0.02, 0.4}) {
                if (n == 0 && ls[il][0] + ls[il][1] > 9) continue;   // harness "r^-2, high L"
                c.state("exponent %g n=%d z=%g", e, n, z);
                Sh A(a, ls[il][0], {1.0}, {e}), B(a, ls[il][1], {1.0}, {e});
                PotSpec u = {{n}, {1.0}, {z}, ""};
                one(c, A, B, P3(0, 0, 0), u, EPS);
            }
}

// r^-2 terms with high angular momenta away from the centre
static void steep(mc::Ctx &c)
{
    struct { int la, lb; double e, d; } v[] = {{6, 5, 0.9, 0.5}, {7, 7, 0.9, 0.3}, {8, 7, 4.0, 7.2}};
    auto k = v[c.choose(3, "case")];
    c.desc("r^-2, L=%d,%d, exponents %g, distance %g", k.la, k.lb, k.e, k.d);
    c.go();
    libgrpp_init();
    c.state("here");
    P3 a = k.d * P3(0.36, -0.48, 0.8);
    Sh A(a, k.la, {1.0}, {k.e}), B(a, k.lb, {1.0}, {k.e});
    PotSpec u = {{0}, {1.0}, {0.02}, ""};
    Pt U(0, 0, u.n, u.c, u.a);
    size_t n = A.r.nf * B.r.nf;
    VD m(n, 7.0);
    libgrpp_type1_integrals(A.s, B.s, P3(0, 0, 0), U.p, m.data());
    c.call();
    VD w = ref::type1(A.r, B.r, P3(0, 0, 0), U.r);
    VD tol = norm_tol(A.r, B.r, 1e-5);
    c.near("type 1", m.data(), w.data(), n, 0, tol.data());
}

static void trivial(mc::Ctx &c)
{
    int la = c.choose(5, "L bra"), lb = c.choose(5, "L ket"), k = c.choose(4, "kind");
    auto gs = geos();
    c.desc("L=%d,%d kind %d (no potential, no terms, zero coefficients, no primitives)", la, lb, k);
    c.go();
    libgrpp_init();
    for (auto &g : gs) {
        c.state("%s", g.name);
        Sh A(g.a, la, {1.0, 0.4}, {0.9, 0.2}), B(g.b, lb, k == 3 ? VD{} : VD{1.0}, k == 3 ? VD{} : VD{0.7});
        Pt U(0, 0, k == 1 ? VI{} : VI{2, 1, 0}, k == 1 ? VD{} : k == 2 ? VD{0, 0, 0} : VD{1, 1, 1}, k == 1 ? VD{} : VD{0.5, 0.6, 0.7});
        size_t n = A.r.nf * B.r.nf;
        VD m(n, 7.0), z(n, 0.0);
        libgrpp_type1_integrals(A.s, B.s, g.c, k == 0 ? nullptr : U.p, m.data());
        c.call();
        c.near("type 1 of nothing", m.data(), z.data(), n, 1e-300);
    }
}

int main(int argc, char **argv)
{
    mc::warmup = warm_tables;
    mc::prefork = libgrpp_init;
    return mc::drive(argc, argv, {{"values", values, 200}, {"all angular momenta", high, 100}, {"argument sweep", sweep, 100}, {"r^-2, high L", steep, 60}, {"trivial", trivial, 20}});
}
