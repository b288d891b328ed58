// N09: nuclear attraction integrals of every charge model and entry point against quadrature of the electrostatic energy.
#include "lib.hpp"

struct Model { int model; VD prm; const char *name; };
static std::vector<Model> models()
{
    // libgrpp model numbers are those of the public enum
    return {
        {LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE, {}, "point"},
        {LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE_NUMERICAL, {}, "point, numerical"},
        {LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL, {1.1e-4}, "ball 1.1e-4"},
        {LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL, {0.05}, "ball 0.05"},
        {LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL, {1.3}, "ball 1.3"},
        {LIBGRPP_NUCLEAR_MODEL_GAUSSIAN, {1.1e-4}, "Gaussian 1.1e-4"},
        {LIBGRPP_NUCLEAR_MODEL_GAUSSIAN, {0.05}, "Gaussian 0.05"},
        {LIBGRPP_NUCLEAR_MODEL_GAUSSIAN, {1.3}, "Gaussian 1.3"},
        {LIBGRPP_NUCLEAR_MODEL_FERMI, {1.3e-4, 9.9e-6}, "Fermi 1.3e-4"},
        {LIBGRPP_NUCLEAR_MODEL_FERMI, {0.06, 0.01}, "Fermi 0.06"},
        {LIBGRPP_NUCLEAR_MODEL_FERMI, {1.4, 0.5}, "Fermi 1.4"},
        {LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE, {1.3e-4, 9.9e-6, -0.4}, "bubble 1.3e-4"},
        {LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE, {0.06, 0.01, 0.7}, "bubble 0.06"},
        {LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE, {1.4, 0.5, -0.3}, "bubble 1.4"},
    };
}

static ref::Nucleus nucleus(const Model &m)
{
    ref::Nucleus n;
    switch (m.model) {
        case LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL: n.model = 1; break;
        case LIBGRPP_NUCLEAR_MODEL_GAUSSIAN: n.model = 2; break;
        case LIBGRPP_NUCLEAR_MODEL_FERMI: n.model = 3; break;
        case LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE: n.model = 4; break;
        default: n.model = 0;
    }
    for (size_t i = 0; i < m.prm.size(); i++) n.prm[i] = m.prm[i];
    n.init();
    return n;
}

static void specific(const Model &m, Sh &A, Sh &B, double *C, int Z, double *out)
{
    switch (m.model) {
        case LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE: libgrpp_nuclear_attraction_integrals_point_charge(A.s, B.s, C, Z, out); break;
        case LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL: libgrpp_nuclear_attraction_integrals_charged_ball(A.s, B.s, C, Z, m.prm[0], out); break;
        case LIBGRPP_NUCLEAR_MODEL_GAUSSIAN: libgrpp_nuclear_attraction_integrals_gaussian_model(A.s, B.s, C, Z, m.prm[0], out); break;
        case LIBGRPP_NUCLEAR_MODEL_FERMI: libgrpp_nuclear_attraction_integrals_fermi_model(A.s, B.s, C, Z, m.prm[0], m.prm[1], out); break;
        case LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE:
            libgrpp_nuclear_attraction_integrals_fermi_bubble_model(A.s, B.s, C, Z, m.prm[0], m.prm[1], m.prm[2], out);
            break;
    }
}

static double pmax(const ref::Shell &A, const ref::Shell &B)
{
    double p = 1;
    for (auto &x : A.p) p = std::max(p, x.a);
    for (auto &x : B.p) p = std::max(p, x.a);
    return p;
}

// The numerical route expands (r-A)^L in powers of r and of A-C: rounding is amplified by (R sqrt(a))^L for each shell.
static double amplification(const ref::Shell &A, const ref::Shell &B, const double *C)
{
    double f = 3e-14;
    for (auto *s : {&A, &B}) {
        double R = 0, a = 0;
        for (int x = 0; x < 3; x++) R += (s->o[x] - C[x]) * (s->o[x] - C[x]);
        for (auto &p : s->p) a = std::max(a, p.a);
        f *= std::pow(1 + std::sqrt(R * a), s->deg);
    }
    return f;
}
// The analytic route goes through Hermite Gaussians: conditioning grows with the total angular momentum.
static double hermite(const ref::Shell &A, const ref::Shell &B) { return 1e-15 * std::pow(2.2, A.deg + B.deg); }

// potential energy of the electron in units of the charge; tabulated potentials are smooth on panels of the nuclear structure
static void one(mc::Ctx &c, const Model &m, const ref::Nucleus &nu, Sh &A, Sh &B, P3 C, const std::vector<int> &charges, double eps)
{
    size_t n = A.r.nf * B.r.nf;
    ref::Mat w = ref::local_general(A.r, B.r, C, [&nu](double r) { return nu.V(r); }, nu.R, nu.model == 1 ? nu.rmax : 0);
    bool analytic = m.model == LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE;
    VD nt = norm_tol(A.r, B.r, (eps + (analytic ? hermite(A.r, B.r) : amplification(A.r, B.r, C))) * std::sqrt(pmax(A.r, B.r)));
    for (int Z : charges) {
        c.state("Z=%d model %s", Z, m.name);
        VD got(n, 7.0), want(n), tol(n), prm(m.prm);
        prm.resize(10, 1e30);
        for (size_t i = 0; i < n; i++) { want[i] = Z * w[i]; tol[i] = nt[i] * (std::abs(Z) + 1e-3); }
        libgrpp_nuclear_attraction_integrals(A.s, B.s, C, Z, m.model, m.prm.empty() ? nullptr : prm.data(), got.data());
        c.near("general entry point", got.data(), want.data(), n, 0, tol.data());
        c.call();
        if (m.model != LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE_NUMERICAL) {
            VD g2(n, 3.0);
            specific(m, A, B, C, Z, g2.data());
            c.near("entry point of the model", g2.data(), want.data(), n, 0, tol.data());
            c.call();
        }
    }
}

static double EPS(const Model &m)
{
    return m.model == LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE ? 3e-13 : m.model == LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL ? 1e-9 : 3e-11;
}

static void values(mc::Ctx &c)
{
    auto gs = geos();
    auto cs = contrs(mc::thorough ? 5 : 3);
    auto ms = models();
    int g = c.choose((int)gs.size(), "geometry"), ka = c.choose((int)cs.size(), "bra"), kb = c.choose((int)cs.size(), "ket"),
        k = c.choose((int)ms.size(), "model");
    c.desc("%s, %s, bra %s ket %s", gs[g].name, ms[k].name, cs[ka].name, cs[kb].name);
    c.go();
    libgrpp_init();
    auto nu = nucleus(ms[k]);
    int lmax = mc::thorough ? 4 : 2;
    for (int la = 0; la <= lmax; la++)
        for (int lb = 0; lb <= lmax; lb++) {
            if (!mc::thorough && (la * 3 + lb + g + k) % 3) continue;
            Sh A(gs[g].a, la, cs[ka].c, cs[ka].a), B(gs[g].b, lb, cs[kb].c, cs[kb].a);
            one(c, ms[k], nu, A, B, gs[g].c, {1, 92}, EPS(ms[k]));
        }
}

// every pair of angular momenta up to the maximum
static void high(mc::Ctx &c)
{
    auto all = models();
    std::vector<Model> ms = {all[0], all[1], all[3], all[6], all[9], all[12]};
    int la = c.choose(11, "L bra"), lb = c.choose(11, "L ket"), k = c.choose((int)ms.size(), "model");
    c.desc("L=%d,%d %s", la, lb, ms[k].name);
    if (k && la + lb > (mc::thorough ? 11 : 6)) return;      // the numerical route takes minutes beyond
    c.go();
    libgrpp_init();
    auto nu = nucleus(ms[k]);
    std::vector<Geo> gs = {{P3(0.3, -0.4, 0.5), P3(-0.2, 0.6, 0.1), P3(0.1, 0.2, -0.7), ""}, {P3(0, 0, 0), P3(0, 0, 0), P3(0, 0, 0), ""},
                           {P3(0, 0, 0.7), P3(0, 0, 0.7), P3(0, 0, -0.6), ""}};
    for (auto &g : gs) {
        if (!mc::thorough && (la + 2 * lb) % 3 != &g - &gs[0]) continue;
        Sh A(g.a, la, {1.0}, {0.9}), B(g.b, lb, {0.7, 0.4}, {1.1, 0.35});
        one(c, ms[k], nu, A, B, g.c, {3}, EPS(ms[k]));
    }
}

// argument of the Boys function from 0 through the tabulated range into the asymptotic one: distance x exponent sweep
static void boys(mc::Ctx &c)
{
    int nd = mc::thorough ? 120 : 48;
    int d = c.choose(nd, "distance"), e = c.choose(3, "exponent"), k = c.choose(2, "model");
    static const std::vector<std::array<int, 2>> ls = {{0, 0}, {1, 0}, {2, 1}, {3, 3}, {5, 4}, {8, 7}, {10, 10}};
    double ex = e == 0 ? 0.3 : e == 1 ? 2.0 : 25.0;
    // T = 2 ex R^2 from 1e-3 to 2000
    double T = d == 0 ? 0 : std::exp(std::log(1e-3) + (std::log(2e3) - std::log(1e-3)) * (d - 1) / (nd - 2));
    double R = std::sqrt(T / (2 * ex));
    c.desc("T=%g exponent %g %s", T, ex, k ? "numerical" : "analytic");
    c.go();
    libgrpp_init();
    Model m = models()[k];
    auto nu = nucleus(m);
    for (auto &l : ls) {
        if (k && l[0] > (mc::thorough ? 5 : 3)) continue;
        if (k && R > 20) continue;       // see "far nucleus"
        c.state("L=%d,%d", l[0], l[1]);
        double s = R / std::sqrt(0.36 + 0.2304 + 0.4096);
        P3 C(0.6 * s, -0.48 * s, 0.64 * s);
        Sh A(P3(0, 0, 0), l[0], {1.0}, {ex}), B(P3(0, 0, 0), l[1], {1.0}, {ex});
        one(c, m, nu, A, B, C, {1}, EPS(m));
    }
}

// every cell of the table of the Boys function (0, 0.1, ..., 30) and as many steps beyond it, at the cell's point and off it
static void cells(mc::Ctx &c)
{
    int part = c.choose(32, "part");
    double off = c.pick<double>("place in the cell", mc::thorough ? VD{0.0, -0.0495, 0.0495, 0.02} : VD{0.0, 0.0495});
    c.desc("arguments from %g, offset %g", 1.0 * part, off);
    c.go();
    libgrpp_init();
    Model m = models()[0];
    auto nu = nucleus(m);
    for (int i = 0; i < 10; i++) {
        double T = part + 0.1 * i + off, R = std::sqrt(std::max(T, 0.0) / 2);
        c.state("T=%g", T);
        P3 C(0.6 * R, -0.48 * R, 0.64 * R);
        static const std::vector<std::array<int, 2>> ls = {{0, 0}, {2, 1}, {4, 4}, {7, 7}, {10, 10}};
        for (auto &l : ls) {
            if (!mc::thorough && l[0] != 0 && l[0] != (off == 0 ? 10 : 4)) continue;
            Sh A(P3(0, 0, 0), l[0], {1.0}, {1.0}), B(P3(0, 0, 0), l[1], {1.0}, {1.0});
            one(c, m, nu, A, B, C, {1}, EPS(m));
        }
    }
}

// the numerical route's radial grid is sparse beyond about 25 bohr
static void far(mc::Ctx &c)
{
    double R = c.pick<double>("distance", {10, 20, 41}), ex = c.pick<double>("exponent", {0.3, 5.0});
    int k = c.choose(5, "model");
    int id[] = {0, 2, 5, 8, 11};
    Model m = models()[id[k]];
    c.desc("%s at %g bohr from functions with exponent %g", m.name, R, ex);
    c.go();
    libgrpp_init();
    auto nu = nucleus(m);
    for (int la = 0; la <= 1; la++)
        for (int lb = 0; lb <= 1; lb++) {
            Sh A(P3(0, 0, 0), la, {1.0}, {ex}), B(P3(0, 0.2, 0), lb, {1.0}, {ex});
            one(c, m, nu, A, B, P3(0.6 * R, -0.48 * R, 0.64 * R), {1}, EPS(m));
        }
}

// charge: proportional, also zero and negative; all models tend to the point nucleus
static void limits(mc::Ctx &c)
{
    auto gs = geos();
    int g = c.choose((int)gs.size(), "geometry"), m = c.choose(5, "model"), s = c.choose(4, "radius");
    double R = std::pow(10.0, -3 - s);
    c.desc("%s model %d radius %g", gs[g].name, m, R);
    c.go();
    libgrpp_init();
    for (int la = 0; la <= 2; la++)
        for (int lb = 0; lb <= 2; lb++) {
            Sh A(gs[g].a, la, {0.6, -0.5}, {1.7, 0.3}), B(gs[g].b, lb, {1.0}, {0.8});
            c.state("L=%d,%d", la, lb);
            size_t n = A.r.nf * B.r.nf;
            VD pt(n), fin(n), one_(n), tol = norm_tol(A.r, B.r, 1e-9 + 60 * R * R);
            double prm[10] = {R, R / 8, -0.4};
            static const int id[5] = {LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE_NUMERICAL, LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL, LIBGRPP_NUCLEAR_MODEL_GAUSSIAN,
                                      LIBGRPP_NUCLEAR_MODEL_FERMI, LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE};
            libgrpp_nuclear_attraction_integrals_point_charge(A.s, B.s, gs[g].c, 1, pt.data());
            libgrpp_nuclear_attraction_integrals(A.s, B.s, gs[g].c, 1, id[m], prm, one_.data());
            c.near("small radius against the point nucleus", one_.data(), pt.data(), n, 0, tol.data());
            for (int Z : {0, 2, 57, 118, -3, 1000000}) {
                VD w(one_), t = norm_tol(A.r, B.r, 1e-10 * (std::abs(Z) + 1e-3)), wp(pt);
                for (auto &x : w) x *= Z;
                for (auto &x : wp) x *= Z;
                libgrpp_nuclear_attraction_integrals(A.s, B.s, gs[g].c, Z, id[m], prm, fin.data());
                c.near("proportional to the charge", fin.data(), w.data(), n, 0, t.data());
                libgrpp_nuclear_attraction_integrals_point_charge(A.s, B.s, gs[g].c, Z, fin.data());
                c.near("point: proportional to the charge", fin.data(), wp.data(), n, 0, t.data());
            }
            c.call(14);
        }
}

int main(int argc, char **argv)
{
    mc::warmup = warm_tables;
    mc::prefork = libgrpp_init;
    return mc::drive(argc, argv, {{"values", values, 200}, {"all angular momenta", high, 120}, {"Boys argument", boys, 120}, {"Boys table cells", cells, 120}, {"limits", limits, 60}, {"far nucleus", far, 60}});
}
