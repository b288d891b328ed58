// N13: every routine, every combination of angular momenta up to the documented maxima, in instrumented builds.
#include "fort.hpp"
#ifdef MSAN_BUILD
extern "C" long __msan_test_shadow(const volatile void *, size_t);
#else
#include "alloc.hpp"
#endif

static Scene scene(int g, int la, int lb, int l, int np)
{
    auto gs = geos();
    Scene s;
    s.a = gs[g].a;
    s.b = gs[g].b;
    s.c = gs[g].c;
    s.pt = (la + lb) % 3 == 0 ? s.a : (la + lb) % 3 == 1 ? s.b : s.c;
    s.la = la;
    s.lb = lb;
    s.l = l;
    s.ca = {0.7};
    s.aa = {0.8};
    s.cb = {0.9};
    s.ab = {1.1};
    if (np > 1) { s.ca = {0.5, -0.4}; s.aa = {1.3, 0.4}; }
    s.u = pots()[np > 1 ? 9 : (la + lb + l) % 3];
    int j = l == 0 ? 1 : 2 * l + 1 - 2 * ((la + lb) % 2);
    s.oc = {{l, j, s.u, {0.6, -0.5}, {2.4, 0.5}}};
    s.nuc = {0.2, 0.03, -0.3};
    return s;
}
static void eval(mc::Ctx &c, int k, const Scene &s)
{
#ifdef MSAN_BUILD
    Live l(s);
    Args a = l.args();
    size_t n = (size_t)libgrpp_get_shell_size(a.A) * libgrpp_get_shell_size(a.B), nb = blocks(k).size();
    double *m = (double *)malloc(n * nb * sizeof(double));      // poisoned
    double *p[16];
    for (size_t b = 0; b < nb; b++) p[b] = m + b * n;
    evaluate(k, a, p);
    long bad = __msan_test_shadow(m, n * nb * sizeof(double));
    if (bad >= 0) c.fail("%s: the result depends on uninitialised data or is not written (byte %ld)", kname(k), bad);
#else
    heap::install();
    Blocks r;
    long before = heap::live;
    {
        Live l(s);
        Args a = l.args();
        size_t n = (size_t)libgrpp_get_shell_size(a.A) * libgrpp_get_shell_size(a.B), nb = blocks(k).size();
        std::vector<double *> p;
        for (size_t b = 0; b < nb; b++) p.push_back((double *)malloc(n * sizeof(double)));   // exact size: a write outside is seen
        { heap::In in; evaluate(k, a, p.data()); }
        double *m = p[0];
        for (size_t b = 0; b < nb; b++) { r.push_back(VD(p[b], p[b] + n)); free(p[b]); }
    }
    if (heap::live != before) c.fail("%s: %ld blocks allocated in the call were not freed", kname(k), heap::live - before);
    for (auto &b : r)
        for (double x : b)
            if (!std::isfinite(x)) c.fail("%s: result %g", kname(k), x);
#endif
    c.call();
    c.s->compared++;
}
static double binom5(int l) { return (l + 5.0) * (l + 4) * (l + 3) * (l + 2) * (l + 1) / 120; }
static double cost(int k, int la, int lb, int l)
{
    double t2 = 9e-9 * binom5(la) * binom5(lb) * (2 * l + 1) * (l + la + 1) * (l + la + 1) * (l + lb + 1) * (l + lb + 1) * 3;
    double t1 = 2e-7 * binom5(la) * binom5(lb) * (la + lb + 1);
    double oc = t1 * 0 + 2e-7 * (binom5(la) + binom5(lb)) * binom5(l) * (la + lb + l + 1) * 2;
    switch (k) {
        case K_OVERLAP: case K_KINETIC: case K_MOMENTUM: case K_OVERLAP_G: return 1e-4;
        case K_TYPE1: case K_NUC_POINT: return t1;
        case K_TYPE2: return t2;
        case K_SO: return 4 * t2;
        case K_OC: return oc;
        case K_FULL: return 6 * t2 + oc + t1;
        case K_TYPE1_G: return 6 * t1;
        case K_TYPE2_G: return 6 * t2;
        case K_SO_G: return 24 * t2;
        case K_OC_G: return 6 * oc;
        case K_FULL_G: return 36 * t2 + 6 * oc + 6 * t1;
        default: return 4 * t1 + 1e-6 * binom5(la) * binom5(lb) * (la + lb + 1) * (la + lb + 1);
    }
}
static double LIMIT() { return mc::thorough ? 20.0 : QLIMIT; }

// every (la, lb, l) within the cost limit
static void momenta(mc::Ctx &c)
{
    int k = c.choose(K_ALL, "kind"), la = c.choose(11, "la"), lb = c.choose(11, "lb");
    bool byl = uses_pot(k) || uses_oc(k) || uses_full(k);
    bool type1 = k == K_TYPE1 || k == K_TYPE1_G;
    int ltop = byl && !type1 ? 10 : 0, n = 0;
    for (int l = 0; l <= ltop; l++) n += cost(k, la, lb, l) < LIMIT();
    if (!n) return;
    c.desc("%s L=%d,%d all l it can afford", kname(k), la, lb);
    c.go();
    libgrpp_init();
    for (int l = 0; l <= ltop; l++) {
        if (cost(k, la, lb, l) >= LIMIT()) continue;
        c.state("l=%d", l);
        eval(c, k, scene(7, la, lb, l, 1));
    }
}
// coincidences and degenerate arrangements, several primitives, small angular momenta and the extremes
static void shapes(mc::Ctx &c)
{
    int k = c.choose(K_ALL, "kind"), g = c.choose((int)geos().size(), "geometry");
    c.desc("%s %s", kname(k), geos()[g].name);
    c.go();
    libgrpp_init();
    for (int la : {0, 1, 2, 5, 10})
        for (int lb : {0, 1, 3, 10})
            for (int l : {0, 1, 2, 6, 10}) {
                if (!(uses_pot(k) || uses_oc(k) || uses_full(k)) && l) continue;
                if (cost(k, la, lb, l) * 2 >= LIMIT()) continue;
                c.state("L=%d,%d l=%d", la, lb, l);
                eval(c, k, scene(g, la, lb, l, 2));
            }
}
// extreme but legal parameters
static void extremes(mc::Ctx &c)
{
    int k = c.choose(K_ALL, "kind"), e = c.choose(15, "parameters");
    c.desc("%s, parameters %d", kname(k), e);
    c.go();
    libgrpp_init();
    for (int la : {0, 1, 3})
        for (int lb : {0, 2}) {
            Scene s = scene(7, la, lb, 1, 1);
            switch (e) {
                case 0: s.aa = {1e8}; break;
                case 1: s.aa = {1e-4}; s.ab = {1e-4}; break;
                case 2: s.a = P3(300, -200, 100); break;
                case 3: s.a = P3(1e-9, 0, 0); s.b = P3(0, 1e-8, 0); s.c = P3(0, 0, 0); break;
                case 4: s.ca.clear(); s.aa.clear(); for (int i = 0; i < 40; i++) { s.ca.push_back(0.1 * (i % 7 - 3)); s.aa.push_back(0.05 * std::pow(1.5, i % 30)); } break;
                case 5: s.u = PotSpec{{}, {}, {}, ""}; s.oc.clear(); break;
                case 6: s.u.c.assign(s.u.c.size(), 1e8); s.u.a.assign(s.u.a.size(), 1e6); break;
                case 7: s.u.a.assign(s.u.a.size(), 1e-5); break;
                case 8: s.ca = {0.0}; s.cb = {0.0}; break;
                case 9: case 10: case 11: {          // long sums
                    int n = e == 9 ? 17 : e == 10 ? 65 : 130;
                    PotSpec u{{}, {}, {}, ""};
                    for (int i = 0; i < n; i++) { u.n.push_back(i * i % 3); u.c.push_back(std::cos(1.7 * i)); u.a.push_back(0.2 + 0.3 * (i * 7 % n)); }
                    s.u = u;
                    for (auto &o : s.oc) o.u = u;
                    break;
                }
                case 12: s.oc[0].c.assign(70, 0.1); s.oc[0].a.clear(); for (int i = 0; i < 70; i++) s.oc[0].a.push_back(0.1 * (i + 1)); break;
                case 13: case 14:                    // many pseudospinors
                    s.oc.clear();
                    for (int i = 0; i < (is_gradient(k) && !mc::thorough ? 9 : e == 13 ? 21 : 40); i++) {
                        int l = i % 3;
                        s.oc.push_back({l, i % 2 && l ? 2 * l - 1 : 2 * l + 1, pots()[i % 3], {0.7}, {0.4 + 0.1 * i}});
                    }
                    break;
            }
            if (e >= 12 && !(uses_oc(k) || uses_full(k))) return;
            if (e >= 9 && e < 12 && !(uses_pot(k) || uses_oc(k) || uses_full(k))) return;
            if (e == 4 && (is_numerical(k) || k >= K_FULL_G) && !mc::thorough) { s.ca.resize(6); s.aa.resize(6); }
            c.state("L=%d,%d", la, lb);
            eval(c, k, s);
        }
}
static void models(mc::Ctx &c)
{
    c.choose(1, "all");
    c.desc("nuclear model functions");
    c.go();
    for (double r : {0.0, 1e-12, 1e-6, 1e-5, 3e-5, 1e-4, 1e-2, 1.0, 100.0})
        for (int Z : {1, 50, 120})
            for (double R : {1e-6, 1e-5, 1e-4, 0.1}) {
                c.state("r=%g Z=%d R=%g", r, Z, R);
                double v[] = {libgrpp_coulomb_potential_ball(r, Z, R), libgrpp_coulomb_potential_gaussian(r, Z, R), libgrpp_coulomb_potential_fermi(r, Z, R, R / 5),
                              libgrpp_coulomb_potential_fermi_bubble(r, Z, R, R / 5, -0.2), libgrpp_charge_density_ball(r, Z, R), libgrpp_charge_density_gaussian(r, Z, R),
                              libgrpp_charge_density_fermi(r, Z, R, R / 5), libgrpp_charge_density_fermi_bubble(r, Z, R, R / 5, -0.2)};
                c.call(8);
                int q = 0;
                for (double x : v) { if (!std::isfinite(x)) c.fail("function %d is %g", q, x); q++; }
            }
}

// through the Fortran binding
static void parts(Flat &f, const OcSpec &o, const OcSpec *q, double **m)
{
    OcSpec x = o, y = q ? *q : o;
    std::vector<I> un(x.u.n.begin(), x.u.n.end()), vn(y.u.n.begin(), y.u.n.end());
    I l = x.l, j = x.j2, nu = (I)un.size(), ns = (I)x.a.size(), l2 = y.l, j2 = y.j2, nv = (I)vn.size(), nt = (I)y.a.size();
    if (!q)
        libgrpp_outercore_potential_integrals_part_1_(SH(f), f.C.data(), &l, &j, &nu, un.data(), x.u.c.data(), x.u.a.data(), &ns, x.c.data(), x.a.data(), m[0], m[1], m[2], m[3]);
    else
        libgrpp_outercore_potential_integrals_part_2_(SH(f), f.C.data(), &l, &j, &nu, un.data(), x.u.c.data(), x.u.a.data(), &ns, x.c.data(), x.a.data(), &l2, &j2, &nv,
                                                      vn.data(), y.u.c.data(), y.u.a.data(), &nt, y.c.data(), y.a.data(), m[0], m[1], m[2], m[3]);
}
static void binding(mc::Ctx &c)
{
    int k = c.choose(K_ALL, "kind"), g = c.choose((int)geos().size(), "geometry"), np = c.pick<int>("primitives", {0, 1, 2, 40});
    bool oc = k == K_OC;
    if (!in_fortran(k) && !oc) return;
    if (np == 40 && (is_numerical(k) || is_gradient(k)) && !mc::thorough) return;
    if (!mc::thorough && np == 1 && g % 2) return;
    c.desc("%s (Fortran), %s, %d primitives", kname(k), geos()[g].name, np);
    c.go();
    libgrpp_init();
    for (int la : {0, 1, 3})
        for (int lb : {0, 2})
            for (int l : {0, 1, 2}) {
                if (!(uses_pot(k) || oc) && l) continue;
                c.state("L=%d,%d l=%d", la, lb, l);
                Scene s = scene(g, la, lb, l, np);
                if (np == 40) {
                    PotSpec u{{}, {}, {}, ""};
                    for (int i = 0; i < 70; i++) { u.n.push_back(i * i % 3); u.c.push_back(std::cos(1.7 * i)); u.a.push_back(0.2 + 0.3 * (i * 7 % 70)); }
                    s.u = u;
                }
                if (!np) { s.u = PotSpec{{}, {}, {}, ""}; for (auto &o : s.oc) o.u = s.u; }
                if (np == 40) {
                    s.ca.clear(); s.aa.clear();
                    for (int i = 0; i < 40; i++) { s.ca.push_back(0.1 * (i % 7 - 3)); s.aa.push_back(0.05 * std::pow(1.5, i % 20)); }
                }
                s.oc.push_back({l, 2 * l + 1, s.u, {0.7}, {1.3}});
                Flat f(s);
                size_t n = (size_t)(la + 1) * (la + 2) / 2 * (lb + 1) * (lb + 2) / 2, nb = blocks(k).size();
                std::vector<double *> p;
                for (size_t b = 0; b < nb; b++) {
                    p.push_back((double *)malloc(n * sizeof(double)));
                    if (oc) std::fill(p[b], p[b] + n, 0.0);     // these routines add to the matrices
                }
                c.call();
#ifdef MSAN_BUILD
                if (oc) { parts(f, s.oc[0], nullptr, p.data()); parts(f, s.oc[0], &s.oc[1], p.data()); }
                else fortran(k, f, p.data());
                for (size_t b = 0; b < nb; b++) {
                    long bad = __msan_test_shadow(p[b], n * sizeof(double));
                    if (bad >= 0) c.fail("%s: the result depends on uninitialised data or is not written (byte %ld)", kname(k), bad);
                }
#else
                heap::install();
                long before = heap::live;
                {
                    heap::In in;
                    if (!oc) fortran(k, f, p.data());
                }
                if (oc)
                    for (int part = 0; part < 2; part++) {
                        // the vectors of the wrapper of the harness go with it
                        std::vector<double *> q = p;
                        heap::In in;
                        parts(f, s.oc[0], part ? &s.oc[1] : nullptr, q.data());
                    }
                if (heap::live != before) c.fail("%s: %ld blocks allocated in the call were not freed", kname(k), heap::live - before);
                for (auto b : p)
                    for (size_t i = 0; i < n; i++)
                        if (!std::isfinite(b[i])) c.fail("%s: result %g", kname(k), b[i]);
#endif
                c.s->compared++;
                for (auto b : p) free(b);
            }
}

// the routines of the binding without a counterpart of the same form in C
static void single(mc::Ctx &c)
{
    int r = c.choose(6, "routine"), g = c.choose((int)geos().size(), "geometry");
    static const char *nm[] = {"point charge", "charged ball", "Gaussian", "Fermi", "Fermi bubble", "one overlap integral"};
    c.desc("%s (Fortran), %s", nm[r], geos()[g].name);
    c.go();
    libgrpp_init();
    for (int la : {0, 1, 3})
        for (int lb : {0, 2}) {
            c.state("L=%d,%d", la, lb);
            Scene s = scene(g, la, lb, 0, 2);
            Flat f(s);
            size_t n = r == 5 ? 1 : (size_t)(la + 1) * (la + 2) / 2 * (lb + 1) * (lb + 2) / 2;
            double *o = (double *)malloc(n * sizeof(double)), *q = f.nuc.data(), *C = f.C.data(), three = 0.1, bub = -0.2;
            I na = la, nb = lb, zero = 0;
#ifndef MSAN_BUILD
            heap::install();
            long before = heap::live;
            heap::In in;
#endif
            switch (r) {
                case 0: libgrpp_nuclear_attraction_integrals_point_charge_(SH(f), C, &f.Z, o); break;
                case 1: libgrpp_nuclear_attraction_integrals_charged_ball_(SH(f), C, &f.Z, q, o); break;
                case 2: libgrpp_nuclear_attraction_integrals_gaussian_model_(SH(f), C, &f.Z, q, o); break;
                case 3: libgrpp_nuclear_attraction_integrals_fermi_model_(SH(f), C, &f.Z, q, &three, o); break;
                case 4: libgrpp_nuclear_attraction_integrals_fermi_bubble_model_(SH(f), C, &f.Z, q, &three, &bub, o); break;
                case 5:
                    evaluate_overlap_integral_contracted_(f.oa.data(), &na, &zero, &zero, &f.na, f.ca.data(), f.aa.data(), f.ob.data(), &zero, &zero, &nb, &f.nb, f.cb.data(),
                                                          f.ab.data(), o);
            }
            c.call();
#ifdef MSAN_BUILD
            long bad = __msan_test_shadow(o, n * sizeof(double));
            if (bad >= 0) c.fail("%s: the result depends on uninitialised data or is not written (byte %ld)", nm[r], bad);
#else
            if (heap::live != before) c.fail("%s: %ld blocks allocated in the call were not freed", nm[r], heap::live - before);
#endif
            for (size_t i = 0; i < n; i++)
                if (!std::isfinite(o[i])) c.fail("%s: result %g", nm[r], o[i]);
            c.s->compared++;
            free(o);
        }
}

int main(int argc, char **argv)
{
    mc::prefork = libgrpp_init;
    return mc::drive(argc, argv, {{"angular momenta", momenta, 900}, {"arrangements", shapes, 900}, {"extremes", extremes, 300}, {"nuclear models", models, 60}, {"Fortran binding", binding, 300}, {"Fortran only", single, 300}});
}
