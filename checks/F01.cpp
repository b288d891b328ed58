// F01: every routine of the Fortran binding against the C interface, bit for bit.
#include "hist.hpp"
#include "fort.hpp"

static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); }
static void bits(mc::Ctx &c, const char *what, const VD &f, const VD &w)
{
    c.expect(true, "");
    if (f.size() != w.size()) { c.fail("%s: %d numbers instead of %d", what, (int)f.size(), (int)w.size()); return; }
    for (size_t i = 0; i < f.size(); i++)
        if (!same(f[i], w[i])) { c.fail("%s: element %d: Fortran %.17g, C %.17g", what, (int)i, f[i], w[i]); return; }
}

static int zorder(int L, int *list)
{
    int n = 0;
    for (int z = L; z >= 0; z--)
        for (int y = 0; y <= L - z; y++) { list[3 * n] = L - z - y; list[3 * n + 1] = y; list[3 * n + 2] = z; n++; }
    return n;
}

static void compare(mc::Ctx &c, int k, const Scene &s)
{
    Flat f(s);
    const size_t G = 32;
    size_t n = (size_t)(s.la + 1) * (s.la + 2) / 2 * (s.lb + 1) * (s.lb + 2) / 2, nb = blocks(k).size();
    VD buf((n + G) * nb + G, 77.0), got;
    std::vector<double *> p;
    for (size_t b = 0; b < nb; b++) {
        p.push_back(buf.data() + G + b * (n + G));
        std::fill(p[b], p[b] + n, NAN);
    }
    fortran(k, f, p.data());
    c.call();
    for (size_t b = 0; b < nb; b++) got.insert(got.end(), p[b], p[b] + n);
    bits(c, kname(k), got, flat(evaluate(k, s)));
    c.expect(f.intact(), "an argument was changed");
    for (size_t i = 0, b = 0; i < buf.size(); i++) {
        if (b < nb && i == G + b * (n + G)) { i += n - 1; b++; continue; }
        if (buf[i] != 77.0) { c.fail("%s: wrote outside a matrix", kname(k)); break; }
    }
}

static Scene scene(const Geo &g, int la, int lb, int l, const Contr &a, const Contr &b, const PotSpec &u, int pt)
{
    Scene s;
    s.a = g.a; s.b = g.b; s.c = g.c;
    s.pt = pt == 0 ? g.a : pt == 1 ? g.b : pt == 2 ? g.c : P3(9, 9, 9);
    s.la = la; s.lb = lb; s.l = l;
    s.ca = a.c; s.aa = a.a; s.cb = b.c; s.ab = b.a;
    s.u = u;
    s.nuc = {1.1e-2, 2.3e-3, 0.4};
    s.Z = 7;
    return s;
}

static void integrals(mc::Ctx &c)
{
    auto gs = geos();
    auto cs = contrs(5);
    auto us = pots();
    std::vector<int> ks;
    for (int k = 0; k < K_ALL; k++) if (in_fortran(k)) ks.push_back(k);
    int k = c.pick<int>("kind", ks), g = c.choose((int)gs.size(), "geometry"), order = c.choose(2, "order"), pt = is_gradient(k) ? c.choose(4, "point") : 0;
    c.desc("%s, %s, order %d, point %d", kname(k), gs[g].name, order, pt);
    c.go();
    libgrpp_init();
    if (order) libgrpp_set_cartesian_generator(zorder);
    for (int la = 0; la <= 2; la++)
        for (int lb = 0; lb <= 2; lb++) {
            int i = 0;
            for (int l = 0; l <= (uses_pot(k) && k != K_TYPE1 && k != K_TYPE1_G ? 2 : 0); l++)
                for (int q = 0; q < (uses_pot(k) ? (int)us.size() : 1); q++, i++) {
                    if (uses_pot(k) && !mc::thorough && (i + la + 2 * lb) % (is_gradient(k) ? 6 : 3)) continue;
                    int ka = (i + la) % 5, kb = (i / 5 + lb) % 5;
                    c.state("L=%d,%d l=%d potential %s %s %s", la, lb, l, us[q].name, cs[ka].name, cs[kb].name);
                    compare(c, k, scene(gs[g], la, lb, l, cs[ka], cs[kb], us[q], pt));
                }
        }
}

// long contractions and potentials
static void lengths(mc::Ctx &c)
{
    std::vector<int> ks;
    for (int k = 0; k < K_ALL; k++) if (in_fortran(k)) ks.push_back(k);
    int k = c.pick<int>("kind", ks), where = c.choose(3, "where"), n = c.pick<int>("terms", {7, 8, 9, 10, 11, 16, 17, 20, 21, 30, 31, 32, 33, 50, 51, 64, 65, 100, 101, 128, 129, 257});
    if (where == 2 && !uses_pot(k)) return;
    if (n > (is_numerical(k) || is_gradient(k) ? 65 : 257)) return;
    c.desc("%s, %d terms in the %s", kname(k), n, where == 0 ? "bra" : where == 1 ? "ket" : "potential");
    c.go();
    c.state("%d %d %d", k, where, n);
    libgrpp_init();
    Scene s = scene(geos()[7], 1, 0, 1, contrs(5)[1], contrs(5)[0], pots()[9], 1);
    VD co, al;
    VI po;
    for (int i = 0; i < n; i++) { co.push_back(std::cos(1.7 * i + 0.3)); al.push_back(0.12 * std::pow(400.0, (i * 37 % n + 0.5) / n)); po.push_back(i * i % 3); }
    if (where == 0) { s.ca = co; s.aa = al; }
    if (where == 1) { s.cb = co; s.ab = al; }
    if (where == 2) s.u = PotSpec{po, co, al, ""};
    compare(c, k, s);
}

static void high(mc::Ctx &c)
{
    std::vector<int> ks;
    for (int k = 0; k < K_ALL; k++) if (in_fortran(k)) ks.push_back(k);
    int k = c.pick<int>("kind", ks), la = c.choose(11, "L bra");
    c.desc("%s L=%d", kname(k), la);
    c.go();
    libgrpp_init();
    auto gs = geos();
    auto cs = contrs(5);
    auto us = pots();
    bool cheap = k <= K_MOMENTUM || k == K_TYPE1 || k == K_NUC_POINT || k == K_TYPE1_G;
    for (int lb = 0; lb <= 10; lb++)
        for (int l = 0; l <= (k == K_TYPE2 || k == K_SO || k == K_TYPE2_G || k == K_SO_G ? 10 : 0); l++) {
            int w = la + lb + (l ? l : 0);
            if (!cheap && w > (mc::thorough ? 7 : is_gradient(k) ? 3 : 5) && !(l > 5 && la + lb <= (is_gradient(k) ? 0 : 1))) continue;
            if (is_gradient(k) && (la > 9 || lb > 9)) continue;
            c.state("L'=%d l=%d", lb, l);
            compare(c, k, scene(gs[7], la, lb, l, cs[0], cs[0], us[9], l % 3));
        }
}

// the two outercore routines, accumulated over the list in the order of the C routine, give the whole; they add to what is there
static void parts(mc::Ctx &c)
{
    auto gs = geos();
    auto ocs = oclists();
    for (int n : {17, 40, 70}) {
        OcSpec o{0, 1, PotSpec{{}, {}, {}, ""}, {}, {}};
        for (int i = 0; i < n; i++) {
            o.u.n.push_back(i * i % 3); o.u.c.push_back(std::cos(1.7 * i)); o.u.a.push_back(0.2 + 0.3 * (i * 7 % n));
            o.c.push_back(std::cos(0.6 * i)); o.a.push_back(0.1 + 0.1 * (i * 11 % n));
        }
        OcSpec p = o;
        p.l = 1;
        p.j2 = 3;
        OcSpec q = p;
        std::reverse(q.a.begin(), q.a.end());
        std::reverse(q.u.c.begin(), q.u.c.end());
        ocs.push_back({"long", {o, p, q}});
    }
    auto cs = contrs(5);
    int g = c.choose((int)gs.size(), "geometry"), q = c.choose((int)ocs.size(), "list"), order = c.choose(2, "order");
    c.desc("%s, pseudospinors %s, order %d", gs[g].name, ocs[q].first, order);
    c.go();
    libgrpp_init();
    if (order) libgrpp_set_cartesian_generator(zorder);
    for (int la = 0; la <= (mc::thorough ? 3 : 2); la++)
        for (int lb = 0; lb <= (mc::thorough ? 3 : 2); lb++) {
            int ka = (la + q) % 5, kb = (lb + g) % 5;
            if (!mc::thorough && (la + lb + g + q) % 2) continue;
            c.state("L=%d,%d %s %s", la, lb, cs[ka].name, cs[kb].name);
            Scene s = scene(gs[g], la, lb, 0, cs[ka], cs[kb], PotSpec{{}, {}, {}, ""}, 0);
            s.oc = ocs[q].second;
            Flat f(s);
            size_t n = (size_t)(la + 1) * (la + 2) / 2 * (lb + 1) * (lb + 2) / 2;
            VD m[4];
            for (auto &x : m) x.assign(n, 0.0);
            auto one = [&](OcSpec o, VD *m) {
                std::vector<I> un(o.u.n.begin(), o.u.n.end());
                I l = o.l, j = o.j2, nu = (I)un.size(), ns = (I)o.a.size();
                libgrpp_outercore_potential_integrals_part_1_(SH(f), f.C.data(), &l, &j, &nu, un.data(), o.u.c.data(), o.u.a.data(), &ns, o.c.data(), o.a.data(),
                                                              m[0].data(), m[1].data(), m[2].data(), m[3].data());
                c.call();
            };
            auto two = [&](OcSpec o, OcSpec p, VD *m) {
                std::vector<I> un(o.u.n.begin(), o.u.n.end()), vn(p.u.n.begin(), p.u.n.end());
                I l = o.l, j = o.j2, nu = (I)un.size(), ns = (I)o.a.size(), l2 = p.l, j2 = p.j2, nv = (I)vn.size(), nt = (I)p.a.size();
                libgrpp_outercore_potential_integrals_part_2_(SH(f), f.C.data(), &l, &j, &nu, un.data(), o.u.c.data(), o.u.a.data(), &ns, o.c.data(), o.a.data(), &l2,
                                                              &j2, &nv, vn.data(), p.u.c.data(), p.u.a.data(), &nt, p.c.data(), p.a.data(), m[0].data(), m[1].data(),
                                                              m[2].data(), m[3].data());
                c.call();
            };
            for (auto &o : s.oc) one(o, m);
            for (auto &o : s.oc)
                for (auto &p : s.oc) two(o, p, m);
            VD got;
            for (auto &x : m) got.insert(got.end(), x.begin(), x.end());
            VD whole = flat(evaluate(K_OC, s)), t1 = ktol(K_OC, s, 1e-13), tol;
            for (int x = 0; x < 4; x++) tol.insert(tol.end(), t1.begin(), t1.end());
            c.near("sum of the parts", got.data(), whole.data(), got.size(), 0, tol.data());
            c.expect(f.intact(), "an argument was changed");
            // pairs that differ in l or j contribute nothing, whatever was there stays
            for (auto &x : m) x.assign(n, -3.5);
            for (auto &o : s.oc)
                for (auto &p : s.oc)
                    if (o.l != p.l || o.j2 != p.j2) two(o, p, m);
            for (auto &x : m)
                for (double v : x) c.expect(v == -3.5, "a pair of pseudospinors of different symmetry contributed");
        }
}

static void nuclei(mc::Ctx &c)
{
    auto gs = geos();
    auto cs = contrs(5);
    int g = c.choose((int)gs.size(), "geometry"), la = c.choose(mc::thorough ? 4 : 3, "L bra"), lb = c.choose(mc::thorough ? 4 : 3, "L ket");
    c.desc("%s L=%d,%d", gs[g].name, la, lb);
    if (!mc::thorough && (la + lb + g) % 2) return;
    c.go();
    libgrpp_init();
    int it = 0;
    for (I Z : {1, 92, 0, -3})
        for (double R : {1e-3, 0.3}) {
            int ka = (it + la) % 5, kb = (it + g) % 5;
            it++;
            Scene s = scene(gs[g], la, lb, 0, cs[ka], cs[kb], PotSpec{{}, {}, {}, ""}, 0);
            s.Z = Z;
            Flat f(s);
            Live v(s);
            size_t n = (size_t)(la + 1) * (la + 2) / 2 * (lb + 1) * (lb + 2) / 2;
            double a = R / 7.3, k = 0.3;
            c.state("Z=%d R=%g", Z, R);
            VD m(n, NAN), w(n, NAN);
            auto next = [&](const char *what) { c.call(2); bits(c, what, m, w); m.assign(n, NAN); w.assign(n, NAN); };
            libgrpp_nuclear_attraction_integrals_point_charge_(SH(f), f.C.data(), &f.Z, m.data());
            libgrpp_nuclear_attraction_integrals_point_charge(v.A, v.B, v.C, Z, w.data());
            next("point charge");
            libgrpp_nuclear_attraction_integrals_charged_ball_(SH(f), f.C.data(), &f.Z, &R, m.data());
            libgrpp_nuclear_attraction_integrals_charged_ball(v.A, v.B, v.C, Z, R, w.data());
            next("charged ball");
            libgrpp_nuclear_attraction_integrals_gaussian_model_(SH(f), f.C.data(), &f.Z, &R, m.data());
            libgrpp_nuclear_attraction_integrals_gaussian_model(v.A, v.B, v.C, Z, R, w.data());
            next("Gaussian model");
            libgrpp_nuclear_attraction_integrals_fermi_model_(SH(f), f.C.data(), &f.Z, &R, &a, m.data());
            libgrpp_nuclear_attraction_integrals_fermi_model(v.A, v.B, v.C, Z, R, a, w.data());
            next("Fermi model");
            libgrpp_nuclear_attraction_integrals_fermi_bubble_model_(SH(f), f.C.data(), &f.Z, &R, &a, &k, m.data());
            libgrpp_nuclear_attraction_integrals_fermi_bubble_model(v.A, v.B, v.C, Z, R, a, k, w.data());
            next("Fermi bubble model");
            c.expect(f.intact() && k == 0.3, "an argument was changed");
        }
}

static void functions(mc::Ctx &c)
{
    int part = c.choose(8, "part");
    c.desc("part %d", part);
    c.go();
    int i = 0;
    double f;
    auto eq = [&](const char *what, double w) { c.call(2); bits(c, what, VD{f}, VD{w}); f = -1; };
    for (double R : {1e-5, 1.1e-4, 0.02, 1.0, 6.0})
        for (double q : {1.3, 4.0, 8.3, 12.0, 31.0})
            for (double k : {0.0, -0.4, 2.0})
                for (double Z : {1.0, 92.0, -3.5})
                    for (double t : {0.0, 1e-6, 0.3, 0.999, 1.0, 1.001, 1.29, 1.3, 2.0, 11.0, 1000.0}) {
                        if (i++ % 8 != part) continue;
                        double r = R * t, a = R / q;
                        c.state("r=%g R=%g a=%g k=%g Z=%g", r, R, a, k, Z);
                        libgrpp_charge_density_ball_(&r, &Z, &R, &f); eq("ball density", libgrpp_charge_density_ball(r, Z, R));
                        libgrpp_charge_density_gaussian_(&r, &Z, &R, &f); eq("Gaussian density", libgrpp_charge_density_gaussian(r, Z, R));
                        libgrpp_charge_density_fermi_(&r, &Z, &R, &a, &f); eq("Fermi density", libgrpp_charge_density_fermi(r, Z, R, a));
                        libgrpp_charge_density_fermi_bubble_(&r, &Z, &R, &a, &k, &f); eq("bubble density", libgrpp_charge_density_fermi_bubble(r, Z, R, a, k));
                        libgrpp_coulomb_potential_point_(&r, &Z, &f); eq("point potential", libgrpp_coulomb_potential_point(r, Z));
                        libgrpp_coulomb_potential_ball_(&r, &Z, &R, &f); eq("ball potential", libgrpp_coulomb_potential_ball(r, Z, R));
                        libgrpp_coulomb_potential_gaussian_(&r, &Z, &R, &f); eq("Gaussian potential", libgrpp_coulomb_potential_gaussian(r, Z, R));
                        libgrpp_coulomb_potential_fermi_(&r, &Z, &R, &a, &f); eq("Fermi potential", libgrpp_coulomb_potential_fermi(r, Z, R, a));
                        libgrpp_coulomb_potential_fermi_bubble_(&r, &Z, &R, &a, &k, &f); eq("bubble potential", libgrpp_coulomb_potential_fermi_bubble(r, Z, R, a, k));
                        I z = (I)Z;
                        libgrpp_rms_radius_fermi_(&z, &R, &a, &f); eq("Fermi radius", libgrpp_rms_radius_fermi(z, R, a));
                        libgrpp_rms_radius_fermi_bubble_(&z, &R, &a, &k, &f); eq("bubble radius", libgrpp_rms_radius_fermi_bubble(z, R, a, k));
                    }
    for (I A = 1 + part; A <= 300; A += 8) {
        libgrpp_estimate_nuclear_rms_radius_johnson_1985_(&A, &f); eq("Johnson", libgrpp_estimate_nuclear_rms_radius_johnson_1985(A));
        libgrpp_estimate_nuclear_rms_radius_golovko_2008_(&A, &f); eq("Golovko", libgrpp_estimate_nuclear_rms_radius_golovko_2008(A));
    }
    for (double R = 0.1 + 0.01 * part; R < 9; R += 0.08) {
        double x = -1, y = -1, u = -1, v = -1;
        I e = 99;
        libgrpp_estimate_fermi_model_parameters_(&R, &x, &y, &e);
        int w = libgrpp_estimate_fermi_model_parameters(R, &u, &v);
        c.call(2);
        bits(c, "Fermi parameters", VD{x, y, (double)e}, VD{u, v, (double)w});
    }
}

// single overlap integrals and the norm of a radial function
static void single(mc::Ctx &c)
{
    auto gs = geos();
    auto cs = contrs(5);
    int g = c.choose((int)gs.size(), "geometry"), la = c.choose(mc::thorough ? 11 : 6, "L bra");
    c.desc("%s L=%d", gs[g].name, la);
    c.go();
    for (int lb = 0; lb <= (mc::thorough ? 10 : 5); lb++)
        for (int ka = 0; ka < 5; ka++) {
            int kb = (ka + lb) % 5;
            c.state("L'=%d %s %s", lb, cs[ka].name, cs[kb].name);
            Scene s = scene(gs[g], la, lb, 0, cs[ka], cs[kb], PotSpec{{}, {}, {}, ""}, 0);
            Flat f(s);
            VD w = flat(evaluate(K_OVERLAP, s)), m;
            Live v(s);
            for (int i = 0; i < v.A->cart_size; i++)
                for (int j = 0; j < v.B->cart_size; j++) {
                    I *x = v.A->cart_list + 3 * i, *y = v.B->cart_list + 3 * j;
                    double S = NAN;
                    evaluate_overlap_integral_contracted_(f.oa.data(), x, x + 1, x + 2, &f.na, f.ca.data(), f.aa.data(), f.ob.data(), y, y + 1, y + 2, &f.nb,
                                                          f.cb.data(), f.ab.data(), &S);
                    c.call();
                    m.push_back(S);
                }
            bits(c, "single overlap integrals", m, w);
            c.expect(f.intact(), "an argument was changed");
            if (g == 0 && lb == 0) {
                double N = NAN, ff = 1, S = NAN;
                radial_gto_norm_factor_(&f.la, &f.na, f.ca.data(), f.aa.data(), &N);
                for (int q = 2 * la - 1; q > 1; q -= 2) ff *= q;
                Scene t = scene(gs[0], la, la, 0, cs[ka], cs[ka], PotSpec{{}, {}, {}, ""}, 0);
                S = flat(evaluate(K_OVERLAP, t))[0];        // x^L is the first component
                double want = std::sqrt(ff) / std::sqrt(S);
                c.near("norm of the radial function", &N, &want, 1, 4e-16 * want * 4);
                c.call();
            }
        }
}

// settings and lifecycle from both sides: all words, compared with a model
static void settings(mc::Ctx &c)
{
    static const char *names[] = {"default", "default_", "radial", "radial_", "angular", "angular_", "bessel", "bessel_", "order D", "order D_", "order T", "order T_",
                                  "init", "init_", "finalize", "finalize_"};
    int n = mc::thorough ? 4 : 3;
    std::vector<int> w;
    std::string d;
    for (int i = 0; i < n; i++) {
        int a = c.choose(16, "action");
        w.push_back(a);
        d += std::string(i ? ", " : "") + names[a];
    }
    c.desc("%s", d.c_str());
    c.go();
    libgrpp_set_default_parameters();
    libgrpp_finalize();
    struct { double r, a, b; bool init; int order; } m = {libgrpp_params.radial_tolerance, libgrpp_params.angular_screening_tolerance, libgrpp_params.modified_bessel_tolerance, false, LIBGRPP_CART_ORDER_DIRAC};
    auto def = m;
    libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_DIRAC);
    auto gd = libgrpp_params.cartesian_generator;
    libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_TURBOMOLE);
    auto gt = libgrpp_params.cartesian_generator;
    libgrpp_set_default_parameters();
    auto g0 = libgrpp_params.cartesian_generator, g = g0;
    double t = 1e-7;
    I oD = LIBGRPP_CART_ORDER_DIRAC, oT = LIBGRPP_CART_ORDER_TURBOMOLE;
    for (int a : w) {
        t *= 0.37;
        switch (a) {
            case 0: libgrpp_set_default_parameters(); break;
            case 1: libgrpp_set_default_parameters_(); break;
            case 2: libgrpp_set_radial_tolerance(t); break;
            case 3: libgrpp_set_radial_tolerance_(&t); break;
            case 4: libgrpp_set_angular_screening_tolerance(t); break;
            case 5: libgrpp_set_angular_screening_tolerance_(&t); break;
            case 6: libgrpp_set_modified_bessel_tolerance(t); break;
            case 7: libgrpp_set_modified_bessel_tolerance_(&t); break;
            case 8: libgrpp_set_cartesian_order(oD); break;
            case 9: libgrpp_set_cartesian_order_(&oD); break;
            case 10: libgrpp_set_cartesian_order(oT); break;
            case 11: libgrpp_set_cartesian_order_(&oT); break;
            case 12: libgrpp_init(); break;
            case 13: libgrpp_init_(); break;
            case 14: libgrpp_finalize(); break;
            case 15: libgrpp_finalize_(); break;
        }
        c.call();
        if (a < 2) { bool i = m.init; m = def; m.init = i; g = g0; }
        else if (a < 4) m.r = t;
        else if (a < 6) m.a = t;
        else if (a < 8) m.b = t;
        else if (a < 10) g = gd;
        else if (a < 12) g = gt;
        else m.init = a < 14;
        c.state("%s", names[a]);
        c.expect(libgrpp_params.radial_tolerance == m.r, "radial tolerance");
        c.expect(libgrpp_params.angular_screening_tolerance == m.a, "angular screening tolerance");
        c.expect(libgrpp_params.modified_bessel_tolerance == m.b, "Bessel tolerance");
        c.expect(libgrpp_params.cartesian_generator == g, "Cartesian order");
        c.expect((libgrpp_is_initialized() != 0) == m.init, "initialised or not");
    }
}

int main(int argc, char **argv)
{
    mc::warmup = warm_tables;
    mc::prefork = libgrpp_init;
    return mc::drive(argc, argv, {{"integrals", integrals, 200}, {"high L", high, 200}, {"long sums", lengths, 300}, {"outercore parts", parts, 200}, {"nuclear models", nuclei, 100},
                                  {"functions", functions, 60}, {"single overlaps and norms", single, 60}, {"settings and lifecycle", settings, 60}});
}
