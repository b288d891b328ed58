// N10: nuclear model functions: normalisation, radii, potentials and parameter estimates against quadrature of the densities.
#include "lib.hpp"

// F/bubble shapes by the ratio c/a: from a nucleus that is almost all surface to a sharp edge; the library's special function
// changes its method at arguments -30, -14, -10
static VD ratios() { return {1.2, 2.0, 3.7, 5.0, 6.9, 8.33, 9.99, 10.0, 10.01, 11.5, 13.99, 14.01, 18.0, 25.0, 29.99, 30.01, 45.0}; }
static VD more_ratios()
{
    VD v = ratios();
    if (mc::thorough)
        for (double q = 1.05; q < 50; q *= 1.013) v.push_back(q);
    return v;
}
static VD scales() { return {1e-5, 1.3e-4, 0.02, 1.0, 5.7}; }

static VD radii(double c, double a)
{
    VD r;
    for (int i = 0; i <= 60; i++) r.push_back(c * std::pow(10.0, -3 + 5.0 * i / 60));
    for (double t : {0.0, 1e-12, 1e-6, 0.0025, 0.005, 0.0075, 0.5, 1.0, 5.0, 9.99, 9.9975, 10.0, 10.0025, 13.99, 14.0, 14.01, 29.99, 30.0, 30.01, 40.0})
        for (int s : {-1, 1}) {
            double x = c + s * t * a;
            if (x > 1e-3 * c) r.push_back(x);
        }
    for (int i = 1; i <= 120; i++) r.push_back(c * i / 60.0);
    return r;
}

static void fermi(mc::Ctx &c)
{
    double q = c.pick<double>("c/a", more_ratios()), sc = c.pick<double>("c", scales());
    double k = c.pick<double>("k", {0.0, -0.9, -0.4, 0.3, 2.0, 25.0});
    int Z = c.pick<int>("Z", {1, 92});
    double a = sc / q;
    c.desc("c=%g c/a=%g k=%g Z=%d", sc, q, k, Z);
    c.go();
    ref::Nucleus n;
    n.model = k == 0 ? 3 : 4;
    n.prm[0] = sc;
    n.prm[1] = a;
    n.prm[2] = k;
    n.init();
    double cond = 1 + std::fabs(k);       // for negative k the normalisation is a difference
    {
        ref::Nucleus u = n;
        u.prm[2] = std::fabs(k);
        u.init();
        cond = n.rho0 / u.rho0;
    }
    double eps = 1e-10 * std::max(1.0, std::fabs(cond));
    c.state("rms radius");
    double r2 = n.moment(2), rms = std::sqrt(r2);
    if (k == 0) {
        double g = libgrpp_rms_radius_fermi(Z, sc, a);
        c.near("rms radius of the Fermi model", &g, &rms, 1, eps * rms);
    }
    double g = libgrpp_rms_radius_fermi_bubble(Z, sc, a, k);
    if (r2 > 0 && cond > 0) c.near("rms radius of the bubble model", &g, &rms, 1, eps * 3 * (1 + n.prm[0] * n.prm[0] / r2) * rms);   // else the density is negative
    c.call(2);
    for (double r : radii(sc, a)) {
        c.state("r/c=%.12g", r / sc);
        double want = Z * n.rho(r), tol = eps * Z * n.rho0 * (1 + std::fabs(k) * (r < 2 * sc ? r * r / sc / sc : 1));
        tol = std::max(tol * 1e-300, eps * std::fabs(want) * 10);
        if (k == 0) {
            g = libgrpp_charge_density_fermi(r, Z, sc, a);
            c.near("density of the Fermi model", &g, &want, 1, tol);
        }
        g = libgrpp_charge_density_fermi_bubble(r, Z, sc, a, k);
        c.near("density of the bubble model", &g, &want, 1, tol);
        want = Z * n.V(r);
        tol = eps * Z / sc * (1 + 0.06 * sc / r);        // the tabulated special function is good to 1e-12 absolute, divided by r
        if (r > 3 * sc) tol = eps * Z / r;
        if (k == 0) {
            g = libgrpp_coulomb_potential_fermi(r, Z, sc, a);
            c.near("potential of the Fermi model", &g, &want, 1, tol);
        }
        g = libgrpp_coulomb_potential_fermi_bubble(r, Z, sc, a, k);
        c.near("potential of the bubble model", &g, &want, 1, tol);
        c.call(4);
    }
    c.state("at the centre");
    double want = -Z * n.moment(-1);
    if (k == 0) {
        g = libgrpp_coulomb_potential_fermi(0.0, Z, sc, a);
        c.near("potential of the Fermi model at r=0", &g, &want, 1, eps * Z / sc);
    }
    g = libgrpp_coulomb_potential_fermi_bubble(0.0, Z, sc, a, k);
    c.near("potential of the bubble model at r=0", &g, &want, 1, eps * Z / sc);
    c.call(2);
}

// every cell of the table of the special function S_k: its argument (|r-c|/a or c/a) from 0 to 10 in steps of 0.005, at the cell's point and off it
static void cells(mc::Ctx &c)
{
    int part = c.choose(80, "part");
    bool bub = c.choose(2, "bubble");
    double off = c.pick<double>("place in the cell", {0.0, -0.0024, 0.0024, 0.0011});
    c.desc("arguments from %g, %s, offset %g", 0.125 * part, bub ? "bubble" : "Fermi", off);
    c.go();
    ref::Nucleus n;
    n.model = bub ? 4 : 3;
    double q = std::max(1.2, 0.125 * part + 0.6);
    n.prm[0] = 1;
    n.prm[1] = 1 / q;
    n.prm[2] = bub ? 0.5 : 0;
    n.init();
    for (int i = 0; i <= 25; i++) {
        double x = 0.125 * part + 0.005 * i + off;
        if (x <= 0) continue;
        c.state("argument %g", x);
        for (int s : {-1, 1}) {
            double r = 1 + s * x / q, want = n.V(r);
            double g = bub ? libgrpp_coulomb_potential_fermi_bubble(r, 1, 1, 1 / q, 0.5) : libgrpp_coulomb_potential_fermi(r, 1, 1, 1 / q);
            c.near("potential", &g, &want, 1, 2e-11 * (1 + 0.06 / r));
            c.call();
        }
        if (x < 1) continue;
        ref::Nucleus m = n;
        m.prm[1] = 1 / x;
        m.init();
        double want = std::sqrt(m.moment(2)), g = bub ? libgrpp_rms_radius_fermi_bubble(1, 1, 1 / x, 0.5) : libgrpp_rms_radius_fermi(1, 1, 1 / x);
        c.near("rms radius", &g, &want, 1, 1e-11 * want);
        c.call();
    }
}

static void simple(mc::Ctx &c)
{
    int model = 1 + c.choose(2, "ball or Gaussian");
    double R = c.pick<double>("rms radius", {1e-6, 1.1e-4, 0.05, 1.0, 6.3});
    double Z = c.pick<double>("Z", {1, 92, 0.5, -3, 0});
    c.desc("%s R=%g Z=%g", model == 1 ? "ball" : "Gaussian", R, Z);
    c.go();
    ref::Nucleus n;
    n.model = model;
    n.prm[0] = R;
    n.init();
    double edge = std::sqrt(5.0 / 3) * R;
    VD rs;
    for (int i = 0; i <= 120; i++) rs.push_back(R * std::pow(10.0, -4 + 8.0 * i / 120));
    for (int i = 1; i <= 300; i++) rs.push_back(R * i / 100.0);
    for (double t : {-1e-3, -1e-9, 1e-9, 1e-3}) rs.push_back(edge * (1 + t));
    for (double r : rs) {
        c.state("r/R=%.12g", r / R);
        double want = Z * n.rho(r);
        double g = model == 1 ? libgrpp_charge_density_ball(r, Z, R) : libgrpp_charge_density_gaussian(r, Z, R);
        c.near("density", &g, &want, 1, 1e-11 * std::fabs(want) + 1e-300);
        want = Z * n.V(r);
        g = model == 1 ? libgrpp_coulomb_potential_ball(r, Z, R) : libgrpp_coulomb_potential_gaussian(r, Z, R);
        c.near("potential", &g, &want, 1, 1e-12 * std::fabs(want) + 1e-300);
        want = -Z / r;
        g = libgrpp_coulomb_potential_point(r, Z);
        c.near("point potential", &g, &want, 1, 1e-15 * std::fabs(want));
        c.call(3);
    }
    double want = -Z * n.moment(-1), g = model == 1 ? libgrpp_coulomb_potential_ball(0.0, Z, R) : libgrpp_coulomb_potential_gaussian(0.0, Z, R);
    c.near("potential at r=0", &g, &want, 1, 1e-12 * std::fabs(want) + 1e-300);
}

// estimates: all mass numbers, and radii through the smallest one the Fermi model can have
static void estimates(mc::Ctx &c)
{
    int part = c.choose(8, "part");
    c.desc("part %d", part);
    c.go();
    for (int A = 1 + part; A <= 400; A += 8) {
        c.state("A=%d", A);
        double third = std::exp(std::log((double)A) / 3), g = libgrpp_estimate_nuclear_rms_radius_johnson_1985(A), w = 0.836 * third + 0.570;
        c.near("Johnson and Soff 1985", &g, &w, 1, 1e-13 * w);
        g = libgrpp_estimate_nuclear_rms_radius_golovko_2008(A);
        w = 0.77 * third + 0.98;
        c.near("Golovko et al. 2008", &g, &w, 1, 1e-13 * w);
        c.call(2);
    }
    double a0 = 2.3 / (4 * std::log(3.0)), Rmin = a0 * M_PI * std::sqrt(7.0 / 5.0);
    VD Rs;
    for (int i = part; i < 1200; i += 8) Rs.push_back(0.01 * (i + 1));
    for (double t : {1e-9, 1e-6, 1e-3, 0.1}) { Rs.push_back(Rmin * (1 - t)); Rs.push_back(Rmin * (1 + t)); }
    for (double R : Rs) {
        c.state("R=%.12g fm", R);
        double cc = -7, a = -7;
        int ok = libgrpp_estimate_fermi_model_parameters(R, &cc, &a);
        c.call();
        if (R < Rmin) { c.expect(ok == -1, "a radius no Fermi distribution of this thickness has must be reported as an error"); continue; }
        c.expect(ok == 1, "estimate reported as failed for a possible radius");
        c.near("surface thickness", &a, &a0, 1, 1e-13);
        double w = std::sqrt((R - Rmin) * (R + Rmin) * 5.0 / 3.0);
        c.near("half-density radius", &cc, &w, 1, 1e-12 * R * R / w);
        if (cc / a > 0.5) {
            // <r^2> = 3/5 c^2 + 7/5 pi^2 a^2 up to terms of order exp(-c/a)
            ref::Nucleus n;
            n.model = 3;
            n.prm[0] = cc;
            n.prm[1] = a;
            n.init();
            double rms = std::sqrt(n.moment(2)), lib = libgrpp_rms_radius_fermi(50, cc, a);
            c.near("radius reproduced (density)", &rms, &R, 1, R * (1e-9 + 10 * std::exp(-cc / a) * std::pow(a / cc, 3)));
            if (cc / a > 1) c.near("radius reproduced (reported)", &lib, &rms, 1, 1e-10 * R * (1 + std::pow(a / cc, 5) * 100));
        }
    }
}

int main(int argc, char **argv)
{
    mc::warmup = warm_tables;
    return mc::drive(argc, argv, {{"Fermi and bubble", fermi, 60}, {"table cells", cells, 60}, {"ball and Gaussian", simple, 60}, {"estimates", estimates, 60}});
}
