// N07: gradients of pseudopotential integrals are the derivatives with respect to the nucleus at the given point.
#include "grpp.hpp"

struct Grad {
    std::vector<VD> d;
    double *p[3];
    Grad(size_t n, double v = 7.0) : d(3, VD(n, v)) { for (int k = 0; k < 3; k++) p[k] = d[k].data(); }
};

enum { LOCAL, AREP, ESOP, OCORE, FULL };

typedef std::function<void(const ref::Shell &, const ref::Shell &, ref::Mat *)> Eval;

// derivative of eval with respect to every centre at pt moved together
static void reference(const ref::Shell &A, const ref::Shell &B, const double *C, const double *pt, const Eval &ev, ref::Mat w[4][3])
{
    auto at = [&](const double *o) { return o[0] == pt[0] && o[1] == pt[1] && o[2] == pt[2]; };
    bool a = at(A.o), b = at(B.o), cc = at(C);
    // dC = -dA - dB
    double fa = (a ? 1 : 0) - (cc ? 1 : 0), fb = (b ? 1 : 0) - (cc ? 1 : 0);
    for (int x = 0; x < 3; x++) {
        for (int k = 0; k < 4; k++) w[k][x].assign(A.nf * B.nf, 0.0);
        ref::Mat m[4];
        if (fa != 0) { ev(ref::deriv(A, x, -1), B, m); for (int k = 0; k < 4; k++) if (m[k].size()) ref::axpy(fa, m[k], w[k][x]); }
        for (auto &y : m) y.clear();
        if (fb != 0) { ev(A, ref::deriv(B, x, -1), m); for (int k = 0; k < 4; k++) if (m[k].size()) ref::axpy(fb, m[k], w[k][x]); }
    }
}

static VD tolerance(const ref::Shell &A, const ref::Shell &B, double eps)
{
    VD t(A.nf * B.nf, 0.0);
    for (int x = 0; x < 3; x++) {
        VD a = norm_tol(ref::deriv(A, x, -1), B, eps), b = norm_tol(A, ref::deriv(B, x, -1), eps);
        for (size_t i = 0; i < t.size(); i++) t[i] = std::max(t[i], a[i] + b[i]);
    }
    return t;
}

static double amp(const ref::Shell &A, const ref::Shell &B, const double *C)
{
    double f = 1;
    for (auto *s : {&A, &B}) {
        double R = 0, a = 0;
        for (int x = 0; x < 3; x++) R += (s->o[x] - C[x]) * (s->o[x] - C[x]);
        for (auto &p : s->p) a = std::max(a, p.a);
        f *= std::pow(1 + std::sqrt(R * a), s->deg + 1);
    }
    return 1.5e-15 * f;
}

static void one(mc::Ctx &c, int kind, Sh &A, Sh &B, P3 C, P3 pt, int l, const PotSpec &u, const std::vector<OcSpec> &ocl, Full *F, double eps)
{
    size_t n = A.r.nf * B.r.nf;
    Grad g0(n), g1(n), g2(n), g3(n);
    Grad *G[4] = {&g0, &g1, &g2, &g3};
    ref::Mat w[4][3];
    Pt U(l, 0, u.n, u.c, u.a);
    double sz = potscale(u, A.r, B.r);
    Eval ev;
    int from = 0, to = 4;
    Oc o(ocl, true);
    c.call();
    if (kind == LOCAL) {
        libgrpp_type1_integrals_gradient(A.s, B.s, C, U.p, pt, g0.p);
        ev = [&](const ref::Shell &a, const ref::Shell &b, ref::Mat *m) { m[0] = ref::type1(a, b, C, U.r); };
        to = 1;
    } else if (kind == AREP) {
        libgrpp_type2_integrals_gradient(A.s, B.s, C, U.p, pt, g0.p);
        ev = [&](const ref::Shell &a, const ref::Shell &b, ref::Mat *m) { m[0] = ref::type2(a, b, C, l, U.r); };
        to = 1;
    } else if (kind == ESOP) {
        libgrpp_spin_orbit_integrals_gradient(A.s, B.s, C, U.p, pt, g1.p, g2.p, g3.p);
        ev = [&](const ref::Shell &a, const ref::Shell &b, ref::Mat *m) { ref::semilocal(a, b, C, l, U.r, m[0], m + 1); };
        from = 1;
        sz *= 1 + l;
    } else if (kind == OCORE) {
        libgrpp_outercore_potential_integrals_gradient(A.s, B.s, C, (int)ocl.size(), o.u.data(), o.s.data(), pt, g0.p, g1.p, g2.p, g3.p);
        ev = [&](const ref::Shell &a, const ref::Shell &b, ref::Mat *m) { ref::outercore(a, b, C, o.r, m); };
        sz = o.size();
    } else {
        libgrpp_full_grpp_integrals_gradient(A.s, B.s, F->g, C, pt, g0.p, g1.p, g2.p, g3.p);
        ev = [&](const ref::Shell &a, const ref::Shell &b, ref::Mat *m) { F->eval(a, b, C, m); };
        sz = F->size * potscale(PotSpec{{0}, {1.0}, {1.0}, ""}, A.r, B.r);
    }
    reference(A.r, B.r, C, pt, ev, w);
    VD t = tolerance(A.r, B.r, (eps + amp(A.r, B.r, C)) * sz);
    static const char *nm[4] = {"scalar", "so x", "so y", "so z"};
    for (int k = from; k < to; k++)
        for (int x = 0; x < 3; x++) c.near((std::string(nm[k]) + " d/d" + "xyz"[x]).c_str(), G[k]->d[x].data(), w[k][x].data(), n, 0, t.data());
}

static std::vector<P3> points(const Geo &g) { return {g.a, g.b, g.c, P3(3.1, -2.2, 1.7)}; }

static std::vector<PotSpec> upots()
{
    return {{{2}, {1.0}, {0.9}, "n2"}, {{1, 0}, {-1.3, 0.4}, {0.7, 1.5}, "n1 n0"}, {{2, 1, 0}, {2.0, -3.0, 0.5}, {1.3, 6.0, 2.2}, "mixed"}};
}

static void semilocal(mc::Ctx &c)
{
    auto gs = geos();
    auto cs = contrs(3);
    auto us = upots();
    int kind = c.choose(3, "kind"), g = c.choose((int)gs.size(), "geometry"), ip = c.choose(4, "point"), ka = c.choose(3, "bra"), kb = c.choose(mc::thorough ? 3 : 2, "ket");
    int q = c.choose(mc::thorough ? 3 : 2, "potential");
    if (mc::thorough == false) q++;
    c.desc("kind %d, %s, point %d, bra %s ket %s potential %s", kind, gs[g].name, ip, cs[ka].name, cs[kb].name, us[q].name);
    c.go();
    libgrpp_init();
    int lmax = mc::thorough ? 3 : 2;
    for (int la = 0; la <= lmax; la++)
        for (int lb = 0; lb <= lmax; lb++)
            for (int l = (kind == ESOP); l <= (kind == LOCAL ? 0 : mc::thorough ? 3 : 2); l++) {
                if (mc::thorough && la + lb + l > 6) continue;
                if (!mc::thorough && kind != LOCAL && (la + 2 * lb + l + q) % 3 != (ip + ka) % 3) continue;
                c.state("L=%d,%d l=%d", la, lb, l);
                Sh A(gs[g].a, la, cs[ka].c, cs[ka].a), B(gs[g].b, lb, cs[kb].c, cs[kb].a);
                one(c, kind, A, B, gs[g].c, points(gs[g])[ip], l, us[q], {}, nullptr, 1e-10);
            }
}

static void outercore(mc::Ctx &c)
{
    auto gs = geos();
    auto cs = contrs(3);
    auto ls = oclists();
    int g = c.choose((int)gs.size(), "geometry"), ip = c.choose(4, "point"), ka = c.choose(mc::thorough ? 3 : 2, "contraction"), q = c.choose((int)ls.size(), "pseudospinors");
    c.desc("outercore, %s, point %d, contraction %s, %s", gs[g].name, ip, cs[ka].name, ls[q].first);
    c.go();
    libgrpp_init();
    for (int la = 0; la <= 2; la++)
        for (int lb = 0; lb <= 2; lb++) {
            if (!mc::thorough && (la + 2 * lb + q) % 3) continue;
            c.state("L=%d,%d", la, lb);
            Sh A(gs[g].a, la, cs[ka].c, cs[ka].a), B(gs[g].b, lb, cs[1].c, cs[1].a);
            one(c, OCORE, A, B, gs[g].c, points(gs[g])[ip], 0, PotSpec{{}, {}, {}, ""}, ls[q].second, nullptr, 1e-12);
        }
}

static void full(mc::Ctx &c)
{
    auto gs = geos();
    auto ls = oclists();
    int local = c.choose(2, "local"), na = c.choose(3, "arep"), ne = c.choose(3, "esop"), no = c.pick("oc", VI{0, 1, 4, 9}), ip = c.choose(4, "point");
    c.desc("full operator: local %d, %d averaged, %d spin-orbit, pseudospinors %s, point %d", local, na, ne, ls[no].first, ip);
    c.go();
    libgrpp_init();
    Full F;
    auto us = upots();
    if (local) F.set_local(us[2]);
    for (int l = 0; l < na; l++) F.add_arep(l, us[l % 3]);
    for (int l = 1; l <= ne; l++) F.add_esop(l, us[l % 3]);
    for (auto &o : ls[no].second) F.add_oc(o);
    for (int g = 0; g < (int)gs.size(); g++) {
        if (!mc::thorough && (g + local + na + ne + ip) % 3) continue;
        for (int la = 0; la <= (mc::thorough ? 2 : 1); la++)
            for (int lb = 0; lb <= (mc::thorough ? 2 : 1); lb++) {
                c.state("%s L=%d,%d", gs[g].name, la, lb);
                Sh A(gs[g].a, la, {0.7, 0.4}, {1.3, 0.3}), B(gs[g].b, lb, {1.0}, {0.6});
                one(c, FULL, A, B, gs[g].c, points(gs[g])[ip], 0, PotSpec{{}, {}, {}, ""}, {}, &F, 1e-11);
            }
    }
}

// angular momenta up to the documented maximum (as far as the library's cost allows)
static void high(mc::Ctx &c)
{
    auto gs = geos();
    int kind = c.choose(4, "kind"), la = c.choose(11, "L bra"), lb = c.pick("L ket", mc::thorough ? VI{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10} : VI{0, 1, 5, 10}), g = c.pick("geometry", VI{2, 3, 4, 7});
    int l = kind == LOCAL ? 0 : c.pick("l", mc::thorough ? VI{1, 2, 5, 10} : VI{1, 4});
    bool ac = g == 3, bc = g == 4;
    auto b5 = [](int n) { double r = 1; for (int i = 1; i <= 5; i++) r *= (n + i) / (double)i; return r; };
    double cost = 9e-9 * b5(la + 1) * b5(lb + 1) * (2 * l + 1) * (l + la + 2) * (l + la + 2) * (l + lb + 2) * (l + lb + 2) * (kind == ESOP ? 16 : 4);
    if (ac || bc) cost /= 50;
    if (kind == LOCAL || kind == OCORE) cost = 0;
    if (!mc::thorough && kind == LOCAL && la + lb > 13) return;
    if (cost > (mc::thorough ? 20 : 0.4)) return;
    c.desc("kind %d L=%d,%d l=%d %s", kind, la, lb, l, gs[g].name);
    c.go();
    libgrpp_init();
    for (int ip = 0; ip < 3; ip++) {
        if (!mc::thorough && (la + lb + l + ip) % 3) continue;
        c.state("point %d", ip);
        Sh A(gs[g].a, la, {1.0}, {0.9}), B(gs[g].b, lb, {1.0}, {0.6});
        one(c, kind, A, B, gs[g].c, points(gs[g])[ip], l, PotSpec{{2}, {1.0}, {0.7}, ""},
            {{l, 2 * l - 1, PotSpec{{2}, {1.0}, {0.8}, ""}, {1.0}, {0.75}}}, nullptr, 1e-11 * std::pow(10.0, std::max(0, la + lb - 5) * 0.5));
    }
}

// centres and points close together are not at the same place
static void near_by(mc::Ctx &c)
{
    static const char *nm[] = {"A near C", "B near C", "A near B", "all near", "A and B near each other, far from C", "A on C, B near", "A on B, C near", "B on C, A near"};
    int kind = c.choose(4, "kind"), who = c.choose(8, "arrangement"), ip = c.choose(6, "point"), axis = c.choose(4, "axis");
    double d = c.pick<double>("distance", {1e-8, 1e-6, 1e-4, 1e-3, 1e-2});
    // semilocal integrals take centres closer than 1e-7 as coinciding, with an error of the order of the distance
    if ((kind == AREP || kind == ESOP) && d < 1e-7) return;
    P3 e(axis == 0 || axis == 3 ? d : 0, axis == 1 || axis == 3 ? d : 0, axis == 2 || axis == 3 ? -d : 0);
    auto add = [](P3 p, P3 q, double f) { return P3(p.v[0] + f * q.v[0], p.v[1] + f * q.v[1], p.v[2] + f * q.v[2]); };
    P3 C(0.25, -0.5, 0.125), A(0.875, 0.5, -0.25), B(-0.5, 0.75, 1.0);
    switch (who) {
        case 0: A = add(C, e, 1); break;
        case 1: B = add(C, e, 1); break;
        case 2: B = add(A, e, 1); break;
        case 3: A = add(C, e, 1); B = add(C, e, -1); break;
        case 4: A = P3(1.5, 1.0, -1.25); B = add(A, e, -1); break;
        case 5: A = C; B = add(C, e, 1); break;
        case 6: B = A; C = add(A, e, 1); break;
        case 7: B = C; A = add(C, e, 1); break;
    }
    P3 pt = ip == 0 ? A : ip == 1 ? B : ip == 2 ? C : ip == 3 ? add(A, e, -2.5) : ip == 4 ? add(B, e, 3) : add(C, e, 5);
    if (!mc::thorough && (who + ip + axis) % 2) return;
    c.desc("kind %d, %s, distance %g along %d, point %d", kind, nm[who], d, axis, ip);
    c.go();
    libgrpp_init();
    for (int la = 0; la <= 1; la++)
        for (int lb = 0; lb <= (mc::thorough ? 2 : 1); lb++)
            for (int l = 1; l <= (kind == LOCAL || kind == OCORE || !mc::thorough ? 1 : 2); l++) {
                c.state("L=%d,%d l=%d", la, lb, l);
                Sh sA(A, la, {1.0}, {0.9}), sB(B, lb, {0.7, 0.4}, {0.6, 0.2});
                one(c, kind, sA, sB, C, pt, l, PotSpec{{2}, {1.0}, {0.7}, ""}, {{l, 2 * l - 1, PotSpec{{2}, {1.0}, {0.8}, ""}, {1.0}, {0.75}}}, nullptr, 1e-10);
            }
}

int main(int argc, char **argv)
{
    mc::warmup = warm_tables;
    mc::prefork = libgrpp_init;
    return mc::drive(argc, argv, {{"semilocal", semilocal, 200}, {"outercore", outercore, 100}, {"full operator", full, 100}, {"high L", high, 300}, {"close but not equal", near_by, 100}});
}
