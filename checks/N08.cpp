// N08: gradients of the overlap integrals.
#include "lib.hpp"

struct Grad {
    VD d[3];
    double *p[3];
    Grad(size_t n, double v = 7.0) { for (int k = 0; k < 3; k++) { d[k].assign(n, v); p[k] = d[k].data(); } }
};

static void one(mc::Ctx &c, Sh &A, Sh &B, P3 pt)
{
    size_t n = A.r.nf * B.r.nf;
    Grad G(n);
    c.call();
    libgrpp_overlap_integrals_gradient(A.s, B.s, pt, G.p);
    bool a = true, b = true;
    for (int x = 0; x < 3; x++) {
        a = a && A.r.o[x] == pt.v[x];
        b = b && B.r.o[x] == pt.v[x];
    }
    for (int x = 0; x < 3; x++) {
        ref::Mat w(n, 0.0);
        auto dA = ref::deriv(A.r, x, -1), dB = ref::deriv(B.r, x, -1);
        VD t = norm_tol(dA, B.r, 1e-12), t2 = norm_tol(A.r, dB, 1e-12);
        for (size_t i = 0; i < n; i++) t[i] += t2[i];
        if (a != b) {
            if (a) ref::axpy(1.0, ref::overlap(dA, B.r), w);
            else ref::axpy(1.0, ref::overlap(A.r, dB), w);
        }
        char nm[20];
        snprintf(nm, sizeof nm, "d/d%c", "xyz"[x]);
        c.near(nm, G.d[x].data(), w.data(), n, 0, t.data());
    }
}

static std::vector<P3> points(const Geo &g) { return {g.a, g.b, P3(3.1, -2.2, 1.7), P3(g.a.v[0], g.a.v[1], g.a.v[2] + 0.5)}; }

static void values(mc::Ctx &c)
{
    auto gs = geos();
    auto cs = contrs(5);
    int g = c.choose((int)gs.size(), "geometry"), ka = c.choose(5, "bra"), kb = c.choose(5, "ket"), ip = c.choose(4, "point");
    c.desc("%s: A=%s B=%s, bra %s ket %s, point %d", gs[g].name, fmt(gs[g].a).c_str(), fmt(gs[g].b).c_str(), cs[ka].name, cs[kb].name, ip);
    c.go();
    libgrpp_init();
    int lmax = mc::thorough ? 10 : 5;
    for (int la = 0; la <= lmax; la++)
        for (int lb = 0; lb <= lmax; lb++) {
            if (!mc::thorough && (la + 2 * lb + ka + kb + ip) % 2) continue;
            c.state("L=%d,%d", la, lb);
            Sh A(gs[g].a, la, cs[ka].c, cs[ka].a), B(gs[g].b, lb, cs[kb].c, cs[kb].a);
            one(c, A, B, points(gs[g])[ip]);
        }
}

static void high(mc::Ctx &c)
{
    int la = c.choose(11, "L bra"), lb = c.choose(11, "L ket");
    auto gs = geos();
    c.desc("L=%d,%d", la, lb);
    c.go();
    libgrpp_init();
    for (int g : {2, 3, 6, 7, 10})
        for (int ip = 0; ip < 3; ip++) {
            c.state("%s point %d", gs[g].name, ip);
            Sh A(gs[g].a, la, {1.0, -0.4}, {0.7, 0.2}), B(gs[g].b, lb, {0.3, 1.0}, {1.9, 0.45});
            one(c, A, B, points(gs[g])[ip]);
        }
}

// centres and points close together are not at the same place
static void near_by(mc::Ctx &c)
{
    int who = c.choose(3, "arrangement"), ip = c.choose(5, "point"), axis = c.choose(4, "axis");
    double d = c.pick<double>("distance", {1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2});
    P3 e(axis == 0 || axis == 3 ? d : 0, axis == 1 || axis == 3 ? d : 0, axis == 2 || axis == 3 ? -d : 0);
    auto add = [](P3 p, P3 q, double f) { return P3(p.v[0] + f * q.v[0], p.v[1] + f * q.v[1], p.v[2] + f * q.v[2]); };
    P3 A(0.875, 0.5, -0.25), B = who == 0 ? add(A, e, 1) : who == 1 ? P3(-0.5, 0.75, 1.0) : A;
    P3 pt = ip == 0 ? A : ip == 1 ? B : ip == 2 ? add(A, e, -2) : ip == 3 ? add(B, e, 3) : add(A, e, 0.5);
    c.desc("%s, distance %g along %d, point %d", who == 0 ? "A near B" : who == 1 ? "A far from B" : "A on B", d, axis, ip);
    c.go();
    libgrpp_init();
    for (int la = 0; la <= 4; la++)
        for (int lb = 0; lb <= 4; lb++) {
            c.state("L=%d,%d", la, lb);
            Sh sA(A, la, {1.0}, {0.9}), sB(B, lb, {0.7, 0.4}, {0.6, 0.2});
            one(c, sA, sB, pt);
        }
}

int main(int argc, char **argv)
{
    mc::warmup = warm_tables;
    mc::prefork = libgrpp_init;
    return mc::drive(argc, argv, {{"values", values, 100}, {"all angular momenta", high, 100}, {"close but not equal", near_by, 100}});
}
