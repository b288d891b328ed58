// N06: the full operator is the sum of its parts, for every subset, number and order of components.
#include "grpp.hpp"

static PotSpec spec(int i)
{
    std::vector<PotSpec> v = {{{2}, {1.3}, {0.9}, ""}, {{1, 2}, {-2.0, 0.7}, {1.4, 3.0}, ""}, {{0, 2, 1}, {0.5, -4.0, 1.0}, {2.2, 0.6, 5.0}, ""}, {{2, 2}, {-3.0, 20.0}, {0.3, 11.0}, ""}, {{}, {}, {}, ""}};
    return v[i % 5];
}

static void check(mc::Ctx &c, Full &F, Geo g, int la, int lb, bool quad)
{
    Sh A(g.a, la, {0.7, 0.4}, {1.3, 0.3}), B(g.b, lb, {1.0}, {0.6});
    size_t n = A.r.nf * B.r.nf;
    VD m[4], s[4], b[4];
    for (int k = 0; k < 4; k++) { m[k].assign(n, 7.0); s[k].assign(n, 0.0); b[k].assign(n, 5.0); }
    libgrpp_full_grpp_integrals(A.s, B.s, F.g, g.c, m[0].data(), m[1].data(), m[2].data(), m[3].data());
    c.call();
    if (F.g->U_L) {
        libgrpp_type1_integrals(A.s, B.s, g.c, F.g->U_L, b[0].data());
        ref::axpy(1.0, b[0], s[0]);
    }
    for (int i = 0; i < F.g->n_arep; i++) {
        libgrpp_type2_integrals(A.s, B.s, g.c, F.g->U_arep[i], b[0].data());
        ref::axpy(1.0, b[0], s[0]);
    }
    for (int i = 0; i < F.g->n_esop; i++) {
        libgrpp_spin_orbit_integrals(A.s, B.s, g.c, F.g->U_esop[i], b[1].data(), b[2].data(), b[3].data());
        for (int k = 1; k < 4; k++) ref::axpy(2.0 / (2 * F.g->U_esop[i]->L + 1), b[k], s[k]);
    }
    if (F.g->n_oc_shells) {
        libgrpp_outercore_potential_integrals(A.s, B.s, g.c, F.g->n_oc_shells, F.g->U_oc, F.g->oc_shells, b[0].data(), b[1].data(), b[2].data(), b[3].data());
        for (int k = 0; k < 4; k++) ref::axpy(1.0, b[k], s[k]);
    }
    const char *nm[4] = {"scalar part", "spin-orbit x", "spin-orbit y", "spin-orbit z"};
    for (int k = 0; k < 4; k++) {
        VD t = norm_tol(A.r, B.r, 1e-14 * F.size * (1 + F.g->n_arep + F.g->n_esop));
        c.near((std::string(nm[k]) + " against its parts").c_str(), m[k].data(), s[k].data(), n, 0, t.data());
    }
    if (quad) {
        ref::Mat w[4];
        F.eval(A.r, B.r, g.c, w);
        VD t = norm_tol(A.r, B.r, 3e-13 * F.size);
        for (int k = 0; k < 4; k++) c.near((std::string(nm[k]) + " against quadrature").c_str(), m[k].data(), w[k].data(), n, 0, t.data());
    }
}

// every subset of {local, arep s..d, esop p..d, oc lists}
static void subsets(mc::Ctx &c)
{
    int local = c.choose(3, "local"), na = c.choose(4, "arep"), ne = c.choose(3, "esop"), no = c.choose((int)oclists().size(), "oc");
    auto gs = geos();
    c.desc("local %d, %d averaged, %d spin-orbit, pseudospinors %s", local, na, ne, oclists()[no].first);
    c.go();
    libgrpp_init();
    Full F;
    if (local) F.set_local(spec(local == 1 ? 2 : 4));
    for (int l = 0; l < na; l++) F.add_arep(l, spec(l + 1));
    for (int l = 1; l <= ne; l++) F.add_esop(l, spec(l));
    auto ol = oclists()[no].second;
    for (auto &o : ol) F.add_oc(o);
    for (int g = 0; g < (int)gs.size(); g++) {
        if (!mc::thorough && (g + local + na + ne + no) % 3) continue;
        for (int la = 0; la <= 2; la++)
            for (int lb = 0; lb <= 2; lb++) {
                if (!mc::thorough && (la + lb + g) % 2) continue;
                c.state("%s L=%d,%d", gs[g].name, la, lb);
                check(c, F, gs[g], la, lb, true);
            }
    }
}

// all sequences of up to 4 construction steps (thorough: 5), repeats and any order of angular momenta included
static void sequences(mc::Ctx &c)
{
    struct Op { char k; int l, j; };
    std::vector<Op> ops = {{'L', 0, 0}, {'a', 0, 0}, {'a', 1, 0}, {'a', 2, 0}, {'s', 1, 0}, {'s', 2, 0}, {'o', 0, 1}, {'o', 1, 1}, {'o', 1, 3}};
    int n = 1 + c.choose(mc::thorough ? 5 : 3, "length");
    std::vector<Op> q;
    std::string d;
    for (int i = 0; i < n; i++) {
        q.push_back(ops[c.choose((int)ops.size(), "operation")]);
        d += std::string(" ") + q[i].k + std::to_string(q[i].l) + (q[i].k == 'o' ? "," + std::to_string(q[i].j) + "/2" : "");
    }
    c.desc("built by%s", d.c_str());
    c.go();
    libgrpp_init();
    Full F;
    for (int i = 0; i < n; i++) {
        if (q[i].k == 'L') F.set_local(spec(i));
        if (q[i].k == 'a') F.add_arep(q[i].l, spec(i));
        if (q[i].k == 's') F.add_esop(q[i].l, spec(i + 1));
        if (q[i].k == 'o') F.add_oc({q[i].l, q[i].j, spec(i), {0.6, -0.5}, {2.4, 0.5 + i}});
    }
    auto gs = geos();
    for (int g : {2, 7}) {
        c.state("%s", gs[g].name);
        check(c, F, gs[g], 1, 1, true);
        if (mc::thorough) check(c, F, gs[g], 0, 2, true);
    }
}

// many components of one kind
static void many(mc::Ctx &c)
{
    int kind = c.choose(3, "kind"), n = c.pick("number", VI{8, 10, 11, 12, 30, 99, 100});
    c.desc("%d components of kind %d", n, kind);
    c.go();
    libgrpp_init();
    Full F;
    for (int i = 0; i < n; i++) {
        PotSpec u{{i % 3}, {1.0 + 0.01 * i}, {0.5 + 0.05 * i}, ""};
        if (kind == 0) F.add_arep(i % 4, u);
        if (kind == 1) F.add_esop(1 + i % 3, u);
        if (kind == 2) { if (i > 30) break; F.add_oc({i % 3, 2 * (i % 3) + 1, u, {1.0}, {0.4 + 0.1 * i}}); }
    }
    c.state("general");
    Geo g7 = geos()[7];
    check(c, F, g7, 1, 0, true);
}

int main(int argc, char **argv)
{
    mc::warmup = warm_tables;
    mc::prefork = libgrpp_init;
    return mc::drive(argc, argv, {{"subsets", subsets, 100}, {"construction sequences", sequences, 60}, {"many components", many, 100}});
}
