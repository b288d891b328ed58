// H02: inputs unchanged, outputs completely overwritten and nothing else written.
#include "hist.hpp"

// byte image of everything reachable from the arguments
struct Image {
    std::vector<std::pair<std::string, std::vector<unsigned char>>> v;
    void add(const std::string &n, const void *p, size_t k)
    {
        v.push_back({n, std::vector<unsigned char>((const unsigned char *)p, (const unsigned char *)p + (p ? k : 0))});
    }
    void shell(const std::string &n, const libgrpp_shell_t *s)
    {
        add(n, s, sizeof *s);
        add(n + " components", s->cart_list, 3 * s->cart_size * sizeof(int));
        add(n + " coefficients", s->coeffs, s->num_primitives * sizeof(double));
        add(n + " exponents", s->alpha, s->num_primitives * sizeof(double));
    }
    void pot(const std::string &n, const libgrpp_potential_t *p)
    {
        if (!p) return;
        add(n, p, sizeof *p);
        add(n + " powers", p->powers, p->num_primitives * sizeof(int));
        add(n + " coefficients", p->coeffs, p->num_primitives * sizeof(double));
        add(n + " exponents", p->alpha, p->num_primitives * sizeof(double));
    }
    void all(const Args &a)
    {
        shell("shell A", a.A);
        shell("shell B", a.B);
        add("operator centre", a.C, 24);
        add("point", a.point, 24);
        pot("potential", a.pot);
        add("list of potentials", a.ocp, a.noc * sizeof(void *));
        add("list of shells", a.ocs, a.noc * sizeof(void *));
        for (int i = 0; i < a.noc; i++) {
            pot("outercore potential", a.ocp[i]);
            shell("outercore shell", a.ocs[i]);
        }
        add("operator", a.g, sizeof *a.g);
        pot("local potential", a.g->U_L);
        add("operator lists", a.g->U_arep, a.g->n_arep * sizeof(void *));
        add("operator lists", a.g->U_esop, a.g->n_esop * sizeof(void *));
        add("operator lists", a.g->U_oc, a.g->n_oc_shells * sizeof(void *));
        add("operator lists", a.g->oc_shells, a.g->n_oc_shells * sizeof(void *));
        for (int i = 0; i < a.g->n_arep; i++) pot("averaged potential of the operator", a.g->U_arep[i]);
        for (int i = 0; i < a.g->n_esop; i++) pot("spin-orbit potential of the operator", a.g->U_esop[i]);
        for (int i = 0; i < a.g->n_oc_shells; i++) {
            pot("outercore potential of the operator", a.g->U_oc[i]);
            shell("outercore shell of the operator", a.g->oc_shells[i]);
        }
        add("nuclear parameters", a.nuc, 10 * sizeof(double));
    }
};

static const double FILLS[] = {0.0, NAN, 1e300, -3.25, 5e-324};
static const char *FN[] = {"zeros", "NaN", "1e300", "-3.25", "denormal"};

// one call into guarded buffers with the given previous contents
static Blocks guarded(mc::Ctx &c, int k, const Args &a, double fill)
{
    const size_t G = 64;
    size_t n = (size_t)libgrpp_get_shell_size(a.A) * libgrpp_get_shell_size(a.B), nb = blocks(k).size();
    std::vector<double> buf((n + G) * nb + G);
    for (size_t i = 0; i < buf.size(); i++) buf[i] = 1234.5 + i;
    std::vector<double *> p;
    for (size_t b = 0; b < nb; b++) {
        p.push_back(buf.data() + G + b * (n + G));
        for (size_t i = 0; i < n; i++) p[b][i] = fill;
    }
    std::vector<double> was = buf;
    std::vector<double *> q = p;
    Image before, after;
    before.all(a);
    evaluate(k, a, p.data());
    c.call();
    after.all(a);
    c.expect(p == q, "the list of output pointers was changed");
    c.expect(before.v.size() == after.v.size(), "an input object changed its shape");
    for (size_t i = 0; i < before.v.size(); i++)
        if (before.v[i].second != after.v[i].second) c.fail("%s: input changed: %s", kname(k), before.v[i].first.c_str());
    Blocks r(nb, VD(n));
    for (size_t i = 0; i < buf.size(); i++) {
        bool in = false;
        for (size_t b = 0; b < nb; b++) {
            size_t o = G + b * (n + G);
            if (i >= o && i < o + n) { in = true; r[b][i - o] = buf[i]; }
        }
        if (!in && memcmp(&buf[i], &was[i], 8)) c.fail("%s: written outside the output blocks, at %ld of %zu", kname(k), (long)i - (long)G, n);
    }
    return r;
}

static void check(mc::Ctx &c, int k, const Scene &s, bool alias)
{
    Live l(s);
    Args a = l.args();
    Blocks ref;
    for (int f = 0; f < 5; f++) {
        c.state("L=%d,%d previous contents %s", s.la, s.lb, FN[f]);
        Blocks r = guarded(c, k, a, FILLS[f]);
        for (auto &b : r)
            for (double x : b)
                if (!std::isfinite(x)) c.fail("%s: result is %g", kname(k), x);
        if (f == 0) ref = r;
        else for (size_t b = 0; b < r.size(); b++) c.same(kname(k), r[b].data(), ref[b].data(), r[b].size() * 8);
    }
    if (!alias) return;
    // inputs that share memory are still only read
    Args x = a;
    x.point = x.C;
    Args y = a;
    P3 cc(x.C[0], x.C[1], x.C[2]);
    y.point = cc;
    c.state("L=%d,%d point and centre the same array", s.la, s.lb);
    c.same("shared array", flat(guarded(c, k, x, NAN)).data(), flat(guarded(c, k, y, NAN)).data(), ref[0].size() * ref.size() * 8);
    x = y = a;
    x.C = x.A->origin;
    P3 ao(x.A->origin[0], x.A->origin[1], x.A->origin[2]);
    y.C = ao;
    c.state("L=%d,%d centre is shell A's origin", s.la, s.lb);
    c.same("shared array", flat(guarded(c, k, x, NAN)).data(), flat(guarded(c, k, y, NAN)).data(), ref[0].size() * ref.size() * 8);
    x = y = a;
    x.B = x.A;
    y.B = libgrpp_shell_deep_copy(a.A);
    c.state("L=%d,%d bra and ket the same object", s.la, s.la);
    VD g = flat(guarded(c, k, x, NAN)), w = flat(guarded(c, k, y, NAN));
    c.same("shared shell", g.data(), w.data(), g.size() * 8);
    libgrpp_delete_shell(y.B);
}

static std::vector<PotSpec> potv()
{
    return {{{2, 1, 0}, {2.0, -3.0, 0.5}, {1.3, 6.0, 2.2}, "mixed"}, {{}, {}, {}, "empty"}, {{2}, {1.0}, {0.9}, "one"}, {{1, 2}, {1e-15, 0.0}, {1.0, 2.0}, "negligible"},
            {{2, 2, 1}, {0.0, 1.5, 1e-15}, {0.8, 0.5, 0.7}, "with negligible terms"}};
}
static Scene scene(int g, int la, int lb, int l, int pv, int ocv, int cv, int pt)
{
    auto gs = geos();
    Scene s;
    s.a = gs[g].a;
    s.b = gs[g].b;
    s.c = gs[g].c;
    P3 pts[4] = {s.a, s.b, s.c, P3(7, 8, 9)};
    s.pt = pts[pt];
    s.la = la;
    s.lb = lb;
    s.l = l;
    if (cv == 0) { s.ca = {0.6, -0.5}; s.aa = {1.7, 0.3}; s.cb = {0.8}; s.ab = {0.45}; }
    if (cv == 1) { s.ca = {0.0}; s.aa = {1.7}; s.cb = {0.8, 0.1}; s.ab = {0.45, 2.0}; }
    if (cv == 2) { s.ca = {0.3, 0.0, 1e-15}; s.aa = {1.7, 0.2, 0.5}; s.cb = {0.0, 0.0}; s.ab = {0.45, 0.3}; }
    if (cv == 3) { s.ca = {1.0}; s.aa = {900.0}; s.cb = {1.0}; s.ab = {700.0}; }      // screened away
    s.u = potv()[pv];
    s.oc = oclists()[ocv].second;
    s.nuc = {0.2, 0.03, -0.3};
    return s;
}

static void general(mc::Ctx &c)
{
    int k = c.choose(K_ALL, "kind"), g = c.choose((int)geos().size(), "geometry");
    int pv = uses_pot(k) || uses_full(k) ? c.choose((int)potv().size(), "potential") : 0;
    int ocv = uses_oc(k) || uses_full(k) ? c.pick<int>("pseudospinors", {4, 0, 9, 13}) : 0;
    if (uses_full(k) && pv > 1 && ocv != 4) return;
    int cv = c.choose(4, "contraction"), pt = is_gradient(k) ? c.choose(4, "point") : 0;
    if (!mc::thorough && is_gradient(k) && (pt + g + cv + pv) % 2) return;
    c.desc("%s, %s, potential '%s', %s, contraction %d, point %d", kname(k), geos()[g].name, potv()[pv].name, oclists()[ocv].first, cv, pt);
    c.go();
    libgrpp_init();
    int top = mc::thorough ? 4 : is_gradient(k) || uses_oc(k) || uses_full(k) ? 1 : 2;
    for (int la = 0; la <= top; la++)
        for (int lb = 0; lb <= top; lb++) check(c, k, scene(g, la, lb, (la + lb + g) % 3, pv, ocv, cv, pt), cv == 0 && pv == 0);
}
// sizes: larger shells, one general arrangement
static void sizes(mc::Ctx &c)
{
    int k = c.choose(K_ALL, "kind");
    bool cheap = k <= K_TYPE1 || k == K_NUC_POINT || k == K_OVERLAP_G;
    int top = cheap ? 10 : is_gradient(k) ? 3 : 4;
    if (mc::thorough) top = cheap ? 10 : is_gradient(k) ? 4 : 5;
    int la = c.choose(top + 1, "la"), lb = c.choose(top + 1, "lb");
    if (!mc::thorough && !cheap && la + lb > 6) return;
    c.desc("%s L=%d,%d", kname(k), la, lb);
    c.go();
    libgrpp_init();
    check(c, k, scene(7, la, lb, (la + lb) % 3, 2, 2, 0, 0), false);
}

int main(int argc, char **argv)
{
    mc::prefork = libgrpp_init;
    return mc::drive(argc, argv, {{"inputs and outputs", general, 60}, {"sizes", sizes, 120}});
}
