// H01: the result of a call does not depend on the calls before it.
#include "hist.hpp"

// operands that differ from the base in one respect each, so that anything remembered under too small a key shows
static const int NS = 14;
static const char *sname[NS] = {"base", "other operator centre", "other exponent of A", "other coefficients", "other potential strengths", "other powers",
                                "larger L", "other nucleus", "other l", "other point/derivative centre", "all coefficients zero", "far apart",
                                "longer contraction", "other exponent of the potential"};
static Scene scene(int v)
{
    Scene s;
    s.a = P3(0.7, 0.6, -0.5);
    s.b = P3(-0.4, 0.9, 0.8);
    s.c = P3(0.1, -0.2, 0.3);
    s.pt = s.a;
    s.la = 1;
    s.lb = 1;
    s.l = 1;
    s.ca = {0.6, -0.5};
    s.aa = {1.7, 0.3};
    s.cb = {0.8};
    s.ab = {0.45};
    s.u = PotSpec{{2, 1, 0}, {2.0, -3.0, 0.5}, {1.3, 6.0, 2.2}, "mixed"};
    s.oc = {{1, 1, PotSpec{{1, 2}, {-2.0, 0.7}, {1.4, 3.0}, ""}, {0.6, -0.5}, {2.4, 0.5}}, {1, 3, PotSpec{{2}, {1.3}, {0.9}, ""}, {1.0}, {0.7}}};
    s.nuc = {0.2, 0.03, -0.3};
    switch (v) {
        case 1: s.c = P3(0.1, -0.2, 0.9); break;
        case 2: s.aa = {1.7, 0.33}; break;
        case 3: s.ca = {0.6, -0.25}; s.cb = {0.4}; break;
        case 4: s.u.c = {2.0, -1.0, 0.5}; s.oc[0].u.c = {-1.0, 0.7}; break;
        case 5: s.u.n = {1, 1, 2}; s.oc[0].u.n = {2, 1}; break;
        case 6: s.la = 3; s.lb = 2; break;
        case 7: s.nuc = {0.3, 0.04, -0.1}; s.Z = 5; break;
        case 8: s.l = 2; s.oc[0].l = 2; s.oc[0].j2 = 3; break;
        case 9: s.pt = s.c; s.a = P3(0.7, 0.6, 0.2); break;
        case 10: s.ca = {0, 0}; s.u.c = {0, 0, 0}; break;
        case 11: s.b = P3(40, -30, 20); break;
        case 12: s.ca = {0.2, 0.5, -0.4, 0.3}; s.aa = {9.0, 2.0, 0.15, 0.7}; break;
        case 13: s.u.a = {1.3, 6.0, 2.5}; s.oc[0].u.a = {1.4, 3.5}; break;
    }
    return s;
}
static bool matters(int k, int v)
{
    bool p = uses_pot(k) || uses_full(k), n = k >= K_NUC_POINT && k <= K_NUC_BUBBLE, oc = uses_oc(k) || uses_full(k);
    switch (v) {
        case 1: return uses_centre(k);
        case 4: case 5: case 13: return p || oc;
        case 7: return n;
        case 8: return p || oc;
        case 9: return is_gradient(k);
    }
    return true;
}

struct Op { int kind, v; };     // kind < 0: settings and noise
enum { X_RADIAL = -1, X_ANGULAR = -2, X_BESSEL = -3, X_DEFAULT = -4, X_CYCLE = -5, X_INIT = -6, X_OBJECTS = -7, X_NUCLEAR = -8, X_FORTRAN = -9 };
static const char *xname[] = {"", "radial tolerance 1e-6", "angular tolerance 1e-6", "Bessel tolerance 1e-6", "default settings", "finalise, initialise", "initialise",
                              "objects made, copied, deleted", "nuclear models evaluated", "Fortran calls"};
static std::string oname(Op o) { return o.kind < 0 ? xname[-o.kind] : std::string(kname(o.kind)) + " (" + sname[o.v] + ")"; }

extern "C" {
void libgrpp_overlap_integrals_(double *, int *, int *, double *, double *, double *, int *, int *, double *, double *, double *);
}

static void noise(Op o, Settings &st)
{
    switch (o.kind) {
        case X_RADIAL: st.radial = 1e-6; libgrpp_set_radial_tolerance(1e-6); break;
        case X_ANGULAR: st.angular = 1e-6; libgrpp_set_angular_screening_tolerance(1e-6); break;
        case X_BESSEL: st.bessel = 1e-6; libgrpp_set_modified_bessel_tolerance(1e-6); break;
        case X_DEFAULT: st = Settings(); libgrpp_set_default_parameters(); break;
        case X_CYCLE: libgrpp_finalize(); libgrpp_init(); break;
        case X_INIT: libgrpp_init(); break;
        case X_OBJECTS: {
            for (int i = 0; i < 3; i++) {
                Live a(scene(6)), b(scene(0));
                libgrpp_shell_t *c = libgrpp_shell_deep_copy(a.A);
                libgrpp_shell_mult_normcoef(c);
                libgrpp_shell_shrink(c);
                libgrpp_potential_t *p = libgrpp_shrink_potential(b.pot);
                libgrpp_potential_value(p, 0.3);
                libgrpp_delete_potential(p);
                libgrpp_delete_shell(c);
            }
            break;
        }
        case X_NUCLEAR: {
            for (double r : {0.0, 1e-5, 0.1, 3.0}) {
                libgrpp_coulomb_potential_point(r, 7);
                libgrpp_coulomb_potential_ball(r, 7, 0.2);
                libgrpp_coulomb_potential_gaussian(r, 7, 0.2);
                libgrpp_coulomb_potential_fermi(r, 7, 0.2, 0.05);
                libgrpp_coulomb_potential_fermi_bubble(r, 7, 0.2, 0.05, -0.2);
                libgrpp_charge_density_ball(r, 7, 0.2);
                libgrpp_charge_density_fermi(r, 7, 0.2, 0.05);
            }
            break;
        }
        case X_FORTRAN: {
            double a[3] = {0.1, 0.2, 0.3}, b[3] = {-0.3, 0.5, 0}, c = 1, x = 0.4, m[100];
            int L = 2, n = 1;
            libgrpp_overlap_integrals_(a, &L, &n, &c, &x, b, &L, &n, &c, &x, m);
            break;
        }
    }
}

static void history(mc::Ctx &c, const std::vector<Op> &h, int fill)
{
    std::string d;
    for (auto &o : h) d += (d.empty() ? "" : "; ") + oname(o);
    c.desc("%s (heap fill %d)", d.c_str(), fill);
    c.go();
    libgrpp_init();
    // the reference: every call as the first one of a process, under the settings then in force
    std::vector<VD> want(h.size());
    Settings st;
    for (size_t i = 0; i < h.size(); i++) {
        if (h[i].kind < 0) {
            switch (h[i].kind) {
                case X_RADIAL: st.radial = 1e-6; break;
                case X_ANGULAR: st.angular = 1e-6; break;
                case X_BESSEL: st.bessel = 1e-6; break;
                case X_DEFAULT: st = Settings(); break;
            }
            continue;
        }
        bool ok;
        Op o = h[i];
        want[i] = in_child([&] { apply(st); return flat(evaluate(o.kind, scene(o.v))); }, ok);
        c.state("%s alone", oname(o).c_str());
        c.expect(ok, "the call alone ends the process");
    }
    perturb_heap(fill);
    st = Settings();
    for (size_t i = 0; i < h.size(); i++) {
        c.state("call %zu: %s", i + 1, oname(h[i]).c_str());
        c.call();
        if (h[i].kind < 0) { noise(h[i], st); continue; }
        VD got = flat(evaluate(h[i].kind, scene(h[i].v)));
        c.same(kname(h[i].kind), got.data(), want[i].data(), got.size() * sizeof(double));
    }
}

// all ordered pairs of calls (every kind, every variant of the operands, all noise) followed by nothing
static std::vector<Op> alphabet(bool full)
{
    std::vector<Op> r;
    for (int k = 0; k < K_ALL; k++)
        for (int v = 0; v < NS; v++)
            if (matters(k, v) && (full || v == 0 || v == 6 || v == 1)) r.push_back({k, v});
    return r;
}
static const std::vector<Op> noises = {{X_RADIAL, 0}, {X_ANGULAR, 0}, {X_BESSEL, 0}, {X_DEFAULT, 0}, {X_CYCLE, 0}, {X_INIT, 0}, {X_OBJECTS, 0}, {X_NUCLEAR, 0}, {X_FORTRAN, 0}};

// same kind: every pair (thorough: triple) of operand variants
static void same_kind(mc::Ctx &c)
{
    int k = c.choose(K_ALL, "kind");
    std::vector<int> vs;
    for (int v = 0; v < NS; v++) if (matters(k, v)) vs.push_back(v);
    std::vector<Op> h;
    for (int i = 0; i < (mc::thorough ? 3 : 2); i++) h.push_back({k, vs[c.choose((int)vs.size(), "operands")]});
    if (!mc::thorough) h.push_back(h[0]);        // and back
    history(c, h, 0);
}
// other kinds before
static void cross_kind(mc::Ctx &c)
{
    auto al = alphabet(mc::thorough), bl = mc::thorough ? alphabet(false) : alphabet(false);
    Op a = al[c.choose((int)al.size(), "first")], b = bl[c.choose((int)bl.size(), "second")];
    if (!mc::thorough && (a.v == 1 || b.v == 1)) return;
    if (a.kind == b.kind) return;
    history(c, {a, b}, 0x5a);
}
// settings, lifecycle and unrelated calls in between, all words of length 1-2 (thorough: 3)
static void around(mc::Ctx &c)
{
    int k = c.choose(K_ALL, "kind"), len = 1 + c.choose(mc::thorough ? 3 : 2, "length");
    std::vector<Op> h = {{k, 0}};
    for (int i = 0; i < len; i++) h.push_back(noises[c.choose((int)noises.size(), "between")]);
    h.push_back({k, 0});
    if (mc::thorough) h.push_back({k, 6});
    history(c, h, 0xa5);
}
// three calls of any kinds
static void triples(mc::Ctx &c)
{
    std::vector<Op> al;
    if (mc::thorough) {
        for (int k = 0; k < K_ALL; k++) { al.push_back({k, 0}); al.push_back({k, 6}); }
    } else
        for (int k : {K_OVERLAP, K_TYPE1, K_TYPE2, K_SO, K_OC, K_NUC_FERMI, K_TYPE1_G, K_FULL_G}) al.push_back({k, k % 2 ? 6 : 0});
    std::vector<Op> h;
    for (int i = 0; i < 3; i++) h.push_back(al[c.choose((int)al.size(), "call")]);
    history(c, h, 0);
}
// many calls in one process
static void many(mc::Ctx &c)
{
    int k = c.choose(K_ALL, "kind"), mode = c.choose(2, "mode");
    std::vector<Op> h;
    int n = mc::thorough ? 1500 : is_numerical(k) || is_gradient(k) ? 130 : 300;
    std::vector<int> vs;
    for (int v = 0; v < NS; v++) if (matters(k, v) && v != 6) vs.push_back(v);
    c.desc("%d calls of %s, %s", n, kname(k), mode ? "operands varied" : "same operands");
    c.go();
    libgrpp_init();
    std::vector<VD> want(NS);
    for (int v : vs) {
        bool ok;
        want[v] = in_child([&] { return flat(evaluate(k, scene(v))); }, ok);
        c.expect(ok, "the call alone ends the process");
    }
    for (int i = 0; i < n; i++) {
        int v = mode ? vs[(i * i + i / 7) % vs.size()] : vs[0];
        c.state("call %d (%s)", i + 1, sname[v]);
        c.call();
        VD got = flat(evaluate(k, scene(v)));
        c.same(kname(k), got.data(), want[v].data(), got.size() * sizeof(double));
    }
}
// the same objects used again and again: nothing may be remembered in them either
static void reused(mc::Ctx &c)
{
    auto al = alphabet(false);
    int v = c.pick<int>("operands", {0, 6, 8, 12});
    int k1 = c.choose(K_ALL, "first"), k2 = c.choose(K_ALL, "second");
    c.desc("%s, then %s, twice, on the same objects (%s)", kname(k1), kname(k2), sname[v]);
    c.go();
    libgrpp_init();
    bool ok1, ok2;
    VD w1 = in_child([&] { return flat(evaluate(k1, scene(v))); }, ok1), w2 = in_child([&] { return flat(evaluate(k2, scene(v))); }, ok2);
    c.state("alone");
    c.expect(ok1 && ok2, "the call alone ends the process");
    Live l(scene(v));
    for (int i = 0; i < 4; i++) {
        int k = i % 2 ? k2 : k1;
        c.state("call %d", i + 1);
        c.call();
        VD got = flat(evaluate(k, l.args()));
        c.same(kname(k), got.data(), (i % 2 ? w2 : w1).data(), got.size() * sizeof(double));
    }
}

// other objects in the same place: memory of deleted objects is handed out again, so an address says nothing about what is there
struct Placed {
    std::vector<void *> old, now;      // addresses of the objects in the order of their creation: of the previous generation, of this one
    long kept = 0;
    template <class T> T *at(std::function<T *()> make, std::function<void(T *)> drop)
    {
        void *want = now.size() < old.size() ? old[now.size()] : nullptr;
        std::vector<T *> wrong;
        T *p = make();
        while (want && p != want && wrong.size() < 40) { wrong.push_back(p); p = make(); }
        for (T *w : wrong) drop(w);
        kept += p == want;
        now.push_back(p);
        return p;
    }
    libgrpp_shell_t *shell(P3 o, int L, VD c, VD a)
    {
        return at<libgrpp_shell_t>([&] { return libgrpp_new_shell(o, L, (int)a.size(), c.data(), a.data()); }, libgrpp_delete_shell);
    }
    libgrpp_potential_t *pot(int L, int J, PotSpec u)
    {
        return at<libgrpp_potential_t>([&] { return libgrpp_new_potential(L, J, (int)u.n.size(), u.n.data(), u.c.data(), u.a.data()); }, libgrpp_delete_potential);
    }
    libgrpp_grpp_t *op()
    {
        return at<libgrpp_grpp_t>([] { return libgrpp_new_grpp(); }, libgrpp_delete_grpp);
    }
};
static double at_C[3], at_P[3], at_nuc[10];
static VD generation(Placed &pl, int k, const Scene &s)
{
    pl.old = pl.now;
    pl.now.clear();
    pl.kept = 0;
    Args x;
    x.A = pl.shell(s.a, s.la, s.ca, s.aa);
    x.B = pl.shell(s.b, s.lb, s.cb, s.ab);
    x.pot = pl.pot(s.l, 0, s.u);
    std::vector<libgrpp_potential_t *> u;
    std::vector<libgrpp_shell_t *> o;
    for (auto &q : s.oc) { u.push_back(pl.pot(q.l, q.j2, q.u)); o.push_back(pl.shell(P3(0, 0, 0), q.l, q.c, q.a)); }
    libgrpp_grpp_t *g = pl.op();
    libgrpp_grpp_set_local_potential(g, pl.pot(0, 0, s.u));
    libgrpp_grpp_add_averaged_potential(g, pl.pot(0, 0, s.u));
    if (s.l > 0) libgrpp_grpp_add_averaged_potential(g, pl.pot(s.l, 0, s.u));
    if (s.l > 0) libgrpp_grpp_add_spin_orbit_potential(g, pl.pot(s.l, 0, s.u));
    for (auto &q : s.oc) {
        libgrpp_potential_t *v = pl.pot(q.l, q.j2, q.u);
        libgrpp_grpp_add_outercore_potential(g, v, pl.shell(P3(1, 2, 3), q.l, q.c, q.a));
    }
    P3 C = s.c, P = s.pt;
    std::copy(C.v, C.v + 3, at_C);
    std::copy(P.v, P.v + 3, at_P);
    std::fill(at_nuc, at_nuc + 10, 0.0);
    std::copy(s.nuc.begin(), s.nuc.end(), at_nuc);
    x.C = at_C;
    x.point = at_P;
    x.noc = (int)u.size();
    x.ocp = u.data();
    x.ocs = o.data();
    x.g = g;
    x.Z = s.Z;
    x.nuc = at_nuc;
    VD r = flat(evaluate(k, x));
    libgrpp_delete_grpp(g);
    for (auto q : o) libgrpp_delete_shell(q);
    for (auto q : u) libgrpp_delete_potential(q);
    libgrpp_delete_potential(x.pot);
    libgrpp_delete_shell(x.B);
    libgrpp_delete_shell(x.A);
    return r;
}
static void places(mc::Ctx &c)
{
    int k = c.choose(K_ALL, "kind");
    std::vector<int> vs;
    for (int v = 0; v < NS; v++) if (matters(k, v)) vs.push_back(v);
    int v1 = vs[c.choose((int)vs.size(), "first")], v2 = vs[c.choose((int)vs.size(), "second")];
    if (v1 == v2) return;
    c.desc("%s (%s), then (%s) with other objects in the same places", kname(k), sname[v1], sname[v2]);
    c.go();
    libgrpp_init();
    bool ok1, ok2;
    VD w1 = in_child([&] { return flat(evaluate(k, scene(v1))); }, ok1), w2 = in_child([&] { return flat(evaluate(k, scene(v2))); }, ok2);
    c.state("alone");
    c.expect(ok1 && ok2, "the call alone ends the process");
    Placed pl;
    for (int i = 0; i < 4; i++) {
        int v = i % 2 ? v2 : v1;
        VD got = generation(pl, k, scene(v));
        c.state("generation %d, %ld of %zu in the old places", i + 1, pl.kept, pl.now.size());
        c.call();
        c.same(kname(k), got.data(), (i % 2 ? w2 : w1).data(), got.size() * sizeof(double));
    }
}

int main(int argc, char **argv)
{
    mc::prefork = libgrpp_init;
    return mc::drive(argc, argv, {{"same kind", same_kind, 60}, {"other kinds before", cross_kind, 60}, {"settings and noise between", around, 60},
                                  {"three calls", triples, 60}, {"many calls", many, 120}, {"same objects", reused, 60}, {"same places", places, 60}});
}
