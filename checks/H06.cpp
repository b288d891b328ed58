// H06: tolerances bound the error; setters do only what they say.
#include "hist.hpp"
#include <map>

static const double TOLS[] = {1e-6, 1e-8, 1e-10, 1e-12, 1e-14, 1e-18};
static Scene scene(int g, int la, int lb, int l, int pv, int cv)
{
    auto gs = geos();
    Scene s;
    s.a = gs[g].a;
    s.b = gs[g].b;
    s.c = gs[g].c;
    s.pt = g % 3 == 0 ? s.a : g % 3 == 1 ? s.b : s.c;
    s.la = la;
    s.lb = lb;
    s.l = l;
    auto cs = contrs(5);
    s.ca = cs[cv].c;
    s.aa = cs[cv].a;
    s.cb = cs[(cv + 1) % 5].c;
    s.ab = cs[(cv + 1) % 5].a;
    s.u = pots()[pv];
    s.oc = oclists()[l == 0 ? 5 : l == 1 ? 4 : 9].second;
    s.nuc = {0.2, 0.03, -0.3};
    return s;
}
// how far a result may move: the tolerance times the size of the operator and of the functions
static void bound(mc::Ctx &c)
{
    int k = c.choose(K_ALL, "kind"), g = c.choose((int)geos().size(), "geometry"), cv = c.choose(mc::thorough ? 5 : 3, "contraction");
    int pv = uses_pot(k) || uses_full(k) ? c.choose((int)pots().size(), "potential") : 0;
    if (!mc::thorough && (uses_full(k) || is_gradient(k)) && pv % 4 != (g + cv) % 4) return;
    c.desc("%s, %s, %s, potential %s", kname(k), geos()[g].name, contrs(5)[cv].name, pots()[pv].name);
    c.go();
    libgrpp_init();
    for (int la = 0; la <= 2; la++)
        for (int lb = 0; lb <= 2; lb++) {
            if ((la + lb + g + pv) % 3 && (!mc::thorough || is_gradient(k))) continue;
            Scene s = scene(g, la, lb, (la + g) % 3, pv, cv);
            libgrpp_set_default_parameters();
            VD base = flat(evaluate(k, s));
            VD nt = ktol(k, s, 1.0), t;
            for (size_t b = 0; b < blocks(k).size(); b++) t.insert(t.end(), nt.begin(), nt.end());
            for (int which = 0; which < 4; which++)
                for (double tol : TOLS) {
                    Settings st;
                    if (which == 0 || which == 3) st.radial = tol;
                    if (which == 1 || which == 3) st.angular = tol;
                    if (which == 2 || which == 3) st.bessel = tol;
                    apply(st);
                    c.state("L=%d,%d tolerance %d = %g", la, lb, which, tol);
                    VD got = flat(evaluate(k, s)), tt = t;
                    c.call();
                    for (auto &x : tt) x *= 30 * tol + 1e-13;
                    c.near(kname(k), got.data(), base.data(), got.size(), 0, tt.data());
                }
            libgrpp_set_default_parameters();
            VD again = flat(evaluate(k, s));
            c.state("L=%d,%d defaults restored", la, lb);
            c.same(kname(k), again.data(), base.data(), base.size() * 8);
        }
}
extern "C" {
void libgrpp_set_default_parameters_();
void libgrpp_set_radial_tolerance_(const double *);
void libgrpp_set_angular_screening_tolerance_(const double *);
void libgrpp_set_modified_bessel_tolerance_(const double *);
void libgrpp_set_cartesian_order_(const int32_t *);
void libgrpp_init_();
void libgrpp_finalize_();
}
static int reversed(int L, int *l)
{
    int n = 0;
    for (int i = 0; i <= L; i++)
        for (int j = 0; j <= L - i; j++, n++) { l[3 * n] = i; l[3 * n + 1] = j; l[3 * n + 2] = L - i - j; }
    return n;
}
struct Model { double r = 1e-16, a = 1e-16, b = 1e-16; int order = 0; };
static const char *sn[] = {"radial 1e-7", "radial 1e-12 (F)", "angular 1e-8", "angular 1e-9 (F)", "bessel 1e-10", "bessel 1e-11 (F)", "order Dirac", "order Turbomole (F)", "own order",
                           "defaults", "defaults (F)", "init", "finalise, init (F)", "evaluate", "make and copy shells"};
static const int NSET = 15;
static void act(int x, Model &m)
{
    double t;
    int32_t o;
    switch (x) {
        case 0: libgrpp_set_radial_tolerance(1e-7); m.r = 1e-7; break;
        case 1: t = 1e-12; libgrpp_set_radial_tolerance_(&t); m.r = t; break;
        case 2: libgrpp_set_angular_screening_tolerance(1e-8); m.a = 1e-8; break;
        case 3: t = 1e-9; libgrpp_set_angular_screening_tolerance_(&t); m.a = t; break;
        case 4: libgrpp_set_modified_bessel_tolerance(1e-10); m.b = 1e-10; break;
        case 5: t = 1e-11; libgrpp_set_modified_bessel_tolerance_(&t); m.b = t; break;
        case 6: libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_DIRAC); m.order = 0; break;
        case 7: o = LIBGRPP_CART_ORDER_TURBOMOLE; libgrpp_set_cartesian_order_(&o); m.order = 0; break;
        case 8: libgrpp_set_cartesian_generator(reversed); m.order = 1; break;
        case 9: libgrpp_set_default_parameters(); m = Model(); break;
        case 10: libgrpp_set_default_parameters_(); m = Model(); break;
        case 11: libgrpp_init(); break;
        case 12: libgrpp_finalize(); libgrpp_init_(); break;
        case 13: evaluate(K_FULL_G, scene(7, 1, 0, 1, 9, 0)); break;
        case 14: {
            Live l(scene(7, 1, 2, 1, 9, 0));
            libgrpp_shell_t *q = libgrpp_shell_deep_copy(l.A);
            libgrpp_delete_shell(q);
            break;
        }
    }
}
static void look(mc::Ctx &c, const Model &m)
{
    c.expect(libgrpp_params.radial_tolerance == m.r, "radial tolerance is not what was set");
    c.expect(libgrpp_params.angular_screening_tolerance == m.a, "angular screening tolerance is not what was set");
    c.expect(libgrpp_params.modified_bessel_tolerance == m.b, "Bessel tolerance is not what was set");
    int *l = libgrpp_generate_shell_cartesians(2);
    bool rev = l[0] == 0 && l[1] == 0 && l[2] == 2, lex = l[0] == 2 && l[3] == 1 && l[4] == 1 && l[15] == 0 && l[17] == 2;
    free(l);
    c.expect(m.order ? rev : lex, "Cartesian order is not what was set");
}
// all words of settings, lifecycle and calls up to length 3 (4), then an evaluation
static void setters(mc::Ctx &c)
{
    int n = mc::thorough ? 4 : 3;
    std::vector<int> w;
    for (int i = 0; i < n - 1; i++) w.push_back(c.choose(NSET, "action"));
    std::string d;
    for (int x : w) d += std::string(d.empty() ? "" : "; ") + sn[x];
    c.desc("%s; and one more", d.c_str());
    c.go();
    libgrpp_init();
    c.state("start");
    look(c, Model());
    for (int last = 0; last < NSET; last++) {
        libgrpp_set_default_parameters();
        Model m;
        std::string h = "defaults";
        auto all = w;
        all.push_back(last);
        for (int x : all) {
            h += std::string("; ") + sn[x];
            c.state("%s", h.c_str());
            c.call();
            act(x, m);
            look(c, m);
        }
        for (int k : {K_TYPE1, K_NUC_GAUSS}) {
            Scene s = scene(7, 1, 1, 1, 9, 1);
            VD got = flat(evaluate(k, s));
            // the same settings, set directly
            bool ok;
            static std::map<std::array<double, 5>, VD> memo;
            std::array<double, 5> key = {m.r, m.a, m.b, (double)m.order, (double)k};
            if (!memo.count(key)) {
                libgrpp_set_default_parameters();
                libgrpp_set_radial_tolerance(m.r);
                libgrpp_set_angular_screening_tolerance(m.a);
                libgrpp_set_modified_bessel_tolerance(m.b);
                if (m.order) libgrpp_set_cartesian_generator(reversed);
                memo[key] = flat(evaluate(k, s));
            }
            c.same("result under the same settings", got.data(), memo[key].data(), got.size() * 8);
        }
    }
}
// what a process finds at its start
static void defaults(mc::Ctx &c)
{
    int f = c.choose(3, "start");
    c.desc("defaults %s", f == 0 ? "before initialisation" : f == 1 ? "after initialisation" : "after Fortran initialisation");
    c.go();
    if (f == 1) libgrpp_init();
    if (f == 2) libgrpp_init_();
    c.state("defaults");
    look(c, Model());
    c.call();
}
int main(int argc, char **argv)
{
    mc::prefork = libgrpp_init;
    return mc::drive(argc, argv, {{"bound", bound, 120}, {"setters", setters, 60}, {"defaults", defaults, 30}});
}
