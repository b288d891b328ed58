// H03: histories of object operations against a value model, with every allocation accounted for.
#include "hist.hpp"
#include "alloc.hpp"

typedef std::vector<std::pair<double, double>> Prims;      // coefficient, exponent
struct MShell { int L; P3 o; Prims p; std::vector<int> cart; };
struct MTerm { int n; double c, a; };
struct MPot { int L, J; std::vector<MTerm> t; };

static const double TINY = 1e-14;       // documented meaning of zero

struct World {
    mc::Ctx &c;
    // caller's arrays, overwritten by the history
    VD sc, sa, pc, pa;
    VI pn;
    P3 so;
    libgrpp_shell_t *sh[2] = {nullptr, nullptr};
    MShell ms[2];
    libgrpp_potential_t *po[2] = {nullptr, nullptr};
    MPot mp[2];
    libgrpp_grpp_t *g = nullptr;
    struct {
        bool local = false;
        MPot U;
        std::vector<MPot> arep, esop, oc;
        std::vector<MShell> sh;
    } mg;
    World(mc::Ctx &x) : c(x) {}

    void cmp_shell(const char *w, libgrpp_shell_t *s, const MShell &m)
    {
        c.expect(s->L == m.L, "angular momentum of a shell");
        c.expect(s->cart_size == (m.L + 1) * (m.L + 2) / 2 && libgrpp_get_shell_size(s) == s->cart_size, "size of a shell");
        c.expect(memcmp(s->cart_list, m.cart.data(), m.cart.size() * sizeof(int)) == 0, "Cartesian components of a shell");
        c.expect(memcmp(s->origin, m.o.v, 24) == 0, "origin of a shell");
        c.expect(s->num_primitives == (int)m.p.size(), "number of primitives of a shell");
        for (size_t i = 0; i < m.p.size(); i++)
            if (memcmp(&s->coeffs[i], &m.p[i].first, 8) || memcmp(&s->alpha[i], &m.p[i].second, 8))
                c.fail("%s: primitive %zu is (%g, %g), should be (%g, %g)", w, i, s->coeffs[i], s->alpha[i], m.p[i].first, m.p[i].second);
    }
    // the represented function is what counts: negligible terms may be kept or dropped, all others stay, in order
    void cmp_pot(const char *w, libgrpp_potential_t *p, const MPot &m)
    {
        c.expect(p->L == m.L && p->J == m.J, "L or J of a potential");
        int k = 0;
        for (auto &t : m.t) {
            bool here = k < p->num_primitives && p->powers[k] == t.n && p->coeffs[k] == t.c && p->alpha[k] == t.a;
            if (here) { k++; continue; }
            if (std::fabs(t.c) > TINY) c.fail("%s: term %g r^%d exp(-%g r^2) is missing or changed", w, t.c, t.n - 2, t.a);
        }
        if (k != p->num_primitives) c.fail("%s: %d terms, %d of them expected", w, p->num_primitives, k);
        for (double r : {0.01, 0.3, 1.0, 2.7}) {
            double v = 0, s = 0;
            for (auto &t : m.t) {
                double x = t.c * std::pow(r, t.n - 2) * std::exp(-t.a * r * r);
                v += x;
                s += std::fabs(x);
            }
            double neg = 0;       // terms that count as zero
            for (auto &t : m.t) if (std::fabs(t.c) <= TINY) neg += std::fabs(t.c) * std::pow(r, t.n - 2);
            double got = libgrpp_potential_value(p, r);
            c.near("value of a potential", &got, &v, 1, 1e-14 * s + neg + 1e-300);
        }
    }
    void look()
    {
        for (int i = 0; i < 2; i++) if (sh[i]) cmp_shell("shell", sh[i], ms[i]);
        for (int i = 0; i < 2; i++) if (po[i]) cmp_pot("potential", po[i], mp[i]);
        if (g) {
            c.expect((g->U_L != nullptr) == mg.local, "presence of the local part");
            if (mg.local) cmp_pot("local part", g->U_L, mg.U);
            c.expect(g->n_arep == (int)mg.arep.size() && g->n_esop == (int)mg.esop.size() && g->n_oc_shells == (int)mg.oc.size(), "numbers of components");
            for (size_t i = 0; i < mg.arep.size(); i++) cmp_pot("averaged part", g->U_arep[i], mg.arep[i]);
            for (size_t i = 0; i < mg.esop.size(); i++) cmp_pot("spin-orbit part", g->U_esop[i], mg.esop[i]);
            for (size_t i = 0; i < mg.oc.size(); i++) {
                cmp_pot("outercore potential", g->U_oc[i], mg.oc[i]);
                cmp_shell("outercore shell", g->oc_shells[i], mg.sh[i]);
            }
        }
    }
    static std::vector<int> carts(int L)
    {
        std::vector<int> r;
        for (int i = L; i >= 0; i--)
            for (int j = L - i; j >= 0; j--) { r.push_back(i); r.push_back(j); r.push_back(L - i - j); }
        return r;
    }
    void new_shell(int i, int v)
    {
        int L = v == 0 ? 2 : v == 1 ? 0 : 1;
        if (v == 0) { sc = {0.6, 0.0, -0.5, 1e-13}; sa = {1.7, 0.2, 0.3, 0.9}; }
        if (v == 1) { sc = {0.0}; sa = {0.4}; }
        if (v == 2) { sc = {}; sa = {}; }
        so = P3(0.3, -1.0, v);
        sh[i] = LIB(libgrpp_new_shell(so, L, (int)sc.size(), sc.data(), sa.data()));
        ms[i] = MShell{L, so, {}, carts(L)};
        for (size_t k = 0; k < sc.size(); k++) ms[i].p.push_back({sc[k], sa[k]});
        scramble();
    }
    void new_pot(int i, int v)
    {
        int L = v, J = 2 * v + 1;
        if (v == 0) { pn = {2, 0, 1, 2}; pc = {1.5, 0.0, -2.0, 1e-13}; pa = {0.8, 0.3, 2.5, 0.7}; }
        if (v == 1) { pn = {1}; pc = {0.0}; pa = {0.4}; }
        if (v == 2) { pn = {}; pc = {}; pa = {}; }
        po[i] = LIB(libgrpp_new_potential(L, J, (int)pn.size(), pn.data(), pc.data(), pa.data()));
        mp[i] = MPot{L, J, {}};
        for (size_t k = 0; k < pn.size(); k++) mp[i].t.push_back({pn[k], pc[k], pa[k]});
        scramble();
    }
    // the caller reuses its arrays
    void scramble()
    {
        for (auto &x : sc) x = 77;
        for (auto &x : sa) x = 78;
        for (auto &x : pc) x = 79;
        for (auto &x : pa) x = 80;
        for (auto &x : pn) x = 7;
        so = P3(9, 9, 9);
    }
    void end(int order)
    {
        for (int q = 0; q < 5; q++) {
            int k = order == 0 ? q : order == 1 ? 4 - q : (q * 2 + 1) % 5;
            if (k < 2 && sh[k]) { LIB((libgrpp_delete_shell(sh[k]), 0)); sh[k] = nullptr; }
            else if (k >= 2 && k < 4 && po[k - 2]) { LIB((libgrpp_delete_potential(po[k - 2]), 0)); po[k - 2] = nullptr; }
            else if (k == 4 && g) { LIB((libgrpp_delete_grpp(g), 0)); g = nullptr; }
            look();
        }
        if (heap::live) c.fail("%ld blocks (%ld bytes) allocated by the library are left after everything was deleted", heap::live, heap::bytes);
    }
};

enum { A_NEW0, A_NEW1, A_COPY, A_SHRINK, A_NORM, A_EDIT, A_DEL, B_NEW0, B_NEW1, B_SHRINK, B_EDIT, B_DEL, G_NEW, G_LOCAL, G_AREP, G_ESOP, G_OC, G_DEL, SWAP, G_USE, N_ACT };
static const char *an[] = {"new shell", "new shell (other)", "copy shell", "shrink shell", "normalise shell", "edit shell", "delete shell", "new potential", "new potential (other)",
                           "shrink potential", "edit potential", "delete potential", "new operator", "set local", "add averaged", "add spin-orbit", "add outercore", "delete operator", "swap slots", "use operator"};

// the model decides which actions are possible
static bool possible(int a, const bool s[2], const bool p[2], bool g, int ng)
{
    switch (a) {
        case A_NEW0: case A_NEW1: return !s[0];
        case A_COPY: return s[0] && !s[1];
        case A_SHRINK: case A_NORM: case A_EDIT: case A_DEL: return s[0];
        case B_NEW0: case B_NEW1: return !p[0];
        case B_SHRINK: return p[0] && !p[1];
        case B_EDIT: case B_DEL: return p[0];
        case G_NEW: return !g;
        case G_LOCAL: case G_AREP: case G_ESOP: return g && p[0];
        case G_OC: return g && p[0] && s[0];
        case G_DEL: case G_USE: return g;
        case SWAP: return s[1] || p[1];
    }
    return false;
}
static void effect(int a, bool s[2], bool p[2], bool &g)
{
    switch (a) {
        case A_NEW0: case A_NEW1: s[0] = true; break;
        case A_COPY: s[1] = true; break;
        case A_DEL: s[0] = false; break;
        case B_NEW0: case B_NEW1: p[0] = true; break;
        case B_SHRINK: p[1] = true; break;
        case B_DEL: p[0] = false; break;
        case G_NEW: g = true; break;
        case G_LOCAL: case G_AREP: case G_ESOP: p[0] = false; break;
        case G_OC: p[0] = s[0] = false; break;
        case G_DEL: g = false; break;
        case SWAP: std::swap(s[0], s[1]); std::swap(p[0], p[1]); break;
    }
}
static void act(World &w, int a)
{
    mc::Ctx &c = w.c;
    c.call();
    auto &S = w.sh[0];
    auto &P = w.po[0];
    switch (a) {
        case A_NEW0: w.new_shell(0, 0); break;
        case A_NEW1: w.new_shell(0, 2); break;
        case A_COPY: w.sh[1] = LIB(libgrpp_shell_deep_copy(S)); w.ms[1] = w.ms[0]; break;
        case A_SHRINK: {
            LIB((libgrpp_shell_shrink(S), 0));
            // only zero coefficients may go
            Prims keep;
            size_t k = 0;
            for (auto &x : w.ms[0].p) {
                bool here = (int)k < S->num_primitives && S->coeffs[k] == x.first && S->alpha[k] == x.second;
                if (here) { keep.push_back(x); k++; }
                else if (std::fabs(x.first) > TINY) c.fail("shrinking dropped or moved a primitive (%g, %g)", x.first, x.second);
            }
            for (auto &x : keep) c.expect(std::fabs(x.first) > TINY, "shrinking kept a zero coefficient");
            w.ms[0].p = keep;
            break;
        }
        case A_NORM: {
            LIB((libgrpp_shell_mult_normcoef(S), 0));
            for (size_t i = 0; i < w.ms[0].p.size(); i++) {
                int L = w.ms[0].L;
                // the library's convention: one factor for all components of the shell, without double factorials
                double a2 = w.ms[0].p[i].second;
                double f = std::pow(2 * a2 / M_PI, 0.75) * std::pow(4 * a2, 0.5 * L), want = w.ms[0].p[i].first * f, got = S->coeffs[i];
                c.near("normalised coefficient", &got, &want, 1, 1e-14 * std::fabs(want) + 1e-300);
                w.ms[0].p[i].first = got;
            }
            break;
        }
        case A_EDIT:
            for (int i = 0; i < S->num_primitives; i++) { S->coeffs[i] = 3.5 + i; S->alpha[i] = 4.5 + i; w.ms[0].p[i] = {3.5 + i, 4.5 + i}; }
            S->origin[1] = 0.25;
            w.ms[0].o.v[1] = 0.25;
            break;
        case A_DEL: LIB((libgrpp_delete_shell(S), 0)); S = nullptr; break;
        case B_NEW0: w.new_pot(0, 0); break;
        case B_NEW1: w.new_pot(0, 1); break;
        case B_SHRINK: w.po[1] = LIB(libgrpp_shrink_potential(P)); w.mp[1] = w.mp[0]; break;
        case B_EDIT: {
            MPot m = w.mp[0];
            m.t.clear();
            for (int i = 0; i < P->num_primitives; i++) { P->coeffs[i] = i % 2 ? 0.0 : 2.5 + i; P->alpha[i] = 0.5 + i; P->powers[i] = 2 - i % 3; m.t.push_back({P->powers[i], P->coeffs[i], P->alpha[i]}); }
            w.mp[0] = m;
            break;
        }
        case B_DEL: LIB((libgrpp_delete_potential(P), 0)); P = nullptr; break;
        case G_NEW: w.g = LIB(libgrpp_new_grpp()); w.mg = {}; break;
        case G_LOCAL: LIB((libgrpp_grpp_set_local_potential(w.g, P), 0)); w.mg.local = true; w.mg.U = w.mp[0]; P = nullptr; break;
        case G_AREP: LIB((libgrpp_grpp_add_averaged_potential(w.g, P), 0)); w.mg.arep.push_back(w.mp[0]); P = nullptr; break;
        case G_ESOP: LIB((libgrpp_grpp_add_spin_orbit_potential(w.g, P), 0)); w.mg.esop.push_back(w.mp[0]); P = nullptr; break;
        case G_OC: LIB((libgrpp_grpp_add_outercore_potential(w.g, P, S), 0)); w.mg.oc.push_back(w.mp[0]); w.mg.sh.push_back(w.ms[0]); P = nullptr; S = nullptr; break;
        case G_DEL: LIB((libgrpp_delete_grpp(w.g), 0)); w.g = nullptr; break;
        case SWAP: std::swap(w.sh[0], w.sh[1]); std::swap(w.ms[0], w.ms[1]); std::swap(w.po[0], w.po[1]); std::swap(w.mp[0], w.mp[1]); break;
        case G_USE: {
            // an operator that is used stays what it is
            VD ca = {1.0}, aa = {0.7};
            P3 o1(0, 0.1, 0.4), o2(0.3, 0, 0), z(0, 0, 0);
            bool fit = true;
            for (auto &x : w.mg.sh) if (x.p.empty()) fit = false;
            for (size_t i = 0; i < w.mg.oc.size(); i++) if (w.mg.oc[i].L != w.mg.sh[i].L) fit = false;
            if (!fit) break;
            auto A = libgrpp_new_shell(o1, 1, 1, ca.data(), aa.data()), B = libgrpp_new_shell(o2, 0, 1, ca.data(), aa.data());
            double m[4][3];
            LIB((libgrpp_full_grpp_integrals(A, B, w.g, z, m[0], m[1], m[2], m[3]), 0));
            libgrpp_delete_shell(A);
            libgrpp_delete_shell(B);
            break;
        }
    }
}

static void one(mc::Ctx &c, const std::vector<int> &h, int order)
{
    World w(c);
    for (size_t i = 0; i < h.size(); i++) {
        std::string d;
        for (size_t k = 0; k <= i; k++) d += std::string(k ? "; " : "") + an[h[k]];
        c.state("%s", d.c_str());
        act(w, h[i]);
        w.look();
    }
    c.where += ", then deletion in order " + std::to_string(order);
    w.end(order);
}
// every history up to the depth; those that differ only in the last two actions share a process (nothing is left alive in between)
static void histories(mc::Ctx &c, int depth, std::vector<int> prefix)
{
    struct M { bool s[2], p[2], g; } m = {{false, false}, {false, false}, false};
    std::vector<int> h;
    for (int a : prefix) { h.push_back(a); effect(a, m.s, m.p, m.g); }
    for (int i = 0; i < depth - 2; i++) {
        std::vector<int> ok;
        for (int a = 0; a < N_ACT; a++) if (possible(a, m.s, m.p, m.g, 0)) ok.push_back(a);
        int a = ok[c.choose((int)ok.size(), "action")];
        h.push_back(a);
        effect(a, m.s, m.p, m.g);
    }
    std::string d;
    for (int a : h) d += std::string(d.empty() ? "" : "; ") + an[a];
    c.desc("%s; and two more", d.c_str());
    c.go();
    heap::install();
    for (int a = 0; a < N_ACT; a++) {
        if (!possible(a, m.s, m.p, m.g, 0)) continue;
        M n = m;
        effect(a, n.s, n.p, n.g);
        h.push_back(a);
        for (int b = 0; b < N_ACT; b++) {
            if (!possible(b, n.s, n.p, n.g, 0)) continue;
            h.push_back(b);
            for (int o = 0; o < 3; o++) one(c, h, o);
            h.pop_back();
        }
        h.pop_back();
    }
}
static void from_nothing(mc::Ctx &c) { histories(c, mc::thorough ? 7 : 6, {}); }
static void from_shells(mc::Ctx &c) { histories(c, mc::thorough ? 6 : 5, {A_NEW0, A_COPY}); }
static void from_pots(mc::Ctx &c) { histories(c, mc::thorough ? 6 : 5, {B_NEW0, B_SHRINK, A_NEW0, G_NEW}); }
static void from_operator(mc::Ctx &c) { histories(c, mc::thorough ? 6 : 5, {G_NEW, B_NEW0, G_LOCAL, B_NEW0, A_NEW0, G_OC, B_NEW1, G_AREP}); }

// every number of components up to the capacity, every deletion pattern of the rest
static void capacity(mc::Ctx &c)
{
    int what = c.choose(3, "list"), n = c.choose(101, "components");
    c.desc("%d components in list %d", n, what);
    c.go();
    heap::install();
    World w(c);
    act(w, G_NEW);
    for (int i = 0; i < n; i++) {
        c.state("component %d", i + 1);
        w.new_pot(0, i % 3 == 2 ? 1 : 0);
        if (what == 2) w.new_shell(0, i % 2);
        act(w, what == 0 ? G_AREP : what == 1 ? G_ESOP : G_OC);
        if (i % 10 == 0 || i + 1 == n) w.look();
    }
    c.state("deleting everything");
    w.end(0);
}
// values: coefficient sizes around the threshold for zero, all powers, all positions
static void values(mc::Ctx &c)
{
    static const double cs[] = {0.0, 1.0, -2.5, 1e-12, -1e-13, 3e-14, 1e-16, 1e10};
    int a = c.choose(8, "first"), b = c.choose(8, "second"), d = c.choose(8, "third");
    c.desc("coefficients %g, %g, %g", cs[a], cs[b], cs[d]);
    c.go();
    heap::install();
    World w(c);
    VD co = {cs[a], cs[b], cs[d]}, al = {0.3, 1.1, 4.0};
    for (int np = 0; np < 27; np++) {
        VI n = {np % 3, np / 3 % 3, np / 9};
        c.state("powers %d %d %d", n[0], n[1], n[2]);
        w.po[0] = LIB(libgrpp_new_potential(3, 5, 3, n.data(), co.data(), al.data()));
        w.mp[0] = MPot{3, 5, {{n[0], co[0], al[0]}, {n[1], co[1], al[1]}, {n[2], co[2], al[2]}}};
        w.look();
        act(w, B_SHRINK);
        w.look();
        act(w, B_DEL);
        w.look();
        act(w, SWAP);
        act(w, B_DEL);
    }
    c.state("shell");
    P3 o(1, 2, 3);
    for (int L = 0; L <= 10; L++) {
        w.sh[0] = LIB(libgrpp_new_shell(o, L, 3, co.data(), al.data()));
        w.ms[0] = MShell{L, o, {{co[0], al[0]}, {co[1], al[1]}, {co[2], al[2]}}, World::carts(L)};
        w.look();
        for (int x : {A_COPY, A_SHRINK, A_NORM, SWAP, A_NORM, A_SHRINK, A_DEL, SWAP, A_EDIT, A_DEL}) { act(w, x); w.look(); }
    }
    w.end(0);
}

int main(int argc, char **argv)
{
    mc::prefork = libgrpp_init;
    return mc::drive(argc, argv, {{"histories", from_nothing, 30}, {"after two shells", from_shells, 30}, {"after two potentials", from_pots, 30}, {"after an operator", from_operator, 30},
                                  {"capacity", capacity, 30}, {"values", values, 30}});
}
