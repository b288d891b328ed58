// D02: both front-ends on the same enumerated input files.
#include "front.hpp"
using namespace front;

static std::string exe(const char *n) { return std::string(getenv("MC_DRIVERS")) + "/" + n; }

// the Fortran front-end loses a header that follows a line with too few items, all but the first of them integers
static bool lost(const std::string &s, size_t items)
{
    bool few = false;
    size_t p = 0;
    while (p < s.size()) {
        size_t q = s.find('\n', p);
        if (q == std::string::npos) q = s.size();
        std::string line = s.substr(p, q - p);
        p = q + 1;
        std::vector<std::string> w;
        char *sp = nullptr;
        for (char *x = strtok_r(&line[0], " \t", &sp); x; x = strtok_r(nullptr, " \t", &sp)) w.push_back(x);
        if (w.empty()) continue;
        if (w[0] == "*" && few) return true;
        few = w.size() < items;
        for (size_t i = 1; i < w.size(); i++)
            if (w[i].find_first_not_of("+-0123456789") != std::string::npos) few = false;
    }
    return false;
}
static void check(mc::Ctx &c, const Mol &m, const Layout &l, bool grad, const char *what, bool all = false)
{
    Text t = text(m, l);
    // inputs of the known findings belong to the harness "unrepaired" alone
    if (!all && (lost(t.basis, 3) || lost(t.ecp, 4))) {
        return;
    }
    std::string d = what;
    for (auto &a : m.atoms) d += " " + sym(a, l);
    c.desc("%s", d.c_str());
    Dir dc, df;
    dc.put(t);
    df.put(t);
    std::vector<std::string> args = {"--grpp", "--overlap", "--coulomb-point"};
    if (grad) args.insert(args.end(), {"--grad-type1", "--grad-type2", "--grad-spin-orbit"});
    int hc = run(exe("test_libgrpp_c.x"), args, dc.p), hf = run(exe("test_libgrpp_f90.x"), {}, df.p);
    if (hc) c.fail("the C front-end ended with status %d", hc);
    if (hf) c.fail("the Fortran front-end ended with status %d", hf);
    struct Pair { std::string f, c1, c2; };
    std::vector<Pair> ps = {{"overlap", "overlap", ""}, {"nucattr", "nucattr_point", ""}};
    for (auto s : {"arep", "so_x", "so_y", "so_z"}) ps.push_back({s, s, ""});
    if (grad)
        for (size_t a = 0; a < m.atoms.size(); a++)
            for (auto x : {"x", "y", "z"}) {
                std::string e = std::to_string(a) + x;
                ps.push_back({"arep_grad_" + e, "arep_type1_grad_" + e, "arep_type2_grad_" + e});
                for (auto s : {"so_x", "so_y", "so_z"}) ps.push_back({std::string(s) + "_grad_" + e, std::string(s) + "_so_grad_" + e, ""});
            }
    for (auto &p : ps) {
        c.call();
        Mat f = read_mat(df.p + "/libgrpp_f90_" + p.f + ".txt"), g = read_mat(dc.p + "/libgrpp_c_" + p.c1 + ".txt");
        if (!g.good) c.fail("C front-end, %s: %s", p.c1.c_str(), g.err.c_str());
        double big = top(g);
        if (!p.c2.empty()) {
            Mat h = read_mat(dc.p + "/libgrpp_c_" + p.c2 + ".txt");
            if (!h.good) c.fail("C front-end, %s: %s", p.c2.c_str(), h.err.c_str());
            big = std::max(big, top(h));
            for (size_t k = 0; k < g.v.size(); k++) g.v[k] += h.v[k];
        }
        // two terms may cancel; the Fortran front-end leaves out elements below 1e-10
        std::string e = differ(f, g, 1e-9, 1.01e-10 + 1e-10 * big);
        if (!e.empty()) c.fail("Fortran front-end, %s: %s (C front-end)", p.f.c_str(), e.c_str());
        c.hash(g.v.data(), g.v.size() * 8);
    }
    // the Fortran front-end always evaluates gradients
    for (size_t a = 0; a < m.atoms.size(); a++)
        c.expect(read_mat(df.p + "/libgrpp_f90_arep_grad_" + std::to_string(a) + "x.txt").good, "gradient files of the Fortran front-end are missing");
}

static const P3 R[4] = {P3(0.3, -0.2, 0.5), P3(-0.9, 1.1, 0.25), P3(1.5, 0.75, -1.125), P3(0.0, 2.0, -1.0)};

static void shapes(mc::Ctx &c)
{
    int two = c.choose(2, "atoms"), b = c.choose(NBASIS, "basis"), e = c.choose(NECP + 1, "ecp");
    int more = two && mc::thorough ? c.choose(4, "second") : 0;
    c.go();
    bool big = b == 9 || b == 6;
    c.state("%d %d %d %d", two, b, e, more);
    if (!mc::thorough && ((two && (b + e) % 3) || (big && (two || e % 3)))) return;      // dear ones only in the thorough tier
    Mol m;
    m.atoms = {{26, R[0], ""}};
    m.basis[26] = basis_shape(b, 1.0);
    if (e < NECP) m.ecp[26] = ecp_shape(e, 1.0);
    if (two) {
        m.atoms.push_back({55, R[1], ""});
        int b2 = (3 * b + 1 + 2 * more) % 9;
        m.basis[55] = basis_shape(!mc::thorough && (b2 == 6 || b2 == 8) ? 3 : b2, 1.15);
        int e2 = (7 * e + 3 + 3 * more) % (NECP + 1);
        if (e2 < NECP) m.ecp[55] = ecp_shape(!mc::thorough && e2 == 7 ? 4 : e2, 0.85);
    }
    char w[100];
    snprintf(w, sizeof w, "basis shape %d, pseudopotential shape %d, %d atom(s)", b, e, two + 1);
    check(c, m, Layout(), true, w);
}
static void sizes(mc::Ctx &c)
{
    int k = c.choose(NLARGE, "molecule");
    c.go();
    c.state("%d", k);
    Mol m = large(k);
    char w[100];
    snprintf(w, sizeof w, "large molecule %d", k);
    check(c, m, Layout(), true, w);
}
static void layouts(mc::Ctx &c)
{
    static const int N[8] = {2, 4, 5, 2, 4, 1, 1, 3};      // title: see "unrepaired"
    static const char *W[8] = {"order", "extra", "comment", "trail", "number", "title", "letters", "tail"};
    int k = c.choose(2, "molecule");
    Layout l;
    int *f[8] = {&l.order, &l.extra, &l.comment, &l.trail, &l.number, &l.title, &l.letters, &l.tail};
    int left = mc::thorough ? 3 : 2;
    for (int i = 0; i < 8; i++) {
        *f[i] = c.choose(left ? N[i] : 1, W[i]);
        if (*f[i]) left--;
    }
    c.go();
    Mol m;
    if (k == 0) {
        m.atoms = {{26, R[0], ""}, {8, R[1], ""}};
        m.basis[26] = {{{0.8, 0.3}, {{0.4, 0.7}}}};
        m.basis[8] = {{}, {{0.6}, {{1.0}}}};
        m.ecp[26] = ecp_shape(4, 1.0);
    } else {
        m.atoms = {{1, R[0], ""}, {55, R[2], ""}, {1, R[1], ""}};
        m.basis[1] = {{{0.7}, {{1.0}}}};
        m.basis[55] = {{{0.6}, {{1.0}}}, {}};
        m.ecp[1] = ecp_shape(5, 1.0);
        m.ecp[55] = ecp_shape(1, 0.9);
    }
    char w[200];
    snprintf(w, sizeof w, "layout order %d extra %d comment %d trail %d number %d title %d tail %d:", l.order, l.extra, l.comment, l.trail, l.number, l.title, l.tail);
    c.state("%d %s", k, w);
    check(c, m, l, mc::thorough, w);
}
static void all_elements(mc::Ctx &c)
{
    int z = 1 + c.choose(129, "Z");
    if (z >= 102) z++;      // nobelium: see "unrepaired"; ghosts: outside the bounds of the Fortran arrays
    c.go();
    Mol m;
    m.atoms = {{z, R[0], ""}, {z == 8 ? 9 : 8, R[1], ""}};
    m.basis[z] = {{{50.0}, {{1.0}}}, {{0.6}, {{1.0}}}};
    m.basis[m.atoms[1].z] = {{{0.9}, {{1.0}}}};
    m.ecp[z] = ecp_shape(z % 2 ? 4 : 1, 1.0);
    c.state("%d", z);
    check(c, m, Layout(), mc::thorough, "element");
}
static void words(mc::Ctx &c)
{
    static const int Z[4] = {26, 10, 17, 82};
    int n = 1 + c.choose(3, "atoms");
    Mol m;
    for (int i = 0; i < n; i++) m.atoms.push_back({Z[c.choose(i == 2 && !mc::thorough ? 2 : 4, "element")], R[i], ""});
    int same = n > 1 ? c.choose(2, "coincident") : 0;
    c.go();
    if (same) m.atoms[1].r = m.atoms[0].r;
    std::map<int, Basis> b;
    std::map<int, Ecp> e;
    b[26] = basis_shape(3, 1.0);
    b[10] = {{{1.1, 0.4}, {{1.0, 0.5}}}};
    b[17] = basis_shape(0, 0.8);
    b[82] = {};
    e[26] = ecp_shape(3, 1.0);
    e[82] = ecp_shape(1, 1.2);
    std::string d;
    for (auto &a : m.atoms) {
        m.basis[a.z] = b[a.z];
        if (e.count(a.z)) m.ecp[a.z] = e[a.z];
        d += " " + std::to_string(a.z);
    }
    c.state("%s %d", d.c_str(), same);
    check(c, m, Layout(), n < 3 || mc::thorough, same ? "first two atoms at one point:" : "molecule");
}
// inputs on which a front-end is known to be wrong (known_findings.txt); nothing else covers them
static void unrepaired(mc::Ctx &c)
{
    static const int K[] = {3, 2, 2, 1};
    int k = c.choose(4, "finding"), j = c.choose(K[k], "which");
    c.go();
    c.state("%d %d", k, j);
    Mol m;
    Layout l;
    m.atoms = {{26, R[0], ""}, {8, R[1], ""}};
    m.basis[26] = {{{0.8, 0.3}, {{0.4, 0.7}}}};
    m.basis[8] = {{{0.6}, {{1.0}}}};
    m.ecp[26] = ecp_shape(4, 1.0);
    switch (k) {
    case 0: l.title = j + 1; return check(c, m, l, false, "comment line of the XYZ file:", true);
    case 1: l.comment = 3 + j; return check(c, m, l, false, "one-word comment:", true);
    case 2:
        if (!j) m.basis[26].push_back({});
        else { m.atoms.push_back({82, R[2], ""}); m.basis[82] = {}; m.ecp[26] = ecp_shape(5, 1.0); m.ecp[82] = ecp_shape(1, 1.2); }
        return check(c, m, l, false, "header after an empty block:", true);
    case 3: m.atoms[1].z = 102; m.basis[102] = m.basis[8]; m.basis.erase(8);
        return check(c, m, l, false, "nobelium:", true);
    }
}

int main(int argc, char **argv)
{
    return mc::drive(argc, argv, {{"shapes", shapes, 600}, {"sizes", sizes, 600}, {"layouts", layouts, 120}, {"elements", all_elements, 120}, {"molecules", words, 300}, {"unrepaired", unrepaired, 120}});
}
