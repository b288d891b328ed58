// D01: the C front-end's output files for enumerated input files, against matrices assembled here from library calls.
#include "front.hpp"
using namespace front;

static std::string exe() { return std::string(getenv("MC_DRIVERS")) + "/test_libgrpp_c.x"; }

static std::vector<int> seq(int a, int b)
{
    std::vector<int> v;
    while (a <= b) v.push_back(a++);
    return v;
}
static const std::vector<int> ALL = seq(0, NFLAGS - 1);

// light: the Fermi model does not exist for a nucleus of the molecule
static bool light(const Mol &m)
{
    for (auto &a : m.atoms)
        if (a.z && elements()[a.z].mass < 5) return true;
    return false;
}
static bool has(const Mol &m, int z)
{
    return std::any_of(m.atoms.begin(), m.atoms.end(), [z](const Atom &a) { return a.z == z; });
}
static std::vector<int> without(std::vector<int> v, const std::vector<int> &w)
{
    std::vector<int> r;
    for (int x : v)
        if (std::find(w.begin(), w.end(), x) == w.end()) r.push_back(x);
    return r;
}
static void check(mc::Ctx &c, const Mol &m, const Layout &l, std::vector<int> flags, const char *what, bool all = false)
{
    // inputs of the known findings belong to the harness "unrepaired" alone
    if (!all) {
        flags = without(flags, {F_BUBBLE});
        if (light(m) || has(m, 0)) flags = without(flags, {F_FERMI});
        if (has(m, 45)) flags = without(flags, {F_BALL, F_GAUSS, F_FERMI});
    }
    Text t = text(m, l);
    std::string d = what;
    for (auto &a : m.atoms) d += " " + sym(a, l);
    c.desc("%s", d.c_str());
    Dir dir;
    dir.put(t);
    std::vector<std::string> args;
    for (int f : flags) args.push_back(flag_name(f));
    int how = run(exe(), args, dir.p);
    bool refuse = light(m) && std::any_of(flags.begin(), flags.end(), [](int f) { return f == F_FERMI || f == F_BUBBLE; });
    if (refuse) {
        c.call();
        Assembly a(m, l);
        c.expect(a.dim == 0 || (how != 0 && how < 1000), "the Fermi model has no parameters for a light nucleus, but the program reports success");
        c.expect(!dir.files().count("libgrpp_c_nucattr_fermi.txt") || a.dim == 0, "the Fermi model has no parameters for a light nucleus, but a matrix is written");
        return;
    }
    if (how) c.fail("the program ended with status %d", how);
    if (std::find(flags.begin(), flags.end(), F_GRPP) != flags.end()) libgrpp_set_radial_tolerance(1e-16);
    Files want;
    Assembly as(m, l);
    for (int f : std::set<int>(flags.begin(), flags.end())) as.make(f, "libgrpp_c_", want);
    std::set<std::string> have = dir.files();
    for (auto &w : want)
        if (!have.count(w.first)) c.fail("%s is missing", w.first.c_str());
    for (auto &h : have)
        if (h != "molecule.xyz" && h != "basis.inp" && h != "ecp.inp" && !want.count(h)) c.fail("%s was not asked for", h.c_str());
    for (auto &w : want) {
        c.call();
        std::string e = differ(read_mat(dir.p + "/" + w.first), w.second, 1e-10, 2e-14);
        if (!e.empty()) c.fail("%s: %s", w.first.c_str(), e.c_str());
        c.hash(w.second.v.data(), w.second.v.size() * 8);
    }
}

static const P3 R[4] = {P3(0.3, -0.2, 0.5), P3(-0.9, 1.1, 0.25), P3(1.5, 0.75, -1.125), P3(0.0, 2.0, -1.0)};

static void shapes(mc::Ctx &c)
{
    int two = c.choose(2, "atoms"), b = c.choose(NBASIS, "basis"), e = c.choose(NECP + 1, "ecp");
    int more = two && mc::thorough ? c.choose(4, "second") : 0;
    c.go();
    Mol m;
    m.atoms = {{26, R[0], ""}};
    m.basis[26] = basis_shape(b, 1.0);
    if (e < NECP) m.ecp[26] = ecp_shape(e, 1.0);
    if (two) {
        m.atoms.push_back({55, R[1], ""});
        m.basis[55] = basis_shape((3 * b + 1 + 2 * more) % 9, 1.15);
        int e2 = (7 * e + 3 + 3 * more) % (NECP + 1);
        if (e2 < NECP) m.ecp[55] = ecp_shape(e2, 0.85);
    }
    c.state("%d %d %d %d", two, b, e, more);
    char w[100];
    snprintf(w, sizeof w, "basis shape %d, pseudopotential shape %d, %d atom(s)", b, e, two + 1);
    // quick: every leaf the operator itself and one of each group of the other options in turn
    bool big = b == 9 || e == 7;
    std::vector<int> f = {F_GRPP, F_OVERLAP, F_KIN, F_MOM, F_POINT + (b + 2 * e) % 6};
    if (!big) f.push_back(F_GGRAD + (b + e + two) % 6);
    check(c, m, Layout(), mc::thorough ? ALL : f, w);
}
static Mol sample(int k)
{
    Mol m;
    if (k == 0) {
        m.atoms = {{26, R[0], ""}, {8, R[1], ""}};
        m.basis[26] = basis_shape(3, 1.0);
        m.basis[8] = basis_shape(1, 1.2);
        m.ecp[26] = ecp_shape(4, 1.0);
    } else {
        m.atoms = {{1, R[0], ""}, {55, R[2], ""}, {1, R[1], ""}};
        m.basis[1] = basis_shape(0, 1.0);
        m.basis[55] = basis_shape(4, 1.1);
        m.ecp[1] = ecp_shape(0, 1.0);
        m.ecp[55] = ecp_shape(2, 0.9);
    }
    return m;
}
static void sizes(mc::Ctx &c)
{
    int k = c.choose(NLARGE, "molecule");
    c.go();
    c.state("%d", k);
    Mol m = large(k);
    char w[100];
    snprintf(w, sizeof w, "large molecule %d", k);
    std::vector<int> f = {F_GRPP, F_OVERLAP, F_KIN, F_MOM, F_POINT, k == 5 ? F_GOC : k == 0 || k == 3 ? F_BALL : F_G2};
    check(c, m, Layout(), mc::thorough ? ALL : f, w);
}
static void layouts(mc::Ctx &c)
{
    static const int N[8] = {2, 4, 5, 2, 4, 1, 3, 3};      // title: see "unrepaired"
    static const char *W[8] = {"order", "extra", "comment", "trail", "number", "title", "letters", "tail"};
    int k = c.choose(2, "molecule");
    Layout l;
    int *f[8] = {&l.order, &l.extra, &l.comment, &l.trail, &l.number, &l.title, &l.letters, &l.tail};
    // at most so many features differ from the plain layout
    int left = mc::thorough ? 3 : 2;
    for (int i = 0; i < 8; i++) {
        *f[i] = c.choose(left ? N[i] : 1, W[i]);
        if (*f[i]) left--;
    }
    c.go();
    char w[200];
    snprintf(w, sizeof w, "layout order %d extra %d comment %d trail %d number %d title %d letters %d tail %d:", l.order, l.extra, l.comment, l.trail, l.number, l.title, l.letters, l.tail);
    c.state("%d %s", k, w);
    check(c, sample(k), l, {F_GRPP, F_OVERLAP, F_POINT, F_GAUSS}, w);
}
static void all_elements(mc::Ctx &c)
{
    int z = c.choose(130, "Z");
    if (z >= 102) z++;      // nobelium: see "unrepaired"
    Layout l;
    l.letters = mc::thorough ? c.choose(3, "letters") : z % 3;
    int k = mc::thorough ? c.choose(2, "kind") : 0;
    c.go();
    Mol m;
    m.atoms = {{z, R[0], ""}, {z == 8 ? 9 : 8, R[1], ""}};
    m.basis[z] = {{{50.0}, {{1.0}}}, {{0.6}, {{1.0}}}};
    m.basis[m.atoms[1].z] = {{{0.9}, {{1.0}}}};
    m.ecp[z] = ecp_shape(k ? 4 : 1, 1.0);
    c.state("%d %d", z, l.letters);
    check(c, m, l, k ? std::vector<int>{F_FERMI, F_POINT_NUM} : std::vector<int>{F_GRPP, F_POINT, F_BALL, F_GAUSS, F_FERMI, F_OVERLAP}, "element");
}
static void words(mc::Ctx &c)
{
    // elements: with everything, without pseudopotential, ghost with functions, without functions
    static const int Z[4] = {26, 10, 0, 82};
    int n = 1 + c.choose(mc::thorough ? 4 : 3, "atoms");
    Mol m;
    std::string d = "molecule";
    for (int i = 0; i < n; i++) {
        int k = c.choose(i == 2 && !mc::thorough ? 2 : 4, "element");
        m.atoms.push_back({Z[k], R[i], ""});
    }
    int same = n > 1 ? c.choose(2, "coincident") : 0;
    c.go();
    if (same) m.atoms[1].r = m.atoms[0].r;
    m.basis[26] = basis_shape(1, 1.0);
    m.basis[10] = basis_shape(2, 1.1);
    m.basis[0] = basis_shape(0, 0.8);
    m.basis[82] = {};
    m.ecp[26] = ecp_shape(3, 1.0);
    m.ecp[82] = ecp_shape(1, 1.2);
    Mol used = m;
    used.basis.clear();
    used.ecp.clear();
    for (auto &a : m.atoms) {
        used.basis[a.z] = m.basis[a.z];
        if (m.ecp.count(a.z)) used.ecp[a.z] = m.ecp[a.z];
        d += " " + std::to_string(a.z);
    }
    c.state("%s %d", d.c_str(), same);
    check(c, used, Layout(), n < 3 || mc::thorough ? ALL : seq(0, F_MOM), same ? "first two atoms at one point:" : "molecule");
}
static void flags(mc::Ctx &c)
{
    int a = c.choose(NFLAGS + 1, "first"), b = c.choose(a < NFLAGS ? NFLAGS + 1 : 1, "second");
    int third = mc::thorough && b < NFLAGS && a < b ? c.choose(NFLAGS + 1, "third") : NFLAGS;
    c.go();
    std::vector<int> f;
    for (int x : {a, b, third})
        if (x < NFLAGS) f.push_back(x);
    if (a == NFLAGS) f = {};
    c.state("%d %d %d", a, b, third);
    std::string w = "flags";
    for (int x : f) w += std::string(" ") + flag_name(x);
    Mol m;
    m.atoms = {{26, R[0], ""}, {8, R[1], ""}};
    m.basis[26] = {{{0.8}, {{1.0}}}};
    m.basis[8] = {{}, {{0.6}, {{1.0}}}};
    m.ecp[26] = ecp_shape(4, 1.0);
    if (!mc::thorough && a < NFLAGS && b < a) return;      // both orders only in the thorough tier
    check(c, m, Layout(), f, w.c_str());
}
// inputs on which the front-end is known to be wrong (known_findings.txt); nothing else covers them
static void unrepaired(mc::Ctx &c)
{
    static const int K[] = {3, 2, 1, 2, 2, 2};
    int k = c.choose(6, "finding"), j = c.choose(K[k], "which");
    c.go();
    c.state("%d %d", k, j);
    Mol m = sample(0);
    Layout l;
    switch (k) {
    case 0: l.title = j + 1; return check(c, m, l, {F_OVERLAP, F_GRPP}, "comment line of the XYZ file:", true);
    case 1: m.atoms[0].z = 45; m.basis[45] = {{{50.0}, {{1.0}}}}; m.basis.erase(26); m.ecp.clear();
        return check(c, m, l, {j ? F_GAUSS : F_BALL}, "rhodium:", true);
    case 2: m.atoms[0].z = 102; m.basis[102] = m.basis[26]; m.basis.erase(26); m.ecp.clear();
        return check(c, m, l, {F_OVERLAP}, "nobelium:", true);
    case 3: if (!j) { m.atoms.pop_back(); m.basis.erase(8); }
        return check(c, m, l, {F_BUBBLE}, "bubble option:", true);
    case 4: m.atoms[1].z = j ? 1 : 2; m.basis[m.atoms[1].z] = m.basis[8]; m.basis.erase(8);
        return check(c, m, l, {F_FERMI}, "light nucleus, Fermi model:", true);
    case 5: m.atoms[1].z = 0; m.basis[0] = m.basis[8]; m.basis.erase(8);
        return check(c, m, l, {j ? F_FERMI : F_GAUSS}, "ghost atom, finite nuclei:", true);
    }
}

int main(int argc, char **argv)
{
    mc::warmup = [] { libgrpp_init(); };
    return mc::drive(argc, argv, {{"shapes", shapes, 300}, {"sizes", sizes, 600}, {"layouts", layouts, 120}, {"elements", all_elements, 120}, {"molecules", words, 300}, {"flags", flags, 120}, {"unrepaired", unrepaired, 120}});
}
