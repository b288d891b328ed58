// Input files of the front-ends, the matrices they define (assembled here from the library's routines), and output files.
#pragma once
#include "grpp.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace front {

struct BBlock { VD e; std::vector<VD> c; };                       // one L: exponents, contracted functions
typedef std::vector<BBlock> Basis;                                // index = L
struct OcBlock { VD e; std::vector<VD> c; };
struct ABlock { VI n; VD e, arep, esop; std::vector<VD> oc; };
struct Ecp { std::vector<OcBlock> oc; std::vector<ABlock> a; };
struct Atom { int z; P3 r; std::string sym; };
struct Mol {
    std::vector<Atom> atoms;
    std::map<int, Basis> basis;
    std::map<int, Ecp> ecp;
};

struct ElementRow { const char *sym; int mass; };
// symbols and mass numbers of the most abundant (or longest-lived) isotopes, typed in independently of the front-ends
inline const std::vector<ElementRow> &elements()
{
    static const std::vector<ElementRow> t = {
        {"Gh", 0}, {"H", 1}, {"He", 4}, {"Li", 7}, {"Be", 9}, {"B", 11}, {"C", 12}, {"N", 14}, {"O", 16}, {"F", 19}, {"Ne", 20},
        {"Na", 23}, {"Mg", 24}, {"Al", 27}, {"Si", 28}, {"P", 31}, {"S", 32}, {"Cl", 35}, {"Ar", 40}, {"K", 39}, {"Ca", 40},
        {"Sc", 45}, {"Ti", 48}, {"V", 51}, {"Cr", 52}, {"Mn", 55}, {"Fe", 56}, {"Co", 59}, {"Ni", 58}, {"Cu", 63}, {"Zn", 64},
        {"Ga", 69}, {"Ge", 74}, {"As", 75}, {"Se", 80}, {"Br", 79}, {"Kr", 84}, {"Rb", 85}, {"Sr", 88}, {"Y", 89}, {"Zr", 90},
        {"Nb", 93}, {"Mo", 98}, {"Tc", 98}, {"Ru", 102}, {"Rh", 103}, {"Pd", 106}, {"Ag", 107}, {"Cd", 114}, {"In", 115}, {"Sn", 120},
        {"Sb", 121}, {"Te", 130}, {"I", 127}, {"Xe", 132}, {"Cs", 133}, {"Ba", 138}, {"La", 139}, {"Ce", 140}, {"Pr", 141}, {"Nd", 142},
        {"Pm", 145}, {"Sm", 152}, {"Eu", 153}, {"Gd", 158}, {"Tb", 159}, {"Dy", 164}, {"Ho", 165}, {"Er", 166}, {"Tm", 169}, {"Yb", 174},
        {"Lu", 175}, {"Hf", 180}, {"Ta", 181}, {"W", 184}, {"Re", 187}, {"Os", 192}, {"Ir", 193}, {"Pt", 195}, {"Au", 197}, {"Hg", 202},
        {"Tl", 205}, {"Pb", 208}, {"Bi", 209}, {"Po", 209}, {"At", 210}, {"Rn", 222}, {"Fr", 223}, {"Ra", 226}, {"Ac", 227}, {"Th", 232},
        {"Pa", 231}, {"U", 238}, {"Np", 237}, {"Pu", 244}, {"Am", 243}, {"Cm", 247}, {"Bk", 247}, {"Cf", 251}, {"Es", 252}, {"Fm", 257},
        {"Md", 258}, {"No", 259}, {"Lr", 266}, {"Rf", 267}, {"Db", 268}, {"Sg", 269}, {"Bh", 270}, {"Hs", 277}, {"Mt", 278}, {"Ds", 281},
        {"Rg", 282}, {"Cn", 285}, {"Nh", 286}, {"Fl", 289}, {"Mc", 290}, {"Lv", 293}, {"Ts", 294}, {"Og", 294}, {"E119", 303}, {"E120", 304},
        {"E121", 305}, {"E122", 306}, {"E123", 307}, {"E124", 308}, {"E125", 309}, {"E126", 310}, {"E127", 311}, {"E128", 312}, {"E129", 313}, {"E130", 314}};
    return t;
}

// ---------------------------------------------------------------- shapes
inline Basis basis_shape(int k, double f)
{
    BBlock none;
    switch (k) {
    case 0: return {{{0.7 * f}, {{1.0}}}};                                                         // one s function
    case 1: return {{{1.3 * f, 0.3 * f}, {{0.4, 0.7}}}, {{0.6 * f}, {{1.0}}}};                      // contracted s, p
    case 2: return {{{2.1 * f, 0.9 * f, 0.2 * f}, {{0.3, -0.5, 0.0}, {0.0, 0.0, 1.0}}}};            // general contraction with zeros
    case 3: return {none, {{0.8 * f, 0.25 * f}, {{0.5, 0.6}, {0.0, 1.0}}}};                         // no s block, two p
    case 4: return {{{0.5 * f}, {{2.0}}}, none, {{0.45 * f}, {{1.0}}}};                             // s, no p, d
    case 5: return {};                                                                              // no function at all
    case 6: return {{{0.9 * f, 0.3 * f}, {{1.0, 0.0}, {0.0, 1.0}}}, {{0.5 * f}, {{-1.0}}}, {{0.7 * f}, {{1.0}}}, {{0.6 * f}, {{1.0}}}};
    case 7: return {{{0.8 * f}, {{1.0}}}, none};                                                    // a block without functions at the end
    case 8: return {{{3.3 * f, 1.1 * f, 0.4 * f, 0.15 * f}, {{0.1, 0.2, 0.3, 0.4}, {-0.1, -0.3, 0.2, 0.9}, {0.0, 0.0, 0.5, 0.5}}}};
    case 9: return {{{0.4 * f}, {{1.0}}}, {{0.4 * f}, {{1.0}}}, {{0.4 * f}, {{1.0}}}, {{0.4 * f}, {{1.0}}}, {{0.4 * f}, {{1.0}}}};
    }
    return {};
}
enum { NBASIS = 10, NECP = 10 };
// f: scale of the exponents, so that two elements of one shape differ
inline Ecp ecp_shape(int k, double f)
{
    ABlock loc{{2, 1}, {1.1 * f, 2.5 * f}, {-1.5, 3.0}, {0.0, 0.0}, {}};
    ABlock loc_so{{2}, {0.9 * f}, {-2.5}, {0.3}, {}};
    ABlock s{{2, 0}, {1.4 * f, 3.2 * f}, {5.0, 0.8}, {0.0, 0.0}, {}};
    ABlock p{{2, 2}, {1.2 * f, 0.6 * f}, {4.0, -0.9}, {0.7, -0.2}, {}};
    ABlock d{{2}, {0.8 * f}, {2.2}, {-0.4}, {}};
    ABlock none;
    auto oc = [](ABlock b, std::vector<VD> v) { b.oc = v; return b; };
    switch (k) {
    case 0: return {{}, {loc}};                                                // the local potential only (at L = 0)
    case 1: return {{}, {s, p, loc}};
    case 2: return {{}, {s, p, d, loc_so}};                                    // a spin-orbit term in the block of the local potential
    case 3: return {{{{1.7 * f, 0.5 * f}, {{0.4, 0.8}}}}, {oc(s, {{1.5, -0.6}}), loc}};                                  // one outercore s shell
    case 4: return {{{{1.7 * f, 0.5 * f}, {{0.4, 0.8}}}, {{1.3 * f}, {{1.0}, {0.9}}}},
                    {oc(s, {{1.5, -0.6}}), oc(p, {{0.8, 0.1}, {-0.7, 0.5}}), loc}};                                       // s1/2, p1/2, p3/2
    case 5: return {{}, {s, none, none}};                                      // blocks without terms, at the end too
    case 6: return {{}, {none, p, loc}};
    case 7: return {{{{2.0 * f, 0.7 * f, 0.3 * f}, {{0.3, 0.4, 0.0}, {0.1, -0.5, 0.9}}}, {{1.0 * f, 0.4 * f}, {{0.5, 0.1}, {0.6, 0.1}, {-0.2, 0.9}, {-0.1, 1.0}}}, {{0.9 * f}, {{1.0}, {1.1}}}},
                    {oc(s, {{1.5, -0.6}, {-0.3, 0.4}}), oc(p, {{0.8, 0.1}, {-0.7, 0.5}, {0.2, 0.0}, {0.0, -0.4}}), oc(d, {{0.9}, {-1.1}}), loc}};   // two shells of each
    case 8: return {{{}, {{1.3 * f}, {{1.0}, {0.9}}}}, {s, oc(p, {{0.8, 0.1}, {-0.7, 0.5}}), loc}};                       // no outercore s shell
    case 9: return {{{{1.2 * f}, {{1.0}}}}, {oc(loc, {{0.6, 0.3}})}};          // outercore shell at the only (local) block
    }
    return {};
}

// molecules with long contractions, many contracted functions, high angular momenta, long potentials and many outercore shells
enum { NLARGE = 6 };
inline Mol large(int k)
{
    Mol m;
    m.atoms = {{26, P3(0.3, -0.2, 0.5), ""}, {1, P3(-0.9, 1.1, 0.25), ""}};
    m.basis[1] = basis_shape(0, 1.0);
    BBlock none;
    auto series = [](int np, int nc) {
        BBlock b;
        b.c.assign(nc, {});
        for (int i = 0; i < np; i++) {
            b.e.push_back(0.08 * std::pow(1.6, i * 13 % np));
            for (int j = 0; j < nc; j++) b.c[j].push_back((i + 2 * j) % 4 == 1 ? 0.0 : 0.7 * std::cos(1.3 * i + 0.7 * j));
        }
        return b;
    };
    auto block = [](int nt, bool so) {
        ABlock b;
        for (int i = 0; i < nt; i++) {
            b.n.push_back((i * 2 + 1) % 3);
            b.e.push_back(0.6 + 0.37 * (i * 5 % nt));
            b.arep.push_back(1.7 * std::cos(0.9 * i + 0.1));
            b.esop.push_back(so ? 0.4 * std::sin(1.1 * i + 0.4) : 0.0);
        }
        return b;
    };
    auto oc = [](ABlock b, int no) {
        for (int k = 0; k < no; k++) {
            b.oc.push_back({});
            for (size_t i = 0; i < b.n.size(); i++) b.oc.back().push_back(0.5 * std::cos(0.7 * i + 1.9 * k));
        }
        return b;
    };
    switch (k) {
    case 0: m.basis[26] = {series(28, 3), series(11, 2)}; m.ecp[26] = {{}, {block(3, false), block(2, true), block(4, false)}}; break;            // long contractions
    case 1: m.basis[26] = {series(4, 12), series(3, 4)}; m.ecp[26] = {{}, {block(2, false), block(2, false)}}; break;                              // many functions
    case 2: m.basis[26] = {basis_shape(0, 1.0)[0], none, none, none, none, {{0.9}, {{1.0}}}}; m.ecp[26] = {{}, {block(2, false), block(2, true), block(1, false)}}; break;   // L = 5
    case 3: m.basis[26] = basis_shape(1, 1.0); m.ecp[26] = {{}, {block(1, false), block(1, true), block(1, true), block(1, true), block(1, true), block(1, true), block(1, false)}}; break;   // l up to 5
    case 4: m.basis[26] = basis_shape(1, 1.0); m.ecp[26] = {{}, {block(20, false), block(17, true), block(9, true), block(21, false)}}; break;     // long potentials
    case 5: m.basis[26] = basis_shape(1, 1.0);                                                                                                    // 5 + 2 x 4 + 2 x 3 outercore shells
            m.ecp[26] = {{{series(6, 5).e, series(6, 5).c}, {series(5, 8).e, series(5, 8).c}, {series(2, 6).e, series(2, 6).c}}, {oc(block(2, false), 5), oc(block(3, true), 8), oc(block(2, true), 6), block(2, false)}};
            break;
    }
    return m;
}

// ---------------------------------------------------------------- layouts of the files
struct Layout {
    int order = 0;          // of the elements in the files: 0 as first used, 1 reversed
    int extra = 0;          // elements the molecule does not contain: 0 none, 1 in front, 2 behind, 3 in front, between and behind
    int comment = 0;        // lines between elements: 0 none, 1 blank, 2 text, 3 a single word, 4 everything
    int trail = 0;          // text at the end of data lines
    int number = 0;         // 0 plain, 1 exponents, 2 signs and leading blanks, 3 integers where exact
    int title = 0;          // comment line of the xyz file: 0 empty, 1 text, 2 looks like an atom, 3 looks like numbers
    int letters = 0;        // symbols: 0 as usual, 1 lower case, 2 upper case
    int tail = 0;           // lines after the atoms: 0 none, 1 blank line, 2 no newline at the end of the last line
};

inline std::string num(double v, int style)
{
    char b[60];
    switch (style) {
    case 1: snprintf(b, sizeof b, "%.16E", v); break;
    case 2: snprintf(b, sizeof b, "   %+.17g", v); break;
    case 3: snprintf(b, sizeof b, v == (int)v ? "%.0f" : "%.17g", v); break;
    default: snprintf(b, sizeof b, "%.15f", v);
    }
    // every style must mean the same number
    return b;
}
// the same value after printing and reading
inline double rnd(double v, int style) { return strtod(num(v, style).c_str(), nullptr); }

inline std::string comment(const Layout &l)
{
    static const char *c[] = {"", "\n", "! a comment of some words 1 2 3\n", "word\n", "\n\n! text, 10 1 2\nword\n\t\n    7\n\n"};
    return c[l.comment];
}
inline std::string basis_text(int z, const Basis &b, const Layout &l)
{
    std::string s = comment(l) + "* " + std::to_string(z) + " " + std::to_string(b.size()) + (l.trail ? "   trailing text" : "") + "\n";
    if (l.trail) s = comment(l) + "  *   " + std::to_string(z) + "\t" + std::to_string(b.size()) + "\n";
    for (auto &x : b) {
        s += std::to_string(x.e.size()) + " " + std::to_string(x.c.size()) + "\n";
        for (size_t i = 0; i < x.e.size(); i++) {
            s += num(x.e[i], l.number);
            for (auto &f : x.c) s += (l.trail ? "\t" : " ") + num(f[i], l.number);
            s += l.trail ? "   ! 1.0 text 2\n" : "\n";
        }
        if (l.comment == 1 || l.comment == 4) s += "\n";
    }
    return s;
}
inline std::string ecp_text(int z, const Ecp &e, const Layout &l)
{
    std::string s = comment(l) + "* " + std::to_string(z) + " " + std::to_string(e.oc.size()) + " " + std::to_string(e.a.size()) + "\n";
    for (auto &x : e.oc) {
        s += "  " + std::to_string(x.e.size()) + " " + std::to_string(x.c.size()) + (l.trail ? "     4S1/2     5S1/2 1" : "") + "\n";
        for (size_t i = 0; i < x.e.size(); i++) {
            s += num(x.e[i], l.number);
            for (auto &f : x.c) s += " " + num(f[i], l.number);
            s += "\n";
        }
    }
    for (auto &x : e.a) {
        s += std::to_string(x.e.size()) + " " + std::to_string(x.oc.size()) + (l.trail ? "   semilocal 2 1" : "") + "\n";
        for (size_t i = 0; i < x.e.size(); i++) {
            s += (l.number == 2 ? "+" : " ") + std::to_string(x.n[i]) + " " + num(x.e[i], l.number) + " " + num(x.arep[i], l.number) + " " + num(x.esop[i], l.number);
            for (auto &f : x.oc) s += (l.trail ? "\t" : " ") + num(f[i], l.number);
            s += l.trail ? "  ! 2 3.0\n" : "\n";
        }
        if (l.comment == 1 || l.comment == 4) s += "\n";
    }
    return s;
}
inline std::string sym(const Atom &a, const Layout &l)
{
    std::string s = a.sym.empty() ? elements()[a.z].sym : a.sym;
    for (char &c : s) c = l.letters == 1 ? tolower(c) : l.letters == 2 ? toupper(c) : c;
    return s;
}
struct Text { std::string xyz, basis, ecp; };
inline Text text(const Mol &m, const Layout &l)
{
    Text t;
    static const char *T[] = {"\n", "water, bohr\n", "He 1.0 2.0 3.0\n", "  2 0.5 0.5 0.5  \n"};
    t.xyz = std::to_string(m.atoms.size()) + (l.trail ? "  \n" : "\n") + T[l.title];
    for (size_t i = 0; i < m.atoms.size(); i++) {
        auto &a = m.atoms[i];
        t.xyz += (l.number == 2 ? "   " : "") + sym(a, l);
        for (int k = 0; k < 3; k++) t.xyz += (l.trail ? "\t" : " ") + num(a.r.v[k], l.number);
        if (l.tail != 2 || i + 1 < m.atoms.size()) t.xyz += "\n";
    }
    if (l.tail == 1) t.xyz += "\n  \n";
    std::vector<int> zs, ze;
    for (auto &a : m.atoms)
        if (std::find(zs.begin(), zs.end(), a.z) == zs.end()) zs.push_back(a.z);
    if (l.order) std::reverse(zs.begin(), zs.end());
    for (int z : zs)
        if (m.ecp.count(z)) ze.push_back(z);
    // elements that the molecule does not contain: charges that begin or end like those it contains
    std::vector<int> other;
    for (int z : {1, 10, 2, 12, 21, 20, 8, 80, 18, 81, 101, 110, 30, 3})
        if (std::find(zs.begin(), zs.end(), z) == zs.end() && other.size() < 5) other.push_back(z);
    auto ob = [&](int z) { return basis_text(z, basis_shape((z * 3 + 1) % NBASIS, 2.3), l); };
    auto oe = [&](int z) { return ecp_text(z, ecp_shape((z * 7 + 1) % NECP, 2.3), l); };
    if (l.extra == 1 || l.extra == 3) {
        t.basis += ob(other[0]) + ob(other[1]);
        t.ecp += oe(other[0]) + oe(other[2]);
    }
    for (size_t i = 0; i < zs.size(); i++) {
        t.basis += basis_text(zs[i], m.basis.at(zs[i]), l);
        if (l.extra == 3 && !i) t.basis += ob(other[2]);
    }
    for (size_t i = 0; i < ze.size(); i++) {
        t.ecp += ecp_text(ze[i], m.ecp.at(ze[i]), l);
        if (l.extra == 3 && !i) t.ecp += oe(other[1]);
    }
    if (l.extra == 2 || l.extra == 3) {
        t.basis += ob(other[3]);
        t.ecp += oe(other[3]) + oe(other[4]);
    }
    t.basis += comment(l);
    t.ecp += comment(l);
    return t;
}

// ---------------------------------------------------------------- directories and files
struct Dir {
    std::string p;
    Dir()
    {
        char b[] = "/tmp/mcfrontXXXXXX";
        if (!mkdtemp(b)) abort();
        p = b;
    }
    ~Dir()
    {
        DIR *d = opendir(p.c_str());
        if (d) {
            while (dirent *e = readdir(d))
                if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink((p + "/" + e->d_name).c_str());
            closedir(d);
        }
        rmdir(p.c_str());
    }
    std::set<std::string> files() const
    {
        std::set<std::string> r;
        DIR *d = opendir(p.c_str());
        while (dirent *e = readdir(d))
            if (e->d_name[0] != '.') r.insert(e->d_name);
        closedir(d);
        return r;
    }
    void put(const char *name, const std::string &s) const
    {
        FILE *f = fopen((p + "/" + name).c_str(), "w");
        fwrite(s.data(), 1, s.size(), f);
        fclose(f);
    }
    void put(const Text &t) const
    {
        put("molecule.xyz", t.xyz);
        put("basis.inp", t.basis);
        put("ecp.inp", t.ecp);
    }
};
struct Mat { int dim = -1; VD v; bool good = true; std::string err; };
inline Mat read_mat(const std::string &path)
{
    Mat m;
    FILE *f = fopen(path.c_str(), "r");
    if (!f) { m.good = false; m.err = "no file"; return m; }
    if (fscanf(f, "%d", &m.dim) != 1 || m.dim < 0 || m.dim > 2000) { m.good = false; m.err = "no dimension"; fclose(f); return m; }
    m.v.assign((size_t)m.dim * m.dim, 0.0);
    std::vector<char> seen(m.v.size(), 0);
    int i, j, n;
    double x;
    while ((n = fscanf(f, "%d%d%lf", &i, &j, &x)) == 3) {
        if (i < 1 || i > m.dim || j < 1 || j > i) { m.good = false; m.err = "index out of range"; break; }
        size_t k = (size_t)(i - 1) * m.dim + j - 1;
        if (seen[k]) { m.good = false; m.err = "element written twice"; break; }
        seen[k] = 1;
        m.v[k] = x;
    }
    if (m.good && n != EOF) { m.good = false; m.err = "unreadable line"; }
    fclose(f);
    return m;
}
// how: 0 ended normally with status 0
inline int run(const std::string &exe, std::vector<std::string> args, const std::string &dir, const char *threads = "1", int limit = 120)
{
    fflush(nullptr);
    pid_t p = fork();
    if (!p) {
        if (chdir(dir.c_str())) _exit(120);
        setenv("OMP_NUM_THREADS", threads, 1);
        int n = open("/dev/null", O_RDWR);
        dup2(n, 0);
        dup2(n, 1);
        dup2(n, 2);
        alarm(limit);
        std::vector<char *> v = {(char *)exe.c_str()};
        for (auto &a : args) v.push_back((char *)a.c_str());
        v.push_back(nullptr);
        execv(exe.c_str(), v.data());
        _exit(121);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}

// ---------------------------------------------------------------- the matrices that the files define
enum Flag { F_GRPP, F_POINT, F_POINT_NUM, F_BALL, F_GAUSS, F_FERMI, F_BUBBLE, F_OVERLAP, F_KIN, F_MOM, F_GGRAD, F_G1, F_G2, F_GSO, F_GOC, F_GOV, NFLAGS };
inline const char *flag_name(int f)
{
    static const char *n[] = {"--grpp", "--coulomb-point", "--coulomb-point-num", "--coulomb-ball", "--coulomb-gauss", "--coulomb-fermi", "--coulomb-fermi-bubble",
                              "--overlap", "--kinetic", "--momentum", "--grpp-grad", "--grad-type1", "--grad-type2", "--grad-spin-orbit", "--grad-outercore", "--overlap-grad"};
    return n[f];
}
typedef std::map<std::string, Mat> Files;

struct Assembly {
    const Mol &m;
    int style;
    std::vector<libgrpp_shell_t *> sh;
    std::vector<int> off;
    int dim = 0;
    std::map<int, libgrpp_grpp_t *> op;
    double tol;
    double r(double v) const { return rnd(v, style); }
    VD r(const VD &v) const
    {
        VD x;
        for (double y : v) x.push_back(r(y));
        return x;
    }
    P3 pos(int i) const { return P3(r(m.atoms[i].r.v[0]), r(m.atoms[i].r.v[1]), r(m.atoms[i].r.v[2])); }
    Assembly(const Mol &mm, const Layout &l) : m(mm), style(l.number)
    {
        libgrpp_init();
        for (size_t i = 0; i < m.atoms.size(); i++) {
            const Basis &b = m.basis.at(m.atoms[i].z);
            P3 o = pos((int)i);
            for (size_t L = 0; L < b.size(); L++)
                for (auto &c0 : b[L].c) {
                    VD e = r(b[L].e), c = r(c0);
                    // normalise x^L, in the library's convention for the primitives
                    double s = 0, dd = 1;
                    for (int k = 2 * (int)L - 1; k > 1; k -= 2) dd *= k;
                    for (size_t p = 0; p < e.size(); p++)
                        for (size_t q = 0; q < e.size(); q++) {
                            double g = e[p] + e[q];
                            s += c[p] * c[q] * pow(4 * e[p] * e[q] / (M_PI * M_PI), 0.75) * pow(16 * e[p] * e[q], 0.5 * L) * pow(M_PI / g, 1.5) * dd / pow(2 * g, (double)L);
                        }
                    double f = sqrt(dd / s);
                    for (auto &x : c) x *= f;
                    sh.push_back(libgrpp_new_shell(o, (int)L, (int)e.size(), c.data(), e.data()));
                    off.push_back(dim);
                    dim += libgrpp_get_shell_size(sh.back());
                }
        }
        for (auto &kv : m.ecp) {
            libgrpp_grpp_t *g = libgrpp_new_grpp();
            std::vector<libgrpp_shell_t *> os;
            std::vector<libgrpp_potential_t *> ou;
            double zero[3] = {0, 0, 0};
            const Ecp &e = kv.second;
            for (size_t L = 0; L < e.oc.size(); L++)
                for (auto &c0 : e.oc[L].c) {
                    VD ex = r(e.oc[L].e), c = r(c0);
                    os.push_back(libgrpp_new_shell(zero, (int)L, (int)ex.size(), c.data(), ex.data()));
                }
            for (size_t L = 0; L < e.a.size(); L++) {
                const ABlock &b = e.a[L];
                VI n = b.n;
                VD ex = r(b.e), ar = r(b.arep), es = r(b.esop);
                libgrpp_potential_t *u = libgrpp_new_potential((int)L, 0, (int)n.size(), n.data(), ar.data(), ex.data());
                if (L + 1 == e.a.size()) libgrpp_grpp_set_local_potential(g, u);
                else libgrpp_grpp_add_averaged_potential(g, u);
                if (L) libgrpp_grpp_add_spin_orbit_potential(g, libgrpp_new_potential((int)L, 0, (int)n.size(), n.data(), es.data(), ex.data()));
                for (size_t k = 0; k < b.oc.size(); k++) {
                    VD c = r(b.oc[k]);
                    int J = std::abs(2 * (int)L + (k % 2 ? 1 : -1));
                    ou.push_back(libgrpp_new_potential((int)L, J, (int)n.size(), n.data(), c.data(), ex.data()));
                }
            }
            if (os.size() != ou.size()) abort();
            for (size_t k = 0; k < os.size(); k++) libgrpp_grpp_add_outercore_potential(g, ou[k], os[k]);
            op[kv.first] = g;
        }
    }
    ~Assembly()
    {
        for (auto s : sh) libgrpp_delete_shell(s);
        for (auto &o : op) libgrpp_delete_grpp(o.second);
    }
    Mat &file(Files &f, const std::string &n) const
    {
        Mat &x = f[n];
        if (x.dim < 0) { x.dim = dim; x.v.assign((size_t)dim * dim, 0.0); }
        return x;
    }
    void add(Mat &x, int i, int j, const double *b, double f = 1) const
    {
        int ni = libgrpp_get_shell_size(sh[i]), nj = libgrpp_get_shell_size(sh[j]);
        for (int a = 0; a < ni; a++)
            for (int c = 0; c < nj; c++) x.v[(size_t)(off[i] + a) * dim + off[j] + c] += f * b[a * nj + c];
    }
    // pre: prefix of the file names
    void make(int flag, const std::string &pre, Files &f) const
    {
        static const char *X[] = {"x", "y", "z"};
        static const char *SO[] = {"arep", "so_x", "so_y", "so_z"};
        int na = (int)m.atoms.size();
        auto name = [&](const std::string &s) { return pre + s + ".txt"; };
        if (flag == F_GRPP)
            for (auto s : SO) file(f, name(s));
        static const char *NUC[] = {"nucattr_point", "nucattr_point_numerical", "nucattr_charged_ball", "nucattr_gaussian", "nucattr_fermi", "nucattr_fermi_bubble"};
        static const int MODEL[] = {LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE, LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE_NUMERICAL, LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL, LIBGRPP_NUCLEAR_MODEL_GAUSSIAN, LIBGRPP_NUCLEAR_MODEL_FERMI, LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE};
        if (flag >= F_POINT && flag <= F_BUBBLE) file(f, name(NUC[flag - F_POINT]));
        if (flag == F_OVERLAP) file(f, name("overlap"));
        if (flag == F_KIN) file(f, name("kinetic_energy"));
        if (flag == F_MOM)
            for (auto x : X) file(f, name(std::string("momentum_") + x));
        auto gname = [&](const std::string &what, int at, int x) { return name(what + "_" + std::to_string(at) + X[x]); };
        std::vector<std::string> g;
        if (flag == F_GGRAD) g = {"arep_grad", "so_x_grad", "so_y_grad", "so_z_grad"};
        if (flag == F_G1) g = {"arep_type1_grad"};
        if (flag == F_G2) g = {"arep_type2_grad"};
        if (flag == F_GSO) g = {"", "so_x_so_grad", "so_y_so_grad", "so_z_so_grad"};
        if (flag == F_GOC) g = {"arep_ocpot_grad", "so_x_ocpot_grad", "so_y_ocpot_grad", "so_z_ocpot_grad"};
        if (flag == F_GOV) g = {"overlap_grad"};
        for (auto &w : g)
            if (!w.empty())
                for (int a = 0; a < na; a++)
                    for (int x = 0; x < 3; x++) file(f, gname(w, a, x));
        for (size_t i = 0; i < sh.size(); i++)
            for (size_t j = 0; j < sh.size(); j++) {
                libgrpp_shell_t *A = sh[i], *B = sh[j];
                size_t n = (size_t)libgrpp_get_shell_size(A) * libgrpp_get_shell_size(B);
                VD b[12];
                for (auto &x : b) x.assign(n, 0.0);
                if (flag == F_OVERLAP) { libgrpp_overlap_integrals(A, B, b[0].data()); add(file(f, name("overlap")), i, j, b[0].data()); }
                if (flag == F_KIN) { libgrpp_kinetic_energy_integrals(A, B, b[0].data()); add(file(f, name("kinetic_energy")), i, j, b[0].data()); }
                if (flag == F_MOM) {
                    libgrpp_momentum_integrals(A, B, b[0].data(), b[1].data(), b[2].data());
                    for (int x = 0; x < 3; x++) add(file(f, name(std::string("momentum_") + X[x])), i, j, b[x].data());
                }
                if (flag >= F_POINT && flag <= F_BUBBLE)
                    for (int a = 0; a < na; a++) {
                        if (!m.atoms[a].z) continue;
                        int z = m.atoms[a].z, A0 = elements()[z].mass;
                        double par[3] = {0, 0, 0}, fm = 1.0 / 52917.7210903, rms = 0.836 * cbrt((double)A0) + 0.570;
                        if (flag == F_BALL || flag == F_GAUSS) par[0] = rms * fm;
                        if (flag == F_FERMI || flag == F_BUBBLE) {
                            double t = 2.30, aa = t / (4 * log(3.0)), cc = sqrt(5.0 / 3 * rms * rms - 7.0 / 3 * M_PI * M_PI * aa * aa);
                            par[0] = cc * fm;
                            par[1] = aa * fm;
                        }
                        P3 o = pos(a);
                        libgrpp_nuclear_attraction_integrals(A, B, o, z, MODEL[flag - F_POINT], par, b[0].data());
                        add(file(f, name(NUC[flag - F_POINT])), i, j, b[0].data());
                    }
                if (flag == F_GRPP)
                    for (int c = 0; c < na; c++) {
                        if (!op.count(m.atoms[c].z)) continue;
                        P3 o = pos(c);
                        libgrpp_full_grpp_integrals(A, B, op.at(m.atoms[c].z), o, b[0].data(), b[1].data(), b[2].data(), b[3].data());
                        for (int k = 0; k < 4; k++) add(file(f, name(SO[k])), i, j, b[k].data());
                    }
                for (int at = 0; at < na && !g.empty(); at++) {
                    P3 q = pos(at);
                    auto put = [&](const std::string &w, double **p, double s) {
                        for (int x = 0; x < 3; x++) add(file(f, gname(w, at, x)), i, j, p[x], s);
                    };
                    double *p[4][3];
                    for (int k = 0; k < 12; k++) p[k / 3][k % 3] = b[k].data();
                    if (flag == F_GOV) { libgrpp_overlap_integrals_gradient(A, B, q, p[0]); put(g[0], p[0], 1); continue; }
                    for (int c = 0; c < na; c++) {
                        if (!op.count(m.atoms[c].z)) continue;
                        P3 o = pos(c);
                        libgrpp_grpp_t *u = op.at(m.atoms[c].z);
                        if (flag == F_GGRAD) { libgrpp_full_grpp_integrals_gradient(A, B, u, o, q, p[0], p[1], p[2], p[3]); for (int k = 0; k < 4; k++) put(g[k], p[k], 1); }
                        if (flag == F_G1) { libgrpp_type1_integrals_gradient(A, B, o, u->U_L, q, p[0]); put(g[0], p[0], 1); }
                        if (flag == F_G2) for (int k = 0; k < u->n_arep; k++) { libgrpp_type2_integrals_gradient(A, B, o, u->U_arep[k], q, p[0]); put(g[0], p[0], 1); }
                        if (flag == F_GSO) for (int k = 0; k < u->n_esop; k++) {
                            libgrpp_spin_orbit_integrals_gradient(A, B, o, u->U_esop[k], q, p[1], p[2], p[3]);
                            for (int x = 1; x < 4; x++) put(g[x], p[x], 2.0 / (2 * u->U_esop[k]->L + 1));
                        }
                        if (flag == F_GOC) { libgrpp_outercore_potential_integrals_gradient(A, B, o, u->n_oc_shells, u->U_oc, u->oc_shells, q, p[0], p[1], p[2], p[3]); for (int k = 0; k < 4; k++) put(g[k], p[k], 1); }
                    }
                }
            }
    }
};
inline double top(const Mat &m)
{
    double t = 0;
    for (double x : m.v) t = std::max(t, fabs(x));
    return t;
}
// lower triangles; elements below the printing threshold may be missing
inline std::string differ(const Mat &got, const Mat &want, double rel, double cut)
{
    char b[200];
    if (!got.good) return got.err;
    if (got.dim != want.dim) { snprintf(b, sizeof b, "dimension %d instead of %d", got.dim, want.dim); return b; }
    double t = rel * top(want) + cut;
    for (int i = 0; i < want.dim; i++)
        for (int j = 0; j <= i; j++) {
            double g = got.v[(size_t)i * want.dim + j], w = want.v[(size_t)i * want.dim + j];
            if (!(fabs(g - w) <= t)) { snprintf(b, sizeof b, "element %d %d is %.16g, should be %.16g", i + 1, j + 1, g, w); return b; }
        }
    return "";
}
}  // namespace front
